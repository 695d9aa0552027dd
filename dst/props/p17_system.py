"""P17: the crystal system named is the symmetry the stiffness has."""
import copy
import os
import random
import re

from dst.engine import Violation, digest, shrink_list
from dst.gen import elastic as L

LEVEL = 'exploration'
RUNS = {'quick': 1200, 'thorough': 40000}
TIMEOUT = 120.0
RULE = ('A run = a history of 2-12 elastic analyses in one process: whole CLI sessions and calculators (new, given '
        'one file after another, after a refused or missing file, interleaved step by step, cut by Ctrl-C at a '
        'seeded output of the earlier analysis). Crystals are made by averaging a seeded stiffness over the '
        'rotations of one of nine classes, then possibly turned to other axes, given one modulus off its relation '
        'by 0.2, 10 or 500 times the tolerance or on one side of the matrix only, written whole or as a triangle. '
        'The system each report names is compared with the '
        'largest class under whose rotations the stiffness is unchanged (fourth-rank rotation, no table of '
        'relations); a calculator reporting twice must name it twice. Non-trivial: 2+ classes in one history; '
        'distinct by history digest.')
REAL = ['whole SOEC sessions and SOECCalculator of /repo', 'h5py/HDF5']
STUB = ['scipy optimisers (a few points only)', 'terminal (simulated user)', 'clock frozen']
ASSUMPTIONS = ['conventional axes: a symmetry about other axes than the conventional ones counts as none',
               'crystals closer than a factor of four to the tolerance of 1e-3 GPa are not judged']
FLOOR = {'judged': 4000, 'reused': 300, 'nudged': 900, 'turned': 700, 'interrupted': 30}


def one(rng):
    s = L.spec(rng, 0.05)
    s['skew'] = 0
    s['aniso'] = rng.choice([0.2, 0.5, 1.0])
    if rng.random() < 0.3:
        s['nudge'] = rng.choice([2e-4, 1e-2, 1e-2, 0.5])
        s['turn'] = None
    elif rng.random() < 0.1:
        s['form'], s['skew'] = 'full', 2e-4
    return {'spec': s, 'how': rng.choice(['cli', 'api', 'reuse', 'reuse']), 'quiet': rng.random() < 0.3,
            'before': rng.choice([None] * 6 + ['refused', 'gone']), 'run': rng.random() < 0.3,
            'twice': rng.random() < 0.4, 'cut': rng.randrange(1, 60) if rng.random() < 0.15 else None}


def scenario(rng, idx, tier):
    return {'jobs': [one(rng) for _ in range(rng.choice([2, 3, 4, 6, 9, 12]))], 'order': rng.randrange(1 << 30),
            'mix': rng.random() < 0.4}


def expected(C):
    """The name, or None for a crystal too close to the tolerance."""
    C = (C + C.T) / 2
    names = {L.system(C, t) for t in (2.5e-4, 1e-3, 4e-3)}
    return names.pop() if len(names) == 1 else None


def execute(sc, ctx):
    import sys

    from dst import sim, stubs
    from dst.world import World
    World(ctx)
    ctx.clock.on(step=0.)
    stubs.coarse_optimisers()
    from quantas.soec.soec import SOECCalculator
    jobs = sc['jobs']
    rng = random.Random(sc['order'])
    want = []
    for i, o in enumerate(jobs):
        m = L.crystal(o['spec'])
        want.append(expected(m['stiffness']))
        with open('in%d.dat' % i, 'w') as f:
            f.write(L.text(o['spec'], m))
        with open('bad%d.dat' % i, 'w') as f:
            f.write(L.text(o['spec'], m)[:150])
    plans = []
    for i, o in enumerate(jobs):
        if o['how'] == 'cli':
            plans.append([(i, 'cli')])
        else:
            plans.append([(i, s) for s in ['new', 'read', 'report'] + (['run'] if o['run'] else []) +
                          (['report'] if o['twice'] else []) + ['free']])
    steps = []
    if sc['mix']:
        live = [list(p) for p in plans]
        while any(live):
            steps.append(rng.choice([x for x in live if x]).pop(0))
    else:
        steps = [s for p in plans for s in p]
    calcs, free = {}, []
    screen = sim.Screen('out')

    def quiet(fn, *a):
        keep = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = screen
        try:
            return fn(*a)
        finally:
            sys.stdout, sys.stderr = keep

    def look(path, i, n, who):
        with open(path) as f:
            got = re.findall(r'^System is (.*)$', f.read(), re.M)
        if len(got) != n or want[i] and any(g != want[i] for g in got):
            raise Violation('system:%s' % want[i], '%s: named %s (%d expected), the stiffness is %s' % (who, got, n, want[i]))
        sim.EV.add('named', i, got)
        ctx.count('judged', int(want[i] is not None))
        ctx.count('nudged', int(want[i] is not None and o['spec']['nudge'] > 0))
        ctx.count('turned', int(want[i] is not None and bool(o['spec']['turn'])))
        ctx.seen('systems', '%s from %s%s' % (want[i], o['spec']['sym'], '/' + o['spec']['turn'] if o['spec']['turn'] else ''))

    for i, s in steps:
        o = jobs[i]
        who = 'analysis %d of %d (%s made, %s)' % (i + 1, len(jobs), o['spec']['sym'], o['how'])
        if s == 'cli':
            r = sim.run_cli(['soec', 'in%d.dat' % i, '-o', 'out%d' % i] + (['-q'] if o['quiet'] else []), lambda t, n: 'y')
            if r.exit or r.exc is not None:
                raise Violation('session', '%s: ends with %r %r' % (who, r.exit, r.exc))
            look('out%d.txt' % i, i, 1, who)
        elif s == 'new':
            if o['how'] == 'reuse' and free:
                c = free.pop(rng.randrange(len(free)))
                c.polar, c.silent, c.log = False, o['quiet'], 'api%d.txt' % i
                ctx.count('reused')
            else:
                c = SOECCalculator({'pressure_unit': 'GPa', 'debug': False, 'silent': o['quiet'], 'polar': False,
                                    'plotting': False, 'dpi': 80, 'logfile': 'api%d.txt' % i, 'outfig': None})
            calcs[i] = c
            if o['before']:
                try:
                    e = quiet(c.read_input, 'bad%d.dat' % i if o['before'] == 'refused' else 'none.dat')
                except Exception as x:
                    e = x
                if e is None:
                    raise Violation('accepted', '%s: a damaged file is read' % who)
        elif s == 'read':
            e = quiet(calcs[i].read_input, 'in%d.dat' % i)
            if e is not None:
                raise Violation('refused', '%s: %s' % (who, e))
        elif s == 'report':
            if os.path.exists('api%d.txt' % i):
                os.unlink('api%d.txt' % i)
            quiet(calcs[i].report_input_data)
            look('api%d.txt' % i, i, 1, who)
        elif s == 'run':
            left = [o['cut']]

            def stop(scr, t):
                left[0] -= 1
                if left[0] == 0:
                    raise KeyboardInterrupt
            if o['cut'] and not o['quiet']:
                sim.ON_WRITE = stop
            try:
                quiet(calcs[i].run)
            except KeyboardInterrupt:
                ctx.count('interrupted')
            finally:
                sim.ON_WRITE = None
        else:
            free.append(calcs.pop(i))
        sim.EV.add('step', i, s)
    if len(set(want)) > 1:
        ctx.nontrivial = digest(sim.EV.items + [repr(steps)])
    ctx.sample = {'steps': steps, 'systems': want}


def shrink(sc, extra):
    for js in shrink_list(sc['jobs']):
        if js:
            yield dict(sc, jobs=js)
    if sc['mix']:
        yield dict(sc, mix=False)
    for i, o in enumerate(sc['jobs']):
        for f, z in (('how', 'cli'), ('quiet', False), ('before', None), ('cut', None), ('run', False), ('twice', False)):
            if o[f] != z:
                n = copy.deepcopy(sc)
                n['jobs'][i][f] = z
                yield n
        for f, z in (('turn', None), ('skew', 0), ('nudge', 0), ('density', False), ('form', 'full'), ('kind', 'near')):
            if o['spec'][f] != z:
                n = copy.deepcopy(sc)
                n['jobs'][i]['spec'][f] = z
                yield n
