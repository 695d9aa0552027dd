"""P03: jobs run in one process - one after the other, interleaved step by step,
or by caller threads - behave as each does alone in a fresh process."""
import copy
import os
import random

from dst.engine import Violation, digest, shrink_list
from dst.gen import jobs as J

LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 12000}
TIMEOUT = 30.0
RULE = ('A run = 2-6 jobs in one process. Mode cli: whole command sessions (ha, qha, soec, eosfit, inpgen, '
        'export, some on damaged input or ended by EOF/Ctrl-C) one after the other; mode steps: calculators whose '
        'constructor/read/report/run/export steps are interleaved by seed; mode threads: the same steps on 2-3 '
        'caller threads switched at seeded source lines. Console, log, tables, results files and calculator '
        'results are compared with the same job alone in a pristine process; held calculators are observed again '
        'at the end. Non-trivial: two or more jobs, at least one completing; distinct by history digest.')
REAL = ['whole CLI sessions and calculators of /repo', 'click, PyYAML, numpy, scipy.odr, h5py/HDF5']
STUB = ['clock frozen', 'terminal (simulated user)', 'thread scheduler', 'SOEC angular searches coarsened']
ASSUMPTIONS = ['a pristine process is a fork taken before any job ran (modules imported, unused)']
FLOOR = {'jobs': 1000}


def scenario(rng, idx, tier):
    mode = rng.choice(['cli', 'cli', 'cli', 'steps', 'steps', 'threads'])
    if mode == 'cli':
        focus = rng.choice([None, None, ['inpgen-ha'], ['export-soec'], ['export-ha', 'export-qha'], ['eosfit'],
                            ['ha', 'qha'], ['soec'], ['inpgen-ha', 'inpgen-soec']])
        n = rng.randint(2, 5)
        jobs = [J.job(rng, focus if focus and rng.random() < 0.7 else None, polar=0.5) for _ in range(n)]
        for j in jobs:
            j['stop'] = [rng.randint(0, 6), rng.choice(['eof', 'ctrl-c'])] if rng.random() < 0.1 else None
            j['cut'] = rng.random() if rng.random() < 0.08 else None
            if j['cmd'].startswith('export-soec'):
                j['opts'] = ['--polar']
    else:
        cmds = rng.choice([['ha', 'qha'], ['qha'], ['ha'], ['soec'], ['ha', 'qha', 'soec']])
        n = rng.randint(2, 3)
        jobs = [J.job(rng, cmds, polar=0.5) for _ in range(n)]
        for j in jobs:
            j['stop'] = j['cut'] = None
            j['quiet'] = True
    return {'mode': mode, 'jobs': jobs, 'seed': rng.randrange(1 << 30), 'order': None,
            'rate': rng.choice([0.05, 0.01, 0.003]), 'plan': None}


def expensive(j):
    return j['cmd'] == 'export-soec'


def settings(j, log):
    """The runtime settings the command would build, through its own parser."""
    o = {'-T': (298.15, 298.15, 1.), '-P': (0., 0., 1.), '--eunit': 'Ha', '--vunit': 'A', '--funit': 'cm-1',
         '--tunit': 'K', '--punit': 'GPa', '-s': 'td', '-m': 'poly', '--eos': 'BM', '--edeg': 3, '--fdeg': 3}
    a = j['opts']
    k = 0
    while k < len(a):
        if a[k] in ('-T', '-P'):
            o[a[k]] = tuple(float(x) for x in a[k + 1:k + 4])
            k += 4
        elif a[k] == '--polar':
            k += 1
        else:
            o[a[k]] = int(a[k + 1]) if a[k] in ('--edeg', '--fdeg') else a[k + 1]
            k += 2
    ef = {'M': 'murnaghan', 'BM': 'birchmurnaghan', 'PT': 'pouriertarantola', 'V': 'vinet'}
    return {'trange': o['-T'], 'prange': o['-P'], 'energy_unit': o['--eunit'], 'lenght_unit': o['--vunit'],
            'frequency_unit': 'cm^-1' if o['--funit'] == 'cm-1' else o['--funit'],
            'temperature_unit': o['--tunit'], 'pressure_unit': o['--punit'], 'qha_scheme': o['-s'],
            'minimization': o['-m'], 'kieffer': False, 'edeg': o['--edeg'], 'fdeg': o['--fdeg'],
            'eos': o['--eos'], 'eos_function': ef[o['--eos']], 'debug': j['debug'], 'silent': True,
            'logfile': log, 'polar': '--polar' in a, 'plotting': False, 'dpi': 80, 'outfig': 'fig'}


class Steps(object):
    """A calculator driven step by step."""

    def __init__(self, j, path, tag):
        self.j, self.path, self.tag = j, path, tag
        self.calc = None
        self.done = []

    def todo(self):
        return ['new', 'read', 'report', 'run', 'results', 'export']

    def step(self, name):
        from quantas.harmonic.harmonic import HACalculator
        from quantas.qha.qha import QHACalculator
        from quantas.soec.soec import SOECCalculator
        cls = {'ha': HACalculator, 'qha': QHACalculator, 'soec': SOECCalculator}[J.base(self.j)]
        r = None
        try:
            if name == 'new':
                self.calc = cls(settings(self.j, self.tag + '_calc.txt'))
            elif name == 'read':
                r = self.calc.read_input(self.path)
            elif name == 'report':
                self.calc.report_input_data()
            elif name == 'run':
                self.calc.run()
            elif name == 'results':
                self.calc.report_results()
            elif name == 'export':
                self.calc.export_hdf5(self.tag + '_calc.hdf5')
        except Exception as e:
            r = 'raises ' + type(e).__name__
        from dst.world import norm
        res = None
        if name in ('run', 'export'):
            res = norm(getattr(self.calc, 'results', None))
        self.done.append((name, r, bool(getattr(self.calc, 'completed', None)),
                          repr(getattr(self.calc, 'error', None)), digest([res])))

    def final(self):
        from dst.world import norm
        return (digest([norm(getattr(self.calc, 'results', None))]),
                bool(getattr(self.calc, 'completed', None)), repr(getattr(self.calc, 'error', None)))


def put(sc, k):
    """Prepare the files of job k in its own folder; -> its input path"""
    from dst.world import quietly
    j = sc['jobs'][k]
    tag = 'j%d/in' % k
    os.makedirs('j%d/sub' % k, exist_ok=True)
    path = J.put_input(j, tag)
    if j['cut'] is not None:
        with open(path, 'rb') as f:
            d = f.read()
        with open(path, 'wb') as f:
            f.write(d[:int(len(d) * j['cut'])])
    if j['cmd'].startswith('export'):
        res = 'j%d/in_res' % k
        args = J.calc_args(dict(j, quiet=True, debug=False), path, out=res)

        def make():
            from dst import sim
            return sim.run_cli(args, lambda t, n: 'y').exit
        quietly(make)
        path = res + '.hdf5'
    elif j['out']:
        j = sc['jobs'][k]
    return path


def session(sc, k, path):
    """Run job k as a session; -> what can be observed"""
    j = dict(sc['jobs'][k])
    if j['out']:
        j['out'] = 'j%d/%s' % (k, j['out'])
    elif j['cmd'] == 'inpgen-ha':
        j['out'] = 'j%d/quantas_ha' % k
    u = J.user(j, stop=j['stop'], alt='j%d/other.dat' % k)
    s = J.run(j, path, user=u)
    fs = {}
    for d, _, ns in os.walk('j%d' % k):
        for n in ns:
            p = os.path.join(d, n)
            with open(p, 'rb') as f:
                fs[p] = J.canon(p, f.read())
    # mask nothing: the clock is frozen
    return {'exit': s.exit, 'exc': type(s.exc).__name__ if s.exc else None, 'out': s.out, 'err': s.err,
            'answers': [repr(a) for a in s.answers], 'files': fs}


def wipe(k, keep):
    for d, _, ns in os.walk('j%d' % k):
        for n in ns:
            p = os.path.join(d, n)
            if p not in keep:
                os.unlink(p)


def execute(sc, ctx):
    from dst import sim, stubs
    from dst.world import World, quietly
    w = World(ctx)
    stubs.coarse_optimisers()
    stubs.coarse_angles()
    ctx.clock.on(step=0.)
    n = len(sc['jobs'])
    paths = [put(sc, k) for k in range(n)]
    ctx.count('jobs', n)
    ctx.count('mode_' + sc['mode'])
    for j in sc['jobs']:
        ctx.seen('commands', j['cmd'])
    if sc['mode'] == 'cli':
        init = w.snap()
        alone = []
        for k in range(n):
            alone.append(quietly(session, sc, k, paths[k]))
            wipe(k, init)
        got = []
        for k in range(n):
            got.append(session(sc, k, paths[k]))
        for k in range(n):
            compare(sc, k, alone[k], got[k])
        final = {}
        for k in range(n):
            for p, was in got[k]['files'].items():
                if not os.path.exists(p):
                    raise Violation('later:' + sc['jobs'][k]['cmd'], '%s of job %d disappeared' % (p, k))
                with open(p, 'rb') as f:
                    if J.canon(p, f.read()) != was:
                        raise Violation('later:' + sc['jobs'][k]['cmd'],
                                        '%s of job %d changed when other jobs ran' % (p, k))
        ok = sum(1 for g in got if g['exit'] == 0 and not g['exc'])
        ctx.count('sessions_completed', ok)
        if ok and n > 1:
            ctx.nontrivial = digest(sim.EV.items)
        ctx.sample = {'mode': 'cli', 'jobs': [[j['cmd']] + j['opts'] for j in sc['jobs']]}
        return
    # calculators
    logs = ['j%d/in' % k for k in range(n)]

    def solo(k):
        s = Steps(sc['jobs'][k], paths[k], logs[k])
        scr = sim.Screen('out')
        import sys
        keep = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = scr
        try:
            for st in s.todo():
                s.step(st)
        finally:
            sys.stdout, sys.stderr = keep
        return s.done, s.final(), collect(logs[k])
    alone = []
    for k in range(n):
        alone.append(quietly(solo, k))
        for e in ('_calc.txt', '_calc.hdf5'):
            if os.path.exists(logs[k] + e):
                os.unlink(logs[k] + e)
    objs = [Steps(sc['jobs'][k], paths[k], logs[k]) for k in range(n)]
    import sys
    scr = sim.Screen('out')
    keep = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = scr
    try:
        if sc['mode'] == 'steps':
            order = sc['order']
            if order is None:
                order = []
                for k in range(n):
                    order += [k] * len(objs[k].todo())
                random.Random(sc['seed']).shuffle(order)
            pos = [0] * n
            used = []
            for k in order:
                if pos[k] < len(objs[k].todo()):
                    st = objs[k].todo()[pos[k]]
                    objs[k].step(st)
                    sim.EV.add('step', k, st, objs[k].done[-1])
                    pos[k] += 1
                    used.append(k)
            ctx.extra = {'order': used}
            ctx.count('steps', len(used))
        else:
            b = sim.Baton(random.Random(sc['seed']), sc['rate'], sc['plan'])

            def body(o):
                for st in o.todo():
                    o.step(st)
            res = b.run([('t%d' % k, (lambda o=o: body(o))) for k, o in enumerate(objs)])
            for name in sorted(res):
                if res[name][0] == 'exc':
                    raise res[name][1]
            for k, o in enumerate(objs):
                sim.EV.add('thread', k, o.done)
            ctx.extra = {'trace': b.trace}
            ctx.count('switches', len(b.trace))
            sim.EV.add('trace', b.trace)
    finally:
        sys.stdout, sys.stderr = keep
    for k, o in enumerate(objs):
        done, fin, files = alone[k]
        c = sc['jobs'][k]['cmd']
        for a, g in zip(done, o.done):
            if a != g:
                raise Violation('calculator:%s:%s' % (c, a[0]), 'job %d %s: step %s gives %s, alone %s' % (
                    k, [c] + sc['jobs'][k]['opts'], a[0], g, a))
        if len(o.done) == len(done):
            if o.final() != fin:
                raise Violation('held:%s' % c, 'held calculator %d (%s) changed: %s, alone %s' % (
                    k, c, o.final(), fin))
            f2 = collect(logs[k])
            for p in sorted(set(f2) | set(files)):
                if f2.get(p) != files.get(p):
                    raise Violation('file:%s:%s' % (c, p.rsplit('_', 1)[-1]),
                                    '%s of job %d differs from the job alone' % (p, k))
    ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'mode': sc['mode'], 'jobs': [[j['cmd']] + j['opts'] for j in sc['jobs']]}


def collect(tag):
    out = {}
    for e in ('_calc.txt', '_calc.hdf5'):
        p = tag + e
        if os.path.exists(p):
            with open(p, 'rb') as f:
                out[p] = J.canon(p, f.read())
    return out


def compare(sc, k, a, g):
    from dst.world import where
    c = sc['jobs'][k]['cmd']
    who = 'job %d %s after %s' % (k, [c] + sc['jobs'][k]['opts'], [j['cmd'] for j in sc['jobs'][:k]])
    for f in ('exc', 'exit', 'answers'):
        if a[f] != g[f]:
            raise Violation('%s:%s' % (f, c), '%s: %s is %r, alone %r\n%s' % (
                who, f, g[f], a[f], (g['err'] + g['out'])[-600:]))
    for f in ('out', 'err'):
        if a[f] != g[f]:
            raise Violation('console:%s' % c, '%s: %s, alone/here differ at %s' % (who, f, where(a[f], g[f])))
    for p in sorted(set(a['files']) | set(g['files'])):
        x, y = a['files'].get(p), g['files'].get(p)
        if x != y:
            kind = 'hdf5' if p.endswith('.hdf5') else 'log' if p.endswith(('.txt', '.log')) else 'table'
            d = where(x, y) if isinstance(x, bytes) and isinstance(y, bytes) else 'contents differ'
            if isinstance(x, dict) and isinstance(y, dict):
                d = 'datasets differ: %s' % [q for q in sorted(set(x) | set(y)) if x.get(q) != y.get(q)]
            raise Violation('%s:%s' % (kind, c), '%s: file %s: %s' % (who, p, d))


def shrink(sc, extra):
    def v(**kw):
        n = copy.deepcopy(sc)
        n.update(kw)
        return n
    if sc['plan'] is None and sc['order'] is None:
        for js in shrink_list(sc['jobs']):
            if js:
                yield v(jobs=js)
        for k, j in enumerate(sc['jobs']):
            if j['opts'] and not j['cmd'].startswith('export-soec'):
                n = v()
                n['jobs'][k]['opts'] = []
                yield n
            for f, z in (('stop', None), ('cut', None), ('out', None), ('debug', False)):
                if j[f] != z:
                    n = v()
                    n['jobs'][k][f] = z
                    yield n
        if extra and extra.get('order') and sc['mode'] == 'steps':
            yield v(order=extra['order'])
        if extra and extra.get('trace') and sc['mode'] == 'threads':
            yield v(plan=[list(t) for t in extra['trace']])
    elif sc['order'] is not None:
        for o in shrink_list(sc['order']):
            yield v(order=o)
    else:
        for p in shrink_list(sc['plan']):
            yield v(plan=p)
