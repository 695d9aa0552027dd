"""P12: generated input files carry the ab initio data faithfully."""
import copy
import os
import random

from dst.engine import Violation, digest, shrink_list
from dst.gen import files as G
from dst.gen import jobs as J
from dst.gen import strict as X

LEVEL = 'exploration'
RUNS = {'quick': 1300, 'thorough': 26000}
TIMEOUT = 60.0
RULE = ('A run = a history of 1-5 generations in one process, over names that are used again for other contents: by '
        'the command, or by creators of the library of which 1-3 are open at once and may read more than once (in 3 of 10 runs one creator reads all). '
        'Sources of four codes, 1-14 in a list in any order and folder, any reference, ordinary and awkward job '
        'names, existing outputs with either answer; faults: a source missing, of another code, of another size, '
        'torn, or a reference that does not exist. Each file announced or written is compared with the models of '
        'its sources by an independent parser and re-read by the readers of the package (1 in 6 by a whole ha or soec '
        'session); after a refusal no file may be new or changed. Non-trivial: 2+ generations or a list of 2+ sources '
        'or an awkward name or a fault; distinct by history digest.')
REAL = ['inpgen sessions, input creators, ab initio readers, input readers of /repo', 'PyYAML', 'h5py (ha sessions)']
STUB = ['ab initio outputs (generated)', 'terminal (simulated user)', 'clock frozen', 'SOEC angular searches coarsened']
ASSUMPTIONS = ['blanks around a job name are not part of it']
FLOOR = {'generated': 1000, 'refused': 150, 'reread': 1000}

PLAIN = ['Quartz', 'MgO B3LYP', 'run 12', 'alpha-phase (test)', 'x']
ODD = ['a: b', '# x', 'test #2', 'a #b', '[1, 2', '{x', '&a', '*x', '!t', '%d', '@home', '`', '"q', "'q", "it's", 'yes',
       'null', '~', '123', '1e5', '12.5', '2020-01-01', '- x', '? y', '| z', '> w', 'ends:', 'tab\there', '---', '...',
       '2nd run', '1 2 3 4 5 6', '-5', '+', '.5', 'nan', 'inf', 'C:\\dir\\f', 'true', 'No', '\u00e9t\u00e9', '\u91cf\u5b50',
       '\U0001f48e', '=', '<<', 'a, b', '0x1F', '1:20', ' lead', 'trail ', '', '%s %d', '{0}', 'x' * 300,
       'two  blanks', 'word ' * 40, '9', '0', '7 GPa', '*', '** x', 'job: x', "''", '\\n', 'a\\']


def sources(rng, iface, n):
    if iface == 'crystal-qha':
        return [G.SPECS[iface](rng)]
    s = [G.SPECS[iface](rng) for _ in range(n)]
    for x in s[1:]:
        for k in ('nat', 'disp', 'nq'):
            if k in x:
                x[k] = s[0][k]
    if n > 1 and rng.random() < 0.2:
        s[rng.randrange(n)] = copy.deepcopy(s[rng.randrange(n)])
    return s


def step(rng):
    st = {'cmd': 'ha' if rng.random() < 0.72 else 'soec', 'tag': rng.choice(['s', 's', 't', 'sub/u']),
          'job': rng.choice(PLAIN) if rng.random() < 0.5 else rng.choice(ODD), 'fault': None, 'fseed': rng.randrange(1 << 30),
          'out': rng.choice([None, None, 'gen', 'gen', 'sub/g.x']), 'yes': rng.random() < 0.6, 'via': 'cli',
          'session': rng.random() < 0.17, 'ref': 0}
    if st['cmd'] == 'soec':
        k = rng.choice(['csoec', 'vasp'])
        st['iface'], st['kind'], st['list'] = ('crystal' if k == 'csoec' else 'vasp'), k, False
        st['specs'] = [G.SPECS[k](rng)]
        faults = ['other', 'torn', 'gone']
    else:
        k = st['iface'] = st['kind'] = rng.choice(['crystal', 'crystal', 'crystal-qha', 'phonopy'])
        n = rng.choice([1, 1, 2, 3, 4, 5, 11, 14])
        st['specs'] = sources(rng, k, n)
        n = len(st['specs'])
        st['list'] = n > 1 or (k != 'crystal-qha' and rng.random() < 0.3)
        st['ref'] = rng.randrange(n)
        st['order'] = rng.sample(range(n), n)
        faults = ['other', 'torn', 'gone', 'badref', 'badref', 'size']
    if rng.random() < 0.25:
        st['fault'] = rng.choice(faults)
    if rng.random() < 0.35:
        st['via'] = rng.choice(['lib', 'lib', 'again'])
    return st


def scenario(rng, idx, tier):
    ss = [step(rng) for _ in range(rng.choice([1, 2, 2, 3, 4, 5]))]
    if rng.random() < 0.3:
        # one creator reads many sources
        ss = [s for s in (step(rng) for _ in range(60)) if s['iface'] == ss[0]['iface'] and s['cmd'] == ss[0]['cmd']]
        ss = (ss or [step(rng)])[:rng.choice([3, 4, 6])]
        for s in ss:
            s['via'] = 'again'
            if s['fault'] and rng.random() < 0.6:
                s['fault'] = None
    return {'steps': ss, 'mix': rng.randrange(1 << 30)}


def put(st):
    """Writes the sources of a step. -> (path to give, [models] or None if refused is due)"""
    r = random.Random(st['fseed'])
    os.makedirs('sub', exist_ok=True)
    tag, n = st['tag'], len(st['specs'])
    specs = copy.deepcopy(st['specs'])
    f = st['fault']
    ok = True
    bad = r.randrange(n)
    if f == 'size' and n > 1 and bad:
        s = specs[bad]
        s['nat'] = 1 + s['nat'] % 3 if s['kind'] == 'crystal' else 3 - s['nat']
        ok = False
    paths = []
    for k, s in enumerate(specs):
        # any name: the list is in no alphabetical order
        base = '%s_%d' % (tag, st.get('order', [0])[k] if n > 1 else 0)
        if os.path.exists(base + '.xml'):
            os.unlink(base + '.xml')
        paths.append(G.write(s, base))
    if f == 'gone':
        os.unlink(paths[bad])
        ok = False
    if f in ('other', 'torn'):
        with open(paths[bad]) as h:
            t = h.read()
        if f == 'other':
            t = r.choice(['', 'nothing of the kind\n' * 40, G.TEXTS['eos'](G.SPECS['eos'](r))])
        else:
            t = t[:r.randrange(len(t) // 2)]
            while st['kind'] != 'phonopy' and X.parse(st['kind'], t)[0] is not None:
                t = t[:len(t) // 2]
        with open(paths[bad], 'w') as h:
            h.write(t)
        ok = False
    if f == 'badref' and st['iface'] != 'crystal-qha':
        st['ref'] = r.choice([n, n + 3, -1, -n, 99])
        ok = False
    path = paths[0]
    if st['list']:
        path = tag + '_list.txt'
        with open(path, 'w') as h:
            h.write('\n'.join(paths) + r.choice(['', '\n']))
    return path, [G.MODELS[s['kind']](s) for s in specs] if ok else None, paths


def out_of(st, path):
    if st['cmd'] == 'ha':
        return (st['out'] or 'quantas_ha') + '.yaml'
    return st['out'] + '.dat' if st['out'] else os.path.splitext(path)[0] + '_soec_input.dat'


def compare(st, models, out, text, who):
    """The written file against its sources."""
    k = st['cmd']
    if k == 'ha':
        want = X.generated(st['kind'], models, st['ref'])
        d = X.diff_generated(want, text)
    else:
        d = X.diff_soec(models[0], text)
    if d:
        raise Violation('content:%s:%s' % (k, st['kind']), '%s: %s: %s' % (who, out, d))


def reread(st, models, out, who):
    """The file by the package's own reader."""
    import numpy as np
    from quantas.IO.qha_reader import QHAInputFileReader
    from quantas.IO.soec_reader import SOECInputFileReader
    cls = QHAInputFileReader if st['cmd'] == 'ha' else SOECInputFileReader
    key = ':' + st['cmd']
    try:
        r = cls(out)
        ok, name = r.completed, r.jobname
    except Exception as e:
        raise Violation('unreadable' + key, '%s, job name %r: reading the generated %s fails with %s: %s' % (
            who, st['job'], out, type(e).__name__, e))
    if not ok:
        raise Violation('unreadable' + key, '%s, job name %r: the generated %s is refused: %s' % (who, st['job'], out, r.error))
    want = st['job'].strip() or ('Unknown' if st['cmd'] == 'soec' and not st['job'] else '')
    if name.strip() != want:
        raise Violation('jobname' + key, '%s: the job name typed is %r, that read back %r' % (who, st['job'], name))
    if st['cmd'] == 'ha':
        g = X.generated(st['kind'], models, st['ref'])
        pairs = [('volume', np.atleast_1d(r.volume), g['volume'], 1e-8), ('energy', np.atleast_1d(r.energy), g['energy'], 1e-8),
                 ('weights', np.asarray(r.weights), g['weights'], 1e-9),
                 ('frequencies', np.asarray(r.frequencies), g['freq'], 1e-9), ('natoms', r.natoms, g['natom'], 0),
                 ('qpoints', r.qpoints, g['qpoints'], 0),
                 ('kpoints', r.kpoints, round(np.linalg.det(np.array(g['supercell']))), 0)]
    else:
        pairs = [('stiffness', r.stiffness, models[0]['stiffness'], 0.6e-4), ('density', r.density, models[0]['density'], 0.06)]
    for n, a, b, t in pairs:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape or not (np.abs(a - b) <= t + 1e-11 * np.abs(b)).all():
            raise Violation('readback:%s%s' % (n, key), '%s: %s read back from %s is %s, source %s' % (
                who, n, out, a.tolist(), b.tolist()))


class Typist(object):
    """Types the job name, answers the overwrite question."""

    def __init__(self, st):
        self.st, self.n = st, 0

    def __call__(self, shown, n):
        from dst import sim
        self.n += 1
        if self.n > 8:
            return sim.EOF
        t = shown[-200:]
        if 'short description' in t:
            return self.st['job']
        return 'y' if self.st['yes'] else 'n'


def execute(sc, ctx):
    from dst import sessions, sim, stubs
    from dst.world import World, quietly
    World(ctx)
    stubs.coarse_optimisers()
    stubs.coarse_angles()
    ctx.clock.on(step=0.)
    from quantas.IO.qha_writer import QHAInputCreator
    from quantas.IO.soec_writer import SOECInputCreator
    mk = {'ha': QHAInputCreator, 'soec': SOECInputCreator}
    mix = random.Random(sc['mix'])
    pool = {}                     # creators used again, by (command, interface)
    held = []                     # creators that have read and not yet written
    special = 0

    def check(st, models, out, who):
        with open(out, encoding='utf-8') as f:
            text = f.read()
        compare(st, models, out, text, who)
        reread(st, models, out, who)
        ctx.count('generated')
        ctx.count('reread')
        ctx.seen('interfaces', st['cmd'] + ':' + st['kind'])
        if st['session']:
            n = len(models) if st['kind'] != 'crystal-qha' else models[0]['nv']
            a = ['ha', out, '-T', '300', '300', '1', '-o', 'chk'] if st['cmd'] == 'ha' else ['soec', out, '-o', 'chk']
            s = quietly(lambda: (lambda s: (s.exit, s.out, J.h5('chk.hdf5') if os.path.exists('chk.hdf5') else None))(
                sim.run_cli(a, lambda t, n: 'y')))
            for p in ('chk.hdf5', 'chk.txt'):
                if os.path.exists(p):
                    os.unlink(p)
            bad = s[0] != 0 or not isinstance(s[2], dict) or '@' not in s[2]
            if bad and not (st['cmd'] == 'ha' and n < 1):
                raise Violation('session:' + st['cmd'], '%s: %s %s gives no results: exit %s, %r' % (
                    who, st['cmd'], out, s[0], s[1][-300:]))
            name = st['job'].strip() or ('Unknown' if st['cmd'] == 'soec' and not st['job'] else '')
            if name and name not in s[1]:
                raise Violation('session-job:' + st['cmd'], '%s: the report of %s does not show the job name %r' % (
                    who, out, name))
            ctx.count('sessions')

    def write_held(k):
        st, creator, models, who = held.pop(k)
        out = out_of(st, 'lib')
        kw = {}

        def go():
            if st['cmd'] == 'ha':
                creator.write(out, st['ref']) if st['kind'] != 'crystal-qha' else creator.write(out)
            else:
                creator.write(out, st['job'])
        import sys
        scr = sim.Screen('out')
        keep = sys.stdin, sys.stdout
        sys.stdin, sys.stdout = sim.Keyboard(Typist(st), scr, 20), scr
        try:
            go()
        finally:
            sys.stdin, sys.stdout = keep
        sim.EV.add('written', out)
        st = dict(st, job=st['job'] or ('' if st['cmd'] == 'ha' else ' '))
        check(st, models, out, who)

    for k, st in enumerate(sc['steps']):
        st = copy.deepcopy(st)
        path, models, paths = put(st)
        who = 'step %d, %s of %d source(s) of %s%s%s' % (
            k, st['cmd'], len(st['specs']), st['kind'], ', by ' + st['via'] if st['via'] != 'cli' else '',
            ', ' + st['fault'] if models is None else '')
        special += st['job'] in ODD or models is None or len(st['specs']) > 1
        before = sessions.files()
        if st['via'] == 'cli':
            a = ['inpgen', st['cmd'], path, '-i', st['iface']] + (['-o', st['out']] if st['out'] else []) + \
                (['-l'] if st['list'] else []) + (['-r', str(st['ref'])] if st['cmd'] == 'ha' and st['ref'] else [])
            s = sim.run_cli(a, Typist(st))
            out = os.path.normpath(out_of(st, path))
            after = sessions.files()
            if models is None:
                ctx.count('refused')
                new = [p for p in after if after[p] != before.get(p)] + [p for p in before if p not in after]
                if new:
                    raise Violation('refused-file:%s:%s' % (st['cmd'], st['fault']), '%s: %s is refused, yet %s changed' % (
                        who, path, new))
                o = sessions.Out(s, None)
                if not o.complains() and not s.exit:
                    raise Violation('unrefused:%s:%s' % (st['cmd'], st['fault']), '%s: no error shown: %r' % (
                        who, s.out[-300:]))
                continue
            kept = out in before and not st['yes']
            wrong = [p for p in after if after[p] != before.get(p) and (p != out or kept)]
            if wrong:
                raise Violation('other-file:' + st['cmd'], '%s: %s changed' % (who, wrong))
            if s.exit or s.exc is not None or sessions.Out(s, None).complains() and not kept:
                raise Violation('fails:%s:%s' % (st['cmd'], st['kind']), '%s: exit %s, %s, %r' % (
                    who, s.exit, s.exc, s.out[-300:]))
            if kept:
                ctx.count('kept')
                continue
            if out not in after:
                raise Violation('nothing:' + st['cmd'], '%s: %s was not written: %r' % (who, out, s.out[-300:]))
            if st['cmd'] == 'ha':
                shown = [x for x in s.out.split('\n') if 'Done!' in x]
                if len(shown) != len(paths) or any(p not in x for p, x in zip(paths, shown)):
                    raise Violation('shown:ha', '%s: sources shown %s, given %s' % (who, shown, paths))
                if st['kind'] != 'crystal-qha' and ['Reference' in x for x in shown] != [
                        i == st['ref'] for i in range(len(paths))]:
                    raise Violation('reference:ha', '%s: reference %d, shown %s' % (who, st['ref'], shown))
            check(st, models, out, who)
            continue
        # ---- by the library
        key = (st['cmd'], st['iface'])
        if st['via'] == 'again' and key in pool and all(h[1] is not pool[key] for h in held):
            c = pool[key]
            who += ' used before'
        else:
            c = pool[key] = mk[st['cmd']](st['iface'])
        import sys
        keep = sys.stdout
        sys.stdout = sim.Screen('out')
        try:
            ok, err = c.read(path, st['list'], st['ref']) if st['cmd'] == 'ha' else c.read(path)
        except Exception as e:
            ok, err = False, e
        finally:
            sys.stdout = keep
        sim.EV.add('read', key, bool(ok))
        if st['fault'] == 'badref':
            continue
        if models is None:
            if ok:
                raise Violation('accepted:%s:%s' % (st['cmd'], st['fault']), '%s: accepted' % who)
            ctx.count('refused')
            continue
        if not ok:
            raise Violation('fails:%s:%s' % (st['cmd'], st['kind']), '%s: refused: %s' % (who, err))
        held.append((st, c, models, who))
        while held and (len(held) > 2 or mix.random() < 0.4):
            write_held(mix.randrange(len(held)))
    while held:
        write_held(mix.randrange(len(held)))
    if special or len(sc['steps']) > 1:
        ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'steps': [[s['cmd'], s['kind'], len(s['specs']), s['fault'], s['via'], s['job'][:20]] for s in sc['steps']]}


def shrink(sc, extra):
    for ss in shrink_list(sc['steps']):
        if ss:
            yield dict(sc, steps=ss)
    for k, s in enumerate(sc['steps']):
        n = len(s['specs'])
        if n > 1:
            for m in (1, n // 2, n - 1):
                if m < n:
                    t = copy.deepcopy(sc)
                    t['steps'][k]['specs'] = s['specs'][:m]
                    t['steps'][k]['order'] = list(range(m))
                    t['steps'][k]['ref'] = min(s['ref'], m - 1)
                    yield t
        for f, z in (('fault', None), ('session', False), ('job', 'x'), ('via', 'cli'), ('out', None), ('ref', 0), ('tag', 's')):
            if s[f] != z:
                t = copy.deepcopy(sc)
                t['steps'][k][f] = z
                yield t
