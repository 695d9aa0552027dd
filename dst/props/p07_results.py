"""P07: announced results are complete; a crash never leaves a loadable wrong file."""
import copy
import os
import random
import re

from dst.engine import Violation, digest
from dst.gen import jobs as J

LEVEL = 'exploration'
RUNS = {'quick': 420, 'thorough': 9000}
TIMEOUT = 60.0
RULE = ('A run = one HA, QHA or SOEC session (random input, options, units, grid, sometimes over earlier results). '
        'Its announced results file is compared bit for bit with the calculator that produced it (every quantity, '
        'grid, unit), then the recorded write log is replayed to crash images - 24 seeded ones per run out of every '
        'write boundary and torn byte - and each is opened by a real export session (contained process) that exports '
        'every quantity: it must be refused, or give the complete correct tables. 1 in 4 runs kills the process by a '
        'disk error instead. Non-trivial: at least one image differs from both the initial and the complete file; '
        'distinct by history digest.')
REAL = ['whole CLI sessions of /repo (calculation and export)', 'h5py/HDF5 library']
STUB = ['disk (crash images rebuilt from the write log)', 'clock frozen', 'terminal (simulated user)',
        'SOEC angular searches coarsened']
ASSUMPTIONS = ['writes reach the disk in the order they are issued, the last one possibly torn at any byte']
FLOOR = {'images': 3000, 'images_refused': 1000, 'polar_files': 10, 'over_earlier': 60}
QTY = {'ha': ['Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv', 'U0'],
       'qha': ['Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv', 'VT', 'Cp', 'Cp-Cv', 'KT', 'KS', 'Kp', 'H', 'G',
               'alphaV', 'gruneisen'], 'soec': []}


def scenario(rng, idx, tier):
    j = J.job(rng, ['ha', 'ha', 'qha', 'qha', 'soec'], polar=0.7)
    j['debug'] = False
    if j['cmd'] != 'soec' and rng.random() < 0.06:
        J.large(rng, j)
    before = None
    if rng.random() < 0.4:
        before = J.job(rng, [j['cmd']], polar=0.8)
        before['debug'], before['quiet'] = False, True
    return {'job': j, 'before': before, 'seed': rng.randrange(1 << 30), 'images': 24, 'pick': None}


CALCS = {'ha': ('quantas.harmonic.harmonic', 'HACalculator'), 'qha': ('quantas.qha.qha', 'QHACalculator'),
         'soec': ('quantas.soec.soec', 'SOECCalculator')}


def watch(kind):
    """Collect the calculators the next sessions make."""
    import importlib
    mod, name = CALCS[kind]
    cls = getattr(importlib.import_module(mod), name)
    made = []
    real = cls.__init__

    def init(self, *a, **kw):
        made.append(self)
        return real(self, *a, **kw)
    cls.__init__ = init
    return made


def expected(j, calc):
    """{dataset: array} the results file must hold."""
    import numpy as np
    k = j['cmd']
    r = calc.results
    out = {}
    if k == 'ha':
        for q in QTY['ha'][:-1]:
            out[q] = np.asarray(r[q])
        out['T'] = np.asarray(calc.temperature)
        out['V'] = np.asarray(calc.input.volume)
        out['U0'] = np.asarray(calc.input.energy)
    elif k == 'qha':
        for q in QTY['qha']:
            out[q] = np.asarray(r[q])
        out['T'] = np.asarray(calc.temperature)
        out['P'] = np.asarray(calc.pressure)
    else:
        out['stiffness'] = np.asarray(calc.soec.stiffness)
        out['compliance'] = np.asarray(calc.soec.compliance) * 1000
        out['averages'] = np.asarray(r['avgs'])
        out['eigenvals'] = np.asarray(r['eigv'])
        for plane in r.get('polar', {}):
            for q in r['polar'][plane]:
                out['polar_%s_%s' % (q, plane)] = np.asarray(r['polar'][plane][q])
    return out


def opt(j, name, default):
    o = j['opts']
    return o[o.index(name) + 1] if name in o else default


def unit(j, q):
    """The unit the quantity must be labelled with."""
    k = j['cmd']
    e = opt(j, '--eunit', 'Ha')
    if k == 'soec':
        if q in ('stiffness', 'averages', 'eigenvals') or q.startswith(('polar_E', 'polar_G')):
            return opt(j, '--punit', 'GPa')
        if q == 'compliance' or q.startswith('polar_LC'):
            return 'TPa^-1'
        return 'km s^-1' if q.startswith('polar_waves') else ''
    if q == 'T':
        return opt(j, '--tunit', 'K')
    if q == 'P' or q in ('KT', 'KS'):
        return opt(j, '--punit', 'GPa')
    if q in ('V', 'VT'):
        return opt(j, '--vunit', 'A')
    if q in ('Uzp', 'Uth', 'Utot', 'Fvib', 'F', 'H', 'G', 'U0'):
        return e
    if q in ('S', 'Cv', 'Cp', 'Cp-Cv'):
        return 'm' + e
    return None


def export_all(kind, path):
    """Real export sessions over one file, in a contained process with its own
    folder. -> 'refused: ...' or {table: bytes}"""
    from dst import sim
    from dst.world import Died, contained
    from dst.sessions import BANNER

    def go():
        import signal
        signal.alarm(20)
        todo, asked = [], []

        def user(shown, n):
            t = ' '.join(shown.split())[-300:]
            if 'Select data to export' in t:
                if not asked:
                    m = re.search(r'Select data to export \(([^)]*)\)', t)
                    todo.extend(k.strip() for k in m.group(1).split(',') if k.strip())
                asked.append(t)
                return todo.pop(0) if todo else sim.EOF
            if 'other data' in t:
                return 'y' if todo else 'n'
            if 'verwrite' in t:
                return 'y'
            return 'n'
        for n in os.listdir('.'):
            if n.endswith('.dat'):
                os.unlink(n)
        s = sim.run_cli(['export', kind, path], user, limit=60)
        if s.exit or s.exc is not None or BANNER in s.out + s.err:
            return 'refused'
        out = {}
        for n in sorted(os.listdir('.')):
            if n.endswith('.dat'):
                with open(n, 'rb') as f:
                    out[n] = f.read()
        return out
    cwd = os.getcwd()
    os.makedirs('img', exist_ok=True)
    try:
        os.chdir('img')
        try:
            return contained(go)
        except Died as e:
            return 'refused' if e.signal != 14 else 'hangs'
    finally:
        os.chdir(cwd)


def execute(sc, ctx):
    import numpy as np
    import h5py
    from dst import sessions, sim, stubs
    from dst.world import World, image, quietly
    World(ctx)
    root = os.getcwd()
    stubs.coarse_optimisers()
    stubs.coarse_angles()
    ctx.clock.on(step=0.)
    j = sc['job']
    kind = j['cmd']
    path = sessions.setup(j)
    out = os.path.normpath(J.outpath(j, path))
    rng = random.Random(sc['seed'])
    old = None
    if sc['before']:
        # results of another job under the same name
        args = J.calc_args(sc['before'], J.put_input(sc['before'], 'earlier'), out=J.stem(j, path))

        def earlier():
            return sim.run_cli(args, lambda t, n: 'y').exit
        quietly(earlier)
        if out in sessions.files():
            ctx.count('over_earlier')
    init = sessions.files()
    made = watch(kind)
    o = sessions.go(j, path, ctx.disk, root, user=lambda t, n: 'y', data=True)
    who = '%s %s' % (kind, j['opts'])
    ctx.seen('commands', kind)
    said = [os.path.normpath(p) for p in o.announced()]
    done = o.exit == 0 and o.exc is None and out in said
    sim.EV.add('done', done)
    whole = {}
    if done:
        ctx.count('announced')
        calc = made[-1]
        want = expected(j, calc)
        if not os.path.exists(out):
            raise Violation('missing:' + kind, '%s: announced %s does not exist' % (who, out))
        try:
            f = h5py.File(out, 'r')
        except Exception as e:
            raise Violation('unreadable:' + kind, '%s: announced %s: %s' % (who, out, e))
        with f:
            if not f.attrs.get('info'):
                raise Violation('noinfo:' + kind, '%s: no description of the results' % who)
            for q in sorted(want):
                if q not in f:
                    raise Violation('absent:%s:%s' % (kind, q), '%s: %s is not in the results file (%s)' % (
                        who, q, sorted(f)))
                a, b = np.asarray(f[q][()]), np.asarray(want[q])
                if a.shape != b.shape or a.dtype != b.dtype or a.tobytes() != b.tobytes():
                    raise Violation('value:%s:%s' % (kind, q), '%s: stored %s is not as calculated: %s / %s' % (
                        who, q, a.ravel()[:4], b.ravel()[:4]))
                u = unit(j, q)
                if 'unit' not in f[q].attrs:
                    raise Violation('unit:%s:%s' % (kind, q), '%s: %s has no unit' % (who, q))
                if u is not None and f[q].attrs['unit'] != u:
                    raise Violation('unit:%s:%s' % (kind, q), '%s: %s is labelled %r, asked for %r' % (
                        who, q, f[q].attrs['unit'], u))
            if sorted(f.keys()) != sorted(want):
                raise Violation('extra:' + kind, '%s: unexpected data %s' % (who, sorted(set(f) - set(want))))
    # the tables a complete file gives
    complete = []

    def tables(data):
        os.makedirs('img', exist_ok=True)
        with open('img/r.hdf5', 'wb') as f:
            f.write(data)
        return quietly(export_all, kind, 'r.hdf5')
    polar = kind != 'soec' or '--polar' in j['opts']
    if done:
        with open(out, 'rb') as f:
            whole = f.read()
        t = tables(whole)
        if polar and not isinstance(t, dict):
            raise Violation('not-accepted:' + kind, '%s: the export command refuses the announced file: %s' % (who, t))
        if isinstance(t, dict):
            n = len({'ha': QTY['ha'], 'qha': QTY['qha'], 'soec': {q.split('_')[1] for q in want if '_' in q}}[kind])
            if kind == 'soec':
                ctx.count('polar_files')
            if len(t) != n:
                raise Violation('not-offered:' + kind, '%s: the export command offers %d of %d quantities' % (
                    who, len(t), n))
            complete.append(t)
    if out in init:
        t = tables(init[out])
        if isinstance(t, dict):
            complete.append(t)
    # ---------------------------------------------------------- crash images
    log = o.log
    rel = [i for i, d in enumerate(log) if d.op in (sim.OPEN, sim.WRITE, sim.TRUNC, sim.RENAME, sim.UNLINK)
           and touches(d, out)]
    points = []
    for i in rel:
        points.append((i + 1, None))
        d = log[i]
        if d.op == sim.WRITE and d.ret > 1:
            points.append((i + 1, 'torn'))
    seen = set()
    tried = 0
    if sc['pick'] is not None:
        todo = [tuple(p) for p in sc['pick']]
    else:
        todo, asked = [], []
        for _ in range(min(sc['images'], 2 * len(points))):
            n, torn = points[rng.randrange(len(points))] if rng.random() < 0.6 else points[-1 - min(
                len(points) - 1, int(rng.expovariate(0.2)))]
            if torn:
                torn = rng.randrange(1, log[n - 1].ret)
            todo.append((n, torn))
    used = []
    for n, torn in todo:
        fs = image(log, init, upto=n, torn=torn)
        data = fs.get(out)
        if data is None:
            continue
        key = digest([data])
        if key in seen:
            continue
        seen.add(key)
        if data == whole or data == init.get(out):
            ctx.count('images_whole')
            continue
        used.append((n, torn))
        ctx.extra = {'pick': list(used)}
        tried += 1
        ctx.count('images')
        t = tables(data)
        sim.EV.add('image', n, torn, key, t if isinstance(t, str) else 'tables')
        if t == 'hangs':
            raise Violation('image-hangs:' + kind, '%s: export of the crash image at write %d (torn %s) hangs' % (
                who, n, torn))
        if t == 'refused':
            ctx.count('images_refused')
            continue
        if t not in complete:
            ref = complete[0] if complete else {}
            bad = [k for k in sorted(set(ref) | set(t)) if t.get(k) != ref.get(k)]
            raise Violation('image-wrong:' + kind, '%s: crash after operation %d of %d (torn %s): the export command '
                            'accepts the file left behind and gives other tables: %s' % (
                                who, n, len(log), torn, bad[:6]))
        ctx.count('images_complete')
    if tried:
        ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'job': [kind] + j['opts'], 'operations': len(log), 'images': used[:5]}


def touches(d, out):
    return d.path is not None and (os.path.normpath(d.path) == out or (
        isinstance(d.b, str) and os.path.normpath(d.b) == out) or 'hdf5' in d.path)


def shrink(sc, extra):
    if sc['pick'] is None and extra and extra.get('pick'):
        yield dict(sc, pick=[list(extra['pick'][-1])])
    if sc['before']:
        yield dict(sc, before=None)
    j = sc['job']
    for f, z in (('quiet', False), ('out', None)):
        if j[f] != z:
            n = copy.deepcopy(sc)
            n['job'][f] = z
            yield n
    if j['opts'] and j['cmd'] != 'soec':
        n = copy.deepcopy(sc)
        n['job']['opts'] = []
        n['pick'] = None
        yield n
