"""P08: exported tables equal the stored results, whatever is exported before."""
import copy
import os
import random
import re

from dst.engine import Violation, digest, shrink_list
from dst.gen import jobs as J

LEVEL = 'exploration'
RUNS = {'quick': 1300, 'thorough': 25000}
TIMEOUT = 40.0
RULE = ('A run = 1-4 export sessions in one process over 1-3 results files (HA, QHA, SOEC; made by real runs or '
        'crafted with the same layout and arbitrary values and grids), with 1-6 selections each, invalid choices, '
        'overwrite dialogues, alternative and existing names, sessions on the wrong kind of file in between. At the '
        'moment each table is announced it is parsed by an independent parser and compared with the results file '
        '(grid, unit, every value, digits); at the end all tables are compared again. Non-trivial: two or more '
        'tables; distinct by history digest.')
REAL = ['export sessions of /repo', 'h5py/HDF5', 'calculations that make the results (2 in 5 files)']
STUB = ['terminal (simulated user)', 'clock frozen', 'SOEC angular searches coarsened']
ASSUMPTIONS = ['number formats of the tables: T %.2f; V, P, moduli, K\' %.8f; others %.12E; SOEC degrees %.1f, values %.4f']
FLOOR = {'tables': 3000}

QHAQ = ['Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv', 'VT', 'Cp', 'Cp-Cv', 'KT', 'KS', 'Kp', 'H', 'G', 'alphaV',
        'gruneisen']
HAQ = ['U0', 'Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv']
DESC = {'U0': 'Static energy', 'Uzp': 'Zero-point energy', 'Uth': 'Thermal energy', 'Utot': 'Internal energy',
        'S': 'Entropy', 'Cv': 'Isochoric heat capacity', 'Fvib': 'Vibrational Helmholtz free energy',
        'F': 'Helmholtz free energy', 'VT': 'Unit cell volume', 'Cp': 'Isobaric heat capacity',
        'Cp-Cv': 'Correction for isobaric heat capacity', 'KT': 'Isothermal bulk modulus',
        'KS': 'Adiabatic bulk modulus', 'Kp': 'First-derivative of bulk modulus',
        'alphaV': 'Volumetric coefficient of thermal expansion', 'H': 'Enthalpy', 'G': 'Gibbs free energy',
        'gruneisen': 'Gruneisen parameters'}
SDESC = {'E': "Young's modulus", 'G': 'Shear modulus', 'LC': 'Linear compressibility',
        'waves': 'Seismic wave velocities', 'Nu': "Poisson's ratio"}
NCOL = {'E': 1, 'LC': 2, 'G': 2, 'Nu': 3, 'waves': 3}


def scenario(rng, idx, tier):
    files = []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        kind = rng.choice(['ha', 'ha', 'qha', 'qha', 'soec'])
        f = {'kind': kind, 'real': rng.random() < 0.4, 'seed': rng.randrange(1 << 30),
             'nt': rng.choice([1, 1, 2, 3, 7]), 'ny': rng.choice([1, 1, 2, 3, 7]), 'wild': rng.random() < 0.2,
             'name': rng.choice(['r', 'r', 'my.res', 'sub/r', 'T_ha'])}
        if rng.random() < 0.05:
            f['nt'], f['ny'] = rng.choice([(101, 3), (128, 11), (1, 130), (52, 12), (301, 1)])
        if f['real']:
            f['job'] = dict(J.job(rng, [kind], polar=1.0), out=None, debug=False, quiet=True)
        files.append(f)
    sessions = []
    for _ in range(rng.randint(1, 4)):
        sessions.append({'file': rng.randrange(len(files)), 'wrong': rng.random() < 0.08,
                         'steps': rng.choice([1, 2, 3, 4, 6]), 'seed': rng.randrange(1 << 30),
                         'yes': rng.choice([0.2, 0.6, 1.0]), 'bad': rng.choice([0, 0, 0.15]),
                         'stop': rng.randint(2, 12) if rng.random() < 0.15 else None})
    return {'files': files, 'sessions': sessions}


def craft(f, path):
    """A results file in the documented layout with arbitrary contents."""
    import h5py
    import numpy as np
    r = np.random.RandomState(f['seed'] & 0xffffffff)
    nt, ny = f['nt'], f['ny']

    def vals(*shape):
        v = r.uniform(-1, 1, shape) * 10. ** r.randint(-6, 5, shape)
        if f['wild']:
            m = r.uniform(size=shape)
            v = np.where(m < 0.05, np.nan, np.where(m < 0.1, 0., np.where(m < 0.15, 1e-300, v)))
        return v
    with h5py.File(path, 'w') as h:
        h.attrs['info'] = 'crafted %d' % f['seed']

        def put(k, v, u):
            d = h.create_dataset(k, data=v)
            d.attrs['desc'] = k
            d.attrs['unit'] = u
        e = ['Ha', 'eV', 'Ry'][r.randint(3)]
        if f['kind'] == 'soec':
            put('stiffness', vals(6, 6), 'GPa')
            put('compliance', vals(6, 6), 'TPa^-1')
            put('averages', vals(4, 4), 'GPa')
            put('eigenvals', vals(6), 'GPa')
            n = r.choice([2, 5, 37])
            deg = np.linspace(0, 360, n)
            u = {'E': 'GPa', 'G': 'GPa', 'LC': 'TPa^-1', 'Nu': '', 'waves': 'km s^-1'}
            for p in ('xy', 'xz', 'yz'):
                for q, c in NCOL.items():
                    put('polar_%s_%s' % (q, p), np.column_stack([deg, vals(n, c)]), u[q])
            return
        t0 = r.uniform(-200, 3000)
        put('T', t0 + np.arange(nt) * r.choice([0.01, 1., 12.5, 100.]), ['K', 'C'][r.randint(2)])
        if f['kind'] == 'ha':
            put('V', np.sort(r.uniform(10, 5000, ny)), ['A', 'bohr'][r.randint(2)])
            for q in HAQ:
                s = (ny,) if q == 'U0' else (1, ny) if q == 'Uzp' else (nt, ny)
                put(q, vals(*s), 'm' + e if q in ('S', 'Cv') else e)
        else:
            put('P', np.arange(ny) * r.choice([0.5, 1., 10.]), ['GPa', 'kbar'][r.randint(2)])
            for q in QHAQ:
                put(q, vals(nt, ny), {'S': 'm' + e, 'Cv': 'm' + e, 'Cp': 'm' + e, 'Cp-Cv': 'm' + e, 'VT': 'A', 'KT':
                                      'GPa', 'KS': 'GPa', 'Kp': '', 'gruneisen': '', 'alphaV': 'K^-1'}.get(q, e))


def load(path):
    import h5py
    out = {}
    with h5py.File(path, 'r') as h:
        for k in h:
            out[k] = (h[k][()], h[k].attrs['unit'])
    return out


def toks(line):
    return line.split()


def check_table(kind, data, sel, text):
    """-> None, or what is wrong with the table of quantity sel."""
    import numpy as np
    lines = text.split('\n')
    if 'created using Quantas' not in lines[0]:
        return 'no heading'
    body = [ln for ln in lines[1:] if ln.strip()]
    desc, unitline = body[0].strip(), body[1].strip()
    if desc != (SDESC if kind == 'soec' else DESC)[sel]:
        return 'described as %r' % desc
    if kind == 'soec':
        ks = ['polar_%s_%s' % (sel, p) for p in ('xy', 'xz', 'yz')]
        unit = data[ks[0]][1]
        cols = np.hstack([data[k][0][:, 1:] for k in ks])
        deg = data[ks[0]][0][:, 0]
        want_unit = 'Adimensional data' if unit == '' else 'Data in %s units' % unit
        if unitline != want_unit:
            return 'unit line %r, expected %r' % (unitline, want_unit)
        seps = [i for i, ln in enumerate(body) if ln.startswith('+')]
        if len(seps) != 3:
            return '%d rules' % len(seps)
        planes = re.findall(r'\((..)\)', ' '.join(body[seps[0]:seps[1]]))
        if planes != ['xy', 'xz', 'yz']:
            return 'planes %s' % planes
        rows = body[seps[1] + 1:seps[2]]
        if len(rows) != len(deg):
            return '%d rows of %d' % (len(rows), len(deg))
        for i, ln in enumerate(rows):
            want = ['%.1f' % deg[i]] + ['%.4f' % v for v in cols[i]]
            if toks(ln) != want:
                return 'row %d is %s, expected %s' % (i, toks(ln)[:8], want[:8])
        return None
    yk = 'V' if kind == 'ha' else 'P'
    x, xu = data['T']
    y, yu = data[yk]
    v, unit = data[sel]
    v = np.broadcast_to(np.atleast_2d(v), (len(x), len(y)))
    want = 'Adimensional data' if unit == '' else 'Data in %s units' % unit
    if unitline.split() != want.split():
        return 'unit line %r, expected %r' % (unitline, unit)
    seps = [i for i, ln in enumerate(body) if ln.startswith('+')]
    if len(seps) != 3:
        return '%d rules' % len(seps)
    hd = ' '.join(body[seps[0] + 1].split())
    want = 'T (%s) %s (%s)' % (xu, yk, yu + '^3' if yk == 'V' else yu)
    if hd != want:
        return 'header %r, expected %r' % (hd, want)
    head = toks(body[seps[0] + 2])
    if head != ['%.8f' % a for a in y]:
        return 'columns %s, expected %s' % (head[:5], ['%.8f' % a for a in y][:5])
    fmt = '%.8f' if sel in ('VT', 'KT', 'KS', 'Kp') else '%.12E'
    rows = body[seps[1] + 1:seps[2]]
    if len(rows) != len(x):
        return '%d rows of %d' % (len(rows), len(x))
    for i, ln in enumerate(rows):
        want = ['%.2f' % x[i]] + [fmt % a for a in v[i]]
        if toks(ln) != want:
            return 'row %d is %s, expected %s' % (i, toks(ln)[:5], want[:5])
    return None


class Exporter(object):
    """Simulated user of one session: remembers what it chose, checks each
    table when it is announced."""

    def __init__(self, s, keys, base, kind, data, tables, ctx):
        self.s, self.keys, self.base, self.kind, self.data = s, keys, base, kind, data
        self.r = random.Random(s['seed'])
        self.sel = self.target = None
        self.left = s['steps']
        self.tables, self.ctx = tables, ctx
        self.screen = ''
        self.n = self.names = 0

    def shown(self, text):
        from dst import sim
        self.screen += text
        for m in re.finditer(r"Data successfully exported to '(.*)'", text):
            p = m.group(1)
            who = 'session on %s (%s), selection %s' % (self.base, self.kind, self.sel)
            if os.path.normpath(p) != os.path.normpath(self.target or ''):
                raise_(Violation('name:' + self.kind, '%s: announced %r, the user chose %r' % (who, p, self.target)))
            if not os.path.isfile(p):
                raise_(Violation('absent:' + self.kind, '%s: %s is not there' % (who, p)))
            with open(p, encoding='utf8') as f:
                t = f.read()
            bad = check_table(self.kind, self.data, self.sel, t)
            sim.EV.add('table', p, self.sel, digest([t]), bad)
            if bad:
                raise_(Violation('table:%s:%s' % (self.kind, self.sel), '%s: %s: %s' % (who, p, bad)))
            self.tables[os.path.normpath(p)] = (self.kind, self.data, self.sel, t)
            self.ctx.count('tables')
            self.ctx.seen('quantities', self.kind + ':' + self.sel)

    def __call__(self, text, n):
        from dst import sim
        self.shown(text)
        t = ' '.join(text.split())[-300:]
        if self.s['stop'] is not None and n >= self.s['stop']:
            return sim.EOF
        bad = self.r.random() < self.s['bad']
        if 'Select data to export' in t or (self.phase_is_select(t)):
            a = self.r.choice(['foo', '', 'f', 'V ', '0', 'T']) if bad else self.r.choice(self.keys)
            self.phase = 'select'
            if a in self.keys:
                self.sel = a
                self.target = '%s_%s.dat' % (self.base, a)
            return a
        if 'Overwrite it?' in t:
            if bad:
                return self.r.choice(['maybe', '2'])
            return 'y' if self.r.random() < self.s['yes'] else self.r.choice(['n', ''])
        if 'enter a file name' in t:
            self.names += 1
            a = self.r.choice(sorted(self.tables) or ['k.dat']) if self.r.random() < 0.3 and self.names < 8 else \
                'alt%d_%d.dat' % (self.s['seed'] % 1000, self.names)
            self.target = a
            return a
        if 'export other data' in t:
            if bad:
                return 'perhaps'
            self.left -= 1
            return 'y' if self.left > 0 else self.r.choice(['n', ''])
        return ''

    phase = None

    def phase_is_select(self, t):
        return False


class Stop(BaseException):
    pass


def raise_(v):
    # must not be caught as an ordinary error by the code under test
    e = Stop()
    e.v = v
    raise e


def execute(sc, ctx):
    from dst import sessions as S, sim, stubs
    from dst.world import World, quietly
    World(ctx)
    stubs.coarse_optimisers()
    stubs.coarse_angles()
    ctx.clock.on(step=0.)
    os.makedirs('sub', exist_ok=True)
    paths = []
    for k, f in enumerate(sc['files']):
        p = '%s%d.hdf5' % (f['name'], k)
        if f['real']:
            ip = J.put_input(f['job'], 'in%d' % k)
            quietly(lambda: sim.run_cli(J.calc_args(f['job'], ip, out=p[:-5]), lambda t, n: 'y').exit)
        if not os.path.exists(p):
            craft(f, p)
        paths.append(p)
    datas = [load(p) for p in paths]
    tables = {}
    for s in sc['sessions']:
        k = s['file']
        kind = sc['files'][k]['kind']
        cmd = kind
        if s['wrong']:
            cmd = {'ha': 'qha', 'qha': 'soec', 'soec': 'ha'}[kind]
        keys = {'ha': HAQ, 'qha': QHAQ, 'soec': list(NCOL)}[kind]
        u = Exporter(s, keys, os.path.splitext(paths[k])[0], kind, datas[k], tables, ctx)
        if s['bad']:
            ctx.count('sessions_with_bad_answers')
        try:
            o = sim.run_cli(['export', cmd, paths[k]], u, limit=150)
            exc = o.exc
            if isinstance(exc, Stop):
                raise exc.v
            u.shown(o.out[len(u.screen):])
        except Stop as e:
            raise e.v
        ctx.count('sessions')
        if s['wrong']:
            ctx.count('wrong_kind')
            if not (o.exit or o.exc is not None or S.BANNER in o.out + o.err):
                raise Violation('wrong-kind', 'export %s accepted a %s results file' % (cmd, kind))
            continue
        if s['stop'] is None:
            if o.exit or o.exc is not None:
                raise Violation('fails:' + kind, 'export session on %s failed: %r\n%s' % (
                    paths[k], o.exc, (o.out + o.err)[-500:]))
    for p, (kind, data, sel, t) in sorted(tables.items()):
        with open(p, encoding='utf8') as f:
            if f.read() != t:
                raise Violation('later:' + kind, 'table %s (%s) changed after it was announced' % (p, sel))
    for p, d in zip(paths, datas):
        d2 = load(p)
        for k in d:
            if d[k][0].tobytes() != d2[k][0].tobytes():
                raise Violation('results-changed', 'exporting changed %s in %s' % (k, p))
    if len(tables) > 1:
        ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'files': [[f['kind'], 'real' if f['real'] else 'crafted'] for f in sc['files']],
                  'tables': sorted(tables)[:5]}


def shrink(sc, extra):
    for x in shrink_list(sc['sessions']):
        if x:
            yield dict(sc, sessions=x)
    for k, s in enumerate(sc['sessions']):
        for f, z in (('bad', 0), ('stop', None), ('wrong', False)):
            if s[f] != z:
                n = copy.deepcopy(sc)
                n['sessions'][k][f] = z
                yield n
        if s['steps'] > 1:
            n = copy.deepcopy(sc)
            n['sessions'][k]['steps'] -= 1
            yield n
    for k, f in enumerate(sc['files']):
        for a in ('nt', 'ny'):
            if f[a] > 1:
                n = copy.deepcopy(sc)
                n['files'][k][a] = 1
                yield n
        if f['real']:
            n = copy.deepcopy(sc)
            n['files'][k]['real'] = False
            yield n
