"""P14: stored harmonic results equal their definition in the units asked for."""
import copy
import os
import random
import re

from dst.engine import Violation, digest, shrink_list
from dst.gen import files as G
from dst.gen import jobs as J

LEVEL = 'exploration'
RUNS = {'quick': 1800, 'thorough': 40000}
TIMEOUT = 60.0
RULE = ('A run = a history of 1-4 HA calculations in one process, each a whole CLI session or the steps of a '
        'calculator that may be new, reused for another input or temperature range, or interleaved with another; '
        'inputs (1-12 volumes, imaginary, zero and soft modes, any weights), units, temperature grids (0 K, Celsius, '
        'not a multiple of the step) are random and every parallel region runs under a seeded team schedule '
        '(size 1-16, six policies). Each stored dataset is compared cell by cell with a reference model in long '
        'double computed from the generated input alone, and with the sums that define the totals. Non-trivial: a '
        'result with 2+ temperatures or volumes made under a team of 2+; distinct by history digest.')
REAL = ['whole HA sessions and HACalculator of /repo with its compiled kernels', 'PyYAML, h5py/HDF5']
STUB = ['libgomp and OS threads: seeded coroutine team', 'terminal (simulated user)', 'clock frozen']
ASSUMPTIONS = ['CODATA constants of scipy', 'agreement to 1e-6 of the sum of absolute terms (harmonic sums) and '
               '1e-12 (totals)']
FLOOR = {'cells': 20000, 'checked': 1500}
POL = ['random', 'random', 'conflict', 'pct', 'stall', 'reverse', 'serial']


def one(rng):
    t = rng.choice(['K', 'K', 'C'])
    n = rng.choice([1, 1, 2, 3, 5, 9, 20])
    if rng.random() < 0.06:               # usual and awkward lengths
        n = rng.choice([31, 32, 33, 51, 61, 64, 65, 100, 101, 128, 129, 201, 257, 301])
    lo = rng.choice([0., 0., 4., 10., 77.3, 298.15, 300., 1000., round(rng.uniform(1., 900.), rng.choice([0, 1, 3]))])
    st = rng.choice([1., 10., 50., 100., 0.1, 2.5, round(rng.uniform(0.05, 400.), 2)])
    if t == 'C':
        lo = round(lo - 273.15, 6)
    hi = round(lo + st * (n - 1), 6)
    if rng.random() < 0.25:                 # not a multiple of the step
        hi = round(hi + st * rng.uniform(0.05, 0.95), 6)
    return {'spec': dict(G.qha_spec(rng, physical=rng.random() < 0.4), nat=rng.choice([1, 1, 2, 3, 5]),
                         neg=rng.random() < 0.3, soft=rng.random() < 0.3, zero=rng.random() < 0.3,
                         heavy=rng.random() < 0.15, cell=rng.choice([None, None, 'bcc', '221'])),
            'T': [lo, hi, st], 'tunit': t, 'eunit': rng.choice(['Ha', 'eV', 'Ry']),
            'vunit': rng.choice(['A', 'bohr']), 'funit': rng.choice(['cm-1', 'cm-1', 'THz', 'Hz']),
            'explicit': rng.random() < 0.7, 'threads': rng.choice([1, 2, 3, 4, 7, 8, 16]),
            'policy': rng.choice(POL), 'rate': rng.choice([0.3, 0.05, 0.01]), 'oseed': rng.randrange(1 << 30),
            'how': rng.choice(['cli', 'cli', 'cli', 'api', 'api', 'reuse', 'range']),
            'quiet': rng.random() < 0.2}


def scenario(rng, idx, tier):
    n = rng.choice([1, 1, 2, 3, 4])
    return {'jobs': [one(rng) for _ in range(n)], 'order': rng.randrange(1 << 30), 'mix': rng.random() < 0.5}


FSCALE = {'cm-1': 1., 'THz': 0.0299792458, 'Hz': 29979245800.}
ESCALE = {'Ha': 1., 'eV': 27.211386, 'Ry': 2.}
VSCALE = {'A': 1., 'bohr': 6.748334}


def model(o):
    """What the input of the calculation states, in its units."""
    import numpy as np
    s = o['spec']
    m = G.qha_model(s)
    r = random.Random(s['seed'] + 5)
    f = m['freq']
    nq, nf, nv = f.shape
    if s['soft']:
        f[r.randrange(nq), r.randrange(nf), :] = [r.uniform(0.5, 15.) for _ in range(nv)]
    if s['zero']:
        f[r.randrange(nq), r.randrange(nf), r.randrange(nv)] = 0.
    if s['neg']:
        f[r.randrange(nq), r.randrange(nf), r.randrange(nv)] = -r.uniform(1., 200.)
    if s['heavy']:
        f *= 5.
    if s.get('cell'):                    # weights are what counts, not the size of the supercell
        m['supercell'] = [[-1, 1, 1], [1, -1, 1], [1, 1, -1]] if s['cell'] == 'bcc' else [[2, 0, 0], [0, 2, 0], [0, 0, 1]]
    m['freq'] = np.array([float('%.10f' % x) for x in (f * FSCALE[o['funit']]).ravel()]).reshape(f.shape)
    m['energy'] = np.array([float('%.12E' % e) for e in m['energy'] * ESCALE[o['eunit']]])
    m['volume'] = np.array([float('%.8f' % v) for v in m['volume'] * VSCALE[o['vunit']]])
    return m


def grid(T):
    lo, hi, st = T
    n = int((hi - lo) / st + 1e-6) + 1
    return [lo + k * st for k in range(n)]


def reference(o, m):
    """{quantity: (value, scale)} by the definition, long double."""
    import numpy as np
    import scipy.constants as cs
    L = np.longdouble
    Hz = {'cm-1': L(cs.c) * 100, 'THz': L(10)**12, 'Hz': L(1)}[o['funit']]
    J = {'Ha': cs.value('Hartree energy'), 'eV': cs.e, 'Ry': cs.value('Rydberg constant times hc in J')}[o['eunit']]
    J = L(J)
    T = np.array(grid(o['T']), dtype=L) + (L(273.15) if o['tunit'] == 'C' else 0)
    T[np.abs(T) < 1e-9] = 0
    w = np.array(m['weights'], dtype=L)
    w = w / w.sum()
    f = m['freq'].astype(L) * Hz
    pos = f > 0
    e = L(cs.h) * np.where(pos, f, L(1))             # J
    k = L(cs.k)

    def total(x):
        return np.einsum('q,qfv->v', w, np.where(pos, x, 0)) / J
    uzp = total(e / 2)
    U0 = m['energy'].astype(L)
    out = {'Uzp': ([uzp], [uzp])}
    rows = {q: ([], []) for q in ('Uth', 'S', 'Fvib', 'Cv')}
    tiny = L(1e-9) * k / J
    for t in T:
        if t == 0:
            z = np.zeros_like(uzp)
            r = {'Uth': (z, z), 'S': (z, z), 'Fvib': (uzp, uzp), 'Cv': (z, z)}
        else:
            x = e / (k * t)
            with np.errstate(all='ignore'):
                n = 1 / np.expm1(x)
                l = np.log1p(-np.exp(-x))
                c = x * x * n * (1 + n)
                c = np.where(np.isfinite(c), c, 0)
                # 1 - exp(-x) loses digits for small x
                loss = np.where(x < 1e-6, L(1e-15) / x * 1e6, 0)
            ss = k * (n * x + np.abs(l) + loss)
            r = {'Uth': (total(e * n), total(e * n)), 'S': (total(k * (n * x - l)), total(ss)),
                 'Fvib': (total(e / 2 + k * t * l), total(e / 2 + k * t * (np.abs(l) + loss))),
                 'Cv': (total(k * c), total(k * c))}
        for q in rows:
            mul = 1000 if q in ('S', 'Cv') else 1
            rows[q][0].append(r[q][0] * mul)
            rows[q][1].append(r[q][1] * mul + tiny * mul * (t if q in ('Uth', 'Fvib') else 1))
    out.update(rows)
    out = {q: (np.array(v), np.array(s)) for q, (v, s) in out.items()}
    out['Utot'] = (U0 + uzp + out['Uth'][0], np.abs(U0) * 1e-6 + uzp + out['Uth'][1])
    out['F'] = (U0 + out['Fvib'][0], np.abs(U0) * 1e-6 + out['Fvib'][1])
    return out, T


def judge(o, m, got, who, labels=None):
    """got: {dataset: array}"""
    import numpy as np
    ref, T = reference(o, m)
    g = np.asarray(got['T'], dtype=float)
    want = np.array(grid(o['T']))
    if g.shape != want.shape or not np.allclose(g, want, rtol=1e-12, atol=1e-9):
        raise Violation('grid', '%s: temperatures %s, asked for %s: %s' % (who, g[-3:], o['T'], want[-3:]))
    for q, v in (('V', m['volume']), ('U0', m['energy'])):
        if q in got and not np.array_equal(np.asarray(got[q], float), v):
            raise Violation('input:' + q, '%s: %s %s, input states %s' % (who, q, got[q][:3], v[:3]))
    n = 0
    for q in ('Uzp', 'Uth', 'S', 'Cv', 'Fvib', 'Utot', 'F'):
        v, s = ref[q]
        a = np.asarray(got[q])
        if a.shape != v.shape:
            raise Violation('shape:' + q, '%s: %s has shape %s, expected %s' % (who, q, a.shape, v.shape))
        bad = ~(np.abs(a - v) <= 1e-6 * s + 1e-300)
        n += a.size
        if bad.any():
            at = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation('value:' + q, '%s: %s at %s (T %s, volume %s) is %r, by definition %r; %d of %d cells' % (
                who, q, at, want[at[0]] if q != 'Uzp' else '-', m['volume'][at[1]], float(a[at]), float(v[at]),
                int(bad.sum()), a.size))
    U0 = m['energy']
    a = U0 + np.asarray(got['Uzp'])[0] + np.asarray(got['Uth'])
    b = U0 + np.asarray(got['Fvib'])
    for q, x in (('Utot', a), ('F', b)):
        if not np.allclose(got[q], x, rtol=1e-12, atol=1e-12 * np.abs(U0).max()):
            raise Violation('sum:' + q, '%s: %s is not the sum of its parts' % (who, q))
    return n


def header(o, text, who, more=()):
    """The settings listed at the top of the report are those asked for."""
    top = text.split('Reading input file')[0]
    parts = dict(re.findall(r'^([A-Z][^\n]*)\n-{5,}\n((?: - [^\n]*\n)+)', top, re.M))
    want = [('Temperature settings', 'min', '%.2f' % o['T'][0], o['tunit']),
            ('Temperature settings', 'max', '%.2f' % o['T'][1], o['tunit']),
            ('Temperature settings', 'step', '%.2f' % o['T'][2], o['tunit']),
            ('Measurement units', 'energy', o['eunit']), ('Measurement units', 'lenght', o['vunit']),
            ('Measurement units', 'frequency', {'cm-1': 'cm^-1'}.get(o['funit'], o['funit'])),
            ('Measurement units', 'temperature', o['tunit'])] + list(more)
    for w in want:
        r = re.search(r'^ - %s:\s*(.*?)\s*$' % w[1], parts.get(w[0], ''), re.M)
        g = r.group(1).split() if r else None
        if g and re.match(r'-?\d+\.\d\d$', w[2]) and len(g) == len(w) - 2 and g[1:] == list(w[3:]) and \
                abs(float(g[0]) - float(w[2])) < 0.0101:
            continue
        if g != ' '.join(w[2:]).split():
            raise Violation('report:settings', '%s: report lists %s of %s as %s, asked for %s' % (who, w[1], w[0], g, w[2:]))


def report(o, m, text, who):
    """The report states the input read."""
    import numpy as np
    header(o, text, who)

    def line(label):
        r = re.search(r'^- %s\s+(\S+)\s*$' % re.escape(label), text, re.M)
        return r.group(1) if r else None
    det = int(round(np.linalg.det(np.array(m['supercell'], float))))
    for label, v in (('Number of volumes', len(m['volume'])), ('Number of atoms', m['natom']),
                     ('Number of sampled k-points', det),
                     ('Number of frequencies', int(m['natom'] * 3 * sum(m['weights'])))):
        g = line(label)
        if g is None or float(g) != v:
            raise Violation('report:' + label, '%s: report states %r for %s, input has %r' % (who, g, label, v))
    job = re.search(r'^Job: (.*)$', text, re.M)
    if job is None or job.group(1).strip() != (m['job'] or 'Unknown').strip():
        raise Violation('report:job', '%s: report names job %r, input %r' % (who, job and job.group(1), m['job']))
    lab = re.search(r'Volume \((\S+)\^3\)\s+Energy \((\S+)\)', text)
    if lab is None or lab.groups() != (o['vunit'], o['eunit']):
        raise Violation('report:units', '%s: report labels %s' % (who, lab and lab.groups()))
    rows = re.findall(r'^\s+(-?\d+\.\d{6})\s+(-?\d\.\d{12}e[-+]\d+)\s*$', text, re.M)
    if [r[0] for r in rows] != ['%.6f' % v for v in m['volume']] or \
            [float(r[1]) for r in rows] != [float('%.12e' % v) for v in m['energy']]:
        raise Violation('report:values', '%s: report lists %s..., input %s %s' % (
            who, rows[:2], m['volume'][:2], m['energy'][:2]))


def options(o):
    a = []
    if o['explicit'] or o['eunit'] != 'Ha':
        a += ['--eunit', o['eunit']]
    if o['explicit'] or o['vunit'] != 'A':
        a += ['--vunit', o['vunit']]
    if o['explicit'] or o['funit'] != 'cm-1':
        a += ['--funit', o['funit']]
    if o['explicit'] or o['tunit'] != 'K':
        a += ['--tunit', o['tunit']]
    if o['explicit'] or o['T'] != [298.15, 298.15, 1.]:
        a += ['-T'] + [repr(x) for x in o['T']]
    return a


def settings(o, log):
    return {'trange': tuple(o['T']), 'energy_unit': o['eunit'], 'lenght_unit': o['vunit'],
            'frequency_unit': 'cm^-1' if o['funit'] == 'cm-1' else o['funit'], 'temperature_unit': o['tunit'],
            'debug': False, 'silent': True, 'logfile': log}


def stored(path, who):
    import h5py
    import numpy as np
    if not os.path.exists(path):
        raise Violation('no-result', '%s: %s was not written' % (who, path))
    with h5py.File(path, 'r') as f:
        return {k: np.asarray(f[k][()]) for k in f}, {k: f[k].attrs.get('unit') for k in f}


def labelled(o, units, who):
    e = o['eunit']
    want = {'T': o['tunit'], 'V': o['vunit'], 'U0': e, 'Uzp': e, 'Uth': e, 'Utot': e, 'F': e, 'Fvib': e,
            'S': 'm' + e, 'Cv': 'm' + e}
    for q in want:
        if units.get(q) != want[q]:
            raise Violation('unit:' + q, '%s: %s is labelled %r, asked for %r' % (who, q, units.get(q), want[q]))


def execute(sc, ctx):
    from dst import sim
    from dst.world import World
    from quantas.harmonic.harmonic import HACalculator
    World(ctx)
    ctx.clock.on(step=0.)
    rng = random.Random(sc['order'])
    jobs = sc['jobs']
    models = []
    for k, o in enumerate(jobs):
        m = model(o)
        models.append(m)
        with open('in%d.yaml' % k, 'w') as f:
            f.write(G.qha_text(o['spec'], m))
    held = []                # [calculator, job, how far]
    plans = []
    for k, o in enumerate(jobs):
        plans.append([(k, s) for s in (['cli'] if o['how'] == 'cli' else ['new', 'read', 'report', 'run', 'export'])])
    steps = []
    if sc['mix']:
        live = [list(p) for p in plans]
        while any(live):
            p = rng.choice([x for x in live if x])
            steps.append(p.pop(0))
    else:
        steps = [s for p in plans for s in p]
    calcs = {}
    owner = {}
    good = False

    def team(o):
        ctx.omp.config(o['oseed'], o['threads'], o['policy'], o['rate'])

    def after(o):
        st = ctx.omp.stats()
        for c in ('regions', 'switches', 'conflicts'):
            ctx.count(c, st[c])
        ctx.count('policy_' + o['policy'])
        ctx.omp.config()
        return st
    free = []
    for k, s in steps:
        o, m = jobs[k], models[k]
        who = 'calculation %d of %d (%s, %s, team of %d %s)' % (k + 1, len(jobs), o['how'], options(o), o['threads'],
                                                               o['policy'])
        if s == 'cli':
            team(o)
            r = sim.run_cli(['ha', 'in%d.yaml' % k] + options(o) + ['-o', 'out%d' % k] + (
                ['-q'] if o['quiet'] else []), lambda t, n: 'y')
            st = after(o)
            if r.exit or r.exc is not None:
                raise Violation('session', '%s ends with %r %r' % (who, r.exit, r.exc))
            with open('out%d.txt' % k) as f:
                report(o, m, f.read(), who)
            got, units = stored('out%d.hdf5' % k, who)
            labelled(o, units, who)
            ctx.count('cells', judge(o, m, got, who))
            ctx.count('checked')
            good = good or (st['regions'] and o['threads'] > 1 and got['Uth'].size > 1)
        elif s == 'new':
            if o['how'] in ('reuse', 'range') and free:
                c = free.pop(rng.randrange(len(free)))      # a calculator that has finished another calculation
                c._eunit, c._funit, c._vunit, c._tunit = (settings(o, None)[x] for x in (
                    'energy_unit', 'frequency_unit', 'lenght_unit', 'temperature_unit'))
                c.temperature = tuple(o['T'])
                c.log = None
                ctx.count('reused')
            else:
                c = HACalculator(settings(o, None))
            calcs[k] = c
        elif s == 'read':
            e = calcs[k].read_input('in%d.yaml' % k)
            if e is not None:
                raise Violation('refused', '%s: valid input refused: %s' % (who, e))
        elif s == 'report':
            calcs[k].report_input_data()
        elif s == 'run':
            team(o)
            calcs[k].run()
            st = after(o)
            good = good or (st['regions'] and o['threads'] > 1 and calcs[k].results['Uth'].size > 1)
        else:
            c = calcs[k]
            got = dict(c.results, T=c.temperature, V=c.input.volume, U0=c.input.energy)
            ctx.count('cells', judge(o, m, got, who + ', results'))
            c.export_hdf5('api%d.hdf5' % k)
            got, units = stored('api%d.hdf5' % k, who)
            labelled(o, units, who)
            judge(o, m, got, who + ', stored')
            ctx.count('checked')
            free.append(c)
        ctx.seen('ways', o['how'])
        for u in ('eunit', 'vunit', 'funit', 'tunit'):
            ctx.seen('units', o[u])
    # what earlier ones hold is still theirs
    for k, c in calcs.items():
        if list(calcs.values()).count(c) == 1:
            judge(jobs[k], models[k], dict(c.results, T=c.temperature), 'calculation %d observed at the end' % (k + 1))
    for k, o in enumerate(jobs):
        p = 'out%d.hdf5' % k if o['how'] == 'cli' else 'api%d.hdf5' % k
        g, _ = stored(p, 'calculation %d' % (k + 1))
        sim.EV.add('result', k, g['F'].tobytes().hex()[:200], g['S'].tobytes().hex()[:200])
    if good:
        ctx.nontrivial = digest(sim.EV.items + [repr(steps)])
    ctx.sample = {'steps': steps, 'options': [options(o) for o in jobs]}


def shrink(sc, extra):
    if len(sc['jobs']) > 1:
        for js in shrink_list(sc['jobs']):
            if js:
                yield dict(sc, jobs=js)
    if sc['mix']:
        yield dict(sc, mix=False)
    for i, o in enumerate(sc['jobs']):
        def with_(**kw):
            n = copy.deepcopy(sc)
            n['jobs'][i].update(kw)
            return n
        if o['how'] != 'cli':
            yield with_(how='cli')
        if o['threads'] > 1:
            yield with_(threads=1, policy='serial')
            yield with_(threads=2)
        for f in ('neg', 'soft', 'zero', 'heavy', 'acoustic', 'cell'):
            if o['spec'][f]:
                yield with_(spec=dict(o['spec'], **{f: False}))
        for f in ('nat', 'nq', 'nv'):
            for x in sorted({1, o['spec'][f] // 2}):
                if 1 <= x < o['spec'][f]:
                    yield with_(spec=dict(o['spec'], **{f: x}))
        for f, z in (('eunit', 'Ha'), ('vunit', 'A'), ('funit', 'cm-1'), ('tunit', 'K')):
            if o[f] != z:
                yield with_(**{f: z})
        n = len(grid(o['T']))
        if n > 1:
            yield with_(T=[o['T'][0], o['T'][0], 1.])
        if o['quiet']:
            yield with_(quiet=False)
