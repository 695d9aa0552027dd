"""P01: parallel kernels, any team and any interleaving = sequential definition."""
import copy
import random

from dst.engine import Violation, shrink_list

LEVEL = 'exploration'
RUNS = {'quick': 4000, 'thorough': 60000}
TIMEOUT = 60.0
RULE = ('A run = one seeded thread schedule (team size 1-16, policy random / conflict-directed / '
        'PCT priorities / stalled thread / reversed / serial, optional per-region team resizing) '
        'over 3-7 kernel calls on generated grids, each result compared cell by cell with a '
        'sequential reference. Non-trivial: at least one region ran with 2+ threads; distinct by '
        'the hash of its sequence of (scheduling point, thread) switches and kernel list.')
REAL = ['compiled statistical_mechanics, thermodynamics and fast_math kernels from /repo',
        'utils.math.polynomials, numpy']
STUB = ['libgomp and OS threads: coroutine team with seeded preemption at every memory access']
ASSUMPTIONS = ['interleavings are sequentially consistent at the granularity of compiled memory '
               'accesses (no weak-memory reordering)',
               'reference sums agree to 1e-8 of the sum of absolute terms']
FLOOR = {'regions': 1000}

KERNELS = ['zpe', 'eth', 'S', 'Fvib', 'Cv', 'U', 'F', 'H', 'G', 'KS', 'gamma',
           'interp2', 'interp3', 'interps', 'R2']


def scenario(rng, idx, tier):
    pol = rng.choice(['random', 'random', 'conflict', 'conflict', 'pct', 'stall', 'reverse', 'serial'])
    big = rng.random() < 0.08
    calls = []
    for k in range(rng.randint(3, 7)):
        calls.append({
            'k': rng.choice(KERNELS), 'seed': rng.randrange(1 << 30),
            'nt': rng.choice([1, 2, 3, 5, 8, 13, 17, 33]) if not big else rng.randint(40, 90),
            'nq': rng.choice([1, 1, 2, 3, 4]), 'nf': rng.choice([1, 3, 6, 9, 12, 30]),
            'nv': rng.choice([1, 2, 3, 5, 7, 8, 11]),
            'zero': rng.random() < 0.4, 'neg': rng.random() < 0.25, 't0': rng.random() < 0.4,
            'flat': rng.random() < 0.2, 'cold': rng.random() < 0.2})
        if rng.random() < 0.04:
            calls[-1].update({'nt': rng.choice([1, 2, 3]), 'nf': 3, rng.choice(['nq', 'nf', 'nv']): rng.randint(65, 300)})
    return {'threads': rng.choice([1, 2, 2, 3, 4, 4, 5, 7, 8, 12, 16]), 'policy': pol,
            'rate': rng.choice([0.5, 0.2, 0.05, 0.01, 0.002]), 'jitter': int(rng.random() < 0.3),
            'seed': rng.randrange(1 << 40), 'calls': calls, 'plan': None}


def consts():
    import scipy.constants as cs
    return cs.Planck, cs.Boltzmann, cs.Avogadro


def inputs(c):
    import numpy as np
    r = np.random.RandomState(c['seed'] % (1 << 31))
    nt, nq, nf, nv = c['nt'], c['nq'], c['nf'], c['nv']
    d = {}
    T = np.sort(r.uniform(5., 3000., nt))
    if c.get('cold'):
        T = np.sort(10. ** r.uniform(-3, 1.5, nt))
    if c['t0']:
        T[0] = 0.
    d['T'] = T
    d['band'] = r.uniform(2e11, 1.2e14, (nq, nf, nv))
    if c['zero']:
        d['band'][r.randint(nq), r.randint(nf), :] = 0.
    if c['neg']:
        d['band'][r.randint(nq), r.randint(nf), r.randint(nv)] = -r.uniform(1e11, 5e12)
    w = r.randint(1, 9, nq).astype(float)
    d['w'] = np.ascontiguousarray(w / w.sum())
    d['U0'] = r.uniform(-2000., -100., nv)
    d['Uzp'] = r.uniform(1., 200., nv)
    d['A'] = r.uniform(-50., 900., (nt, nv))
    d['V'] = r.uniform(1e-29, 9e-28, (nt, nv))
    d['p'] = r.uniform(-5e9, 1e11, nv)
    d['KT'] = r.uniform(10., 400., (nt, nv))
    d['al'] = r.uniform(-1e-5, 1e-4, (nt, nv))
    d['Cv'] = r.uniform(1., 900., (nt, nv))
    if c['zero']:
        d['Cv'][r.randint(nt), r.randint(nv)] = 0.
    n = max(nt, 1)
    d['X'] = np.ascontiguousarray(r.uniform(0.5, 3., nv + 1))
    d['co'] = r.uniform(-3., 3., (n, 4))
    d['co3'] = r.uniform(-3., 3., (nq, n, 4))
    d['Y'] = r.uniform(-3., 3., (n, nv + 1))
    if c['flat']:
        d['Y'][r.randint(n), :] = 2.0
    return d


def call(k, d):
    from quantas.utils.physics import statistical_mechanics as sm
    from quantas.utils.physics import thermodynamics as th
    from quantas.utils.math import polynomials as po
    if k == 'zpe':
        return sm.zero_point_energy(d['T'], d['band'], d['w'])
    if k == 'eth':
        return sm.thermal_energy(d['T'], d['band'], d['w'])
    if k == 'S':
        return sm.entropy(d['T'], d['band'], d['w'])
    if k == 'Fvib':
        return sm.vibrational_free_energy(d['T'], d['band'], d['w'])
    if k == 'Cv':
        return sm.isochoric_heat_capacity(d['T'], d['band'], d['w'])
    if k == 'U':
        return sm.internal_energy(d['U0'], d['Uzp'], d['A'])
    if k == 'F':
        return sm.free_energy(d['U0'], d['A'])
    if k == 'H':
        return th.enthalpy(d['V'], d['p'], d['A'])
    if k == 'G':
        return th.gibbs(d['V'], d['p'], d['A'])
    if k == 'KS':
        return th.adiabatic_bulk_modulus(d['T'], d['V'], d['KT'], d['al'], d['Cv'], 1e9)
    if k == 'gamma':
        return th.gruneisen_parameter(d['V'], d['KT'] * 1e9, d['al'], d['Cv'])
    if k == 'interp2':
        return po.interpolate(d['X'], d['co'])
    if k == 'interp3':
        return po.interpolate(d['X'], d['co3'])
    if k == 'interps':
        return po.interpolate(float(d['X'][0]), d['co'])
    if k == 'R2':
        return po.R_squared(d['X'], d['Y'], d['co'])


def reference(k, d):
    """(value, scale): the sequential definition; |error| is judged against scale."""
    import numpy as np
    H, KB, NA = consts()
    T, b, w = d['T'], d['band'], d['w']
    if k in ('zpe', 'eth', 'S', 'Fvib', 'Cv'):
        val = np.zeros((len(T), b.shape[2]))
        sca = np.zeros_like(val)
        pos = b > 0.
        bb = np.where(pos, b, 1e12)
        for i, t in enumerate(T):
            hw = H * bb
            if k == 'zpe':
                e = 1e-3 * NA * 0.5 * hw
                s = np.abs(e)
            elif k == 'Fvib' and t == 0.:
                e = 1e-3 * NA * 0.5 * hw
                s = np.abs(e)
            elif t == 0.:
                e = np.zeros_like(bb)
                s = np.zeros_like(bb)
            else:
                x = hw / (KB * t)
                with np.errstate(over='ignore', under='ignore'):
                    n = 1. / np.expm1(x)
                    l1 = np.log1p(-np.exp(-x))
                    if k == 'eth':
                        e = 1e-3 * NA * hw * n
                        s = np.abs(e)
                    elif k == 'S':
                        e = NA * KB * (n * x - l1)
                        s = NA * KB * (np.abs(n * x) + np.abs(l1) + 1e-6)
                    elif k == 'Fvib':
                        e = 1e-3 * NA * (0.5 * hw + KB * t * l1)
                        s = 1e-3 * NA * (0.5 * hw + KB * t * (np.abs(l1) + 1e-6))
                    else:
                        e = NA * KB * x * x * n * (1. + n)
                        s = np.abs(e) + NA * KB * 1e-6
            e = np.where(pos, e, 0.)
            s = np.where(pos, s, 0.)
            val[i] = np.einsum('q,qfv->v', w, e)
            sca[i] = np.einsum('q,qfv->v', w, s)
        return val, sca
    if k == 'U':
        v = d['U0'][None, :] + d['Uzp'][None, :] + d['A']
        return v, np.abs(d['U0'])[None, :] + np.abs(d['Uzp'])[None, :] + np.abs(d['A'])
    if k == 'F':
        return d['U0'][None, :] + d['A'], np.abs(d['U0'])[None, :] + np.abs(d['A'])
    if k in ('H', 'G'):
        pv = d['p'][None, :] * d['V'] * NA / 1000.
        return d['A'] + pv, np.abs(d['A']) + np.abs(pv)
    if k == 'KS':
        with np.errstate(divide='ignore', invalid='ignore'):
            corr = d['al']**2 * (d['KT'] * 1e9)**2 * d['V'] * d['T'][:, None] / (d['Cv'] / NA) / 1e9
        corr = np.where((d['Cv'] == 0.) | (d['T'][:, None] == 0.), 0., corr)
        return d['KT'] + corr, np.abs(d['KT']) + np.abs(corr)
    if k == 'gamma':
        with np.errstate(divide='ignore', invalid='ignore'):
            g = d['V'] * d['KT'] * 1e9 * d['al'] / (d['Cv'] / NA)
        g = np.where(d['Cv'] == 0., 0., g)
        return g, np.abs(g)

    def poly(X, co):
        P = np.vander(X, co.shape[-1], increasing=True)
        return co @ P.T, np.abs(co) @ np.abs(P.T)
    if k == 'interp2':
        return poly(d['X'], d['co'])
    if k == 'interp3':
        return poly(d['X'], d['co3'])
    if k == 'interps':
        v, s = poly(d['X'][:1], d['co'])
        return v[:, 0], s[:, 0]
    if k == 'R2':
        y, _ = poly(d['X'], d['co'])
        ybar = d['Y'].mean(axis=1, keepdims=True)
        reg = ((y - ybar)**2).sum(axis=1)
        tot = ((d['Y'] - ybar)**2).sum(axis=1)
        flat = np.ptp(d['Y'], axis=1) == 0.
        v = np.where(flat, 0., reg / np.where(flat, 1., tot))
        return v, np.where(flat, np.inf, np.abs(v) + 1e-9)


def execute(sc, ctx):
    import numpy as np
    from dst import sim
    omp = ctx.omp
    ctx.extra = None
    data = [(c, inputs(c)) for c in sc['calls']]
    refs = [reference(c['k'], d) for c, d in data]
    keep = [{n: a.copy() for n, a in d.items()} for _, d in data]
    omp.config(sc['seed'], sc['threads'], sc['policy'], sc['rate'], sc['jitter'], sc['plan'])
    outs = []
    for c, d in data:
        try:
            outs.append(call(c['k'], d))
        except Exception as e:
            raise Violation('kernel-raises:%s:%s' % (c['k'], type(e).__name__), repr(e))
    st = omp.stats()
    tr = omp.trace()
    ctx.extra = {'trace': [[a, t] for a, t, f in tr][:20000] if not st['overflow'] else None}
    for k in ('regions', 'accesses', 'switches', 'conflicts'):
        ctx.count(k, st[k])
    ctx.count('kernel_calls', len(outs))
    ctx.count('policy_' + sc['policy'])
    for c in sc['calls']:
        ctx.seen('kernels', c['k'])
    if sc['threads'] > 1 and st['regions']:
        ctx.nontrivial = '%x-%s' % (st['hash'], ','.join(c['k'] for c in sc['calls']))
    sim.EV.add('schedule', st['hash'], st['steps'], st['switches'])
    for o in outs:
        sim.EV.add('out', np.asarray(o).tobytes().hex()[:4000])
    if ctx.nontrivial and st['switches'] > 3:
        ctx.sample = {'threads': sc['threads'], 'policy': sc['policy'], 'kernels': [c['k'] for c in sc['calls']],
                      'switches': st['switches'], 'first_switches': [[a, t] for a, t, f in tr][:6]}
    if st['deadlock']:
        raise Violation('deadlock', 'no runnable team thread while some had not finished')
    for (c, d), o, (v, s), kp in zip(data, outs, refs, keep):
        o = np.asarray(o)
        what = c['k']
        if o.shape != v.shape:
            raise Violation('shape:' + what, '%s: shape %s, expected %s' % (what, o.shape, v.shape))
        bad = ~(np.abs(o - v) <= 1e-8 * s + 1e-300)
        if bad.any():
            at = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation('value:' + what, '%s at cell %s with %d threads (%s): got %r, sequential definition gives %r'
                            '; %d of %d cells differ' % (what, at, sc['threads'], sc['policy'], float(o[at]),
                                                         float(v[at]), int(bad.sum()), o.size))
        for n in kp:
            if not np.array_equal(kp[n], d[n]):
                raise Violation('input-modified:' + what, 'argument %s was changed by the call' % n)


def shrink(sc, extra):
    def v(**kw):
        n = copy.deepcopy(sc)
        n.update(kw)
        return n
    if len(sc['calls']) > 1:
        for c in shrink_list(sc['calls']):
            if c:
                yield v(calls=c)
    if sc['plan'] is None:
        for i, c in enumerate(sc['calls']):
            for f, lo in (('nt', 1), ('nq', 1), ('nf', 1), ('nv', 1)):
                for x in sorted({lo, c[f] // 2, c[f] - 1}):
                    if lo <= x < c[f]:
                        n = v()
                        n['calls'][i][f] = x
                        yield n
            for f in ('zero', 'neg', 't0', 'flat', 'cold'):
                if c[f]:
                    n = v()
                    n['calls'][i][f] = False
                    yield n
        if sc['jitter']:
            yield v(jitter=0)
        if sc['policy'] != 'serial':
            yield v(policy='serial')
        for t in (1, 2, sc['threads'] - 1):
            if t < sc['threads'] and t >= 1:
                yield v(threads=t)
        if extra and extra.get('trace') is not None and not sc['jitter'] and sc['policy'] != 'serial':
            yield v(plan=extra['trace'])
    else:
        for p in shrink_list(sc['plan']):
            yield v(plan=p)
