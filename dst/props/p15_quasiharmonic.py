"""P15: quasi-harmonic results are mutually consistent in every cell."""
import copy
import os
import random
import re

from dst.engine import Violation, digest, shrink_list
from dst.gen import files as G
from dst.props import p14_harmonic as H

LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 16000}
TIMEOUT = 90.0
RULE = ('A run = a history of 1-3 QHA calculations in one process (CLI sessions, calculators, calculators used again '
        'for another input or grid), random scheme, minimisation, equation of state, polynomial degrees, units, input '
        'size, grid (1-70 temperatures incl. 0 K and Celsius, 1-4 pressures), each parallel region under a seeded team '
        'schedule. In every cell the identities between the stored quantities hold; sampled cells are compared with '
        'an independent reference (scaled polynomials, own EoS fit, own harmonic sums); the report repeats the stored '
        'values; a calculation of one sampled cell alone gives the cell. Non-trivial: 4+ cells made under a team of '
        '2+; distinct by history digest.')
REAL = ['whole QHA sessions and QHACalculator of /repo with its compiled kernels', 'scipy curve_fit, PyYAML, h5py/HDF5']
STUB = ['libgomp and OS threads: seeded coroutine team', 'terminal (simulated user)', 'clock frozen']
ASSUMPTIONS = ['smooth inputs with more volumes than polynomial coefficients', 'CODATA constants of scipy',
               'reference agreement: V 1e-5, energies 1e-7 of the total plus 1e-4 of their own, K 1e-3, K\' 2e-2 '
               '(numerical derivatives); identities 1e-9']
FLOOR = {'cells': 8000, 'reference_cells': 1500, 'expansion_cells': 2000}
EOS = {'M': 'murnaghan', 'BM': 'birchmurnaghan', 'PT': 'pouriertarantola', 'V': 'vinet'}


def one(rng):
    o = H.one(rng)
    o['spec'].update(neg=False, soft=False, zero=False, heavy=False, nat=rng.choice([1, 1, 2, 3]),
                     nv=rng.choice([5, 6, 7, 8, 9, 11, 12]))
    top = o['spec']['nv'] - 2
    o.update(scheme=rng.choice(['td', 'freq']), mini=rng.choice(['poly', 'poly', 'eos']),
             eos=rng.choice(sorted(EOS)), edeg=min(top, rng.choice([2, 3, 3, 3, 4, 5])),
             fdeg=min(top, rng.choice([2, 3, 3, 3, 4, 5])), punit=rng.choice(['GPa', 'GPa', 'kbar']))
    if rng.random() < 0.2:                # poorly converged energies
        o['spec']['rough'] = rng.choice([1e-3, 1e-2, 3e-2]) if o['mini'] == 'poly' else rng.choice([3e-4, 3e-3])
        if o['mini'] == 'poly':
            o['edeg'] = min(top, rng.choice([3, 4, 5, 5]))
    f = 1. if o['punit'] == 'GPa' else 10.
    n = rng.choice([1, 1, 2, 3, 4])
    st = rng.choice([1., 0.5, 0.25])
    lo = rng.choice([0., 0., 0., 1., -0.5])
    o['P'] = [lo * f, round(lo + st * (n - 1), 6) * f, st * f]
    lo = rng.choice([0., 0., 10., 298.15, round(rng.uniform(0., 500.), 2)])
    if rng.random() < 0.4:
        n = rng.choice([50, 50, 51, 60, 70])
        st = rng.choice([1., 5., 10., 0.5])
        if o['scheme'] == 'td' and o['mini'] == 'poly' and rng.random() < 0.2:
            n = rng.choice([64, 65, 100, 101, 128, 129, 201])
            st = rng.choice([1., 5.])
        if o['scheme'] == 'freq' or o['mini'] == 'eos':
            o['P'] = [o['P'][0], o['P'][0], 1.]
    else:
        n = rng.choice([1, 2, 3, 5, 8, 49])
        st = rng.choice([1., 50., 100., 12.5]) if n < 10 else rng.choice([1., 5., 15.])
    if o['tunit'] == 'C':
        lo = round(lo - 273.15, 6)
    o['T'] = [lo, round(lo + st * (n - 1), 6), st]
    if rng.random() < 0.2:
        o['T'][1] = round(o['T'][1] + st * rng.uniform(0.05, 0.95), 6)
    o['how'] = rng.choice(['cli', 'cli', 'api', 'reuse'])
    return o


def scenario(rng, idx, tier):
    jobs = [one(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    for k, o in enumerate(jobs):
        if o['how'] == 'reuse' and k:
            for f in ('scheme', 'mini', 'eos', 'edeg', 'fdeg', 'punit', 'tunit', 'eunit', 'vunit', 'funit', 'P', 'T'):
                o[f] = copy.deepcopy(jobs[k - 1][f])
            o['spec']['nv'] = max(o['spec']['nv'], jobs[k - 1]['spec']['nv'])
            if rng.random() < 0.6:
                o['T'][0] = round(o['T'][0] + 3., 6)
                o['T'][1] = round(o['T'][1] + 3., 6)
                o['P'] = [0., o['P'][2] * rng.choice([0, 1, 2]), o['P'][2]]
    return {'jobs': jobs, 'cells': rng.randrange(1 << 30)}


def options(o):
    a = H.options(o)
    for name, f, d in (('-s', 'scheme', 'td'), ('-m', 'mini', 'poly'), ('--eos', 'eos', 'BM'), ('--edeg', 'edeg', 3),
                       ('--fdeg', 'fdeg', 3), ('--punit', 'punit', 'GPa')):
        if o['explicit'] or o[f] != d:
            a += [name, str(o[f])]
    return a + ['-P'] + [repr(x) for x in o['P']]


def settings(o):
    s = H.settings(o, None)
    s.update(prange=tuple(o['P']), pressure_unit=o['punit'], qha_scheme=o['scheme'], minimization=o['mini'],
             kieffer=False, edeg=o['edeg'], fdeg=o['fdeg'], eos=o['eos'], eos_function=EOS[o['eos']])
    return s


# ------------------------------------------------------------------ reference
def consts(o):
    """Joule per energy unit, m^3 per volume unit, Pa per pressure unit."""
    import scipy.constants as cs
    return ({'Ha': cs.value('Hartree energy'), 'eV': cs.e, 'Ry': cs.value('Rydberg constant times hc in J')}[o['eunit']],
            {'A': 1e-10, 'bohr': cs.value('Bohr radius')}[o['vunit']] ** 3, {'GPa': 1e9, 'kbar': 1e8}[o['punit']])


def ha(o, f, w, T):
    """Harmonic quantities of frequencies f[q, n, v], per volume."""
    import numpy as np
    import scipy.constants as cs
    J = consts(o)[0]
    k = cs.k
    f = f * {'cm-1': cs.c * 100, 'THz': 1e12, 'Hz': 1.}[o['funit']]
    pos = f > 0
    e = cs.h * np.where(pos, f, 1e12)

    def tot(x):
        return np.einsum('q,qfv->v', w, np.where(pos, x, 0)) / J
    uzp = tot(e / 2)
    if T == 0:
        z = 0 * uzp
        return {'Uzp': uzp, 'Uth': z, 'S': z, 'Cv': z, 'Fvib': uzp}
    x = e / (k * T)
    n = 1 / np.expm1(np.minimum(x, 700.))
    lg = np.log1p(-np.exp(-x))
    return {'Uzp': uzp, 'Uth': tot(e * n), 'S': tot(k * (n * x - lg)), 'Cv': tot(k * x * x * n * (1 + n)),
            'Fvib': tot(e / 2 + k * T * lg)}


class Fit(object):
    """Least-squares polynomial in the scaled volume."""

    def __init__(self, V, Y, deg):
        import numpy as np
        from numpy.polynomial import polynomial as P
        self.c, self.h = (V.max() + V.min()) / 2, (V.max() - V.min()) / 2
        self.p = P.polyfit((V - self.c) / self.h, Y, deg)

    def __call__(self, v, n=0):
        from numpy.polynomial import polynomial as P
        p = P.polyder(self.p, n) if n else self.p
        return P.polyval((v - self.c) / self.h, p) / self.h ** n

    def minima(self, slope):
        import numpy as np
        from numpy.polynomial import polynomial as P
        q = P.polyder(self.p) / self.h
        q[0] += slope
        r = P.polyroots(q)
        r = r[np.abs(r.imag) < 1e-9].real
        return r[P.polyval(r, P.polyder(self.p, 2)) > 0] * self.h + self.c


def energy(eos, V, E0, K, Kp, V0):
    import numpy as np
    x = V0 / V
    if eos == 'M':
        return E0 + K * V / Kp * (x ** Kp / (Kp - 1) + 1) - V0 * K / (Kp - 1)
    if eos == 'BM':
        y = x ** (2 / 3.)
        return E0 + 9 * V0 * K / 16 * ((y - 1) ** 3 * Kp + (y - 1) ** 2 * (6 - 4 * y))
    if eos == 'PT':
        r = np.log(x)
        return E0 + K * V0 * r * r / 6 * (3 + r * (Kp - 2))
    e = (V / V0) ** (1 / 3.)
    q = 1.5 * (Kp - 1)
    return E0 + 9 * K * V0 / q ** 2 * (1 - (1 - q * (1 - e)) * np.exp(q * (1 - e)))


def eosfit(eos, V, F):
    """(E0, K, K', V0) of a least-squares fit."""
    import numpy as np
    from scipy.optimize import least_squares
    f = Fit(V, F, 4 if len(V) > 5 else 3)
    cr = [x for x in f.minima(0.) if V.min() <= x <= V.max()]
    v0 = cr[0] if cr else V[np.argmin(F)]
    k0 = v0 * f(v0, 2)
    m, sc = F.mean(), np.ptp(F)
    r = least_squares(lambda z: (energy(eos, V, z[0] * sc, z[1] * k0, z[2], z[3] * v0) - (F - m)) / sc,
                      [(f(v0) - m) / sc, 1., 4., 1.], xtol=1e-15, ftol=1e-15, gtol=1e-15, method='lm')
    z = r.x
    return z[0] * sc + m, z[1] * k0, z[2], z[3] * v0, bool(cr)


class Ref(object):
    def __init__(self, o, m):
        import numpy as np
        self.o, self.m = o, m
        self.V = m['volume']
        w = np.array(m['weights'], float)
        self.w = w / w.sum()
        J, v3, pa = consts(o)
        self.pc = pa * v3 / J                    # energy/volume units per pressure unit
        self.fE = Fit(self.V, m['energy'], o['edeg'])
        nq, nf, nv = m['freq'].shape
        self.shape = (nq, nf)
        self.ff = Fit(self.V, m['freq'].reshape(nq * nf, nv).T, o['fdeg']) if o['scheme'] == 'freq' else None
        self.at = {}

    def freqs(self, v):
        import numpy as np
        v = np.atleast_1d(v)
        f = np.array([np.atleast_1d(self.ff(x)) for x in v]).T      # (modes, v)
        z = np.all(self.m['freq'].reshape(-1, len(self.V)) == 0, axis=1)
        f[z] = 0.
        return f.reshape(self.shape + (len(v),))

    def F(self, T):
        if T not in self.at:
            h = ha(self.o, self.m['freq'], self.w, T)
            F = self.m['energy'] + h['Fvib']
            self.at[T] = (h, F, Fit(self.V, F, self.o['edeg']))
        return self.at[T]

    def volume(self, T, P):
        """-> volume in the sampled range or None, (K, K') by the EoS"""
        h, F, fF = self.F(T)
        if self.o['mini'] == 'poly':
            ins = [x for x in fF.minima(P * self.pc) if self.V.min() <= x <= self.V.max()]
            return (ins[0] if len(ins) == 1 else None), None
        e0, k, kp, v0, ok = eosfit(self.o['eos'], self.V, F + P * self.pc * self.V)
        if not ok or not self.V.min() <= v0 <= self.V.max():
            return None, None
        return v0, (k / self.pc, kp)

    def cell(self, T, v):
        """Quantities at volume v, K and K' by derivatives."""
        import numpy as np
        h, F, fF = self.F(T)
        if self.o['scheme'] == 'td':
            g = {q: float(Fit(self.V, h[q], self.o['edeg'])(v)) for q in h}
            f3 = fF
        else:
            g = {q: float(x[0]) for q, x in ha(self.o, self.freqs(v), self.w, T).items()}
            gr = v * (1 + 2e-3 * np.arange(-3, 4))
            f3 = Fit(gr, self.fE(gr) + ha(self.o, self.freqs(gr), self.w, T)['Fvib'], 5)
        u0 = float(self.fE(v))
        g['Utot'], g['F'] = u0 + g['Uzp'] + g['Uth'], u0 + g['Fvib']
        d2, d3 = f3(v, 2), f3(v, 3)
        return g, float(v * d2 / self.pc), float(-(1 + v * d3 / d2))


# --------------------------------------------------------------------- oracle
def kelvin(o):
    import numpy as np
    T = np.array(H.grid(o['T'])) + (273.15 if o['tunit'] == 'C' else 0.)
    T[np.abs(T) < 1e-9] = 0.
    return T


def close(a, b, tol, scale):
    import numpy as np
    return np.all(np.abs(np.asarray(a) - b) <= tol * np.abs(scale) + 1e-300)


def identities(o, m, r, who, ctx):
    """What every cell of the results satisfies."""
    import numpy as np
    T, P = kelvin(o), np.array(H.grid(o['P']))
    want = np.array(H.grid(o['T']))
    for q, g in (('T', want), ('P', P)):
        a = np.asarray(r[q], float)
        if a.shape != g.shape or not np.allclose(a, g, rtol=1e-12, atol=1e-9):
            raise Violation('grid:' + q, '%s: %s values %s, asked for %s' % (who, q, a[-3:], o[q]))
    n, k = len(T), len(P)
    for q in ('Uzp', 'Uth', 'Utot', 'S', 'F', 'Fvib', 'Cv', 'Cp-Cv', 'Cp', 'VT', 'KT', 'KS', 'Kp', 'alphaV', 'H', 'G',
              'gruneisen'):
        a = np.asarray(r[q])
        if a.shape != (n, k):
            raise Violation('shape:' + q, '%s: %s has shape %s for %d temperatures, %d pressures' % (
                who, q, a.shape, n, k))
        if not np.isfinite(a).all():
            raise Violation('finite:' + q, '%s: %s is not finite' % (who, q))
    J, v3, pa = consts(o)
    pv = P[None, :] * pa * r['VT'] * v3 / J
    tot = np.abs(r['Utot']) + np.abs(r['F'])
    t = T[:, None]

    def check(q, a, b, tol, scale, text):
        bad = ~(np.abs(a - b) <= tol * np.abs(scale) + 1e-300)
        if bad.any():
            i, j = (int(x) for x in np.argwhere(bad)[0])
            raise Violation('identity:' + q, '%s: %s not satisfied at T %s, P %s: %r / %r (%d of %d cells)' % (
                who, text, want[i], P[j], float(np.broadcast_to(a, bad.shape)[i, j]),
                float(np.broadcast_to(b, bad.shape)[i, j]), int(bad.sum()), bad.size))
    check('H', r['H'], r['Utot'] + pv, 1e-9, tot + np.abs(pv), 'H = U + PV')
    check('G', r['G'], r['F'] + pv, 1e-9, tot + np.abs(pv), 'G = F + PV')
    # static energies from the totals
    check('U0', r['Utot'] - r['Uzp'] - r['Uth'], r['F'] - r['Fvib'], 1e-9, tot, 'U - Uzp - Uth = F - Fvib')
    fE = Fit(m['volume'], m['energy'], o['edeg'])
    check('static', r['F'] - r['Fvib'], fE(r['VT']), 1e-7, tot, 'F - Fvib is the static energy at V(T,P)')
    check('TS', r['Fvib'], r['Uzp'] + r['Uth'] - t * r['S'] / 1000, 1e-7 if o['scheme'] == 'td' else 1e-9,
          np.abs(r['Fvib']) + np.abs(r['Uzp']) + np.abs(r['Uth']) + np.abs(t * r['S'] / 1000) + 1e-6 * tot,
          'Fvib = Uzp + Uth - TS')
    if n < 50:
        for q in ('alphaV', 'Cp', 'Cp-Cv', 'gruneisen'):
            if np.any(r[q]):
                raise Violation('not-calculated:' + q, '%s: %s given with %d temperatures' % (who, q, n))
        check('KS', r['KS'], r['KT'], 0., 1., 'KS = KT when expansion is not calculated')
        return n * k
    ctx.count('expansion_cells', n * k)
    # thermal expansion: between the difference quotients towards the neighbours
    V = np.asarray(r['VT'])
    s = np.diff(V, axis=0) / np.diff(T)[:, None]
    up, down = np.vstack([s, s[-1:]]), np.vstack([s[:1], s])
    lo, hi = np.minimum(up, down) / V, np.maximum(up, down) / V
    a = r['alphaV']
    pad = 1e-6 * np.maximum(np.abs(lo), np.abs(hi)) + 1e-13
    bad = (a < lo - pad) | (a > hi + pad)
    if bad.any():
        i, j = (int(x) for x in np.argwhere(bad)[0])
        raise Violation('identity:alphaV', '%s: expansion %r at T %s, P %s is not that of the neighbouring volumes '
                        '(%r to %r)' % (who, float(a[i, j]), want[i], P[j], float(lo[i, j]), float(hi[i, j])))
    K = r['KT'] * pa
    V3 = V * v3
    dc = a ** 2 * K * V3 * t / J * 1000.
    check('Cp-Cv', r['Cp-Cv'], dc, 1e-9, dc + 1e-15, 'Cp - Cv = alpha^2 K V T')
    check('Cp', r['Cp'], r['Cv'] + r['Cp-Cv'], 1e-9, np.abs(r['Cv']) + dc + 1e-15, 'Cp = Cv + (Cp - Cv)')
    with np.errstate(all='ignore'):
        ks = np.where((r['Cv'] == 0) | (t == 0), r['KT'], r['KT'] * (1 + r['Cp-Cv'] / r['Cv']))
        ga = np.where(r['Cv'] == 0, 0., a * K * V3 / (r['Cv'] * J / 1000.))
    check('KS', r['KS'], ks, 1e-8, np.abs(r['KT']) + np.abs(ks), 'KS/KT = Cp/Cv')
    check('gruneisen', r['gruneisen'], ga, 1e-8, ga, 'gamma = alpha K V / Cv')
    return n * k


def reference(o, m, r, cells, who, ctx):
    """Sampled cells against the independent model."""
    import numpy as np
    R = Ref(o, m)
    T, P = kelvin(o), H.grid(o['P'])
    for i, j in cells:
        at = '%s: cell T %s K, P %s %s' % (who, T[i], P[j], o['punit'])
        v, kk = R.volume(T[i], P[j])
        got = float(r['VT'][i, j])
        if v is None:
            ctx.count('outside')
            continue
        ctx.count('reference_cells')
        if abs(got - v) > (1e-3 if m['rough'] and kk else 1e-5) * v:
            raise Violation('volume:%s' % o['mini'], '%s: volume %r does not minimise F + PV, minimum is at %r' % (
                at, got, v))
        g, K, Kp = R.cell(T[i], got)
        for q in g:
            x = g[q] * (1000. if q in ('S', 'Cv') else 1.)
            y = float(r[q][i, j])
            tol = 1e-4 * abs(x) + 1e-12 if q not in ('Utot', 'F') else 0.
            tol += 1e-7 * abs(g['Utot'] if q in ('Utot', 'F') else g['Uzp'] * (1. / 3e2 * 1000 if q in ('S', 'Cv') else 1))
            if abs(x - y) > tol:
                raise Violation('value:%s:%s' % (o['scheme'], q), '%s: %s is %r, reference %r' % (at, q, y, x))
        if kk:
            K, Kp = kk
        if abs(r['KT'][i, j] - K) > (5e-2 if m['rough'] and kk else 1e-3) * abs(K):
            raise Violation('bulk:' + o['mini'], '%s: KT %r, reference %r' % (at, float(r['KT'][i, j]), K))
        if not (o['mini'] == 'poly' and o['edeg'] == 2) and abs(r['Kp'][i, j] - Kp) > 2e-2 * abs(Kp) + 2e-2 \
                and not (m['rough'] and kk):
            raise Violation('bulk-derivative:' + o['mini'], '%s: Kp %r, reference %r' % (at, float(r['Kp'][i, j]), Kp))


def report(o, m, r, text, who):
    """Tables of the report repeat the input and the stored values."""
    import numpy as np
    T, P = H.grid(o['T']), H.grid(o['P'])
    top = 'Quasi-Harmonic Approximation approach'
    H.header(o, text, who, [
        ('Pressure settings', 'min', '%.2f' % o['P'][0], o['punit']),
        ('Pressure settings', 'max', '%.2f' % o['P'][1], o['punit']),
        ('Pressure settings', 'step', '%.2f' % o['P'][2], o['punit']), ('Measurement units', 'pressure', o['punit']),
        ('Polynomial fitting settings (degree)', 'energy', str(o['edeg'])),
        ('Polynomial fitting settings (degree)', 'frequency', str(o['fdeg'])),
        (top, 'scheme', {'td': 'thermodynamics', 'freq': 'frequency'}[o['scheme']] + ' interpolation'),
        (top, 'volume minimization', {'poly': 'polynomial functions', 'eos': 'Equation of State (EoS)'}[o['mini']]),
        (top, "use Kieffer's approach", 'No')] + ([(top, 'EoS formulation', {
            'M': 'Murnaghan', 'BM': '3rd-order Birch-Murnaghan', 'PT': '3rd-order Poirier-Tarantola',
            'V': '3rd-order Vinet'}[o['eos']])] if o['mini'] == 'eos' else []))
    for lab, v in (('Number of volumes', len(m['volume'])), ('Number of atoms', m['natom']),
                   ('Number of frequencies', int(m['natom'] * 3 * sum(m['weights'])))):
        g = re.search(r'^- %s\s+(\S+)\s*$' % lab, text, re.M)
        if g is None or float(g.group(1)) != v:
            raise Violation('report:' + lab, '%s: report states %r for %s, input has %r' % (
                who, g and g.group(1), lab, v))
    if o['mini'] == 'eos':
        e = eosfit(o['eos'], m['volume'], m['energy'])
        J, v3, pa = consts(o)
        ref = [e[0], e[1] * J / v3 / pa, e[2], e[3]]
        for lab, x in zip(('E0', 'K0', "K'", 'V0'), ref):
            g = re.search(r'^%s = (-?\d+(?:\.(\d+))?)(?:\(|$)' % lab, text, re.M)
            d = 10. ** -len(g.group(2) or '') if g else 0
            if e[4] and (g is None or abs(float(g.group(1)) - x) > d + 1e-3 * abs(x) * (20 if lab == "K'" else 1)):
                raise Violation('report:eos', '%s: report states %s for %s of the static energy, reference %r' % (
                    who, g and g.group(1), lab, x))
    if o['scheme'] == 'freq':
        got = re.findall(r'Frequency\s+(\d+): R\^2 = (\S+)\t', text)
        nq, nf, nv = m['freq'].shape
        if [int(x[0]) for x in got] != [k + 1 for _ in range(nq) for k in range(nf)]:
            raise Violation('report:frequencies', '%s: %d frequency fits listed for %d bands of %d' % (
                who, len(got), nq, nf))
        y = m['freq'].reshape(nq * nf, nv)
        f = Fit(m['volume'], y.T, o['fdeg'])
        fit = np.array([f(v) for v in m['volume']]).T
        with np.errstate(all='ignore'):
            r2 = ((fit - y.mean(1)[:, None]) ** 2).sum(1) / ((y - y.mean(1)[:, None]) ** 2).sum(1)
        flat = np.ptp(y, axis=1) <= 1e-6 * np.abs(y).max()
        for k, (_, g) in enumerate(got):
            if not flat[k] and not abs(float(g) - r2[k]) < 2e-5:
                raise Violation('report:R2', '%s: R^2 of frequency %d stated as %s, reference %.6f' % (who, k + 1, g, r2[k]))
    parts = re.split(r'^# Results at (\S+) (\S+)\s*$', text, flags=re.M)
    if (len(parts) - 1) // 3 != len(P):
        raise Violation('report:pressures', '%s: %d result tables for %d pressures' % (who, (len(parts) - 1) // 3, len(P)))
    for j in range(len(P)):
        p, u, body = parts[3 * j + 1:3 * j + 4]
        if abs(float(p) - P[j]) > 1e-6 * max(1., abs(P[j])) or u != o['punit']:
            raise Violation('report:pressures', '%s: table %d is for %s %s, asked for %s %s' % (
                who, j, p, u, P[j], o['punit']))
        head = [x for x in body.split('\n') if x.strip().startswith('T (')][0]
        for lab in ('T (%s)' % o['tunit'], 'V(T) (%s^3)' % o['vunit'], 'KT (%s)' % o['punit'], 'KS (%s)' % o['punit']):
            if lab not in head:
                raise Violation('report:units', '%s: table header %r lacks %r' % (who, head, lab))
        rows = [x.split() for x in body.split('\n') if re.match(r'^\s*-?\d+\.\d\s+-?\d', x)]
        if len(rows) != len(T):
            raise Violation('report:rows', '%s: %d rows for %d temperatures' % (who, len(rows), len(T)))
        J = consts(o)[0]
        for i, w in enumerate(rows):
            want = ['%.1f' % T[i], '%.6f' % r['VT'][i, j], '%.8e' % r['alphaV'][i, j], '%.3f' % r['KT'][i, j],
                    '%.3f' % r['KS'][i, j], '%.6f' % (r['Cp-Cv'][i, j] * J * 6.02214076e23 / 1000.)]
            for a, b, d in zip(w, want, (.1001, 1.01e-6, None, 1.01e-3, 1.01e-3, 1.01e-6)):
                if d is None:
                    d = 1.01e-8 * 10. ** int(b.split('e')[1])
                if len(w) != 6 or abs(float(a) - float(b)) > d + 1e-6 * abs(float(b)):
                    raise Violation('report:values', '%s: report at T %s, P %s states %s, results hold %s' % (
                        who, T[i], P[j], w, want))
    rows = re.findall(r'^\s+(-?\d+\.\d{3})\s+(-?\d+\.\d{6})\s+(-?\d\.\d{12}e[-+]\d+)\s*$', parts[0], re.M)
    if [x[1] for x in rows] != ['%.6f' % v for v in m['volume']] or \
            [float(x[2]) for x in rows] != [float('%.12e' % v) for v in m['energy']]:
        raise Violation('report:input', '%s: report lists %s..., input has %s %s' % (
            who, rows[:2], m['volume'][:2], m['energy'][:2]))
    # static pressures: -dE/dV, by an equation of state or difference quotients
    J, v3, pa = consts(o)
    f = Fit(m['volume'], m['energy'], min(5, len(m['volume']) - 1))
    p = -f(m['volume'], 1) * J / v3 / pa
    K = m['K0'] * 1e9 / pa
    by = np.argsort(m['volume'])
    tol = np.full(len(p), 0.03 * K) + 0.02 * np.abs(p)
    if m['rough']:                        # difference quotients only
        if o['mini'] == 'eos':
            return
        d = -np.diff(m['energy'][by]) / np.diff(m['volume'][by]) * J / v3 / pa
        p[by[1:-1]] = (d[1:] + d[:-1]) / 2
        tol[by[1:-1]] += np.abs(np.diff(d)) / 2
    for i in by[1:-1]:
        if abs(float(rows[i][0]) - p[i]) > tol[i]:
            raise Violation('report:static', '%s: static pressure %s at volume %s, -dE/dV is %.3f %s' % (
                who, rows[i][0], rows[i][1], p[i], o['punit']))


def labelled(o, units, who):
    e = o['eunit']
    want = {'T': o['tunit'], 'P': o['punit'], 'VT': o['vunit'], 'KT': o['punit'], 'KS': o['punit'], 'alphaV': 'K^-1',
            'Kp': '', 'gruneisen': ''}
    want.update({q: e for q in ('Uzp', 'Uth', 'Utot', 'F', 'Fvib', 'H', 'G')})
    want.update({q: 'm' + e for q in ('S', 'Cv', 'Cp', 'Cp-Cv')})
    for q in want:
        if units.get(q) != want[q]:
            raise Violation('unit:' + q, '%s: %s is labelled %r, expected %r' % (who, q, units.get(q), want[q]))


def execute(sc, ctx):
    import warnings
    import h5py
    import numpy as np
    from dst import sim
    from dst.world import World
    from quantas.qha.qha import QHACalculator
    warnings.simplefilter('ignore')
    World(ctx)
    ctx.clock.on(step=0.)
    rng = random.Random(sc['cells'])
    last, good = None, False
    held = []

    def alone(o, m, r, i, j, k, who):
        """The cell calculated without the others."""
        T, P = H.grid(o['T']), H.grid(o['P'])
        q = dict(o, T=[T[i], T[i], 1.], P=[P[j], P[j], 1.])
        c = QHACalculator(settings(q))
        c.read_input('in%d.yaml' % k)
        ctx.omp.config(o['oseed'] + 1, o['threads'], o['policy'], o['rate'])
        with sim_quiet():
            c.run()
        ctx.omp.config()
        s = c.results
        tol = {'VT': 1e-6, 'KT': 1e-4, 'Kp': 1e-2}
        for f in ('VT', 'KT', 'Kp', 'Uzp', 'Uth', 'Utot', 'F', 'Fvib', 'S', 'Cv', 'H', 'G'):
            a, b = float(r[f][i, j]), float(s[f][0, 0])
            pad = tol.get(f, 1e-6) * max(abs(a), abs(b), 1. if f == 'Kp' else 0.)
            pad += 1e-5 * abs(r['Uzp'][i, j]) if f not in tol else 0.
            if abs(a - b) > pad:
                raise Violation('depends:' + f, '%s: %s at T %s, P %s is %r, calculated alone %r' % (
                    who, f, T[i], P[j], a, b))
        ctx.count('alone')

    for k, o in enumerate(sc['jobs']):
        m = H.model(o)
        with open('in%d.yaml' % k, 'w') as f:
            f.write(G.qha_text(o['spec'], m))
        who = 'calculation %d of %d (%s, %s, team of %d %s)' % (k + 1, len(sc['jobs']), o['how'], options(o),
                                                               o['threads'], o['policy'])
        ctx.omp.config(o['oseed'], o['threads'], o['policy'], o['rate'])
        exc, text, c = None, None, None
        path = 'out%d.hdf5' % k
        if o['how'] == 'cli':
            s = sim.run_cli(['qha', 'in%d.yaml' % k] + options(o) + ['-o', 'out%d' % k] + (['-q'] if o['quiet'] else []),
                            lambda t, n: 'y')
            exc = s.exc
            if exc is None and s.exit:
                raise Violation('session', '%s ends with %r' % (who, s.exit))
            with open('out%d.txt' % k) as f:
                text = f.read()
        else:
            mine = {x: y for x, y in settings(o).items() if x not in ('trange', 'prange')}
            if o['how'] == 'reuse' and last is not None and last[1] == mine:
                c = last[0]
                c.temperature, c.pressure = tuple(o['T']), tuple(o['P'])
                ctx.count('reused')
            else:
                c = QHACalculator(settings(o))
            e = c.read_input('in%d.yaml' % k)
            if e is not None:
                raise Violation('refused', '%s: valid input refused: %s' % (who, e))
            with sim_quiet():
                try:
                    c.report_input_data()
                    c.run()
                except Exception as x:
                    exc = x
            if exc is None:
                c.export_hdf5(path)
            last = (c, mine)
        st = ctx.omp.stats()
        for x in ('regions', 'switches', 'conflicts'):
            ctx.count(x, st[x])
        ctx.omp.config()
        ctx.count('policy_' + o['policy'])
        for f in ('scheme', 'mini', 'eos', 'eunit', 'vunit', 'funit', 'tunit', 'punit', 'how'):
            ctx.seen(f, o[f])
        n, q = len(H.grid(o['T'])), len(H.grid(o['P']))
        if exc is not None:
            # allowed where no minimum exists under these options
            R = Ref(o, m)
            if all(R.volume(t, p)[0] is not None for t in kelvin(o) for p in H.grid(o['P'])):
                raise Violation('raises:' + type(exc).__name__, '%s ends with %r though every cell has a minimum' % (
                    who, exc))
            ctx.count('no_minimum')
            last = None
            continue
        if not os.path.exists(path):
            raise Violation('no-result', '%s: no results' % who)
        with h5py.File(path, 'r') as f:
            r = {x: np.asarray(f[x][()]) for x in f}
            units = {x: f[x].attrs.get('unit') for x in f}
            info = str(f.attrs.get('info'))
        if 'Job: %s' % (m['job'] or 'Unknown').strip() not in info:
            raise Violation('info:job', '%s: results of job %r are described as %r' % (who, m['job'], info[:80]))
        labelled(o, units, who)
        ctx.count('cells', identities(o, m, r, who, ctx))
        cells = [(0, 0), (n - 1, q - 1)] + [(rng.randrange(n), rng.randrange(q)) for _ in range(4)]
        reference(o, m, r, cells, who, ctx)
        if text is not None:
            report(o, m, r, text, who)
        i, j = cells[-1]
        alone(o, m, r, i, j, k, who)
        if c is not None:
            held.append((k, o, m, c))
        good = good or (st['regions'] and o['threads'] > 1 and n * q > 3)
        sim.EV.add('result', k, r['VT'].tobytes().hex()[:300], r['G'].tobytes().hex()[:300])
    for k, o, m, c in held:
        if [x[3] for x in held].count(c) == 1 and c.completed:
            identities(o, m, dict(c.results, T=c.temperature, P=c.pressure), 'calculation %d at the end' % (k + 1), ctx)
    if good:
        ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'jobs': [[o['how']] + options(o) for o in sc['jobs']]}


def sim_quiet():
    import contextlib
    import io
    return contextlib.redirect_stdout(io.StringIO())


def shrink(sc, extra):
    if len(sc['jobs']) > 1:
        for js in shrink_list(sc['jobs']):
            if js:
                yield dict(sc, jobs=js)
    for i, o in enumerate(sc['jobs']):
        def with_(**kw):
            n = copy.deepcopy(sc)
            n['jobs'][i].update(kw)
            return n
        if o['threads'] > 1:
            yield with_(threads=1, policy='serial')
        if o['how'] != 'cli':
            yield with_(how='cli')
        n = len(H.grid(o['T']))
        if n > 1:
            yield with_(T=[o['T'][0], o['T'][0], 1.])
        if n > 50:
            yield with_(T=[o['T'][0], round(o['T'][0] + 49 * o['T'][2], 6), o['T'][2]])
        if len(H.grid(o['P'])) > 1:
            yield with_(P=[o['P'][0], o['P'][0], 1.])
        if o['P'][0]:
            yield with_(P=[0., 0., 1.])
        for f, z in (('eunit', 'Ha'), ('vunit', 'A'), ('funit', 'cm-1'), ('punit', 'GPa'), ('scheme', 'td'),
                     ('mini', 'poly'), ('edeg', 3), ('fdeg', 3), ('quiet', False)):
            if o[f] != z:
                yield with_(**{f: z})
        for f in ('nat', 'nq'):
            if o['spec'][f] > 1:
                yield with_(spec=dict(o['spec'], **{f: 1}))
        for f in ('cell', 'acoustic'):
            if o['spec'].get(f):
                yield with_(spec=dict(o['spec'], **{f: None}))
