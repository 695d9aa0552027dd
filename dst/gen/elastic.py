"""Elastic crystals and an independent model of what follows from their
stiffness: everything by fourth-rank tensors, symmetry by rotations."""
import itertools
import math
import random

import numpy as np

PAIRS = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]


def rot(axis, deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    R = np.eye(3)
    R[i, i] = R[j, j] = c
    R[i, j], R[j, i] = -s, s
    return R


CYCLE = np.array([[0., 0, 1], [1, 0, 0], [0, 1, 0]])
# generators of the rotations of each class, conventional axes; most symmetric first
CLASSES = [
    ('cubic', [rot(2, 90), CYCLE]),
    ('hexagonal', [rot(2, 60), rot(0, 180)]),
    ('trigonal_high', [rot(2, 120), rot(0, 180)]),
    ('trigonal_low', [rot(2, 120)]),
    ('tetragonal_high', [rot(2, 90), rot(0, 180)]),
    ('tetragonal_low', [rot(2, 90)]),
    ('orthorhombic', [rot(0, 180), rot(1, 180)]),
    ('monoclinic', [rot(1, 180)]),
    ('triclinic', []),
]
NAMES = [c[0] for c in CLASSES]


def group(gens):
    out = [np.eye(3)]
    k = 0
    while k < len(out):
        for g in gens:
            x = g @ out[k]
            if not any(np.abs(x - y).max() < 1e-8 for y in out):
                out.append(x)
        k += 1
    return out


GROUPS = {n: group(g) for n, g in CLASSES}


def tensor(C):
    """Voigt stiffness -> C_ijkl"""
    T = np.zeros((3, 3, 3, 3))
    for a, (i, j) in enumerate(PAIRS):
        for b, (k, l) in enumerate(PAIRS):
            for p, q in ((i, j), (j, i)):
                for r, s in ((k, l), (l, k)):
                    T[p, q, r, s] = C[a, b]
    return T


def voigt(T):
    return np.array([[T[i, j, k, l] for k, l in PAIRS] for i, j in PAIRS])


def turned(T, R):
    return np.einsum('ip,jq,kr,ls,pqrs->ijkl', R, R, R, R, T, optimize=True)


def averaged(C, name):
    T = tensor(C)
    return voigt(sum(turned(T, R) for R in GROUPS[name]) / len(GROUPS[name]))


def system(C, tol=1e-3):
    """The most symmetric class under whose rotations C does not change."""
    T = tensor(C)
    for name, gens in CLASSES:
        if all(np.abs(voigt(turned(T, R)) - C).max() <= tol for R in GROUPS[name]):
            return name


def inverse(C):
    """S_ijkl, by way of the symmetric (Mandel) form."""
    w = np.array([1., 1, 1, math.sqrt(2), math.sqrt(2), math.sqrt(2)])
    M = np.linalg.inv(np.asarray(C, float) * np.outer(w, w)) / np.outer(w, w)
    return tensor(M)


def crystal(s):
    """{'job', 'stiffness' (4 digits), 'density'}"""
    r = random.Random(s['seed'])
    g = np.random.default_rng(s['seed'])
    while True:
        Q, _ = np.linalg.qr(g.normal(size=(6, 6)))
        if s['kind'] == 'wild':
            C = Q @ np.diag(np.exp(g.uniform(-s['aniso'], s['aniso'], 6)) * 90.) @ Q.T
        else:                                     # isotropic, disturbed
            lam, mu = r.uniform(20., 120.), r.uniform(30., 120.)
            C = np.diag([2 * mu] * 3 + [mu] * 3)
            C[:3, :3] += lam
            D = g.normal(size=(6, 6)) * 20. * s['aniso']
            C = C + (D + D.T) / 2
        C = averaged(C, s['sym'])
        if s.get('turn'):                         # other axes than the conventional ones
            C = voigt(turned(tensor(C), {'z90': rot(2, 90), 'cycle': CYCLE, 'z30': rot(2, 30), 'x90': rot(0, 90),
                                         'free': rot(2, r.uniform(5, 40)) @ rot(0, r.uniform(5, 40))}[s['turn']]))
        C = (C + C.T) / 2
        slight, whole = False, np.round(C, 4)
        if s.get('unstable'):
            k = r.randrange(6)
            C[k, k] = -C[k, k] if r.random() < 0.5 else C[k, k] * 0.02 - 40.
        if s.get('unstable') and s.get('slight', s['seed'] % 3 == 0):      # by next to nothing
            ks = [k for k in range(6) if not np.any(np.delete(whole[k], k))]
            rest = np.delete(np.delete(whole, ks[:1], 0), ks[:1], 1)
            if ks and not np.linalg.eigvalsh(rest).min() < 6.:
                C = whole
                C[ks[0], ks[0]] = -10. ** r.randint(-4, -1)
                slight = True
        C = np.round(C, 4)
        if s.get('nudge'):                        # one modulus off its relation
            i, j = r.choice([(i, j) for i in range(6) for j in range(i, 6)])
            d = s['nudge'] * r.choice([1, -1])
            C[i, j] = round(C[i, j] + d, 4)
            C[j, i] = C[i, j]
        C = np.array([[float('%.4f' % C[i, j]) + 0. for j in range(6)] for i in range(6)])
        low = np.linalg.eigvalsh(C).min()
        if slight or (low < -3. if s.get('unstable') else low > 6.):
            break
    if s.get('skew'):                             # symmetric within the precision of the file only
        i, j = r.choice([(3, 4), (0, 1), (4, 5), (1, 2), (0, 5)])
        C[i, j] = round(C[i, j] + s['skew'], 4)
    return {'job': 'Crystal %d' % r.randint(1, 999) if s['job'] else None, 'stiffness': C,
            'density': float('%.1f' % r.uniform(1200, 7000)) if s['density'] else 0.}


def text(s, m):
    out = [m['job']] if m['job'] else []
    C = m['stiffness']
    for i in range(6):
        js = {'full': range(6), 'upper': range(i, 6), 'lower': range(i + 1)}[s['form']]
        out.append(' '.join('{: > 11.4f}'.format(C[i, j]) for j in js))
    if m['density']:
        out.append('%9.1f' % m['density'])
    return '\n'.join(out) + '\n'


def spec(rng, unstable=0.1):
    s = {'seed': rng.randrange(1 << 30), 'sym': rng.choice(NAMES), 'kind': rng.choice(['wild', 'near', 'near']),
         'aniso': rng.choice([0.2, 0.5, 1.0]), 'job': rng.random() < 0.8, 'density': rng.random() < 0.6,
         'form': rng.choice(['full', 'full', 'upper', 'lower']), 'turn': None, 'nudge': 0, 'unstable': False, 'skew': 0}
    if rng.random() < 0.2:
        s['turn'] = rng.choice(['z90', 'cycle', 'z30', 'x90', 'free'])
    if rng.random() < unstable:
        s['unstable'] = True
    if rng.random() < 0.1 and not s['unstable']:
        s['form'], s['skew'] = 'full', rng.choice([2e-4, -5e-4])
    return s


# ------------------------------------------------------------------ the model
def first(t, p):
    return np.stack([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)], -1)


def second(t, p, x):
    """A unit vector normal to first(t, p), at angle x."""
    u = np.stack([np.cos(t) * np.cos(p), np.cos(t) * np.sin(p), -np.sin(t)], -1)
    v = np.stack([-np.sin(p), np.cos(p), np.zeros_like(p)], -1)
    return np.cos(x)[..., None] * u + np.sin(x)[..., None] * v


class Model(object):
    def __init__(self, C, density=0.):
        self.C = np.asarray(C, float)
        self.rho = density
        self.T = tensor((self.C + self.C.T) / 2)
        self.S = inverse((self.C + self.C.T) / 2)

    def averages(self):
        T, S = self.T, self.S
        rows = []
        for K, G in ((np.einsum('iijj', T) / 9, (3 * np.einsum('ijij', T) - np.einsum('iijj', T)) / 30),
                     (1 / np.einsum('iijj', S), 15 / (2 * (3 * np.einsum('ijij', S) - np.einsum('iijj', S))))):
            rows.append([K, G])
        rows.append([(rows[0][0] + rows[1][0]) / 2, (rows[0][1] + rows[1][1]) / 2])
        return np.array([[K, 9 * K * G / (3 * K + G), G, (3 * K - 2 * G) / (2 * (3 * K + G))] for K, G in rows])

    def isotropic(self):
        K, _, G, _ = self.averages()[2]
        return math.sqrt(1e3 * G / self.rho), math.sqrt(1e3 * (K + 4 * G / 3) / self.rho)

    def E(self, a):
        return 1 / np.einsum('ijkl,...i,...j,...k,...l->...', self.S, a, a, a, a, optimize=True)

    def LC(self, a):
        return 1e3 * np.einsum('ijkk,...i,...j->...', self.S, a, a, optimize=True)

    def G(self, a, b):
        return 1 / (4 * np.einsum('ijkl,...i,...j,...k,...l->...', self.S, a, b, a, b, optimize=True))

    def Nu(self, a, b):
        return -np.einsum('ijkl,...i,...j,...k,...l->...', self.S, a, a, b, b, optimize=True) * self.E(a)

    def waves(self, a):
        M = np.einsum('ijkl,...j,...l->...ik', self.T, a, a, optimize=True)
        return np.sqrt(np.linalg.eigvalsh(M) * 1e3 / self.rho)

    def around(self, f, a, u, v):
        """Extremes of f(a, b) over b normal to a, to ~1e-9."""
        x = np.linspace(0, np.pi, 61)[:-1]
        n = a.shape[0]

        def at(x):
            b = np.cos(x)[..., None] * u[:, None, :] + np.sin(x)[..., None] * v[:, None, :]
            return f(np.broadcast_to(a[:, None, :], b.shape), b)
        y = at(np.broadcast_to(x, (n, len(x))))
        out = []
        for sgn in (1, -1):
            z, w = x[np.argmin(sgn * y, axis=1)], x[1] - x[0]
            for _ in range(5):
                c = z[:, None] + np.linspace(-w, w, 21)[None, :]
                z = c[np.arange(n), np.argmin(sgn * at(c), axis=1)]
                w /= 8.
            out.append(at(z[:, None])[:, 0])
        return out

    def extremes(self):
        """{name: (min, max)} over all directions."""
        t = np.linspace(0, np.pi, 46)
        p = np.linspace(0, np.pi, 46)[:-1]
        x = np.linspace(0, np.pi, 37)[:-1]
        g2 = [z.ravel() for z in np.meshgrid(t, p, indexing='ij')]
        g3 = [z.ravel() for z in np.meshgrid(t, p, x, indexing='ij')]
        todo = {'E': (lambda q: self.E(first(*q)), g2), 'LC': (lambda q: self.LC(first(*q)), g2),
                'G': (lambda q: self.G(first(*q[:2]), second(*q)), g3),
                'Nu': (lambda q: self.Nu(first(*q[:2]), second(*q)), g3)}
        if self.rho:
            for k, n in enumerate(('V_s1', 'V_s2', 'V_p')):
                todo[n] = (lambda q, k=k: self.waves(first(*q))[..., k], g2)
        out = {}
        for n, (f, g) in todo.items():
            y = f(g)
            A = first(*g[:2])
            B = second(*g) if len(g) == 3 else None
            res = []
            for sgn in (1, -1):
                best = None
                starts = []
                for k in np.argsort(sgn * y):
                    # distinct directions
                    if all(abs(A[k] @ A[j]) < 0.98 or B is not None and abs(B[k] @ B[j]) < 0.9 for j in starts):
                        starts.append(k)
                        if len(starts) == 6:
                            break
                for k in starts:
                    q, w = [z[k] for z in g], 0.08
                    for _ in range(14):
                        c = np.meshgrid(*[z + np.linspace(-w, w, 7) for z in q], indexing='ij')
                        c = [z.ravel() for z in c]
                        v = sgn * f(c)
                        i = int(np.argmin(v))
                        q = [z[i] for z in c]
                        w *= 0.55
                    v = float((sgn * f([np.array([z]) for z in q]))[0])
                    best = v if best is None or v < best else best
                res.append(sgn * best)
            out[n] = tuple(res)
        return out
