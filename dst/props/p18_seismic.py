"""P18: seismic wave analysis solves the Christoffel equation, whatever was
asked before."""
import copy
import math
import random

from dst.engine import Violation, digest, shrink_list
from dst.gen import elastic as L

LEVEL = 'exploration'
RUNS = {'quick': 2500, 'thorough': 80000}
TIMEOUT = 120.0
RULE = ('A run = 1-4 Seismic objects of seeded crystals of nine classes (conventional or turned axes, some unstable) '
        'in one process and a seeded history of 6-60 operations: directions set in spherical or Cartesian form '
        '(general, axes, diagonals, any length), and any of 24 quantities asked in any order, repeatedly, object after '
        'object, interleaved, or each object in a thread switched at seeded lines; Ctrl-C or a failed allocation at a '
        'seeded line of some operations, which are then asked again. Every answer is compared with an independent '
        'model (fourth-rank tensor contractions, closed-form group velocities, finite differences of them) of that '
        'object and the direction last set; answers held must not change. Non-trivial: a direction set over answers '
        'of an earlier one, or two objects; distinct by history digest.')
REAL = ['quantas.seismic.utils.seismic_obj.Seismic', 'numpy/LAPACK']
STUB = ['interrupts and failed allocations (injected at source lines)', 'thread schedule (seeded)']
ASSUMPTIONS = ['directions where two sheets touch (relative gap below 1e-3) are judged for velocities only',
               'one object is used by one thread', 'the calculator and the command of this module cannot be imported at '
               'this commit and are not judged']
FLOOR = {'answers': 40000, 'enhancement': 4000, 'interrupted': 800, 'switches': 20000}

FIXED = ['stiffness', 'compliance', 'bulk_modulus', 'shear_modulus', 'isotropic_velocity', 'iso_S', 'iso_P']
ASK = ['christoffel', 'q', 'angles', 'grad_M', 'eigenval', 'eigenvec', 'phase_velocity', 'rel_phase_velocity',
       'hessian_eigenval', 'grad_eigenval', 'group_velocity', 'group_abs', 'rel_group_velocity', 'group_dir',
       'group_theta', 'group_phi', 'powerflow_angle', 'enhancement']


def direction(rng):
    k = rng.choice(['sph', 'sph', 'cart', 'cart', 'axis', 'diag'])
    if k == 'sph':
        return ['sph', rng.uniform(0, math.pi), rng.uniform(-math.pi, 2 * math.pi)]
    if k == 'axis':
        v = [0., 0., 0.]
        v[rng.randrange(3)] = rng.choice([1., -1., 2.])
        return ['cart'] + v
    if k == 'diag':
        return ['cart'] + [float(rng.choice([1, 1, 0, -1])) for _ in range(2)] + [1.]
    n = rng.choice([1., 1., 1e-3, 50.])
    return ['cart'] + [n * rng.gauss(0, 1) for _ in range(3)]


def scenario(rng, idx, tier):
    objs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        s = L.spec(rng, 0.1)
        s['slight'] = False                      # vanishing velocities: ill-conditioned
        s['density'] = True
        s['skew'] = 0
        ops = []
        for k in range(rng.choice([6, 12, 20])):
            if k == 0 or rng.random() < 0.2:
                ops.append(direction(rng))
            ops.append(['ask', rng.choice(ASK + FIXED if rng.random() < 0.4 else ASK)])
        objs.append({'spec': s, 'ops': ops})
    mode = rng.choice(['turns', 'mixed', 'mixed', 'threads'])
    bombs = []
    if mode != 'threads' and rng.random() < 0.5:
        bombs = [[rng.random(), rng.choice(['int', 'mem']), int(rng.choice([3, 10, 40]) * rng.random()) + 1]
                 for _ in range(rng.choice([1, 2, 5]))]
    return {'objs': objs, 'mode': mode, 'order': rng.randrange(1 << 30), 'rate': rng.choice([0.02, 0.1, 0.4]), 'bombs': bombs}


class Ref(object):
    """The physics of one crystal and one direction."""

    def __init__(self, m):
        import numpy as np
        self.C = m['stiffness']
        self.rho = m['density']
        self.M = L.Model(self.C, self.rho)
        self.T = self.M.T * 1e3 / self.rho
        self.at = {}
        self.np = np

    def christoffel(self, q):
        return self.np.einsum('ijkl,j,l->ik', self.T, q, q)

    def sheets(self, q):
        w, v = self.np.linalg.eigh(self.christoffel(q))
        return w, v.T

    def slope(self, q):
        """Gradient of each eigenvalue by the direction components."""
        w, v = self.sheets(q)
        return 2 * self.np.einsum('ijkl,ni,nk,l->nj', self.T, v, v, q)

    def fixed(self, name):
        np = self.np
        if name == 'stiffness':
            return self.C
        if name == 'compliance':
            return np.linalg.inv(self.C)
        K, _, G, _ = self.M.averages()[2]
        if name == 'bulk_modulus':
            return K
        if name == 'shear_modulus':
            return G
        vs = math.sqrt(1e3 * G / self.rho) if G > 0 else math.nan
        w = 1e3 * (K + 4 * G / 3) / self.rho
        vp = math.sqrt(w) if w > 0 else math.nan
        return {'isotropic_velocity': np.array([vs, vs, vp]), 'iso_S': vs, 'iso_P': vp}[name]

    def of(self, q):
        """{name: (value, judged sheets or None)}"""
        np = self.np
        key = tuple(q)
        if key in self.at:
            return self.at[key]
        w, v = self.sheets(q)
        scale = np.abs(w).max()
        gap = [min(abs(w[i] - w[j]) for j in range(3) if j != i) / scale for i in range(3)]
        ok = [g > 1e-3 and abs(w[i]) > 1e-3 * scale for i, g in enumerate(gap)]
        pv = np.sign(w) * np.sqrt(np.abs(w))
        g = self.slope(q)
        with np.errstate(all='ignore'):
            gv = g / (2 * pv[:, None])
            ga = np.linalg.norm(gv, axis=1)
            gd = gv / ga[:, None]
        iso = self.fixed('isotropic_velocity')
        h = 1e-5
        H = np.zeros((3, 3, 3))
        for i in range(3):
            e = np.zeros(3)
            e[i] = h
            H[:, i, :] = (self.slope(q + e) - self.slope(q - e)) / (2 * h)
        # area swept by the group direction per area swept by the wave direction
        a = np.array([1., 0, 0]) if abs(q[0]) < 0.7 else np.array([0., 1, 0])
        t1 = a - (a @ q) * q
        t1 /= np.linalg.norm(t1)
        t2 = np.cross(q, t1)

        def gdir(x):
            s = self.slope(x)
            ww = self.sheets(x)[0]
            return s / np.linalg.norm(s, axis=1)[:, None] * np.sign(ww)[:, None]
        d1 = (gdir(q + h * t1) - gdir(q - h * t1)) / (2 * h)
        d2 = (gdir(q + h * t2) - gdir(q - h * t2)) / (2 * h)
        area = np.linalg.norm(np.cross(d1, d2), axis=1)
        r = {'christoffel': self.christoffel(q), 'q': q, 'eigenval': w, 'phase_velocity': pv,
             'rel_phase_velocity': pv / iso,
             'grad_M': np.einsum('iakl,l->aik', self.T, q) + np.einsum('ijka,j->aik', self.T, q),
             'hessian_eigenval': H, 'grad_eigenval': g, 'group_velocity': gv, 'group_abs': ga,
             'rel_group_velocity': ga / iso, 'group_dir': gd, 'area': area, 'ok': ok, 'gap': gap, 'scale': scale,
             'powerflow': gd @ q}
        self.at[key] = r
        return r


def execute(sc, ctx):
    import numpy as np

    from dst import sim
    from quantas.seismic.utils.seismic_obj import Seismic
    np.seterr(all='ignore')
    mats = [L.crystal(o['spec']) for o in sc['objs']]
    refs = [Ref(m) for m in mats]
    given = [m['stiffness'].copy() for m in mats]
    made = [Seismic(g, m['density']) for g, m in zip(given, mats)]
    last, held, told = [None] * len(made), [], [0] * len(made)
    todo = [list(o['ops']) for o in sc['objs']]
    rng = random.Random(sc['order'])
    count = {'answers': 0, 'enhancement': 0}

    def bad(i, name, got, want):
        raise Violation(name, 'object %d of %d, direction %s (%s): %s is %s, by definition %s' % (
            i + 1, len(made), last[i][1], last[i][0][0] if last[i][0] else '', name, np.asarray(got).tolist(),
            np.asarray(want).tolist()))

    def same(i, name, got, want, tol, sheets=None):
        g, w = np.asarray(got, float), np.asarray(want, float)
        if g.shape != w.shape:
            bad(i, name, g, w)
        if sheets is not None:
            g, w = g[sheets], w[sheets]
        keep = np.isfinite(w)
        if not keep.any():
            return
        if not (np.isfinite(g[keep]).all() and np.abs(g[keep] - w[keep]).max() <= tol * max(np.abs(w[keep]).max(), 1e-3)):
            bad(i, name, got, want)

    def fetch(i, name):
        s = made[i]
        return (s.theta, s.phi) if name == 'angles' else getattr(s, name)

    def check(i, name, got):
        count['answers'] += 1
        if name in FIXED:
            same(i, name, got, refs[i].fixed(name), 1e-9)
            return
        op, q = last[i]
        r = refs[i].of(q)
        ok = [k for k in range(3) if r['ok'][k]]
        fuzz = 1e-9 / min([1.] + [r['gap'][k] for k in ok])
        if name == 'angles':
            same(i, 'direction of the angles', L.first(np.float64(got[0]), np.float64(got[1])), q, 1e-9)
            if op[0] == 'sph' and (got[0], got[1]) != (op[1], op[2]):
                bad(i, name, got, op[1:])
        elif name == 'eigenvec':
            v = np.asarray(got, float)
            if v.shape != (3, 3) or np.abs(v @ v.T - np.eye(3)).max() > 1e-9 or \
                    np.abs(v @ r['christoffel'] - r['eigenval'][:, None] * v).max() > 1e-9 * r['scale']:
                bad(i, name, v, refs[i].sheets(q)[1])
        elif name in ('christoffel', 'q', 'grad_M'):
            same(i, name, got, r[name], 1e-11)
        elif name in ('eigenval', 'phase_velocity', 'rel_phase_velocity'):
            same(i, name, got, r[name], 1e-7)          # square root of a small eigenvalue
        elif name in ('grad_eigenval', 'group_velocity', 'group_abs', 'rel_group_velocity', 'group_dir'):
            same(i, name, got, r[name], 10 * fuzz, ok)
        elif name in ('group_theta', 'group_phi'):
            # as directions: the azimuth is free at the poles
            t, p = (np.asarray(fetch(i, n), float) for n in ('group_theta', 'group_phi'))
            same(i, name, got, t if name == 'group_theta' else p, 1e-12, ok)
            same(i, name, L.first(t, p), r['group_dir'], 10 * fuzz, ok)
        elif name == 'powerflow_angle':
            same(i, name, np.cos(np.asarray(got, float)), r['powerflow'], 1e-9 + 10 * fuzz, ok)
        elif name == 'hessian_eigenval':
            # by finite differences: judged where the sheets are well apart
            far = [k for k in ok if r['gap'][k] > 0.02]
            if far:
                same(i, name, got, r[name], 1e-5 / min(r['gap'][k] for k in far), far)
        else:
            g = np.asarray(got, float)
            far = [k for k in ok if r['gap'][k] > 0.02]
            if g.shape != (3,):
                bad(i, name, g, 1 / r['area'])
            for k in far:
                a = 1 / g[k]
                if not abs(a - r['area'][k]) <= 1e-5 * (1 + r['area'][k]) / r['gap'][k]:
                    bad(i, name, g, 1 / r['area'])
                count['enhancement'] += 1

    def do(i, op):
        if op[0] == 'sph':
            made[i].spherical_direction(op[1], op[2])
            last[i] = (op, L.first(np.float64(op[1]), np.float64(op[2])))
        elif op[0] == 'cart':
            v = np.array(op[1:])
            made[i].cartesian_direction(v)
            if not np.array_equal(v, op[1:]):
                raise Violation('argument', 'object %d: the vector given was changed' % (i + 1))
            last[i] = (op, v / math.sqrt(float(v @ v)))
        else:
            got = fetch(i, op[1])
            check(i, op[1], got)
            if isinstance(got, np.ndarray):
                held.append((i, op[1], got, got.copy()))
        told[i] += 1

    steps = []
    if sc['mode'] == 'threads':
        b = sim.Baton(random.Random(sc['order']), sc['rate'])

        def body(i):
            for op in todo[i]:
                do(i, op)
        res = b.run([('t%d' % i, (lambda i=i: body(i))) for i in range(len(made))])
        for n in sorted(res):
            if res[n][0] == 'exc':
                raise res[n][1]
        ctx.count('switches', len(b.trace))
        sim.EV.add('switches', b.trace)
        steps = [i for i, t in enumerate(todo) for _ in t]
    else:
        live = [i for i, t in enumerate(todo) for _ in t]
        if sc['mode'] == 'mixed':
            rng.shuffle(live)
        at = {int(x[0] * len(live)): x for x in sc['bombs']}
        pos = [0] * len(made)
        for k, i in enumerate(live):
            op = todo[i][pos[i]]
            pos[i] += 1
            if k in at:
                x = at[k]
                bomb = sim.LineBomb(x[2], {'int': KeyboardInterrupt, 'mem': MemoryError}[x[1]], only=('/quantas/seismic/',))
                bomb.install()
                try:
                    do(i, op)
                except (KeyboardInterrupt, MemoryError):
                    ctx.count('interrupted')
                finally:
                    bomb.remove()
            do(i, op)
        steps = live
    for i, name, got, copy_ in held:
        if not np.array_equal(got, copy_, equal_nan=True):
            raise Violation('held', 'object %d: the %s held by the caller changed' % (i + 1, name))
    for i, g in enumerate(given):
        if not np.array_equal(g, mats[i]['stiffness']):
            raise Violation('argument', 'object %d: the stiffness given was changed' % (i + 1))
    for k, v in count.items():
        ctx.count(k, v)
    for o in sc['objs']:
        ctx.seen('classes', o['spec']['sym'])
    sim.EV.add('ops', repr(todo))
    sim.EV.add('held', digest([h[3].tobytes() for h in held]))
    if len(made) > 1 or sum(1 for op in todo[0] if op[0] != 'ask') > 1:
        ctx.nontrivial = digest(sim.EV.items + [repr(steps)])
    ctx.sample = {'mode': sc['mode'], 'crystals': [o['spec']['sym'] for o in sc['objs']], 'operations': todo[0][:6]}


def shrink(sc, extra):
    for js in shrink_list(sc['objs']):
        if js:
            yield dict(sc, objs=js)
    if sc['mode'] != 'turns':
        yield dict(sc, mode='turns', bombs=[])
    if sc['bombs']:
        yield dict(sc, bombs=[])
        for bs in shrink_list(sc['bombs']):
            yield dict(sc, bombs=bs)
    for i, o in enumerate(sc['objs']):
        for ops in shrink_list(o['ops'][1:]):
            n = copy.deepcopy(sc)
            n['objs'][i]['ops'] = [o['ops'][0]] + ops
            yield n
        for f, z in (('turn', None), ('unstable', False), ('kind', 'near'), ('aniso', 0.2), ('sym', 'cubic')):
            if o['spec'][f] != z:
                n = copy.deepcopy(sc)
                n['objs'][i]['spec'][f] = z
                yield n
