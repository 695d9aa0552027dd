"""P16: elastic results equal their tensor definitions."""
import copy
import os
import random
import re

from dst.engine import Violation, digest, shrink_list
from dst.gen import elastic as L

LEVEL = 'exploration'
RUNS = {'quick': 300, 'thorough': 12000}
TIMEOUT = 120.0
RULE = ('A run = a history of 1-5 elastic analyses in one process, each a whole CLI session or the steps of a '
        'calculator that may be new, reused after another crystal (stable, unstable, refused or interrupted by Ctrl-C '
        'at a seeded output), or interleaved step by step with others. Crystals of all nine classes, conventional or '
        'turned axes, weakly to strongly anisotropic, with or without density, unstable, or symmetric only to the '
        'digits of the file. Stored datasets, units and every number of the report are compared with an independent '
        'fourth-rank tensor model: compliance, averages, eigenvalues, velocities, polar sections, extremes over all '
        'directions and the values at the axes reported. Non-trivial: 2+ analyses or an anisotropic crystal with '
        'polar sections; distinct by history digest.')
REAL = ['whole SOEC sessions and SOECCalculator of /repo', 'scipy optimisers (2 of 10 runs)', 'h5py/HDF5']
STUB = ['scipy optimisers in 8 of 10 runs (extremes then only checked for being attained at their axes)',
        'polar sections of 2-37 directions (360 in 1 of 30 runs)', 'terminal (simulated user)', 'clock frozen']
ASSUMPTIONS = ['extremes to 0.3 % of the range over a sampled and refined reference (Ctrl-C excepted)']
FLOOR = {'checked': 500, 'extremes': 40, 'polar': 120, 'unstable': 30, 'reused': 60}


def one(rng):
    s = L.spec(rng)
    return {'spec': s, 'polar': rng.random() < 0.45, 'how': rng.choice(['cli', 'cli', 'api', 'reuse', 'reuse']),
            'quiet': rng.random() < 0.3, 'before': rng.choice([None] * 6 + ['refused', 'gone']),
            'cut': rng.randrange(60) if rng.random() < 0.12 else None, 'over': rng.random() < 0.2}


def scenario(rng, idx, tier):
    n = rng.choice([1, 2, 2, 3, 4, 5])
    coarse = rng.random() < 0.8
    if not coarse:
        n = min(n, 2)
    return {'jobs': [one(rng) for _ in range(n)], 'coarse': coarse, 'order': rng.randrange(1 << 30),
            'mix': rng.random() < 0.4, 'nrad': 360 if rng.random() < 0.03 else rng.choice([2, 3, 5, 9, 13, 37])}


NUM = r'-?(?:\d+\.\d+|nan|inf)'


def numbers(line):
    return [float(x) for x in re.findall(NUM, line)]


def close(a, b, rel, absol):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= rel * np.abs(b) + absol).all())


def slack(o, S):
    """What a matrix symmetric to the digits of the file leaves open."""
    return 2e-3 * abs(o['spec']['skew']) * float(abs(S).max())**2


def need(ok, key, who, what):
    if not ok:
        raise Violation(key, '%s: %s' % (who, what))


def block(text, start, stop=None):
    k = text.find(start)
    if k < 0:
        return ''
    j = text.find(stop, k) if stop else -1
    return text[k:] if j < 0 else text[k:j]


def table(text, title, who):
    """Rows of numbers of a table of extremes: values, anisotropy, axes."""
    b = block(text, title, 'Notes:')
    rows = {}
    lab = None
    for line in b.split('\n'):
        m = re.match(r'    (.{10}) \|(.*)', line)
        if not m or not numbers(m.group(2)):
            continue
        name = m.group(1).strip()
        if name in ('Values', 'Anisotropy'):
            rows[name] = numbers(m.group(2))
        else:
            rows.setdefault('rows', []).append(numbers(m.group(2)))
            if name:
                lab = name
                rows.setdefault('labels', []).append(lab)
    need('Values' in rows and 'rows' in rows and len(rows['rows']) % 3 == 0, 'report:table', who,
         'the table of %s is not complete: %r' % (title, b[:300]))
    return rows


def axes(rows, k, col):
    return [r[col] for r in rows['rows'][3 * k:3 * k + 3]]


def report(o, m, ref, text, who, full, nstab):
    """Every number of the report."""
    import numpy as np
    C = m['stiffness']
    sk = 1 + abs(o['spec']['skew']) * 1e4       # symmetric to the digits of the file only
    job = re.search(r'^Elastic analysis of (.*)$', text, re.M)
    need(job and job.group(1) == (m['job'] or 'Unknown'), 'report:job', who, 'names %r' % (job and job.group(0)))
    d = re.search(r'^Density: (.*)$', text, re.M)
    need(d and d.group(1) == ('%s kg m^-3' % m['density'] if m['density'] else 'not provided'), 'report:density', who,
         'density %r, input %r' % (d and d.group(1), m['density']))
    rows = [numbers(x) for x in block(text, 'Stiffness matrix', 'Compliance').split('\n')[1:7]]
    need(close(rows, C, 0, 1e-9), 'report:stiffness', who, 'stiffness %s, input %s' % (rows, C.tolist()))
    rows = [numbers(x) for x in block(text, 'Compliance tensor', 'Average').split('\n')[1:7]]
    S = np.linalg.inv((C + C.T) / 2) * 1e3
    need(close(rows, S, 1e-7 * sk, 6e-7 + slack(o, S)), 'report:compliance', who, 'compliance %s, inverse of the stiffness %s' % (
        rows, S.tolist()))
    for name, v in zip(('Voigt', 'Reuss', 'Hill'), ref.averages()):
        r = re.search(r'^%s +(.*)$' % name, text, re.M)
        g = numbers(r.group(1)) if r else None
        need(g and close(g, v, 1e-7 * sk, 6e-6 * sk), 'report:averages', who, '%s averages %s, by definition %s' % (name, g, v))
    ev = [float(x) for x in re.findall(r'^ +lambda_\d: *(\S+) *$', text, re.M)]
    need(close(ev, np.linalg.eigvalsh((C + C.T) / 2), 1e-7, 6e-6 + 2 * abs(o['spec']['skew'])), 'report:eigenvalues', who,
         'eigenvalues %s' % ev)
    v = re.findall(r'\((V[sp])\): *(\S+) km/s', text)
    if not m['density']:
        need(not v and 'V_s1' not in text, 'report:velocities', who, 'velocities %s without a density' % v)
    elif nstab:
        # the averages of an unstable crystal may have no square root
        need(len(v) == 2 or 'nan' not in text, 'report:velocities', who, 'velocities %s' % v)
    else:
        want = ref.isotropic()
        need([x[0] for x in v] == ['Vs', 'Vp'] and close([float(x[1]) for x in v], want, 1e-7 * sk, 6e-6 * sk),
             'report:velocities', who, 'velocities %s, by definition %s' % (v, want))
    if nstab:
        need('Young\'s modulus   ' not in text, 'report:unstable', who, 'directional properties of an unstable crystal')
        return
    ex = ref.extremes() if full else None
    t1 = table(text, 'Variations of the elastic moduli', who)
    t2 = table(text, '|          Shear modulus', who)
    tabs = [('E', t1, 0, False), ('LC', t1, 1, False), ('G', t2, 0, True), ('Nu', t2, 1, True)]
    if m['density']:
        t3 = table(text, 'Variations of the seismic velocities', who)
        tabs += [(n, t3, k, False) for k, n in enumerate(('V_s1', 'V_s2', 'V_p'))]
    f2 = {'E': ref.E, 'LC': ref.LC, 'V_s1': lambda a: ref.waves(a)[0], 'V_s2': lambda a: ref.waves(a)[1],
          'V_p': lambda a: ref.waves(a)[2], 'G': ref.G, 'Nu': ref.Nu}
    for n, t, k, dual in tabs:
        lo, hi = t['Values'][2 * k:2 * k + 2]
        need(lo <= hi + 1e-4, 'report:order:' + n, who, '%s from %s to %s' % (n, lo, hi))
        span = ex[n][1] - ex[n][0] if full else max(abs(hi - lo), abs(lo) * 1e-2)
        tol = (3e-3 if n[0] == 'V' else 2e-3) * span + 1.2e-4 * sk + 2e-6 * abs(hi)
        if full:
            need(lo - ex[n][0] <= tol and ex[n][1] - hi <= tol, 'report:extremes:' + n, who,
                 '%s from %s to %s, over all directions %s' % (n, lo, hi, ex[n]))
        for which, val in ((0, lo), (1, hi)):
            a = np.array(axes(t, 0, 2 * k + which))
            need(abs(np.linalg.norm(a) - 1) < 2e-4, 'report:axis:' + n, who, 'axis %s of %s' % (a, n))
            a = a / np.linalg.norm(a)
            arg = [a]
            if dual:
                b = np.array(axes(t, 1, 2 * k + which))
                need(abs(np.linalg.norm(b) - 1) < 2e-4 and abs(a @ b) < 4e-4, 'report:axis:' + n, who,
                     'axes %s and %s of %s' % (a, b, n))
                b = b - (a @ b) * a
                arg.append(b / np.linalg.norm(b))
            x = float(f2[n](*arg))
            # away from an extreme, the digits of the axis count
            t_ = tol if full else tol + 1e-3 * (abs(hi) + span)
            need(abs(x - val) <= t_, 'report:axis:' + n, who, '%s of %s reported along %s, where it is %s' % (
                n, val, [list(z) for z in arg], x))
        an = t['Anisotropy'][k] if k < len(t['Anisotropy']) else None
        if lo <= 0:
            good = an == np.inf or lo == 0
        else:
            w = hi / lo
            good = an is not None and (abs(an - w) <= 6e-5 + w * 6e-5 * (1 / lo + 1 / max(hi, 1e-9)) or an == np.inf and lo < 1e-3)
        need(good, 'report:anisotropy:' + n, who, 'anisotropy %s of %s from %s to %s' % (an, n, lo, hi))


UNITS = {'E': 'GPa', 'G': 'GPa', 'LC': 'TPa^-1', 'waves': 'km s^-1', 'Nu': ''}


def polar(o, m, ref, got, nrad, who):
    """Sections: {plane: {quantity: rows}}"""
    import numpy as np
    ang = np.linspace(0, 2 * np.pi, nrad)
    z, q = np.zeros_like(ang), np.full_like(ang, np.pi / 2)
    names = ['E', 'LC', 'G', 'Nu'] + (['waves'] if m['density'] else [])
    need(sorted(got) == ['xy', 'xz', 'yz'], 'polar:planes', who, 'planes %s' % sorted(got))
    tol = 2e-6 + abs(o['spec']['skew']) * 2e-2
    for plane, t, p in (('xy', q, ang), ('xz', ang, z), ('yz', ang, q)):
        need(sorted(got[plane]) == sorted(names), 'polar:names', who, '%s has %s' % (plane, sorted(got[plane])))
        a = L.first(t, p)
        u, v = L.second(t, p, z), L.second(t, p, q)
        E, lc = ref.E(a), ref.LC(a)
        gl, gh = ref.around(ref.G, a, u, v)
        nl, nh = ref.around(ref.Nu, a, u, v)
        want = {'E': [E], 'LC': [np.maximum(lc, 0), np.maximum(-lc, 0)], 'G': [gl, gh],
                'Nu': [np.minimum(nl, 0), np.maximum(nl, 0), nh]}
        if m['density']:
            want['waves'] = list(ref.waves(a).T)
        for n in names:
            w = np.column_stack([np.degrees(ang)] + want[n])
            g = np.asarray(got[plane][n], float)
            need(g.shape == w.shape, 'polar:shape:' + n, who, '%s in %s has shape %s, expected %s' % (n, plane, g.shape, w.shape))
            scale = np.abs(w[:, 1:]).max()
            if o['spec']['skew']:            # ratios and compressibilities may all be close to zero
                scale = max(scale, {'Nu': 1., 'LC': 1e3 * np.abs(ref.S).max()}.get(n, 0.))
            e = np.abs(g - w)
            e[:, 0] /= 360.
            e[:, 1:] /= scale
            at = np.unravel_index(int(np.argmax(e)), e.shape)
            need(e.max() <= (tol if n != 'Nu' else tol + 1e-7), 'polar:' + n, who,
                 '%s in %s at %.1f degrees is %s, by definition %s' % (n, plane, w[at[0], 0], g[at[0]], w[at[0]]))


def stored(path, who):
    import h5py
    import numpy as np
    need(os.path.exists(path), 'no-result', who, '%s was not written' % path)
    with h5py.File(path, 'r') as f:
        return {k: np.asarray(f[k][()]) for k in f}, {k: f[k].attrs.get('unit') for k in f}


def judge(o, m, ref, got, units, nrad, who):
    import numpy as np
    C = m['stiffness']
    sk = 1 + abs(o['spec']['skew']) * 1e7
    names = ['averages', 'compliance', 'eigenvals', 'stiffness']
    if o['polar']:
        names += ['polar_%s_%s' % (q, p) for q in UNITS if q != 'waves' or m['density'] for p in ('xy', 'xz', 'yz')]
    need(sorted(got) == sorted(names), 'stored:names', who, 'stored %s, expected %s' % (sorted(got), sorted(names)))
    for n in names:
        u = UNITS[n.split('_')[1]] if n.startswith('polar') else 'TPa^-1' if n == 'compliance' else 'GPa'
        need(units[n] == u, 'stored:unit:' + n.split('_')[0], who, '%s is labelled %r' % (n, units[n]))
    need(np.array_equal(got['stiffness'], C), 'stored:stiffness', who, 'stiffness %s' % got['stiffness'])
    S = np.linalg.inv((C + C.T) / 2) * 1e3
    need(close(got['compliance'], S, 1e-9 * sk, 1e-9 + slack(o, S)), 'stored:compliance', who, 'compliance %s, expected %s' % (
        got['compliance'].tolist(), S.tolist()))
    need(close(got['averages'], ref.averages(), 1e-9 * sk, 1e-9 * sk), 'stored:averages', who, 'averages %s, expected %s' % (
        got['averages'].tolist(), ref.averages().tolist()))
    need(close(got['eigenvals'], np.linalg.eigvalsh((C + C.T) / 2), 1e-9 * sk, 1e-9 + 2 * abs(o['spec']['skew'])),
         'stored:eigenvals', who, 'eigenvalues %s' % got['eigenvals'])
    if o['polar']:
        polar(o, m, ref, {p: {q: got['polar_%s_%s' % (q, p)] for q in UNITS if 'polar_%s_%s' % (q, p) in got}
                          for p in ('xy', 'xz', 'yz')}, nrad, who + ', stored')


def unused(o, i):
    return {'pressure_unit': 'GPa', 'debug': False, 'silent': o['quiet'], 'polar': o['polar'], 'plotting': False,
            'dpi': 80, 'logfile': 'api%d.txt' % i, 'outfig': None}


def execute(sc, ctx):
    import sys

    from dst import sim, stubs
    from dst.world import World
    World(ctx)
    ctx.clock.on(step=0.)
    if sc['coarse']:
        stubs.coarse_optimisers()
    stubs.coarse_angles(sc['nrad'])
    nrad = sc['nrad']
    from quantas.soec.soec import SOECCalculator
    jobs = sc['jobs']
    models, refs = [], []
    rng = random.Random(sc['order'])
    for i, o in enumerate(jobs):
        m = L.crystal(o['spec'])
        models.append(m)
        refs.append(L.Model(m['stiffness'], m['density']))
        with open('in%d.dat' % i, 'w') as f:
            f.write(L.text(o['spec'], m))
        with open('bad%d.dat' % i, 'w') as f:
            f.write(L.text(o['spec'], m)[:150])
        if o['over']:
            with open('out%d.hdf5' % i, 'w') as f:
                f.write('other\n')
    plans = [[(i, s) for s in (['cli'] if o['how'] == 'cli' else ['new', 'read', 'report', 'run', 'export'])]
             for i, o in enumerate(jobs)]
    steps = []
    if sc['mix']:
        live = [list(p) for p in plans]
        while any(live):
            steps.append(rng.choice([x for x in live if x]).pop(0))
    else:
        steps = [s for p in plans for s in p]
    calcs, free = {}, []
    good = len(jobs) > 1
    screen = sim.Screen('out')

    def quiet(fn, *a):
        keep = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = screen
        try:
            return fn(*a)
        finally:
            sys.stdout, sys.stderr = keep

    def finish(i, text, who):
        o, m = jobs[i], models[i]
        report(o, m, refs[i], text, who, not sc['coarse'], o['spec']['unstable'])
        ctx.count('checked')
        ctx.seen('classes', o['spec']['sym'] + ('/' + o['spec']['turn'] if o['spec']['turn'] else ''))
        if o['spec']['unstable']:
            ctx.count('unstable')
        elif not sc['coarse']:
            ctx.count('extremes')

    for i, s in steps:
        o, m = jobs[i], models[i]
        who = 'analysis %d of %d (%s, %s, %s%s%s)' % (
            i + 1, len(jobs), o['spec']['sym'], o['how'], 'density' if m['density'] else 'no density',
            ', unstable' if o['spec']['unstable'] else '', ', symmetric to %g' % o['spec']['skew'] if o['spec']['skew'] else '')
        if s == 'cli':
            r = sim.run_cli(['soec', 'in%d.dat' % i, '-o', 'out%d' % i] + (['--polar'] if o['polar'] else []) + (
                ['-q'] if o['quiet'] else []), lambda t, n: 'y')
            need(not r.exit and r.exc is None, 'session', who, 'ends with %r %r' % (r.exit, r.exc))
            with open('out%d.txt' % i) as f:
                text = f.read()
            finish(i, text, who)
            if o['spec']['unstable']:
                need('unstable' in r.text(), 'unstable', who, 'nothing tells the user: %r' % r.text()[-300:])
                need(os.path.exists('out%d.hdf5' % i) == o['over'], 'unstable', who, 'results were stored')
                continue
            got, units = stored('out%d.hdf5' % i, who)
            judge(o, m, refs[i], got, units, nrad, who)
            ctx.count('polar', int(o['polar']))
            good = good or o['polar']
        elif s == 'new':
            if o['how'] == 'reuse' and free:
                c = free.pop(rng.randrange(len(free)))
                c.polar, c.silent, c.log = o['polar'], o['quiet'], 'api%d.txt' % i
                ctx.count('reused')
            else:
                c = SOECCalculator(unused(o, i))
            calcs[i] = c
            if o['before']:
                try:
                    e = quiet(c.read_input, 'bad%d.dat' % i if o['before'] == 'refused' else 'none.dat')
                except Exception as x:
                    e = x
                need(e is not None, 'accepted', who, 'a damaged file is read')
        elif s == 'read':
            if os.path.exists('api%d.txt' % i):
                os.unlink('api%d.txt' % i)
            e = quiet(calcs[i].read_input, 'in%d.dat' % i)
            need(e is None, 'refused', who, 'valid input refused: %s' % e)
        elif s == 'report':
            quiet(calcs[i].report_input_data)
        elif s == 'run':
            c = calcs[i]
            if o['cut'] is not None:
                left = [o['cut']]

                def stop(scr, t):
                    left[0] -= 1
                    if left[0] == 0:
                        raise KeyboardInterrupt
                if not o['quiet']:
                    sim.ON_WRITE = stop
                    try:
                        quiet(c.run)
                    except KeyboardInterrupt:
                        ctx.count('interrupted')
                    finally:
                        sim.ON_WRITE = None
                with open('api%d.txt' % i) as f:
                    t = f.read()
                with open('api%d.txt' % i, 'w') as f:
                    f.write(block('@' + t, '@', 'Average properties')[1:])
            quiet(c.run)
            need(c.completed == (not o['spec']['unstable']), 'completed', who, 'completed is %s, error %r' % (
                c.completed, c.error))
            need((c.error is None) == (not o['spec']['unstable']), 'error', who, 'error is %r' % c.error)
            with open('api%d.txt' % i) as f:
                finish(i, f.read(), who)
            if o['polar'] and not o['spec']['unstable']:
                polar(o, m, refs[i], c.results['polar'], nrad, who)
        else:
            c = calcs[i]
            if not o['spec']['unstable']:
                quiet(c.export_hdf5, 'api%d.hdf5' % i)
                got, units = stored('api%d.hdf5' % i, who)
                judge(o, m, refs[i], got, units, nrad, who)
                ctx.count('polar', int(o['polar']))
                good = good or o['polar']
            else:
                need(not c.results['polar'], 'unstable:polar', who, 'it holds polar properties')
            free.append(c)
        sim.EV.add('step', i, s)
    for i, o in enumerate(jobs):
        for p in ('out%d.txt' % i, 'api%d.txt' % i):
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    sim.EV.add('log', p, digest([f.read()]))
    if good:
        ctx.nontrivial = digest(sim.EV.items + [repr(steps)])
    ctx.sample = {'steps': steps, 'crystals': [[o['spec']['sym'], o['spec']['kind'], o['polar'], o['spec']['unstable']]
                                               for o in jobs]}


def shrink(sc, extra):
    for js in shrink_list(sc['jobs']):
        if js:
            yield dict(sc, jobs=js)
    if sc['mix']:
        yield dict(sc, mix=False)
    if sc['nrad'] > 2:
        yield dict(sc, nrad=3)
    if not sc['coarse']:
        yield dict(sc, coarse=True)
    for i, o in enumerate(sc['jobs']):
        for f, z in (('how', 'cli'), ('polar', False), ('quiet', False), ('before', None), ('cut', None), ('over', False)):
            if o[f] != z:
                n = copy.deepcopy(sc)
                n['jobs'][i][f] = z
                yield n
        for f, z in (('turn', None), ('skew', 0), ('density', False), ('form', 'full'), ('sym', 'cubic'), ('kind', 'near'),
                     ('aniso', 0.2)):
            if o['spec'][f] != z:
                n = copy.deepcopy(sc)
                n['jobs'][i]['spec'][f] = z
                yield n
