"""P19: the polar figures show the polar sections that were calculated."""
import copy
import os
import random
import struct
import zlib

from dst.engine import Violation, digest, shrink_list
from dst.gen import elastic as L

LEVEL = 'exploration'
RUNS = {'quick': 85, 'thorough': 4000}
TIMEOUT = 120.0
RULE = ('A run = 1-4 elastic analyses with seeded crystals (some with negative compressibility or Poisson ratio), '
        'options (--polar, --plot, --dpi, -o, with or without density) and earlier figures in place, as whole CLI '
        'sessions, as calculators new or reused, interleaved step by step or in threads switched at seeded lines; the '
        'caller holds a figure of its own; in 1 of 10 runs matplotlib is missing; one session may meet a seeded disk '
        'error or a full disk while a figure is saved. Each figure handed to the disk is taken apart: every panel must '
        'hold exactly the curves of that plane and quantity of the stored results, all within the axis range, the '
        'legend naming each by its colour; the file must be a complete PNG of the size the resolution asks for and, '
        'for one job, equal to that of a pristine process; none besides the caller\'s may stay open. Non-trivial: a '
        'figure was judged; distinct by history digest.')
REAL = ['whole SOEC sessions and SOECCalculator of /repo', 'matplotlib (Agg)', 'h5py/HDF5']
STUB = ['scipy optimisers (a few points only)', 'polar sections of 3-37 directions', 'disk errors (simulated at the '
        'system-call boundary)', 'missing matplotlib (import refused)', 'terminal (simulated user)', 'clock frozen']
ASSUMPTIONS = ['matplotlib draws what its axes hold']
FLOOR = {'figures': 350, 'faulted': 8, 'without': 6, 'pristine': 15}

PLANES = ('xy', 'xz', 'yz')
WORD = {'E': 'young', 'LC': 'compress', 'G': 'shear', 'Nu': 'poisson', 'waves': 'wave'}
LEGEND = {'LC': ('Positive', 'Negative'), 'G': ('Minimum', 'Maximum'), 'Nu': ('Negative', 'Minimum', 'Maximum'),
          'waves': ('$v_{s1}$', '$v_{s2}$', '$v_{p}$')}


def one(rng):
    s = L.spec(rng, 0.03)
    s['skew'] = 0
    s['density'] = rng.random() < 0.4
    if rng.random() < 0.4:
        s['kind'], s['aniso'] = 'wild', 1.3
    return {'spec': s, 'polar': rng.random() < 0.85, 'plot': rng.random() < 0.85, 'dpi': rng.choice([8, 10, 17, 30]),
            'how': rng.choice(['cli', 'cli', 'api', 'reuse']), 'quiet': rng.random() < 0.3,
            'out': rng.choice([None, 'r', 'my.data']), 'before': rng.random() < 0.3}


def scenario(rng, idx, tier):
    jobs = [one(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    mode = rng.choice(['turns', 'turns', 'mixed', 'threads']) if len(jobs) > 1 else 'turns'
    fault = None
    if mode == 'turns' and rng.random() < 0.35:
        fault = {'job': rng.randrange(len(jobs)), 'kind': rng.choice(['fail', 'full']), 'at': rng.random(),
                 'e': rng.randrange(100), 'n': rng.choice([0, 1, 40, 500, 3000])}
    return {'jobs': jobs, 'mode': mode, 'order': rng.randrange(1 << 30), 'rate': rng.choice([0.02, 0.2]),
            'nrad': rng.choice([3, 5, 9, 37]), 'missing': rng.random() < 0.1, 'fault': fault}


def png(data):
    """(width, height) of a complete PNG file, or None"""
    if data[:8] != b'\x89PNG\r\n\x1a\n':
        return None
    o, size, idat = 8, None, b''
    while o + 12 <= len(data):
        n, kind = struct.unpack_from('>I4s', data, o)
        body = data[o + 8:o + 8 + n]
        if len(body) != n or o + 12 + n > len(data) or struct.unpack_from('>I', data, o + 8 + n)[0] != zlib.crc32(
                data[o + 4:o + 8 + n]):
            return None
        o += 12 + n
        if kind == b'IHDR':
            size = struct.unpack_from('>II', body)
        elif kind == b'IDAT':
            idat += body
        elif kind == b'IEND':
            try:
                zlib.decompress(idat)
            except zlib.error:
                return None
            return size if o == len(data) else None
    return None


def takeapart(fig):
    """What a figure holds, as plain data."""
    import numpy as np
    from matplotlib.colors import to_hex
    axes = []
    for ax in fig.axes:
        axes.append({'text': ' '.join([t.get_text() for t in ax.texts] + [ax.get_title()]),
                     'lim': tuple(float(x) for x in ax.get_ylim()),
                     'lines': [(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), to_hex(l.get_color()))
                               for l in ax.lines]})
    leg = []
    for g in fig.legends + [ax.get_legend() for ax in fig.axes if ax.get_legend()]:
        hs = getattr(g, 'legend_handles', None) or g.legendHandles
        leg += [(t.get_text(), to_hex(h.get_color())) for t, h in zip(g.get_texts(), hs)]
    return {'axes': axes, 'legend': leg, 'words': ' '.join([a['text'] for a in axes] + [t.get_text() for t in fig.texts])}


def judge(p, q, cont, polar, who):
    """Figure `cont` of quantity q against polar[plane][q]."""
    import numpy as np

    def need(ok, key, what):
        if not ok:
            raise Violation(key, '%s, figure %s: %s' % (who, os.path.basename(p), what))
    need(WORD[q] in cont['words'].lower(), 'title', 'is titled %r' % cont['words'])
    names = LEGEND.get(q)
    colours = dict(cont['legend'])
    if names:
        need(sorted(colours) == sorted(names) and len(cont['legend']) == len(names), 'legend', 'legend %s' % cont['legend'])
    need(len(cont['axes']) == 3, 'panels', '%d panels' % len(cont['axes']))
    for pl in PLANES:
        ax = [a for a in cont['axes'] if '(%s)' % pl in a['text']]
        need(len(ax) == 1, 'panels', '%d panels of (%s)' % (len(ax), pl))
        ax = ax[0]
        rows = np.asarray(polar[pl][q], float)
        ang = np.radians(rows[:, 0])
        cols = [rows[:, k] for k in range(1, rows.shape[1])]
        need(len(ax['lines']) == len(cols), 'curves:' + q, '%d curves in (%s), expected %d' % (len(ax['lines']), pl, len(cols)))
        for k, c in enumerate(cols):
            hit = [l for l in ax['lines'] if l[0].shape == ang.shape and np.abs(l[0] - ang).max() < 1e-9 and
                   np.abs(l[1] - c).max() <= 1e-9 * max(np.abs(c).max(), 1e-6) and
                   (not names or l[2] == colours[names[k]])]
            need(hit, 'curves:' + q, 'no curve in (%s) shows column %d (%s): %s' % (
                pl, k + 1, names[k] if names else q, [[round(float(x), 5) for x in c[:4]]] + [
                    [l[2]] + [round(float(x), 5) for x in l[1][:4]] for l in ax['lines']]))
        lo, hi = min(c.min() for c in cols), max(c.max() for c in cols)
        need(ax['lim'][0] <= lo + 1e-12 and ax['lim'][1] >= hi - 1e-12 * abs(hi) and hi - min(lo, 0) > 0.3 * (
            ax['lim'][1] - min(ax['lim'][0], 0)),
             'range:' + q, '(%s) shows %s, the curves go from %s to %s' % (pl, ax['lim'], lo, hi))


def execute(sc, ctx):
    import errno
    import sys

    import h5py
    import numpy as np

    from dst import sim, stubs
    from dst.world import World, quietly
    World(ctx)
    ctx.clock.on(step=0.)
    if sc['missing']:
        for n, m in list(sys.modules.items()):
            if n.split('.')[0] == 'matplotlib' or n.split('.')[0] == 'quantas' and str(getattr(m, '__file__', '')).endswith('.py'):
                del sys.modules[n]
        sys.modules['matplotlib'] = None
        sys.modules['matplotlib.pyplot'] = None
    stubs.coarse_optimisers()
    stubs.coarse_angles(sc['nrad'])
    from quantas.soec.soec import SOECCalculator
    jobs = sc['jobs']
    rng = random.Random(sc['order'])
    saved = {}
    mine = None
    if not sc['missing']:
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        real = Figure.savefig

        def savefig(self, fname, *a, **kw):
            r = real(self, fname, *a, **kw)
            saved.setdefault(os.path.abspath(str(fname)), []).append(takeapart(self))
            return r
        Figure.savefig = savefig
        mine = plt.figure(figsize=(1, 1))
        mine.gca().plot([0, 1], [1, 0])
    models = []
    for i, o in enumerate(jobs):
        m = L.crystal(o['spec'])
        models.append(m)
        with open('in%d.dat' % i, 'w') as f:
            f.write(L.text(o['spec'], m))
    screen = sim.Screen('out')

    def stem(i):
        o = jobs[i]
        if o['how'] != 'cli':
            return 'api%d' % i
        return '%s%d' % (o['out'], i) if o['out'] else 'in%d_SOEC' % i

    def base(i):
        # the name without what looks like an extension, as the log has it
        return os.path.splitext(stem(i) + '.hdf5')[0]

    def fignames(i):
        o = jobs[i]
        if not (o['polar'] and o['plot']) or o['spec']['unstable'] or sc['missing']:
            return {}
        return {os.path.abspath(base(i) + '_%s.png' % q): q for q in WORD if q != 'waves' or models[i]['density']}

    for i, o in enumerate(jobs):
        if o['before']:
            for q in WORD:
                with open(base(i) + '_%s.png' % q, 'w') as f:
                    f.write('earlier\n')

    def cli(i):
        o = jobs[i]
        a = ['soec', 'in%d.dat' % i, '--dpi', str(o['dpi'])] + (['-o', stem(i)] if o['out'] else []) + (
            ['--polar'] if o['polar'] else []) + (['-p'] if o['plot'] else []) + (['-q'] if o['quiet'] else [])
        return sim.run_cli(a, lambda t, n: 'y')

    def bytes_of(ps):
        r = {}
        for p in ps:
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    r[p] = f.read()
        return r

    # one job alone in a pristine process
    alone, which = None, None
    can = [i for i in range(len(jobs)) if fignames(i) and jobs[i]['how'] == 'cli']
    if can and rng.random() < 0.6:
        which = rng.choice(can)
        keep = bytes_of([os.path.abspath(base(which) + '_%s.png' % q) for q in WORD])

        def solo():
            cli(which)
            return bytes_of(fignames(which))
        alone = quietly(solo)
        for p in list(fignames(which)):
            if p in keep:
                with open(p, 'wb') as f:
                    f.write(keep[p])
            elif os.path.exists(p):
                os.unlink(p)
        for p in (stem(which) + '.hdf5', base(which) + '.txt'):
            if os.path.exists(p):
                os.unlink(p)

    def who(i):
        o = jobs[i]
        return 'analysis %d of %d (%s%s%s%s)' % (i + 1, len(jobs), o['how'], ' --polar' if o['polar'] else '',
                                                 ' --plot' if o['plot'] else '', ', ' + sc['mode'])

    def check(i, polar, told):
        ctx_count = {}
        for q in WORD:
            p = os.path.abspath(base(i) + '_%s.png' % q)
            if p in fignames(i):
                if p not in saved or not os.path.exists(p):
                    raise Violation('no-figure', '%s: no figure %s' % (who(i), os.path.basename(p)))
                judge(p, q, saved[p][-1], polar, who(i))
                with open(p, 'rb') as f:
                    size = png(f.read())
                d = jobs[i]['dpi']
                if size is None or abs(size[0] - 18 * d) > 1 or abs(size[1] - 6 * d) > 1:
                    raise Violation('file', '%s: %s is %s at %d dpi' % (
                        who(i), os.path.basename(p), 'no complete PNG' if size is None else 'of %d x %d' % size, d))
                ctx_count['figures'] = ctx_count.get('figures', 0) + 1
            else:
                if p in saved or os.path.exists(p) and not jobs[i]['before']:
                    raise Violation('unasked', '%s: figure %s was drawn' % (who(i), os.path.basename(p)))
                if jobs[i]['before']:
                    with open(p, 'rb') as f:
                        if f.read() != b'earlier\n':
                            raise Violation('unasked', '%s: figure %s was overwritten' % (who(i), os.path.basename(p)))
        if sc['missing'] and jobs[i]['plot'] and not jobs[i]['spec']['unstable']:
            ctx_count['without'] = 1
            if 'not found' not in told:
                raise Violation('untold', '%s: nothing tells that figures cannot be drawn' % who(i))
        for k, v in ctx_count.items():
            count[k] = count.get(k, 0) + v
        sim.EV.add('figures', i, sorted(os.path.basename(p) for p in fignames(i)))

    count, left = {}, []

    def stored(path):
        with h5py.File(path, 'r') as f:
            return {pl: {q: np.asarray(f['polar_%s_%s' % (q, pl)][()]) for q in WORD if 'polar_%s_%s' % (q, pl) in f}
                    for pl in PLANES}

    def logged(p):
        with open(p) as f:
            return f.read()

    calcs, free = {}, []

    def quiet(fn, *a):
        keep = sys.stdout, sys.stderr
        if sc['mode'] != 'threads':
            sys.stdout = sys.stderr = screen
        try:
            return fn(*a)
        finally:
            sys.stdout, sys.stderr = keep

    def step(i, s):
        o = jobs[i]
        if s == 'cli':
            r = cli(i)
            if r.exit or r.exc is not None:
                raise Violation('session', '%s: ends with %r %r' % (who(i), r.exit, r.exc))
            if not o['spec']['unstable']:
                check(i, stored(stem(i) + '.hdf5'), logged(base(i) + '.txt'))
        elif s == 'new':
            st = {'pressure_unit': 'GPa', 'debug': False, 'silent': o['quiet'], 'polar': o['polar'], 'plotting': o['plot'],
                  'dpi': o['dpi'], 'logfile': 'api%d.txt' % i, 'outfig': 'api%d' % i}
            ok = [c for c in free if c[1:] == (o['polar'], o['plot'], o['dpi'])]
            if o['how'] == 'reuse' and ok and sc['mode'] != 'threads':
                c = ok[0]
                free.remove(c)
                calcs[i] = c[0]
                calcs[i].silent, calcs[i].log, calcs[i]._plot_basename = o['quiet'], 'api%d.txt' % i, 'api%d' % i
            else:
                calcs[i] = SOECCalculator(st)
        elif s == 'read':
            e = quiet(calcs[i].read_input, 'in%d.dat' % i)
            if e is not None:
                raise Violation('refused', '%s: %s' % (who(i), e))
        elif s == 'run':
            quiet(calcs[i].run)
            check(i, calcs[i].results['polar'], logged('api%d.txt' % i))
        else:
            free.append((calcs[i], o['polar'], o['plot'], o['dpi']))
        sim.EV.add('step', i, s)

    plans = [[(i, s) for s in (['cli'] if o['how'] == 'cli' else ['new', 'read', 'run', 'free'])] for i, o in enumerate(jobs)]
    steps = []
    if sc['mode'] == 'threads':
        for i, o in enumerate(jobs):
            if o['how'] == 'cli':
                o['how'] = 'api'
            plans[i] = [(i, s) for s in ('new', 'read', 'run')]
        for o, i in ((o, i) for i, o in enumerate(jobs) if o['before']):
            for q in WORD:
                with open(base(i) + '_%s.png' % q, 'w') as f:
                    f.write('earlier\n')
        which = None
        b = sim.Baton(random.Random(sc['order']), sc['rate'])
        keep = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = screen
        try:
            res = b.run([('t%d' % i, (lambda i=i: [step(*s) for s in plans[i]])) for i in range(len(jobs))])
        finally:
            sys.stdout, sys.stderr = keep
        for n in sorted(res):
            if res[n][0] == 'exc':
                raise res[n][1]
        ctx.count('switches', len(b.trace))
        sim.EV.add('switches', b.trace)
    else:
        if sc['mode'] == 'mixed':
            live = [list(p) for p in plans]
            while any(live):
                steps.append(rng.choice([x for x in live if x]).pop(0))
        else:
            steps = [s for p in plans for s in p]
        ft = sc['fault']
        done = False
        for i, s in steps:
            if ft and not done and ft['job'] == i and s in ('cli', 'run') and fignames(i):
                done = True
                p = rng.choice(sorted(fignames(i)))
                if s == 'cli' or s == 'run':
                    q = fignames(i)[p]
                    ctx.disk.begin(os.getcwd(), data=False)
                    rel = os.path.relpath(p)
                    if ft['kind'] == 'fail':
                        e = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT][ft['e'] % 4]
                        ctx.disk.fault(sim.FAIL, 0, [1, 3, 3, 5][ft['e'] % 4 if e != errno.EACCES else 0], e, True, rel)
                    else:
                        ctx.disk.fault(sim.FULL, 0, 3, ft['n'], False, rel)
                    seen = ''
                    try:
                        if s == 'cli':
                            r = cli(i)
                            bad = r.exit or r.exc is not None
                            seen = r.text() + r.err
                        else:
                            try:
                                quiet(calcs[i].run)
                                bad = not calcs[i].completed
                            except Exception:
                                bad = True
                    finally:
                        ctx.disk.end()
                    fired = sum(ctx.disk.fired())
                    ctx.count('faulted', int(fired > 0))
                    ctx.count('fault_%s' % ft['kind'], int(fired > 0))
                    if fired and not bad and 'rror' not in seen:
                        # nothing was told: the figure must be whole
                        with open(p, 'rb') as f:
                            if png(f.read()) is None:
                                raise Violation('silent', '%s: %s of figure %s, no error shown, the file is not complete' % (
                                    who(i), ft['kind'], q))
                    sim.EV.add('faulted', i, s, fired, bool(bad))
                    import matplotlib.pyplot as plt
                    # what the failed session left open is in the way of the later ones
                    left = [n for n in plt.get_fignums() if n != mine.number]
                    saved.clear()
            step(i, s)
    if not sc['missing']:
        import matplotlib.pyplot as plt
        if [n for n in plt.get_fignums() if n not in left] != [mine.number] or len(mine.axes) != 1 or len(mine.axes[0].lines) != 1:
            raise Violation('left-open', '%d figures are open after the analyses, the caller had 1' % len(plt.get_fignums()))
    if which is not None:
        for p, b in sorted(alone.items()):
            got = bytes_of([p]).get(p)
            if got != b:
                raise Violation('pristine', '%s: figure %s is not that of a pristine process' % (who(which), os.path.basename(p)))
        ctx.count('pristine')
    for k, v in count.items():
        ctx.count(k, v)
    if count.get('figures'):
        ctx.nontrivial = digest(sim.EV.items + [repr(steps)])
    ctx.sample = {'mode': sc['mode'], 'jobs': [[o['how'], o['polar'], o['plot'], o['dpi'], o['spec']['sym']] for o in jobs]}


def shrink(sc, extra):
    for js in shrink_list(sc['jobs']):
        if js:
            f = sc['fault']
            yield dict(sc, jobs=js, fault=dict(f, job=min(f['job'], len(js) - 1)) if f else None)
    if sc['mode'] != 'turns':
        yield dict(sc, mode='turns')
    if sc['fault']:
        yield dict(sc, fault=None)
    if sc['missing']:
        yield dict(sc, missing=False)
    if sc['nrad'] > 3:
        yield dict(sc, nrad=3)
    for i, o in enumerate(sc['jobs']):
        for f, z in (('how', 'cli'), ('quiet', False), ('out', None), ('before', False), ('dpi', 8)):
            if o[f] != z:
                n = copy.deepcopy(sc)
                n['jobs'][i][f] = z
                yield n
        for f, z in (('turn', None), ('density', False), ('form', 'full'), ('sym', 'cubic'), ('kind', 'near')):
            if o['spec'][f] != z:
                n = copy.deepcopy(sc)
                n['jobs'][i]['spec'][f] = z
                yield n
