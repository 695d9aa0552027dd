"""P10: results do not depend on clock, hash seed, folder, verbosity, threads."""
import copy
import os
import random
import re

from dst.engine import Violation, digest, shrink_list
from dst.gen import jobs as J

LEVEL = 'exploration'
RUNS = {'quick': 520, 'thorough': 12000}
TIMEOUT = 90.0
RULE = ('A run = one session (any command, random input, options, answers) played in a reference world (clock '
        'stopped, one thread, hash seed 0, own folder, loud) and in 5 other worlds, each changing 1-4 of: clock (start, '
        'step, up to 60 jumps of up to +-10 years at seeded readings), OpenMP team of 1-5 and its schedule, content of '
        'uninitialised memory, folder and way of naming the input, quiet/debug, terminal and its width, time zone and '
        'home, order of the options, age of the input; 1 in 4 runs also uses a new interpreter with another hash '
        'seed. Console, log, tables and results are compared with the reference (elapsed times masked). Non-trivial: '
        'the reference session computed or wrote something; distinct by history digest.')
REAL = ['whole CLI sessions of /repo', 'compiled kernels on the simulated OpenMP team', 'CPython hashing']
STUB = ['clocks (clock_gettime, gettimeofday, time)', 'OpenMP runtime', 'terminal (simulated user)',
        'SOEC angular searches coarsened']
ASSUMPTIONS = ['results may differ between team sizes by rounding (1e-9 of the largest value of a dataset)']
FLOOR = {'worlds': 1500, 'clock_jumps': 1000}

DIMS = ['clock', 'clock', 'omp', 'mem', 'cwd', 'flags', 'tty', 'env', 'order', 'age']


def world(rng):
    w = {}
    for d in set(rng.sample(DIMS, rng.choice([1, 1, 2, 3, 4]))):
        if d == 'clock':
            w[d] = {'start': rng.choice([0.0, 1.0, 1.7e9, 2.0**31 - 1, 4e9, 1e5]),
                    'step': rng.choice([0.0, 1e-9, 1e-6, 1e-3, 1.0, 3600.0]),
                    'jumps': [[int(10 ** rng.uniform(0, 3)), rng.choice([-1, 1]) * rng.choice([1e-3, 1., 60., 3600., 86400., 3e8])]
                              for _ in range(rng.choice([0, 2, 6, 16, 40, 60]))]}
        elif d == 'omp':
            w[d] = {'seed': rng.randrange(1 << 30), 'threads': rng.choice([1, 2, 2, 3, 4, 5]),
                    'policy': rng.choice(['random', 'pct', 'reverse', 'stall']), 'rate': 0.0005}
        elif d == 'mem':
            w[d] = rng.choice([0x01, 0x7f, 0x80, 0xff, 0x3f, 0x00])
        elif d == 'cwd':
            w[d] = rng.choice(['abs', 'other', 'dot', 'link'])
        elif d == 'flags':
            w[d] = rng.choice(['q', 'd', 'qd'])
        elif d == 'tty':
            w[d] = True
        elif d == 'env':
            w[d] = {'COLUMNS': rng.choice(['20', '500', '0', 'x']), 'TZ': rng.choice(['Asia/Tokyo', 'UTC+11', '']),
                    'HOME': rng.choice(['/', '/root', '']), 'TERM': rng.choice(['dumb', 'xterm', '']),
                    'LINES': rng.choice(['1', '0', '50']), 'NO_COLOR': rng.choice(['', '1'])}
        elif d == 'order':
            w[d] = rng.randrange(1 << 30)
        else:
            w[d] = rng.choice([0, 1, 1e9, 4e9])
    return w


def scenario(rng, idx, tier):
    j = J.job(rng, rng.choice([None, ['ha', 'qha'], ['qha'], ['soec'], ['eosfit', 'inpgen-ha']]), polar=0.3)
    j['quiet'] = j['debug'] = False
    return {'job': j, 'worlds': [world(rng) for _ in range(5)],
            'hash': rng.choice([None, None, None, rng.randrange(1, 4000000000)])}


def groups(args):
    """Options of a command line with their values."""
    out, k = [], 0
    while k < len(args):
        n = 1
        if args[k] in ('-T', '-P'):
            n = 4
        elif args[k].startswith('-') and args[k] not in ('--polar', '-q', '-d', '-l'):
            n = 2
        out.append(args[k:k + n])
        k += n
    return out


def session(disk, clock, omp, j, path, w, root):
    """The session in world w. -> plain data"""
    from dst import sessions, sim, stubs
    stubs.coarse_optimisers()
    stubs.coarse_angles()
    c = w.get('clock')
    if c:
        clock.on(c['start'], c['step'], c['jumps'])
    else:
        clock.on(step=0.)
    o = w.get('omp')
    if o:
        omp.config(o['seed'], o['threads'], o['policy'], o['rate'])
    if 'mem' in w:
        sim.memory(w['mem'])
    for k, v in (w.get('env') or {}).items():
        os.environ[k] = v
    j = dict(j, quiet='q' in w.get('flags', ''), debug='d' in w.get('flags', ''))
    base = path
    if w.get('cwd') == 'abs':
        path = os.path.join(root, path)
    elif w.get('cwd') == 'dot':
        path = './sub/../' + path
    elif w.get('cwd') == 'other':
        os.makedirs('elsewhere/sub', exist_ok=True)
        os.chdir('elsewhere')
        path = '../' + path
    elif w.get('cwd') == 'link':
        p = path.replace('zqin', 'zqlk')
        os.symlink(path, p)
        path = p
    if "age" in w and os.path.exists(path):
        os.utime(path, (w['age'], w['age']))
    if j['cmd'] in J.CALC:
        args = J.calc_args(j, path)
    elif j['cmd'] in J.GEN:
        args = J.gen_args(j, path)
    else:
        args = ['export', J.base(j), path]
    if 'order' in w:
        n = 2 if j['cmd'] in J.GEN + J.EXPORT else 1
        g = groups(args[n:])
        random.Random(w['order']).shuffle(g)
        args = args[:n] + [a for x in g for a in x]
    s = sim.run_cli(args, J.user(j), tty=bool(w.get('tty')))
    disk.end()
    logtext = None
    if j['cmd'] in J.CALC and os.path.isfile(J.logpath(j, path)):
        with open(J.logpath(j, path), 'rb') as f:
            logtext = f.read().decode('utf-8', 'replace')
    st = omp.stats() if o else {}
    if o:
        omp.config()
    return {'exit': s.exit, 'exc': '%s: %s' % (type(s.exc).__name__, s.exc) if s.exc is not None else None,
            'out': s.out, 'err': s.err, 'log': logtext, 'cwd': os.getcwd(),
            'reads': clock.reads() if c else 0, 'switches': st.get('switches', 0),
            'questions': [q.rsplit('\n', 1)[-1] for q in s.questions]}


def in_fork(ctx, j, path, w, root):
    return session(ctx.disk, ctx.clock, ctx.omp, j, path, w, root)


def in_fresh(env, j, path, w, root):
    return session(env.disk, env.clock, env.omp, j, path, w, root)


ANSI = re.compile('\x1b\\[[0-9;?]*[a-zA-Z]')
BAR = re.compile('\r[^\n]*')


def plain_text(t, root):
    """Text without what may differ: elapsed times, ways of naming the input,
    progress bars, blank lines."""
    if t is None:
        return None
    t = BAR.sub('', ANSI.sub('', t))
    for r in (root + '/', os.path.realpath(root) + '/', './sub/../', '../'):
        t = t.replace(r, '')
    t = t.replace('zqlk', 'zqin')
    out = []
    for ln in t.split('\n'):
        ln = ln.rstrip()
        if not ln or ln.startswith('Debug: '):
            continue
        if re.search(r'(?i)\b(time|elapsed)\b.*\d', ln) and re.search(r'(?i)\b(msec|sec|ms|s|seconds)\b', ln):
            ln = re.sub(r'[-+]?\d[\d.,:]*', '#', ln)
            ln = re.sub(r'\s+', ' ', ln)
        out.append(ln)
    return out


NUM = re.compile(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?')


def close_lines(a, b):
    """Equal up to the last printed digit of numbers."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        nx, ny = NUM.findall(x), NUM.findall(y)
        if len(nx) != len(ny) or re.sub(r'\s+', ' ', NUM.sub('#', x)) != re.sub(r'\s+', ' ', NUM.sub('#', y)):
            return False
        for p, q in zip(nx, ny):
            if p != q:
                d = len(p.split('.')[1].split('e')[0].split('E')[0]) if '.' in p else 0
                try:
                    s = 10.0 ** int(re.split('[eE]', p)[1]) if re.search('[eE]', p) else 1.0
                    if abs(float(p) - float(q)) > 1.01 * s * 10.0 ** -d:
                        return False
                except ValueError:
                    return False
    return True


def names(fs):
    out = {}
    for p, b in fs.items():
        p = os.path.normpath(p)
        if p.startswith('elsewhere/'):
            p = p[len('elsewhere/'):]
        out[p.replace('zqlk', 'zqin')] = b
    return out


def arr(v):
    import numpy as np
    if isinstance(v, tuple) and v and v[0] == 'array' and v[2] != 'object':
        return np.frombuffer(bytes.fromhex(v[3]), dtype=v[2]).reshape(v[1])
    return None


def close_h5(a, b):
    """Two results files as plain data: None or the dataset that differs."""
    import numpy as np
    if not isinstance(a, dict) or not isinstance(b, dict):
        return None if a == b else 'file'
    for k in sorted(set(a) | set(b)):
        if a.get(k) == b.get(k):
            continue
        if k == '@' or k not in a or k not in b or a[k][1] != b[k][1]:
            return k
        x, y = arr(a[k][0]), arr(b[k][0])
        if x is None or y is None or x.shape != y.shape:
            return k
        s = np.nanmax(np.abs(x)) if x.size else 0.0
        ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-9 * s)
        if not ok.all():
            return k
    return None


def execute(sc, ctx):
    from dst import fresh, sessions, sim, stubs
    from dst.world import World, contained, quietly, where
    World(ctx)
    root = os.getcwd()
    stubs.coarse_optimisers()
    stubs.coarse_angles()
    ctx.clock.on(step=0.)
    j = sc['job']
    kind = j['cmd']
    path = sessions.setup(j, 'zqin', 'zqin_res')
    init = sessions.files()
    keep = set(names(init))

    def clean(fs):
        return {p: b for p, b in names(fs).items() if p not in keep}

    def play(w, hashseed=None):
        sessions.restore(init)
        for d in ('elsewhere',):
            if os.path.isdir(d):
                import shutil
                shutil.rmtree(d)
        if hashseed is None:
            r = contained(in_fork, ctx, j, path, w, root)
        else:
            r = fresh.run(in_fresh, j, path, w, root, PYTHONHASHSEED=hashseed)
        fs = sessions.files()
        r['files'] = clean(sessions.canon({p: b for p, b in fs.items() if os.path.basename(p) != os.path.basename(
            J.logpath(j, path) if kind in J.CALC else '-')
            and not (kind in J.CALC and os.path.basename(p).replace('zqlk', 'zqin')
                     == os.path.basename(J.logpath(j, path)))}))
        for p, b in init.items():
            if fs.get(p) != b:
                raise Violation('input-changed:' + kind, '%s changed %s' % (kind, p))
        return r
    ref = play({})
    ctx.seen('commands', kind)
    if ref['files'] or (ref['log'] or '').count('\n') > 40:
        ctx.nontrivial = True
    todo = [(w, None) for w in sc['worlds']]
    if sc['hash'] is not None:
        todo.append(({}, sc['hash']))
    for w, hs in todo:
        w = dict(w)
        if kind.startswith('inpgen') and (j.get('list') or w.get('cwd') == 'link') or not os.path.exists(path):
            w.pop('cwd', None)
        if kind in J.GEN + J.EXPORT + ['eosfit']:
            w.pop('flags', None)
        g = play(w, hs)
        ctx.count('worlds')
        for d in w:
            ctx.count('world_' + d)
        if hs is not None:
            ctx.count('world_hashseed')
        if w.get('clock'):
            ctx.count('clock_jumps', sum(1 for at, _ in w['clock']['jumps'] if at < g['reads']))
            ctx.count('clock_reads', g['reads'])
        ctx.count('switches', g['switches'])
        who = 'session %s in world %s%s' % ([kind] + j['opts'], w, '' if hs is None else ' hash seed %d' % hs)
        if (g['exit'], g['exc']) != (ref['exit'], ref['exc']):
            raise Violation('outcome:' + kind, '%s ends with %r, in the reference world with %r' % (
                who, (g['exit'], g['exc']), (ref['exit'], ref['exc'])))
        quiet = 'q' in w.get('flags', '')
        soft = 'omp' in w
        for f in ('log',) if quiet else ('log', 'out', 'err'):
            a, b = plain_text(ref[f], root), plain_text(g[f], root)
            if a != b and not (soft and a is not None and b is not None and close_lines(a, b)):
                n = next((i for i in range(min(len(a or ()), len(b or ()))) if a[i] != b[i]),
                         min(len(a or ()), len(b or ())))
                raise Violation('%s:%s' % (f, kind), '%s: %s differs, line %d: reference %r, here %r' % (
                    who, f, n, (a or [None])[n:n + 2], (b or [None])[n:n + 2]))
        fa, fb = ref['files'], g['files']
        if w.get('cwd') == 'other':
            fa = {os.path.basename(k): v for k, v in fa.items()}
            fb = {os.path.basename(k): v for k, v in fb.items()}
        if set(fa) != set(fb):
            raise Violation('files:' + kind, '%s: writes %s, in the reference world %s' % (who, sorted(fb), sorted(fa)))
        for p in sorted(fa):
            if fa[p] == fb[p]:
                continue
            if soft and p.endswith('.hdf5') and close_h5(fa[p], fb[p]) is None:
                ctx.count('rounding')
                continue
            if isinstance(fa[p], bytes) and isinstance(fb[p], bytes):
                a, b = plain_text(fa[p].decode('utf-8', 'replace'), root), plain_text(fb[p].decode('utf-8', 'replace'), root)
                if a == b or soft and close_lines(a, b):
                    continue
            raise Violation('result:' + kind, '%s: %s differs: %s' % (
                who, p, where(fa[p], fb[p]) if isinstance(fa[p], bytes) and isinstance(fb[p], bytes)
                else close_h5(fa[p], fb[p]) or [k for k in fa[p] if fa[p][k] != fb[p].get(k)]
                if isinstance(fa[p], dict) and isinstance(fb[p], dict) else (str(fa[p])[:80], str(fb[p])[:80])))
    if ctx.nontrivial:
        ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'job': [kind] + j['opts'], 'worlds': [sorted(w) for w in sc['worlds']], 'hash': sc['hash']}


def shrink(sc, extra):
    if sc['hash'] is not None:
        yield dict(sc, worlds=[])
        yield dict(sc, hash=None)
    for ws in shrink_list(sc['worlds']):
        yield dict(sc, worlds=ws)
    for i, w in enumerate(sc['worlds']):
        for d in w:
            n = copy.deepcopy(sc)
            del n['worlds'][i][d]
            yield n
        if w.get('clock') and w['clock']['jumps']:
            for js in shrink_list(w['clock']['jumps']):
                n = copy.deepcopy(sc)
                n['worlds'][i]['clock']['jumps'] = js
                yield n
    j = sc['job']
    for f, z in (('out', None), ('opts', ['--polar'] if j['cmd'] == 'export-soec' else [])):
        if j[f] != z:
            n = copy.deepcopy(sc)
            n['job'][f] = z
            yield n
