"""Driver and worker loop of the simulation.

driver: builds, starts worker processes, hands each its share of the run
indices, gathers results, confirms and reports violations, writes evidence.
worker: for each run derives the scenario from (VERIF_SEED, property, index),
executes it in a forked child (one pristine process per run), minimises a
failing scenario, writes the replay file.
"""
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def seed_of(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def load(pid):
    sys.path.insert(0, VERIF)
    for n in sorted(os.listdir(os.path.join(HERE, 'props'))):
        if n.lower().startswith(pid.lower() + '_') and n.endswith('.py'):
            return importlib.import_module('dst.props.' + n[:-3])
    raise SystemExit('no such property: ' + pid)


class Violation(Exception):
    """Raised by an oracle: the property is broken in this run.
    key: what kind of violation, stable across runs with the same cause."""

    def __init__(self, key, detail=''):
        Exception.__init__(self, key)
        self.key, self.detail = key, detail


class Ctx(object):
    """What a run gets from the worker: seams, scratch folder, counters."""

    def __init__(self, env, scratch):
        self.disk, self.clock, self.omp = env.disk, env.clock, env.omp
        self.scratch = scratch
        self.counters = {}
        self.sets = {}
        self.notes = []
        self.nontrivial = None
        self.sample = None
        self.extra = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, name, item):
        self.sets.setdefault(name, set()).add(str(item))

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d


class Env(object):
    pass


def make_env(nat, mods):
    from dst import boot, sim
    e = Env()
    e.disk = sim.Disk()
    e.clock = sim.Clock(e.disk)
    e.omp = sim.Omp(nat)
    e.omp.config()
    boot.boot(mods)
    # import once per worker: runs start from loaded, unused modules
    import quantas.cmdline.commands.cmd_quantas    # noqa: F401
    import quantas.interfaces.phonopy    # noqa: F401
    return e


def scratch_base():
    # memory-backed when possible; the disk under test is simulated anyway
    for b in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            return b
    return tempfile.gettempdir()


def digest(items):
    h = hashlib.sha256()
    for it in items:
        h.update(repr(it).encode('utf-8', 'backslashreplace') + b'\n')
    return h.hexdigest()[:24]


def blame(e):
    """Place in the code under test that let exception `e` out, or None if
    the harness raised it (also when called by that code)."""
    if getattr(e, 'dst_blame', None):
        return e.dst_blame
    repo = os.path.realpath(os.environ.get('DST_REPO', '/repo')) + os.sep
    at, tb, last = None, e.__traceback__, ''
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if os.path.realpath(last).startswith(repo) or last.endswith('.pyx'):
            at = '%s:%d' % (last, tb.tb_lineno)
        tb = tb.tb_next
    return at if at and not last.startswith(HERE + os.sep) else None


def _child(mod, env, sc, wfd, scratch, keep_events):
    import faulthandler
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    from dst import sim
    res = {'viol': None, 'error': None}
    ctx = Ctx(env, scratch)
    sim.memory(0x5a)
    random.seed(12345)
    import numpy
    numpy.random.seed(12345)
    so, se, si = sys.stdout, sys.stderr, sys.stdin
    devnull = os.open('/dev/null', os.O_RDWR)
    os.dup2(devnull, 2)                 # HDF5 prints its error stack to fd 2
    try:
        try:
            mod.execute(sc, ctx)
        except Violation as v:
            res['viol'] = {'key': v.key, 'detail': str(v.detail)[:4000]}
        except sim.StepLimit as e:
            res['viol'] = {'key': 'no-progress', 'detail': str(e)}
        except Exception as e:
            # the code under test failed where the harness expected it to work
            where = blame(e)
            if not where:
                raise
            res['viol'] = {'key': 'raises:' + type(e).__name__, 'detail': 'unexpected %s: %s, at %s\n%s' % (
                type(e).__name__, str(e)[:300], where, traceback.format_exc()[-3000:])}
    except BaseException:
        res['error'] = traceback.format_exc()[-6000:]
    sys.stdout, sys.stderr, sys.stdin = so, se, si
    try:
        env.disk.end()
        env.clock.off()
    except Exception:
        pass
    res['counters'] = ctx.counters
    res['sets'] = {k: sorted(v) for k, v in ctx.sets.items()}
    res['nontrivial'] = ctx.nontrivial
    res['sample'] = ctx.sample
    res['extra'] = ctx.extra
    res['digest'] = digest(sim.EV.items)
    if keep_events:
        res['events'] = [repr(i)[:400] for i in sim.EV.items]
    data = json.dumps(res).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os._exit(0)


def run_one(mod, env, sc, timeout=60.0, events=False):
    """One simulated run in a forked child. -> result dict"""
    scratch = tempfile.mkdtemp(prefix='dst', dir=scratch_base())
    # the folder's own name must not reach the history of the run
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            os.setpgid(0, 0)
            os.chdir(scratch)
            _child(mod, env, sc, wfd, scratch, events)
        finally:
            os._exit(3)
    os.close(wfd)
    buf, deadline, hung = [], time.monotonic() + timeout, False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            hung = True
            break
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(rfd)
    if hung:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if hung:
        return {'viol': {'key': 'no-progress', 'detail': 'run did not end within %gs' % timeout},
                'error': None, 'counters': {}, 'sets': {}, 'nontrivial': None, 'hung': True,
                'digest': 'hung', 'sample': None}
    try:
        return json.loads(b''.join(buf))
    except ValueError:
        pass
    sig = status & 0x7f
    # the run's process died inside native code outside any containment
    return {'viol': None, 'error': 'child died: status %x signal %d' % (status, sig),
            'counters': {}, 'sets': {}, 'nontrivial': None, 'digest': 'died', 'sample': None}


# ------------------------------------------------------------------ shrinking
def minimise(mod, env, sc, key, first, budget_s=60.0, max_tries=400):
    """Greedy descent over mod.shrink(): keep a smaller scenario while the same
    kind of violation persists."""
    t0, tries = time.monotonic(), 0
    timeout = min(30.0, getattr(mod, 'TIMEOUT', 60.0))
    improved = True
    extra = first.get('extra')
    while improved:
        improved = False
        for cand in mod.shrink(sc, extra):
            if tries >= max_tries or time.monotonic() - t0 > budget_s:
                return sc, tries
            tries += 1
            r = run_one(mod, env, cand, timeout)
            if r['viol'] and r['viol']['key'] == key:
                sc, improved, extra = cand, True, r.get('extra')
                break
    return sc, tries


def shrink_list(xs):
    """Candidates with fewer elements: big chunks first."""
    n = len(xs)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield xs[:i] + xs[i + size:]
        size //= 2


# --------------------------------------------------------------------- worker
def worker_main(argv):
    cfg = json.loads(argv[0])
    env = make_env(cfg['nat'], cfg['ext'])
    mod = load(cfg['prop'])
    if hasattr(mod, 'prepare'):
        mod.prepare(env)
    out = os.fdopen(os.dup(1), 'w', buffering=1)

    def send(d):
        out.write(json.dumps(d) + '\n')
        out.flush()

    if cfg.get('replay'):
        with open(cfg['replay']) as f:
            rp = json.load(f)
        r = run_one(mod, env, rp['scenario'], 2 * getattr(mod, 'TIMEOUT', 60.0), events=True)
        send({'t': 'replayed', 'r': r})
        return 0
    if cfg.get('scenarios'):
        for sc in cfg['scenarios']:
            r = run_one(mod, env, sc, 120.0)
            send({'t': 'finding', 'r': r})
        return 0
    stop_at = time.monotonic() + cfg['budget']
    known = set(cfg['known'])
    seenkeys = set()
    for idx in range(cfg['w'], cfg['runs'], cfg['W']):
        if time.monotonic() > stop_at:
            send({'t': 'budget', 'idx': idx})
            break
        rng = random.Random(seed_of(cfg['seed'], cfg['prop'], idx))
        sc = mod.scenario(rng, idx, cfg['tier'])
        r = run_one(mod, env, sc, getattr(mod, 'TIMEOUT', 60.0))
        r['idx'] = idx
        v = r['viol']
        if v and r.get('hung'):
            r2 = run_one(mod, env, sc, 3 * getattr(mod, 'TIMEOUT', 60.0))
            if not r2['viol']:
                r2['idx'] = idx
                r = r2
                v = None
        if v and v['key'] not in known and v['key'] not in seenkeys:
            seenkeys.add(v['key'])
            small, tries = minimise(mod, env, sc, v['key'], r, cfg.get('shrink_s', 45.0))
            rs = run_one(mod, env, small, 2 * getattr(mod, 'TIMEOUT', 60.0), events=True)
            if not (rs['viol'] and rs['viol']['key'] == v['key']):
                small, rs = sc, run_one(mod, env, sc, 2 * getattr(mod, 'TIMEOUT', 60.0), events=True)
            r['replay'] = {'property': cfg['prop'], 'seed': cfg['seed'], 'run': idx,
                           'run_seed': seed_of(cfg['seed'], cfg['prop'], idx),
                           'violation': rs['viol'] or v, 'digest': rs['digest'],
                           'original_scenario': sc if small is not sc else None,
                           'scenario': small, 'shrink_tries': tries,
                           'events': rs.get('events', [])[-200:]}
        send({'t': 'run', 'r': r})
    send({'t': 'done'})
    return 0


# --------------------------------------------------------------------- driver
def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    key, what = rest.split(' ', 1)
                    assert key.startswith('key=')
                    out.append((key[4:], what))
    return out


def spawn(cfg, nat, hashseed='0'):
    e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8', 'HOME': '/nonexistent',
         'LD_PRELOAD': os.path.join(nat, 'libsimdisk.so'),
         'PYTHONHASHSEED': hashseed, 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': os.path.join(os.path.dirname(nat), 'mpl'),
         'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'TZ': 'UTC', 'PYTHONPATH': VERIF,
         'HDF5_USE_FILE_LOCKING': 'TRUE',
         'DST_REPO': os.environ.get('DST_REPO', '/repo'), 'COLUMNS': '100',
         'TMPDIR': tempfile.gettempdir(), 'QUANTAS_DST': '1'}
    return subprocess.Popen([PY, '-c', 'import sys; from dst.engine import worker_main; '
                             'sys.exit(worker_main(sys.argv[1:]))', json.dumps(cfg)],
                            stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e, cwd=VERIF)


def gather(procs, handle, deadline):
    """Reads JSON lines of all workers until they end. -> True unless timed out"""
    bufs = {p.stdout.fileno(): (p, b'') for p in procs}
    for fd in bufs:
        os.set_blocking(fd, False)
    while bufs:
        left = deadline - time.monotonic()
        if left <= 0:
            return False
        r, _, _ = select.select(list(bufs), [], [], min(left, 5))
        for fd in r:
            p, b = bufs[fd]
            d = os.read(fd, 1 << 20)
            if not d:
                del bufs[fd]
                continue
            b += d
            *lines, b = b.split(b'\n')
            bufs[fd] = (p, b)
            for ln in lines:
                if handle(p, json.loads(ln)) == 'stop':
                    return True
    return True


def replay_file(path, quiet=False):
    """Re-executes a replay file in a fresh process. -> exit status"""
    from dst import build
    nat, ext = build.build()
    with open(path) as f:
        rp = json.load(f)
    p = spawn({'prop': rp['property'], 'replay': os.path.abspath(path), 'nat': nat, 'ext': ext}, nat)
    got = []
    gather([p], lambda p, m: got.append(m), time.monotonic() + 300)
    p.wait()
    if not got:
        print('replay: no result')
        return 2
    r = got[0]['r']
    if r['error']:
        print(r['error'])
        return 2
    if not quiet:
        for e in r.get('events', [])[-60:]:
            print('  ', e)
    same = r['digest'] == rp['digest']
    print('replay: recorded digest %s, now %s (%s)' % (rp['digest'], r['digest'],
                                                       'identical' if same else 'different'))
    if r['viol']:
        print('replay: %s\n%s' % (r['viol']['key'], r['viol']['detail']))
        print('VIOLATION property=%s replay=%s' % (rp['property'], path))
        return 1
    print('replay: the property held')
    return 0


def main(pid, tier, seed, workers=None, runs=None, budget=None, hashseed='0', dump=None):
    from dst import build
    t0 = time.monotonic()
    nat, ext = build.build()
    mod = load(pid)
    W = workers or max(1, min(8, os.cpu_count() or 1))
    N = runs or mod.RUNS[tier]
    W = min(W, N)
    budget = budget or (600.0 if tier == 'quick' else 3000.0)
    known = known_findings(pid)
    kn = [k for k, _ in known]
    base = {'prop': pid, 'tier': tier, 'seed': seed, 'nat': nat, 'ext': ext, 'W': W,
            'runs': N, 'known': kn, 'budget': budget}
    procs = [spawn(dict(base, w=w), nat, hashseed) for w in range(W)]
    agg = {'counters': {}, 'sets': {}, 'digests': {}, 'nt': set(), 'samples': [], 'n': 0,
           'viols': [], 'known': {}, 'errors': [], 'short': False, 'done': 0}

    def handle(p, m):
        if m['t'] == 'done':
            agg['done'] += 1
            return
        if m['t'] == 'budget':
            agg['short'] = True
            return
        r = m['r']
        if r['error']:
            agg['errors'].append((r.get('idx'), r['error']))
            return 'stop' if len(agg['errors']) > 3 else None
        agg['n'] += 1
        agg['digests'][r['idx']] = r['digest']
        for k, v in r['counters'].items():
            agg['counters'][k] = agg['counters'].get(k, 0) + v
        for k, v in r['sets'].items():
            agg['sets'].setdefault(k, set()).update(v)
        if r['nontrivial']:
            agg['nt'].add(r['nontrivial'])
        if r['sample'] is not None and len(agg['samples']) < 6:
            agg['samples'].append(r['sample'])
        v = r['viol']
        if v:
            if v['key'] in kn:
                agg['known'][v['key']] = agg['known'].get(v['key'], 0) + 1
            else:
                agg['viols'].append(r)
                if 'replay' in r and tier == 'quick':
                    return 'stop'
    ok = gather(procs, handle, t0 + budget + 240)
    stopped = bool(agg['viols'])
    for p in procs:
        if p.poll() is None and (stopped or not ok or agg['errors']):
            p.kill()
        p.wait()
    wall = time.monotonic() - t0
    if dump:
        with open(dump, 'w') as f:
            json.dump({str(k): v for k, v in sorted(agg['digests'].items())}, f, indent=0)
    status = 0
    # violations: write, confirm in a fresh process, report
    reported, keys = 0, set()
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for r in agg['viols']:
        rp = r.get('replay')
        if not rp or rp['violation']['key'] in keys:
            continue
        keys.add(rp['violation']['key'])
        name = os.path.join(VERIF, 'replays', '%s-%s.json' % (
            pid, hashlib.sha256(json.dumps(rp['scenario'], sort_keys=True).encode()).hexdigest()[:12]))
        with open(name, 'w') as f:
            json.dump(rp, f, indent=1)
        rc = replay_file(name, quiet=True)
        if rc == 1:
            reported += 1
            print('violation: %s' % rp['violation']['key'])
            print('  seed %d, run %d' % (seed, rp['run']))
            print('  ' + rp['violation']['detail'].replace('\n', '\n  '))
        else:
            agg['errors'].append((rp['run'], 'violation %r did not reproduce from its replay file %s'
                                  % (rp['violation']['key'], name)))
    # known findings are re-demonstrated on every run
    for key, what in known:
        hit = agg['known'].get(key, 0)
        scs = getattr(mod, 'FINDINGS', {}).get(key)
        if scs is not None and not hit:
            p = spawn({'prop': pid, 'scenarios': [scs], 'nat': nat, 'ext': ext}, nat)
            got = []
            gather([p], lambda p, m: got.append(m), time.monotonic() + 200)
            p.wait()
            hit = sum(1 for g in got if g['r']['viol'] and g['r']['viol']['key'] == key)
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
    cov = {'evaluations': agg['n'], 'distinct_nontrivial': len(agg['nt']), 'rule': mod.RULE,
           'samples': agg['samples'],
           'runs_per_hour': round(agg['n'] / wall * 3600),
           'seeds': agg['n'], 'workers': W, 'master_seed': seed,
           'distinct_histories': len(set(agg['digests'].values())),
           'counters': dict(sorted(agg['counters'].items())),
           'reached': {k: len(v) for k, v in sorted(agg['sets'].items())},
           'reached_items': {k: sorted(v)[:40] for k, v in sorted(agg['sets'].items())},
           'real_components': mod.REAL, 'stubbed_components': mod.STUB,
           'ended_early_on_budget': agg['short'],
           'known_findings_hit': agg['known'],
           'confirmed_violations': reported}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
                   'coverage': cov, 'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2),
                   'violations': reported}, f, indent=1)
    print('%s: %d runs, %d distinct histories, %d distinct non-trivial, %.1f s, %d violation(s)' % (
        pid, agg['n'], cov['distinct_histories'], len(agg['nt']), wall, reported))
    if reported:
        for r in agg['viols']:
            pass
        for n in sorted(keys):
            pass
        return 1
    if agg['errors']:
        for i, e in agg['errors'][:3]:
            sys.stderr.write('harness error in run %s:\n%s\n' % (i, e))
        return 2
    if not ok or (agg['done'] < W and not agg['short']):
        sys.stderr.write('workers ended early (%d of %d)\n' % (agg['done'], W))
        return 2
    floor = getattr(mod, 'FLOOR', {})
    if not agg['short']:
        for k, v in floor.items():
            have = agg['counters'].get(k, 0)
            if have < v:
                print('WARNING: probe %s reached %d times, expected at least %d' % (k, have, v))
    elif agg['n'] < N // 10:
        sys.stderr.write('only %d of %d runs fitted the budget\n' % (agg['n'], N))
        return 2
    return status
