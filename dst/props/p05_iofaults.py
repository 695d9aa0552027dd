"""P05: a failing disk makes a session fail visibly, or changes nothing."""
import copy
import errno
import os
import random

from dst.engine import Violation, digest, shrink_list
from dst.gen import jobs as J

LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 20000}
TIMEOUT = 40.0
RULE = ('A run = one command session (ha, qha, soec, eosfit, inpgen, export; 2 in 5 over earlier outputs) played '
        'without fault and then 6 times in contained processes, each with 1-3 seeded faults (error, short transfer, '
        'full disk; transient or persistent) at operations of the simulated disk chosen over all operations of that '
        'session. A faulty session must fail visibly or equal the plain one (console, log, tables byte for byte, '
        'HDF5 dataset by dataset); everything it announces as saved must be on disk, complete. Non-trivial: a fault '
        'took effect; distinct by history digest.')
REAL = ['whole CLI sessions of /repo', 'HDF5 library, CPython I/O']
STUB = ['disk errors (simulated at the system-call boundary)', 'clock frozen', 'terminal (simulated user)',
        'SOEC angular searches coarsened']
ASSUMPTIONS = ['a read or write error is reported by the operating system to the call that meets it, or at close']
FLOOR = {'faults_fired': 2000}

ERR = {'open': [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOSPC, errno.EROFS, errno.ENOENT],
       'read': [errno.EIO, errno.EINTR], 'write': [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EINTR, errno.EFBIG],
       'truncate': [errno.EIO, errno.ENOSPC], 'close': [errno.EIO, errno.ENOSPC, errno.EDQUOT],
       'rename': [errno.EIO, errno.EACCES], 'unlink': [errno.EACCES], 'fsync': [errno.EIO, errno.ENOSPC]}
OPS = {'open': 1, 'read': 2, 'write': 3, 'truncate': 4, 'close': 5, 'rename': 6, 'unlink': 7, 'fsync': 8}
NAME = {v: k for k, v in OPS.items()}


def plan(rng):
    r = []
    for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
        k = rng.choice(['fail', 'fail', 'fail', 'fail', 'short', 'full'])
        op = rng.choice(['any', 'any', 'open', 'read', 'write', 'write', 'close', 'truncate'])
        f = {'kind': k, 'op': op, 'at': rng.random(), 'e': rng.randrange(1 << 16), 'sticky': rng.random() < 0.3}
        if k == 'short':
            f['op'] = rng.choice(['read', 'write'])
            f['n'] = rng.choice([0, 1, 1, 7, 100, 1000])
        if k == 'full':
            f['n'] = rng.choice([0, 0, 1, 10, 100, 500, 1500, 3000, 10000])
        r.append(f)
    return r


def scenario(rng, idx, tier):
    j = J.job(rng, rng.choice([None, ['ha', 'qha', 'soec'], ['export-ha', 'export-qha'], ['eosfit']]))
    j['debug'] = False
    return {'job': j, 'plans': [plan(rng) for _ in range(6)], 'before': rng.random() < 0.4}


def resolve(faults, log):
    """Fault plan in terms of the operations of the plain session."""
    from dst import sim
    out = []
    ops = [d for d in log if d.op in NAME]
    for f in faults:
        op = f['op']
        cand = [d for d in ops if op == 'any' or d.op == OPS[op]]
        if not cand:
            cand, op = ops, 'any'
        if not cand:
            continue
        k = min(len(cand) - 1, int(f['at'] * len(cand)))
        name = NAME[cand[k].op]
        same = [d for d in ops if d.op == cand[k].op]
        nth = next(i for i, d in enumerate(same) if d is cand[k])
        if f['kind'] == 'fail':
            e = ERR[name][f['e'] % len(ERR[name])]
            sticky = f['sticky'] and e not in (errno.EINTR,)
            out.append((sim.FAIL, nth, OPS[name], e, sticky))
        elif f['kind'] == 'short':
            if name not in ('read', 'write'):
                continue
            n = f['n']
            if n == 0:
                n = 1          # write() of no bytes without an error is not real
            out.append((sim.SHORT, nth, OPS[name], n, f['sticky']))
        else:
            out.append((sim.FULL, nth, OPS[name], f['n'], False))
    return out


def play(j, path, ctx, faults, root):
    from dst import sessions
    o = sessions.go(j, path, ctx.disk, root, faults, user=J.user(j))
    o.files = sessions.canon(sessions.files())
    return o


def execute(sc, ctx):
    from dst import sessions, sim, stubs
    from dst.world import Died, World, contained, quietly, where
    World(ctx)
    root = os.getcwd()
    stubs.coarse_optimisers()
    stubs.coarse_angles()
    ctx.clock.on(step=0.)
    j = sc['job']
    path = sessions.setup(j)
    if sc['before']:
        # earlier outputs of the same names are in place
        quietly(lambda: J.run(j, path, user=J.User(1, True, 'before', 2)) and None)
    init = sessions.files()
    plain = contained(play, j, path, ctx, (), root)
    for d in plain.log:
        ctx.seen('operations', NAME.get(d.op, d.op))
    ctx.seen('commands', j['cmd'])
    hit = 0
    for n, pl in enumerate(sc['plans']):
        fl = resolve(pl, plain.log)
        if not fl:
            continue
        sessions.restore(init)
        with sessions.Mirror(ctx) as mir:
            try:
                o = contained(play, j, path, ctx, fl, root)
            except Died as e:
                # a native crash is visible; what it announced before must hold
                ctx.count('native_crashes')
                sim.EV.add('died', e.signal)
                o = sessions.Out(None, sessions.canon(sessions.files()), died=e.status)
                o.read_log(j, path)
                o.out, o.fired = mir.text(), [1] * len(fl)
        what = 'session %s with %s' % ([j['cmd']] + j['opts'], [
            (['', 'fail', 'short', 'full'][f[0]], NAME[f[2]], 'nth %d' % f[1],
             sessions.errno_name(f[3]) if f[0] == 1 else f[3], 'sticky' if f[4] else 'once') for f in fl])
        fired = sum(o.fired)
        if fired:
            hit += 1
            ctx.count('faults_fired', sum(1 for x in o.fired if x))
            for f, x in zip(fl, o.fired):
                if x:
                    e = sessions.errno_name(f[3]) if f[0] == 1 else ''
                    ctx.count('fault_%s_%s%s' % (['', 'fail', 'short', 'full'][f[0]], NAME[f[2]], '_' + e if e else ''))
        # announcements
        opens = {}
        for d in o.log:
            if d.op == sim.OPEN and d.a & 3 and d.path:
                opens[d.path] = opens.get(d.path, 0) + 1
        said = o.announced()
        for p in said:
            if p.endswith('.hdf5') or opens.get(p, 0) <= said.count(p):
                got = o.files.get(os.path.normpath(p))
                want = plain.files.get(os.path.normpath(p))
                if p not in plain.announced():
                    continue
                if got != want:
                    raise Violation('announced:%s' % j['cmd'], '%s: announced %s, which is %s\n%s' % (
                        what, p, 'not on disk' if got is None else got if isinstance(got, str) else 'different',
                        (o.out + o.err)[-500:]))
        if o.failed(plain):
            ctx.count('failed_visibly')
            continue
        ctx.count('unaffected')
        for f in ('exit', 'out', 'err'):
            if getattr(o, f) != getattr(plain, f):
                raise Violation('silent-%s:%s' % (f, j['cmd']), '%s: no error shown, but %s differs: %s' % (
                    what, f, where(str(getattr(plain, f)), str(getattr(o, f)))))
        for p in sorted(set(plain.files) | set(o.files)):
            if plain.files.get(p) != o.files.get(p):
                a, b = plain.files.get(p), o.files.get(p)
                raise Violation('silent-file:%s' % j['cmd'], '%s: no error shown, but %s differs (%s)' % (
                    what, p, where(a, b) if isinstance(a, bytes) and isinstance(b, bytes) else (
                        b if isinstance(b, str) else 'missing' if b is None else 'datasets')))
    if hit:
        ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'job': [j['cmd']] + j['opts'], 'plans': len(sc['plans']), 'operations': len(plain.log)}


def shrink(sc, extra):
    for ps in shrink_list(sc['plans']):
        if ps:
            yield dict(sc, plans=ps)
    for k, p in enumerate(sc['plans']):
        for q in shrink_list(p):
            if q:
                yield dict(sc, plans=sc['plans'][:k] + [q] + sc['plans'][k + 1:])
        for i, f in enumerate(p):
            if f['sticky']:
                q = copy.deepcopy(sc)
                q['plans'][k][i]['sticky'] = False
                yield q
    if sc['before']:
        yield dict(sc, before=False)
    for f, z in (('out', None), ('quiet', False)):
        if sc['job'][f] != z:
            q = copy.deepcopy(sc)
            q['job'][f] = z
            yield q
    if sc['job']['opts'] and sc['job']['cmd'] != 'export-soec':
        q = copy.deepcopy(sc)
        q['job']['opts'] = []
        yield q
