"""P09: the log is the complete transcript of its run."""
import copy
import errno
import os
import random
import re

from dst.engine import Violation, digest
from dst.gen import jobs as J

LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 20000}
TIMEOUT = 60.0
RULE = ('A run = one ha, qha, soec or eosfit session (random input - 1 in 5 torn -, options, answers, 1 in 2 over an '
        'older log or after another job of the same process) played loud and quiet, then 3 times stopped: by an I/O '
        'error or full disk at a seeded operation, Ctrl-C at a seeded executed line, or Ctrl-C / end of input at a '
        'seeded question. Log = screen without the dialogue, in the same order; at every screen write the operating '
        'system already has everything shown before; writes only append; quiet and loud log are the same bytes; a '
        'stopped session leaves the transcript up to that point. Non-trivial: the session logged a report; distinct '
        'by history digest.')
REAL = ['whole CLI sessions of /repo', 'CPython I/O']
STUB = ['disk (recorded, faults injected)', 'clock frozen', 'terminal (simulated user)',
        'SOEC angular searches coarsened']
ASSUMPTIONS = ['a log write handed to the operating system survives the process']
FLOOR = {'stopped': 1200, 'quiet_runs': 400}

ERRS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE]


def scenario(rng, idx, tier):
    j = J.job(rng, ['ha', 'ha', 'qha', 'qha', 'soec', 'soec', 'eosfit', 'eosfit'])
    j['quiet'] = False
    if j['cmd'] != 'eosfit':
        j['debug'] = rng.random() < 0.3
    stops = []
    for _ in range(3):
        k = rng.choice(['io', 'io', 'line', 'ask'])
        if k == 'io':
            stops.append({'k': k, 'at': rng.random(), 'e': rng.choice(ERRS), 'log': rng.random() < 0.5,
                          'full': rng.choice([None, None, 0, 5, 60, 300, 1000, 3000]), 'sticky': rng.random() < 0.5})
        elif k == 'line':
            stops.append({'k': k, 'at': rng.random()})
        else:
            stops.append({'k': k, 'at': rng.random(), 'how': rng.choice(['eof', 'int'])})
    return {'job': j, 'bad': rng.choice([0, 0, 0.2]), 'harm': rng.choice([None] * 8 + ['cut', 'dir']),
            'frac': rng.random(), 'stale': rng.choice([None, None, 'short', 'long', 'binary']),
            'earlier': J.job(rng, J.CALC) if rng.random() < 0.25 else None,
            'outs': rng.random() < 0.3, 'stops': stops, 'tty': rng.random() < 0.2}


# what an interactive session shows without reporting it: questions, menus, rejections of answers
MENU = re.compile(r'^(DATA SELECTION|EOS FORMULATION|EOS ORDER|EOS PARAMETERS|Error: .*'
                  r'|\s{0,3}[vabc12345]\. .*| - [234]|  \S+\s* = +\S+)$')
REJECT = re.compile(r'^Error: (invalid |.* is not )')
BAR = re.compile('\r[^\n]*')                     # progress bar redrawn on a terminal
ANSI = re.compile('\x1b\\[[0-9;?]*[a-zA-Z]')


def talk(questions, out):
    """Screen text with each question taken out: [(text, is_reported)]; the rest
    of the line after an answer starts a new one."""
    parts, pos = [], 0
    for q in questions:
        # a question is asked in what is not yet a complete line
        cut = q.rfind('\n') + 1
        parts.append(q[:cut])
        pos += len(q)
    return parts + [out[pos:]]


def reported(kind, questions, out):
    """The part of the screen the log must hold, as text."""
    t = ''.join(talk(questions, out))
    return ANSI.sub('', BAR.sub('', t))


def lines(kind, text):
    """Lines the log and the screen must share, in order."""
    out = [ln.rstrip() for ln in text.split('\n')]
    return [ln for ln in out if ln and not REJECT.match(ln) and not (kind == 'eosfit' and MENU.match(ln))]


def compare(kind, text, log):
    """Screen report against a log. -> None or what differs"""
    a, b = lines(kind, text), lines(kind, log)
    if a == b:
        return None
    n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return 'line %d: screen %r, log %r' % (n, a[n:n + 2], b[n:n + 2])


def compare_stopped(kind, text, log, slack):
    """A stopped session: the log may lack the message in flight (or be one
    message ahead of the screen)."""
    a, b = lines(kind, text), lines(kind, log)
    n = min(len(a), len(b))
    last = a[:n] == b[:n]
    if not last and len(b) <= len(a) and n and a[:n - 1] == b[:n - 1] and a[n - 1].startswith(b[n - 1]):
        last = True                                   # torn last line
    if not last:
        k = next(i for i in range(n) if a[i] != b[i])
        return 'line %d: screen %r, log %r' % (k, a[k:k + 2], b[k:k + 2])
    missing = len('\n'.join(a)) - len('\n'.join(b))
    if missing > slack or -missing > 6000:
        return 'the log ends %d bytes before the screen: ...%r' % (missing, b[-1:] or '')
    return None


class Probe(object):
    """Position of every screen write in the disk's history."""

    def __init__(self, disk):
        self.disk, self.at, self.big = disk, [], 0

    def __call__(self, screen, s):
        if screen.name_ == 'out':
            self.at.append((len(screen.getvalue()), self.disk.mark()))
            self.big = max(self.big, len(s))


def play(j, path, ctx, root, sc, stop=None, count=False, data=True):
    from dst import sessions, sim
    faults, bomb = (), None
    kw = {'bad': sc['bad']}
    if stop and stop[0] == 'io':
        faults = [stop[1]]
    if stop and stop[0] == 'ask':
        kw['stop'] = stop[1:]
    hook = None
    if count or (stop and stop[0] == 'line'):
        bomb = sim.LineBomb(stop[1] if stop else 1 << 60, KeyboardInterrupt)
        hook = bomb.install
    probe = sim.ON_WRITE = Probe(ctx.disk)
    try:
        o = sessions.go(j, path, ctx.disk, root, faults, user=J.user(j, **kw), data=data, hook=hook, tty=sc['tty'])
    finally:
        sim.ON_WRITE = None
        if bomb:
            bomb.remove()
    o.at, o.big = probe.at, probe.big
    o.lines = bomb.count if bomb else 0
    o.rawlog = None
    lp = J.logpath(j, path)
    if os.path.isfile(lp):
        with open(lp, 'rb') as f:
            o.rawlog = f.read()
    return o


def execute(sc, ctx):
    from dst import sessions, sim, stubs
    from dst.world import Died, World, contained, where
    World(ctx)
    root = os.getcwd()
    stubs.coarse_optimisers()
    stubs.coarse_angles()
    ctx.clock.on(step=0.)
    j = copy.deepcopy(sc['job'])
    kind = j['cmd']
    path = sessions.setup(j)
    lp = J.logpath(j, path)
    rel = os.path.normpath(lp)
    if sc['harm'] == 'dir':
        os.unlink(path)
        os.makedirs(path)
    elif sc['harm'] == 'cut':
        with open(path, 'rb') as f:
            b = f.read()
        with open(path, 'wb') as f:
            f.write(b[:int(len(b) * sc['frac'])])
    if sc['outs'] and kind != 'eosfit':
        with open(J.outpath(j, path), 'wb') as f:
            f.write(b'old results')
    if sc['stale']:
        with open(lp, 'wb') as f:
            f.write({'short': b'old\n', 'long': b'a line of an older run\n' * 3000, 'binary': b'\0\xff' * 700}[sc['stale']])
    init = sessions.files()
    who = 'session %s (input %s, earlier log %s)' % ([kind] + j['opts'], sc['harm'] or 'intact', sc['stale'])
    ctx.seen('commands', kind)

    def loud(count=True):
        pre = None
        if sc['earlier']:
            e = sc['earlier']
            os.makedirs('other', exist_ok=True)
            here = os.getcwd()
            os.chdir('other')
            try:
                os.makedirs('sub', exist_ok=True)
                ep = J.put_input(e, 'e')
                J.run(e, ep)
                pre = open(J.logpath(e, ep), 'rb').read()
            finally:
                os.chdir(here)
            elog = os.path.join('other', J.logpath(e, ep))
        o = play(j, path, ctx, root, sc, count=count)
        if sc['earlier'] and open(elog, 'rb').read() != pre:
            raise Violation('other-log:' + kind, '%s: changed the log of an earlier run: %s' % (
                who, where(pre, open(elog, 'rb').read())))
        return o
    plain = contained(loud)
    ctx.count('loud_runs')
    shown = plain.fullq
    text = reported(kind, shown, plain.out)
    if plain.rawlog is None:
        if plain.exit == 0:
            raise Violation('no-log:' + kind, '%s: no log at %s' % (who, lp))
        return
    log = plain.rawlog.decode('utf-8', 'replace')
    d = compare(kind, text, log)
    if d and not plain.exc:
        raise Violation('transcript:' + kind, '%s: log and screen differ: %s' % (who, d))
    if len(log) > 300:
        ctx.nontrivial = True
    # ---- the log on its way: only appended to, never behind the screen
    size, begun, sizes = len(init.get(rel, b'')), False, []
    for op in plain.log:
        if op.path is None or os.path.normpath(op.path) != rel or op.ret < 0:
            continue
        if (op.op == sim.OPEN and op.a & os.O_TRUNC or op.op == sim.UNLINK or op.op == sim.TRUNC) and size:
            if begun:
                raise Violation('rewritten:' + kind, '%s: log truncated after %d bytes were written' % (who, size))
            size = 0 if op.op != sim.TRUNC else op.a
        elif op.op == sim.WRITE and op.ret > 0:
            begun = True
            if op.a != size:
                raise Violation('append:' + kind, '%s: log written at %r, its size is %r' % (who, op.a, size))
            size += op.ret
        sizes.append((op.at, size))
    k, have = 0, 0
    qpos, acc = [], 0
    for q in shown:
        acc += len(q)
        qpos.append(acc)
    for w in range(1, len(plain.at)):
        pos, mark = plain.at[w - 1][0], plain.at[w][1]
        while k < len(sizes) and sizes[k][0] < mark:
            have = sizes[k][1]
            k += 1
        if w > 1:
            upto = [q for q, p in zip(shown, qpos) if p <= pos]
            t = reported(kind, upto, plain.out[:pos])
            t = '\n'.join(lines(kind, t[:t.rfind('\n') + 1]))
            h = '\n'.join(lines(kind, plain.rawlog[:have].decode('utf-8', 'replace')))
            if len(h) < len(t):
                raise Violation('behind:' + kind, '%s: when the screen shows %d characters of report the log on disk has '
                                '%d; not yet in the log: %r' % (who, len(t), len(h), t[len(h):][:120]))
            ctx.count('positions')
    # ---- quiet
    if kind != 'eosfit':
        sessions.restore(init)
        q = contained(play, dict(j, quiet=True), path, ctx, root, sc)
        ctx.count('quiet_runs')
        if q.rawlog != plain.rawlog:
            raise Violation('quiet-log:' + kind, '%s: quiet log differs from the loud one: %s' % (
                who, where(plain.rawlog, q.rawlog)))
        qt = lines(kind, reported(kind, q.fullq, q.out))
        ll = lines(kind, log)
        i = 0
        for ln in ll:
            if i < len(qt) and qt[i] == ln:
                i += 1
        if i < len(qt):
            raise Violation('quiet-screen:' + kind, '%s: a quiet run shows %r, which is not in its log' % (who, qt[i]))
    # ---- stopped
    for st in sc['stops']:
        sessions.restore(init)
        if st['k'] == 'io':
            ops = [d for d in plain.log if d.op in (1, 2, 3, 4, 5) and
                   (not st['log'] or (d.path and os.path.normpath(d.path) == rel))]
            if not ops:
                continue
            d = ops[min(len(ops) - 1, int(st['at'] * len(ops)))]
            same = [x for x in plain.log if x.op == d.op]
            nth = next(i for i, x in enumerate(same) if x is d)
            if st['full'] is not None:
                f = (sim.FULL, nth, d.op, st['full'], False)
            else:
                f = (sim.FAIL, nth, d.op, st['e'], st['sticky'])
            stop = ('io', f)
            what = 'fault %s at operation %r' % (f, d)
        elif st['k'] == 'line':
            stop = ('line', 1 + int(st['at'] * max(plain.lines - 1, 1)))
            what = 'Ctrl-C at executed line %d of %d' % (stop[1], plain.lines)
        else:
            if not plain.questions:
                continue
            stop = ('ask', int(st['at'] * len(plain.questions)), st['how'])
            what = '%s at question %d' % (st['how'], stop[1])
        try:
            o = contained(play, j, path, ctx, root, sc, stop)
        except Died:
            ctx.count('native_crashes')
            continue
        ctx.count('stopped')
        ctx.seen('stops', st['k'])
        t = reported(kind, o.fullq, o.out)
        if o.rawlog is None:
            if t.strip():
                raise Violation('stopped:' + kind, '%s, %s: no log but %r on screen' % (who, what, t[:80]))
            continue
        old = init.get(rel)
        if old is not None and o.rawlog == old and not t.strip():
            continue                                  # stopped before the log was begun
        d = compare_stopped(kind, t, o.rawlog.decode('utf-8', 'replace'), o.big + 2)
        if d:
            raise Violation('stopped:' + kind, '%s, %s: the log left behind is not what was reported: %s' % (
                who, what, d))
    if ctx.nontrivial:
        ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'job': [kind] + j['opts'], 'log_bytes': len(log), 'stops': [s['k'] for s in sc['stops']]}


def shrink(sc, extra):
    for i in range(len(sc['stops'])):
        yield dict(sc, stops=sc['stops'][:i] + sc['stops'][i + 1:])
    for f, z in (('earlier', None), ('stale', None), ('outs', False), ('harm', None), ('bad', 0), ('tty', False)):
        if sc[f] != z:
            yield dict(sc, **{f: z})
    for f, z in (('debug', False), ('out', None), ('opts', [])):
        if sc['job'][f] != z:
            n = copy.deepcopy(sc)
            n['job'][f] = z
            yield n
