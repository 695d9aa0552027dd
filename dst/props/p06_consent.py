"""P06: existing files change only with consent."""
import copy
import os
import random
import re

from dst.engine import Violation, digest, shrink_list
from dst.gen import jobs as J

LEVEL = 'exploration'
RUNS = {'quick': 1800, 'thorough': 30000}
TIMEOUT = 30.0
RULE = ('A run = one command session in a folder populated with earlier results, logs, tables, generated inputs, '
        'unrelated and empty files and links, under unusual output names (1 in 4 colliding with inputs), answered by a seeded '
        'user (yes, no, Return, junk, end of input, Ctrl-C at any question; new names that exist or not), 1 in 5 '
        'with a disk fault; in 3 of 10 another program creates the output while inputs are read, the calculation runs or '
        'the user picks what to export. Every recorded open-for-truncation, write, truncate, rename and unlink of a file that '
        'existed at that time is judged against the questions shown and answers given before it; final contents and '
        'new names are checked too. Non-trivial: the session reached an existing output or ended an interrupted '
        'dialogue; distinct by history digest.')
REAL = ['whole CLI sessions of /repo', 'HDF5 library, CPython I/O']
STUB = ['terminal (simulated user)', 'clock frozen', 'SOEC angular searches coarsened']
ASSUMPTIONS = ['consent to a link is consent to its target']
FLOOR = {'appeared_meanwhile': 100, 'overwrites_asked': 300, 'overwrites_refused': 150, 'interrupted': 100}

FIGS = ['E', 'LC', 'G', 'Nu', 'waves']


def scenario(rng, idx, tier):
    j = J.job(rng, rng.choice([None, ['ha', 'qha', 'soec'], ['export-ha', 'export-qha', 'export-soec'],
                               ['inpgen-ha', 'inpgen-soec'], ['eosfit']]))
    j['debug'] = False
    if j['cmd'] == 'soec' and rng.random() < 0.15:
        j['opts'] = ['--polar', '-p']
    sc = {'job': j, 'seed': rng.randrange(1 << 30), 'density': rng.choice([0.3, 0.6, 1.0]),
          'collide': rng.choice([None, None, None, 'out-is-input', 'out-links-input', 'log-is-input',
                                 'log-links-input', 'log-hard-input', 'out-dangling']),
          'user': {'p_yes': rng.choice([0.0, 0.3, 0.7, 1.0]), 'bad': rng.choice([0, 0, 0.2]),
                   'stop': [rng.randint(0, 6), rng.choice(['eof', 'ctrl-c'])] if rng.random() < 0.35 else None,
                   'steps': rng.randint(1, 5), 'seed': rng.randrange(1 << 30),
                   'names': rng.choice([0.2, 0.6, 0.9])},
          'fault': [rng.choice(['open', 'write', 'close', 'read']), rng.randint(0, 60)] if rng.random() < 0.2 else None,
          # another program creates the output meanwhile: before the n-th opening of the log or of an input,
          # or while the user picks what to export
          'late': rng.randint(0, 45) if rng.random() < 0.3 else None}
    return sc


class Picky(J.User):
    """Decides each overwrite separately and types names that exist."""

    def __init__(self, u, j, existing):
        stop = None if u['stop'] is None else tuple(u['stop'])
        J.User.__init__(self, u['seed'], True, j.get('job', ''), u['steps'], bad=u['bad'], stop=stop)
        self.u, self.existing = u, existing
        self.n_names = 0

    def answer(self, shown, n):
        from dst import sim
        if self.stop and n >= self.stop[0]:
            return sim.EOF if self.stop[1] == 'eof' else sim.CTRL_C
        tail = ' '.join(shown.split())[-200:]
        if re.search(r'(?i)overwrite', tail):
            if self.r.random() < self.u['p_yes']:
                return self.r.choice(['y', 'Y', 'yes', 'YES'])
            return self.r.choice(['n', '', 'N', 'no', 'x', 'yess', 'ok', '0', 'si'])
        if 'enter a file name' in tail:
            self.n_names += 1
            if self.n_names < 6 and self.r.random() < self.u['names']:
                return self.r.choice(self.existing)
            return self.r.choice(['new%d.dat' % self.n_names, 'sub/new%d.txt' % self.n_names])
        return J.User.answer(self, shown, n)


def contents(name, n):
    """What an existing file holds: nothing, anything, or what this program could have written there."""
    if n % 5 == 0:
        return b''
    if n % 5 < 3:
        return b'precious %s %d\n' % (name.encode(), n)
    if name.endswith('.hdf5'):
        import h5py
        import io
        b = io.BytesIO()
        with h5py.File(b, 'w') as f:
            for k in ('T', 'V', 'P', 'stiffness', 'F'):
                f[k] = [1., 2., float(n)]
                f[k].attrs['unit'] = 'K'
            f.attrs['info'] = 'This file was created with Quantas.'
        return b.getvalue()
    return b'*- This file was created using Quantas -*\n\njob: %d\n' % n


def yes(a):
    return isinstance(a, str) and a.strip().lower() in ('y', 'yes')


def real(p, links):
    p = os.path.normpath(p)
    for _ in range(5):
        if p in links:
            p = os.path.normpath(os.path.join(os.path.dirname(p), links[p]))
    return p


def execute(sc, ctx):
    from dst import sessions, sim, stubs
    from dst.world import World, quietly
    from dst.props.p05_iofaults import OPS
    import errno
    World(ctx)
    root = os.getcwd()
    stubs.coarse_optimisers()
    stubs.coarse_angles()
    ctx.clock.on(step=0.)
    j = copy.deepcopy(sc['job'])
    path = sessions.setup(j)
    rng = random.Random(sc['seed'])
    base = os.path.splitext(path)[0]
    col = sc['collide']
    calc = j['cmd'] in J.CALC
    links, hard = {}, {}
    # ------------------------------------------------ the populated folder
    if col == 'out-is-input' and j['cmd'] in ('ha', 'qha', 'soec') + tuple(J.GEN):
        ext = '.hdf5' if calc else '.yaml' if j['cmd'] == 'inpgen-ha' else '.dat'
        os.rename(path, 'main' + ext)
        path, base = 'main' + ext, 'main'
        j['out'] = 'main'
    if col == 'log-is-input' and calc:
        ext = '.log' if j['cmd'] == 'eosfit' else '.txt'
        os.rename(path, 'main' + ext)
        path, base = 'main' + ext, 'main'
        j['out'] = 'main'
    out = J.outpath(j, path) if not j['cmd'].startswith('export') else None
    log = J.logpath(j, path) if calc else None
    want, kinds = [], []
    if j['cmd'].startswith('export'):
        keys = sorted(k for k in (J.h5(path) if os.path.exists(path) else {}) if k not in ('@', 'T', 'P', 'V'))
        kinds = sorted({k.split('_')[1] if k.startswith('polar_') else k for k in keys})
        want += ['%s_%s.dat' % (base, k) for k in kinds]
    if out:
        want += [out]
    if log:
        want += [log]
    if j['cmd'] == 'soec':
        want += ['%s_%s.png' % (os.path.splitext(out)[0], f) for f in FIGS]
    want += ['other.dat', 'x1.dat', 'quantas_ha.yaml', base + '_HA.hdf5', base + '.log', 'sub/old.txt', base + '.bak',
             'my.hdf5', 'my.txt', base + '.txt', base + '_F.dat', 'tmp', base + '.tmp', (out or base) + '.tmp',
             (out or base) + '~', (out or base) + '.bak']
    for w in want:
        if rng.random() < sc['density'] and not os.path.lexists(w) and not (w == out and sc['late'] is not None):
            with open(w, 'wb') as f:
                f.write(contents(w, rng.randrange(1000)))
    os.makedirs('sub', exist_ok=True)
    if col == 'out-links-input' and out and os.path.normpath(out) != os.path.normpath(path):
        if os.path.lexists(out):
            os.unlink(out)
        links[out] = os.path.relpath(path, os.path.dirname(out) or '.')
        os.symlink(links[out], out)
    if col in ('log-links-input', 'log-hard-input') and log and os.path.normpath(log) != os.path.normpath(path):
        if os.path.lexists(log):
            os.unlink(log)
        if col == 'log-links-input':
            links[log] = os.path.relpath(path, os.path.dirname(log) or '.')
            os.symlink(links[log], log)
        else:
            os.link(path, log)
            hard[os.path.normpath(log)] = os.path.normpath(path)
    if col == 'out-dangling' and out:
        if os.path.lexists(out):
            os.unlink(out)
        os.symlink('nowhere.dat', out)
        links[out] = 'nowhere.dat'
    links = {os.path.normpath(k): v for k, v in links.items()}
    inputs = [os.path.normpath(path)]
    if not j['cmd'].startswith('export'):
        inputs += [os.path.normpath(p) for p in sessions.files() if re.match(r'in(_\d+|_list)?(\.|$)', p) and
                   os.path.normpath(p) not in map(os.path.normpath, want)]
    init = sessions.files()
    if col == 'out-dangling' and out:          # a link to nothing is not an existing file
        init.pop(os.path.normpath(out), None)
    initset = set(os.path.normpath(p) for p in init)
    # ------------------------------------------------------- the session
    u = Picky(sc['user'], j, sorted(init) or ['x'])
    marks = []

    lates = []                     # (position, path, contents)

    def appear(p):
        if not os.path.lexists(p):
            lates.append((ctx.disk.mark(), os.path.normpath(p), contents(p, sc['seed'] % 1000)))
            with open(p, 'wb') as f:
                f.write(lates[-1][2])

    def on_open(opno, op, p):
        if log and p == log:
            # not later than the calculation: the question that follows shows the file is there
            with open(p, 'rb') as f:
                if re.search(rb'(?i)finished|calculation time|not saved|exported', f.read()):
                    return
        appear(out)

    def user(shown, n):
        at = ctx.disk.mark()
        if sc['late'] is not None and not out and 'Select data to export' in ' '.join(shown.split())[-400:]:
            a = u(shown, n)
            if isinstance(a, str) and a in kinds and sc['late'] % 3 == n % 3:
                ctx.disk.end()
                appear('%s_%s.dat' % (base, a))
                ctx.disk.resume()
            marks.append((at, shown, a))
            return a
        a = u(shown, n)
        marks.append((at, shown, a))
        return a
    faults = []
    if sc['late'] is not None and out and col != 'out-dangling':
        ctx.disk.callback(on_open)
        if log:
            faults.append((sim.CALL, sc['late'], sim.OPEN, 0, False, log))
        else:
            faults.append((sim.CALL, 0, sim.OPEN, 0, False, inputs[sc['late'] % len(inputs)]))
    if sc['fault']:
        faults += [(sim.FAIL, sc['fault'][1], OPS[sc['fault'][0]], errno.EIO if sc['fault'][0] != 'open' else
                   errno.EACCES, False)]
    o = sessions.go(j, path, ctx.disk, root, faults, user=user, limit=120)
    final = sessions.files()
    for at, p, b in lates:
        init[p] = b
        ctx.count('appeared_meanwhile')
    late = sorted(lates)
    # ------------------------------------------------------------ judge
    ctx.seen('commands', j['cmd'])
    if col:
        ctx.count('collide_' + col)
    who = '%s %s -o %s (%s)' % ([j['cmd']], j['opts'], j['out'], col)
    own = set()
    if log:
        own.add(os.path.normpath(log))
    if j['cmd'] == 'soec' and '-p' in j['opts']:
        own.update(os.path.normpath('%s_%s.png' % (os.path.splitext(out)[0], f)) for f in FIGS)
    existing = {real(p, links) for p in initset}
    initset |= {p for _, p, _ in lates}
    born = set()
    consent = set()
    it = iter(marks)
    nxt = next(it, None)
    reached = 0
    asked = {}
    for d in o.log:
        while late and late[0][0] <= d.at:
            existing.add(real(late.pop(0)[1], links))
        while nxt is not None and nxt[0] <= d.at:
            q = nxt[1]
            low = ' '.join(q.split())
            if 'Select data to export' in low[-400:]:
                consent.clear()
                existing |= born
                born.clear()
            tail = q.rstrip().rsplit('\n', 1)[-1]
            if re.search(r'(?i)overwrite', tail):
                for p in list(existing):
                    if names(tail, p, links, root):
                        reached += 1
                        if yes(nxt[2]):
                            consent.add(p)
                        else:
                            consent.discard(p)
                        asked[p] = asked.get(p, 0) + 1
            nxt = next(it, None)
        if d.path is None or d.ret < 0:
            continue
        hurts = []
        if d.op == sim.OPEN and d.a & os.O_TRUNC:
            hurts = [d.path]
        elif d.op == sim.OPEN and d.a & os.O_CREAT and not d.b:
            r = real(d.path, links)
            born.add(r)
            continue
        elif d.op == sim.WRITE and d.ret > 0:
            hurts = [d.path]
        elif d.op == sim.TRUNC:
            hurts = [d.path]
        elif d.op == sim.RENAME:
            hurts = [d.path, d.b]
        elif d.op == sim.UNLINK:
            hurts = [d.path]
        elif d.op == 12:
            hurts = [d.b]
        for p in hurts:
            if p is None:
                continue
            r = real(p, links)
            n = os.path.normpath(p)
            if r not in existing:
                born.add(r)
                continue
            if n in hard:
                r = hard[n]
            if r in own and r not in inputs:
                continue
            if r in consent:
                continue
            raise Violation('touched:%s:%s' % (j['cmd'], 'input' if r in inputs else 'existing'),
                            '%s: %s of existing file %s without consent; asked: %r' % (
                                who, sim.OPNAME.get(d.op), p,
                                [(q.rstrip().rsplit('\n', 1)[-1][-90:], a) for _, q, a in marks][-6:]))
    # consent to what was never written still leaves it unchanged; what had no
    # consent at all must be as before
    everyes = {real(p, links) for p in initset for _, q, a in marks
               if yes(a) and re.search('(?i)overwrite', q.rstrip().rsplit('\n', 1)[-1])
               and names(q.rstrip().rsplit('\n', 1)[-1], real(p, links), links, root)}
    for p, b in init.items():
        n = os.path.normpath(p)
        r = real(n, links)
        if (n in own and r not in inputs and hard.get(n) not in inputs) or r in everyes:
            continue
        if final.get(p) != b:
            raise Violation('changed:%s' % j['cmd'], '%s: %s %s' % (
                who, p, 'is gone' if p not in final else 'changed'))
    # new files
    allowed = set(own)
    if out:
        allowed.add(os.path.normpath(out))
        allowed.add(real(out, links))
    for _, q, a in marks:
        if isinstance(a, str) and 'Select data' in q[-600:]:
            allowed.add(os.path.normpath('%s_%s.dat' % (base, a)))
        if isinstance(a, str) and 'enter a file name' in q[-200:]:
            allowed.add(os.path.normpath(a))
    for p in final:
        n = os.path.normpath(p)
        if n not in initset and n not in allowed:
            raise Violation('stray:%s' % j['cmd'], '%s: unexpected new file %s' % (who, p))
    ctx.count('overwrites_asked', sum(asked.values()))
    ctx.count('overwrites_refused', sum(1 for _, q, a in marks if 'verwrite' in q[-200:] and not yes(a)))
    stopped = any(not isinstance(a, str) for _, q, a in marks)
    if stopped:
        ctx.count('interrupted')
    if reached or stopped:
        ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'job': [j['cmd']] + j['opts'], 'out': j['out'], 'collide': col,
                  'dialogue': [[q.rstrip().rsplit('\n', 1)[-1][-60:], repr(a)] for _, q, a in marks][:5]}


def names(tail, p, links, root):
    """Does this question name file p (as typed, or a link to it)?"""
    for q in [p] + [k for k in links if real(k, links) == p]:
        if re.search(r"(?:^|[\s'\"/])%s(?:$|[\s'\"])" % re.escape(q), tail):
            return True
    return False


def shrink(sc, extra):
    def v(f):
        n = copy.deepcopy(sc)
        f(n)
        return n
    if sc['late'] is not None:
        yield v(lambda n: n.update(late=None))
    if sc['fault']:
        yield v(lambda n: n.update(fault=None))
    if sc['collide']:
        yield v(lambda n: n.update(collide=None))
    if sc['user']['bad']:
        yield v(lambda n: n['user'].update(bad=0))
    if sc['user']['stop']:
        yield v(lambda n: n['user'].update(stop=None))
    if sc['user']['steps'] > 1:
        yield v(lambda n: n['user'].update(steps=sc['user']['steps'] - 1))
    if sc['job']['opts'] and sc['job']['cmd'] != 'export-soec':
        yield v(lambda n: n['job'].update(opts=[]))
    if sc['job']['out']:
        yield v(lambda n: n['job'].update(out=None))
    if sc['density'] < 1:
        yield v(lambda n: n.update(density=1.0))
