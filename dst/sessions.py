"""Whole sessions under the simulated disk: what one left behind and told."""
import os
import re

from dst import sim
from dst.gen import jobs as J

# the big "ERROR" banner of the messages module
BANNER = '_______________________________ ________ __________._.'
ANNOUNCE = re.compile(r"(?:Calculated data exported to (?P<h>\S.*)|Data successfully exported to '(?P<t>.*)')\s*$",
                      re.M)


def errno_name(n):
    import errno
    return errno.errorcode.get(n, str(n))


class Out(object):
    """Outcome of one session, as plain data."""

    def __init__(self, s, files, log=None, died=None):
        if died is None:
            self.exit = s.exit
            self.exc = '%s: %s' % (type(s.exc).__name__, s.exc) if s.exc is not None else None
            self.out, self.err = s.out, s.err
            self.answers = [repr(a) for a in s.answers]
            self.questions = [q.rsplit('\n', 1)[-1] for q in s.questions]
            self.fullq = list(s.questions)
        else:
            self.exit, self.exc, self.out, self.err, self.answers, self.questions = -died, None, '', '', [], []
            self.fullq = []
        self.died = died
        self.files = files
        self.log = log or []
        self.logtext = ''

    def failed(self, plain):
        """Ended in a way its user cannot take for the success the plain run is."""
        if self.died:
            return True
        if (self.exit, self.exc) != (plain.exit, plain.exc) and (self.exit or self.exc):
            return True
        mine, its = self.complains(), plain.complains()
        return any(mine.count(x) > its.count(x) for x in mine)

    def complains(self):
        t = self.out + '\n' + self.err
        return [x for x in t.splitlines()
                if BANNER in x or re.search(r'(?i)\b(error|traceback|not saved|aborted|not possible)\b', x)]

    def read_log(self, j, path):
        if j['cmd'] in J.CALC and os.path.isfile(J.logpath(j, path)):
            with open(J.logpath(j, path), 'rb') as f:
                self.logtext = f.read().decode('utf-8', 'replace')

    def announced(self):
        r = []
        for m in ANNOUNCE.finditer(self.out + '\n' + self.err):
            r.append(m.group('h') or m.group('t'))
        for m in ANNOUNCE.finditer(self.logtext):        # a quiet run tells its log
            if (m.group('h') or m.group('t')) not in r:
                r.append(m.group('h') or m.group('t'))
        return r


def files(root='.'):
    out = {}
    for d, _, ns in os.walk(root):
        for n in ns:
            p = os.path.relpath(os.path.join(d, n), root)
            if p.endswith('.h5tmp'):
                continue
            if not os.path.exists(os.path.join(d, n)):      # a link to nothing
                out[p] = b'-> ' + os.readlink(os.path.join(d, n)).encode()
                continue
            with open(os.path.join(d, n), 'rb') as f:
                out[p] = f.read()
    return out


def restore(init, root='.'):
    """Put the folder back into the state `init`."""
    for p in files(root):
        if p not in init:
            os.unlink(os.path.join(root, p))
    for p, b in init.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q) or '.', exist_ok=True)
        with open(q, 'wb') as f:
            f.write(b)


def setup(j, tag='in', results=None):
    """Input files of job j in the current folder; for an export job a results
    file made by a real run. -> path to give to the command"""
    from dst.world import quietly
    os.makedirs('sub', exist_ok=True)
    path = J.put_input(j, tag)
    if j['cmd'].startswith('export'):
        res = results or 'res'

        def make():
            return sim.run_cli(J.calc_args(dict(j, quiet=True, debug=False), path, out=res), lambda t, n: 'y').exit
        quietly(make)
        if not os.path.exists(res + '.hdf5'):          # e.g. no volume minimum under these options
            j['opts'] = ['--polar'] if j['cmd'] == 'export-soec' else []
            quietly(make)
        path = res + '.hdf5'
    return path


def go(j, path, disk=None, root=None, faults=(), user=None, log=True, pre=None, data=False, **kw):
    """One session in this process. faults: [(kind, nth, op, arg, sticky, path)]"""
    if disk is not None:
        disk.begin(root or os.getcwd(), data=data)
        for f in faults:
            disk.fault(*f)
    if pre:
        pre()
    try:
        s = J.run(j, path, user=user, **kw)
    finally:
        if disk is not None:
            disk.end()
    o = Out(s, None)
    o.read_log(j, path)
    if disk is not None:
        o.fired = disk.fired()
        o.log = disk.log() if log else []
    return o


def canon(fs):
    return {p: J.canon(p, b) for p, b in fs.items()}


class Mirror(object):
    """What contained sessions show, kept even if their process dies."""

    def __init__(self, ctx):
        self.path = os.path.join(ctx.scratch, 'mirror')

    def __enter__(self):
        self.fd = sim.MIRROR = os.open(self.path, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
        return self

    def text(self):
        return os.pread(self.fd, 1 << 26, 0).decode('utf-8', 'replace')

    def __exit__(self, *a):
        sim.MIRROR = None
        os.close(self.fd)
