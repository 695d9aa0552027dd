"""The seams, seen from Python: simulated disk, clocks, OpenMP team, user."""
import ast
import ctypes
import io
import os
import random
import re
import struct
import sys

# ------------------------------------------------------------------ event log


class Events(object):
    """The history of a run, in the simulator's total order."""

    def __init__(self):
        self.items = []

    def add(self, *what):
        self.items.append(what)


EV = Events()

# ----------------------------------------------------------------------- disk
OPEN, READ, WRITE, TRUNC, CLOSE, RENAME, UNLINK, FSYNC = 1, 2, 3, 4, 5, 6, 7, 8
OPNAME = {1: 'open', 2: 'read', 3: 'write', 4: 'truncate', 5: 'close',
          6: 'rename', 7: 'unlink', 8: 'fsync', 12: 'link'}
FAIL, SHORT, FULL, CALL = 1, 2, 3, 4


class DiskOp(object):
    __slots__ = ('op', 'path', 'a', 'b', 'ret', 'err', 'fault', 'data', 'at')

    def __repr__(self):
        return '%s(%s a=%s b=%s) = %d%s' % (
            OPNAME.get(self.op, self.op), self.path, self.a, self.b, self.ret,
            ' errno %d' % self.err if self.err else '')


class Disk(object):
    def __init__(self):
        L = ctypes.CDLL(None)
        try:
            L.simdisk_present
        except AttributeError:
            raise SystemExit('sim: the simulated disk is not loaded')
        L.simdisk_begin.argtypes = [ctypes.c_char_p, ctypes.c_int]
        L.simdisk_fault.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int,
                                    ctypes.c_int64, ctypes.c_int, ctypes.c_char_p]
        L.simdisk_log.restype = ctypes.c_size_t
        L.simdisk_path.restype = ctypes.c_char_p
        L.simdisk_ops.restype = ctypes.c_uint64
        L.simdisk_count.restype = ctypes.c_uint64
        L.simclock_on.argtypes = [ctypes.c_int64, ctypes.c_int64]
        L.simclock_jump.argtypes = [ctypes.c_uint64, ctypes.c_int64]
        L.simclock_advance.argtypes = [ctypes.c_int64]
        L.simclock_reads.restype = ctypes.c_uint64
        L.simclock_span.restype = ctypes.c_int64
        self.L = L
        self.root = None
        self.faults = []
        self._cb = None

    def begin(self, root, data=True):
        self.root = os.path.realpath(root)
        self.faults = []
        self.L.simdisk_begin(self.root.encode(), 1 if data else 0)

    def end(self):
        self.L.simdisk_end()

    def resume(self):
        self.L.simdisk_resume()

    def fault(self, kind, nth, op=0, arg=0, sticky=False, path=None):
        p = os.path.join(self.root, path).encode() if path else None
        i = self.L.simdisk_fault(op, nth, kind, arg, 1 if sticky else 0, p)
        self.faults.append((i, kind, nth, op, arg, sticky, path))
        return i

    def fired(self):
        return [self.L.simdisk_fired(f[0]) for f in self.faults]

    def callback(self, fn):
        T = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_uint64, ctypes.c_int, ctypes.c_int)

        def call(opno, op, path):
            fn(opno, op, self.path(path))
            return 0
        self._cb = T(call)
        self.L.simdisk_callback(self._cb)

    def path(self, i):
        p = self.L.simdisk_path(i)
        if p is None:
            return None
        p = os.fsdecode(p)
        return p[len(self.root) + 1:] if p.startswith(self.root) else p

    def ops(self):
        return int(self.L.simdisk_ops())

    def count(self, op):
        return int(self.L.simdisk_count(op))

    def mark(self):
        """Position in the log, comparable with DiskOp.at."""
        pp = ctypes.POINTER(ctypes.c_char)()
        return int(self.L.simdisk_log(ctypes.byref(pp)))

    def log(self):
        pp = ctypes.POINTER(ctypes.c_char)()
        n = self.L.simdisk_log(ctypes.byref(pp))
        buf = ctypes.string_at(pp, n) if n else b''
        out, o = [], 0
        while o < n:
            op, path, a, b, ret, err, fault, ln, _ = struct.unpack_from('<IiqqqiIII', buf, o)
            o += 48
            d = DiskOp()
            d.at = o - 48
            d.op, d.a, d.b, d.ret, d.err, d.fault = op, a, b, ret, err, fault
            d.path = self.path(path)
            if op in (RENAME, 12):
                d.b = self.path(a)
            d.data = buf[o:o + ln]
            o += ln
            out.append(d)
        return out


class Clock(object):
    """Every clock of the process; jumps and freezes are in the plan."""

    def __init__(self, disk):
        self.L = disk.L

    def on(self, start=1700000000.0, step=1e-6, jumps=()):
        self.L.simclock_on(int(start * 1e9), int(step * 1e9))
        for at, by in jumps:
            self.L.simclock_jump(at, int(by * 1e9))

    def off(self):
        self.L.simclock_off()

    def advance(self, s):
        self.L.simclock_advance(int(s * 1e9))

    def reads(self):
        return int(self.L.simclock_reads())

    def span(self):
        return int(self.L.simclock_span()) * 1e-9


def memory(byte):
    """Contents of memory handed out uninitialised (glibc M_PERTURB)."""
    ctypes.CDLL(None).mallopt(-6, byte & 0xff)


class Memory(object):
    """Allocations of the process, some of which are refused."""

    def __init__(self):
        L = ctypes.CDLL(None)
        L.simmem_arm.argtypes = [ctypes.c_uint64] * 3
        L.simmem_off.restype = L.simmem_fired.restype = ctypes.c_uint64
        self.L = L

    def arm(self, least, nth, n=1):
        self.L.simmem_arm(least, nth, n)

    def off(self):
        """-> allocations of at least the given size since arm()"""
        return int(self.L.simmem_off())

    def fired(self):
        return int(self.L.simmem_fired())


class Omp(object):
    POL = {'serial': 0, 'random': 1, 'pct': 2, 'stall': 3, 'reverse': 4,
           'replay': 5, 'conflict': 6}

    def __init__(self, nat):
        L = ctypes.CDLL(os.path.join(nat, 'libsimomp.so'))
        L.simomp_config.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int,
                                    ctypes.c_double, ctypes.c_int]
        self.L = L

    def config(self, seed=1, threads=1, policy='serial', rate=0.01, jitter=0, plan=None):
        self.L.simomp_config(seed & (2**64 - 1), threads,
                             self.POL['replay' if plan is not None else policy],
                             rate, jitter)
        if plan is not None:
            n = len(plan)
            at = (ctypes.c_uint64 * max(n, 1))(*[p[0] for p in plan])
            to = (ctypes.c_int32 * max(n, 1))(*[p[1] for p in plan])
            self.L.simomp_plan(at, to, n)

    def stats(self):
        o = (ctypes.c_uint64 * 9)()
        self.L.simomp_stats(o)
        k = ('regions', 'accesses', 'switches', 'conflicts', 'hash', 'overflow',
             'deadlock', 'ntrace', 'steps')
        return dict(zip(k, [int(x) for x in o]))

    def trace(self, cap=65536):
        at = (ctypes.c_uint64 * cap)()
        to = (ctypes.c_int32 * cap)()
        fo = (ctypes.c_int32 * cap)()
        n = self.L.simomp_trace(at, to, fo, cap)
        return [(int(at[i]), int(to[i]), int(fo[i])) for i in range(n)]


# ----------------------------------------------------------------------- user
class Eof(object):
    def __repr__(self):
        return '<EOF>'


class Interrupt(object):
    def __repr__(self):
        return '<Ctrl-C>'


EOF, CTRL_C = Eof(), Interrupt()


class StepLimit(BaseException):
    """The run exceeded its budget of simulated steps."""


MIRROR = None           # file descriptor that outlives a crash of the process
ON_WRITE = None         # called with (screen, text) before each screen write


class Screen(io.StringIO):
    """stdout/stderr of a session; what the user has seen so far."""

    def __init__(self, name='out', tty=False):
        io.StringIO.__init__(self)
        self.name_ = name
        self.tty = tty
        self.mark = 0
        self.limit = 20 * 1024 * 1024

    def write(self, s):
        if '0x' in s:                    # addresses in library messages
            s = re.sub('0x[0-9a-f]{6,}', '0x*', s)
        EV.add(self.name_, s)
        if ON_WRITE is not None:
            ON_WRITE(self, s)
        if MIRROR is not None:
            os.write(MIRROR, s.encode('utf-8', 'replace'))
        if self.tell() > self.limit:
            raise StepLimit('more than 20 MB of output')
        return io.StringIO.write(self, s)

    def isatty(self):
        return self.tty

    def since(self):
        v = self.getvalue()
        t, self.mark = v[self.mark:], len(v)
        return t


class Keyboard(object):
    """stdin of a session: asks the simulated user for each line."""
    encoding = 'utf-8'
    errors = 'strict'
    closed = False

    def __init__(self, user, screen, limit=400):
        self.user, self.screen = user, screen
        self.n = 0
        self.limit = limit
        self.history = []
        self.ended = False

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def flush(self):
        pass

    def readline(self, size=-1):
        self.n += 1
        if self.n > self.limit:
            raise StepLimit('more than %d questions' % self.limit)
        shown = self.screen.since()
        a = EOF if self.ended else self.user(shown, self.n - 1)
        EV.add('answer', repr(a))
        self.history.append((shown, a))
        if a is EOF or a is None:
            self.ended = True
            return ''
        if a is CTRL_C:
            raise KeyboardInterrupt
        return a + '\n'

    def read(self, *a):
        return self.readline()

    def __iter__(self):
        return iter(self.readline, '')


class Session(object):
    """One command of the CLI, run to its end in this process."""

    def __init__(self):
        self.exit = None
        self.exc = None
        self.out = ''
        self.err = ''
        self.answers = []
        self.questions = []

    @property
    def crashed(self):
        return self.exc is not None

    def text(self):
        return self.out + self.err


def run_cli(args, user=None, tty=False, limit=400, hook=None, done=None):
    from quantas.cmdline.commands.cmd_quantas import cli
    s = Session()
    out, err = Screen('out', tty), Screen('err', tty)
    kb = Keyboard(user or (lambda shown, n: EOF), out, limit)
    saved = sys.stdout, sys.stderr, sys.stdin
    unraisable = sys.unraisablehook
    # errors in destructors, which Python only prints: the libraries' own text
    # (with addresses) is kept out of the history
    sys.unraisablehook = lambda u: EV.add('unraisable', getattr(u.exc_type, '__name__', ''))
    sys.stdout, sys.stderr, sys.stdin = out, err, kb
    EV.add('cmd', list(args))
    try:
        if hook:
            hook()
        try:
            cli.main(args=list(args), prog_name='quantas')
            s.exit = 0
        except SystemExit as e:
            c = e.code
            s.exit = 0 if c is None else c if isinstance(c, int) else 1
        except StepLimit:
            raise
        except BaseException as e:            # what a shell user sees as a traceback
            s.exit = 130 if isinstance(e, KeyboardInterrupt) else 1
            s.exc = e
    finally:
        if hook:
            sys.settrace(None)
        if done:
            done()
        sys.stdout, sys.stderr, sys.stdin = saved
        sys.unraisablehook = unraisable
    s.out, s.err = out.getvalue(), err.getvalue()
    s.answers = [a for _, a in kb.history]
    s.questions = [q for q, _ in kb.history]
    EV.add('exit', s.exit, type(s.exc).__name__ if s.exc else None)
    return s


# ------------------------------------------------------- threads of the caller
class Baton(object):
    """Caller threads under the simulator: real threads, exactly one of which
    runs; at every traced line of the code under test the seeded scheduler may
    hand the baton on.  `plan` (list of (step, thread)) replays a schedule."""

    def __init__(self, rng=None, rate=0.05, plan=None, maxsteps=2000000):
        import threading
        self.threading = threading
        self.rng = rng or random.Random(0)
        self.rate = rate
        self.plan = None if plan is None else {int(k): v for k, v in plan}
        self.step = 0
        self.trace = []
        self.names = []
        self.sems = {}
        self.live = []
        self.maxsteps = maxsteps
        self.current = None
        self.errors = {}
        self.main = threading.Semaphore(0)

    def _tracer(self, name):
        def local(frame, event, arg):
            if event == 'line':
                self.point(name)
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            if '/quantas/' in f and not f.startswith('<'):
                return local
            return None
        return glob

    def point(self, name):
        self.step += 1
        if self.step > self.maxsteps:
            raise StepLimit('thread schedule too long')
        to = None
        if self.plan is not None:
            to = self.plan.get(self.step)
            if to not in self.live:
                to = None
        elif len(self.live) > 1 and self.rng.random() < self.rate:
            to = self.live[self.rng.randrange(len(self.live))]
        if to is not None and to != name:
            self.trace.append((self.step, to))
            self.current = to
            self.sems[to].release()
            self.sems[name].acquire()

    def run(self, tasks):
        """tasks: list of (name, callable); returns {name: result or exception}"""
        res = {}

        def body(name, fn):
            self.sems[name].acquire()
            sys.settrace(self._tracer(name))
            try:
                res[name] = ('ok', fn())
            except BaseException as e:
                res[name] = ('exc', e)
            finally:
                sys.settrace(None)
                self.live.remove(name)
                self.step += 1
                if self.live:
                    to = None
                    if self.plan is not None:
                        to = self.plan.get(self.step)
                        if to not in self.live:
                            to = None
                    elif self.rng.random() < 0.7:
                        to = self.live[self.rng.randrange(len(self.live))]
                    if to is None:
                        to = self.live[0]
                    else:
                        self.trace.append((self.step, to))
                    self.current = to
                    self.sems[to].release()
                else:
                    self.main.release()
        ths = []
        for name, fn in tasks:
            self.sems[name] = self.threading.Semaphore(0)
            self.live.append(name)
            ths.append(self.threading.Thread(target=body, args=(name, fn), daemon=True))
        for t in ths:
            t.start()
        first = self.live[0]
        if self.plan is not None:
            first = self.plan.get(0, first)
        else:
            first = self.live[self.rng.randrange(len(self.live))]
            self.trace.append((0, first))
        self.current = first
        self.sems[first].release()
        self.main.acquire()
        for t in ths:
            t.join()
        return res


# ----------------------------------------------- asynchronous events at a line
_TRIES = {}


def under_handler(frame, only):
    """Would an exception raised here pass a handler of the code under test?"""
    while frame is not None:
        f = frame.f_code.co_filename
        if any(o in f for o in only):
            if f not in _TRIES:
                _TRIES[f] = set()
                try:
                    with open(f) as src:
                        tree = ast.parse(src.read())
                except (OSError, SyntaxError, ValueError):
                    tree = None
                for n in ast.walk(tree) if tree else ():
                    if isinstance(n, ast.Try) and n.handlers:
                        for b in n.body:
                            _TRIES[f].update(range(b.lineno, b.end_lineno + 1))
            if frame.f_lineno in _TRIES[f]:
                return True
        frame = frame.f_back
    return False


class LineBomb(object):
    """Raises `exc` when the code under test reaches its n-th executed line
    (only inside files whose path has `only`): a Ctrl-C, a failed allocation."""

    def __init__(self, n, exc, only=('/quantas/',), budget=None):
        self.n, self.exc, self.only = n, exc, only
        self.count = 0
        self.fired = None
        self.budget = budget
        self.sites = {}                  # first time each line is reached
        self.guarded = []                # those of them under a handler

    def _local(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            site = (frame.f_code.co_filename, frame.f_lineno)
            if site not in self.sites:
                self.sites[site] = self.count
                if under_handler(frame, self.only):
                    self.guarded.append(self.count)
            if self.count == self.n and self.fired is None:
                self.fired = '%s:%d' % (
                    frame.f_code.co_filename.split('/quantas/')[-1], frame.f_lineno)
                EV.add('bomb', self.exc.__name__, self.fired)
                raise self.exc('injected')
            if self.budget and self.count > self.budget:
                raise StepLimit('line budget')
        return self._local

    def _glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        for o in self.only:
            if o in f:
                return self._local
        return None

    def install(self):
        sys.settrace(self._glob)

    def remove(self):
        sys.settrace(None)
