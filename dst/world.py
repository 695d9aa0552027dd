"""A simulated user's folder and sessions: shared by the property modules."""
import os
import pickle
import struct
import sys

from dst import sim


class Died(Exception):
    """A contained process ended without a result."""

    def __init__(self, status):
        Exception.__init__(self, 'status %d' % status)
        self.status = status
        self.signal = status & 0x7f


def contained(fn, *a, **kw):
    """fn in a forked copy of this process: whatever it does to process state
    (or a crash of it) stays there.  -> its result; raises what it raised, Died"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            try:
                out = ('ok', fn(*a, **kw))
            except BaseException as e:
                try:
                    from dst.engine import blame
                    at = blame(e)
                    if at:
                        e.dst_blame = at
                    pickle.dumps(e)
                    out = ('exc', e)
                except Exception:
                    out = ('exc', RuntimeError('%s: %s' % (type(e).__name__, e)))
            data = pickle.dumps((out, sim.EV.items))
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 7
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    try:
        (kind, val), ev = pickle.loads(b''.join(buf))
    except Exception:
        raise Died(status)
    sim.EV.items = ev
    if kind == 'exc':
        raise val
    return val


def quietly(fn, *a, **kw):
    """contained() without recording the contained run in this run's history."""
    keep = list(sim.EV.items)
    try:
        return contained(fn, *a, **kw)
    finally:
        sim.EV.items = keep


class World(object):
    def __init__(self, ctx, name='w'):
        self.ctx = ctx
        self.root = ctx.dir(name)
        os.chdir(self.root)

    def put(self, rel, data):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return rel

    def get(self, rel):
        with open(os.path.join(self.root, rel), 'rb') as f:
            return f.read()

    def snap(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for n in fs:
                p = os.path.join(d, n)
                rel = os.path.relpath(p, self.root)
                if os.path.islink(p):
                    out[rel] = b'-> ' + os.readlink(p).encode()
                else:
                    with open(p, 'rb') as f:
                        out[rel] = f.read()
        return out


def image(log, init, upto=None, torn=None):
    """Durable state after a crash: replay the write log on top of `init`.
    upto: number of log entries applied; torn: bytes kept of the last write."""
    fs = {k: bytearray(v) for k, v in init.items()}
    n = len(log) if upto is None else upto
    for i, d in enumerate(log[:n]):
        if d.op == sim.OPEN and d.ret >= 0:
            # a = flags
            if d.path is None:
                continue
            if d.path not in fs and (d.a & os.O_CREAT):
                fs[d.path] = bytearray()
            if d.a & os.O_TRUNC and d.path in fs:
                fs[d.path] = bytearray()
        elif d.op == sim.WRITE and d.ret > 0:
            data = d.data[:d.ret]
            if i == n - 1 and torn is not None:
                data = data[:torn]
            b = fs.setdefault(d.path, bytearray())
            off = d.a
            if len(b) < off:
                b.extend(b'\0' * (off - len(b)))
            b[off:off + len(data)] = data
        elif d.op == sim.TRUNC and d.ret >= 0:
            b = fs.setdefault(d.path, bytearray())
            if len(b) > d.a:
                del b[d.a:]
            else:
                b.extend(b'\0' * (d.a - len(b)))
        elif d.op == sim.RENAME and d.ret >= 0:
            if d.path in fs:
                fs[d.b] = fs.pop(d.path)
        elif d.op == sim.UNLINK and d.ret >= 0:
            fs.pop(d.path, None)
    return {k: bytes(v) for k, v in fs.items()}


# --------------------------------------------------------- observing a reader
def norm(v, depth=0):
    """A value as plain comparable data."""
    import numpy as np
    if depth > 8:
        return '...'
    if isinstance(v, np.ndarray):
        return ('array', v.shape, str(v.dtype), v.tobytes().hex() if v.dtype != object else repr(v.tolist()))
    if isinstance(v, np.generic):
        return ('num', float(v).hex()) if isinstance(v, np.floating) else ('num', v.item())
    if isinstance(v, bool) or v is None or isinstance(v, str) or isinstance(v, bytes):
        return v
    if isinstance(v, int):
        return ('num', v)
    if isinstance(v, float):
        return ('num', v.hex())
    if isinstance(v, dict):
        return ('dict', sorted(((repr(k), norm(x, depth + 1)) for k, x in v.items()), key=lambda t: t[0]))
    if isinstance(v, (list, tuple)):
        return ('list', [norm(x, depth + 1) for x in v])
    if isinstance(v, BaseException):
        return ('exc', type(v).__name__)
    return ('object', type(v).__name__)


def observe(obj, skip=()):
    """Everything an object lets its user see: public properties and fields."""
    out = {}
    names = set()
    for c in type(obj).__mro__:
        for n, v in vars(c).items():
            if not n.startswith('_') and (isinstance(v, property) or not callable(v)) \
                    and not isinstance(v, (staticmethod, classmethod)):
                names.add(n)
    names.update(n for n in vars(obj) if not n.startswith('_') and not callable(vars(obj)[n]))
    for n in sorted(names - set(skip)):
        try:
            out[n] = norm(getattr(obj, n))
        except Exception as e:
            out[n] = ('raises', type(e).__name__)
    return out


def diff_obs(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return k, a.get(k), b.get(k)
    return None


def diff_files(a, b, skip=()):
    for k in sorted(set(a) | set(b)):
        if k in skip:
            continue
        if a.get(k) != b.get(k):
            return k
    return None


def where(a, b):
    """First difference of two byte strings, for a report."""
    if a is None or b is None:
        return 'missing' if a is None else 'unexpected'
    n = min(len(a), len(b))
    i = next((j for j in range(n) if a[j] != b[j]), n)
    lo = max(0, i - 60)
    return 'byte %d of %d/%d: %r / %r' % (i, len(a), len(b), a[lo:i + 60], b[lo:i + 60])
