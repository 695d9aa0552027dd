"""Builds what the simulator runs: the two native seams, and the extension
modules of the code under test, compiled from /repo's working tree against the
simulated OpenMP runtime.  Everything lands in a cache folder keyed by content,
outside /repo; /repo is only read."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DST_REPO', '/repo')
PY = '/opt/venv/bin/python'


def cache_root():
    for base in (os.path.join(os.path.dirname(HERE), '.cache'),
                 os.path.join(tempfile.gettempdir(), 'quantas-dst-cache')):
        try:
            os.makedirs(base, exist_ok=True)
            if os.access(base, os.W_OK):
                return base
        except OSError:
            pass
    raise SystemExit('build: no writable cache folder')


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if r.returncode:
        sys.stderr.write('build failed: %s\n%s\n' % (' '.join(cmd), r.stdout))
        raise SystemExit(2)
    return r.stdout


def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    h.update(sys.version.encode())
    return h.hexdigest()[:20]


def pyx_files():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'quantas')):
        dirs.sort()
        for n in sorted(files):
            if n.endswith(('.pyx', '.pxd', '.pxi')):
                out.append(os.path.join(root, n))
    return out


def native():
    src = [os.path.join(HERE, 'native', n) for n in ('simomp.c', 'simdisk.c')]
    d = os.path.join(cache_root(), 'native-' + _digest(src))
    if not os.path.exists(os.path.join(d, 'ok')):
        t = tempfile.mkdtemp(prefix='nat', dir=cache_root())
        for s in src:
            n = 'lib' + os.path.basename(s)[:-2] + '.so'
            sh(['gcc', '-O2', '-fPIC', '-shared', '-Wl,-soname,' + n, '-o', os.path.join(t, n), s, '-ldl'])
        open(os.path.join(t, 'ok'), 'w').close()
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


def extensions(nat):
    """-> {module name: path of the instrumented shared object}"""
    files = pyx_files()
    pyx = [f for f in files if f.endswith('.pyx')]
    key = _digest(files + [os.path.join(HERE, 'native', 'simomp.c'),
                           os.path.join(HERE, 'build.py')])
    d = os.path.join(cache_root(), 'ext-' + key)
    mods = {}
    for f in pyx:
        rel = os.path.relpath(f, REPO)[:-4]
        mods[rel.replace(os.sep, '.')] = os.path.join(d, rel.replace(os.sep, '__') + '.so')
    if not os.path.exists(os.path.join(d, 'ok')):
        t = tempfile.mkdtemp(prefix='ext', dir=cache_root())
        src = os.path.join(t, 'src')
        for f in files:
            dst = os.path.join(src, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(f, dst)
            # package markers, so that Cython gives the modules their full names
            p = os.path.dirname(dst)
            while p != src:
                open(os.path.join(p, '__init__.py'), 'a').close()
                p = os.path.dirname(p)
        sh([PY, '-W', 'ignore', '-c',
            'import sys\nfrom Cython.Build import cythonize\n'
            'cythonize(sys.argv[1:], quiet=True, nthreads=4)'] +
           [os.path.relpath(f, REPO) for f in pyx], cwd=src)
        inc = [sysconfig.get_path('include')]
        for f in pyx:
            rel = os.path.relpath(f, REPO)[:-4]
            so = os.path.join(t, rel.replace(os.sep, '__') + '.so')
            obj = so[:-3] + '.o'
            sh(['gcc', '-O1', '-g0', '-fPIC', '-fwrapv', '-fopenmp', '-fsanitize=thread',
                '-w', '-c', os.path.join(src, rel + '.c'), '-o', obj] + ['-I' + i for i in inc])
            # -fopenmp is left off here: libgomp is what the simulator replaces
            # (found by its soname: the worker has loaded it already)
            sh(['gcc', '-shared', obj, '-o', so, '-L' + nat, '-lsimomp', '-lm'])
            os.unlink(obj)
        shutil.rmtree(src)
        open(os.path.join(t, 'ok'), 'w').close()
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return mods


def prune(keep=40):
    """The cache is bounded: oldest entries go."""
    root = cache_root()
    ds = [os.path.join(root, n) for n in os.listdir(root)]
    ds = sorted((p for p in ds if os.path.isdir(p)), key=os.path.getmtime)
    for p in ds[:-keep]:
        shutil.rmtree(p, ignore_errors=True)


def build():
    root = cache_root()
    with open(os.path.join(root, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        nat = native()
        ext = extensions(nat)
        prune()
    return nat, ext


if __name__ == '__main__':
    n, e = build()
    print('native seams:', n)
    for k, v in e.items():
        print('extension:', k, v)
