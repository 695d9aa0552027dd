"""One session in a new interpreter (its own hash seed and environment)."""
import base64
import os
import pickle
import subprocess
import sys


def mods():
    from dst.boot import ExtFinder
    return next(f.mods for f in sys.meta_path if isinstance(f, ExtFinder))


def run(fn, *args, **env):
    """module-level function fn(ctx-like env, *args) in a new interpreter"""
    from dst.engine import PY, VERIF
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    nat = os.path.dirname(e['LD_PRELOAD'])
    job = base64.b64encode(pickle.dumps((nat, mods(), fn.__module__, fn.__qualname__, args))).decode()
    p = subprocess.run([PY, '-c', 'from dst import fresh; fresh.main()'], input=job.encode(), cwd=os.getcwd(),
                       env=dict(e, PYTHONPATH=VERIF), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise RuntimeError('fresh interpreter: %s' % p.stderr.decode()[-2000:])
    return pickle.loads(base64.b64decode(p.stdout.splitlines()[-1]))


def main():
    nat, m, modname, name, args = pickle.loads(base64.b64decode(sys.stdin.buffer.read()))
    here = os.getcwd()
    import importlib
    from dst import engine, sim
    env = engine.make_env(nat, m)
    os.chdir(here)
    sim.memory(0x5a)
    fn = importlib.import_module(modname)
    for part in name.split('.'):
        fn = getattr(fn, part)
    out = os.dup(1)
    r = fn(env, *args)
    data = base64.b64encode(pickle.dumps(r)) + b'\n'
    while data:
        n = os.write(out, data)
        data = data[n:]
    os._exit(0)
