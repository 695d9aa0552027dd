"""Development console: run a snippet inside a pristine simulated process.
usage: tools/sh.py FILE   (FILE defines execute(sc, ctx))"""
import importlib.util, json, os, sys
sys.path.insert(0, '/verif')
from dst import engine, build
nat, ext = build.build()
if len(sys.argv) == 2:
    os.environ.update({'LD_PRELOAD': nat + '/libsimdisk.so', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'TZ': 'UTC',
      'OPENBLAS_NUM_THREADS': '1', 'COLUMNS': '100', 'DST_REPO': os.environ.get('DST_REPO', '/repo')})
    os.execv(sys.executable, [sys.executable, sys.argv[0], sys.argv[1], 'x'])
env = engine.make_env(nat, ext)
spec = importlib.util.spec_from_file_location('snip', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
r = engine.run_one(m, env, getattr(m, 'SC', None), 100, events=False)
print({k: v for k, v in r.items() if k not in ('extra',)}.get('error') or r['viol'] or 'ok'); print(r.get('extra') if isinstance(r.get('extra'), str) else '')
