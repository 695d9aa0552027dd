"""Jobs: one command of the CLI with its input, options and simulated user."""
import os
import random
import re

from dst.gen import files as G

CALC = ['ha', 'qha', 'soec', 'eosfit']
GEN = ['inpgen-ha', 'inpgen-soec']
EXPORT = ['export-ha', 'export-qha', 'export-soec']
RESULT = {'ha': '_HA', 'qha': '_QHA', 'soec': '_SOEC'}
NAMES = ['Quartz', 'MgO B3LYP', 'run 12', 'alpha-phase (test)', 'x']


def trange(rng, unit='K', qha=False):
    n = rng.choice([1, 2, 3, 5, 8])
    if rng.random() < 0.02:
        n = rng.choice([52, 101, 120])
    lo = rng.choice([0., 10., 100., 298.15, 300.]) if not qha else rng.choice([0., 100., 298.15, 300.])
    st = rng.choice([1., 10., 50., 100.])
    if n > 50:
        st = rng.choice([1., 2., 5.])
    if unit == 'C':
        lo -= 273.15 if lo < 100 else 0.
    return [repr(lo), repr(round(lo + st * (n - 1), 6)), repr(st)]


def units(rng):
    o = []
    if rng.random() < 0.4:
        o += ['--eunit', rng.choice(['Ha', 'eV', 'Ry'])]
    if rng.random() < 0.4:
        o += ['--vunit', rng.choice(['A', 'bohr'])]
    if rng.random() < 0.4:
        o += ['--funit', rng.choice(['cm-1', 'THz', 'Hz'])]
    t = 'K'
    if rng.random() < 0.3:
        t = rng.choice(['K', 'C'])
        o += ['--tunit', t]
    return o, t


def large(rng, j):
    """The same job on a grid of hundreds of cells."""
    o = j['opts']
    for f in ('-T', '-P', '-s', '-m'):
        if f in o:
            i = o.index(f)
            del o[i:i + (4 if f in '-T-P' else 2)]
    lo = 0. if '--tunit' not in o or o[o.index('--tunit') + 1] == 'K' else 25.
    st = rng.choice([1., 2., 5.])
    o += ['-T', repr(lo), repr(lo + st * (rng.choice([52, 64, 101, 128]) - 1)), repr(st)]
    if j['cmd'] == 'qha':
        st = rng.choice([0.1, 0.2])
        o += ['-P', '0.0', repr(round(st * (rng.choice([11, 13]) - 1), 6)), repr(st)]


def job(rng, cmds=None, polar=0.0):
    cmd = rng.choice(cmds or (CALC * 2 + GEN + EXPORT))
    j = {'cmd': cmd, 'opts': [], 'useed': rng.randrange(1 << 30), 'out': None, 'yes': rng.random() < 0.5,
         'quiet': False, 'debug': False}
    base = cmd.split('-')[-1] if cmd.startswith('export') else cmd
    if base == 'ha':
        j['spec'] = G.qha_spec(rng, physical=rng.random() < 0.7)
        o, t = units(rng)
        j['opts'] = o
        if rng.random() < 0.7:
            j['opts'] += ['-T'] + trange(rng, t)
    elif base == 'qha':
        j['spec'] = G.qha_spec(rng)
        o, t = units(rng)
        j['opts'] = o
        if rng.random() < 0.8:
            j['opts'] += ['-T'] + trange(rng, t, True)
        if rng.random() < 0.5:
            n = rng.choice([1, 2, 3])
            j['opts'] += ['-P', '0.0', repr(1. * (n - 1)), '1.0']
        if rng.random() < 0.4:
            j['opts'] += ['-s', rng.choice(['freq', 'td'])]
        if rng.random() < 0.4:
            j['opts'] += ['-m', rng.choice(['poly', 'eos'])]
            if rng.random() < 0.5:
                j['opts'] += ['--eos', rng.choice(['M', 'BM', 'PT', 'V'])]
        if rng.random() < 0.3:
            j['opts'] += ['--edeg', str(rng.randint(2, 5))]
        if rng.random() < 0.3:
            j['opts'] += ['--fdeg', str(rng.randint(2, 5))]
        if rng.random() < 0.2:
            j['opts'] += ['--punit', rng.choice(['GPa', 'kbar'])]
    elif base == 'soec':
        j['spec'] = G.soec_spec(rng)
        if cmd == 'export-soec' or rng.random() < polar:
            j['opts'] = ['--polar']
    elif base == 'eosfit':
        j['spec'] = G.eos_spec(rng)
    elif base == 'inpgen-ha':
        i = rng.choice(['crystal', 'crystal', 'crystal-qha', 'phonopy'])
        n = 1 if i == 'crystal-qha' else rng.choice([1, 2, 3, 4])
        s = [G.SPECS[i](rng) for _ in range(n)]
        for x in s[1:]:
            for k in ('nat', 'disp', 'nq'):
                if k in x:
                    x[k] = s[0][k]
        j['iface'] = i
        j['specs'] = s
        j['list'] = n > 1 or (i != 'crystal-qha' and rng.random() < 0.3)
        j['ref'] = rng.randrange(n)
        j['job'] = rng.choice(NAMES)
    elif base == 'inpgen-soec':
        i = rng.choice(['csoec', 'vasp'])
        j['iface'] = 'crystal' if i == 'csoec' else 'vasp'
        j['specs'] = [G.SPECS[i](rng)]
        j['job'] = rng.choice(NAMES + [''])
    if base in CALC and base != 'eosfit':
        j['quiet'] = rng.random() < 0.3
        j['debug'] = rng.random() < 0.15
    if not cmd.startswith('export') and rng.random() < 0.4:
        j['out'] = rng.choice(['out', 'results', 'sub/r1', 'my.data'])
    return j


def base(j):
    """The command whose results or rules apply: ha, qha, soec, eosfit, ..."""
    return j['cmd'].split('-')[-1] if j['cmd'].startswith('export') else j['cmd']


def put_input(j, tag):
    """Writes the job's input files into the current folder. -> main path"""
    if 'spec' in j:
        return G.write(j['spec'], tag)
    ps = [G.write(s, '%s_%d' % (tag, k)) for k, s in enumerate(j['specs'])]
    if j.get('list'):
        p = tag + '_list.txt'
        with open(p, 'w') as f:
            f.write('\n'.join(ps) + '\n')
        return p
    return ps[0]


def calc_args(j, path, cmd=None, out=None):
    cmd = cmd or base(j)
    a = [cmd, path] + list(j['opts'])
    out = out or j['out']
    if out:
        a += ['-o', out]
    if j['quiet']:
        a.append('-q')
    if j['debug']:
        a.append('-d')
    return a


def gen_args(j, path):
    a = ['inpgen', 'ha' if j['cmd'] == 'inpgen-ha' else 'soec', path, '-i', j['iface']]
    if j['out']:
        a += ['-o', j['out']]
    if j.get('list'):
        a.append('-l')
    if j.get('ref'):
        a += ['-r', str(j['ref'])]
    return a


def stem(j, path, out=None):
    """Path of the results without extension."""
    out = out or j['out']
    if out:
        return out
    return os.path.splitext(path)[0] + RESULT.get(base(j), '')


def logpath(j, path):
    if base(j) == 'eosfit':
        return stem(j, path) + '.log'
    return os.path.splitext(stem(j, path) + '.hdf5')[0] + '.txt'


def outpath(j, path):
    b = base(j)
    if b in RESULT:
        return stem(j, path) + '.hdf5'
    if b == 'inpgen-ha':
        return (j['out'] or 'quantas_ha') + '.yaml'
    if b == 'inpgen-soec':
        return (j['out'] + '.dat') if j['out'] else os.path.splitext(path)[0] + '_soec_input.dat'
    return None


# ----------------------------------------------------------------------- users
QUESTIONS = ['short description', 'Would you like to', 'Overwrite it?', 'Select ', 'enter a file name', 'Fix ',
             'Update the', 'Use weights']


class User(object):
    """Answers every question of any command from its own seed."""

    def __init__(self, seed, yes=True, job='', steps=3, bad=0.0, alt='other.dat', stop=None):
        self.r = random.Random(seed)
        self.yes, self.job, self.steps, self.bad, self.alt = yes, job, steps, bad, alt
        self.stop = stop                 # (question number, EOF or CTRL_C)
        self.asked = []
        self.named = 0

    def __call__(self, shown, n):
        a = self.answer(shown, n)
        self.asked.append((shown.rsplit('\n', 1)[-1], a))
        return a

    def answer(self, shown, n):
        from dst import sim
        if self.stop and n >= self.stop[0]:
            return sim.EOF if self.stop[1] == 'eof' else sim.CTRL_C
        self.seen_ = (getattr(self, 'seen_', '') + shown)[-6000:]
        q = ' '.join(re.sub('\x1b\\[[0-9;?]*[a-zA-Z]', '', self.seen_).split())
        # the question is the last of those on the screen
        tail = q[-160:]
        at = max(tail.rfind(k) for k in QUESTIONS)
        tail = tail[max(at, 0):]
        r = self.r
        if self.bad and r.random() < self.bad:
            return r.choice(['what?', '-1', '99', 'Y E S', '  ', 'v v', 'é', '1e9999', 'nan'])
        if 'short description' in tail:
            return self.job
        if 'Would you like to overwrite' in tail or 'Overwrite it?' in tail:
            return r.choice(['y', 'yes', 'Y']) if self.yes else r.choice(['n', '', 'no'])
        if 'Select data to export' in tail:
            m = re.search(r'Select data to export \(([^)]*)\)', tail)
            ks = [k.strip() for k in m.group(1).split(',')] if m else ['F']
            return r.choice(ks)
        if 'enter a file name' in tail:
            self.named += 1
            if self.named % 3:
                return self.alt
            return os.path.join(os.path.dirname(self.alt), 'x%d.dat' % (self.named // 3))
        if 'export other data' in tail:
            self.steps -= 1
            return 'y' if self.steps > 0 else r.choice(['n', ''])
        if 'Select the values to fit' in tail:
            ks = re.findall(r'(?:^| )([vabc])\. ', q[max(q.rfind('DATA SELECTION'), 0):])
            return r.choice(ks or ['v'])
        if 'Select an EoS formulation' in tail:
            return r.choice(['', '1', '2', '3', '4', '5'])
        if 'order of the EoS' in tail:
            m = re.findall(r'EOS ORDER((?: - \d)+)', q)
            ks = re.findall(r'\d', m[-1]) if m else ['3']
            return r.choice(ks + [''])
        if 'modify any of the EoS parameters' in tail:
            return r.choice(['n', 'n', '', 'y'])
        if 'fix any of the EoS' in tail:
            return r.choice(['n', '', 'y', 'y'])
        if re.search(r'Fix \S+ *\[y/N\]', tail):
            return r.choice(['y', 'n', '', 'n'])
        if 'Update the parameters' in tail:
            return r.choice(['y', 'n', ''])
        if 'weight the data' in tail or 'Use weights' in tail:
            return r.choice(['', 'y', 'n'])
        if 'continue fitting on the same' in tail or 'change the EoS' in tail or 'fit other data' in tail:
            self.steps -= 1
            return 'y' if self.steps > 0 else 'n'
        return ''


def user(j, **kw):
    return User(j['useed'], j['yes'], j.get('job', ''), 1 + j['useed'] % 4, **kw)


def run(j, path, **kw):
    """One session of the job; its input is at path."""
    from dst import sim
    u = kw.pop('user', None) or user(j)
    if j['cmd'] in CALC:
        args = calc_args(j, path)
    elif j['cmd'] in GEN:
        args = gen_args(j, path)
    else:
        args = ['export', base(j), path]
    return sim.run_cli(args, u, **kw)


# ------------------------------------------------------------------- HDF5 files
def h5(path):
    """A results file as plain data, or None if it cannot be opened."""
    import h5py
    from dst.world import norm
    out = {}
    try:
        with h5py.File(path, 'r') as f:
            out['@'] = {k: norm(v) for k, v in sorted(f.attrs.items())}
            for k in sorted(f.keys()):
                out[k] = (norm(f[k][()]), {a: norm(v) for a, v in sorted(f[k].attrs.items())})
    except Exception as e:
        return 'unreadable: %s' % type(e).__name__
    return out


def canon(name, data):
    """File content for comparison: HDF5 by its data, others by their bytes."""
    if name.endswith('.hdf5'):
        import tempfile
        with tempfile.NamedTemporaryFile(dir='.', suffix='.h5tmp') as t:
            t.write(data)
            t.flush()
            return h5(t.name)
    return data
