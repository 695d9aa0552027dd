"""P04: incomplete or inconsistent input never yields results."""
import copy
import os
import random

from dst.engine import Violation, digest, shrink_list
from dst.gen import files as G
from dst.gen import jobs as J

LEVEL = 'exploration'
RUNS = {'quick': 3500, 'thorough': 60000}
TIMEOUT = 60.0
RULE = ('A run = one input (or set of ab initio outputs, list file, displacement and energy file) of a seeded job, '
        'stored wrongly in 3-6 seeded ways: crash image of the session that generates it (any write, torn), cut at '
        'any byte or at the edge of a block, lines, blocks, columns or sectors lost, zeroed or overwritten, values lost or replaced by asterisks, '
        'empty, other format, a foreign source in a list. Each is given to a whole session. If an independent '
        'strict parser says that something needed is absent, the session must refuse it visibly and store nothing; '
        'otherwise it must refuse it or give what a clean file with the values still stated gives. Non-trivial: at '
        'least one variant where needed data are absent; distinct by history digest.')
REAL = ['whole sessions of ha, qha, soec, eosfit, inpgen of /repo', 'h5py/HDF5', 'PyYAML']
STUB = ['terminal (simulated user)', 'clock frozen', 'SOEC angular searches coarsened']
ASSUMPTIONS = ['a number cut short at the end of a file is the number the file then states',
               'a missing energy file of phonopy and a missing density mean 0, as documented']
FLOOR = {'absent': 1500, 'still_complete': 300}

OTHERS = ['qha', 'soec', 'eos', 'crystal', 'csoec', 'vasp', 'crystal-qha']


def one_damage(rng):
    how = rng.choice(['cut', 'cut', 'cutline', 'lines', 'lines', 'token', 'token', 'token', 'token', 'sector', 'tail',
                      'digit', 'digit', 'column', 'empty', 'other', 'edge', 'edge', 'block'])
    return [how, rng.randrange(1 << 30)]


def scenario(rng, idx, tier):
    cmd = rng.choice(['ha', 'ha', 'ha', 'qha', 'soec', 'soec', 'eosfit', 'eosfit', 'inpgen-ha', 'inpgen-ha',
                      'inpgen-ha', 'inpgen-soec', 'inpgen-soec'])
    j = J.job(rng, [cmd])
    if cmd == 'qha' and rng.random() < 0.7:
        j['opts'] = ['-T', '300.', '400.', '100.']
    if cmd == 'qha' and rng.random() < 0.15:
        # too few volumes for any dependence on volume
        j['spec']['nv'] = rng.choice([2, 3, 3])
        j['opts'] = ['--edeg', '1', '--fdeg', '1', '-T', '300.', '400.', '100.'][rng.choice([0, 2, 4]):]
    variants = []
    for _ in range(rng.randint(2, 3) if cmd == 'qha' else rng.randint(3, 6)):
        v = {'target': rng.randrange(64), 'damages': [one_damage(rng) for _ in range(rng.choice([1, 1, 1, 2]))]}
        if rng.random() < 0.12 and cmd in ('ha', 'qha', 'soec'):
            v['damages'] = [['crash', rng.randrange(1 << 30)]]
        if cmd == 'inpgen-ha' and j['list'] and rng.random() < 0.2:
            v['damages'] = [['foreign', rng.randrange(1 << 30)]]
        variants.append(v)
    return {'job': j, 'variants': variants}


def damage(b, d):
    """One loss on the bytes of a file."""
    how, seed = d
    r = random.Random(seed)
    if how == 'empty':
        return r.choice([b'', b'\n', b'   \n\n', b'\0' * len(b)])
    if how == 'other':
        k = r.choice(OTHERS)
        return G.TEXTS[k](G.SPECS[k](r)).encode()
    if not b:
        return b
    if how == 'cut':
        return b[:r.randrange(len(b))]
    lines = b.split(b'\n')
    dataline = [i for i, x in enumerate(lines) if any(48 <= c < 58 for c in x)] or [0]
    if how == 'cutline':
        i = r.choice(dataline)
        return b'\n'.join(lines[:i] + [lines[i][:r.randrange(len(lines[i]) + 1)]])
    if how in ('edge', 'block'):
        # blocks: runs of lines of the same make (words, numbers, values after a key, nothing)
        def make(x):
            k = x.split()
            return (not k, len(k) > 1 and b':' in x, sum(1 for y in k if y[:1] in b'+-.0123456789') * 2 > len(k))
        at = [i for i in range(1, len(lines)) if make(lines[i]) != make(lines[i - 1])] + [len(lines)]
        k = r.randrange(len(at))
        if how == 'edge':
            return b'\n'.join(lines[:at[k]]) + r.choice([b'', b'\n', b'\n\n', b'\n   \n'])
        lo = at[k - 1] if k else 0
        cut = r.choice([(lo, at[k]), (lo + 1, at[k]), (lo, at[k] - 1)])
        del lines[cut[0]:max(cut)]
        return b'\n'.join(lines)
    if how == 'lines':
        i = r.choice(dataline) if r.random() < 0.8 else r.randrange(len(lines))
        del lines[i:i + r.choice([1, 1, 1, 2, 5])]
        return b'\n'.join(lines)
    if how == 'token':
        i = r.choice(dataline) if r.random() < 0.9 else r.randrange(len(lines))
        ln = lines[i]
        spans, k = [], 0
        while k < len(ln):
            if ln[k:k + 1] not in b' \t,[]|':
                s = k
                while k < len(ln) and ln[k:k + 1] not in b' \t,[]|':
                    k += 1
                spans.append((s, k))
            else:
                k += 1
        if spans:
            s, k = r.choice(spans)
            ln = ln[:s] + r.choice([b'', b'', b' ' * (k - s), b'*' * (k - s), b'-', ln[s:k][:1],
                                       ln[s:k][:r.randrange(k - s + 1)]]) + ln[k:]
        lines[i] = ln
        return b'\n'.join(lines)
    if how == 'digit':
        i = r.choice(dataline)
        at = [k for k, c in enumerate(lines[i]) if 48 <= c < 58]
        if at:
            k = r.choice(at)
            lines[i] = lines[i][:k] + b'%d' % r.randrange(10) + lines[i][k + 1:]
        return b'\n'.join(lines)
    if how == 'sector':
        n = r.choice([8, 32, 64, 512])
        i = r.randrange((len(b) + n - 1) // n)
        f = r.choice(['zero', 'drop', 'ff', 'space', 'stale'])
        m = len(b[i * n:(i + 1) * n])
        stale = b[:m].ljust(m)
        f = {'zero': b'\0' * m, 'drop': b'', 'ff': b'\xff' * m, 'space': b' ' * m, 'stale': stale}[f]
        return b[:i * n] + f + b[(i + 1) * n:]
    if how == 'tail':
        i = r.randrange(len(b))
        return b[:i] + b'\0' * (len(b) - i)
    if how == 'column':
        i = r.choice(dataline)
        n = len(lines[i].split())
        k = r.randrange(n) if n else 0
        for q in range(i, min(i + r.choice([2, 6, 1000]), len(lines))):
            t = lines[q].split()
            if t and len(t) == n:
                del t[k]
                lines[q] = b' '.join(t)
        return b'\n'.join(lines)
    raise ValueError(how)


def roles(j, path):
    """Input files of the job: [(path, role)]"""
    if 'spec' in j:
        return [(path, 'main')]
    out = []
    for k, s in enumerate(j['specs']):
        p = 'in_%d' % k
        if s['kind'] == 'phonopy':
            out.append((p + '.yaml', 'mesh'))
            out.append((p + '_disp.yaml', 'disp'))
            if os.path.exists(p + '.xml'):
                out.append((p + '.xml', 'xml'))
        else:
            out.append((p + '.out', 'main'))
    if j.get('list'):
        out.append((path, 'list'))
    return out


def text(p):
    try:
        with open(p, 'rb') as f:
            return f.read().decode('utf-8')
    except (OSError, UnicodeDecodeError):
        return None


def strict_source(kind, p, lax=False):
    from dst.gen import strict
    t = text(p)
    if t is None:
        return None, 'not text'
    t = t.replace('\r\n', '\n').replace('\r', '\n')
    if kind == 'phonopy':
        b = os.path.splitext(p)[0]
        x = b + '.xml'
        ds = text(b + '_disp.yaml')
        if ds is None and os.path.exists(b + '_disp.yaml'):
            return None, 'not text'
        xt = text(x)
        if xt is None and os.path.exists(x):
            return None, 'not text'
        return strict.parse(kind, t, ds, xt, lax=lax)
    return strict.parse(kind, t, lax=True) if lax else strict.parse(kind, t)


def what_is_stated(j, path):
    """-> (model or list of models, None) or (None, why)"""
    if 'spec' in j:
        m, why = strict_source(j['spec']['kind'], path)
        if m is not None and j['cmd'] == 'qha' and len(m['volume']) < 4:
            return None, 'four volumes'
        return m, why
    kind = j['specs'][0]['kind']
    ps = ['in_0' + ('.yaml' if kind == 'phonopy' else '.out')]
    if j.get('list'):
        t = text(path)
        if t is None:
            return None, 'list is not text'
        ps = [x.rstrip() for x in t.splitlines()]
        if not ps:
            return None, 'empty list'
    ms = []
    for i, p in enumerate(ps):
        if not os.path.isfile(p):
            return None, 'no file %r' % p
        m, why = strict_source(kind, p, kind in ('crystal', 'phonopy') and i != j.get('ref', 0))
        if m is None:
            return None, '%s: %s' % (p, why)
        ms.append(m)
    if j['cmd'] == 'inpgen-ha' and kind != 'crystal-qha':
        if not 0 <= j.get('ref', 0) < len(ms):
            return None, 'no such reference'
        if len(set((m['natom'], m['nq']) for m in ms)) > 1:
            return None, 'sources of different crystals'
    return ms, None


def crash_images(j, seed):
    """Input text of j as left by a generating session stopped at some write."""
    from dst import sim
    r = random.Random(seed)
    if j['cmd'] == 'soec':
        k = r.choice(['csoec', 'vasp'])
        g = {'cmd': 'inpgen-soec', 'specs': [G.SPECS[k](r)], 'iface': 'crystal' if k == 'csoec' else 'vasp',
             'job': 'crash', 'out': 'gen', 'opts': []}
    else:
        s = [G.SPECS['crystal'](r, disp=r.random() < 0.5)]
        for _ in range(r.choice([0, 2, 6])):
            s.append(dict(s[0], seed=r.randrange(1 << 30)))
        g = {'cmd': 'inpgen-ha', 'specs': s, 'iface': 'crystal', 'list': True, 'job': 'crash', 'out': 'gen',
             'opts': [], 'ref': 0}
    return g, r


def execute(sc, ctx):
    from dst import sessions as S, sim, stubs, world
    from dst.world import World
    w = World(ctx)
    stubs.coarse_optimisers()
    stubs.coarse_angles()
    ctx.clock.on(step=0.)
    j = sc['job']
    path = S.setup(j)
    init = S.files()
    bad = False
    for v in sc['variants']:
        S.restore(init)
        rs = roles(j, path)
        target, role = rs[v['target'] % len(rs)]
        if v['damages'][0][0] == 'crash':
            g, r = crash_images(j, v['damages'][0][1])
            gp = J.put_input(g, 'src')
            before = S.files()
            ctx.disk.begin(os.getcwd(), data=True)
            J.run(g, gp, user=lambda t, n: 'crash')
            log = ctx.disk.log()
            ctx.disk.end()
            name = J.outpath(g, gp)
            at = [i for i, e in enumerate(log) if e.op == sim.WRITE and e.path == name and e.ret > 0]
            if not at:
                ctx.count('nothing_generated')
                continue
            k = r.choice(at)
            b = world.image(log, before, k + 1, r.randrange(log[k].ret + 1)).get(name, b'')
            S.restore(init)
        elif v['damages'][0][0] == 'foreign':
            r = random.Random(v['damages'][0][1])
            k = r.randrange(len(j['specs']))
            s = dict(j['specs'][k])
            f = r.choice([x for x in ('nat', 'nq') if x in s])
            s[f] = s[f] % 3 + 1
            target = G.write(s, 'in_%d' % k)
            b = init and open(target, 'rb').read()
        else:
            b = init[target]
            for d in v['damages']:
                b = damage(b, d)
            if role == 'disp' and not b and v['target'] % 2:
                b = None                              # never written
        if b is None:
            os.unlink(target)
        else:
            with open(target, 'wb') as f:
                f.write(b)
        for d in v['damages']:
            ctx.count('fault:' + d[0])
        m, why = what_is_stated(j, path)
        start = S.files()
        u = J.user(j)
        o = S.go(j, path, user=u)
        after = S.files()
        what = '%s on %s with %s %s' % (j['cmd'], j.get('spec', {}).get('kind') or j['specs'][0]['kind'], role,
                                        v['damages'])
        out = J.outpath(j, path)
        new = [p for p in after if p not in start and (p.endswith('.hdf5') or p == out)]
        visible = bool(o.exit or o.exc or S.BANNER in o.out + o.err)
        tag = j['cmd'] + ':' + role
        if m is None:
            bad = True
            ctx.count('absent')
            ctx.seen('absent', '%s|%s' % (j['cmd'], why[:30]))
            if new or o.announced():
                raise Violation('invented:' + tag, '%s: lacks %s, yet %s came out\n%s' % (
                    what, why, new or o.announced(), b[-600:] if b is not None else None))
            if not visible:
                raise Violation('silent:' + tag, '%s: lacks %s, yet no message\n%s' % (what, why, o.out[-600:]))
            if j['cmd'] == 'eosfit' and o.questions:
                raise Violation('invented:' + tag, '%s: lacks %s, yet the session went on' % (what, why))
            continue
        ctx.count('still_complete')
        if visible and not new:
            ctx.count('refused_though_complete')
            continue
        if j['cmd'] in J.GEN:
            if out not in after:
                continue
            t = after[out].decode()
            from dst.gen import strict
            if j['cmd'] == 'inpgen-ha':
                bad_ = strict.diff_generated(strict.generated(j['specs'][0]['kind'], m, j.get('ref', 0)), t)
            else:
                bad_ = strict.diff_soec(m[0], t)
            if bad_:
                raise Violation('other-values:' + tag, '%s: %s' % (what, bad_))
            ctx.count('agree')
            continue
        # the same job on a clean file with the values still stated
        S.restore(init)
        kind = j['spec']['kind']
        with open(path, 'w') as f:
            f.write(clean(kind, j['spec'], m))
        start2 = S.files()
        o2 = S.go(j, path, user=J.user(j))
        after2 = S.files()
        if (o2.exit or o2.exc or S.BANNER in o2.out + o2.err) and new:
            raise Violation('other-values:' + tag, '%s: results come out, but a clean file with the same values is '
                            'refused\n%s' % (what, (o2.out + o2.err)[-800:]))
        if nojob(o.out) != nojob(o2.out):
            raise Violation('other-values:' + tag, '%s: the session differs from one on a clean file: %s' % (
                what, world.where(nojob(o.out).encode(), nojob(o2.out).encode())))
        for p in sorted(set(after) | set(after2)):
            if p.endswith('.hdf5') and p not in init:
                a, c = (J.canon(p, x[p]) if p in x else None for x in (after, after2))
                d = world.diff_obs(strip(a), strip(c)) if a and c else 'one only'
                if d:
                    raise Violation('other-values:' + tag, '%s: %s differs from a run on a clean file: %s' % (
                        what, p, str(d)[:400]))
        ctx.count('agree')
    if bad:
        ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'cmd': j['cmd'], 'variants': [v['damages'] for v in sc['variants']]}


def strip(h):
    if isinstance(h, dict):
        return {k: v for k, v in h.items() if k != '@'}
    return {'?': h}


def nojob(t):
    """A report without the line that names the job."""
    return '\n'.join(x for x in t.split('\n') if not x.strip().startswith(('Job', 'Elastic analysis of')))


def clean(kind, spec, m):
    if kind == 'qha':
        m = dict(m, q=[q if isinstance(q, list) and len(q) == 3 else [0., 0., 0.] for q in m['q']], job='clean')
        return full_qha(m)
    if kind == 'soec':
        out = ['clean'] + [' '.join('%.17g' % x for x in r) for r in m['stiffness']]
        if m['density']:
            out.append('%.17g' % m['density'])
        return '\n'.join(out) + '\n'
    cols = sorted(m['data'])
    out = ['Job', 'clean', 'Format', ' '.join(cols), 'Data']
    for i in range(len(m['data']['p'])):
        out.append(' '.join('%.17g' % m['data'][c][i] for c in cols))
    return '\n'.join(out) + '\n'


def fl(x):
    s = '%.17g' % x
    return s if '.' in s or 'n' in s else s.replace('e', '.0e') if 'e' in s else s + '.0'


def full_qha(m):
    out = ['job: clean', 'natom: %d' % m['natom'], 'supercell:']
    out += ['- [ %d, %d, %d ]' % tuple(r) for r in m['supercell']]
    out += ['qpoints: %d' % m['qpoints'], 'volume: [ ' + ', '.join(map(fl, m['volume'])) + ' ]',
            'energy: [ ' + ', '.join(map(fl, m['energy'])) + ' ]', 'phonon:']
    for i in range(m['qpoints']):
        out += ['- q-position: [ 0.0, 0.0, 0.0 ]', '  weight: ' + fl(m['weights'][i]), '  band:']
        for b in m['freq'][i]:
            out += ['  - frequency: [ ' + ', '.join(map(fl, b)) + ' ]']
    return '\n'.join(out) + '\n'


def shrink(sc, extra):
    for x in shrink_list(sc['variants']):
        if x:
            yield dict(sc, variants=x)
    for k, v in enumerate(sc['variants']):
        if len(v['damages']) > 1:
            for x in shrink_list(v['damages']):
                if x:
                    n = copy.deepcopy(sc)
                    n['variants'][k]['damages'] = x
                    yield n
    j = sc['job']
    if j['opts']:
        yield dict(sc, job=dict(j, opts=[]))
    for f in ('quiet', 'debug', 'out'):
        if j.get(f):
            yield dict(sc, job=dict(j, **{f: None if f == 'out' else False}))
