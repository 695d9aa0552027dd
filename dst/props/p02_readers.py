"""P02: what a reader reports is what its file says - whatever else was or is
being read in the process, by whichever thread."""
import copy
import os
import random

from dst.engine import Violation, digest, shrink_list
from dst.gen import files as G

LEVEL = 'exploration'
RUNS = {'quick': 1500, 'thorough': 24000}
TIMEOUT = 10.0
RULE = ('A run = a seeded history of 2-7 reads (all eight formats, some damaged files) in one process, '
        'either one after the other with earlier readers still held and files that get another content in place, or by 2-3 caller threads switched at '
        'seeded executed lines. Every reader is observed after its own read and again at the end; both '
        'must equal a read of the same file alone in a pristine process, and the data the file states. '
        'Non-trivial: 2+ reads of which two share a format, or a thread switch inside a read; distinct by '
        'the list of (format, file seed, damage) and the switch trace.')
REAL = ['quantas.IO readers, quantas.interfaces readers, PyYAML, xml.etree, numpy']
STUB = ['thread scheduler (one caller thread at a time, seeded preemption per executed line)']
ASSUMPTIONS = ['thread switches happen between Python source lines of the package']
FLOOR = {'switches': 100}


def readers():
    from quantas.IO.eos_reader import EoSInputFileReader
    from quantas.IO.qha_reader import QHAInputFileReader
    from quantas.IO.soec_reader import SOECInputFileReader
    from quantas.interfaces.crystal import CrystalPhononReader, CrystalQHAReader, CrystalSOECReader
    from quantas.interfaces.phonopy import PhonopyReader
    from quantas.interfaces.vasp import VASPSOECReader
    return {'qha': QHAInputFileReader, 'soec': SOECInputFileReader, 'eos': EoSInputFileReader,
            'crystal': CrystalPhononReader, 'crystal-qha': CrystalQHAReader,
            'csoec': CrystalSOECReader, 'vasp': VASPSOECReader, 'phonopy': PhonopyReader}


DAMAGE = ['cut', 'cut', 'word', 'dropline', 'other']


def scenario(rng, idx, tier):
    kinds = sorted(G.SPECS)
    focus = rng.choice(kinds)
    files = []
    for i in range(rng.randint(2, 6 if tier == 'quick' else 7)):
        k = focus if rng.random() < 0.6 else rng.choice(kinds)
        s = G.SPECS[k](rng)
        d = None
        if rng.random() < 0.25:
            d = [rng.choice(DAMAGE), rng.randrange(1 << 20)]
        files.append({'spec': s, 'damage': d})
    order = list(range(len(files)))
    if rng.random() < 0.3:
        order.append(rng.choice(order))        # the same file again, a new reader
    thr = rng.choice([0, 0, 0, 2, 3])
    # files that get another content, under the same name, between two reads
    again = {}
    if not thr and rng.random() < 0.4:
        for k in rng.sample(range(len(files)), min(len(files), rng.choice([1, 1, 2]))):
            s = copy.deepcopy(files[k]['spec'])
            s['seed'] = rng.randrange(1 << 30)
            files.append({'spec': s, 'damage': None, 'over': k, 'clock': rng.random() < 0.6})
            order.insert(rng.randint(order.index(k) + 1, len(order)), len(files) - 1)
    return {'files': files, 'order': order, 'threads': thr, 'tseed': rng.randrange(1 << 30),
            'rate': rng.choice([0.3, 0.1, 0.03]), 'plan': None}


def write(i, f):
    if 'over' in f:
        return over(f)
    base = 'f%d' % i
    p = G.write(f['spec'], base)
    d = f['damage']
    if d:
        with open(p) as h:
            t = h.read()
        r = random.Random(d[1])
        if d[0] == 'cut':
            t = t[:r.randrange(len(t))]
        elif d[0] == 'word':
            w = t.split(' ')
            w[r.randrange(len(w))] = 'what?'
            t = ' '.join(w)
        elif d[0] == 'dropline':
            ls = t.split('\n')
            del ls[r.randrange(len(ls))]
            t = '\n'.join(ls)
        else:
            t = 'not a file of this kind\n' * 3
        with open(p, 'w') as h:
            h.write(t)
    return p


def over(f):
    """Another content for a file: same name and inode; the same length where
    blank lines can make up for it, and the same times if the clock stood still"""
    base = 'f%d' % f['over']
    old = {p: os.stat(p) for p in os.listdir('.') if p.startswith(base + '.') or p.startswith(base + '_')}
    p = G.write(f['spec'], base)
    for q in sorted(old):
        n = old[q].st_size - os.path.getsize(q)
        if n > 0 and not q.endswith('.xml'):
            with open(q, 'a') as h:
                h.write('\n' * n)
        if f['clock']:
            os.utime(q, ns=(old[q].st_atime_ns, old[q].st_mtime_ns))
    return p


def read(kind, path):
    """-> (observation, reader or None)"""
    from dst.world import observe
    try:
        r = readers()[kind](path)
    except Exception as e:
        return {'raises': type(e).__name__}, None
    return observe(r), r


LIMIT = 400000


def guarded(kind, path):
    """A read that must end: alone, with a budget of executed lines."""
    import sys
    from dst import sim
    b = sim.LineBomb(-1, RuntimeError, budget=LIMIT)
    b.install()
    try:
        return read(kind, path)[0]
    except sim.StepLimit:
        return 'endless'
    finally:
        b.remove()


def stated(kind, m):
    """The numbers a well-formed file states, by the reader's public names."""
    import numpy as np
    if kind == 'qha':
        return {'volume': m['volume'] if len(m['volume']) > 1 else None, 'energy': None,
                'frequencies': m['freq'], 'weights': m['weights'], 'qpoints': m['qpoints'],
                'natoms': m['natom'], 'jobname': m['job'] or 'Unknown',
                'kpoints': int(round(np.linalg.det(m['supercell']))), 'total_q_points': sum(m['weights'])}
    if kind == 'soec':
        return {'stiffness': m['stiffness'], 'density': m['density'], 'jobname': m['job'] or 'Unknown'}
    if kind == 'eos':
        d = m['data']
        return {'pressure': d['p'], 'volume': d.get('v'), 'a': d.get('a'), 'b': d.get('b'), 'c': d.get('c'),
                'sigma_p': d.get('sigmap'), 'sigma_v': d.get('sigmav'), 'sigma_a': d.get('sigmaa'),
                'sigma_b': d.get('sigmab'), 'sigma_c': d.get('sigmac'), 'jobname': m['job'] or 'Unknown'}
    if kind in ('csoec', 'vasp'):
        return {'stiffness': m['stiffness'], 'density': m['density']}
    if kind == 'crystal':
        return {'natom': m['natom'], 'volume': m['volume'], 'energy': m['energy'], 'kpoints': m['kp'],
                'qpoints': m['nq'], 'phonons': {i: m['freq'][i] for i in range(m['nq'])},
                'weights': {i: m['w'][i] for i in range(m['nq'])},
                'qcoords': {i: m['q'][i] for i in range(m['nq'])}}
    if kind == 'crystal-qha':
        return {'natom': m['natom'], 'volume': m['volume'], 'energy': m['energy'], 'kpoints': m['kp'],
                'points': m['nv'], 'qpoints': m['kp'], 'phonons': {i: m['freq'][i] for i in range(m['kp'])}}
    if kind == 'phonopy':
        return {'natom': m['natom'], 'volume': m['volume'], 'energy': m['energy'], 'qpoints': m['nq'],
                'phonons': {i: m['freq'][i] for i in range(m['nq'])},
                'weights': {i: m['w'][i] for i in range(m['nq'])},
                'qcoords': {i: m['q'][i] for i in range(m['nq'])}, 'dim': m['dim']}


def check_stated(kind, r, want):
    import numpy as np

    def same(a, b):
        if isinstance(b, dict):
            return set(a) == set(b) and all(same(a[k], b[k]) for k in b)
        if isinstance(b, str):
            return a == b
        if b is None:
            return a is None
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12)
    for k, v in want.items():
        if k == 'energy' and v is None or (kind == 'qha' and v is None):
            continue
        try:
            got = getattr(r, k)
            ok = same(got, v)
        except Exception as e:
            got, ok = repr(e), False
        if not ok:
            return k, got, v
    return None


def execute(sc, ctx):
    from dst import sim
    from dst.world import World, diff_obs, observe, quietly
    w = World(ctx)
    paths = [None if 'over' in f else write(i, f) for i, f in enumerate(sc['files'])]
    kinds = [f['spec']['kind'] for f in sc['files']]
    alone = {}

    def first(i):
        alone[i] = quietly(guarded, kinds[i], paths[i])
        ctx.seen('formats', kinds[i])
        if alone[i] == 'endless':
            raise Violation('endless:' + kinds[i], 'reading %s did not end within %d executed lines' % (
                describe(sc, i), LIMIT))
    for i in sorted(set(sc['order'])):
        if paths[i]:
            first(i)
    ctx.count('reads', len(sc['order']))
    ctx.extra = None
    got = []
    holds = {}                     # which content a path has now

    def one(i):
        return read(kinds[i], paths[i])
    if sc['threads']:
        n = sc['threads']
        share = [[] for _ in range(n)]
        for k, i in enumerate(sc['order']):
            share[k % n].append(i)

        def job(lst):
            return [(i,) + one(i) for i in lst]
        b = sim.Baton(random.Random(sc['tseed']), sc['rate'], sc['plan'])
        res = b.run([('t%d' % k, (lambda l=l: job(l))) for k, l in enumerate(share)])
        ctx.count('switches', len(b.trace))
        ctx.extra = {'trace': b.trace}
        for name in sorted(res):
            kind, val = res[name]
            if kind == 'exc':
                raise val
            got += val
        tr = tuple(b.trace)
    else:
        for i in sc['order']:
            slot = sc['files'][i].get('over', i)
            if holds.get(slot, slot) != i:
                holds[slot] = i
                f = sc['files'][i]
                paths[i] = over(dict({'over': i, 'clock': True}, **f)) if not f['damage'] else write(i, f)
                first(i)
                ctx.count('rewritten')
            got.append((i,) + one(i))
        tr = ()
    for i, o, r in got:
        sim.EV.add('read', i, sorted(o.items(), key=lambda t: t[0]) if isinstance(o, dict) else o)
    ks = [kinds[i] for i in sc['order']]
    if len(set(ks)) < len(ks) or tr:
        ctx.nontrivial = repr([(f['spec'], f['damage']) for f in sc['files']]) + repr(sc['order']) + repr(tr)
        ctx.nontrivial = digest([ctx.nontrivial])
        ctx.sample = {'reads': ks, 'threads': sc['threads'], 'switches': len(tr)}
    for i, o, r in got:
        d = diff_obs(alone[i], o)
        if d:
            raise Violation('history:%s' % kinds[i], 'read %s among %s: %s is %s, alone it is %s' % (
                describe(sc, i), [describe(sc, j) for j in sc['order']], d[0], short(d[2]), short(d[1])))
    for i, o, r in got:
        if r is None:
            continue
        o2 = observe(r)
        d = diff_obs(o, o2)
        if d:
            raise Violation('later:%s' % kinds[i], 'reader of %s changed after further reads: %s was %s, now %s' % (
                describe(sc, i), d[0], short(d[1]), short(d[2])))
    for i, o, r in got:
        if sc['files'][i]['damage']:
            continue
        k = kinds[i]
        if r is None or not r.completed or r.error is not None:
            raise Violation('refused:' + k, 'well-formed %s refused: %s' % (
                describe(sc, i), o.get('raises') or r.error))
        bad = check_stated(k, r, stated(k, G.MODELS[k](sc['files'][i]['spec'])))
        if bad:
            raise Violation('value:%s:%s' % (k, bad[0]), '%s: %s reported as %s, the file states %s' % (
                describe(sc, i), bad[0], short(bad[1]), short(bad[2])))
        ctx.count('values_checked')


def short(x):
    return repr(x)[:300]


def describe(sc, i):
    f = sc['files'][i]
    return 'f%d(%s%s)' % (i, f['spec']['kind'], ' ' + f['damage'][0] if f['damage'] else '')


def shrink(sc, extra):
    def v(**kw):
        n = copy.deepcopy(sc)
        n.update(kw)
        return n
    if sc['plan'] is None:
        for o in shrink_list(sc['order']):
            if o:
                yield v(order=o)
        if sc['threads']:
            yield v(threads=0)
            if sc['threads'] > 2:
                yield v(threads=2)
        used = set(sc['order'])
        for i in used:
            if sc['files'][i]['damage']:
                n = v()
                n['files'][i]['damage'] = None
                yield n
            for k, val in sc['files'][i]['spec'].items():
                if k in ('nat', 'nq') and val > 1:
                    n = v()
                    n['files'][i]['spec'][k] = 1
                    yield n
        if extra and extra.get('trace') and sc['threads']:
            yield v(plan=[list(t) for t in extra['trace']])
    else:
        for p in shrink_list(sc['plan']):
            yield v(plan=p)
