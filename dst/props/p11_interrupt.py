"""P11: interrupting a job at any point loses only that job."""
import copy
import os
import random

from dst.engine import Violation, digest, shrink_list
from dst.gen import jobs as J

LEVEL = 'exploration'
RUNS = {'quick': 520, 'thorough': 12000}
TIMEOUT = 90.0
RULE = ('A run = one session (any command, random input, options, answers, 2 in 5 over earlier outputs) played '
        'undisturbed, then 4 chains, each in one contained process: 1-3 interrupted sessions (Ctrl-C or failed '
        'allocation at a seeded executed line of the package - most at a seeded distinct source line, a quarter at one '
        'under an exception handler -, 1-3 '
        'refused allocations in native code, Ctrl-C or end of input at a seeded question) and then the same job '
        'undisturbed, over the restored folder or over what the interrupted ones left, in that process or a new one. '
        'Judged: end visible or results unchanged, existing files, announcements, results file left behind (opened by '
        'a real export session), and equality of the retried job. Non-trivial: an event took effect; distinct by '
        'history digest.')
REAL = ['whole CLI sessions of /repo', 'h5py/HDF5, numpy, scipy under refused allocations']
STUB = ['interrupt and allocator (events injected)', 'clock frozen', 'terminal (simulated user)',
        'SOEC angular searches coarsened']
ASSUMPTIONS = ['a Ctrl-C is noticed by the interpreter between two source lines',
               'libraries report a refused allocation to their caller']
FLOOR = {'interrupted': 2000, 'retried': 1500}


def event(rng):
    k = rng.choice(['int', 'int', 'int', 'mem', 'mem', 'alloc', 'alloc', 'ask'])
    e = {'k': k, 'at': rng.random(), 'site': rng.random() < 0.5,
         'guarded': rng.random() < 0.25}
    if k == 'alloc':
        e['min'] = rng.choice([64, 512, 1024, 4096, 65536])
        e['n'] = rng.choice([1, 1, 2, 3])
    if k == 'ask':
        e['how'] = rng.choice(['eof', 'int'])
    return e


def scenario(rng, idx, tier):
    j = J.job(rng, rng.choice([None, ['ha', 'qha', 'soec'], ['inpgen-ha', 'inpgen-soec'], ['eosfit'],
                               ['export-ha', 'export-qha', 'export-soec']]), polar=0.3)
    j['yes'] = True
    j['debug'] = False
    return {'job': j, 'before': rng.random() < 0.4,
            'chains': [{'events': [event(rng) for _ in range(rng.choice([1, 1, 2, 3]))],
                        'mode': rng.choice(['same', 'same', 'left', 'left-other'])} for _ in range(4)]}


def play(j, path, ctx, root, ev=None, tools=None, data=False):
    """One session. ev: None, or (kind, number, ...). -> Out with .files"""
    from dst import sessions, sim
    mem = sim.Memory()
    bomb, kw, hook, done, n = None, {}, None, None, {}
    if tools == 'lines':
        bomb = sim.LineBomb(1 << 60, KeyboardInterrupt)
    elif tools and tools[0] == 'alloc':
        def hook():
            mem.arm(tools[1], 1 << 60)

        def done():
            n['alloc'] = mem.off()
    if ev and ev[0] in ('int', 'mem'):
        bomb = sim.LineBomb(ev[1], {'int': KeyboardInterrupt, 'mem': MemoryError}[ev[0]])
    if ev and ev[0] == 'alloc':
        def hook():
            mem.arm(ev[2], ev[1], ev[3])

        def done():
            n['fired'] = mem.fired()
            mem.off()
    if ev and ev[0] == 'ask':
        kw['stop'] = ev[1:]
    if bomb:
        hook = bomb.install
    try:
        o = sessions.go(j, path, ctx.disk, root, (), user=J.user(j, **kw), data=data, hook=hook, done=done)
    finally:
        if bomb:
            bomb.remove()
    o.files = sessions.files()
    o.lines = bomb.count if bomb else 0
    o.sites = sorted(bomb.sites.values()) if bomb else []
    o.guarded = sorted(bomb.guarded) if bomb else []
    o.allocs = n.get('alloc', 0)
    o.hit = (bomb.fired if bomb else None) or n.get('fired') or (ev and ev[0] == 'ask' and len(o.questions) > ev[1])
    return o


def execute(sc, ctx):
    from dst import sessions, sim, stubs
    from dst.props.p07_results import export_all
    from dst.world import Died, World, contained, quietly, where
    World(ctx)
    root = os.getcwd()
    stubs.coarse_optimisers()
    stubs.coarse_angles()
    ctx.clock.on(step=0.)
    j = sc['job']
    kind = j['cmd']
    path = sessions.setup(j)
    log = os.path.normpath(J.logpath(j, path)) if kind in J.CALC else None
    out = os.path.normpath(J.outpath(j, path)) if J.outpath(j, path) else None
    if sc['before']:
        quietly(lambda: J.run(j, path, user=J.User(1, True, 'before', 2)) and None)
    init = sessions.files()
    cache = {}

    def canon(fs):
        # by the parent, whose libraries never saw a fault
        r = {}
        for p, b in fs.items():
            k = (p, b)
            if k not in cache:
                cache[k] = J.canon(p, b)
            r[p] = cache[k]
        return r
    plain = contained(play, j, path, ctx, root, None, 'lines')
    raw = plain.files
    plain.files = canon(raw)
    allocs = {}
    ctx.seen('commands', kind)
    whole = None
    hit = 0

    def resolve(e):
        if e['k'] in ('int', 'mem'):
            if not plain.lines:
                return None
            if e.get('guarded') and plain.guarded:
                return (e['k'], plain.guarded[int(e['at'] * len(plain.guarded))])
            if e['site']:
                return (e['k'], plain.sites[int(e['at'] * len(plain.sites))])
            return (e['k'], 1 + int(e['at'] * plain.lines))
        if e['k'] == 'alloc':
            if e['min'] not in allocs:
                sessions.restore(init)
                allocs[e['min']] = contained(play, j, path, ctx, root, None, ('alloc', e['min'])).allocs
            n = allocs[e['min']]
            return ('alloc', int(e['at'] * n), e['min'], e['n']) if n else None
        if not plain.questions:
            return None
        return ('ask', int(e['at'] * len(plain.questions)), e['how'])

    def judge(o, ev, before, who):
        """One interrupted session that started over folder `before`."""
        agreed = any('verwrite' in q for q in o.questions)
        for p in sorted(before):
            if o.files.get(p) != before[p] and p != log:
                if agreed and (p == out or p.endswith('.dat')):
                    continue
                raise Violation('existing:' + kind, '%s: existing file %s changed (%s)' % (
                    who, p, 'gone' if p not in o.files else where(before[p], o.files[p])))
        opens = {}
        for d in o.log:
            if d.op == sim.OPEN and d.a & 3 and d.path:
                opens[os.path.normpath(d.path)] = opens.get(os.path.normpath(d.path), 0) + 1
        said = o.announced()
        for p in said:
            n = os.path.normpath(p)
            if p in plain.announced() and (n.endswith('.hdf5') or opens.get(n, 0) <= said.count(p)):
                if canon({n: o.files.get(n, b'')})[n] != plain.files.get(n):
                    raise Violation('announced:' + kind, '%s: announced %s, which is %s' % (
                        who, p, 'not there' if n not in o.files else 'not what was announced'))
        if not o.hit:
            return False
        if not o.failed(plain) and before == init:
            # ended by itself: nothing may be different
            for f in ('exit', 'out', 'err'):
                if getattr(o, f) != getattr(plain, f):
                    raise Violation('silent:' + kind, '%s: no error shown, but %s differs: %s' % (
                        who, f, where(str(getattr(plain, f)), str(getattr(o, f)))))
            of = canon(o.files)
            for p in sorted(set(plain.files) | set(of)):
                if plain.files.get(p) != of.get(p):
                    raise Violation('silent-file:' + kind, '%s: no error shown, but %s differs' % (who, p))
            ctx.count('survived')
        return True

    for ch in sc['chains']:
        evs = [e for e in (resolve(e) for e in ch['events']) if e]
        # libraries do not promise to work on after a refused allocation: it
        # comes last, and the retry is in a new process
        native = [e for e in evs if e[0] == 'alloc'][:1]
        evs = [e for e in evs if e[0] != 'alloc'] + native
        if not evs:
            continue
        who = 'session %s, %s' % ([kind] + j['opts'], '; then '.join(
            {'int': 'Ctrl-C at executed line %s', 'mem': 'MemoryError at executed line %s',
             'alloc': 'allocations refused from number %s', 'ask': 'stop at question %s'}[e[0]] % (e[1],) for e in evs))
        sessions.restore(init)

        def chain():
            done = []
            for e in evs:
                if ch['mode'] == 'same':
                    sessions.restore(init)
                done.append(play(j, path, ctx, root, e))
            left = sessions.files()
            if ch['mode'] == 'same':
                sessions.restore(init)
            again = play(j, path, ctx, root) if ch['mode'] != 'left-other' and not native else None
            return done, left, again
        try:
            done, left, again = contained(chain)
        except Died as e:
            ctx.count('native_crashes')
            sim.EV.add('died', e.signal)
            # a crash is visible; what it left is judged by the retry
            done, left, again = [], sessions.files(), None
            if ch['mode'] == 'same':
                sessions.restore(init)
        before = init
        for o, e in zip(done, evs):
            if judge(o, e, before, who):
                hit += 1
                ctx.count('interrupted')
                ctx.count('event_' + e[0])
                if isinstance(o.hit, str):
                    ctx.seen('lines', o.hit)
            before = init if ch['mode'] == 'same' else o.files
        # ---- a results file left behind: refused, or complete
        if kind in ('ha', 'qha', 'soec') and out in left and left[out] != init.get(out) \
                and canon({out: left[out]})[out] != plain.files.get(out):
            def tables(data):
                os.makedirs('img', exist_ok=True)
                with open('img/x.hdf5', 'wb') as f:
                    f.write(data)
                return quietly(export_all, kind, 'x.hdf5')
            t = tables(left[out])
            ctx.count('left_behind')
            if t == 'refused':
                ctx.count('left_refused')
            else:
                if whole is None:
                    whole = tables(raw[out]) if out in raw else {}
                if t != whole:
                    raise Violation('left-loadable:' + kind, '%s: the export command accepts the results file left behind '
                                    'and gives %s' % (who, t if t == 'hangs' else 'tables %s, complete: %s' % (
                                        sorted(t), sorted(whole))))
            if os.path.isdir('img'):
                import shutil
                shutil.rmtree('img')
            sessions.restore(init if ch['mode'] == 'same' else left)
        if again is None:
            sessions.restore(init if ch['mode'] == 'same' else left)
            again = contained(play, j, path, ctx, root)
        again.files = canon(again.files)
        ctx.count('retried')
        same = ch['mode'] == 'same'
        for f in ('exit', 'exc') + (('out', 'err') if same else ()):
            if getattr(again, f) != getattr(plain, f):
                raise Violation('retry-%s:%s' % (f, kind), '%s (%s): the same job run again differs in %s: %s' % (
                    who, ch['mode'], f, where(str(getattr(plain, f)), str(getattr(again, f)))))
        for p in sorted(set(plain.files) | (set(again.files) if same else set())):
            if plain.files.get(p) != again.files.get(p):
                if not same and (kind == 'eosfit' or kind.startswith('export')):
                    # other questions were asked over the leftovers, so other choices were made
                    continue
                a, b = plain.files.get(p), again.files.get(p)
                raise Violation('retry-file:' + kind, '%s (%s): the same job run again gives another %s: %s' % (
                    who, ch['mode'], p, where(a, b) if isinstance(a, (bytes, type(None))) and isinstance(
                        b, (bytes, type(None))) else 'datasets'))
    if hit:
        ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'job': [kind] + j['opts'], 'chains': len(sc['chains']), 'lines': plain.lines}


def shrink(sc, extra):
    for cs in shrink_list(sc['chains']):
        if cs:
            yield dict(sc, chains=cs)
    for k, c in enumerate(sc['chains']):
        for es in shrink_list(c['events']):
            if es:
                n = copy.deepcopy(sc)
                n['chains'][k]['events'] = es
                yield n
        if c['mode'] != 'same':
            n = copy.deepcopy(sc)
            n['chains'][k]['mode'] = 'same'
            yield n
    if sc['before']:
        yield dict(sc, before=False)
    for f, z in (('quiet', False), ('out', None), ('opts', [])):
        if sc['job'][f] != z and not (f == 'opts' and sc['job']['cmd'] == 'export-soec'):
            n = copy.deepcopy(sc)
            n['job'][f] = z
            yield n
