"""P13: interactive EoS fitting uses exactly what the user chose last."""
import copy
import math
import random
import re

from dst.engine import Violation, digest, shrink_list
from dst.gen import files as G
from dst.gen import jobs as J

LEVEL = 'exploration'
RUNS = {'quick': 1700, 'thorough': 40000}
TIMEOUT = 60.0
RULE = ('A run = 1-2 eosfit sessions in one process, each with a seeded simulated user: 1-8 fits over changing data '
        '(volume, axes), formulations and orders, entered, fixed, weighted and updated parameters, odd values (0, '
        'negative, huge, nan), invalid answers at every question, and in 1 of 6 an end of input or Ctrl-C at a seeded '
        'question. A state machine replays the transcript in a process that never ran a session: each next question, '
        'its default, the parameters shown, and each report (formulation, order, weights, fixed, parameters, data, '
        'calculated pressures) must be those of its own regression on its own choices. Non-trivial: 2+ fits, or an '
        'invalid answer; distinct by history digest.')
REAL = ['eosfit sessions of /repo', 'scipy.odr', 'click']
STUB = ['terminal (simulated user)', 'clock frozen']
ASSUMPTIONS = ['the regression of scipy.odr is a function of its arguments',
               'the formulas of the equations of state are those of the package for the regression, independent ones '
               'for the calculated pressures']
FLOOR = {'fits': 2500, 'invalid_answers': 1000, 'updates': 300}

NAMES = {'1': 'Murnaghan', '2': 'BirchMurnaghan', '3': 'NaturalStrain', '4': 'Vinet', '5': 'Tait'}
TITLES = {'v': 'Volume', 'a': 'a-axis', 'b': 'b-axis', 'c': 'c-axis'}
ORDERS = {'1': [3], '2': [2, 3, 4], '3': [2, 3, 4], '4': [2, 3], '5': [2, 3, 4]}
IMPLIED = {2: [1, 2], 3: [2], 4: []}
BAD = ['what?', '-1', '99', 'Y E S', '   ', 'v v', '\u00e9', '1e9999', 'nan', 'yy', 'vv', '0', '[', '1,2', 'None', '?']
BADNUM = ['what?', 'x', '   ', '1,5', '\u00e9', '--', '1e', '[4]', 'None', '4 5']


def scenario(rng, idx, tier):
    ss = []
    for _ in range(rng.choice([1, 1, 2])):
        s = G.eos_spec(rng)
        s['axes'] = rng.choice(['', 'a', 'abc', 'ac', 'b'])
        if rng.random() < 0.12:
            s['n'] = rng.choice([1, 2, 3, 4, 5])
        ss.append({'spec': s, 'useed': rng.randrange(1 << 30), 'fits': rng.choice([1, 2, 3, 4, 6, 8]),
                   'bad': rng.choice([0., 0., .08, .25]), 'odd': rng.choice([0., 0., .1, .4]),
                   'stop': [rng.randrange(60), rng.choice(['eof', 'int'])] if rng.random() < 0.17 else None})
    return {'sessions': ss, 'name': rng.choice(['in', 'in', 'sub/x.1'])}


class Human(object):
    """Chooses answers; knows only the question in front of it."""

    def __init__(self, s):
        self.r = random.Random(s['useed'])
        self.s, self.fits = s, s['fits']
        self.screen = ''
        self.asked = 0

    def __call__(self, shown, n):
        from dst import sim
        self.asked += 1
        if self.s['stop'] and n >= self.s['stop'][0]:
            return sim.EOF if self.s['stop'][1] == 'eof' else sim.CTRL_C
        r, s = self.r, self.s
        self.screen = (self.screen + '\n' + plain(shown))[-4000:]
        kind, arg = question(self.screen)
        if r.random() < s['bad']:
            return r.choice(BADNUM if kind == 'val' else BAD)
        yes = r.choice(['y', 'yes', 'Y', 'YES'])
        no = r.choice(['n', 'no', 'N', '', ''])
        if kind == 'data':
            ks = re.findall(r'(?m)^ *([vabc])\. ', self.screen[self.screen.rfind('DATA SELECTION'):])
            return r.choice(ks or ['v'])
        if kind == 'eos':
            return r.choice(['', '1', '2', '2', '3', '4', '5'])
        if kind == 'order':
            ks = re.findall(r'(?m)^ - (\d)', self.screen[self.screen.rfind('EOS ORDER'):])
            return r.choice(ks + [''])
        if kind == 'mod':
            return yes if r.random() < 0.3 else no
        if kind == 'val':
            if r.random() < s['odd']:
                return r.choice(['0', '-1', '-50.5', '1e300', 'nan', 'inf', '1e-300', '0.0', '-0', '1e5', ' 4.5 ', '12'])
            try:
                d = float(arg)
            except ValueError:
                return ''
            return r.choice(['', '', '%.3f' % (d * r.uniform(.95, 1.05)), repr(d * r.uniform(.98, 1.02)), '%g' % d])
        if kind == 'fix':
            return yes if r.random() < 0.4 else no
        if kind == 'fixone':
            return yes if r.random() < 0.35 else no
        if kind in ('weight', 'use'):
            return r.choice(['', yes, yes, 'n', 'no'])
        if kind == 'update':
            return yes if r.random() < 0.55 else no
        if kind == 'more':
            self.fits -= 1
            if self.fits <= 0:
                return no
            return yes if r.random() < 0.75 else no
        if kind == 'change':
            return yes if r.random() < 0.5 else no
        if kind == 'other':
            return yes if self.fits > 0 else no
        return ''


def plain(t):
    return re.sub('\x1b\\[[0-9;?]*[a-zA-Z]', '', t)


KINDS = [('data', r'Select the values to fit(.*)'), ('eos', r'Select an EoS formulation(.*)'),
         ('order', r'Select the order of the EoS(.*)'), ('mod', r'modify any of the EoS parameters(.*)'),
         ('fix', r'fix any of the EoS parameters(.*)'), ('fixone', r'Fix (.*)'),
         ('weight', r'weight the data(.*)'), ('use', r'Use weights for (.*)'),
         ('update', r'Update the parameters(.*)'), ('more', r'continue fitting on the same(.*)'),
         ('change', r'change the EoS(.*)'), ('other', r'fit other data(.*)'),
         ('val', r"(\S+) +\[([^\]]*)\]: *$")]


def question(screen):
    """-> (kind, its default or label) of the last line shown"""
    last = screen.rsplit('\n', 1)[-1]
    for k, p in KINDS:
        m = re.search(p, last)
        if m:
            return k, m.group(2) if k == 'val' else m.group(1)
    return '?', last


# --------------------------------------------------------------------- the model
def formula(name, p, V, order, linear):
    """Pressures, by published forms of the equations of state."""
    import numpy as np
    K, K1, K2, V0 = (np.float64(x) for x in p)
    x = V / V0
    if name == 'Murnaghan':
        return K / K1 * (x ** -K1 - 1.)
    if name == 'BirchMurnaghan':
        if order < 4:
            K2 = -((3. - K1) * (4. - K1) + 35. / 9.) / K
        f = (x ** (-2. / 3.) - 1.) / 2.
        return 3. * K * f * (1 + 2 * f) ** 2.5 * (1 + 1.5 * (K1 - 4.) * f + 1.5 * (
            K * K2 + (K1 - 4.) * (K1 - 3.) + 35. / 9.) * f * f)
    if name == 'NaturalStrain':
        if order < 4:
            K2 = -(1. + (K1 - 2.) + (K1 - 2.) ** 2) / K
        f = -np.log(x) / 3.
        return 3. * K / x * f * (1. + 1.5 * (K1 - 2.) * f + 1.5 * (1. + K * K2 + (K1 - 2.) + (K1 - 2.) ** 2) * f * f)
    if name == 'Vinet':
        y = x ** (1. / 3.)
        return 3. * K * (1. - y) / y ** 2 * np.exp(1.5 * (K1 - 1.) * (1. - y))
    if order < 4:
        K2 = -K1 / K
    a = (1. + K1) / (1. + K1 + K * K2)
    b = K1 / K - K2 / (1. + K1)
    c = (1. + K1 + K * K2) / (K1 ** 2 + K1 - K * K2)
    return (((x + a - 1.) / a) ** (-1. / c) - 1.) / b


def guess(V, P, linear):
    """Starting values: cubic fits of V(P) and P(V)."""
    import numpy as np
    V0 = np.polyval(np.polyfit(P, V, 3), 0.)
    K0 = -V0 * np.polyval(np.polyder(np.polyfit(V, P, 3), m=1), V0)
    return [float(K0) * (3. if linear else 1.), 4., 0., float(V0)]


def regression(form, order, linear, V, P, start, sv, sp, free):
    """-> (info, beta, sd) or None if it raises"""
    import numpy as np
    from scipy.odr import ODR, Model, RealData
    from quantas.eosfit.utils import pv_eos
    eos = getattr(pv_eos, NAMES[form])()
    try:
        o = ODR(RealData(V.copy(), P.copy(), None if sv is None else sv.copy(), None if sp is None else sp.copy()),
                Model(eos.eos, extra_args=[order, linear, True]), np.array(start, dtype=float), ifixb=list(free), maxit=500)
        o.set_job(fit_type=2 if sv is None else 0)
        r = o.run()
    except Exception:
        return None
    return int(r.info), [float(x) for x in r.beta], [float(x) for x in r.sd_beta]


def close(a, b, rel=1e-6, ab=1.1e-5):
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    return abs(a - b) <= ab + rel * abs(b)


REPORT = re.compile(r'EOS results for (\S+) fitting.*?EOS formulation: ([^\n]+?)\s+EOS order: (\d)\s+(.*?)'
                    r'Fitting parameters:\n(.*?)\n\nCovariance.*?Calculated data:\s*?\n(.*?)\n\n', re.S)


def reports(text):
    out = []
    for m in REPORT.finditer(text):
        ps = []
        for ln in m.group(5).split('\n'):
            k = re.match(r"\s*(\S+)\s*=\s*(\S+) \+/-\s*(\S+)(.*)", ln)
            if k:
                ps.append((k.group(1), float(k.group(2)), float(k.group(3)), 'FIXED' in k.group(4), 'IMPLIED' in k.group(4)))
        rows = []
        for ln in m.group(6).split('\n'):
            t = ln.split()
            try:
                v = [float(x) for x in t]
            except ValueError:
                continue
            if len(v) == 5:
                rows.append(v)
        w = m.group(4)
        out.append({'data': m.group(1), 'form': re.sub('[^A-Za-z]', '', m.group(2)), 'order': int(m.group(3)), 'pars': ps, 'rows': rows,
                    'wp': not re.search(r'not weighted for pressure', w),
                    'wv': not re.search(r'not weighted for (for )?(Volume|.-axis)', w)})
    return out


class Judge(object):
    """The dialogue as a state machine over the transcript."""

    def __init__(self, model, who, ctx):
        self.d, self.who, self.ctx = model['data'], who, ctx
        self.form, self.order = '1', None
        self.default = ('1', 2)
        self.state = 'data'
        self.par = None
        self.fits = self.invalid = 0
        self.trace = []

    def bad(self, key, msg):
        raise Violation(key, '%s, after answers %s: %s' % (self.who, self.trace[-8:], msg))

    def labels(self):
        return ['K0', "K'", "K''", 'V0'] if self.q == 'v' else ['M0(%s)' % self.q, "M'(%s)" % self.q, "M''(%s)" % self.q,
                                                                   self.q + '0']

    def see(self, shown):
        """A question is on the screen: is it the one due, with the right contents?"""
        kind, arg = question(shown)
        if self.state == 'fitted':
            self.fitted(shown)
        st = self.state if isinstance(self.state, str) else self.state[0]
        if kind != st:
            self.bad('question:' + st, 'the question is %r (%s), due is %r' % (shown[-80:], kind, self.state))
        if st == 'data' and 'DATA SELECTION' in shown:
            ks = re.findall(r'(?m)^ *([vabc])\. (\S+)', shown[shown.rfind('DATA SELECTION'):])
            want = [(k, TITLES[k]) for k in 'vabc' if k in self.d]
            if ks != want:
                self.bad('choices:data', 'data offered %s, file has %s' % (ks, want))
        if st == 'eos':
            if not re.match(r' \[%s\]' % self.default[0], arg):
                self.bad('default:eos', 'default %r, chosen last %s' % (arg, self.default[0]))
        if st == 'order':
            o = [int(x) for x in re.findall(r'(?m)^ - (\d)', shown[shown.rfind('EOS ORDER'):])]
            if 'EOS ORDER' in shown and o != ORDERS[self.form]:
                self.bad('choices:order', 'orders offered for %s: %s' % (NAMES[self.form], o))
            m = re.match(r' \[(\d)\]', arg)
            if not m or int(m.group(1)) not in ORDERS[self.form]:
                self.bad('default:order', 'default %r' % arg)
            self.odef = int(m.group(1))
            if self.default[1] in ORDERS[self.form] and self.odef != self.default[1]:
                self.bad('default:order', 'default %r, chosen last %s' % (arg, self.default[1]))
        if st == 'mod' and 'EOS PARAMETERS' in shown:
            ps = re.findall(r"(?m)^  (\S+) += +(\S+) *$", shown[shown.rfind('EOS PARAMETERS'):])
            if [p[0] for p in ps] != self.labels():
                self.bad('labels', 'parameters shown %s' % (ps,))
            for (n, t), v in zip(ps, self.par):
                if not close(float(t), v):
                    self.bad('shown', '%s is shown as %s, entered, updated or estimated last %r' % (n, t, v))
        if st == 'val':
            i = self.state[1]
            lab = re.search(r"(\S+) +\[", shown.rsplit('\n', 1)[-1]).group(1)
            if lab != self.labels()[i]:
                self.bad('label', 'asked for %s, due is %s' % (lab, self.labels()[i]))
            if not close(float(arg), self.par[i]):
                self.bad('shown', 'the default of %s is %s, its value %r' % (lab, arg, self.par[i]))
            self.vdef = float(arg)
        if st == 'fixone' and arg.split()[0].rstrip('?') != self.labels()[self.state[1]]:
            self.bad('label', 'asked to fix %s, due is %s' % (arg, self.labels()[self.state[1]]))
        if st == 'use':
            want = 'pressure' if self.state[1] == 'p' else TITLES[self.q]
            if not arg.startswith(want):
                self.bad('label', 'asked for weights of %r, due is %s' % (arg, want))
        self.asked = arg

    def answer(self, a):
        """The user's answer takes effect."""
        self.trace.append(a)
        st = self.state if isinstance(self.state, str) else self.state[0]
        if st == 'data':
            if a in self.d and a in TITLES:
                self.q = a
                self.lin = a != 'v'
                self.V, self.P = self.d[a], self.d['p']
                self.par = guess(self.V, self.P, self.lin)
                self.state = 'eos'
                return
        elif st == 'eos':
            a = a or self.default[0]
            if a in NAMES:
                self.form = a
                self.state = 'order'
                return
        elif st == 'order':
            try:
                a = int(a) if a else self.odef
            except ValueError:
                a = None
            if a in ORDERS[self.form]:
                self.order = a
                self.default = (self.form, a)
                self.state = 'mod'
                return
        elif st == 'val':
            try:
                v = float(a) if a else self.vdef
            except ValueError:
                self.invalid += 1
                return
            i = self.state[1]
            self.par = list(self.par)
            self.par[i] = v
            self.state = ('val', i + 1) if i < 3 else 'fix'
            return
        else:
            t = a.strip().lower()
            if t in ('y', 'yes'):
                return self.said(st, True)
            if t in ('n', 'no'):
                return self.said(st, False)
            if t == '' and '[y/N]' in self.asked:
                return self.said(st, False)
            if t == '' and '[Y/n]' in self.asked:
                return self.said(st, True)
        self.invalid += 1

    def said(self, st, yes):
        if st == 'mod':
            self.state = ('val', 0) if yes else 'fix'
        elif st == 'fix':
            self.free = [1, 1, 1, 1]
            if yes:
                self.state = ('fixone', 0)
            else:
                self.weights()
        elif st == 'fixone':
            i = self.state[1]
            self.free[i] = 0 if yes else 1
            if i < 3:
                self.state = ('fixone', i + 1)
            else:
                self.weights()
        elif st == 'weight':
            if yes and 'sigmap' in self.d:
                self.state = ('use', 'p')
            elif yes:
                self.state = ('use', 'v')
            else:
                self.state = 'fitted'
        elif st == 'use':
            k = self.state[1]
            if k == 'p':
                self.sp = self.d['sigmap'] if yes else None
                self.state = ('use', 'v') if 'sigma' + self.q in self.d else 'fitted'
            else:
                self.sv = self.d['sigma' + self.q] if yes else None
                self.state = 'fitted'
        elif st == 'update':
            if yes:
                self.par = list(self.fit[1])
                self.ctx.count('updates')
            self.state = 'more'
        elif st == 'more':
            self.state = 'change' if yes else 'other'
        elif st == 'change':
            self.state = 'eos' if yes else 'mod'
        elif st == 'other':
            self.state = 'data' if yes else 'end'

    def weights(self):
        self.sp = self.sv = None
        self.state = 'weight' if 'sigmap' in self.d or 'sigma' + self.q in self.d else 'fitted'

    def regress(self):
        return regression(self.form, self.order, self.lin, self.V, self.P, self.par, self.sv, self.sp, self.free)

    def fitted(self, shown):
        """The fit was made and reported."""
        self.fits += 1
        self.ctx.count('fits')
        self.ctx.seen('forms', '%s%s%s' % (self.form, self.order, 'l' if self.lin else ''))
        what = '%s order %s of %s, start %s, free %s' % (NAMES[self.form], self.order, TITLES[self.q], self.par, self.free)
        self.fit = self.regress()
        if self.fit is None:
            self.bad('fit', 'the regression of %s is impossible, yet the session went on' % what)
        rs = reports(shown)
        if self.fit[0] >= 10000:
            self.ctx.count('impossible_fits')
            if rs or 'Fit not possible' not in shown:
                self.bad('unfitted', '%s: the regression was rejected (%d), shown %r' % (what, self.fit[0], shown[-300:]))
            self.state = 'more'
            return
        if len(rs) != 1:
            self.bad('report', '%s: %d reports in %r' % (what, len(rs), shown[-400:]))
        r = rs[0]
        chosen = {'data': TITLES[self.q], 'form': NAMES[self.form], 'order': self.order, 'wp': self.sp is not None,
                  'wv': self.sv is not None}
        for k, v in chosen.items():
            if r[k] != v:
                self.bad('report:' + k, '%s: reported %s is %r, chosen %r' % (what, k, r[k], v))
        lab = self.labels()
        if [p[0] for p in r['pars']] != lab:
            self.bad('report:labels', '%s: %s' % (what, r['pars']))
        for i, (n, b, sd, fixed, implied) in enumerate(r['pars']):
            if fixed != (not self.free[i]):
                self.bad('report:fixed', '%s: %s reported %s' % (what, n, 'fixed' if fixed else 'free'))
            if implied != (i in IMPLIED[self.order]):
                self.bad('report:implied', '%s: %s reported implied: %s' % (what, n, implied))
            w, s = self.fit[1][i], self.fit[2][i]
            if not close(b, w, 1e-5, 2e-5 + 1e-3 * (s if math.isfinite(s) else 0.)):
                self.bad('report:value', '%s: %s = %r, the regression gives %r' % (what, n, b, w))
            if not close(sd, s, 1e-3, 2e-5):
                self.bad('report:sd', '%s: error of %s = %r, the regression gives %r' % (what, n, sd, s))
        if len(r['rows']) != len(self.V):
            self.bad('report:rows', '%s: %d rows, %d data' % (what, len(r['rows']), len(self.V)))
        import numpy as np
        p = [x[1] for x in r['pars']]
        sane = 1. < p[0] < 3000. and 0.2 < abs(p[1]) < 30. and abs(p[2]) < 1. and \
            0.9 * min(self.V) < p[3] < 1.2 * max(self.V)
        for k, row in enumerate(r['rows']):
            if not close(row[0], self.V[k]) or not close(row[2], self.P[k]):
                self.bad('report:data', '%s: row %d states %s, the file %r %r' % (what, k, row, self.V[k], self.P[k]))
            if sane:
                x = row[0] + row[1]
                with np.errstate(all='ignore'):
                    y = formula(NAMES[self.form], p, np.float64(x), self.order, self.lin)
                    dy = abs(formula(NAMES[self.form], p, np.float64(x * (1 + 1e-6)), self.order, self.lin) - y) / (x * 1e-6)
                if not isinstance(y, complex) and np.isfinite(y) and abs(y - row[3]) > 5e-3 + 2e-3 * abs(y) + 2e-5 * dy:
                    self.bad('report:pressure', '%s: row %d: calculated pressure %r, the formula gives %r' % (
                        what, k, row[3], y))
        self.state = 'update'


def talk(path, s):
    """One session. -> plain data of its transcript"""
    from dst import sim
    h = Human(s)
    r = sim.run_cli(['eosfit', path], h, limit=500)
    return {'shown': [plain(q) for q in r.questions], 'answers': [a if isinstance(a, str) else None for a in r.answers],
            'exit': r.exit, 'exc': None if r.exc is None else '%s: %s' % (type(r.exc).__name__, r.exc),
            'out': plain(r.out)[-3000:], 'err': plain(r.err)[-500:]}


def execute(sc, ctx):
    import os
    import warnings
    from dst import sim
    from dst.world import World, contained
    World(ctx)
    os.makedirs('sub')
    ctx.clock.on(step=0.)
    warnings.simplefilter('ignore')

    def all_of_them():
        out = []
        for k, s in enumerate(sc['sessions']):
            p = G.write(s['spec'], sc['name'])           # the same name, new contents
            out.append(talk(p, s))
        return out
    done = contained(all_of_them)
    n = bad = 0
    for k, (s, t) in enumerate(zip(sc['sessions'], done)):
        j = Judge(G.eos_model(s['spec']), 'session %d' % k, ctx)
        for shown, a in zip(t['shown'], t['answers']):
            j.see(shown)
            if a is None:
                j.state = 'left'
                break
            j.answer(a)
        n += j.fits
        bad += j.invalid
        ctx.count('sessions')
        ctx.count('answers', len(t['answers']))
        ctx.count('invalid_answers', j.invalid)
        if j.state == 'left':
            ctx.count('ended_early')
            if t['exc'] or 'Aborted' not in t['out'] + t['err'] or not t['exit']:
                j.bad('abort', 'end of input or Ctrl-C: exit %s, %s, %r' % (t['exit'], t['exc'], t['err']))
        elif t['exc'] and j.state == 'fitted' and j.regress() is None:
            ctx.count('refused_fits')                     # e.g. a single row of data
        else:
            if t['exc'] or t['exit']:
                j.bad('crash', 'the session ended with exit %s, %s' % (t['exit'], t['exc']))
            if j.state != 'end':
                j.bad('ended', 'the session ended, due is %r' % (j.state,))
    if n > 1 or bad:
        ctx.nontrivial = digest(sim.EV.items)
    ctx.sample = {'sessions': [[len(t['answers']), t['exit']] for t in done]}


def shrink(sc, extra):
    for ss in shrink_list(sc['sessions']):
        if ss:
            yield dict(sc, sessions=ss)
    for k, s in enumerate(sc['sessions']):
        for f, z in (('bad', 0.), ('odd', 0.), ('stop', None)):
            if s[f] != z:
                t = copy.deepcopy(sc)
                t['sessions'][k][f] = z
                yield t
        for m in range(1, s['fits']):
            t = copy.deepcopy(sc)
            t['sessions'][k]['fits'] = m
            yield t
        for f, z in (('noise', 0.), ('comments', False), ('sig', 'none'), ('axes', ''), ('n', 8)):
            if s['spec'][f] != z:
                t = copy.deepcopy(sc)
                t['sessions'][k]['spec'][f] = z
                yield t
    if sc['name'] != 'in':
        yield dict(sc, name='in')
