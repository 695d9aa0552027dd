"""Generated input files: text plus the data the text states.

Every generator takes a spec dict (kind, seed, sizes; JSON, shrinkable) and
returns (text, model)."""
import math
import random

import numpy as np


NAMES = ['Job 12: calcite', 'job', 'Data of the beam line', 'data', 'Format P V', 'FORMAT of mine', '2024', '12 crystals',
         '-1.5', '3.5 GPa run', 'C\u00f4te d\'Azur \u00c5\u00b3 \u6c34', 'a # b', 'two  spaces   kept', '{0} %s \\n {', 'None', 'true',
         '1 2 3 4 5 6', 'x' * 90, 'Unknown', '~', "it's \"quoted\"", '[1, 2]', 'a: b']


def jobname(s, plain, kind):
    """The name of the job and the text that states it: most names are plain, some are awkward."""
    r = random.Random(s['seed'] + 5)
    if not s['job']:
        return None, None
    if r.random() < 0.75:
        return plain, plain
    n = r.choice(NAMES)
    if kind == 'eos' and n.lower() in ('job', 'data', 'format'):
        n += ' no name'
    if kind != 'qha':
        return n, n
    if n == '2024' or n == '-1.5':
        return n, n
    if n == '~':
        return None, n
    try:
        import yaml
        if yaml.safe_load('job: ' + n) == {'job': n}:
            return n, n
    except yaml.YAMLError:
        pass
    return n, '"' + n.replace('\\', '\\\\').replace('"', '\\"') + '"'


# ------------------------------------------------------------------- QHA YAML
def qha_spec(rng, small=True, physical=True):
    return {'kind': 'qha', 'seed': rng.randrange(1 << 30), 'nat': rng.choice([1, 1, 2, 3]),
            'nq': rng.choice([1, 1, 2, 4]), 'nv': rng.choice([7, 8, 9, 10, 11]) if physical
            else rng.choice([1, 1, 2, 3, 5, 8]), 'job': rng.random() < 0.8,
            'acoustic': rng.random() < 0.7, 'eunit': 'Ha', 'vunit': 'A', 'funit': 'cm^-1',
            'shape': rng.choice(['flow', 'flow', 'block']), 'order': rng.choice(['up'] * 5 + ['down', 'any'])}


def birch_e(V, V0, E0, K0, Kp):
    x = (V0 / V)**(2. / 3.)
    return E0 + 9. * V0 * K0 / 16. * ((x - 1.)**3 * Kp + (x - 1.)**2 * (6. - 4. * x))


def qha_model(s):
    r = random.Random(s['seed'])
    nat, nq, nv = s['nat'], s['nq'], s['nv']
    V0 = r.uniform(15., 90.) * nat
    K0 = r.uniform(60., 220.)            # GPa
    Kp = r.uniform(3.6, 4.6)
    HA_A3 = 4.3597447e-18 / 1e-30 * 1e-9  # GPa per Ha/A^3
    E0 = -r.uniform(50., 400.)
    if nv == 1:
        V = np.array([V0])
    else:
        V = V0 * np.linspace(r.uniform(0.82, 0.88), r.uniform(1.07, 1.12), nv)
    V = np.array([float('%.8f' % v) for v in V])
    if s.get('order') == 'down':
        V = V[::-1].copy()
    elif s.get('order') == 'any':
        random.Random(s['seed'] + 13).shuffle(V)
    E = birch_e(V, V0, E0, K0 / HA_A3, Kp)
    if s.get('rough'):                    # poorly converged
        rr = random.Random(s['seed'] + 11)
        E = E + np.array([rr.gauss(0., s['rough'] * np.ptp(E)) for _ in V])
    E = np.array([float('%.12E' % e) for e in E])
    wts = [1] + [r.randint(1, 6) for _ in range(nq - 1)]
    f = np.zeros((nq, 3 * nat, nv))
    for i in range(nq):
        for j in range(3 * nat):
            if i == 0 and j < 3 and s['acoustic']:
                continue
            f0 = r.uniform(120., 900.)
            g = r.uniform(0.8, 2.0)
            f[i, j] = [float('%.10f' % (f0 * (V0 / v)**g)) for v in V]
    dim = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    dim[0][0] = sum(wts)
    rw = random.Random(s['seed'] + 9)
    if rw.random() < 0.25:
        wts = [w * rw.choice([0.125, 0.25, 1.5]) for w in wts]
    q = [[0., 0., 0.]] + [[round(r.uniform(0, .5), 7) for _ in range(3)] for _ in range(nq - 1)]
    name, line = jobname(s, 'Job number %d of the user' % r.randint(1, 999), 'qha')
    return {'job': name, 'jobline': line, 'natom': nat, 'supercell': dim, 'qpoints': nq, 'volume': V, 'energy': E, 'q': q,
            'weights': wts, 'freq': f, 'V0': V0, 'K0': K0, 'Kp': Kp, 'E0': E0,
            'rough': s.get('rough', 0)}


def qha_text(s, m=None):
    m = m or qha_model(s)
    out = []
    if m.get('jobline', m['job']):
        out.append('job: ' + m.get('jobline', m['job']))
    out.append('natom:   %d' % m['natom'])
    out.append('supercell:')
    for row in m['supercell']:
        out.append('- [ %6d, %6d, %6d ]' % tuple(row))
    out.append('qpoints: %d' % m['qpoints'])
    if s.get('shape') == 'block':
        out.append('volume:')
        out += ['- %.8f' % v for v in m['volume']]
        out.append('energy:')
        out += ['- %.12E' % v for v in m['energy']]
    else:
        out.append('volume: [ ' + ','.join('%16.8f' % v for v in m['volume']) + ' ]')
        out.append('energy: [ ' + ','.join('% 20.12E' % v for v in m['energy']) + ' ]')
    out.append('phonon:')
    for i in range(m['qpoints']):
        out.append('- q-position: [ %12.7f, %12.7f, %12.7f ]' % tuple(m['q'][i]))
        out.append('  weight: %-5.12g' % m['weights'][i])
        out.append('  band:')
        for j in range(3 * m['natom']):
            out.append('  - # %d' % (j + 1))
            out.append('    frequency: [ ' + ', '.join('%16.10f' % x for x in m['freq'][i][j]) + ' ]')
        out.append('')
    return '\n'.join(out)


# -------------------------------------------------------------------- SOEC
def soec_spec(rng):
    return {'kind': 'soec', 'seed': rng.randrange(1 << 30),
            'sym': rng.choice(['cubic', 'hexagonal', 'orthorhombic', 'tetragonal', 'monoclinic',
                               'triclinic', 'triclinic']),
            'form': rng.choice(['full', 'upper']), 'job': rng.random() < 0.75,
            'density': rng.random() < 0.6, 'trail': rng.random() < 0.5}


def soec_matrix(sym, r):
    while True:
        C = np.zeros((6, 6))
        c11, c12, c44 = r.uniform(120, 400), r.uniform(30, 110), r.uniform(30, 160)
        if sym == 'cubic':
            C[:3, :3] = c12
            C[[0, 1, 2], [0, 1, 2]] = c11
            C[[3, 4, 5], [3, 4, 5]] = c44
        elif sym == 'hexagonal':
            c13, c33 = r.uniform(30, 100), r.uniform(120, 400)
            C[0, 0] = C[1, 1] = c11
            C[2, 2] = c33
            C[0, 1] = C[1, 0] = c12
            C[0, 2] = C[2, 0] = C[1, 2] = C[2, 1] = c13
            C[3, 3] = C[4, 4] = c44
            C[5, 5] = (round(c11, 3) - round(c12, 3)) / 2.
        elif sym == 'tetragonal':
            c13, c33, c66 = r.uniform(30, 100), r.uniform(120, 400), r.uniform(30, 160)
            C[0, 0] = C[1, 1] = c11
            C[2, 2] = c33
            C[0, 1] = C[1, 0] = c12
            C[0, 2] = C[2, 0] = C[1, 2] = C[2, 1] = c13
            C[3, 3] = C[4, 4] = c44
            C[5, 5] = c66
        else:
            for i in range(3):
                C[i, i] = r.uniform(120, 400)
                C[i + 3, i + 3] = r.uniform(30, 160)
            for i, j in ((0, 1), (0, 2), (1, 2)):
                C[i, j] = C[j, i] = r.uniform(30, 110)
            if sym == 'monoclinic':
                for i, j in ((0, 4), (1, 4), (2, 4), (3, 5)):
                    C[i, j] = C[j, i] = r.uniform(-25, 25)
            if sym == 'triclinic':
                for i in range(6):
                    for j in range(max(i + 1, 3), 6):
                        C[i, j] = C[j, i] = r.uniform(-20, 20)
        C = np.array([[float('%.4f' % C[i, j]) for j in range(6)] for i in range(6)])
        if np.linalg.eigvalsh(C).min() > 5.:
            return C


def soec_model(s):
    r = random.Random(s['seed'])
    C = soec_matrix(s['sym'], r)
    return {'job': jobname(s, 'Crystal %d' % r.randint(1, 999), 'soec')[0], 'stiffness': C,
            'density': float('%.1f' % r.uniform(1500, 6000)) if s['density'] else 0.}


def soec_text(s, m=None):
    m = m or soec_model(s)
    out = []
    if m['job']:
        out.append(m['job'])
    for i in range(6):
        out.append(' '.join('{: > 11.4f}'.format(m['stiffness'][i, j])
                            for j in range(0 if s['form'] == 'full' else i, 6)))
    if m['density']:
        out.append('%9.1f' % m['density'])
    return '\n'.join(out) + ('\n' if s['trail'] else '')


# --------------------------------------------------------------------- EoS
def eos_spec(rng):
    return {'kind': 'eos', 'seed': rng.randrange(1 << 30), 'n': rng.choice([8, 10, 14, 20]),
            'sig': rng.choice(['none', 'p', 'v', 'all']), 'axes': rng.choice(['', '', 'a', 'abc', 'c']),
            'vol': rng.random() < 0.9, 'job': rng.random() < 0.8, 'noise': rng.choice([0., 0., 1.]),
            'order': rng.randrange(24), 'comments': rng.random() < 0.4, 'tab': rng.random() < 0.5,
            'case': rng.choice(['data', 'lower', 'upper']), 'alias': rng.random() < 0.3,
            'unknown': rng.random() < 0.08}


def bm3_p(V, V0, K0, Kp):
    f = ((V0 / V)**(2. / 3.) - 1.) / 2.
    return 3. * K0 * f * (1 + 2 * f)**2.5 * (1 + 1.5 * (Kp - 4.) * f)


def eos_model(s):
    r = random.Random(s['seed'])
    V0, K0, Kp = r.uniform(60., 600.), r.uniform(50., 250.), r.uniform(3., 5.5)
    n = s['n']
    V = V0 * np.linspace(0.999, r.uniform(0.85, 0.93), n)
    P = bm3_p(V, V0, K0, Kp)
    if s['noise']:
        P = P + np.array([r.gauss(0., 0.02) for _ in range(n)])
    d = {'p': P}
    if s['vol'] or not s['axes']:
        d['v'] = V
    L = (V / V0)**(1. / 3.)
    for ax in s['axes']:
        a0 = r.uniform(3., 12.)
        d[ax] = a0 * L**r.uniform(0.9, 1.1)
    for k in list(d):
        if s['sig'] == 'all' or (s['sig'] == k) or (s['sig'] == 'v' and k in 'abc'):
            d['sigma' + k] = np.array([r.uniform(0.01, 0.05) * (1. if k in 'pv' else 0.02)
                                       for _ in range(n)])
    for k in d:
        d[k] = np.array([float('%.6f' % x) for x in d[k]])
    name = 'Compression %d' % r.randint(1, 999)
    return {'job': None if not s['job'] else 'Unknown' if s.get('unknown') else jobname(s, name, 'eos')[0], 'data': d,
            'V0': V0, 'K0': K0, 'Kp': Kp}


def eos_text(s, m=None):
    m = m or eos_model(s)
    r = random.Random(s['seed'] + 7)
    cols = sorted(m['data'])
    random.Random(s['order']).shuffle(cols)
    sep = '\t' if s['tab'] else '   '
    up = {'data': lambda x: x, 'lower': str.lower, 'upper': str.upper}[s['case']]
    out = []
    if s['comments']:
        out += ['# measured on the beam line', '']
    if m['job']:
        out += [up('Job')] + (['', '# whose', '  '] if s['comments'] else []) + [m['job']]
    out.append(up('Format'))
    if s['comments']:
        out.append('# columns')
    names = [c.replace('sigma', 'sig') if s.get('alias') else 'sigmaP' if c == 'sigmap' else c for c in cols]
    out.append(sep.join(up(c) for c in names))
    out.append(up('Data'))
    for i in range(len(m['data']['p'])):
        out.append(sep.join('%.6f' % m['data'][c][i] for c in cols))
        if s['comments'] and r.random() < 0.15:
            out.append(r.choice(['# pause', '   # pause', '', '  \t']))
    return '\n'.join(out) + '\n'


# ------------------------------------------------------------------- CRYSTAL
ATOMS = [('O', 8), ('MG', 12), ('SI', 14), ('CA', 20), ('FE', 26), ('C', 6)]


def _atoms(out, n, r):
    for i in range(n):
        sy, z = ATOMS[r.randrange(len(ATOMS))]
        out.append('   %4d T %3d %-2s    %19.12E %19.12E %19.12E' % (
            i + 1, z, sy, r.uniform(-.5, .5), r.uniform(-.5, .5), r.uniform(-.5, .5)))


def _lattice(r, vol=None):
    L = np.array([[r.uniform(3, 6) if i == j else r.uniform(-.4, .4) for j in range(3)]
                  for i in range(3)])
    if vol:
        L *= (vol / abs(np.linalg.det(L)))**(1. / 3.)
    return np.array([[float('%.12E' % x) for x in row] for row in L])


def crystal_spec(rng, **kw):
    d = {'kind': 'crystal', 'seed': rng.randrange(1 << 30), 'nat': rng.choice([1, 2, 3]),
         'disp': rng.random() < 0.5, 'nq': rng.choice([1, 2, 3]), 'neg': rng.random() < 0.2,
         'hess': rng.random() < 0.3}
    d.update(kw)
    return d


def crystal_model(s):
    r = random.Random(s['seed'])
    nat = s['nat']
    m = {'natom': nat, 'latt': _lattice(r), 'E': float('%.12E' % -r.uniform(50, 900))}
    if s['disp']:
        m['dim'] = np.diag([r.choice([2, 2, 3]), r.choice([1, 2]), 1])
        nq = s['nq']
    else:
        m['dim'] = np.eye(3, dtype=int)
        nq = 1
    m['nq'] = nq
    m['w'] = [1] + [r.randint(1, 4) for _ in range(nq - 1)] if s['disp'] else [1]
    r2 = random.Random(s['seed'] + 1)
    m['shrink'] = [r2.choice([1, 2, 2, 3, 4, 6]) for _ in range(3)] if s['disp'] else [1, 1, 1]
    m['q'] = [[0, 0, 0]] + [[r.randint(0, 1) for _ in range(3)] for _ in range(nq - 1)]
    fr = []
    for i in range(nq):
        b = sorted(float('%.4f' % r.uniform(80., 1200.)) for _ in range(3 * nat))
        if i == 0 and nat > 1:
            b[:3] = [0., 0., 0.]
        if s['neg'] and i == nq - 1:
            b[0] = -float('%.4f' % r.uniform(5, 60))
        fr.append(b)
    m['freq'] = fr
    m['seed2'] = r.randrange(1 << 30)
    # degenerate groups: lines of 1-3 modes with one frequency
    groups = []
    for b in fr:
        g, j = [], 0
        while j < len(b):
            k = min(r.choice([1, 1, 2, 3]), len(b) - j)
            if j == 0 and b[:3] == [0., 0., 0.]:
                k = 3
            g.append((j, j + k))
            for t in range(j, j + k):
                b[t] = b[j]
            j += k
        groups.append(g)
    m['groups'] = groups
    kp = int(round(np.linalg.det(m['dim'])))
    lat = m['latt']
    if s['disp']:
        m['volume'] = float(np.linalg.det(np.dot(lat, np.linalg.inv(m['dim']))))
    else:
        m['volume'] = float(np.linalg.det(lat))
    m['energy'] = m['E'] / kp if s['disp'] else m['E']
    m['kp'] = kp
    return m


def crystal_text(s, m=None):
    m = m or crystal_model(s)
    r = random.Random(m['seed2'])
    nat = m['natom']
    out = [' EEEEEEEEEE STARTING  DATE 26 02 2020 TIME 10:02:56.6', '', ' CRYSTAL CALCULATION', '']
    if s['disp']:
        out += [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '',
                ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 ANGSTROM',
                ' PRIMITIVE CELL - CENTRING CODE 1/0 VOLUME=    18.896862 - DENSITY  3.513 g/cm^3',
                '         A              B              C           ALPHA      BETA       GAMMA ',
                '     2.98975014     2.98975014     2.98975014    60.000000  60.000000  60.000000',
                ' *******************************************************************************',
                ' ATOMS IN THE ASYMMETRIC UNIT    1 - ATOMS IN THE UNIT CELL: %4d' % nat,
                '     ATOM                 X/A                 Y/B                 Z/C    ',
                ' *******************************************************************************']
        _atoms(out, nat, r)
        out += ['', ' * SUPERCELL OPTION', ' EXPANSION MATRIX OF PRIMITIVE CELL']
        for i in range(3):
            out.append('   E%d  %8.3f %8.3f %8.3f' % ((i + 1,) + tuple(m['dim'][i])))
        out.append('')
    ns = nat * m['kp'] if s['disp'] else nat
    out += [' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3',
            ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO 500)',
            ' *******************************************************************************',
            ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 ANGSTROM',
            ' PRIMITIVE CELL - CENTRING CODE 1/0 VOLUME=    18.896862 - DENSITY  3.513 g/cm^3',
            '         A              B              C           ALPHA      BETA       GAMMA ',
            '     2.98975014     2.98975014     2.98975014    60.000000  60.000000  60.000000',
            ' *******************************************************************************',
            ' ATOMS IN THE ASYMMETRIC UNIT    1 - ATOMS IN THE UNIT CELL: %4d' % ns,
            '     ATOM                 X/A                 Y/B                 Z/C    ',
            ' *******************************************************************************']
    _atoms(out, ns, r)
    out += ['', ' DIRECT LATTICE VECTORS CARTESIAN COMPONENTS (ANGSTROM)',
            '          X                    Y                    Z']
    for row in m['latt']:
        out.append('   %18.12E   %18.12E   %18.12E' % tuple(row))
    out += ['', ' * CALCULATION OF PHONON FREQUENCIES AT THE GAMMA POINT.                       *']
    if s['disp']:
        out += [' * PHONON FREQUENCIES AT A SET OF K POINTS BY USING A SUPERCELL',
                ' THE CALCULATION IS A SUPERCELL ONE', '']
    out += ['   ATOM      MAX ABS(DGRAD)       TOTAL ENERGY (AU)  N.CYC      DE       SYM',
            '    CENTRAL POINT             %.12E    37     0.0000E+00    48' % m['E'],
            '    2 O  DX   2.9899E-04      -2.754625418373E+02     6     8.6363E-07     8', '']
    if s['disp'] and s.get('hess'):
        # the points of the supercell, then those of the interpolated Hessian
        out += [' THAT PERMITS THE CALCULATION OF MODES AT    1 K POINTS :', '',
                '        K       WEIGHT       COORD', '   *    1      1.000     0    0    0',
                ' WITH SHRINKING FACTORS: X IS1 = 1 IS2 = 1 IS3 = 1', '',
                ' ACTIVATED INTERPOLATION OF THE HESSIAN UP TO %4d K POINTS :' % m['nq']]
        out += [' *' + 70 * ' ' + '*'] * 6 + ['', '        K       WEIGHT       COORD']
        for i in range(m['nq']):
            out.append('   * %4d %10.3f   %3d  %3d  %3d' % ((i + 1, m['w'][i]) + tuple(m['q'][i])))
        out += [' WITH SHRINKING FACTORS: X IS1 = %d IS2 = %d IS3 = %d' % tuple(m['shrink']), '']
    elif s['disp']:
        out += [' THAT PERMITS THE CALCULATION OF MODES AT %4d K POINTS :' % m['nq'], '',
                '        K       WEIGHT       COORD']
        for i in range(m['nq']):
            out.append('   * %4d %10.3f   %3d  %3d  %3d' % ((i + 1, m['w'][i]) + tuple(m['q'][i])))
        out += ['   WITH RESPECT TO THE SHRINKING FACTOR: IS1 = %d IS2 = %d IS3 = %d' % tuple(m['shrink'])
                if False else
                ' WITH SHRINKING FACTORS: X IS1 = %d IS2 = %d IS3 = %d' % tuple(m['shrink'])]
        out.append('')
    out += [' EIGENVALUES (EIGV) OF THE MASS WEIGHTED HESSIAN MATRIX AND HARMONIC TRANSVERSE',
            ' OPTICAL (TO) FREQUENCIES.', '']
    for i in range(m['nq']):
        if s['disp']:
            out += [' DISPERSION K POINT NUMBER %4d' % (i + 1), '']
        out += ['    MODES         EIGV          FREQUENCIES     IRREP  IR   INTENS    RAMAN',
                '             (HARTREE**2)   (CM**-1)     (THZ)             (KM/MOL)']
        for a, b in m['groups'][i]:
            fq = m['freq'][i][a]
            out.append(' %4d- %3d    %.4E  %10.4f  %8.4f  (Fu )   A (     0.00)   I' % (
                a + 1, b, fq * 1e-9, fq, fq * 0.0299792458))
        out.append('')
    out += ['', ' EEEEEEEEEE TERMINATION  DATE 26 02 2020 TIME 10:03:03.5', '']
    return '\n'.join(out)


# --------------------------------------------------------------- CRYSTAL QHA
def crystalqha_spec(rng):
    return {'kind': 'crystal-qha', 'seed': rng.randrange(1 << 30), 'nat': rng.choice([1, 2, 3]),
            'nv': rng.choice([4, 5, 7]), 'kp': rng.choice([1, 1, 2])}


def crystalqha_model(s):
    r = random.Random(s['seed'])
    nat, nv, kp = s['nat'], s['nv'], s['kp']
    V0 = r.uniform(15., 70.) * nat
    base = _lattice(r)
    base *= np.sign(np.linalg.det(base))
    vols = [V0 * (0.9 + 0.2 * i / (nv - 1)) * kp for i in range(nv)]
    latts = []
    for v in vols:
        L = base * (v / np.linalg.det(base))**(1. / 3.)
        latts.append(np.array([[float('%.12E' % x) for x in row] for row in L]))
    vols = [float(np.linalg.det(L)) for L in latts]
    E = [float('%.12E' % (-r.uniform(200., 201.) * kp)) for _ in range(nv)]
    fr = [[[float('%.4f' % (f0 * (V0 * kp / v)**1.3)) for v in vols]
           for f0 in sorted(r.uniform(90, 1100) for _ in range(3 * nat))] for _ in range(kp)]
    order = list(range(nv))
    r.shuffle(order)
    return {'natom': nat, 'nv': nv, 'kp': kp, 'latts': latts, 'vols': vols, 'E': E, 'freq': fr,
            'order': order, 'seed2': r.randrange(1 << 30), 'dim': [[kp, 0, 0], [0, 1, 0], [0, 0, 1]],
            'volume': [v / kp for v in vols], 'energy': [e / kp for e in E]}


def crystalqha_text(s, m=None):
    m = m or crystalqha_model(s)
    r = random.Random(m['seed2'])
    out = [' EEEEEEEEEE STARTING  DATE 26 02 2020 TIME 10:02:56.6', ' CRYSTAL CALCULATION', '']
    if m['kp'] > 1:
        out += [' * SUPERCELL OPTION', ' EXPANSION MATRIX OF PRIMITIVE CELL']
        for i in range(3):
            out.append('   E%d  %8.3f %8.3f %8.3f' % ((i + 1,) + tuple(m['dim'][i])))
        out.append('')
    out += [' * QUASI-HARMONIC APPROXIMATION *', '']
    n = m['natom'] * m['kp']
    for k in m['order']:
        out += [' FINAL OPTIMIZED GEOMETRY - DIMENSIONALITY OF THE SYSTEM      3',
                ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO 500)',
                ' *******************************************************************************',
                ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 ANGSTROM',
                ' PRIMITIVE CELL - CENTRING CODE 1/0 VOLUME=    18.896862 - DENSITY  3.513 g/cm^3',
                '         A              B              C           ALPHA      BETA       GAMMA ',
                '     2.98975014     2.98975014     2.98975014    60.000000  60.000000  60.000000',
                ' *******************************************************************************',
                ' ATOMS IN THE ASYMMETRIC UNIT    1 - ATOMS IN THE UNIT CELL: %4d' % n,
                '     ATOM                 X/A                 Y/B                 Z/C    ',
                ' *******************************************************************************']
        _atoms(out, n, r)
        out += ['', ' DIRECT LATTICE VECTORS CARTESIAN COMPONENTS (ANGSTROM)',
                '          X                    Y                    Z']
        for row in m['latts'][k]:
            out.append('   %18.12E   %18.12E   %18.12E' % tuple(row))
        out.append('')
    out += [' SORTING VOLUMES/ENERGIES', '', '      VOLUME (A^3)        ENERGY (AU)',
            ' ------------------------------------']
    for v, e in zip(m['vols'], m['E']):
        out.append('   %16.8f   %20.12E' % (v, e))
    out += ['', ' MODES']
    c = 0
    for q in m['freq']:
        for band in q:
            c += 1
            out += [' FREQUENCY # %5d' % c, '', '   VOLUME   FREQUENCY']
            for v, fq in zip(m['vols'], band):
                out.append('   %16.8f   %12.4f' % (v, fq))
            out.append('')
    out += [' EEEEEEEEEE TERMINATION  DATE 26 02 2020 TIME 10:03:03.5', '']
    return '\n'.join(out)


# -------------------------------------------------------------- SOEC outputs
def csoec_spec(rng):
    return {'kind': 'csoec', 'seed': rng.randrange(1 << 30),
            'sym': rng.choice(['cubic', 'hexagonal', 'orthorhombic', 'triclinic']), 'nodens': rng.random() < 0.25}


def csoec_model(s):
    r = random.Random(s['seed'])
    C = np.round(soec_matrix(s['sym'], r), 3)
    d = round(r.uniform(1.5, 6.), 3) * 1000.
    return {'stiffness': C, 'density': 0. if s.get('nodens') else d}


def csoec_text(s, m=None):
    m = m or csoec_model(s)
    out = ['', ' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '',
           ' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3',
           ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=    18.896862 - DENSITY %6.3f g/cm^3' % (
               m['density'] / 1000.),
           '', ' * ELASTCON OPTION, W.F. PERGER, B. CIVALLERI, R. DOVESI                *', '',
           '                           FINAL RESULTS START', '',
           ' SYMMETRIZED ELASTIC CONSTANTS FOR CUBIC        CASE, IN GPa', '']
    if s.get('nodens'):
        del out[4]
    for i in range(6):
        out.append(' |' + '         ' * i + ''.join(' %8.3f' % m['stiffness'][i, j] for j in range(i, 6)) + ' |')
    out += ['', '', ' ELASTIC MODULI (COMPLIANCE TENSOR), IN TPa^-1', '',
            ' |    4.0108  -1.0137  -1.0137   0.0000   0.0000   0.0000 |', '',
            ' EEEEEEEEEE TERMINATION', '']
    return '\n'.join(out)


def vasp_spec(rng):
    return {'kind': 'vasp', 'seed': rng.randrange(1 << 30),
            'sym': rng.choice(['cubic', 'hexagonal', 'orthorhombic', 'triclinic']),
            'relaxed': rng.random() < 0.6}


def vasp_model(s):
    r = random.Random(s['seed'])
    C = np.round(soec_matrix(s['sym'], r), 3)
    clamp = np.round(C * 1.05, 3)
    return {'stiffness': C if s['relaxed'] else clamp, 'C': C, 'clamp': clamp, 'density': 0.}


def vasp_text(s, m=None):
    m = m or vasp_model(s)
    p = [0, 1, 2, 5, 3, 4]          # XX YY ZZ XY YZ ZX
    lab = ['XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX']

    def block(title, C):
        o = [' %s' % title, ' Direction    XX          YY          ZZ          XY          YZ          ZX',
             ' --------------------------------------------------------------------------------']
        for i in range(6):
            o.append(' %s      ' % lab[i] + ' '.join('%11.4f' % (C[p[i], p[j]] * 10.) for j in range(6)))
        o += [' --------------------------------------------------------------------------------', '']
        return o
    out = [' vasp.5.4.4', ' INCAR', ''] + block('SYMMETRIZED ELASTIC MODULI (kBar)', m['clamp'])
    if s['relaxed']:
        out += [' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', ''] + \
            block('TOTAL ELASTIC MODULI (kBar)', m['C'])
    out += [' General timing and accounting informations for this job:', '']
    return '\n'.join(out)


# ------------------------------------------------------------------- phonopy
def phonopy_spec(rng):
    return {'kind': 'phonopy', 'seed': rng.randrange(1 << 30), 'nat': rng.choice([1, 2]),
            'nq': rng.choice([1, 2, 3]), 'xml': rng.random() < 0.8}


def phonopy_model(s):
    r = random.Random(s['seed'])
    nat, nq = s['nat'], s['nq']
    L = np.round(_lattice(r), 10)
    fr = [[round(r.uniform(1., 30.), 10) for _ in range(3 * nat)] for _ in range(nq)]
    return {'natom': nat, 'nq': nq, 'latt': L, 'thz': fr,
            'w': [r.randint(1, 5) for _ in range(nq)],
            'q': [[round(r.uniform(0, .5), 7) for _ in range(3)] for _ in range(nq)],
            'dim': [[r.choice([1, 2]), 0, 0], [0, r.choice([1, 2]), 0], [0, 0, 1]],
            'energy': round(-r.uniform(5, 90), 8) if s['xml'] else 0.,
            'volume': float(np.linalg.det(L)),
            'freq': [[x * 1e12 / (299792458. * 100.) for x in b] for b in fr]}


def phonopy_files(s, m=None):
    """-> {suffix: text} (mesh file, displacement file, vasprun)"""
    m = m or phonopy_model(s)
    r = random.Random(s['seed'] + 3)
    out = ['mesh: [     2,     2,     2 ]', 'nqpoint: %d' % m['nq'], 'reciprocal_lattice:',
           '- [ 0.2, 0.0, 0.0 ]', '- [ 0.0, 0.2, 0.0 ]', '- [ 0.0, 0.0, 0.2 ]',
           'natom:   %d' % m['natom'], 'lattice:']
    for row in m['latt']:
        out.append('- [ %.10f, %.10f, %.10f ]' % tuple(row))
    out.append('points:')
    for i in range(m['natom']):
        out += ['- symbol: %s' % r.choice(['O', 'Mg', 'Si']), '  coordinates: [ 0.1, 0.2, 0.3 ]',
                '  mass: 20.0']
    out.append('phonon:')
    for i in range(m['nq']):
        out += ['- q-position: [ %.7f, %.7f, %.7f ]' % tuple(m['q'][i]), '  weight: %d' % m['w'][i], '  band:']
        for j, x in enumerate(m['thz'][i]):
            out += ['  - # %d' % (j + 1), '    frequency: %.10f' % x]
        out.append('')
    disp = ['natom: %d' % m['natom'], 'supercell_matrix:']
    for row in m['dim']:
        disp.append('- [ %d, %d, %d ]' % tuple(row))
    disp += ['supercell:', '  lattice:']
    for row in m['latt']:
        disp.append('  - [ %.10f, %.10f, %.10f ]' % tuple(row))
    disp.append('  points:')
    for i in range(m['natom']):
        disp += ['  - symbol: O', '    coordinates: [ 0.1, 0.2, 0.3 ]']
    d = {'.yaml': '\n'.join(out) + '\n', '_disp.yaml': '\n'.join(disp) + '\n'}
    if s['xml']:
        d['.xml'] = ('<?xml version="1.0" encoding="ISO-8859-1"?>\n<modeling>\n <calculation>\n  <energy>\n'
                     '   <i name="e_fr_energy"> %.8f </i>\n   <i name="e_wo_entrp"> %.8f </i>\n'
                     '  </energy>\n </calculation>\n</modeling>\n' % (m['energy'] + 1., m['energy']))
    return d


SPECS = {'qha': qha_spec, 'soec': soec_spec, 'eos': eos_spec, 'crystal': crystal_spec,
         'crystal-qha': crystalqha_spec, 'csoec': csoec_spec, 'vasp': vasp_spec,
         'phonopy': phonopy_spec}
TEXTS = {'qha': qha_text, 'soec': soec_text, 'eos': eos_text, 'crystal': crystal_text,
         'crystal-qha': crystalqha_text, 'csoec': csoec_text, 'vasp': vasp_text}
MODELS = {'qha': qha_model, 'soec': soec_model, 'eos': eos_model, 'crystal': crystal_model,
          'crystal-qha': crystalqha_model, 'csoec': csoec_model, 'vasp': vasp_model,
          'phonopy': phonopy_model}


def write(s, base):
    """Writes the file(s) of a spec; base is the path without extension.
    -> path of the main file"""
    ext = {'qha': '.yaml', 'soec': '.dat', 'eos': '.dat'}.get(s['kind'], '.out')
    if s['kind'] == 'phonopy':
        for suf, t in phonopy_files(s).items():
            with open(base + suf, 'w') as f:
                f.write(t)
        return base + '.yaml'
    with open(base + ext, 'w') as f:
        f.write(TEXTS[s['kind']](s))
    return base + ext
