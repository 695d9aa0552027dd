"""Independent strict parsers: what a (possibly damaged) file still states.

Each returns the model of dst.gen.files, or None when anything a calculation
needs is absent or contradictory. Nothing here uses the code under test."""
import math

import numpy as np


class Missing(Exception):
    pass


def need(ok, what=''):
    if not ok:
        raise Missing(what)


def num(t):
    try:
        return float(t)
    except (TypeError, ValueError):
        raise Missing('number %r' % (t,))


def yamlnum(v):
    """A number of a YAML file; some number forms are read as text by YAML."""
    need(not isinstance(v, bool) and isinstance(v, (int, float, str)), 'value %r' % (v,))
    return num(v)


def yamlnums(v):
    if isinstance(v, list) and len(v) == 1 and isinstance(v[0], str):
        v = v[0].split()
    elif not isinstance(v, list):
        v = [v]
    return [yamlnum(x) for x in v]


def load_yaml(text):
    import yaml
    try:
        d = yaml.safe_load(text)
    except yaml.YAMLError:
        raise Missing('yaml')
    need(isinstance(d, dict), 'not a mapping')
    return d


def matrix3(v, kind=float):
    need(isinstance(v, list) and len(v) == 3, 'rows')
    for r in v:
        need(isinstance(r, list) and len(r) == 3, 'columns')
    return [[kind(yamlnum(x)) for x in r] for r in v]


def qha(text):
    d = load_yaml(text)
    for k in ('natom', 'supercell', 'qpoints', 'volume', 'energy', 'phonon'):
        need(k in d, k)
    nat, nq = yamlnum(d['natom']), yamlnum(d['qpoints'])
    need(nat == int(nat) and nq == int(nq) and nat > 0 and nq > 0)
    nat, nq = int(nat), int(nq)
    V, E = yamlnums(d['volume']), yamlnums(d['energy'])
    need(V and len(V) == len(E), 'volumes and energies')
    sc = matrix3(d['supercell'])
    need(round(np.linalg.det(np.array(sc))) >= 1, 'supercell')
    need(isinstance(d['phonon'], list) and len(d['phonon']) == nq, 'q-points')
    f, w, qs = np.zeros((nq, 3 * nat, len(V))), [], []
    for i, q in enumerate(d['phonon']):
        need(isinstance(q, dict) and 'weight' in q and 'band' in q)
        w.append(yamlnum(q['weight']))
        need(isinstance(q['band'], list) and len(q['band']) == 3 * nat, 'bands')
        for j, b in enumerate(q['band']):
            need(isinstance(b, dict) and 'frequency' in b)
            v = yamlnums(b['frequency'])
            need(len(v) == len(V), 'frequencies')
            f[i, j] = v
        qs.append(q.get('q-position'))
    j = d.get('job')
    return {'job': j, 'natom': nat, 'supercell': [[int(x) for x in r] for r in sc], 'qpoints': nq,
            'volume': np.array(V), 'energy': np.array(E), 'q': qs, 'weights': w, 'freq': f}


def rows(lines, form, start, symmetric=True):
    need(len(lines) >= start + 6, 'six rows')
    m = np.zeros((6, 6))
    for i in range(6):
        t = lines[start + i].split()
        n = {'full': 6, 'upper': 6 - i, 'lower': i + 1}[form]
        need(len(t) == n, 'row %d' % i)
        for j, x in enumerate(t):
            m[i, {'full': j, 'upper': i + j, 'lower': j}[form]] = num(x)
    if form == 'upper':
        m += np.triu(m, 1).T
    if form == 'lower':
        m += np.tril(m, -1).T
    need(not symmetric or np.linalg.norm(m - m.T) <= 1e-3, 'symmetry')
    return m


def soec(text):
    lines = text.split('\n')
    for start in (0, 1):
        for form in ('full', 'upper', 'lower'):
            try:
                m = rows(lines, form, start)
            except Missing:
                continue
            rest = lines[start + 6].split() if len(lines) > start + 6 else []
            d = num(rest[0]) if rest else 0.
            return {'job': lines[0].rstrip() if start else None, 'stiffness': m, 'density': d}
    raise Missing('matrix')


EOS = {'p': 'p', 'v': 'v', 'a': 'a', 'b': 'b', 'c': 'c', 'sigmap': 'sigmap', 'sigp': 'sigmap', 'sigmav': 'sigmav',
       'sigv': 'sigmav', 'sigmaa': 'sigmaa', 'siga': 'sigmaa', 'sigmab': 'sigmab', 'sigb': 'sigmab',
       'sigmac': 'sigmac', 'sigc': 'sigmac'}


def eos(text):
    lines = [x for x in text.split('\n') if x.strip() and not x.strip().startswith('#')]
    first = [x.split()[0].lower() for x in lines]
    job, at = None, first.index('job') if 'job' in first else len(lines)
    if at + 1 < len(lines) and lines[at + 1].strip().lower() not in ('job', 'format', 'data'):
        job = lines.pop(at + 1)     # the name is no keyword, whatever it begins with
        del first[at + 1]
    need('format' in first and 'data' in first)
    k = first.index('format')
    need(k + 1 < len(lines))
    cols = {}
    for i, t in enumerate(lines[k + 1].split()):
        if t.lower() in EOS:
            cols[EOS[t.lower()]] = i
    need('p' in cols, 'pressure')
    at = [i for i, x in enumerate(first) if x == 'data' and i != k + 1]
    need(at and at[0] > k)
    d = {c: [] for c in cols}
    for ln in lines[at[0] + 1:]:
        t = ln.split()
        for c, i in cols.items():
            need(i < len(t), 'short row')
            d[c].append(num(t[i]))
    need(len(d['p']) > 0, 'no rows')
    return {'job': job, 'data': {c: np.array(v) for c, v in d.items()}}


def after(lines, marker, start=0):
    for i in range(start, len(lines)):
        if marker in lines[i]:
            return i
    raise Missing(marker)


def lattice(lines, i):
    m = []
    for r in range(3):
        need(i + 2 + r < len(lines))
        t = lines[i + 2 + r].split()
        need(len(t) == 3, 'lattice row')
        m.append([num(x) for x in t])
    return np.array(m)


def cell(lines, i, off):
    """Number of atoms: by its label or, if words of it are lost, by its place."""
    try:
        a = i + after(lines[i:i + 14], 'ATOMS IN THE UNIT CELL:')
    except Missing:
        a = i + off
    need(a < len(lines) and lines[a].split())
    nat = num(lines[a].split()[-1])
    need(nat == int(nat))
    return int(nat), a


def expansion(lines):
    i = after(lines, 'EXPANSION MATRIX OF PRIMITIVE CELL')
    m = []
    for r in range(3):
        need(i + 1 + r < len(lines))
        t = lines[i + 1 + r].split()
        need(len(t) == 4, 'expansion row')
        m.append([num(x) for x in t[1:]])
    return np.array(m)


def crystal(text, lax=False):
    L = text.split('\n')
    after(L, 'EIGENVALUES (EIGV) OF THE MASS WEIGHTED HESSIAN MATRIX AND HARMONIC')
    wf = after(L, 'GEOMETRY FOR WAVE FUNCTION - ')
    nat, a = cell(L, wf, 8)
    lat = lattice(L, after(L, 'DIRECT LATTICE VECTORS CARTESIAN COMPONENTS', a))
    e = after(L, '    CENTRAL POINT')
    need(len(L[e].split()) > 2)
    E = num(L[e].split()[2])
    scel = any(' * SUPERCELL OPTION' in x for x in L)
    disp = any('PHONON FREQUENCIES AT A SET OF K POINTS BY USING A SUPERCELL' in x for x in L)
    kpts = [x for x in L if 'DISPERSION K POINT NUMBER' in x]
    need(scel == disp and (disp or not kpts), 'supercell or dispersion section')
    out = {'E': E, 'nq': 1, 'w': [1], 'q': [[0, 0, 0]], 'dim': np.eye(3), 'kp': 1, 'energy': E, 'natom': nat,
           'shrink': [1, 1, 1], 'volume': float(np.linalg.det(lat))}
    if disp:
        dim = expansion(L)
        kp = int(round(np.linalg.det(dim)))
        need(kp >= 1)
        out['natom'], _ = cell(L, after(L, 'GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP'), 7)
        try:
            q = after(L, 'ACTIVATED INTERPOLATION OF THE HESSIAN UP TO')
            k = q + 8
        except Missing:
            q = after(L, 'THAT PERMITS THE CALCULATION OF MODES AT')
            k = after(L, 'K       WEIGHT       COORD')
        t = L[q].split()
        need(len(t) >= 4)
        nq = int(num(t[-4]))
        w, qs, sh = [], [], None
        try:
            for i in range(nq):
                need(k + 1 + i < len(L))
                t = L[k + 1 + i].split()
                need(len(t) == 6, 'k point')
                w.append(num(t[2]))
                qs.append([num(x) for x in t[3:6]])
            t = L[k + 1 + nq].split() if k + 1 + nq < len(L) else []
            need(len(t) > 12, 'shrinking factors')
            sh = [num(t[6]), num(t[9]), num(t[12])]
            need(all(sh), 'shrinking factors')
        except Missing:
            need(lax)
        out.update(nq=nq, w=w, q=qs, dim=dim, kp=kp, shrink=sh, energy=E / kp,
                   volume=float(np.linalg.det(np.dot(lat, np.linalg.inv(dim)))))
    n = 3 * out['natom']
    need(n > 0, 'atoms')
    fr = []
    for i in range(len(L)):
        if 'MODES         EIGV          FREQUENCIES     IRREP' not in L[i]:
            continue
        b, k = [], i + 2
        while k < len(L) and L[k].split():
            t = L[k].split()
            need(len(t) > 3 and t[0].endswith('-'), 'mode line')
            a, z = num(t[0][:-1]), num(t[1])
            need(a == int(a) and z == int(z))
            b += [num(t[3])] * int(z - a + 1)
            k += 1
        # CRYSTAL closes the list of modes of a point with an empty line
        need(k < len(L), 'the list of modes ends with the file')
        need(len(b) == n, 'modes')
        fr.append(b)
        if len(fr) == out['nq']:
            break
    need(len(fr) == out['nq'], 'bands')
    out['freq'] = fr
    need(out['energy'] != 0. and out['volume'] != 0.)
    return out


def crystalqha(text):
    L = text.split('\n')
    after(L, 'QUASI-HARMONIC APPROXIMATION')
    e = after(L, 'SORTING VOLUMES/ENERGIES')
    vols, en = [], []
    k = e + 4
    while k < len(L) and len(L[k].split()) == 2:
        t = L[k].split()
        vols.append(num(t[0]))
        en.append(num(t[1]))
        k += 1
    nv = len(vols)
    need(nv >= 4)
    kp, dim = 1, np.eye(3)
    if any(' * SUPERCELL OPTION' in x for x in L):
        dim = expansion(L)
        kp = int(round(np.linalg.det(dim)))
        need(kp >= 1)
    else:
        need(not any('EXPANSION MATRIX OF PRIMITIVE CELL' in x for x in L))
    cells = []
    for i in range(len(L)):
        if 'FINAL OPTIMIZED GEOMETRY' in L[i]:
            nat, a = cell(L, i, 8)
            cells.append((nat, float(np.linalg.det(lattice(L, after(
                L, 'DIRECT LATTICE VECTORS CARTESIAN COMPONENTS', a))))))
    need(len(cells) == nv, 'geometries')
    by = []
    for v in vols:
        m = [c for _, c in cells if math.isclose(c, v, rel_tol=1e-5, abs_tol=1e-8)]
        need(len(m) == 1, 'volume of a geometry')
        by.append(m[0])
    at = [i + 3 for i in range(len(L)) if L[i].split()[:2] == ['FREQUENCY', '#']]
    # the number of atoms is stated by every geometry: one of them may be damaged
    n = [n for n, _ in cells if 3 * n == len(at) and n > 0 and n % kp == 0]
    need(n, 'frequencies')
    nat = n[0] // kp
    fr = []
    for a in at:
        row = []
        for j in range(nv):
            t = L[a + j].split() if a + j < len(L) else []
            need(len(t) == 2, 'frequency line')
            row.append(num(t[1]))
        fr.append(row)
    fr = [fr[3 * nat * q:3 * nat * (q + 1)] for q in range(kp)]
    return {'natom': nat, 'nv': nv, 'kp': kp, 'vols': by, 'E': en, 'freq': fr, 'dim': dim,
            'volume': [v / kp for v in by], 'energy': [x / kp for x in en]}


def csoec(text):
    L = text.split('\n')
    after(L, 'ELASTCON OPTION')
    after(L, 'FINAL RESULTS START')
    i = after(L, 'SYMMETRIZED ELASTIC CONSTANTS') + 2
    m = np.zeros((6, 6))
    for r in range(6):
        need(i + r < len(L))
        t = L[i + r].replace('|', '').split()
        need(len(t) == 6 - r, 'row %d' % r)
        m[r, r:] = [num(x) for x in t]
    d, on = 0., False
    for ln in L:
        on = on or 'GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP' in ln
        if on and 'PRIMITIVE CELL - ' in ln:
            t = ln.split()
            need(len(t) > 1)
            d = num(t[-2]) * 1000.
            break
    return {'stiffness': m + np.triu(m, 1).T, 'density': d}


def vasp(text):
    L = text.split('\n')
    # the last matrix of the last kind printed counts
    t = [k for k in range(len(L)) if 'TOTAL ELASTIC MODULI (kBar)' in L[k]]
    c = [k for k in range(len(L)) if 'SYMMETRIZED ELASTIC MODULI (kBar)' in L[k]]
    need(c)
    i = (t or c)[-1] + 3
    m = np.zeros((6, 6))
    for r in range(6):
        need(i + r < len(L))
        w = L[i + r].split()
        need(len(w) == 7, 'row %d' % r)
        m[r] = [num(x) / 10. for x in w[1:]]
    v = [0, 1, 2, 4, 5, 3]
    return {'stiffness': m[v][:, v], 'density': 0.}


def phonopy(mesh, disp, xml, lax=False):
    """Texts; disp None or xml None: no such file."""
    import xml.etree.ElementTree as ET
    need(disp is not None)
    E = 0.
    if xml is not None:
        try:
            root = ET.fromstring(xml)
        except Exception:
            raise Missing('xml')
        for x in root.findall('calculation/energy/i'):
            if x.attrib.get('name') == 'e_wo_entrp':
                E = num(x.text)
    d, p = load_yaml(mesh), load_yaml(disp)
    nat, nq = yamlnum(d.get('natom')), yamlnum(d.get('nqpoint'))
    need(nat == int(nat) and nat > 0 and nq == int(nq) and nq > 0)
    nat, nq = int(nat), int(nq)
    L = np.array(matrix3(d.get('lattice')))
    try:
        dim = matrix3(p.get('supercell_matrix'))
    except Missing:
        need(lax)
        dim = None
    need(dim is None or round(float(np.linalg.det(np.array(dim)))) >= 1, 'supercell')
    ph = d.get('phonon')
    need(isinstance(ph, list) and len(ph) == nq, 'q-points')
    w, q, f = [], [], []
    for x in ph:
        need(isinstance(x, dict))
        try:
            w.append(yamlnum(x.get('weight')))
            need(isinstance(x.get('q-position'), list) and len(x['q-position']) == 3)
            q.append([yamlnum(v) for v in x['q-position']])
        except Missing:
            need(lax)
        b = x.get('band')
        need(isinstance(b, list) and len(b) == 3 * nat and all(isinstance(v, dict) for v in b))
        f.append([yamlnum(v.get('frequency')) * 1e12 / (299792458. * 100.) for v in b])
    return {'natom': nat, 'nq': nq, 'latt': L, 'w': w, 'q': q, 'dim': dim, 'energy': E,
            'volume': float(np.linalg.det(L)), 'freq': f}


PARSERS = {'qha': qha, 'soec': soec, 'eos': eos, 'crystal': crystal, 'crystal-qha': crystalqha, 'csoec': csoec,
           'vasp': vasp}


def parse(kind, *texts, **kw):
    """-> (model, None) or (None, what is missing). lax: a source from which
    weights and positions of the q-points are not needed"""
    try:
        return (phonopy if kind == 'phonopy' else PARSERS[kind])(*texts, **kw), None
    except Missing as e:
        return None, str(e)


# ------------------------------------------------- the input file of ha and qha
def generated(kind, models, ref=0):
    """What the generated (Q)HA input must state: {name: list of numbers}."""
    m = models[ref]
    if kind == 'crystal-qha':
        V, E = m['volume'], m['energy']
        fr = [[list(b) for b in q] for q in m['freq']]
        w, qs, nq = [1.] * m['kp'], [[0., 0., 0.]] * m['kp'], m['kp']
    else:
        V = [x['volume'] for x in models]
        E = [x['energy'] for x in models]
        nq = m['nq']
        fr = [[[x['freq'][i][j] for x in models] for j in range(3 * m['natom'])] for i in range(nq)]
        w = m['w']
        sh = m.get('shrink', [1, 1, 1])
        qs = [[a / b for a, b in zip(q, sh)] for q in m['q']]
    return {'natom': m['natom'], 'qpoints': nq, 'volume': V, 'energy': E, 'weights': w, 'freq': fr, 'q': qs,
            'supercell': [[int(x) for x in r] for r in np.asarray(m['dim'])]}


def diff_generated(want, text):
    """Compares a generated file with what it must state, to its digits.
    -> None or a description"""
    got, why = parse('qha', text)
    if got is None:
        return 'the generated file lacks: %s' % why
    for k in ('natom', 'qpoints'):
        if int(want[k]) != got[k]:
            return '%s is %s, source %s' % (k, got[k], want[k])
    if got['supercell'] != want['supercell']:
        return 'supercell is %s, source %s' % (got['supercell'], want['supercell'])
    tol = {'volume': 0.6e-8, 'energy': None, 'weights': 1e-9, 'freq': 0.6e-10, 'q': 0.6e-7}
    for k, a in tol.items():
        g, w = np.asarray(got[k], dtype=float), np.asarray(want[k], dtype=float)
        if g.shape != w.shape:
            return '%s has shape %s, source %s' % (k, g.shape, w.shape)
        t = 1e-12 * np.abs(w) if a is None else a + 1e-13 * np.abs(w)
        if not (np.abs(g - w) <= t).all():
            i = tuple(int(x) for x in np.argwhere(~(np.abs(g - w) <= t))[0])
            return '%s%s is %r, source %r' % (k, list(i), float(g[i]), float(w[i]))
    return None


def diff_soec(m, text, tol=1e-12):
    """A generated SOEC input against the source. -> None or a description"""
    L = text.split('\n')
    try:
        g = rows(L, 'full', 1, False)
        d = num(L[7].strip()) if len(L) > 7 else None
    except Missing as e:
        return 'the generated file lacks: %s' % e
    if not (np.abs(g - m['stiffness']) <= 0.5e-4 + 1e-9).all():
        return 'matrix is %s, source %s' % (g.tolist(), m['stiffness'].tolist())
    if d is None or not abs(d - m['density']) <= 0.05 + 1e-9:
        return 'density is %s, source %s' % (d, m['density'])
