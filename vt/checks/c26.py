"""C26: coefficient accessor, triangles, grids, heat maps and tables show the polynomial's own data."""
import os, re, random, shutil, tempfile, itertools
from fractions import Fraction as F
import sympy as sp
from sympy import Rational as R
import numpy as np
from .. import common

RULE = ('random polynomials in 1-5 variables (homogeneous or not, missing monomials, any variable names and order, integer, '
        'fractional, huge, decimal, surd and symbolic coefficients, zero and constants); every accessor, symmetry test and '
        'operation of the coefficient class, the triangle (2, 3 and 4 variables), the LaTeX and image tables, the value and '
        'colour grids, the heat-map image, the contour views and SOS_Manager.set_poly. Oracle: exact arithmetic on the terms. '
        'Non-trivial: a nonzero polynomial.')
ASSUMPTIONS = ['the triangle and the tables are specified for forms (and for polynomials without the last variable, read as dehomogenised forms)',
               'the grid is specified up to degree 18 and size 60, outside of which it is blank',
               'values are compared up to the rounding of double precision; numbers longer than 10 characters are shown with 4 decimals']

a, b, c, d, e = sp.symbols('a b c d e')
MP = {}


def mods():
    if not MP:
        common.use_repo()
        import matplotlib
        matplotlib.use('Agg')
        from triples.utils.expression.coeff import Coeff
        from triples.utils.text_process import coefficient_triangle, short_constant_parser, preprocess_text
        from triples.utils.expression.form import latex_coeffs
        from triples.utils.roots.grid import GridRender, GridPoly
        from triples.gui.sos_manager import SOS_Manager
        from triples.gui import visualize
        MP.update(Coeff=Coeff, tri=coefficient_triangle, scp=short_constant_parser, pt=preprocess_text, lc=latex_coeffs,
                  GR=GridRender, SM=SOS_Manager, vis=visualize)
        SOS_Manager.verbose = False
    return MP


def monoms(n, deg):
    if n == 1:
        return [(deg,)]
    return [(i,) + m for i in range(deg, -1, -1) for m in monoms(n - 1, deg - i)]


def coef(rng, kind):
    if kind == 'int':
        return sp.Integer(rng.choice([-1, 1]) * rng.choice([1, 1, 2, 3, 7, 12, rng.randint(1, 999)]))
    if kind == 'rat':
        return R(rng.choice([-1, 1]) * rng.randint(1, 60), rng.choice([1, 1, 2, 3, 7, 12, 100]))
    if kind == 'big':
        return R(rng.choice([-1, 1]) * rng.randint(1, 10 ** rng.randint(3, 14)), rng.choice([1, 1, rng.randint(1, 10 ** rng.randint(1, 8))]))
    if kind == 'float':
        return sp.Float(rng.choice([-1, 1]) * rng.choice([rng.random() * 5, rng.randint(1, 99) / 4, rng.random() * 1e4]))
    if kind == 'surd':
        return rng.randint(-3, 3) + rng.choice([1, -1, 2]) * sp.sqrt(rng.choice([2, 3, 5]))
    return rng.choice([sp.Symbol('u'), sp.Symbol('u') + 1, sp.Integer(2), 2 * sp.Symbol('u') - sp.Symbol('v')])


def rpoly(rng, n=None, hom=None, kinds=('int', 'int', 'rat', 'big', 'float', 'surd', 'sym'), maxdeg=7, sym=True):
    n = n or rng.choice([1, 2, 3, 3, 3, 3, 4, 4, 5])
    names = rng.choice([list('abcde'), list('xyzwv'), list('cabde'), list('pqrst'), ['x1', 'x2', 'x3', 'x4', 'x5']])[:n]
    if rng.random() < .2:
        rng.shuffle(names)
    G = sp.symbols(names)
    hom = rng.random() < .7 if hom is None else hom
    D = rng.randint(0, maxdeg if n <= 3 else 4)
    kind = rng.choice(kinds)
    ms = monoms(n, D) if hom else [m for k in range(D + 1) for m in monoms(n, k)]
    dens = rng.choice([.15, .5, .9, 1])
    t = {m: coef(rng, kind) for m in ms if rng.random() < dens}
    if sym and rng.random() < .4:     # impose a symmetry
        gens = rng.choice(['cyc', 'sym', 'swap', 'alt'])
        for m in list(t):
            v = t[m]
            orb = {m[k:] + m[:k] for k in range(n)} if gens == 'cyc' else set(itertools.permutations(m)) if gens == 'sym' else \
                {m, (m[1], m[0]) + m[2:]} if n > 1 and gens == 'swap' else {tuple(m[i] for i in p) for p in itertools.permutations(range(n)) if sp.combinatorics.Permutation(list(p)).is_even}
            for q in orb:
                t[q] = v
        if rng.random() < .3 and t:   # ... and break it at one place
            k = rng.choice(sorted(t))
            t[k] = t[k] + 1
    t = {m: v for m, v in t.items() if v != 0}
    if not t:
        return sp.Poly(0, *G), kind
    return sp.Poly(sum(v * sp.Mul(*[g ** i for g, i in zip(G, m)]) for m, v in t.items()), *G, extension=True), kind


def tdict(p):
    return {m: v for m, v in p.terms() if v != 0}


def shown(txt, v):
    """the text stands for the number v (as documented: 4 decimals at least)"""
    s = txt.replace('^', '**')
    s = re.sub(r'(?<=[\d)])(?=[a-z(])', '*', s)
    s = re.sub(r'(?<=[)])(?=\d)', '*', s)
    try:
        w = sp.sympify(s)
    except Exception:
        return False
    if w == v:
        return True
    if v.is_number and w.is_number:
        return abs(sp.N(w - v)) <= 6e-5 * (1 if '.' in txt else 0) + sp.Float(10) ** -9 * abs(sp.N(v)) * (1 if '.' in txt else 0)
    return sp.expand(w - v) == 0


# ------------------------------------------------------------------ the coefficient class
def j_coeff(rng, fail, cnt, obs, M):
    Coeff = M['Coeff']
    p, kind = rpoly(rng)
    n = len(p.gens)
    t = tdict(p)
    C = Coeff(p)
    mode = rng.random()
    if mode < .25:
        C = Coeff({m: v for m, v in p.terms()} if t else {}, is_rational=all(v.is_Rational for v in t.values()))
        if not t:
            n = 0
    if Coeff(C) is not C:
        fail('wrapping a coefficient object', p=p)
    cnt('coeff')
    obs.append((str(p), 'coeff'))
    det = dict(p=p, kind=kind, from_dict=mode < .25)
    if C.nvars != n:
        fail('number of variables', got=C.nvars, **det)
        return
    for m in rng.sample(monoms(n, 3) if n else [(0, 0, 0)], k=min(3, len(monoms(n, 3)) if n else 1)) + list(t)[:6]:
        w = t.get(m, sp.S(0))
        for got in (C(m), C(*m), C(list(m))):
            if got != w:
                fail('coefficient of a monomial', m=m, got=got, want=w, **det)
    if C.is_zero != (not t):
        fail('is_zero', got=C.is_zero, **det)
    hom = len({sum(m) for m in t}) <= 1
    if bool(C.is_homogeneous()) != hom:
        fail('is_homogeneous', got=C.is_homogeneous(), **det)
    if hom and C.degree() != (sum(next(iter(t))) if t else 0):
        fail('degree', got=C.degree(), **det)
    if C.total_degree() != (max(map(sum, t)) if t else 0):
        fail('total degree', got=C.total_degree(), **det)
    if sp.expand(C.poly111() - sum(t.values())) != 0:
        fail('value at ones', got=C.poly111(), **det)
    if {m: v for m, v in C.items() if v != 0} != t:
        fail('items', got=dict(C.items()), **det)
    if t and C.is_rational != all(v.is_Rational for v in t.values()):
        fail('is_rational', got=C.is_rational, **det)
    q = C.as_poly(*p.gens) if rng.random() < .5 else C.as_poly(p.gens)
    if q.gens != p.gens or not (q.as_expr() - p.as_expr()).expand() == 0:
        fail('as_poly', got=q, **det)
    if t:
        q = C.as_poly()
        names = sp.symbols(['abcdefgh'[i] for i in range(n)])
        if tuple(q.gens) != tuple(names) or tdict(q) != tdict(sp.Poly(p.as_expr().xreplace(dict(zip(p.gens, sp.symbols('_t:%d' % n)))).xreplace(dict(zip(sp.symbols('_t:%d' % n), names))), *names, extension=True)):
            fail('as_poly with default names', got=q, **det)
    # symmetry
    if n >= 1:
        from sympy.combinatorics import Permutation, PermutationGroup
        inv = lambda s: all(t.get(tuple(m[i] for i in s), 0) == v for m, v in t.items())
        cyc = inv(tuple(range(1, n)) + (0,))
        sym = all(inv(s) for s in itertools.permutations(range(n)))
        if C.is_cyclic() != cyc:
            fail('is_cyclic', got=C.is_cyclic(), want=cyc, **det)
        if C.is_symmetric() != sym:
            fail('is_symmetric', got=C.is_symmetric(), want=sym, **det)
        cnt('cyclic' if cyc else 'not cyclic')
        for _ in range(2):
            ps = []
            for _ in range(rng.randint(1, 2)):
                s = list(range(n))
                rng.shuffle(s)
                ps.append(Permutation(s))
            want = all(inv(tuple(s.array_form)) for s in ps)
            for arg in (PermutationGroup(*ps), ps) + ((ps[0],) if len(ps) == 1 else ()):
                for f in (C.is_cyclic, C.is_symmetric):
                    if f(arg) != want:
                        fail('symmetry under given permutations', perms=ps, arg=type(arg).__name__, want=want, **det)
            cnt('groups')
    elif C.is_cyclic() is not True or C.is_symmetric() is not True:
        fail('symmetry of zero', **det)
    if n == 3:
        r = C.reflect()
        if {m: v for m, v in r.items() if v != 0} != {(m[1], m[0], m[2]): v for m, v in t.items()} or (t and r.is_rational != C.is_rational):
            fail('reflect', got=dict(r.items()), **det)
    # arithmetic
    if n:
        q, _ = rpoly(rng, n=n)
        q = sp.Poly(q.as_expr().xreplace(dict(zip(q.gens, p.gens))), *p.gens, extension=True)
        if rng.random() < .3 and t:
            q = p if rng.random() < .3 else sp.Poly(sum(v * sp.Mul(*[g ** i for g, i in zip(p.gens, m)]) for m, v in rng.sample(sorted(t.items(), key=str), k=max(1, len(t) // 2))), *p.gens, extension=True)
        u = tdict(q)
        D = Coeff(q) if rng.random() < .7 or any(not v.is_Rational for v in u.values()) else dict(u)
        keep = dict(C.coeffs)
        for nm, S, op in (('sum', C + D, 1), ('difference', C - D, -1)):
            want = {m: t.get(m, 0) + op * u.get(m, 0) for m in set(t) | set(u)}
            got = dict(S.items())
            close = lambda x, y: x == y or sp.expand(x - y) == 0
            if any(not close(got.get(m, 0), want.get(m, 0)) for m in set(got) | set(want)):
                fail(nm, q=q, got=got, **det)
            if list(got) != sorted(got, reverse=True) or any(v == 0 for m, v in got.items() if m in u):
                fail(nm + ': order or zero terms', q=q, got=got, **det)
            if S.is_rational and any(v.free_symbols or not v.is_Rational for v in got.values()):
                fail(nm + ': is_rational', q=q, got=got, **det)
        if C.coeffs != keep:
            fail('an operand was modified', q=q, **det)
        cnt('arithmetic')
    # cancellations
    if t and n:
        m0, D = C.cancel_abc()
        want = tuple(min(m[i] for m in t) for i in range(n))
        if tuple(m0) != want or {tuple(i + j for i, j in zip(m, m0)): v for m, v in D.items() if v != 0} != t or D.is_rational != C.is_rational:
            fail('cancelling the common monomial', got=(m0, dict(D.items())), want=want, **det)
        k, D = C.cancel_k()
        g = 0
        for m in t:
            for i in m:
                g = sp.igcd(g, i)
        if k != g or {tuple(i * (k or 1) for i in m): v for m, v in D.items() if v != 0} != t or D.is_rational != C.is_rational:
            fail('cancelling the common power', got=(k, dict(D.items())), want=g, **det)
        cnt('cancelled', sum(want) + (g > 1))
    Z = Coeff({m: v for m, v in list(t.items()) + [((9,) * max(n, 1), sp.S(0))]})
    Z.clear_zero()
    if Z.coeffs != t:
        fail('clear_zero', got=Z.coeffs, **det)


# ------------------------------------------------------------------ triangle and tables
def pos3(deg):
    return [(deg - i, i - j, j) for i in range(deg + 1) for j in range(i + 1)]


def j_tri(rng, fail, cnt, obs, M):
    p, kind = rpoly(rng, n=rng.choice([2, 3, 3, 3, 4, 4]), hom=True)
    n, t = len(p.gens), tdict(p)
    deg = p.total_degree() if t else rng.randint(0, 5)
    obs.append((str(p), 'triangle'))
    det = dict(p=p, deg=deg)
    if n == 3 and rng.random() < .2 and t:       # dehomogenised form
        p1 = p.eval(p.gens[2], 1)
        if not isinstance(p1, sp.Poly):
            p1 = sp.Poly(p1, *p.gens[:2])
        p1 = sp.Poly(p1.as_expr(), *p.gens, extension=True)
        tr = M['tri'](p1, deg)
        det['dehom'] = p1
    else:
        tr = M['tri'](p) if rng.random() < .6 and t else M['tri'](p, deg)
    if n == 2:
        where = [(i, j) if k == 0 else None for i, j, k in pos3(deg)]
    else:
        where = pos3(deg) if n == 3 else monoms(4, deg)
    cnt('triangle %d' % n)
    if len(tr) != len(where):
        fail('size of the triangle', got=tr, **det)
        return
    for m, txt in zip(where, tr):
        v = t.get(m, sp.S(0)) if m is not None else sp.S(0)
        cnt('triangle cells')
        if (txt == '0') != (v == 0):
            fail('zero cell of the triangle', m=m, txt=txt, v=v, tr=tr, **det)
            break
        if not shown(txt, v):
            fail('cell of the triangle', m=m, txt=txt, v=v, tr=tr, **det)
            break


def j_latex(rng, fail, cnt, obs, M):
    p, kind = rpoly(rng, n=3, hom=True, kinds=('int', 'rat', 'surd', 'big', 'sym'))
    t = tdict(p)
    tab, doc, zeros = rng.random() < .6, rng.random() < .5, rng.choice(['\\textcolor{lightgray}', None, '', '\\z'])
    tex = M['lc'](p, tabular=tab, document=doc, zeros=zeros)
    obs.append((str(p), 'latex', tab, doc, zeros))
    deg = p.total_degree() if t else 0
    det = dict(p=p, tex=tex)
    cnt('latex')
    if doc != tex.startswith('\\renewcommand') or tab != ('tabular' in tex):
        fail('wrapping of the LaTeX table', **det)
    body = tex.split('\\begin{tabular}{' + 'c' * (2 * deg + 1) + '}')[-1].split('\\end{tabular}')[0] if tab else tex.split('\\begin{matrix}')[-1].split('\\end{matrix}')[0]
    rows = [[x.strip() for x in r.split('&')] for r in body.split('\\\\')]
    if len(rows) != deg + 1 or any(len(r) != 2 * deg + 1 for r in rows):
        fail('shape of the LaTeX table', rows=rows, **det)
        return
    zt = (zeros + '{0}') if zeros else '0'
    for j, r in enumerate(rows):
        for k, x in enumerate(r):
            i = (k - j) / 2          # column j + 2 * (i - j), i = row of the monomial
            v = None
            if k >= j and (k - j) % 2 == 0 and (k - j) // 2 <= deg - j:
                i = (k - j) // 2 + j
                v = t.get((deg - i, i - j, j), sp.S(0))
            want = '' if v is None else zt if v == 0 else sp.latex(v)
            cnt('latex cells')
            if not t and x.strip('\\ ') == '0':
                continue
            if x.strip('\\ ').strip() != want.strip('\\ ').strip():
                fail('cell of the LaTeX table', at=(j, k), got=x, want=want, **det)
                return


def j_image(rng, fail, cnt, obs, M):
    p, kind = rpoly(rng, n=3, hom=True, kinds=('int', 'rat', 'big', 'float', 'rat'), maxdeg=6)
    if p.is_zero:
        return
    if rng.random() < .3:
        t = {m: R(1, rng.randint(10 ** 4, 10 ** 6)) if rng.random() < .5 else v for m, v in p.terms() if v.is_Rational}
        if t:
            p = sp.Poly.from_dict(t, *p.gens)
    t = tdict(p)
    deg = p.total_degree()
    dr = tempfile.mkdtemp(prefix='vt26_')
    try:
        import matplotlib.pyplot as plt
        real = plt.savefig
        plt.savefig = lambda *x, **k: open(x[0], 'w').write('x')      # the drawing itself is matplotlib's
        try:
            g = M['GR'].render(p, size=5)
            s = g.save_coeffs(os.path.join(dr, 'x.png'), dpi=20)
        finally:
            plt.savefig = real
    finally:
        shutil.rmtree(dr, ignore_errors=True)
    cnt('image tables')
    obs.append((str(p), 'image'))
    rows = [r.split() for r in s.split('\n\n')]
    for j, r in enumerate(rows):
        want = [t.get((deg - i, i - j, j), sp.S(0)) for i in range(j, deg + 1)]
        if len(r) != len(want) or any(not shown(x, v) for x, v in zip(r, want)):
            fail('row of the image table', p=p, row=r, want=want, s=s)
            return
        cnt('image cells', len(r))
    if len(rows) != deg + 1:
        fail('rows of the image table', p=p, s=s)


# ------------------------------------------------------------------ grid
def j_grid(rng, fail, cnt, obs, M):
    GR = M['GR']
    n = rng.choice([3, 3, 3, 4, 2])
    kinds = ('int', 'rat', 'float', 'surd', 'big')
    maxdeg = rng.choice([6, 6, 12, 20])
    p, kind = rpoly(rng, n=n, hom=True, kinds=kinds, maxdeg=maxdeg)
    if rng.random() < .25:          # one sign everywhere / small negative part
        q = sp.Poly(p.as_expr() ** 2, *p.gens, extension=True) if p.total_degree() <= 5 and not p.is_zero else p
        p = q if rng.random() < .6 else -q
    size = rng.choice([3, 7, 12, 18, 30, 60]) if n == 3 else rng.choice([2, 6, 18]) if n == 4 else rng.choice([5, 60])
    if rng.random() < .05:
        size = 61
    vm, cm = rng.choice(['integer', 'integer', 'integer_lambdify']), rng.choice(['numpy', 'numpy', 'integer'])
    wc = rng.random() < .85
    t = tdict(p)
    g = GR.render(p, size=size, value_method=vm, color_method=cm, with_color=wc)
    cnt('grids')
    cnt('grid ' + vm)
    obs.append((str(p), size, vm, cm))
    det = dict(p=p, size=size, vm=vm, cm=cm)
    coor = monoms(n, size)
    if g.poly != p or g.size != size or [tuple(x) for x in g.grid_coor] != coor or [tuple(x) for x in GR.grid_coor(n, size)] != coor:
        fail('points of the grid', got=(g.poly, g.size, list(g.grid_coor)[:5]), **det)
        return
    vals = g.grid_value
    deg = p.total_degree() if t else 0
    if size > 60 or deg > 18:
        if any(v != 0 for v in np.ravel(vals)) or (wc and any(tuple(x)[:3] != (255, 255, 255) for x in g.grid_color)):
            fail('the grid beyond its limits is not blank', **det)
        cnt('blank')
        return
    cf = [(m, F(int(v.p), int(v.q)) if v.is_Rational else F(float(v))) for m, v in t.items()]
    exact, mag = [], []
    for x in coor:
        ts = [k * np.prod([int(i) ** j for i, j in zip(x, m)], dtype=object) for m, k in cf]
        exact.append(sum(ts, F(0)))
        mag.append(sum(map(abs, ts), F(0)))
    sc = F(1) if vm == 'integer' else F(1, 18 ** deg)
    V = list(np.ravel(vals)) if np.ndim(vals) else [vals] * len(coor)
    if len(V) != len(coor) or (np.ndim(vals) == 0):
        fail('number of values in the grid', got=vals if np.ndim(vals) == 0 else len(V), **det)
        return
    sig = []
    for x, w, mg, v in zip(coor, exact, mag, V):
        err = abs(F(v) if not isinstance(v, sp.Basic) else F(float(v))) if False else abs(F(float(v)) - w * sc)
        if err > mg * sc * F(1, 10 ** 11):
            fail('value of the grid', at=x, got=v, want=float(w * sc), **det)
            return
        sig.append(0 if abs(w) <= mg * F(1, 10 ** 9) and not (vm == 'integer' and all(k.denominator == 1 for _, k in cf)) else (w > 0) - (w < 0))
    cnt('grid values', len(V))
    for v, w in zip(V, exact):
        if w == 0 and vm == 'integer' and all(k.denominator == 1 for _, k in cf) and v != 0:
            fail('value of the grid at a zero', **det)
            return
    if not wc:
        if g.grid_color is not None:
            fail('colours without being asked for', **det)
        return
    col = [tuple(int(q) for q in x)[:3] for x in g.grid_color]
    if len(col) != len(coor):
        fail('number of colours', **det)
        return
    top, low = max(exact), min(exact)
    for x, w, s, v, q in zip(coor, exact, sig, V, col):
        # zero: white; positive: red..yellow (255,*,0); negative: blue..cyan (0,*,255)
        kind_ = 0 if q == (255, 255, 255) else 1 if (q[0], q[2]) == (255, 0) else -1 if (q[0], q[2]) == (0, 255) else None
        if s and kind_ != s or kind_ is None or (not s and w == 0 and float(v) == 0 and kind_ != 0):
            if not (cm == 'integer' and q == (0, 0, 0) and s < 0):
                fail('colour of the grid shows another sign', at=x, value=w, colour=q, **det)
                return
    for sgn, ext in ((1, top), (-1, low)):
        pts = sorted([(abs(w), q[1]) for w, q, s in zip(exact, col, sig) if s == sgn], key=lambda z: z[0])
        if not pts:
            continue
        # larger magnitude: not lighter (up to rounding and the levels), the extreme value is the darkest
        for (w1, q1), (w2, q2) in zip(pts, pts[1:]):
            if q2 > q1 + (1 if cm == 'numpy' else 0) and w2 > w1 * (1 + F(1, 10 ** 6)):
                fail('colours are not ordered like the values', pair=((float(w1), q1), (float(w2), q2)), **det)
                return
        r = [(float(w / abs(ext)) ** (1 / 3), q) for w, q in pts]
        for z, q in r:
            if abs((255 - 255 * z) - q) > (3 if cm == 'numpy' else 30):
                fail('colour level', z=z, q=q, **det)
                return
        cnt('colour levels', len(r))
    if n == 3:
        bg = rng.choice([211, 255, 0])
        img = g.save_heatmap(backgroundcolor=bg)
        byc = dict(zip(coor, col))
        if img.shape != (size + 1, size + 1, 3):
            fail('size of the heat map', **det)
            return
        inside = 0
        for i in range(size + 1):
            tt = i * 15 // 26
            r = 2 * tt
            for k in range(size + 1):
                j = k - tt
                want = (bg,) * 3
                if r <= size and 0 <= j <= size - r:
                    want = byc[(size - r - j, j, r)]
                    inside += 1
                if tuple(int(q) for q in img[i, k]) != want:
                    fail('pixel of the heat map', at=(i, k), got=img[i, k], want=want, **det)
                    return
        cnt('pixels', inside)


# ------------------------------------------------------------------ contour views
def j_view(rng, fail, cnt, obs, M):
    import matplotlib.pyplot as plt
    p, kind = rpoly(rng, n=2, kinds=('int', 'rat'), maxdeg=4)
    x, y = p.gens
    f = p.as_expr() + rng.choice([x * y, x - y, x ** 2 + y])
    rec = {}
    names = ('imshow', 'contour', 'clabel', 'colorbar', 'show', 'figure', 'xlabel', 'ylabel')
    keep = {k: getattr(plt, k) for k in names}
    xr, yr = rng.choice([(-5, 5), (0, 3), (-2, 7)]), rng.choice([(-5, 5), (1, 2), (-1, 4)])
    try:
        for k in names:
            setattr(plt, k, (lambda k: lambda *z, **kw: rec.setdefault(k, (z, kw)))(k))
        two = rng.random() < .5
        if two:
            if f.free_symbols != {x, y}:
                return
            M['vis'].plot_contour(f, xr, yr)
        else:
            gens = (x, y) if rng.random() < .5 else (y, x)
            nn = rng.choice([20, 50])
            M['vis'].plot_f(f, gens, xr, yr, n=nn)
    finally:
        for k in names:
            setattr(plt, k, keep[k])
    obs.append((str(f), xr, yr, two))
    det = dict(f=f, xr=xr, yr=yr, view='contour' if two else 'f')
    (Z, *_), kw = rec['imshow']
    Z = np.array(Z, dtype=float)
    ext = [float(q) for q in kw['extent']]
    if ext != [float(q) for q in xr + yr] or kw.get('origin') != 'lower' or 'show' not in rec:
        fail('extent of the view', kw=kw, **det)
        return
    if two:
        u, v = rec['xlabel'][0][0], rec['ylabel'][0][0]
    else:
        u, v = gens
    g = sp.lambdify((u, v), f, 'math')
    N0, N1 = Z.shape if Z.ndim == 2 else (0, 0)
    for _ in range(40):
        i, j = rng.randrange(N0), rng.randrange(N1)
        X, Y = xr[0] + (xr[1] - xr[0]) * j / (N1 - 1), yr[0] + (yr[1] - yr[0]) * i / (N0 - 1)
        if abs(g(X, Y) - Z[i, j]) > 1e-9 * (1 + abs(Z[i, j])) * 10:
            fail('value of the view', at=(i, j), got=Z[i, j], want=g(X, Y), **det)
            return
    cnt('views')


# ------------------------------------------------------------------ SOS_Manager.set_poly
TEXTS = ['s(a2-ab)', 's(a)2-3s(ab)', 'a3+b3+c3-3abc', 's(a(b-c)2)', 'a2+b2-2ab', 's(a/(b+c))-3/2', '0', 's(a-b)', '(a-b)c', 'abc', '1', '-1/2', '0.5a2-b2', 's(a4-a2bc)',
         'sqrt(2)a2-b2', '(a2+b2)/2-ab', 'a^2+a+1', 'ab-1', 'a+b-2c', 'a-b', '(a-b)(b-c)(c-a)', 'a/b+b/a-2', 's(1/a)', 'c2', 'a2b-b', 'ua2+b2', 's(a2)s(b3)-a5', '1/(a+b)-1/(2c)',
         '(2a-b)/(3(b-2c))', 'p(a+b)-8p(a)', 'a2-b', 'b', 'a2/3-2b2/7', '3-3', 'a2+ib2', '(s(a))4']


def j_setpoly(rng, fail, cnt, obs, M):
    SM, pt = M['SM'], M['pt']
    from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup, SymmetricGroup
    txt = rng.choice(TEXTS)
    ng = rng.choice([3, 3, 3, 4, 2, 5, 1])
    gens = sp.symbols(list(rng.choice(['abcde', 'abcde', 'bacde', 'cabde']))[:ng])
    perm = rng.choice([CyclicGroup(ng), SymmetricGroup(ng), PermutationGroup(Permutation(list(range(ng)))), None])
    kw = dict(gens=tuple(gens), perm=perm, homogenize=rng.random() < .2, dehomogenize=rng.choice([None, None, False, 0, 1, '1', '1/2', 2, 'a', 'x(', -1]),
              standardize_text=rng.choice([None, None, False, 'factor', 'sort', 'expand']), omit_mul=rng.random() < .7, omit_pow=rng.random() < .7,
              render_triangle=rng.random() < .8, render_grid=rng.random() < .5)
    if kw['render_triangle'] and ng not in (3, 4):
        kw['render_triangle'] = False
    det = dict(txt=txt, **kw)
    r = SM.set_poly(txt, **kw)
    obs.append((txt, str(kw)))
    p0, den = pt(txt, gens=tuple(gens), perm=perm or CyclicGroup(ng), return_type='frac')
    if p0 is None:
        if r is not None:
            fail('set_poly of an invalid text', got=r, **det)
        return
    if r is None:
        fail('set_poly refused a polynomial', **det)
        return
    cnt('set_poly')
    p = r['poly']
    want = p0
    if kw['homogenize'] and not p0.is_homogeneous and p0.degree(-1) == 0 and ng > 1:
        D = p0.total_degree()
        want = sp.Poly(sum(v * sp.Mul(*[g ** i for g, i in zip(gens, m)]) * gens[-1] ** (D - sum(m)) for m, v in p0.terms()), *gens, extension=True)
        cnt('homogenized')
    dh = kw['dehomogenize']
    if dh is not None and dh is not False and dh not in ('a', 'x('):
        for g in reversed(gens):
            if want.degree(g) > 0:
                want = sp.Poly(sp.expand(want.as_expr().subs(g, sp.S(dh))), *gens, extension=True)
                cnt('dehomogenized')
                break
    if not isinstance(p, sp.Poly) or p.gens != tuple(gens) or sp.expand(p.as_expr() - want.as_expr()) != 0:
        fail('the polynomial of set_poly', got=p, want=want, **det)
        return
    if not want.is_zero and r['degree'] != want.total_degree():
        fail('the degree of set_poly', got=r['degree'], want=want, **det)
    if not isinstance(r['degree'], (int, sp.Integer)) or r['degree'] < 0:
        fail('the degree of set_poly', got=r['degree'], want=want, **det)
    q, _ = pt(r['txt'], gens=tuple(gens), perm=perm or CyclicGroup(ng), return_type='frac')
    if q is None or not (sp.expand(q.as_expr() - want.as_expr()) == 0 or sp.cancel((q.as_expr() / want.as_expr()) if not want.is_zero else sp.Symbol('z')).is_number):
        fail('the text of set_poly stands for another polynomial', got=r['txt'], reads=q, want=want, **det)
    if (r.get('triangle') is not None) != kw['render_triangle']:
        fail('triangle of set_poly', got=r.get('triangle'), **det)
    if kw['render_triangle'] and want.is_homogeneous:
        D = r['degree']
        t = tdict(want)
        tr = r['triangle']
        where = pos3(D) if ng == 3 else monoms(4, D)
        if len(tr) != len(where) or any(not shown(x, t.get(m, sp.S(0))) for x, m in zip(tr, where)):
            fail('triangle of set_poly', got=tr, want=want, **det)
        cnt('set_poly triangles')
    g = r.get('grid')
    dom = p.domain.is_Numerical and not any(v.is_real is False for v in p.coeffs())
    if kw['render_grid'] and ng in (3, 4) and not want.is_zero and want.is_homogeneous and dom:
        if g is None or g.poly != p or len(g.grid_color) != len(monoms(ng, 60 if ng == 3 else 18)) or not any(tuple(x)[:3] != (255, 255, 255) for x in g.grid_color):
            fail('grid of set_poly', got=g and g.poly, **det)
        cnt('set_poly grids')
    elif g is not None and dom:
        fail('a grid for a polynomial that has none', got=g.poly, **det)


def job(arg):
    kind, si = arg.split(':')
    M = mods()
    rng = random.Random('c26/' + arg)
    bad, obs, c_ = [], [], {}

    def fail(what, **dd):
        bad.append((what, {k: str(v)[:900] for k, v in dd.items()}))

    def cnt(k, n=1):
        c_[k] = c_.get(k, 0) + n
    for _ in range({'coeff': 8, 'tri': 10, 'latex': 4, 'image': 4, 'grid': 1, 'view': 1, 'setpoly': 8}[kind]):
        globals()['j_' + kind](rng, fail, cnt, obs, M)
    return bad, obs, c_


def run(chk):
    jobs = []
    for kind, q, th in (('coeff', 130, 2000), ('tri', 110, 1500), ('latex', 60, 600), ('image', 50, 500), ('grid', 320, 4000), ('view', 40, 300), ('setpoly', 90, 1200)):
        jobs += ['%s:%d/%d' % (kind, chk.seed, i) for i in range(chk.n(q, th))]
    chk.rng.shuffle(jobs)
    mods()
    for i, j, r in common.pmap(job, jobs, cpu=60, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('an accessor or a view raised', {'job': j, 'exc': r[1]})
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        bad, obs, c_ = r[1]
        for o in obs:
            chk.observe(o, nontrivial=not o[0].startswith('Poly(0'), sample=o)
        for k, v in c_.items():
            chk.count(k, v)
        for w, d_ in bad:
            chk.violation(w, dict(d_, job=j))
    for k, m in (('coeff', 300), ('groups', 300), ('arithmetic', 300), ('triangle cells', 3000), ('latex cells', 1000), ('image cells', 300),
                 ('grid values', 20000), ('colour levels', 5000), ('pixels', 5000), ('views', 10), ('set_poly', 200), ('set_poly triangles', 50)):
        chk.require(k, m)
