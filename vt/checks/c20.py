"""C20: root and optimum finders return true points."""
import random, itertools
from fractions import Fraction as F
import sympy as sp
from sympy import Rational as R
import numpy as np
import mpmath as mp
from .. import common

RULE = ('root objects over Q, quadratic, cubic and mixed algebraic numbers and floats (vectors, derivatives, rational spans, '
        'substitution, cyclic sums, (u,v) form, standardisation, approximation); univariate root isolation; zeros planted in '
        'nonnegative ternary forms (rational, conjugate, border, cyclic and not); local minima of grids and of axes and borders; '
        'first-order systems; monotonic branch-and-bound on random boxes. Non-trivial: one object or search judged against direct '
        'high-precision evaluation, exact real-root counting or a brute-force scan.')
ASSUMPTIONS = ['mpmath evaluation at 50 digits and sympy exact real root isolation are trusted',
               'the numerical searches are documented as heuristics: what they return is judged; completeness only on axes, borders, '
               'grids and for the exact resultant search']
a, b, c, x, y, z = sp.symbols('a b c x y z')
G = (a, b, c)


def num(e):
    return mp.mpf(sp.N(sp.sympify(e), 55)) if not isinstance(e, (F,)) else mp.mpf(e.numerator) / e.denominator


def pev(p, vals):
    """Evaluate a rational polynomial at mpf values without the code under test."""
    s = mp.mpf(0)
    for m, k in p.terms():
        t = mp.mpf(k.p) / mp.mpf(k.q) if isinstance(k, sp.Rational) else num(k)
        for v, e in zip(vals, m):
            t *= v ** e
        s += t
    return s


def rform(rng, n, d, k=4, gens=G):
    t = {}
    for m in itertools.product(range(d + 1), repeat=n):
        if sum(m) == d and rng.random() < .8:
            t[m] = R(rng.randint(-k, k))
    return sp.Poly.from_dict(t or {(d,) + (0,) * (n - 1): R(1)}, gens[:n], domain='QQ')


def rrat(rng, k=5, q=3):
    return R(rng.randint(-k, k), rng.randint(1, q))


def j_root(rng, fail, cnt, obs, RR):
    n = rng.choice([2, 3, 3, 3, 4])
    kind = rng.choice(['rat', 'quad', 'quad', 'cubic', 'mixed', 'float'])
    theta, conj = None, None
    if kind == 'rat':
        ent = [rrat(rng) for _ in range(n)]
        g = [[e] for e in ent]
        conj = [mp.mpf(0)]
    elif kind == 'quad':
        d = rng.choice([2, 3, 5, 7])
        theta = sp.sqrt(d)
        g = [[rrat(rng), rng.choice([R(0), rrat(rng)])] for _ in range(n)]
        if all(u[1] == 0 for u in g):
            g[rng.randrange(n)][1] = R(1)
        ent = [u[0] + u[1] * theta for u in g]
        conj = [mp.sqrt(d), -mp.sqrt(d)]
    elif kind == 'cubic':
        m = rng.choice([sp.Poly(x ** 3 - 3 * x + 1), sp.Poly(x ** 3 - x ** 2 - 2 * x + 1), sp.Poly(x ** 3 - 4 * x - 1), sp.Poly(x ** 3 - 7 * x + 7)])
        theta = m.all_roots()[rng.randrange(3)]
        conj = [mp.mpf(sp.N(r_, 55)) for r_ in m.all_roots()]
        g = [rng.choice([[rrat(rng)], [R(0), R(1)], [R(0), R(1)]]) for _ in range(n)]
        g[rng.randrange(n)] = [R(0), R(1)]
        ent = [sum((k * theta ** i for i, k in enumerate(u)), sp.S(0)) for u in g]
    elif kind == 'mixed':
        ent = [rng.choice([sp.sqrt(2), sp.sqrt(3), R(rng.randint(0, 3)), 1 + sp.sqrt(2)]) for _ in range(n)]
    else:
        ent = [sp.Float(rng.uniform(-1, 4), 15) if rng.random() < .8 else R(rng.randint(0, 3)) for _ in range(n)]
    if rng.random() < .15:
        ent[rng.randrange(n)] = sp.S(0)
        g = None if kind in ('mixed', 'float') else [u if e != 0 else [R(0)] for u, e in zip(g, ent)]
    if rng.random() < .1:
        ent = [ent[0]] * n
        g = None if kind in ('mixed', 'float') else [g[0]] * n
    cls = RR.Root if kind in ('rat', 'float') or rng.random() < .2 else RR.RootAlgebraic
    r = cls(tuple(ent))
    algebraic = isinstance(r, RR.RootAlgebraic)
    v = [num(e) for e in ent]
    det = dict(kind=kind, ent=ent, cls=type(r).__name__)
    tol = mp.mpf(10) ** (-9 if kind == 'float' else -30)
    obs.append((kind, str(ent), cls.__name__))
    cnt('root:' + kind)

    def close(got, want, what, scale=1, **kw):
        if not abs(num(got) - want) <= tol * max(1, abs(want)) * scale:
            fail(what, got=got, want=mp.nstr(want, 20), **dict(det, **kw))

    if r.is_corner != (sum(e == 0 for e in ent) > 1) or r.is_border != any(e == 0 for e in ent) or r.is_centered != all(e == ent[0] for e in ent) \
            or r.is_symmetric != (len(set(ent)) < n) or r.is_nontrivial != (not any(e == 0 for e in ent) and len(set(ent)) == n) or len(r) != n:
        fail('classification of a root', **det)
    gens = sp.symbols('a b c d')[:n]
    for _ in range(2):
        p = rform(rng, n, rng.randint(0, 4), gens=gens)
        if rng.random() < .4:
            p = p + rform(rng, n, rng.randint(0, 2), gens=gens)
        w = pev(p, v)
        close(sp.sympify(r.eval(p)), w, 'evaluation', p=p)
        if kind not in ('mixed', 'float') and all(isinstance(e, sp.Rational) for e in ent):
            close(r.eval(p, rational=True), w, 'rational evaluation', p=p)
        close(sp.sympify(r.subs(p.as_expr() + 0, gens)), w, 'substitution', p=p)
        if algebraic:
            close(sp.sympify(r.subs(p, gens)), w, 'substitution in a Poly', p=p)
        q = rform(rng, n, rng.randint(0, 2), gens=gens)
        wq = pev(q, v)
        if abs(wq) > 1e-3:
            close(sp.sympify(r.subs(p.as_expr() / q.as_expr(), gens)), w / wq, 'substitution in a fraction', scale=1e3, p=p, q=q)
            M = sp.Matrix([[p.as_expr(), 1 / q.as_expr()], [sp.Integer(3), q.as_expr() ** 2]])
            S = r.subs(M, gens)
            for e_, w_ in zip(S, (w, 1 / wq, mp.mpf(3), wq ** 2)):
                close(e_, w_, 'substitution in a matrix', scale=1e3, p=p, q=q)
    # vectors of monomials
    d = rng.randint(1, 4)
    df = None if rng.random() < .5 else tuple(rng.randint(0, 2) for _ in range(n))
    if df is not None and n <= 3 and rng.random() < .3:         # high derivatives in one variable
        d = rng.randint(3, 6)
        df = tuple(rng.sample([rng.randint(2, d)] + [0] * (n - 1), n))
    monoms = [m for m in itertools.product(range(d, -1, -1), repeat=n) if sum(m) == d]

    def mv(vals):
        out = []
        for m in monoms:
            t = mp.mpf(1)
            for vv, e, k in zip(vals, m, df or (0,) * n):
                f = 1
                for i in range(k):
                    f *= e - i
                t *= f * (vv ** (e - k) if e >= k else 0)
            out.append(t)
        return out
    want = mv(v)
    vec = r.as_vec(d, diff=df)
    cnt('vectors')
    if len(vec) != len(want):
        fail('length of the monomial vector', d=d, **det)
        return
    for e, w in zip(vec, want):
        close(e, w, 'monomial vector', d=d, diff=df)
    nv = r.as_vec(d, diff=df, numer=True)
    if not np.allclose(np.array(nv, dtype=float).flatten(), [float(w) for w in want], rtol=1e-9, atol=1e-9):
        fail('numeric monomial vector', d=d, diff=df, **det)
    if algebraic and kind in ('rat', 'quad', 'cubic') and g is not None and any(abs(w) > 0 for w in want):
        # the rational span: same column space as all conjugate vectors
        S = r.span(d, diff=df)
        if any(not isinstance(e, sp.Rational) and not (isinstance(e, sp.Float)) for e in S):
            fail('span is not rational', S=S, **det)
        cols = []
        for t in conj:
            vals = [sum((num(k) * t ** i for i, k in enumerate(u)), mp.mpf(0)) for u in g]
            cols.append(mv(vals))
        A = np.array([[float(k) for k in col] for col in cols]).T
        B = np.array(S.tolist(), dtype=float)
        B = B[:, [i for i in range(B.shape[1]) if np.isfinite(B[:, i]).all()]]
        sc = lambda M: M / np.maximum(1e-30, np.abs(M).max(axis=0)) if M.size else M
        rk = lambda M: np.linalg.matrix_rank(M, tol=1e-7) if M.size else 0
        A, B = sc(A), sc(B)
        ra, rb, rab = rk(A), rk(B), rk(np.hstack([A, B]))
        cnt('spans')
        if not (ra == rb == rab):
            fail('rational span differs from the span of the conjugates', S=S, d=d, diff=df, ranks=(ra, rb, rab), **det)
    if n != 3:
        return
    s = sum(v)
    if abs(s) < 1e-3:
        if isinstance(r, RR.RootTernary) and not r.is_centered:
            rs = r.standardize()
            if tuple(rs.root) != tuple(r.root):
                fail('standardisation of a root whose sum is zero', rs=rs, **det)
        return
    if abs(s) < .2 * max(map(abs, v)) and det.get('kind') == 'float':
        return          # cancellation amplifies the rounding of floating coordinates
    w3 = [t / s for t in v]
    for _ in range(4):
        m = tuple(rng.randint(0, 4) for _ in range(3))
        want = sum(w3[i] ** m[0] * w3[(i + 1) % 3] ** m[1] * w3[(i + 2) % 3] ** m[2] for i in range(3))
        if r.is_centered or not r.is_corner or isinstance(r, RR.RootAlgebraic):
            close(r.cyclic_sum(m), want, 'cyclic sum', scale=1e4, m=m)
            cnt('cyclic sums')
    if not r.is_corner:
        u_, v_ = [num(t) for t in r.uv()]
        A_, B_, C_ = v
        for i in range(3):
            if r.is_centered:
                break
            A_, B_, C_ = B_, C_, A_
            e = A_ ** 2 - B_ ** 2 + u_ * (A_ * B_ - A_ * C_) + v_ * (B_ * C_ - A_ * B_)
            if abs(e) > tol * 1e4 * (1 + abs(u_) + abs(v_)) * max(map(abs, v)) ** 2:
                fail('(u,v) does not satisfy its equation', uv=r.uv(), **det)
                break
        close(r.ker(), u_ ** 2 - u_ * v_ + v_ ** 2 + u_ + v_ + 1, 'kernel value', scale=1e4)
        P = r.poly(x)
        for t in w3:
            k = [num(q) for q in P.all_coeffs()]
            if abs(sum(q * t ** i for i, q in enumerate(k[::-1]))) > 1e-7:
                fail('polynomial of the three coordinates', P=P, **det)
        cnt('uv')
    for inplace in (False, True):
        cyc = rng.random() < .5
        if inplace:
            rs = r.standardize(cyc=cyc, inplace=True)
            if rs is not r:
                fail('in-place standardisation returned another object', **det)
        else:
            rs = r.standardize(cyc=cyc)
        sv = [num(t) for t in rs.root]
        perm = [[3 * w3[(i + k) % 3] for i in range(3)] for k in (range(3) if cyc else [0])]
        if not any(all(abs(p_ - q_) < 1e-8 for p_, q_ in zip(sv, pp)) for pp in perm):
            fail('standardised root is not the same point', rs=rs, cyc=cyc, inplace=inplace, **det)
        if cyc and sv[0] < max(sv) - mp.mpf(10) ** -12:
            fail('standardised root is not ordered', rs=rs, **det)
        cnt('standardise')
        # the object must stay coherent
        p = rform(rng, 3, 2)
        w = pev(p, sv)
        if abs(num(rs.eval(p)) - w) > 1e-7 or abs(num(rs.subs(p.as_expr(), G)) - w) > 1e-7:
            fail('standardised root evaluates to different values', inplace=inplace, p=p, rs=rs, want=mp.nstr(w, 15), e=rs.eval(p), sub=rs.subs(p.as_expr(), G), **det)
        if not r.is_corner or isinstance(rs, RR.RootAlgebraic):
            m = (2, 1, 0)
            w3s = [t / sum(sv) for t in sv]
            want = sum(w3s[i] ** m[0] * w3s[(i + 1) % 3] ** m[1] * w3s[(i + 2) % 3] ** m[2] for i in range(3))
            if abs(num(rs.cyclic_sum(m)) - want) > 1e-7:
                fail('cyclic sum after standardisation', inplace=inplace, rs=rs, **det)
    w3 = [num(t) for t in r.root]
    w3 = [t / sum(w3) for t in w3]
    if all(t >= 0 for t in w3):
        ap = r.approximate()
        av = [num(t) for t in ap.root]
        if sum(av) == 0 or max(abs(3 * t / sum(av) - 3 * u) for t, u in zip(av, w3)) > 4e-3:
            fail('approximation moved the point', ap=ap, **det)
        cnt('approximate')


def j_uv(rng, fail, cnt, obs, RR):
    u = rng.choice([R(rng.randint(-3, 6), rng.randint(1, 3)), sp.Float(rng.uniform(-2, 4)), rng.randint(0, 4)])
    v = rng.choice([R(rng.randint(-3, 6), rng.randint(1, 3)), sp.Float(rng.uniform(-2, 4)), rng.randint(0, 4)]) if not isinstance(u, sp.Float) else sp.Float(rng.uniform(-2, 4))
    if rng.random() < .15 and u != 0:
        v = 1 / sp.S(u)
    un, vn = num(u), num(v)
    if abs(un + 1) + abs(vn + 1) < .2 or abs(un - 2) + abs(vn - 2) < .05:
        return
    if isinstance(v, sp.Float) and not isinstance(u, sp.Float):
        u = sp.Float(u)
    r = RR.RootTernary.from_uv(u, v)
    cnt('from uv')
    obs.append(('uv', str(u), str(v)))
    A_, B_, C_ = [mp.mpmathify(sp.N(t, 40)) for t in r.root]
    for i in range(3):
        A_, B_, C_ = B_, C_, A_
        e = A_ ** 2 - B_ ** 2 + un * (A_ * B_ - A_ * C_) + vn * (B_ * C_ - A_ * B_)
        if abs(e) > 1e-6:
            fail('root built from (u,v) does not satisfy the equation', u=u, v=v, r=r, e=e)
            return
    if not r.is_corner and not r.is_centered:
        uu, vv = r.uv()
        if abs(num(uu) - un) + abs(num(vv) - vn) > 1e-5 * (1 + abs(un) + abs(vn)):
            fail('root built from (u,v) reports another (u,v)', u=u, v=v, r=r, uv=(uu, vv))


def j_nroots(rng, fail, cnt, obs, RR):
    from triples.utils.roots.findroot import find_nearest_root

    def rpoly(d, k=6):
        co = [R(rng.randint(-k, k), rng.choice([1, 1, 1, 2, 3])) for _ in range(d + 1)]
        co[0] = co[0] or R(1)
        return sp.Poly(co, x, domain='QQ')
    p = rpoly(rng.randint(1, 5), rng.choice([3, 6, 30]))
    if rng.random() < .5:
        p = p * rpoly(rng.randint(1, 2), 3) ** rng.randint(2, 3)
    if rng.random() < .2:
        p = p * sp.Poly(x, x, domain='QQ') ** rng.randint(1, 2)
    rts = [(R(u), R(v), m) for (u, v), m in p.intervals(eps=R(1, 10 ** 14))]
    got = RR.nroots(p, method='factor', real=True)
    cnt('nroots')
    obs.append(('nroots', str(p)))
    det = dict(p=p, got=got)
    if len(got) != len(rts):
        fail('number of distinct real roots', want=len(rts), **det)
    else:
        for g, (u, v, _) in zip(sorted(got), rts):
            if isinstance(g, sp.Rational):
                if p(g) != 0:
                    fail('rational root is not a root', g=g, **det)
            elif abs(R(g) - u) > R(1, 10 ** 9) * max(1, abs(u)):
                fail('real root inaccurate', g=g, **det)
        if sum(isinstance(g, sp.Rational) for g in got) != sum(f.degree() == 1 for f, _ in p.factor_list()[1]):
            fail('rational roots are not exact', **det)
    full = RR.nroots(p, method='factor')
    if len(full) != p.sqf_part().degree():
        fail('number of distinct roots', full=full, **det)
    nn = RR.nroots(p, method='factor', real=True, nonnegative=True)
    want = sum(1 for u, v, _ in rts if v > 0 or (u == v == 0))
    if len(nn) != want or any(not g >= 0 for g in nn):
        fail('nonnegative roots', want=want, nn=nn, **det)
    for meth in ('numpy', 'sympy'):
        g = RR.nroots(p, method=meth)
        if len(g) != p.degree():
            fail('number of roots with multiplicity', method=meth, p=p, g=g)
            continue
        re = np.poly([complex(t) for t in g])
        w = np.array([complex(t) for t in p.monic().all_coeffs()])
        if np.abs(re - w).max() > 1e-5 * max(1, np.abs(w).max()):
            fail('roots do not rebuild the polynomial', method=meth, p=p, g=g)
    sq = p.sqf_part()
    if sq.degree() <= 4 and rts and len(set(u for u, _, _ in rts)) == len(rts):
        if min([v[0] - u[1] for u, v in zip(rts, rts[1:])] or [1]) > R(1, 10 ** 3):
            u = rng.choice(rts)
            e = find_nearest_root(sq, sp.Float(u[0], 20) + rng.choice([0, 1e-6, -1e-6]))
            cnt('nearest')
            if abs(num(e) - num(u[0])) > 1e-8 or abs(num(sp.N(sq.as_expr().subs(x, sp.N(e, 60)), 55))) > 1e-20:
                fail('nearest root', e=e, at=u[0], p=sq)


def j_isolate(rng, fail, cnt, obs, RR):
    """the points of univariate_intervals separate all real roots; find_nearest_root among close real parts"""
    from triples.utils.roots.findroot import find_nearest_root

    def rpoly(d, k=6):
        co = [R(rng.randint(-k, k), rng.choice([1, 1, 1, 2, 3])) for _ in range(d + 1)]
        co[0] = co[0] or R(1)
        return sp.Poly(co, x, domain='QQ')
    ps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = rpoly(rng.randint(1, 3))
        for _ in range(rng.choice([0, 1, 1, 2])):
            p = p * rpoly(rng.choice([1, 1, 1, 2]), 9) ** rng.choice([1, 2, 3, 4, 4, 5, 6])
        ps.append(p)
    arg = ps[0] if len(ps) == 1 and rng.random() < .6 else ps
    pts = list(RR.univariate_intervals(arg))
    cnt('isolations')
    obs.append(('isolate', str(ps)))
    det = dict(polys=ps, points=pts)
    if any(not isinstance(t, sp.Rational) for t in pts):
        fail('isolating points are not rational', **det)
        return
    prod = sp.Poly(1, x, domain='QQ')
    for p in ps:
        prod = sp.lcm(prod, p.sqf_part())
    # real roots of the product, counted exactly by Sturm sequences
    total = prod.count_roots()
    if total:
        u = sorted(set(pts))
        if not u or prod.count_roots(u[0], u[-1]) != total:
            fail('a real root lies outside of the isolating points', **det)
        elif any(prod.count_roots(a, b) - (prod.eval(a) == 0) - (prod.eval(b) == 0) > 1 for a, b in zip(u, u[1:])):
            fail('two real roots are not separated', **det)
    # a complex pair whose real part is closer to the approximation than the root
    k = rng.choice([1, 1, 2])
    q = rng.choice([R(rng.randint(-9, 9), rng.randint(1, 5)), R(2), R(3, 2), R(7)])
    base = sp.Poly(x - q, x, domain='QQ') if k == 1 else sp.Poly(x ** 2 - abs(q) - 1, x, domain='QQ')
    root = q if k == 1 else sp.sqrt(abs(q) + 1) * rng.choice([1, -1])
    app = R(str(sp.N(root, 25))) + R(rng.choice([1, -1]), 10 ** rng.randint(4, 7))
    near = app + R(rng.choice([-1, 0, 1]), 10 ** 9)
    p = base * sp.Poly((x - near) ** 2 + R(rng.choice([1, 1, 4]), rng.choice([1, 100])), x, domain='QQ')
    for meth in ('rootof', 'roots'):
        e = find_nearest_root(p, sp.Float(app, 20), method=meth)
        cnt('nearest with a close complex pair')
        if abs(complex(sp.N(e, 30)) - complex(root)) > 1e-12:
            fail('nearest root', e=e, at=app, p=p, method=meth)


def plant(rng, cyc):
    """A nonnegative form with zeros at known points (rational or conjugate pairs)."""
    n = rng.choice([1, 1, 2]) if not cyc else 1
    pts = []
    conjs = []
    for _ in range(n):
        k = rng.random()
        if k < .5:
            P = [R(rng.randint(1, 5)) for _ in range(3)]
            if rng.random() < .3:
                P[rng.randrange(3)] = R(0)
            if cyc and rng.random() < .2:
                P[1] = P[0]
            conjs.append((P,))
        else:
            d = rng.choice([2, 3, 5])
            g = [(R(rng.randint(0, 3)), R(rng.randint(-1, 2))) for _ in range(3)]
            if all(u[1] == 0 for u in g):
                g[0] = (g[0][0], R(1))
            P = [u[0] + u[1] * sp.sqrt(d) for u in g]
            Q = [u[0] - u[1] * sp.sqrt(d) for u in g]
            conjs.append((P, Q))
        if sum(t == 0 for t in conjs[-1][0]) > 1:
            return None
    deg = 2 if all(len(t) == 1 for t in conjs) else 3
    monoms = [m for m in itertools.product(range(deg, -1, -1), repeat=3) if sum(m) == deg]
    rows = []
    for cj in conjs:
        P = cj[0]
        for k in (range(3) if cyc else [0]):
            PP = P[k:] + P[:k]
            vals = [sp.expand(PP[0] ** m[0] * PP[1] ** m[1] * PP[2] ** m[2]) for m in monoms]
            if len(cj) == 1:
                rows.append(vals)
            else:
                rt = sorted({q for t in vals for q in t.atoms(sp.Pow) if q.exp == R(1, 2)}, key=str)
                rt = rt[0] if rt else sp.sqrt(2)
                co = [sp.Poly(t, rt) for t in vals]
                rows.append([t.coeff_monomial(1) for t in co])
                rows.append([t.coeff_monomial(rt) for t in co])
    N = sp.Matrix(rows).nullspace()
    if len(N) < 2:
        return None
    p = sp.Poly(0, *G, domain='QQ')
    for _ in range(2 if cyc else 3):
        w = sum((rng.randint(-2, 2) * u for u in N), sp.zeros(len(monoms), 1))
        q = sp.Poly.from_dict({m: t for m, t in zip(monoms, w) if t != 0} or {monoms[0]: 0}, *G, domain='QQ')
        sqs = [q]
        if cyc:
            sqs = [sp.Poly.from_dict({(m[k:] + m[:k]): t for m, t in q.terms()}, *G, domain='QQ') for k in range(3)]
        for s in sqs:
            p = p + s ** 2
    if p.is_zero:
        return None
    return p, conjs


def same_point(u, v, tol=1e-9):
    """Proportional (up to sign)?"""
    k = max(range(3), key=lambda i: abs(v[i]))
    if abs(u[k]) < 1e-14:
        return False
    return all(abs(u[i] / u[k] - v[i] / v[k]) < tol for i in range(3))


def j_resultant(rng, fail, cnt, obs, RR):
    cyc = rng.random() < .5
    q = plant(rng, cyc)
    if q is None:
        return
    p, conjs = q
    roots = RR.findroot_resultant(p)
    cnt('resultant')
    obs.append(('resultant', str(p.as_expr())))
    vals = []
    scale = sum(abs(num(k)) for k in p.coeffs())
    for r in roots:
        v = [mp.mpf(sp.N(t, 55)) for t in r.root]
        vals.append(v)
        m = max(map(abs, v))
        if abs(pev(p, [t / m for t in v])) > mp.mpf(10) ** -35 * scale:
            fail('returned point is not a zero', p=p, r=r)
    fl = p.factor_list()[1]
    irr = len(fl) == 1 and fl[0][1] == 1
    deg1 = not irr and True
    if irr:
        cnt('resultant irreducible')
        for cj in conjs:
            cands = []
            for P in cj:
                v = [num(t) for t in P]
                for k in (range(3) if cyc else [0]):
                    cands.append(v[k:] + v[:k])
            if not any(same_point(u, w) for u in vals for w in cands):
                fail('a real zero has no representative among the roots found', p=p, zero=cj[0], roots=roots, cyc=cyc)
            cnt('resultant zeros')


def brute_minima(p, n):
    val = {}
    for i in range(n + 1):
        for j in range(n + 1 - i):
            k = n - i - j
            s = F(0)
            for m, t in terms(p):
                s += t * i ** m[0] * j ** m[1] * k ** m[2]
            val[(i, j, k)] = s
    out, weak = set(), set()        # ties between neighbours are decided by rounding
    top = max(map(abs, val.values())) * F(1, 10 ** 12)
    for (i, j, k), v in val.items():
        if 0 in (i, j, k) or len({i, j, k}) < 3:
            continue
        near = min(val[q] for q in ((i, j - 1, k + 1), (i + 1, j - 1, k), (i - 1, j, k + 1), (i - 1, j + 1, k), (i + 1, j, k - 1), (i, j + 1, k - 1)))
        if v + top < near:
            out.add((i, j, k))
        if v - top <= near:
            weak.add((i, j, k))
    return out, weak


def terms(p):
    return [(m, F(int(k.p), int(k.q))) for m, k in p.terms()]


def j_findroot(rng, fail, cnt, obs, RR):
    kind = rng.choice(['plant', 'plant', 'cycl', 'sym', 'acyc', 'float'])
    if kind == 'plant':
        q = plant(rng, rng.random() < .7)
        if q is None:
            return
        p = q[0]
    elif kind == 'acyc':
        p = rform(rng, 3, rng.randint(2, 5))
    else:
        q = rform(rng, 3, rng.randint(2, 5))
        p = sp.Poly(0, *G, domain='QQ')
        for k in range(3):
            p = p + sp.Poly.from_dict({m[k:] + m[:k]: t for m, t in q.terms()}, *G, domain='QQ')
        if kind == 'sym':
            p = p + sp.Poly.from_dict({m[::-1]: t for m, t in p.terms()}, *G, domain='QQ')
        if kind == 'float':
            p = sp.Poly(p.as_expr() / 7, *G, domain='RR')
    if p.is_zero or p.total_degree() < 1:
        return
    is_cyc = all(p.coeff_monomial(m[1:] + m[:1]) == k for m, k in p.terms())
    most = rng.choice([2, 5, 50, 50])
    try:
        info = RR.findroot(p, most=most, method=rng.choice(['nsolve', 'nsolve', 'nsolve', 'bfgs', 'l-bfgs-b', 'cg']))
    except ZeroDivisionError:
        raise
    cnt('findroot')
    obs.append(('findroot', str(p.as_expr()), most))
    det = dict(p=p, roots=info.roots, strict=info.strict_roots)
    pe = p if p.domain.is_QQ or p.domain.is_ZZ else sp.Poly(p.as_expr(), *G)
    pts, values = [], []
    for r in info.roots:
        try:
            v = [mp.mpf(sp.N(t, 40)) for t in r.root]
        except Exception:
            fail('root is not a real point', r=r, **det)
            continue
        if max(map(abs, v)) == 0:
            fail('zero root', **det)
            continue
        m = max(map(abs, v))
        v = [t / m for t in v]
        pts.append(v)
    if len(info.roots) > most:
        fail('more roots than asked for', most=most, **det)
    scale = sum(abs(num(k)) for k in p.coeffs()) * p.total_degree() ** 2
    for t in info.strict_roots:
        v = [mp.mpf(sp.N(u, 40)) for u in t.root]
        m = max(map(abs, v))
        if abs(pev(pe, [u / m for u in v])) > 1e-4 * scale and pev(pe, v) > info.reg:
            fail('strict root is not a zero', r=t, value=mp.nstr(pev(pe, v), 10), **det)
        if not any(t == r for r in info.roots):
            fail('strict root missing among the roots', r=t, **det)
    grads = [pe.diff(g) for g in G]
    for r, v in zip(info.roots, pts):
        gr = [pev(q, v) for q in grads]
        nz = [i for i in range(3) if abs(v[i]) > 1e-9]
        eq = [(i, j) for i, j in ((0, 1), (1, 2), (0, 2)) if abs(v[i] - v[j]) < 2e-3]
        lim = 2e-2 * scale
        f0 = pev(pe, v)
        dgr = p.total_degree()
        # stationarity on the projective line/plane: gradient parallel to nothing but the radial direction,
        # i.e. d/dv_i with the last coordinate fixed; radial part is deg*f
        if len(nz) == 3 and not eq:
            k = max(range(3), key=lambda i: abs(v[i]))
            # remove radial component: dehomogenised at the largest coordinate
            if max(abs(gr[i]) for i in range(3) if i != k) > lim and (r.root[2] != 0 and max(abs(gr[0]), abs(gr[1])) > lim) and not simplex_ok(v, gr, lim):
                fail('interior point is not stationary', r=r, grad=[mp.nstr(t, 5) for t in gr], **det)
            cnt('interior points')
    if most == 50:
        # completeness on the axis (r,1,1) and on the borders
        def axis(sub):
            g = sp.Poly(pe.as_expr().subs(sub), x)
            if g.degree() < 1:
                return []
            g = sp.Poly(g, x, domain='QQ') if pe.domain.is_QQ or pe.domain.is_ZZ else None
            if g is None:
                return []
            d1, d2 = g.diff(), g.diff().diff()
            out = []
            if d1.degree() < 1:
                return []
            for (u, v), _ in d1.intervals(eps=R(1, 10 ** 12), inf=0):
                s = d2((u + v) / 2)
                if s > R(1, 10 ** 6):
                    out.append((u + v) / 2)
            return out
        wanted = [('axis', [t, R(1), R(1)]) for t in axis({a: x, b: 1, c: 1}) if t > R(1, 100)]
        if is_cyc:
            wanted += [('border', [t, R(1), R(0)]) for t in axis({a: x, b: 1, c: 0})]
        else:
            wanted += [('border', [t, R(1), R(0)]) for t in axis({a: x, b: 1, c: 0})]
            wanted += [('border', [R(0), t, R(1)]) for t in axis({a: 0, b: x, c: 1})]
            wanted += [('border', [R(1), R(0), t]) for t in axis({a: 1, b: 0, c: x})]
        for what, w in wanted:
            v = [num(t) for t in w]
            cands = [v[k:] + v[:k] for k in (range(3) if is_cyc else [0])]
            cnt('axis and border minima')
            s = lambda q: [t / sum(q) for t in q]
            if not any(max(abs(i - j) for i, j in zip(s(u), s(q))) < 4e-3 for u in pts if abs(sum(u)) > 1e-9 for q in cands):
                fail('a minimum on the %s is missing' % what, point=w, **det)


def simplex_ok(v, gr, lim):
    """Stationary for the normalisation a+b+c const (radial part removed)?"""
    s = sum(v)
    t = sum(g * u for g, u in zip(gr, v)) / s if abs(s) > 1e-9 else 0
    return max(abs(g - t) for g in gr) <= lim


def j_grid(rng, fail, cnt, obs, RR):
    cyc = rng.random() < .6
    n = rng.choice([12, 20, 31, 45, 60])
    q = None
    for _ in range(4):
        q = plant(rng, cyc)
        if q:
            break
    if q is None:
        return
    p = q[0]
    g = RR.GridRender.render(p, size=n, value_method=rng.choice(['integer', 'integer', 'integer_lambdify']))
    cnt('grid minima')
    obs.append(('grid', str(p.as_expr()), n, cyc))
    want, weak = brute_minima(p, n)
    got = g.local_minima(filter_nontrivial=True, cyc=cyc)
    gs = {tuple(int(t) for t in r.root) for r in got}
    rot = lambda S: {max(t, t[1:] + t[:1], t[2:] + t[:2]) for t in S}
    w, h, k = (rot(want), rot(gs), rot(weak)) if cyc else (want, gs, weak)
    cnt('grid minima found', len(h))
    if not w <= h <= k:
        fail('local minima of the grid', p=p, n=n, cyc=cyc, missing=sorted(w - h), extra=sorted(h - k))


def j_kkt(rng, fail, cnt, obs, RR):
    S = [x, y, z][:rng.randint(1, 3)]
    E = lambda: sp.expand(sum(rng.randint(-3, 3) * sp.prod([t ** rng.randint(0, 2) for t in S]) for _ in range(3)) + rng.choice(S))
    f = E()
    ineq = [E() for _ in range(rng.randint(0, 2))]
    eq = [E() for _ in range(rng.randint(0, 2))]
    if not f.free_symbols:
        return
    mode = rng.choice(['expr', 'poly', 'mixed'])
    conv = lambda e: e if mode == 'expr' or (mode == 'mixed' and rng.random() < .5) or not e.free_symbols else sp.Poly(e, *sorted(e.free_symbols, key=str))
    ws, ap = rng.random() < .3, rng.random() < .5
    F_, I_, E_ = conv(f), [conv(t) for t in ineq], [conv(t) for t in eq]
    keep = (list(I_), list(E_))
    sysm, (s0, la, mu, sy) = RR.kkt(F_, I_, E_, as_poly=ap, with_self=ws)
    cnt('kkt')
    obs.append(('kkt', str(f), str(ineq), str(eq), mode))
    det = dict(f=f, ineq=ineq, eq=eq, mode=mode, sys=sysm)
    allv = set(f.free_symbols).union(*[t.free_symbols for t in ineq + eq]) if ineq + eq else set(f.free_symbols)
    if (I_, E_) != keep or len(la) != len(ineq) or len(mu) != len(eq) or tuple(sy) != tuple(s0) + tuple(la) + tuple(mu) or set(s0) != allv:
        fail('symbols of the first-order system', syms=sy, **det)
        return
    if len(sysm) != len(s0) + len(ineq) + len(eq) + ws or any(isinstance(t, sp.Poly) != ap for t in sysm):
        fail('shape of the first-order system', **det)
        return
    if ap and any(t.gens != tuple(sy) for t in sysm):
        fail('generators of the first-order system', **det)
    L = f - sum(l * t for l, t in zip(la, ineq)) + sum(m * t for m, t in zip(mu, eq))
    want = [sp.diff(L, t) for t in s0] + [l * t for l, t in zip(la, ineq)] + eq + ([f] if ws else [])
    for i, (g, w) in enumerate(zip(sysm, want)):
        if sp.expand(g.as_expr() - w) != 0:
            fail('equation of the first-order system', i=i, got=g, want=w, **det)


def j_rpa(rng, fail, cnt, obs, RR):
    np.random.seed(rng.randint(0, 2 ** 31))
    n = rng.choice([1, 1, 2, 2])
    gens = (x, y)[:n]
    P = lambda d: sp.Poly(sum((rng.randint(-3, 3) * sp.prod([t ** rng.randint(0, d) for t in gens]) for _ in range(rng.randint(2, 4))), sp.S(0)) + rng.choice(gens), *gens, domain='QQ')
    # difference of monotone parts
    p = P(3)
    low = rng.choice([None, [R(rng.randint(-4, 2)) for _ in gens]])
    f1, f2 = RR.poly_as_dm(p, list(low) if low else None)
    cnt('monotone parts')
    if sp.expand((f1 - f2 - p).as_expr()) != 0:
        fail('monotone parts do not rebuild the polynomial', p=p, low=low, f1=f1, f2=f2)
    lo = [float(t) for t in (low or [R(0)] * n)]
    for f in (f1, f2):
        for g in gens:
            d = sp.lambdify(gens, f.diff(g).as_expr())
            for _ in range(30):
                pt = [l + rng.choice([0, rng.uniform(0, 1), rng.uniform(0, 8)]) for l in lo]
                if d(*pt) < -1e-9:
                    fail('part is not increasing', p=p, low=low, f=f, at=pt)
                    break
    ineq = [P(2) for _ in range(rng.randint(0, 2))]
    if rng.random() < .5:
        g = rng.choice(gens)
        ineq.append(sp.Poly(rng.choice([g - rng.randint(-1, 1), 1 - g, 2 - g ** 2, g ** 2 - 1, 2 * g + 1]), *gens, domain='QQ'))
    rng.shuffle(ineq)
    A = [float(rng.choice([-2, -1, 0])) for _ in gens]
    B = [float(rng.choice([1, 2, 3])) for _ in gens]
    Ain, Bin = (list(A), list(B)) if rng.random() < .7 else (tuple(A), tuple(B))
    tol = rng.choice([1e-1, 1e-2])
    keep = list(ineq)
    res = RR.rpa_polyopt(p, ineq, a=Ain, b=Bin, tol=tol, max_iter=400)
    cnt('rpa')
    obs.append(('rpa', str(p), str(ineq), str((A, B))))
    det = dict(p=p, ineq=ineq, box=(A, B), res=res, tol=tol)
    if list(Ain) != A or list(Bin) != B or ineq != keep:
        fail('argument modified', now=(Ain, Bin), **det)
    fs = sp.lambdify(gens, p.as_expr())
    gs = [sp.lambdify(gens, q.as_expr()) for q in ineq]
    if res.x is not None:
        cnt('rpa found')
        X = [float(t) for t in res.x]
        if any(t < l - 1e-9 or t > u + 1e-9 for t, l, u in zip(X, A, B)):
            fail('point outside the box', **det)
        if any(g(*X) < -1e-7 for g in gs):
            fail('point violates a constraint', values=[g(*X) for g in gs], **det)
        if abs(fs(*X) - float(res.f)) > 1e-8 * max(1, abs(fs(*X))):
            fail('reported value is not the value at the point', value=fs(*X), **det)
    if res.converged:
        cnt('rpa converged')
        best = float(res.f)
        for _ in range(600):
            pt = [rng.choice([l, u, rng.uniform(l, u), rng.uniform(l, u)]) for l, u in zip(A, B)]
            if all(g(*pt) >= 1e-6 for g in gs) and fs(*pt) < best - tol - 1e-5:
                fail('a better feasible point exists although the search converged', at=pt, value=fs(*pt), **det)
                break


def job(arg):
    common.use_repo()
    from triples.utils import roots as RR
    kind, seed = arg.split(':')
    rng = random.Random('C20/' + seed + kind)
    bad, obs, cc = [], [], {}

    def cnt(k, n=1):
        cc[k] = cc.get(k, 0) + n

    def fail(what, **d):
        bad.append((what, {k: str(v)[:400] for k, v in d.items()}))
    with mp.workdps(50):
        for _ in range({'root': 4, 'uv': 4, 'kkt': 6}.get(kind, 1)):
            globals()['j_' + kind](rng, fail, cnt, obs, RR)
    return bad, obs, cc


def run(chk):
    jobs = []
    for kind, q, th in (('root', 110, 2500), ('uv', 60, 600), ('nroots', 250, 3500), ('isolate', 200, 3000), ('resultant', 220, 2500), ('findroot', 300, 3000),
                        ('grid', 100, 900), ('kkt', 60, 700), ('rpa', 110, 1500)):
        jobs += ['%s:%d/%d' % (kind, chk.seed, i) for i in range(chk.n(q, th))]
    chk.rng.shuffle(jobs)
    for i, j, r in common.pmap(job, jobs, cpu=60, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('a root finder raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        bad, obs, c_ = r[1]
        for o in obs:
            chk.observe(o, sample=o)
        for k, v in c_.items():
            chk.count(k, v)
        for w, d in bad:
            chk.violation(w, dict(d, job=j))
    for k, m in (('root:quad', 100), ('spans', 100), ('cyclic sums', 400), ('nroots', 100), ('resultant zeros', 50), ('axis and border minima', 60),
                 ('grid minima found', 30), ('kkt', 100), ('rpa found', 40), ('rpa converged', 20)):
        chk.require(k, m)
