"""C07: symmetric-form substitution is exact and invertible, and its proofs are exact."""
import random
import sympy as sp
from sympy import Rational as R
from gmpy2 import mpq
from .. import common, gen, oracle, soscheck as sc
from ..evalx import Evaluator, Undefined, NotEvaluable, same, negative, rnd_rational

RULE = ('random symmetric forms (sums of elementary products, symmetrised squares, Schur-like sums, forms vanishing at '
        '(1,1,1), degree 0..12 for three and 0..7 for four variables, integer / rational / surd coefficients) pushed through '
        'the substitution and back; (p,q,r) conversions of random symmetric and cyclic polynomials; transformed constraints; '
        'definedness and sign of the new symbols; factor extraction and pivoting on random polynomials; proofs of symmetric and pseudo-symmetric problems by the '
        'symmetric method. Non-trivial: a conversion compared exactly, a factor judged, a proof evaluated.')
ASSUMPTIONS = ['identities are tested at random rational points', 'points where a denominator vanishes are skipped']
DISC = sp.Symbol('DISC')
V3, V4 = sp.symbols('a b c'), sp.symbols('a b c d')


def elem(g):
    from itertools import combinations
    return [sum(sp.Mul(*t) for t in combinations(g, k)) for k in range(1, len(g) + 1)]


def coef(rng, exact):
    k = rng.random()
    if exact or k < 0.7:
        return R(rng.randint(-6, 6), rng.choice([1, 1, 1, 2, 3]))
    if k < 0.85:
        return R(rng.randint(-10**9, 10**9), rng.randint(1, 10**6))
    return rng.choice([sp.sqrt(2), 1 - sp.sqrt(3), 2 * sp.sqrt(5) / 3])


def weighted(n, deg):
    """exponent tuples with sum i*k_i = deg"""
    def rec(i, left):
        if i == 0:
            return [()] if left == 0 else []
        return [m + (k,) for k in range(left // i + 1) for m in rec(i - 1, left - i * k)]
    return rec(n, deg)


def rsym(rng, n, deg, exact=False):
    """random symmetric form of degree deg (expression), how"""
    g = V3 if n == 3 else V4
    k = rng.random()
    E = elem(g)
    if k < 0.35 or deg < 2:
        W = weighted(n, deg)
        t = sum(coef(rng, exact) * sp.Mul(*[e ** i for e, i in zip(E, m)]) for m in W if rng.random() < 0.7)
    elif k < 0.6 and deg % 2 == 0:
        f = gen.rform(rng, deg // 2, g, k=3, vanish=rng.choice([None, (1,) * n, None, (2,) + (1,) * (n - 1)]))
        t = gen.symsum(sp.expand(sp.sympify(f) ** 2), g) * rng.choice([1, R(1, 2), 3])
    elif k < 0.8 and n == 3:
        t = gen.schur_like(rng, deg)
        t = gen.symsum(sp.sympify(t), g) / 2
    elif k < 0.9:
        # high multiplicity at (1,1,1): products of differences-of-powers
        D = sum((g[i] - g[j]) ** 2 for i in range(n) for j in range(i))
        j = rng.randint(1, deg // 2)
        t = D ** j * rsym(rng, n, deg - 2 * j, exact)
    else:
        m = rng.choice(gen.monoms(n, deg))
        t = gen.symsum(gen.mon(m, g), g) - rng.choice([0, 1, 2]) * gen.symsum(gen.mon(rng.choice(gen.monoms(n, deg)), g), g)
    return sp.expand(t)


def points(rng, g, k, pos=False, tries=None):
    for t in range(tries or 3 * k):
        yield {s: (abs(rnd_rational(rng, -7, 9, 5)) + mpq(1, 7) if pos else rnd_rational(rng, -7, 9, 5)) for s in g}


def ev(e, env):
    return Evaluator(env, None)(sp.sympify(e))


def job_repr(seed):
    """forward and back"""
    from triples.core.symsos.representation import sym_representation, sym_representation_inv
    rng = random.Random('c07r/%s' % seed)
    out = {'bad': [], 'n': 0, 'kinds': []}
    n = rng.choice([3, 3, 3, 4])
    g = V3 if n == 3 else V4
    deg = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12] if n == 3 else [0, 1, 2, 3, 4, 5, 6, 7])
    surd = rng.random() < 0.1 and n == 3
    f = rsym(rng, n, deg, exact=not surd)
    if rng.random() < 0.02:
        f = sp.S.Zero
    if f != 0 and rng.random() < 0.1:
        f = f * rng.choice([R(1, 10**9), 10**12 + 39])
    nm = rng.choice([['a', 'b', 'c', 'd'], ['x', 'y', 'z', 'w'], ['p', 'q', 'r', 's'], ['s1', 's2', 's3', 's4'], ['c', 'b', 'a', 'd']])[:n]
    gg = tuple(sp.symbols(nm))
    f = f.xreplace(dict(zip(g, gg)))
    poly = sp.Poly(f, *gg, extension=True) if surd and f.has(sp.sqrt) else sp.Poly(f, *gg)
    method = 'real' if n == 4 else rng.choice(['real', 'positive'])
    new = rng.choice([tuple(sp.Dummy('s') for _ in range(n)), tuple(sp.symbols('X Y Z W')[:n]), tuple(sp.symbols('u v t k')[:n])])
    desc = '%s form of %s in %s' % (method, str(f)[:250], gg)
    num, den = sym_representation(poly, new, return_poly=True, method=method)
    ex = sym_representation(poly, new, return_poly=False, method=method)
    if not isinstance(num, sp.Poly) or tuple(num.gens) != tuple(new):
        out['bad'].append('%s: the numerator is not a polynomial in the new symbols: %s' % (desc, str(num)[:200]))
        return out
    back = sym_representation_inv(num.as_expr() / den, gg, new, method=method)
    back2 = sym_representation_inv(ex, gg, new, method=method)
    done = 0
    dens = []
    for env in points(rng, gg, 4, pos=method == 'positive', tries=10):
        want = ev(f, env)
        try:
            got = (ev(back, env), ev(back2, env))
            dv = ev(den, env) if method == 'positive' else None
        except Undefined:
            continue
        for w, v in zip(('numerator / denominator', 'expression'), got):
            if not same(v, want, None):
                out['bad'].append('%s: %s put back gives %s instead of %s at %s' % (desc, w, str(v)[:60], str(want)[:60], env))
                return out
        dens.append((want, dv))
        done += 1
        if done >= 4:
            break
    if done:
        out['n'] += done
        out['kinds'].append('%s %d' % (method, n))
    if method == 'positive' and any(negative(d) or d == 0 for _, d in dens):
        out['bad'].append('%s: the denominator %s is not positive at a positive point' % (desc, str(den)[:300]))
    # the substituted quantities are what the documentation says
    if method == 'positive' and rng.random() < 0.2:
        a, b, c = gg
        x, y, z = new
        docd = {x: a*(a-b)*(a-c) + b*(b-c)*(b-a) + c*(c-a)*(c-b), y: a*(b-c)**2 + b*(c-a)**2 + c*(a-b)**2,
                z: (a-b)**2*(b-c)**2*(c-a)**2*(a+b+c)**3/(a*b*c)}
    elif method == 'real' and n == 3 and rng.random() < 0.2:
        a, b, c = gg
        x, y, z = new
        docd = {x: a**3+b**3+c**3-3*a*b*c, y: (2*a-b-c)*(2*b-c-a)*(2*c-a-b)/2, z: R(27, 4)*(a-b)**2*(b-c)**2*(c-a)**2}
    else:
        docd = {}
    for env in points(rng, gg, 1, pos=True, tries=1):
        for s, e in docd.items():
            v = sym_representation_inv(s, gg, new, method=method)
            try:
                if not same(ev(v, env), ev(e, env), None):
                    out['bad'].append('%s: %s stands for %s, documented as %s' % (method, s, v, e))
            except Undefined:
                pass
            out['kinds'].append('documented variables')
    out['expr'] = desc
    return out


def job_psd(seed):
    """symmetrised squares: the factor divided out is nonnegative everywhere"""
    from triples.core.symsos.representation import sym_representation
    rng = random.Random('c07d/%s' % seed)
    out = {'bad': [], 'n': 0, 'kinds': []}
    deg = rng.choice([1, 2, 3, 4, 5])
    f = gen.rform(rng, deg, V3, k=3, vanish=rng.choice([None, (1, 1, 1), (1, 1, 0)]))
    p = sp.expand(gen.symsum(sp.expand(sp.sympify(f) ** 2), V3))
    if p == 0:
        return out
    new = sp.symbols('X Y Z')
    num, den = sym_representation(sp.Poly(p, *V3), new, return_poly=True, method='real')
    for env in points(rng, V3, 12):
        try:
            d = ev(den, env)
        except Undefined:
            continue
        if ev(p, env) > 0 and not d > 0:
            out['bad'].append('the factor %s of the real form of %s is %s at %s' % (den, p, d, env))
            break
        out['n'] += 1
    out['kinds'].append('factor sign')
    out['expr'] = 'factor of %s' % str(p)[:150]
    return out


def job_pqr(seed):
    from triples.utils import pqr_sym, pqr_cyc, pqr_ker
    rng = random.Random('c07p/%s' % seed)
    out = {'bad': [], 'n': 0, 'kinds': []}
    cyc = rng.random() < 0.55
    n = 3 if cyc else rng.choice([2, 3, 3, 4])
    nm = rng.choice([['a', 'b', 'c', 'd'], ['x', 'y', 'z', 'w'], ['p', 'q', 'r', 's'], ['s1', 's2', 's3', 's4'], ['c', 'a', 'b', 'd']])[:n]
    g = tuple(sp.symbols(nm))
    parts = []
    for d in ([rng.randint(0, 9)] if rng.random() < 0.6 else [rng.randint(0, 6), rng.randint(0, 6)]):
        if n in (3, 4):
            base = (V3 if n == 3 else V4)
            if cyc:
                t = sum(coef(rng, False) * gen.cyc(gen.mon(m, base), base) for m in gen.monoms(3, d) if rng.random() < 0.4)
            else:
                t = rsym(rng, n, min(d, 7), rng.random() < 0.6)
            parts.append(sp.sympify(t).xreplace(dict(zip(base, g))))
        else:
            parts.append(sum(coef(rng, True) * (g[0] + g[1]) ** i * (g[0] * g[1]) ** ((d - i) // 2) for i in range(d + 1)))
    f = sp.expand(sum(parts))
    par = sp.Symbol('m')
    if rng.random() < 0.15:
        f = sp.expand(f * (par + 1) + par ** 2 * sum(g))
    broken = rng.random() < 0.15
    if broken:
        f = sp.expand(f + g[0] ** 2 * g[-1] ** rng.randint(0, 1) + (g[1] if rng.random() < 0.5 else 0))
    poly = sp.Poly(f, *g) if not f.has(sp.sqrt) else sp.Poly(f, *g, extension=True)
    P = tuple(sp.symbols('P Q T S')[:n])
    default = n == 3 and rng.random() < 0.4
    sy = sp.symbols('p q r') if default else P
    perms = [{g[i]: g[(i + 1) % n] for i in range(n)}] + ([] if cyc else [{g[0]: g[1], g[1]: g[0]}])
    ok = all(sp.expand(f.xreplace(s) - f) == 0 for s in perms)
    desc = '%s of %s over %s' % ('pqr_cyc' if cyc else 'pqr_sym', str(f)[:250], g)
    try:
        r = (pqr_cyc if cyc else pqr_sym)(poly, *([] if default else [sy]))
    except ValueError as e:
        if ok:
            out['bad'].append('%s refuses a valid polynomial: %s' % (desc, e))
        else:
            out['kinds'].append('refused')
        return out
    if not ok:
        out['bad'].append('%s converts a polynomial without the symmetry: %s' % (desc, str(r)[:200]))
        return out
    E = elem(g)
    s1, s2 = r if cyc else (r, sp.S.Zero)
    disc = (g[0] - g[1]) * (g[1] - g[2]) * (g[2] - g[0]) if cyc else 0
    clash = set(sy) & {par}
    for env in points(rng, g, 2, tries=2):
        env[par] = rnd_rational(rng, -3, 4, 2)
        sub = {s: ev(e, env) for s, e in zip(sy, E)}
        sub[par] = env[par]
        sub[DISC] = ev(disc, env)
        v = ev(sp.sympify(s1) + DISC * sp.sympify(s2), sub)
        extra = (sp.sympify(s1).free_symbols | sp.sympify(s2).free_symbols) - set(sy) - {par}
        if extra:
            out['bad'].append('%s: %s contains other symbols %s' % (desc, r, extra))
            return out
        if not same(v, ev(f, env), None):
            out['bad'].append('%s: %s does not expand back (at %s)' % (desc, r, env))
            return out
        out['n'] += 1
    out['kinds'].append('pqr_cyc' if cyc else 'pqr_sym %d' % n)
    if rng.random() < 0.05 and n > 2:
        k = pqr_ker(P[:3])
        env = {s: mpq(rng.randint(-5, 9)) for s in V3}
        if ev(k, dict(zip(P[:3], [ev(e, env) for e in elem(V3)]))) != ev((V3[0]-V3[1])**2*(V3[1]-V3[2])**2*(V3[2]-V3[0])**2, env):
            out['bad'].append('pqr_ker is %s' % k)
    out['expr'] = desc
    return out


def job_default(seed):
    """the new symbols have values at generic points, and the constraints every transformed problem gets hold there"""
    from triples.core.symsos.representation import sym_transform, sym_representation_inv
    rng = random.Random('c07d/%s' % seed)
    out = {'bad': [], 'n': 0, 'kinds': []}
    method, n = rng.choice([('real', 3), ('positive', 3), ('real', 4)])
    nm = rng.choice([['a', 'b', 'c', 'd'], ['x', 'y', 'z', 'w'], ['s1', 's2', 's3', 's4'], ['c', 'b', 'a', 'd']])[:n]
    g = tuple(sp.symbols(nm))
    new = tuple(sp.Dummy('s') for _ in range(n))
    f = rsym(rng, n, rng.randint(1, 4), True)
    poly = sp.Poly(f.xreplace(dict(zip(V3 if n == 3 else V4, g))), *g)
    _, I, E, _ = sym_transform(poly, {}, {}, new, method=method)
    desc = '%s form of %s' % (method, poly.as_expr())
    out['expr'] = desc
    inv = [sym_representation_inv(s, g, new, method=method) for s in new]
    for env in points(rng, g, 6, pos=method == 'positive', tries=12):
        v = [env[s] for s in g]
        if len(set(v)) < n or sum(v) == 0 or 0 in v:
            continue
        if n == 3 and any(2 * x == sum(v) - x for x in v):
            continue
        if n == 4 and any(2 * (v[0] + x) == sum(v) for x in v[1:]):
            continue
        try:
            nv = {s: ev(e, env) for s, e in zip(new, inv)}
        except Undefined:
            out['bad'].append('%s: the new symbols have no value at %s' % (desc, env))
            return out
        for D, ok in ((I, lambda t: t >= 0), (E, lambda t: t == 0)):
            for k, w in D.items():
                for q in (k.as_expr(), w):
                    t = ev(q, nv)
                    if not ok(t):
                        out['bad'].append('%s: the constraint %s on the new symbols is %s at %s' % (desc, q, t, env))
                        return out
        out['n'] += 1
        out['kinds'].append('default constraints %d' % n)
    return out


def job_trans(seed):
    """transformed problems: constraints keep their values"""
    from triples.core.symsos.representation import sym_transform, sym_representation_inv
    rng = random.Random('c07t/%s' % seed)
    out = {'bad': [], 'n': 0, 'kinds': []}
    g = V3
    method = rng.choice(['real', 'positive'])
    mk = lambda: sp.Poly(rsym(rng, 3, rng.randint(1, 6), True), *g)
    poly = mk()
    I, E = {}, {}
    for D, nm in ((I, 'g'), (E, 'h')):
        for i in range(rng.randint(0, 2)):
            q = mk() if rng.random() < 0.8 else sp.Poly(rng.choice([g[0], g[0] - g[1], g[0] ** 2 + g[1] * g[2]]), *g)
            if not q.is_zero:
                D[q] = sp.Symbol('%s%d' % (nm, i))
    new = tuple(sp.Dummy('s') for _ in range(3))
    I0, E0 = dict(I), dict(E)
    num, I2, E2, den = sym_transform(poly, I, E, new, method=method)
    if I != I0 or E != E0:
        out['bad'].append('sym_transform modified the constraints it was given')
    desc = 'transforming %s under %s, %s (%s)' % (poly.as_expr(), {k.as_expr(): v for k, v in I0.items()}, {k.as_expr(): v for k, v in E0.items()}, method)
    val = {v: k.as_expr() for D in (I0, E0) for k, v in D.items()}
    for env in points(rng, g, 3, pos=method == 'positive', tries=5):
        sub = {v: ev(e, env) for v, e in val.items()}
        nv = {}
        try:
            for s in new:
                nv[s] = ev(sym_representation_inv(s, g, new, method=method), env)
        except Undefined:
            continue
        allv = {**env, **sub, **nv}
        try:
            if not same(ev(num.as_expr(), allv), ev(poly.as_expr() , env) * ev(den, env), None):
                out['bad'].append('%s: the problem changed' % desc)
                return out
            for D in (I2, E2):
                for k, v in D.items():
                    if not same(ev(k.as_expr(), allv), ev(v, allv), None):
                        out['bad'].append('%s: the transformed constraint %s does not equal %s at %s' % (desc, k.as_expr(), v, env))
                        return out
            if method == 'positive':
                for k, v in I2.items():
                    src = [s for s in sp.sympify(v).free_symbols if s in sub and s in I0.values()]
                    if src and all(sub[s] > 0 for s in src) and ev(v, allv) < 0:
                        out['bad'].append('%s: the inequality became the negative quantity %s' % (desc, v))
        except Undefined:
            continue
        out['n'] += 1
    want = sum(1 for k in list(I0) if sp.expand(gen.symsum(k.as_expr(), g) - 6 * k.as_expr()) == 0)
    out['kinds'].append('transformed problem')
    out['expr'] = desc
    return out


def job_factor(seed):
    from triples.core.symsos.basic import extract_factor
    rng = random.Random('c07f/%s' % seed)
    out = {'bad': [], 'n': 0, 'kinds': []}
    x, y, z = sp.symbols('x y z')
    n = rng.choice([1, 2, 3, 3])
    g = (x, y, z)[:n]
    fac, pts = rng.choice([((y - 2 * x) ** 2 + z, [(2, 1, -9)]), (y ** 2 + z, [(3, 2, -4)]), (y ** 2 + z, [(3, 2, -4), (0, 1, -1)])]) if n == 3 else \
        rng.choice([(x - 2 * y, [(2, 1)]), (x ** 2 - y, [(1, 1)])]) if n == 2 else (x - R(1, 2), [(R(1, 2),)])
    if rng.random() < 0.3:
        pts = []
    dom = rng.choice([None, 'QQ'])
    F = sp.Poly(fac, *g) if dom is None else sp.Poly(fac, *g, domain=dom)
    f = sum(rng.randint(-3, 3) * gen.mon(m, g) for d in range(3) for m in gen.monoms(n, d) if rng.random() < 0.5)
    k = rng.randint(0, 3)
    f = sp.expand(sp.sympify(f) * fac ** k * (R(1, 3) if rng.random() < 0.3 else 1))
    p = sp.Poly(f, *g)
    deg, rem = extract_factor(p, F, *([pts] if pts or rng.random() < 0.5 else []))
    if sp.expand(rem.as_expr() * fac ** deg - f) != 0:
        out['bad'].append('extract_factor(%s, %s) = %s, %s does not multiply back' % (f, fac, deg, rem))
    elif f != 0 and deg < k:
        out['bad'].append('extract_factor(%s, %s) finds the factor %d times instead of at least %d' % (f, fac, deg, k))
    out['n'] += 1
    out['kinds'].append('factor extraction')
    out['expr'] = 'extract_factor %s^%d' % (fac, k)
    return out


def job_pivot(seed):
    """pivoting proofs in the substituted variables"""
    from triples.core.symsos.basic import prove_by_pivoting
    rng = random.Random('c07v/%s' % seed)
    out = {'bad': [], 'n': 0, 'kinds': []}
    n = rng.choice([1, 2, 3, 3])
    g = rng.choice([tuple(sp.symbols('x y z')), tuple(sp.Dummy('s') for _ in range(3))])[:n]
    nn = {s for s in g if rng.random() < 0.6}
    hom = rng.random() < 0.5
    f = 0
    for _ in range(rng.randint(1, 4)):
        d = rng.choice([1, 1, 2])
        q = gen.rform(rng, d, g, k=3) if hom else sum(rng.randint(-2, 2) * gen.mon(m, g) for e in range(d + 1) for m in gen.monoms(n, e))
        w = sp.Mul(*[s ** rng.randint(0, 2) if s in nn else s ** rng.choice([0, 2]) for s in g])
        f += rng.choice([1, 2, R(1, 3)]) * w * sp.sympify(q) ** 2
    f = sp.expand(f)
    if rng.random() < 0.4:
        f = sp.expand(f - rng.choice([1, R(1, 2), R(1, 50)]) * gen.mon(rng.choice(sp.Poly(f, *g).monoms()) if f != 0 else (0,) * n, g))
    if f.free_symbols - set(g):
        return out
    p = sp.Poly(f, *g)
    desc = 'prove_by_pivoting(%s, nonnegative %s)' % (f, sorted(nn, key=str))
    r = prove_by_pivoting(p, nn)
    if r is None:
        out['kinds'].append('pivoting refused')
        return out
    r = sp.sympify(r)
    out['kinds'].append('pivoting proof')
    out['expr'] = desc[:200]
    for env in points(rng, g, 6, tries=6):
        for s in nn:
            env[s] = abs(env[s])
        try:
            v = ev(r, env)
        except Undefined:
            continue
        w = ev(f, env)
        if not same(v, w, None):
            out['bad'].append('%s returns %s, a different polynomial' % (desc, r))
            return out
        if w < 0:
            out['bad'].append('%s returns %s although the polynomial is %s at %s' % (desc, r, w, env))
            return out
        out['n'] += 1
    return out


def job_alias(seed):
    """problems whose nonnegative variables are stated as positive multiples (or odd powers) with symbols of their own"""
    return job_proof(seed, named=True)


def job_proof(seed, named=False):
    """problems given to the symmetric method alone"""
    rng = random.Random('c07s/%s' % seed)
    out = {'bad': [], 'n': 0, 'kinds': []}
    deg = rng.choice([2, 3, 4, 5, 6, 6, 7, 8])
    real = rng.random() < 0.4 and not named
    k = rng.random()
    if named:
        deg, k = rng.choice([3, 3, 4, 5]), 0.35 + 0.3 * rng.random() if rng.random() < 0.8 else 0.8
    if real:
        deg -= deg % 2
    if k < 0.35:
        p = gen.cyc_known(rng, deg, sym=True, real=real)
    elif k < 0.55 and not real:
        p = gen.schur_like(rng, deg)
        p = gen.symsum(sp.sympify(p), V3)
    elif k < 0.65:
        p = gen.cyc_random(rng, deg, sym=True)
    elif k < 0.72:
        p = gen.cyc_known(rng, deg, sym=False, real=real)
    elif k < 0.86:
        # nonnegative combinations of the substituted quantities times symmetric factors
        a, b, c = V3
        xs = sum(t for t in [a*(a-b)*(a-c), b*(b-c)*(b-a), c*(c-a)*(c-b)])
        ys = a*(b-c)**2 + b*(c-a)**2 + c*(a-b)**2
        dd = (a-b)**2*(b-c)**2*(c-a)**2
        p = rng.randint(0, 3) * xs * ys + rng.randint(0, 3) * ys ** 2 + rng.randint(0, 2) * dd + rng.randint(0, 2) * xs * (a+b+c)**3 + rng.randint(0, 3) * (xs - rng.randint(0, 2) * ys) ** 2
        real = False
    else:
        p = rsym(rng, 3, deg, True)
    p = sp.expand(p)
    if p == 0:
        return out
    g = V3
    if rng.random() < 0.3:
        ren = rng.choice(['x y z', 'c a b', 'p q r', 'G F H', 's x_ t'])
        g = sp.symbols(ren)
        p = p.xreplace(dict(zip(V3, g)))
    I = [] if real else list(g)
    if named:
        m = [rng.choice([2, 3, 5, R(1, 3), R(2, 5)]) for _ in I] if rng.random() < 0.6 else [rng.choice([2, 7, R(1, 2)])] * len(I)
        I = [t * s ** rng.choice([1, 1, 1, 1, 3]) for t, s in zip(m, I)]
    elif rng.random() < 0.1 and I:
        I = I[:2]
    elif rng.random() < 0.15 and I:
        I = [rng.choice([2, R(1, 3), 5]) * s for s in I]
    E = []
    if rng.random() < 0.15:
        I = I + [rng.choice([g[0] + g[1] + g[2], g[0] * g[1] + g[1] * g[2] + g[2] * g[0], g[0] + g[1] - g[2]])]
    if rng.random() < 0.1:
        E = [rng.choice([g[0] + g[1] + g[2] - 3, g[0] * g[1] * g[2] - 1])]
    if rng.random() < 0.15:                 # non-homogeneous: one variable set to one
        p = p.xreplace({g[2]: sp.S.One})
        I = [q.xreplace({g[2]: sp.S.One}) if hasattr(q, 'xreplace') else q for q in I]
        I = [q for q in I if q.free_symbols]
        E = [q.xreplace({g[2]: sp.S.One}) for q in E]
        E = [q for q in E if q.free_symbols]
        g = g[:2]
        if not p.free_symbols:
            return out
    j = {'kind': 'classic', 'data': (str(p), ' '.join(str(q).replace(' ', '') for q in I), ' '.join(str(q).replace(' ', '') for q in E)),
         'seed': rng.randrange(1 << 40), 'alias': rng.choice(['sym', 'sym', 'func', 'expr']), 'methods': ['SymmetricSOS'], 'configs': {}}
    if named:
        j['alias'] = rng.choice(['sym', 'sym', 'func'])
    if rng.random() < 0.15:
        j['pert'] = True
    r = sc.judge(j)
    if r['st'] == 'exc':
        out['bad'].append('%s: raised %s' % (r['desc'], r['exc']))
        return out
    if r['st'] == 'none':
        out['kinds'].append('proof none')
        return out
    out['kinds'].append('proof named' if named else 'proof real' if real else 'proof positive')
    out['expr'] = r['desc'] if isinstance(r['desc'], str) else str(r['desc'])[:300]
    out['judge'] = {k: r.get(k) for k in ('ident', 'float', 'extra', 'problem', 'exact', 'nonneg', 'false', 'pole', 'even', 'degenerate', 'sol', 'desc')}
    out['n'] += 1
    return out


JOBS = {'repr': job_repr, 'psd': job_psd, 'pqr': job_pqr, 'trans': job_trans, 'default': job_default, 'factor': job_factor, 'pivot': job_pivot, 'proof': job_proof, 'alias': job_alias}


def job(j):
    k, s = j.split(':', 1)
    return JOBS[k](s)


def run(chk):
    mix = [('repr', chk.n(500, 8000)), ('psd', chk.n(80, 1000)), ('pqr', chk.n(400, 6000)), ('trans', chk.n(200, 3000)), ('default', chk.n(60, 1000)),
           ('factor', chk.n(300, 4000)), ('pivot', chk.n(500, 8000)), ('proof', chk.n(500, 8000)), ('alias', chk.n(100, 1500))]
    jobs = ['%s:%d/%d' % (k, chk.seed, i) for k, m in mix for i in range(m)]
    random.Random(chk.seed).shuffle(jobs)
    for i, j, r in common.pmap(job, jobs, cpu=25, deadline=chk.deadline):
        kind = j.split(':')[0]
        if r[0] == 'exc':
            chk.violation('symmetric forms raised', {'job': j, 'exc': r[1]}, key='exc:' + kind + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0] + ' ' + kind)
            continue
        o = r[1]
        chk.count('exact comparisons', o['n'])
        for t in o['kinds']:
            chk.count(t)
            if 'expr' in o:
                chk.observe((o['expr'], t))
        if len(chk.samples) < 10 and 'expr' in o and i % 7 == 0:
            chk.samples.append({'kind': kind, 'what': o['expr'][:300]})
        for b in o['bad']:
            chk.violation('symmetric form differs', {'job': j, 'what': b}, key='symform')
        if 'judge' in o:
            judge(chk, j, o['judge'])
    for c, m in (('real 3', 60), ('positive 3', 60), ('real 4', 40), ('default constraints 3', 50), ('default constraints 4', 40), ('pqr_cyc', 100), ('pqr_sym 3', 50), ('proof positive', 60),
                 ('proof real', 10), ('proof named', 15), ('pivoting proof', 100), ('factor sign', 30), ('factor extraction', 100)):
        chk.require(c, m)


def judge(chk, j, r):
    d = {'job': j, 'problem': r['desc'], 'solution': r['sol']}
    chk.count('identity_' + r['ident'][0])
    if r['ident'][0] == 'bad':
        chk.violation('the proof is not equal to the polynomial', dict(d, at=r['ident'][1]))
    if r['extra']:
        chk.violation('the proof mentions a variable that is not in the problem', dict(d, extra=r['extra']))
    if r['float']:
        chk.violation('the proof of an exact problem contains floats', d)
    if r['problem'] is not True:
        chk.violation('the problem stored in the solution is not the input', dict(d, why=r['problem']))
    if r.get('nonneg'):
        chk.count('nonneg_' + r['nonneg'][0])
        if r['nonneg'][0] == 'bad':
            chk.violation('the proof is negative for admissible values of variables and aliases', dict(d, at=r['nonneg'][1]))
    if r.get('false'):
        chk.violation('a statement that is false at a feasible point was proved', dict(d, at=r['false'], undefined_there=r['pole']),
                      key=sc.false_key(r))
