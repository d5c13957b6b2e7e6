"""C05: linear-programming proofs are exact nonnegative combinations of the basis."""
import random
import sympy as sp
from sympy import Rational as R
from gmpy2 import mpq
from .. import common, soscheck as sc, problems as pb, structfuzz as sf, gen

RULE = ('problems of C01/C02 (also perturbed, false and barely true ones) and hidden combinations of products of '
        'constraints and squared differences, solved by the linear-programming method alone under random options '
        '(tangents, preordering, lift limit, difference order, basis limit, explicit trivial symmetry); the arrays of '
        'generated bases compared with the expanded expressions; rationalised vertices multiplied out. '
        'Non-trivial: a returned proof evaluated exactly, a basis row compared, a corrected vertex checked.')
ASSUMPTIONS = ['user-supplied tangents are squares (they are used as nonnegative quantities)',
               'identity and nonnegativity are tested at random rational points']


def rand_sq(rng, g, hom=True):
    d = rng.choice([1, 1, 2])
    f = 0
    while f == 0:
        f = sum(rng.randint(-2, 2) * gen.mon(m, g) for m in gen.monoms(len(g), d) if rng.random() < 0.7)
    return f**2


def opts(rng, gens):
    o = {}
    if rng.random() < 0.3 and gens:
        o['tangents'] = [rand_sq(rng, gens) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.25:
        o['preordering'] = 'none'
    if rng.random() < 0.3:
        o['lift_degree_limit'] = rng.choice([0, 1, 2, 3])
    if rng.random() < 0.3:
        o['quad_diff_order'] = rng.choice([0, 2, 4, 6])
    if rng.random() < 0.1:
        o['basis_limit'] = rng.choice([5, 40, 300])
    if rng.random() < 0.15 and gens:
        from sympy.combinatorics import PermutationGroup, Permutation
        o['symmetry'] = PermutationGroup(Permutation(list(range(len(gens)))))
    return o


def combo(rng):
    """p built from exactly the kind of terms the basis offers"""
    n = rng.choice([2, 3, 3, 3, 4])
    g = sp.symbols('a b c d')[:n]
    deg = rng.choice([2, 3, 4, 5] if n == 3 else [2, 3] if n == 4 else [2, 3, 4, 5, 6])
    pos = rng.random() < 0.7
    S = rng.choice([None, gen.cyc, gen.symsum])
    p = 0
    for _ in range(rng.randint(1, 4)):
        m, left = sp.Integer(1), deg
        while left >= 2 and rng.random() < 0.7:
            u, v = rng.sample(list(g), 2)
            m *= (u - v)**2 if rng.random() < 0.75 else (u + v - rng.choice(g))**2
            left -= 2
        while left:
            if pos:
                m *= rng.choice(g)
                left -= 1
            elif left >= 2:
                m *= rng.choice(g)**2
                left -= 2
            else:
                break
        if left:
            continue
        t = R(rng.randint(1, 9), rng.choice([1, 1, 2, 3, 7])) * m
        p += S(t, g) if S else t
    p = sp.expand(p)
    I = list(g) if pos else []
    if rng.random() < 0.2 and n == 3 and pos:       # triangle sides
        a, b, c = g
        sub = {a: b + c - a, b: c + a - b, c: a + b - c}
        p = sp.expand(p.xreplace(sub))
        I = [b + c - a, c + a - b, a + b - c]
    return p, list(g), I, []


def job_solve(j):
    rng = random.Random(j['seed'] + 1)
    if j['kind'] == 'combo':
        p, gens, I, E = combo(rng)
        j = dict(j, kind='classic', data=(str(p), ' '.join(str(q).replace(' ', '') for q in I), ''))
    p, gens, I, E, _ = sc.build(j)
    used = set(p.free_symbols).union(*[q.free_symbols for q, _ in I + E])
    o = opts(rng, gens if used == set(gens) else [])     # tangents and groups refer to all the variables
    j['methods'] = ['LinearSOS']
    j['configs'] = {'LinearSOS': o}
    return sc.judge(j)


def _mods():
    common.use_repo()
    from triples.core.linsos import basis as B, correction as C, updegree as U
    from triples.utils.monomials import MonomialManager
    return B, C, U, MonomialManager


def rand_group(rng, n):
    from sympy.combinatorics import CyclicGroup, SymmetricGroup, AlternatingGroup, PermutationGroup, Permutation
    k = rng.randrange(5)
    if n < 2 or k == 0:
        return PermutationGroup(Permutation(list(range(n)))) if n > 1 else PermutationGroup(Permutation([0]))
    if k == 1:
        return CyclicGroup(n)
    if k == 2:
        return SymmetricGroup(n)
    if k == 3 and n >= 3:
        return AlternatingGroup(n)
    return PermutationGroup(Permutation([1, 0] + list(range(2, n))))


def symmetrize(expr, g, G):
    P = sp.Poly(expr, *g)
    out = {}
    for q in G.elements:
        pf = q.array_form
        for m, c in P.terms():
            mm = [0] * len(g)
            for i, e in enumerate(m):
                mm[pf[i]] = e
            mm = tuple(mm)
            out[mm] = out.get(mm, 0) + c
    return out


def job_basis(j):
    B, C, U, MM = _mods()
    rng = random.Random(j['seed'])
    n = rng.choice([1, 2, 3, 3, 4])
    g = sp.symbols('a b c d')[:n] if rng.random() < 0.7 else sp.symbols('z y x w')[:n]
    G = rand_group(rng, n)
    deg = rng.choice([1, 2, 3, 4, 5]) if n < 4 else rng.choice([1, 2, 3])
    td = rng.randint(0, min(deg, 3))
    tp = 0
    while tp == 0:
        tp = sum(R(rng.randint(-3, 3), rng.choice([1, 1, 2])) * gen.mon(m, g) for m in gen.monoms(n, td))
    tp = sp.expand(tp)
    alias = rng.random() < 0.5
    t = sp.Function('F')(*g) if alias else tp
    order = rng.choice([0, 2, 4, 8, True, False])
    cls = rng.choice([B.LinearBasisTangent, B.LinearBasisTangentEven])
    bases, mat = cls.generate_quad_diff(t, g, deg, symmetry=G, tangent_p=sp.Poly(tp, *g), quad_diff_order=order)
    man = MM(n, G)
    inv = man.inv_monoms(deg)
    out = {'rows': 0, 'bad': None, 'desc': {'gens': str(g), 'deg': deg, 'tangent': str(tp), 'order': str(order), 'group': str(G), 'cls': cls.__name__}}
    if len(bases) != (mat.shape[0] if mat.size else 0):
        out['bad'] = 'number of rows %s != number of bases %d' % (mat.shape, len(bases))
        return out
    idx = list(range(len(bases)))
    rng.shuffle(idx)
    for i in idx[:25]:
        e = bases[i].as_expr(g)
        if alias:
            e = e.xreplace({t: tp})
        e = sp.expand(e)
        if cls is B.LinearBasisTangentEven and any(x % 2 for x in bases[i].powers):
            out['bad'] = 'odd power in an even basis: %s' % (bases[i].powers,)
            return out
        want = symmetrize(e, g, G)
        for k, m in enumerate(inv):
            w = float(want.get(tuple(m), 0))
            if abs(float(mat[i, k]) - w) > 1e-9 * (1 + abs(w)):
                out['bad'] = 'row %d of %s: %s has %s, expected %s' % (i, e, m, mat[i, k], w)
                return out
        covered = set()
        P2 = sp.expand(bases[i].as_poly(g).as_expr() - e)
        if P2 != 0:
            out['bad'] = 'as_poly differs from as_expr: %s' % P2
            return out
        neg = sp.expand((-bases[i]).as_expr(g).xreplace({t: tp}) + e) if i % 5 == 0 else 0
        if neg != 0:
            out['bad'] = 'negated basis differs'
            return out
        out['rows'] += 1
    # completeness: all monomial multiples of tangent * prod (xi-xj)^2k up to the order
    om = (2147483647 if order is True else 0 if order is False else order)
    om = min(om, deg - td)
    step = 2 if cls is B.LinearBasisTangentEven else 1
    npair = n * (n - 1) // 2
    cnt = 0
    for k in range(0, max(om, 0) // 2 + 1):
        left = deg - td - 2 * k
        if left < 0 or left % step:
            continue
        nd = sp.binomial(k + npair - 1, npair - 1) if npair else (1 if k == 0 else 0)
        cnt += nd * sp.binomial(left // step + n - 1, n - 1)
    got = len(set((b.powers, b.tangent(g)) for b in bases))     # repeats are harmless
    if n > 1 and cnt != got:
        out['bad'] = 'expected %s different bases, got %d' % (cnt, got)
        return out
    # all products of given expressions up to a degree
    ex = [rng.choice([sp.Integer(1), sp.Integer(3), g[0] - g[-1] / 2, g[-1], g[0]**2 + 1, (g[0] + 2 * g[-1])**2, sp.Symbol('u')]) for _ in range(rng.randint(1, 4))]
    ex = [e for e in ex if not (e == g[0] - g[-1] / 2 and n == 1)]
    ex = list(dict.fromkeys(e for e in ex if e != sp.Symbol('u')))
    if n == 1:
        ex = [e for e in ex if e != g[-1]] + [g[0]]
    cdeg = rng.randint(0, 5)
    ps = [(e, sp.Poly(e, *g).total_degree()) for e in ex]
    ps = [(e, d) for e, d in ps if d > 0]
    want = set()
    def rec(i, left, cur):
        if i == len(ps):
            want.add(cur)
            return
        e, d = ps[i]
        for k in range(left // d + 1):
            rec(i + 1, left - k * d, cur * e**k)
    rec(0, cdeg, sp.Integer(1))
    res = B.cross_exprs(ex, g, cdeg) if ex else []
    if ps and set(res) != want:
        out['bad'] = 'cross_exprs(%s, %d) is %s, expected %s' % (ex, cdeg, res, want)
    elif not ps and any(sp.sympify(r) != 1 for r in res):
        out['bad'] = 'cross_exprs of constants %s is %s' % (ex, res)
    return out


def job_correct(j):
    """linear_correction on noisy vertices"""
    import numpy as np
    B, C, U, MM = _mods()
    rng = random.Random(j['seed'])
    n = rng.choice([2, 3])
    g = sp.symbols('a b c')[:n]
    G = rand_group(rng, n)
    deg = rng.choice([2, 3, 4])
    bases = []
    for t in [sp.Integer(1)] + [rand_sq(rng, g) for _ in range(2)]:
        bs, _ = B.LinearBasisTangent.generate_quad_diff(t, g, deg, symmetry=G, tangent_p=sp.Poly(t, *g), quad_diff_order=rng.choice([0, 2, 8]))
        bases += bs
    rng.shuffle(bases)
    bases = bases[:rng.randint(1, 6)]
    if not bases:
        return {'st': 'empty'}
    den = rng.choice([1, 2, 7, 30, 1001])
    w = [R(rng.randint(0, 40), den) for _ in bases]
    surd = rng.random() < 0.15
    p = sp.expand(sum(y * b.as_expr(g) for y, b in zip(w, bases)))
    if surd:
        p = sp.expand(p + sp.sqrt(2) * bases[0].as_expr(g))
        w[0] = w[0] + sp.sqrt(2)
    if p == 0:
        return {'st': 'empty'}
    # f*1 = sum over group; divide by |G| acts on both sides: multiplier is 1 (summed over the group too)
    sym = sum((sp.Poly(p, *g).as_expr().xreplace(dict(zip(g, q(list(g)))))) for q in G.elements)
    f = sp.Poly(sp.expand(sym / G.order()), *g, extension=True) if surd else sp.Poly(sp.expand(sym / G.order()), *g)
    man = MM(n, G)
    mult = U.LinearBasisMultiplier.from_expr(f, sp.Integer(1), sp.Poly(1, *g))
    y = [float(v) for v in w] + [1.0]
    noise = rng.choice([0, 0, 1e-12, 1e-9, 1e-5])
    y = np.array([abs(v + rng.uniform(-1, 1) * noise) for v in y])
    if rng.random() < 0.15:
        y[rng.randrange(len(y))] += rng.choice([0.5, 0.01])
    yy, bb, ok = C.linear_correction(y, bases + [mult], num_multipliers=1, symmetry=man)
    out = {'st': 'refused' if not ok else 'ok', 'bad': None, 'desc': {'f': str(f), 'y': str(y), 'group': str(G)}}
    if ok:
        tot = {}
        nm = 0
        for v, b in zip(yy, bb):
            if sp.sympify(v).is_negative:
                out['bad'] = 'negative coefficient %s' % v
            if isinstance(b, U.LinearBasisMultiplier):
                e = -b.as_expr(g)
                nm += v
            else:
                e = b.as_expr(g)
            for m, c in symmetrize(sp.expand(v * e), g, G).items():
                tot[m] = tot.get(m, 0) + c
        rest = {m: sp.nsimplify(sp.expand(c)) for m, c in tot.items() if sp.simplify(sp.expand(c)) != 0}
        if rest:
            out['bad'] = 'combination does not vanish: %s' % list(rest.items())[:3]
        if sp.simplify(nm - 1) != 0:
            out['bad'] = 'multiplier coefficients sum to %s' % nm
    return out


class Row:
    """a stand-in for a basis: a fixed column"""
    def __init__(self, i, col):
        self.i, self.col = i, sp.Matrix(col)

    def as_array_sp(self, expand_cyc=True, symmetry=None):
        return self.col


def job_arrays(j):
    """linear_correction on random systems with several multipliers, whose exact solution need not be nonnegative"""
    import numpy as np
    B, C, U, MM = _mods()
    rng = random.Random(j['seed'])
    surd = sp.sqrt(rng.choice([2, 3, 5])) if rng.random() < 0.12 else None
    nb, nm = rng.randint(1, 5), rng.choice([1, 2, 2, 3])
    N = nb + nm
    den = rng.choice([1, 2, 7, 30, 1001])
    x = [R(rng.randint(0, 30), den) * (-1 if rng.random() < 0.1 else 1) for _ in range(nb)]
    mx = [R(rng.randint(-2 if rng.random() < 0.4 else 0, 12), rng.choice([1, 2, 5, 12])) for _ in range(nm)]
    if sum(mx) == 0:
        mx[0] += 1
    s = sum(mx)
    x += [v / s for v in mx]
    if surd is not None:
        k = rng.randrange(nb)
        x[k] = x[k] + surd / rng.choice([1, 2])
    piv = [k for k in range(N) if x[k] != 0 and x[k].is_rational]
    if not piv:
        return {'st': 'empty'}
    rows = []
    for _ in range(max(1, N - 1 + rng.choice([0, 0, 0, 1, 2, -1]))):
        r = [sp.Integer(rng.randint(-5, 5)) if rng.random() < 0.8 else sp.Integer(0) for _ in range(N)]
        k = rng.choice(piv)
        r[k] = sp.radsimp(sp.expand(-sum(r[i] * x[i] for i in range(N) if i != k) / x[k]))
        rows.append(r)
    A = sp.Matrix(rows)
    noise = rng.choice([0, 0, 1e-12, 1e-9, 1e-5, 1e-2])
    y = np.array([abs(float(v)) + abs(rng.gauss(0, 1)) * noise for v in x])
    if rng.random() < 0.15:
        y[rng.randrange(N)] += rng.choice([0.5, 0.01])
    if rng.random() < 0.2:
        y[rng.randrange(N)] += 1e-11
    if not any(y[nb:] > 1e-4 * y.max()):
        return {'st': 'empty'}
    bases = [Row(i, A[:, i]) for i in range(N)]
    yy, bb, ok = C.linear_correction(y, bases, num_multipliers=nm, symmetry=None)
    out = {'st': 'refused' if not ok else 'ok', 'bad': None, 'neg': any(v.is_negative for v in x),
           'desc': {'A': str(A.tolist()), 'y': str(y.tolist()), 'x': str(x), 'multipliers': nm}}
    if ok:
        yy = [sp.sympify(v) for v in yy]
        if len(yy) != len(bb):
            out['bad'] = '%d coefficients for %d bases' % (len(yy), len(bb))
        elif any(v.has(sp.Float) for v in yy):
            out['bad'] = 'float coefficients %s' % yy
        elif any(sp.N(v, 30) < 0 for v in yy):
            out['bad'] = 'negative coefficients %s' % yy
        else:
            tot = sp.zeros(A.shape[0], 1)
            for v, b in zip(yy, bb):
                tot += v * b.col
            if any(sp.simplify(sp.expand(v)) != 0 for v in tot):
                out['bad'] = 'the combination %s does not vanish' % yy
            elif sp.simplify(sum(v for v, b in zip(yy, bb) if b.i >= nb) - 1) != 0:
                out['bad'] = 'multipliers do not sum to one: %s' % yy
    return out


def job(j):
    return {'basis': job_basis, 'correct': job_correct, 'arrays': job_arrays}.get(j['t'], job_solve)(j)


def run(chk):
    rng = chk.rng
    js = sc.jobs(rng, chk.n(140, 800), chk.n(200, 3000), chk.n(100, 1500), chk.n(60, 200), pert=0.25)
    for _ in range(chk.n(200, 3000)):
        js.append({'kind': 'combo', 'seed': rng.randrange(1 << 40), 'alias': rng.choice(['sym', 'func', 'expr', 'own']), 'pert': rng.random() < 0.2})
    for j in js:
        j['t'] = 'solve'
        j['npts'] = chk.n(18, 40)
    js += [{'t': 'basis', 'seed': rng.randrange(1 << 40)} for _ in range(chk.n(150, 4000))]
    js += [{'t': 'correct', 'seed': rng.randrange(1 << 40)} for _ in range(chk.n(200, 4000))]
    js += [{'t': 'arrays', 'seed': rng.randrange(1 << 40)} for _ in range(chk.n(900, 20000))]
    rng.shuffle(js)
    sc.solver()
    _mods()
    for i, j, r in common.pmap(job, js, cpu=chk.n(8, 60), deadline=chk.deadline - 60, recycle=60):
        if r[0] != 'ok':
            chk.count('job_' + r[0])
            if r[0] == 'exc':
                chk.violation('a linear-programming component raised' if j['t'] != 'solve' else 'harness or oracle raised', {'job': j, 'exc': r[1]})
            continue
        r = r[1]
        if j['t'] == 'basis':
            chk.count('basis_rows', r['rows'])
            chk.observe(('b', j['seed']), nontrivial=r['rows'] > 0)
            if r['bad']:
                chk.violation('a basis array does not represent its expression', dict(r['desc'], why=r['bad']))
            continue
        if j['t'] in ('correct', 'arrays'):
            chk.count(('vertex_' if j['t'] == 'correct' else 'system_') + r['st'])
            if r.get('neg'):
                chk.count('system_with_negative_exact_solution')
            chk.observe((j['t'], j['seed']), nontrivial=r['st'] == 'ok')
            if r.get('bad'):
                chk.violation('a rationalised vertex reported exact is not', dict(r['desc'], why=r['bad']))
            continue
        chk.count(r['st'])
        chk.observe((str(j),), nontrivial=r['st'] == 'solved')
        if r['st'] == 'exc':
            chk.violation('the linear-programming method raised', {'problem': r['desc'], 'exc': r['exc']})
            continue
        if r['st'] != 'solved':
            continue
        d = {'problem': r['desc'], 'method': r['method'], 'solution': r['sol']}
        chk.count('identity_' + r['ident'][0])
        if len(chk.samples) < 8:
            chk.samples.append({'poly': r['desc']['poly'][:150], 'ineq': r['desc']['ineq'][:100], 'eq': r['desc']['eq'][:80],
                                'options': r['desc']['kwargs'][:200], 'identity': r['ident'][0]})
        if r['ident'][0] == 'bad':
            chk.violation('the proof is not equal to the polynomial', dict(d, at=r['ident'][1]))
        if r['extra']:
            chk.violation('the proof mentions a variable that is not in the problem', dict(d, extra=r['extra']))
        if r['float']:
            chk.violation('the proof of an exact problem contains floats', d)
        if not r['exact']:
            chk.violation('an inexact solution was returned although only exact ones are allowed', d)
        if 'nonneg' in r:
            chk.count('nonneg_' + r['nonneg'][0])
            if r['nonneg'][0] == 'bad':
                chk.violation('the proof is negative for admissible values of variables and aliases', dict(d, at=r['nonneg'][1]))
        if r.get('false'):
            chk.violation('a statement that is false at a feasible point was proved', dict(d, at=r['false'], undefined_there=r['pole']),
                          key=sc.false_key(r))
    chk.require('solved', chk.n(100, 500))
    chk.require('basis_rows', 150)
    chk.require('vertex_ok', 60)
    chk.require('system_ok', 300)
    chk.require('system_with_negative_exact_solution', 60)
