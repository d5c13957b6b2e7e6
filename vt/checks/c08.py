"""C08: exact univariate / homogeneous bivariate positivity certificates."""
import random
import sympy as sp
from sympy import Rational as R
from .. import common, oracle

RULE = ('random univariate rational polynomials (known nonnegative products/sums, random signs, '
        'tangent roots, endpoint roots, shifted barely-negative ones) on R, half-lines and finite '
        'intervals; homogeneous bivariate forms on cones of 0..3 half-planes. Non-trivial: distinct '
        '(polynomial, region) whose certificate, or refusal, was compared with an exact Sturm decision.')
ASSUMPTIONS = ['sympy Poly arithmetic over QQ and Sturm root counting are trusted',
               'completeness is demanded only for degree <= 8 with small coefficients']
x, y = sp.symbols('x y')


def truth(p, lo, hi):
    """Exact: is the rational polynomial p >= 0 on [lo, hi]?"""
    if p.is_zero:
        return True
    if p.degree() == 0:
        return p.LC() >= 0
    lc, fac = p.factor_list()
    odd = sp.Poly(1, p.gen, domain='QQ')
    for f, m in fac:
        if m % 2:
            odd = odd * f.set_domain('QQ')
    # roots strictly inside
    def inside(f):
        if f.degree() <= 0:
            return 0
        n = f.count_roots(None if lo == -sp.oo else lo, None if hi == sp.oo else hi)
        if lo != -sp.oo and f.eval(lo) == 0:
            n -= 1
        if hi != sp.oo and f.eval(hi) == 0:
            n -= 1
        return n
    if inside(odd):
        return False
    # sign at an interior non-root point
    k = 1
    while True:
        for j in range(1, k + 1):
            if lo == -sp.oo and hi == sp.oo:
                t = R(j * (-1) ** j, k)
            elif lo == -sp.oo:
                t = hi - R(j, k)
            elif hi == sp.oo:
                t = lo + R(j, k)
            else:
                t = lo + (hi - lo) * R(j, k + 1)
            v = p.eval(t)
            if v != 0:
                return v > 0
        k += 3


def rpoly(rng, d, k=5, den=1):
    c = [R(rng.randint(-k, k), rng.randint(1, den)) for _ in range(d + 1)]
    if c[0] == 0:
        c[0] = R(1)
    return sp.Poly(c, x, domain='QQ')


def make(rng):
    kind = rng.choice(['sos', 'sosx', 'prod', 'random', 'random', 'near', 'intv', 'lead', 'tangent', 'mult'])
    lo, hi = rng.choice([(-sp.oo, sp.oo), (sp.S(0), sp.oo), (sp.S(0), sp.S(1)), (sp.S(-1), sp.S(1)),
                         (R(rng.randint(-6, 3), rng.randint(1, 3)), sp.oo),
                         (-sp.oo, R(rng.randint(-6, 6), rng.randint(1, 3))),
                         None, None]) or (None, None)
    if lo is None:
        lo = R(rng.randint(-6, 6), rng.randint(1, 4))
        hi = lo + R(rng.randint(1, 12), rng.randint(1, 4))
    X = sp.Poly(x, x, domain='QQ')
    d = rng.randint(1, 4)
    if kind == 'sos':
        p = sum((rng.randint(1, 3) * rpoly(rng, rng.randint(0, d)) ** 2 for _ in range(2)), X * 0)
    elif kind == 'sosx':
        p = rpoly(rng, d, 4) ** 2 + rng.randint(1, 4)
        if lo != -sp.oo:
            p = p + (X - lo) * rpoly(rng, rng.randint(0, d - 1), 4) ** 2 * rng.randint(1, 3)
        elif hi != sp.oo:
            p = p + (hi - X) * rpoly(rng, rng.randint(0, d - 1), 4) ** 2 * rng.randint(1, 3)
    elif kind == 'intv':
        a_ = (X - lo) if lo != -sp.oo else X * 0 + 1
        b_ = (-X + hi) if hi != sp.oo else X * 0 + 1
        p = X * 0
        for i in range(rng.randint(1, 4)):
            p = p + rng.randint(1, 4) * a_ ** rng.randint(0, 3) * b_ ** rng.randint(0, 3)
    elif kind == 'prod':
        p = X * 0 + rng.choice([1, 2, R(1, 3)])
        for _ in range(rng.randint(1, 3)):
            t = rng.random()
            if t < 0.3:
                p = p * (X - R(rng.randint(-5, 5), rng.randint(1, 3))) ** 2
            elif t < 0.6:
                p = p * ((X - rng.randint(-3, 3)) ** 2 + R(rng.randint(1, 9), rng.randint(1, 5)))
            elif t < 0.75:
                p = p * (X ** 2 - rng.randint(2, 7)) ** 2
            elif t < 0.9:
                p = p * ((X - lo) if lo != -sp.oo else (X * 0 + 1))
            else:
                p = p * ((-X + hi) if hi != sp.oo else (X * 0 + 1))
    elif kind == 'near':
        q = rpoly(rng, d, 3) ** 2
        p = q + rng.choice([R(1, 10), R(-1, 10), R(1, 50), R(-1, 50), R(-1, 1000)])
    elif kind == 'lead':      # leading terms cancel between the two parts
        q = rpoly(rng, d, 4)
        p = q ** 2 * (X + rng.randint(0, 3)) + rpoly(rng, d, 4) ** 2
    elif kind == 'tangent':
        t = R(rng.randint(-4, 6), rng.randint(1, 3))
        p = (X - t) ** 2 * ((X - rng.randint(-3, 3)) ** 2 + rng.randint(0, 3)) ** rng.randint(1, 2)
        if rng.random() < 0.3:
            p = p - R(1, 10 ** rng.randint(1, 4))
        if rng.random() < 0.3:
            p = p * (X + rng.randint(0, 4))
    elif kind == 'mult':
        p = (X - rng.randint(-3, 3)) ** rng.randint(1, 4) * (X + rng.randint(0, 4)) ** rng.randint(1, 3) * rng.choice([1, -1, 2])
    else:
        p = rpoly(rng, rng.randint(1, 8), rng.choice([2, 6, 20]), rng.choice([1, 1, 4]))
        if rng.random() < 0.5:
            p = sp.Poly([abs(c) if i in (0, p.degree()) else c for i, c in enumerate(p.all_coeffs())], x, domain='QQ')
    return kind, p.set_domain('QQ'), lo, hi


def check_raw(p, lo, hi, raw):
    """Exact check of the raw certificate [(mult, weights, polys), ...]."""
    tot = sp.Poly(0, x, domain='QQ')
    for mult, ws, qs in raw:
        m = sp.Poly(sp.sympify(mult), x, domain='QQ')
        if ws and not truth(m, lo, hi):
            return 'multiplier %s is negative on the interval' % mult
        if len(ws) != len(qs):
            return 'lengths differ'
        for w, q in zip(ws, qs):
            w = sp.sympify(w)
            if not w.is_Rational:
                return 'weight %s is not rational' % w
            if w < 0:
                return 'negative weight %s' % w
            if any(not c.is_Rational for c in q.all_coeffs()):
                return 'inexact coefficients in %s' % q
            q = sp.Poly(q.as_expr(), x, domain='QQ') if not q.is_zero else sp.Poly(0, x, domain='QQ')
            tot = tot + m * q * q * w
    if tot != p:
        return 'certificate differs from the polynomial by %s' % (tot - p).as_expr()
    return None


def complete_class(p, lo, hi):
    return p.degree() <= 8 and all(abs(c.p) <= 500 and c.q <= 40 for c in p.all_coeffs())


def uni_job(seed):
    from triples.core.structsos.pivoting.univariate import prove_univariate, prove_univariate_interval, check_univariate
    rng = random.Random('c08u/%s' % seed)
    kind, p, lo, hi = make(rng)
    if p.is_zero:
        return None
    tr = truth(p, lo, hi)
    raw = prove_univariate_interval(p, (lo, hi), return_raw=True)
    out = {'kind': kind, 'p': str(p.as_expr()), 'I': '[%s,%s]' % (lo, hi), 'truth': tr, 'got': raw is not None, 'bad': []}
    if raw is not None:
        if not tr:
            out['bad'].append('certificate for a polynomial that is negative on the interval')
        e = check_raw(p, lo, hi, raw)
        if e:
            out['bad'].append(e)
        expr = prove_univariate_interval(p, (lo, hi))
        if sp.Poly(sp.expand(expr), x, domain='QQ') != p:
            out['bad'].append('expression form differs from the polynomial')
    elif tr:
        out['missed'] = True
    if lo == 0 and hi == sp.oo or lo == -sp.oo and hi == sp.oo:
        tr0 = truth(p, sp.S(0), sp.oo)
        raw = prove_univariate(p, return_raw=True)
        if raw is not None:
            if not tr0:
                out['bad'].append('half-line certificate for a polynomial negative there')
            e = check_raw(p, sp.S(0), sp.oo, raw)
            if e:
                out['bad'].append('half-line: ' + e)
            if len(raw) != 2 or raw[0][0] != 1 or raw[1][0] != x:
                out['bad'].append('half-line certificate is not of the documented two-part form')
            # nonnegative on the whole line iff no x-part
            trR = truth(p, -sp.oo, sp.oo)
            if trR != (not raw[1][1]):
                out['bad'].append('x-part present=%s although nonnegativity on R is %s' % (bool(raw[1][1]), trR))
        elif tr0:
            out['missed'] = True
        for pos in (True, False):
            if p.degree() >= 1 and check_univariate(p, pos) != (tr0 if pos else truth(p, -sp.oo, sp.oo)):
                out['bad'].append('sign test (positive=%s) wrong' % pos)
    if out.get('missed') and complete_class(p, lo, hi):
        out['missed_small'] = True
    return out


def biv_job(seed):
    from triples.core.structsos import StructuralSOS
    rng = random.Random('c08b/%s' % seed)
    a, b = sp.symbols(rng.choice(['a b', 'x y', 'u v']))
    n = rng.choice([0, 1, 1, 2, 2, 2, 3])
    F = sp.Function('F')
    cons = []
    for i in range(n):
        u, v = rng.choice([(1, 0), (0, 1), (1, -1), (-1, 1), (1, 1), (-1, 0), (0, -1), (-1, -1),
                           (rng.randint(-4, 4), rng.randint(-4, 4)), (2, -1), (-1, 3)])
        if (u, v) == (0, 0):
            continue
        cons.append((u, v))
    cons = list(dict.fromkeys(cons))
    d = rng.randint(1, 6)
    e = 0
    for _ in range(rng.randint(1, 3)):
        idx = [i for i in range(len(cons)) if rng.random() < 0.6]
        rem = d - len(idx)
        if rem < 0:
            continue
        if rem % 2:
            if not cons:
                continue
            idx.append(rng.randrange(len(cons)))
            rem -= 1
            if rem < 0 or rem % 2:
                continue
        h = rem // 2
        q = sum(rng.randint(-3, 3) * a ** i * b ** (h - i) for i in range(h + 1))
        t = q ** 2 * rng.randint(1, 3)
        for i in idx:
            t = t * (cons[i][0] * a + cons[i][1] * b)
        e += t
    if rng.random() < 0.25:
        e = e + sum(rng.randint(-2, 2) * a ** i * b ** (d - i) for i in range(d + 1))
    e = sp.expand(e)
    if e == 0:
        return None
    al = [sp.Symbol('al%d' % i) for i in range(len(cons))] if rng.random() < 0.5 else [F(i) for i in range(len(cons))]
    ineq = [(u * a + v * b, t) for (u, v), t in zip(cons, al)]
    p = sp.Poly(e, a, b)
    out = {'kind': 'biv%d' % len(cons), 'p': str(e), 'I': str(cons), 'bad': []}
    s = StructuralSOS(p, {sp.Poly(c, a, b): t for c, t in ineq}, {})
    out['got'] = s is not None
    if s is not None:
        i = oracle.check_identity(s.solution, e, (a, b), ineq, [], rng)
        k = oracle.check_nonneg(s.solution, (a, b), ineq, [], rng, npts=20)
        if i[0] == 'bad' or k[0] == 'bad':
            out['bad'].append('identity %s / nonnegativity %s of %s' % (i, k, str(s.solution)[:300]))
        if 'unknown' in (i[0], k[0]):
            out['unk'] = True
    return out


def job(j):
    return uni_job(j[1]) if j[0] == 'u' else biv_job(j[1])


def run(chk):
    n = chk.n(1300, 14000)
    jobs = [('u', '%d/%d' % (chk.seed, i)) for i in range(n)] + [('b', '%d/%d' % (chk.seed, i)) for i in range(n // 3)]
    chk.rng.shuffle(jobs)
    for i, j, r in common.pmap(job, jobs, cpu=40, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('exception instead of an answer', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        o = r[1]
        if o is None:
            continue
        chk.observe((o['p'], o['I']), sample={k: o[k] for k in ('kind', 'p', 'I', 'got')})
        chk.count('certificates' if o['got'] else 'refusals')
        chk.count('kind ' + o['kind'])
        if o.get('missed'):
            chk.count('missed (numerically hard)')
        if o.get('missed_small'):
            chk.count('missed small')
            chk.violation('no certificate for a small nonnegative polynomial', o, key='missed')
        for bmsg in o['bad']:
            chk.violation(bmsg, o)
    chk.require('certificates', 100)
    chk.require('refusals', 50)
