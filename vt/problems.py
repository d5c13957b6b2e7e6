"""Inequality problems (pure sympy): polynomial, constraints with aliases, known truth."""
import random
import sympy as sp
from sympy import Rational as R
from gmpy2 import mpq
from .gen import cyc, symsum, mon, monoms, rform, ABC, cyc_known, cyc_random, schur_like, acyc_known
from . import structfuzz as sf

a, b, c, d, x, y, z = sp.symbols('a b c d x y z')

# (poly, ineqs, eqs): all true
CLASSIC = [
    ('a**2+b**2+c**2-a*b-b*c-c*a', '', ''),
    ('(a+2)*(b+2)*(c+2)-a**2*(b+2)*(c+2)*0-27*0-8', 'a b c', ''),
    ('3-a-b-c', 'a b c', 'a**2+b**2+c**2-3'),
    ('1-a*b', 'a b', 'a+b-2'),
    ('1-a*b*c', 'a b c', 'a+b+c-3'),
    ('a+b+c-3', 'a b c', 'a*b*c-1'),
    ('a**2+b**2+c**2-a-b-c', 'a b c', 'a*b*c-1'),
    ('a**2+b**2+c**2-3', '', 'a+b+c-3'),
    ('x+y+z-(x*y+y*z+z*x)', 'x y z 4-(x*y+y*z+z*x+x*y*z)', ''),
    ('1-x**2', '1-x 1+x', ''),
    ('x*(1-x)', 'x 1-x', ''),
    ('4-x**2-y**2', '', 'x**2+y**2-3'),
    ('1+x*y-x-y', '1-x 1-y', ''),
    ('x+y-2*x*y', 'x y 1-x 1-y', ''),
    ('a**3+b**3+c**3-3*a*b*c', 'a b c', ''),
    ('a**4+b**4+c**4+d**4-4*a*b*c*d', '', ''),
    ('a**4*b**2+a**2*b**4+c**6-3*a**2*b**2*c**2', '', ''),
    ('a**4*b**2+a**2*b**4+1-3*a**2*b**2', '', ''),
    ('x**2-2*x+2', '', ''),
    ('x**4-4*x+3', '', ''),
    ('x**3-3*x+2', 'x', ''),
    ('2*x**2-3*x*y+2*y**2', '', ''),
    ('a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)', 'a b c', ''),
    ('a**2*(a-b)*(a-c)+b**2*(b-c)*(b-a)+c**2*(c-a)*(c-b)', '', ''),
    ('(a**2+b**2+c**2)**2-3*(a**3*b+b**3*c+c**3*a)', '', ''),
    ('(a+b)*(b+c)*(c+a)-8*a*b*c', 'a b c', ''),
    ('a**2*b+b**2*c+c**2*a-3*a*b*c', 'a b c', ''),
    ('a+b+c+d-4', 'a b c d', 'a*b*c*d-1'),
    ('a**2+b**2+c**2+d**2-1', '', 'a+b+c+d-2'),
    ('1-a**2-b**2-c**2', 'a b c', 'a+b+c-1'),
    ('a*b+b*c+c*a-9*a*b*c', 'a b c', 'a+b+c-1'),
    ('1-4*(a*b+b*c+c*a)+9*a*b*c', 'a b c', 'a+b+c-1'),
    ('9*a*b*c+1-4*(a*b+b*c+c*a)', 'a b c', 'a+b+c-1'),
    ('a+b-1', 'a b a+b-1', ''),
    ('a**2+b**2-1/2', '', 'a+b-1'),
    ('(a+b+c)*(a*b+b*c+c*a)-9*a*b*c', 'a b c', ''),
    ('a*b*(a-b)**2+b*c*(b-c)**2', 'a b c', ''),
    ('a**2+2*b**2+3*c**2-2*a*b-2*b*c', '', ''),
    ('x**2+y**2+z**2+2*x*y*z+1-2*(x*y+y*z+z*x)', 'x y z', ''),
    ('a**2+b**2+c**2+2*a*b*c+1-2*(a*b+b*c+c*a)', 'a b c', ''),
    ('(a**2+2)*(b**2+2)*(c**2+2)-3*(a+b+c)**2', '', ''),
    ('x**2*y**2+x**2+y**2+1-4*x*y', '', ''),
    ('(1-x*y)**2+(x-y)**2', '', ''),
    ('a**2-a*b+b**2-a-b+1', '', ''),
    ('2*(a**3+b**3+c**3)-(a+b)*(b+c)*(c+a)+2*a*b*c', 'a b c', ''),
    ('a+1', 'a', ''),
    ('a*b', 'a b', ''),
    ('a*b*c', 'a b c', ''),
    ('a**3', 'a', ''),
    ('5*a**2*b', 'b', ''),
    ('a-b', 'a-b', ''),
    ('2*a-2*b', 'a-b', ''),
    ('a-c', 'a-b b-c', ''),
    ('x**2-3*x+2', 'x-2', ''),
    ('(x-1)*(x-2)', '1-x', ''),
    ('x**2', '', 'x-1'),
    ('x-1', '', 'x-1'),
    ('y-x**2', 'y', 'x**2-y'),
    ('x**4+y**4-2*x**2*y**2', '', ''),
    ('x**2+y**2', '', 'x*y-1'),
    ('x**2+y**2-2', '', 'x*y-1'),
    ('x**3+y**3-x**2*y-x*y**2', 'x y', ''),
    ('x**3+y**3-x**2*y-x*y**2', 'x+y', ''),
    ('x**2+x*y+y**2', '', ''),
    ('x+1/x', '', '') if False else ('x**2+1', 'x', ''),
    ('a**3*b+b**3*c+c**3*a-a*b*c*(a+b+c)', 'a b c', ''),
    ('a**5+b**5+c**5-a**3*b*c-b**3*c*a-c**3*a*b', 'a b c', ''),
    ('2*(a**2+b**2+c**2)-(a+b+c)**2+4*0', 'a+b-c a-b+c b+c-a a b c -a**2-b**2-c**2+2*a*b+2*b*c+2*c*a-0', '') if False else ('2*(a*b+b*c+c*a)-a**2-b**2-c**2', 'a+b-c a-b+c b+c-a a b c', ''),
    ('(a+b-c)*(b+c-a)*(c+a-b)', 'a+b-c a-b+c b+c-a', ''),
    ('a*b*c-(a+b-c)*(b+c-a)*(c+a-b)', 'a+b-c a-b+c b+c-a', ''),
    ('3', '', ''), ('0', '', ''), ('3', 'a', 'b-1'), ('0', 'a b', ''),
    ('a**2*b**2+b**2*c**2+c**2*a**2-a*b*c*(a+b+c)', '', ''),
    ('a**2+b**2+c**2+d**2-a*b-b*c-c*d-d*a', '', ''),
    ('a**2+b**2+c**2+d**2+4-2*(a+b+c+d)', '', ''),
    ('x**6+y**6-x**4*y**2-x**2*y**4', '', ''),
    ('x**4*y**2+x**2*y**4-2*x**3*y**3', '', ''),
    ('a*(b-c)**2+b*(c-a)**2+c*(a-b)**2', 'a b c', ''),
    ('(a-1)**2+(b-1)**2', 'a b', 'a*b*c-1'),
    ('a**3+b**3+c**3+3*a*b*c-a*b*(a+b)-b*c*(b+c)-c*a*(c+a)', 'a b c', ''),
]
FALSE = [
    ('a*b', '', ''), ('a**3', '', ''), ('a-b', 'a b', ''), ('-1', '', ''), ('-a**2', '', ''), ('a*b*c', 'a b', ''),
    ('a**2+b**2+c**2-a*b-b*c-c*a-1', '', ''), ('x', '1-x 1+x', ''), ('a+b+c-4', 'a b c', 'a*b*c-1'),
    ('(a-b)*(b-c)*(c-a)', 'a b c', ''), ('a**3+b**3+c**3-3*a*b*c', '', ''), ('a+b-1', 'a b', ''),
    ('x**2-1', '', ''), ('x**3', '', 'x**2-1'), ('x**2-3*x+2', 'x', ''), ('a**2-b**2', 'a b', ''),
    ('1-a*b', 'a b', 'a+b-3'), ('a**2*b+b**2*c+c**2*a-4*a*b*c', 'a b c', ''), ('-a*b', 'a b', ''),
    ('a**2+b**2-3*a*b', 'a b', ''), ('a*b', 'a', ''), ('a**2*b', 'a', ''), ('x*y*z', 'x*y', ''),
    ('a**4+b**4+c**4+d**4-5*a*b*c*d', '', ''), ('-5', 'a', 'b-1'), ('a', '-a', ''), ('a*b', '-a -b a+b+3', '') if False else ('a', 'a+1', ''),
    ('x-2', 'x-1', ''), ('x*(x-1)', 'x', ''), ('x+y', 'x*y', ''), ('x', '', 'x**2-1'), ('a+b+c', 'a*b*c', ''),
    ('a**2*b**2*(a**2+b**2-3*c**2)+c**6-c**6/1000', '', ''),
]


def parse_con(s):
    return [sp.sympify(t) for t in s.split()] if s else []


def rand_certificate(rng):
    """p = sum w * (product of constraints) * square + sum lambda*h (true by construction)."""
    mixed = rng.random() < 0.1
    n = rng.choice([2, 2, 3]) if mixed else rng.choice([1, 2, 2, 3, 3, 4])
    names = rng.choice([['a', 'b', 'c', 'd'], ['x', 'y', 'z', 'w'], ['p', 't', 'q', 'r'], ['x1', 'x2', 'x3', 'x4']])[:n]
    g = sp.symbols(names)
    g = tuple(g)
    hom = rng.random() < 0.35
    ineq, eq = [], []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k = rng.random()
        if k < 0.4:
            q = rng.choice(g)
        elif k < 0.6:
            q = sum(rng.randint(-1, 2) * s for s in g) + (0 if hom else rng.randint(-2, 3))
        elif k < 0.7:
            q = rng.choice(g) * rng.choice([1, 2, R(1, 3)])
        elif k < 0.8:
            q = rng.choice(g)**rng.choice([3, 1]) * rng.choice(g)**rng.choice([0, 2])
        elif k < 0.9 and not hom:
            q = rng.choice([1, 4, R(9, 4)]) - sum(s**2 for s in g)
        else:
            q = rng.choice(g) * rng.choice(g)
        q = sp.expand(q)
        if q.free_symbols and q not in [e for e in ineq]:
            ineq.append(q)
    if rng.random() < 0.5:
        base = ineq[:]
        if rng.random() < 0.5 and n >= 2:
            for s in g:
                if s not in ineq:
                    ineq.append(s)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2]) if n > 1 else rng.choice([0, 0, 0, 1])):
        k = rng.random()
        if k < 0.5:
            h = sum(s for s in g) - (0 if hom else rng.choice([1, 2, 3]))
            if hom:
                h = g[0] - sum(rng.randint(0, 2) * s for s in g[1:])
        elif k < 0.7:
            h = sp.Mul(*g) - (0 if hom else 1)
        elif k < 0.8:
            h = sum(s**2 for s in g) - (0 if hom else rng.choice([1, 2, n]))
        elif k < 0.9:
            # factors of different multiplicities
            u, v = (list(g) * 2)[:2] if n == 1 else rng.sample(g, 2)
            if n == 1 or rng.random() < 0.5:
                v = u - (2 * v if hom and n > 1 else rng.choice([1, -1, 2])) if rng.random() < .7 and not (hom and n == 1) else v
            h = u**rng.choice([1, 2, 3]) * v**rng.choice([1, 2])
        else:
            h = (rng.choice(g) - (rng.choice(g) if hom else 1))**rng.choice([1, 1, 2])
        h = sp.expand(h)
        if h.free_symbols and h not in eq and (-h) not in eq:
            eq.append(h)
    if mixed:
        # one equality whose factors have different multiplicities, which the proof has to use
        u, v = rng.sample(g, 2)
        if rng.random() < 0.5:
            v = v - u * rng.choice([1, 2]) if hom or rng.random() < .5 else v - 1
        i, k = rng.choice([(1, 2), (2, 1), (1, 3), (3, 2), (2, 1)])
        eq = [sp.expand(u**i * v**k)]
        ineq = ineq[:rng.choice([0, 0, 1])]
        f = sum(rng.randint(-3, 3) * s for s in g) + (0 if hom else rng.randint(-2, 2))
        return sp.expand(f**2 + rng.choice([-3, -1, 1, 2, 5]) * u * v + R(rng.randint(0, 2), 2) * rng.choice(g)**2), list(g), ineq, eq
    deg = rng.choice([2, 2, 3, 4] if n <= 3 else [2, 2, 3])
    p = 0
    for _ in range(rng.randint(1, 3)):
        m = 1
        dm = 0
        for q in rng.sample(ineq, rng.randint(0, min(2, len(ineq)))):
            dq = sp.Poly(q, *g).total_degree()
            if dm + dq <= deg:
                m = m * q
                dm += dq
        h = (deg - dm) // 2
        if hom and (deg - dm) % 2:
            if ineq:
                q = rng.choice(ineq)
                if sp.Poly(q, *g).total_degree() != 1:
                    continue
                m = m * q
                h = (deg - dm - 1) // 2
            else:
                continue
        if hom:
            f = rform(rng, h, g, k=3, dens=0.7) if h else sp.Integer(1)
        else:
            f = sum(rng.randint(-3, 3) * mon(mm, g) for hh in range(h + 1) for mm in monoms(n, hh) if rng.random() < 0.7)
        p += R(rng.randint(1, 5), rng.choice([1, 1, 2, 3])) * m * f**2
    for h in eq:
        dh = sp.Poly(h, *g).total_degree()
        if dh <= deg and rng.random() < 0.8:
            lam = rng.randint(-3, 3)
            if deg - dh >= 1 and (hom or rng.random() < 0.5):
                lam = sum(rng.randint(-2, 2) * mon(mm, g) for mm in monoms(n, deg - dh))
            p += lam * h
    if rng.random() < 0.3 and not hom:
        p += R(1, rng.choice([1, 2, 10]))
    return sp.expand(p), list(g), ineq, eq


def from_classic(t):
    e = sp.sympify(t[0])
    I, E = parse_con(t[1]), parse_con(t[2])
    syms = set(e.free_symbols)
    for q in I + E:
        syms |= q.free_symbols
    return sp.expand(e), sorted(syms, key=str), I, E


def mess(q, rng):
    """an inequality constraint equivalent to q >= 0 (not identical)"""
    k = rng.random()
    if k < 0.35:
        return sp.expand(q * rng.choice([2, 3, R(1, 2), R(7, 3)]))
    if k < 0.55:
        return q**3 if rng.random() < 0.6 else sp.expand(q**3)
    if k < 0.75 and q.free_symbols:
        return q * (sorted(q.free_symbols, key=str)[0]**2 + 1)
    return sp.expand(q)


def aliases(cons, kind, rng, prefix, syms):
    """names for constraints"""
    out = []
    names = ['u', 'v', 'w', 's', 'e', 'f', 'g', 'h', 'k', 'l', 'm', 'n'] if prefix == 'i' else ['o', 'r', 'q0', 'j', 'O', 'Q', 'P']
    for i, q in enumerate(cons):
        if kind == 'expr':
            al = q
        elif kind == 'sym':
            al = sp.Symbol('%s%d' % (names[i % len(names)] , i))
        elif kind == 'func':
            fs = sorted(q.free_symbols, key=str)
            al = sp.Function({'i': 'F', 'e': 'H'}[prefix] + str(i))(*fs)
        elif kind == 'cfunc':   # one function name, distinguished by arguments (only when unambiguous)
            al = sp.Function('G')(q) if not q.is_Symbol else sp.Function('G')(q)
        else:   # names the implementation itself uses
            al = sp.Symbol(['t', '_t', 'G', '_G0', '_F', 't0', 't1'][i % 7] if prefix == 'i' else ['_H0', 'H', '_t0', 't2', '_S'][i % 5])
            if al in syms:
                al = sp.Symbol('tt%d%s' % (i, prefix))
        out.append((q, al))
    return out
