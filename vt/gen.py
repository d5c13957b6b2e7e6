"""Generators of inequality problems (pure sympy; no repository code)."""
import random
import sympy as sp
from sympy import Rational as R

a, b, c, d = sp.symbols('a b c d')
ABC = (a, b, c)


def cyc(e, g=ABC):
    n = len(g)
    out = 0
    for k in range(n):
        out += e.xreplace({g[i]: g[(i + k) % n] for i in range(n)})
    return out


def cycp(e, g=ABC):
    n = len(g)
    out = 1
    for k in range(n):
        out *= e.xreplace({g[i]: g[(i + k) % n] for i in range(n)})
    return out


def symsum(e, g=ABC):
    from itertools import permutations
    out = 0
    for p in permutations(g):
        out += e.xreplace(dict(zip(g, p)))
    return out


def rc(rng, k=5, den=1):
    v = R(rng.randint(-k, k), rng.choice([1] * 3 + list(range(1, den + 1))))
    return v


def monoms(n, deg):
    if n == 1:
        return [(deg,)]
    return [(i,) + m for i in range(deg, -1, -1) for m in monoms(n - 1, deg - i)]


def mon(m, g):
    return sp.Mul(*[x ** e for x, e in zip(g, m)])


def rform(rng, deg, g=ABC, k=4, dens=0.6, vanish=None):
    """random form; vanish: a point where it is forced to be zero"""
    ms = monoms(len(g), deg)
    cs = [rng.randint(-k, k) if rng.random() < dens else 0 for _ in ms]
    e = sum(x * mon(m, g) for x, m in zip(cs, ms))
    if vanish is not None:
        v = sp.sympify(e).xreplace(dict(zip(g, [sp.Integer(x) for x in vanish]))) if e != 0 else 0
        i = rng.randrange(len(g))
        den = sp.Integer(vanish[i]) ** deg
        if den != 0:
            e = e - v / den * g[i] ** deg
    return sp.expand(e)


def cyc_known(rng, deg, sym=False, real=False, vanish=True):
    """A random cyclic (or symmetric) ternary form that is nonnegative on the orthant
    (or on R^3): a sum of cyclic sums of monomial*(form)^2 with random equality point."""
    S = symsum if sym else cyc
    pt = None
    if vanish:
        pt = rng.choice([(1, 1, 1), (1, 1, 1), (1, 1, 1), (2, 1, 1), (1, 1, 0), (1, 2, 3), (3, 1, 1), (1, 2, 1)])
    tot = 0
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        if real:
            h = deg // 2
            m = (0, 0, 0)
            if rng.random() < 0.3 and h > 1:
                h -= 1
                m = rng.choice([(2, 0, 0), (0, 2, 0), (0, 0, 2)])
        else:
            hs = [x for x in range(0, deg // 2 + 1)]
            h = rng.choice(hs[1:] or hs)
            m = rng.choice(monoms(3, deg - 2 * h))
        f = rform(rng, h, ABC, k=3, vanish=pt if h else None)
        if f == 0:
            continue
        tot += rng.choice([1, 1, 2, 3, R(1, 2)]) * S(mon(m, ABC) * f ** 2)
    return sp.expand(tot)


def cyc_random(rng, deg, k=6, sym=False, centered=True):
    S = symsum if sym else cyc
    ms = monoms(3, deg)
    tot = 0
    for m in ms:
        if rng.random() < 0.5:
            tot += rng.randint(-k, k) * S(mon(m, ABC))
    tot = sp.expand(tot)
    i, r = divmod(deg, 3)
    base = S(mon((i + (r > 0), i + (r > 1), i), ABC))
    if centered:
        v = tot.xreplace(dict(zip(ABC, (sp.Integer(1),) * 3))) if tot != 0 else 0
        w = base.xreplace(dict(zip(ABC, (sp.Integer(1),) * 3)))
        tot = tot - R(v) / w * base
    return sp.expand(tot)


def schur_like(rng, deg):
    """AM-GM / Schur style differences."""
    t = 0
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(['schur', 'amgm', 'sq'])
        if k == 'schur':
            j = rng.randint(0, deg - 2)
            i = deg - 2 - j
            if i < 0:
                continue
            if rng.random() < 0.5:
                j = 0
                i = deg - 2
            t += rng.randint(1, 4) * cyc(a ** i * (b * c) ** 0 * (a - b) * (a - c) * (a + b + c) ** j)
        elif k == 'amgm':
            ms = monoms(3, deg)
            m = rng.choice(ms)
            i, r = divmod(deg, 3)
            base = (i + (r > 0), i + (r > 1), i)
            t += rng.randint(1, 4) * (symsum(mon(m, ABC)) - symsum(mon(base, ABC)))
        else:
            if deg % 2 == 0:
                t += cyc(rform(rng, deg // 2, vanish=(1, 1, 1)) ** 2)
            else:
                t += cyc(a * rform(rng, (deg - 1) // 2, vanish=(1, 1, 1)) ** 2)
    return sp.expand(t)


def acyc_known(rng, deg, g=ABC, real=False, terms=3, vanish=None):
    tot = 0
    n = len(g)
    for _ in range(terms):
        if real:
            h = deg // 2
            m = (0,) * n
        else:
            h = rng.choice(list(range(deg // 2 + 1))[1:] or [0])
            m = rng.choice(monoms(n, deg - 2 * h))
        f = rform(rng, h, g, k=3, vanish=vanish if h else None)
        tot += rng.randint(1, 3) * mon(m, g) * f ** 2
    return sp.expand(tot)
