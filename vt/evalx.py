"""Independent evaluator of certificates.

Evaluates a sympy expression (including the repository's cyclic sum / product nodes,
recognised by class name) at a point, without calling any of the repository's own
expansion code.  Group elements are enumerated here from the generators.
"""
from fractions import Fraction
import gmpy2
from gmpy2 import mpq
import mpmath
import sympy as sp

DIGITS = 80
TOL = mpmath.mpf(10) ** (-35)


class Undefined(Exception):
    """Division by zero at the point, or a non-real value."""


class NotEvaluable(Exception):
    pass


_group_cache = {}


def group_elements(G):
    """All elements of a permutation group as tuples, by closure of the generators."""
    gens = tuple(tuple(g.array_form) for g in G.generators)
    n = G.degree
    key = (gens, n)
    r = _group_cache.get(key)
    if r is None:
        ident = tuple(range(n))
        seen = {ident}
        todo = [ident]
        while todo:
            x = todo.pop()
            for g in gens:
                y = tuple(x[g[i]] for i in range(n))
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        r = _group_cache[key] = sorted(seen)
    return r


def is_exact(v):
    return not isinstance(v, mpmath.mpf)


def _num(e):
    if isinstance(e, sp.Rational):
        return mpq(int(e.p), int(e.q))
    if isinstance(e, sp.Float):
        # a float in a certificate is not an exact number: keep its exact binary value
        r = sp.Rational(e)
        return mpq(int(r.p), int(r.q))
    with mpmath.workdps(DIGITS + 10):
        v = e.evalf(DIGITS + 10)
        if not v.is_real:
            v2 = sp.re(v)
            if abs(sp.im(v)) > sp.Float(10) ** (-DIGITS + 10) * (1 + abs(v2)):
                raise Undefined('non-real constant %s' % e)
            v = v2
        return mpmath.mpf(sp.Float(v, DIGITS + 10)._mpf_)


def mix(a, b):
    ea, eb = is_exact(a), is_exact(b)
    if ea and eb:
        return a, b
    if ea:
        a = mpmath.mpf(int(a.numerator)) / mpmath.mpf(int(a.denominator))
    if eb:
        b = mpmath.mpf(int(b.numerator)) / mpmath.mpf(int(b.denominator))
    return a, b


def tofloat(a):
    if is_exact(a):
        with mpmath.workdps(DIGITS + 10):
            return mpmath.mpf(int(a.numerator)) / mpmath.mpf(int(a.denominator))
    return a


def vadd(a, b):
    a, b = mix(a, b)
    return a + b


def vmul(a, b):
    a, b = mix(a, b)
    return a * b


def vpow(a, n):
    if n < 0:
        if a == 0 or (not is_exact(a) and abs(a) < TOL):
            raise Undefined('division by zero')
        return 1 / vpow(a, -n)
    r = mpq(1)
    if not is_exact(a):
        return a ** n
    return a ** n


class Evaluator:
    """env: dict symbol -> mpq/mpf.  funcs: callable(applied_function_expr)->value or None."""

    def __init__(self, env, funcs=None):
        self.env = env
        self.funcs = funcs or {}
        self.maxabs = mpq(0)

    def __call__(self, expr):
        with mpmath.workdps(DIGITS + 10):
            return self.ev(sp.sympify(expr), {}, {})

    def ev(self, e, sg, memo):
        key = e
        r = memo.get(key)
        if r is None:
            r = self._ev(e, sg, memo)
            memo[key] = r
        return r

    def _ev(self, e, sg, memo):
        if e.is_Symbol:
            s = sg.get(e, e)
            if s not in self.env:
                raise NotEvaluable('unknown symbol %s' % s)
            return self.env[s]
        if e.is_Number:
            if e in (sp.oo, -sp.oo, sp.zoo, sp.nan):
                raise Undefined('infinite constant')
            return _num(e)
        name = e.__class__.__name__
        if name in ('CyclicSum', 'CyclicProduct'):
            body, syms, grp = e.args[0], e.args[1], e.args[2]
            syms = tuple(syms)
            if not all(s.is_Symbol for s in syms):
                raise NotEvaluable('cyclic node over non-symbols')
            acc = mpq(0) if name == 'CyclicSum' else mpq(1)
            for g in group_elements(grp):
                sg2 = dict(sg)
                for i, s in enumerate(syms):
                    t = syms[g[i]]
                    sg2[s] = sg.get(t, t)
                v = self.ev(body, sg2, {})
                acc = vadd(acc, v) if name == 'CyclicSum' else vmul(acc, v)
            return acc
        if not e.free_symbols and not e.has(sp.core.function.AppliedUndef) and not _has_cyc(e):
            if e.is_Add or e.is_Mul or e.is_Pow:
                pass
            else:
                return _num(e)
        if e.is_Add:
            acc = mpq(0)
            for a in e.args:
                v = self.ev(a, sg, memo)
                acc = vadd(acc, v)
            return acc
        if e.is_Mul:
            acc = mpq(1)
            for a in e.args:
                acc = vmul(acc, self.ev(a, sg, memo))
            return acc
        if e.is_Pow:
            b, x = e.args
            if x.is_Integer:
                return vpow(self.ev(b, sg, memo), int(x))
            if x.is_Rational:
                bv = tofloat(self.ev(b, sg, memo))
                if bv < 0:
                    if x.q % 2 == 1 and False:
                        pass
                    raise Undefined('root of a negative value')
                if bv == 0 and x < 0:
                    raise Undefined('division by zero')
                return mpmath.power(bv, mpmath.mpf(int(x.p)) / mpmath.mpf(int(x.q)))
            raise NotEvaluable('power %s' % e)
        if isinstance(e, sp.core.function.AppliedUndef):
            args = tuple(a.xreplace(sg) for a in e.args)
            f = e.func(*args)
            if callable(self.funcs):
                return self.funcs(f)
            if f in self.funcs:
                return self.funcs[f]
            raise NotEvaluable('unknown function %s' % f)
        if isinstance(e, sp.Abs):
            v = self.ev(e.args[0], sg, memo)
            return -v if v < 0 else v
        if isinstance(e, sp.Poly):
            return eval_poly(e, self.env)
        if isinstance(e, (sp.Max, sp.Min)):
            vals = [self.ev(a, sg, memo) for a in e.args]
            f = max if isinstance(e, sp.Max) else min
            return f(vals, key=tofloat)
        raise NotEvaluable('%s: %s' % (name, e))


_cyc_cache = {}


def _has_cyc(e):
    return any(x.__class__.__name__ in ('CyclicSum', 'CyclicProduct') for x in sp.preorder_traversal(e))


def eval_poly(poly, env):
    """Value of a sympy Poly from its raw terms."""
    acc = mpq(0)
    with mpmath.workdps(DIGITS + 10):
        vals = [env[g] for g in poly.gens]
        for m, c in poly.terms():
            if c.free_symbols:
                t = Evaluator(env).ev(c, {}, {})
            else:
                t = Evaluator({}).ev(c, {}, {})
            for v, k in zip(vals, m):
                if k:
                    t = vmul(t, vpow(v, k))
            acc = vadd(acc, t)
    return acc


def same(a, b, scale=None):
    if is_exact(a) and is_exact(b):
        return a == b
    a, b = tofloat(a), tofloat(b)
    with mpmath.workdps(DIGITS + 10):
        s = max(abs(a), abs(b), mpmath.mpf(1))
        if scale is not None:
            s = max(s, abs(tofloat(scale)))
        return abs(a - b) <= TOL * s


def negative(a):
    """Strictly negative beyond rounding."""
    if is_exact(a):
        return a < 0
    return a < -TOL * 10 ** 5


def rnd_rational(rng, lo=-6, hi=6, den=4):
    d = rng.randint(1, den)
    return mpq(rng.randint(lo * d, hi * d), d)


def prime_rational(rng, sign=0):
    """A larger random rational for identity testing."""
    p = rng.randint(1, 9973)
    q = rng.randint(1, 97)
    v = mpq(p, q)
    if sign == 0 and rng.random() < 0.5:
        v = -v
    return v
