"""Oracles over returned certificates: exact identity and soundness.
A problem is (gens, poly: sp.Poly, ineq: list[(expr, alias)], eq: list[(expr, alias)])."""
import random
import sympy as sp
from gmpy2 import mpq
from .evalx import (Evaluator, Undefined, NotEvaluable, eval_poly, same, negative, prime_rational,
                    rnd_rational, is_exact, tofloat)


def _alias_table(env, ineq, eq):
    """Value of every alias at env: that of the constraint it names."""
    tab = {}
    for expr, al in list(ineq) + list(eq):
        tab[al] = Evaluator(env)(expr)
    return tab


def _root_signs(sol, eq):
    """An equality h**2 = 0 is restored as sqrt(alias) = +-h, one like u**2*v = 0 as sqrt(alias*v) = +-u*v:
    the other choices of sign."""
    als = {al for _, al in eq}
    roots = [p for p in sol.atoms(sp.Pow) if als and p.exp.is_Rational and p.exp.q % 2 == 0
             and (p.base in als or p.base.free_symbols)]
    by = {}
    for p in roots:
        if p.exp.p % 2:
            by.setdefault(p.base, []).append(p)
    out = []
    for k in range(1, 1 << min(len(by), 3)):
        d = {}
        for i, (_, ps) in enumerate(sorted(by.items(), key=str)):
            if k >> i & 1:
                d.update({p: -p for p in ps})
        out.append(d)
    return out


def check_identity(sol, poly_expr, gens, ineq, eq, rng, npts=2, tries=12):
    """solution == poly when every alias stands for its constraint.
    Returns ('ok', n) | ('bad', detail) | ('unknown', why)."""
    ok = 0
    why = ''
    exact = True
    flips = [{}] + _root_signs(sol, eq)
    for t in range(tries):
        small = t % 2 == 1 or not exact
        env = {g: (rnd_rational(rng, -9, 9, 7) if small else prime_rational(rng)) for g in gens}
        if t >= 6:      # radicals may need positive points
            env = {g: abs(v) + mpq(1, 7) for g, v in env.items()}
        try:
            tab = _alias_table(env, ineq, eq)
            env2 = dict(env)
            funcs = {}
            for al, v in tab.items():
                if al.is_Symbol:
                    env2[al] = v
                else:
                    funcs[al] = v
            v2 = Evaluator(env)(poly_expr)
            v1 = None
            for flip in flips:
                w = Evaluator(env2, funcs)(sol.xreplace(flip) if flip else sol)
                if v1 is None or same(w, v2, (1 + max(abs(tofloat(v)) for v in env.values())) ** 12
                                      if not (is_exact(w) and is_exact(v2)) else None):
                    v1 = w
        except Undefined as e:
            why = str(e)
            continue
        except NotEvaluable as e:
            return ('unknown', str(e))
        exact = is_exact(v1) and is_exact(v2)
        sc = None
        if not exact:
            m = max(abs(tofloat(v)) for v in env.values())
            sc = (1 + m) ** 12
        if not same(v1, v2, sc):
            return ('bad', {'point': {str(k): str(v) for k, v in env.items()},
                            'certificate': str(v1)[:60], 'polynomial': str(v2)[:60]})
        ok += 1
        if ok >= npts:
            return ('ok', ok)
    return ('ok', ok) if ok else ('unknown', why or 'undefined everywhere')


def check_nonneg(sol, gens, ineq, eq, rng, npts=30):
    """The certificate is nonnegative for all real variables, all nonnegative values of the
    inequality aliases and zero values of the equality aliases (aliases must be fresh names)."""
    n = 0
    ial = [al for _, al in ineq]
    eal = [al for _, al in eq]
    for t in range(npts):
        mode = t % 3
        if mode == 0:
            env = {g: mpq(rng.randint(-3, 3)) for g in gens}
        elif mode == 1:
            env = {g: rnd_rational(rng, -5, 5, 5) for g in gens}
        else:
            env = {g: mpq(rng.choice([-1, 1]) * rng.randint(0, 30), rng.randint(1, 30)) for g in gens}
        funcs = {}
        for al in ial:
            r = rng.random()
            v = mpq(0) if r < 0.25 else (mpq(rng.randint(0, 40), rng.randint(1, 20)) if r < 0.7
                                         else mpq(rng.randint(1, 9), rng.randint(1, 900)) if r < 0.85 else mpq(rng.randint(10, 900)))
            (env if al.is_Symbol else funcs)[al] = v
        for al in eal:
            (env if al.is_Symbol else funcs)[al] = mpq(0)
        try:
            v = Evaluator(env, funcs)(sol)
        except Undefined:
            continue
        except NotEvaluable as e:
            return ('unknown', str(e))
        n += 1
        if negative(v):
            return ('bad', {'variables': {str(k): str(x) for k, x in env.items()},
                            'aliases': {str(k): str(x) for k, x in funcs.items()},
                            'certificate': str(v)[:60]})
    return ('ok', n)


def has_eq_only_via_alias(sol):
    return True
