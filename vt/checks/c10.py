"""C10: re-expressing a proof with cyclic sums does not change its value."""
import random
import sympy as sp
from sympy import Rational as R
from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup, SymmetricGroup, AlternatingGroup, DihedralGroup
from gmpy2 import mpq
from .. import common, gen
from ..evalx import Evaluator, group_elements, Undefined, NotEvaluable, same, rnd_rational
from .c09 import build, groups, base_expr, NAMES, PAR, F, G, hash_fn, value

RULE = ('random finished expressions (nested cyclic nodes over random groups, aliases, surds, quotients) and solver proofs '
        'under random operations of the solution object (rewriting by a group, removing, collecting, signs, renaming, '
        'fraction, equation, dehomogenizing), and random linear-programming basis combinations with repeated factors, '
        'equality / inequality aliases and multipliers assembled with and without collection; every result is evaluated '
        'exactly and compared with the written-out original. Non-trivial: an operation that leaves a different object.')
ASSUMPTIONS = ['cyclic nodes are evaluated by summing over the group (C09)', 'equality is tested at random rational points']


def env_for(rng, t, extra=()):
    env = {s: rnd_rational(rng, -4, 4, 3) for s in list(NAMES) + list(PAR) + list(sp.symbols('p q r g h')) + list(extra)}
    if t > 2:
        env = {k: abs(v) + mpq(1, 3) for k, v in env.items()}
    return env


def cmp_vals(rng, e, ref, out, what, fix=None, fns=None, tries=6, pre=None):
    """one successful exact comparison is enough; False = changed value"""
    for t in range(tries):
        env = env_for(rng, t, sorted(getattr(e, 'free_symbols', set()) | ref.free_symbols, key=str))
        if fix:
            env.update(fix)
        if pre:
            env = pre(env)
        ev = lambda x: (Evaluator(env, fns(env))(x) if fns else value(x, env))
        try:
            vr = ev(ref)
            ve = ev(e)
        except Undefined:
            continue
        except NotEvaluable as ex:
            out['unk'] = str(ex)
            return True
        out['n'] += 1
        if not same(ve, vr, None):
            out['bad'].append('%s: %s evaluates to %s, the original %s to %s' % (what, str(e)[:400], str(ve)[:60], str(ref)[:400], str(vr)[:60]))
            return False
        return True
    out['undef'] = 1
    return True


def mixed(rng, fn, names=None, grp=None):
    """sum of cyclic nodes over one symbol tuple but different (related) groups"""
    from triples.utils.expression import CyclicSum, CyclicProduct
    n = rng.choice([2, 3, 3, 3, 4, 4, 5]) if names is None else len(names)
    names = tuple(NAMES[:n]) if names is None else names
    tot = 0
    for _ in range(rng.randint(1, 3)):
        g = groups(rng, n) if rng.random() < 0.75 else rng.choice(pool(n))
        cls = CyclicSum if rng.random() < 0.7 else CyclicProduct
        e = base_expr(rng, names, rng.randint(1, 3) if g.order() < 7 else rng.randint(1, 2), fn if rng.random() < 0.6 else None)
        if rng.random() < 0.3:        # make it symmetric under a larger group
            g2 = rng.choice(pool(n))
            if g2.order() <= 6:
                e = sum(e.xreplace({names[i]: names[q[i]] for i in range(n)}) for q in group_elements(g2))
        o = cls(e, names, g)
        if rng.random() < 0.35:
            o = cls(o * base_expr(rng, names, 1, None), names, groups(rng, n)) if o.args and n <= 3 else o ** rng.randint(1, 2)
        k = rng.random()
        f = base_expr(rng, names, 1, fn)
        if k < 0.3:
            o = o * f
        elif k < 0.4:
            o = o / (f ** 2 + 1)
        tot = tot + rng.choice([1, 1, -2, R(1, 3)]) * o
    return sp.sympify(tot), names


def pool(n):
    out = [CyclicGroup(n), SymmetricGroup(n) if n <= 4 else CyclicGroup(n)]
    idp = list(range(n))
    out.append(PermutationGroup(Permutation(idp)))
    if n >= 3:
        out.append(AlternatingGroup(n) if n <= 4 else DihedralGroup(n))
        out.append(PermutationGroup(Permutation([1, 0] + idp[2:])))
        out.append(PermutationGroup(Permutation([1, 2, 0] + idp[3:])))
        out.append(PermutationGroup(Permutation([0] + idp[2:] + [1])))
    if n >= 4:
        out.append(DihedralGroup(n))
        out.append(PermutationGroup(Permutation([1, 0, 3, 2] + idp[4:])))
    return out


def pick(rng, e, names):
    """symbols and group to rewrite by"""
    from triples.utils.expression import CyclicExpr
    nodes = sorted(e.atoms(CyclicExpr) if False else [x for x in sp.preorder_traversal(e) if isinstance(x, CyclicExpr)], key=str)
    if nodes and rng.random() < 0.8:
        nd = rng.choice(nodes)
        syms, g = tuple(nd.args[1]), nd.args[2]
        k = rng.random()
        if k < 0.3:
            return syms, g
        return syms, rng.choice(pool(len(syms))) if k < 0.8 else groups(rng, len(syms))
    names = names or NAMES[:3]
    if rng.random() < 0.3:
        names = tuple(rng.sample(NAMES, rng.choice([2, 3, 4])))
    return tuple(names), rng.choice(pool(len(names)))


def check_nodes(e, syms, g, out, what):
    from triples.utils.expression import CyclicExpr
    for x in sp.preorder_traversal(e):
        if isinstance(x, CyclicExpr):
            els = {tuple(q) for q in group_elements(x.args[2])}
            if tuple(x.args[1]) != tuple(syms) or els != {tuple(q) for q in group_elements(g)}:
                out['bad'].append('%s: a cyclic node over %s, %s remains in %s although %s, %s was requested' % (
                    what, x.args[1], x.args[2], str(e)[:300], syms, g))
                return


def ops_chain(rng, e, ref, names, out, problem, I=None, E=None, fns=None, steps=4):
    """chain of re-expressions of a solution object"""
    from triples.utils.expression.solution import SolutionSimple, Solution
    s = SolutionSimple(problem, e, I or {}, E or {}, True)
    hist, fix = [], {}
    for _ in range(steps):
        k = rng.random()
        before, bstr = s.solution, sp.srepr(s.solution) if len(str(s.solution)) < 800 else None
        ref2 = ref
        if k < 0.4:
            syms, g = pick(rng, s.solution, names)
            nm = 'rewrite_symmetry(%s, order %d %s)' % (syms, g.order(), [q.array_form for q in g.generators])
            s2 = s.rewrite_symmetry(syms, g)
            check_nodes(s2.solution, syms, g, out, nm)
        elif k < 0.48:
            d = {} if rng.random() < 0.6 else {'deep': False}
            nm, s2 = 'doit%s' % d, s.doit(**d)
        elif k < 0.58:
            c = rng.choice(names or NAMES[:3])
            c = [c] if rng.random() < 0.5 else c
            nm, s2 = 'collect(%s)' % c, s.collect(c)
        elif k < 0.66:
            nm, s2 = 'signsimp', s.signsimp()
        elif k < 0.74:
            a, b = rng.sample(list(NAMES), 2)
            rule = rng.choice([{a: b, b: a}, {a: a + b}, {a: 2 * a}, {PAR[0]: a}, {F(a): PAR[1]}, {F(t): G(t) for t in NAMES}])
            nm, s2 = 'xreplace(%s)' % rule, s.xreplace(rule)
            ref2 = ref.xreplace(rule)
        elif k < 0.8:
            tg = rng.random() < 0.6
            num, den = s.as_fraction(together=tg)
            nm = 'as_fraction(%s)' % tg
            s2 = s.copy()
            s2.solution = num / den
        elif k < 0.86:
            s2 = s.copy()
            nm = 'as_fraction(inplace)'
            s2.as_fraction(together=rng.random() < 0.5, inplace=True)
        elif k < 0.92:
            cc, tg = rng.random() < 0.5, rng.random() < 0.5
            lhs = sp.Symbol('LHS')
            eq = s.as_eq(lhs_expr=lhs, together=tg, cancel=cc)
            nm = 'as_eq(together=%s, cancel=%s)' % (tg, cc)
            coef = eq.lhs.xreplace({lhs: sp.S.One}) if eq.lhs != lhs else sp.S.One
            s2 = s.copy()
            s2.solution = eq.rhs / coef
        elif k < 0.95:
            nm, s2 = 'as_simple_solution', s.as_simple_solution()
        else:
            h = rng.choice(list(names or NAMES[:3])) if rng.random() < 0.4 else (names or NAMES[:3])[-1]
            nm = 'dehomogenize(%s)' % h
            s2 = s.dehomogenize(h)
            ref2 = ref.xreplace({h: sp.S.One})
            if leaks(sp.sympify(s2.solution), h):
                out['bad'].append('%s leaves the symbol in %s' % (nm, str(s2.solution)[:300]))
        hist.append(nm)
        if s.solution is not before or (bstr is not None and sp.srepr(s.solution) != bstr):
            out['bad'].append('%s modified the solution object it was called on' % nm)
        if s2.solution != before:
            out['ops'].append(nm.split('(')[0])
        ok = cmp_vals(rng, s2.solution, ref2, out, 'after %s of %s' % (hist, str(e)[:300]), fix, fns)
        if not ok:
            return
        s, ref = s2, ref2
        if len(str(s.solution)) > 3000 or len(str(ref)) > 6000:
            return


def leaks(e, h):
    """the symbol still occurs outside the symbol lists of cyclic nodes"""
    from triples.utils.expression import CyclicExpr
    if isinstance(e, CyclicExpr):
        return leaks(e.args[0], h)
    return e == h or any(leaks(x, h) for x in e.args)


def job_chain(seed):
    rng = random.Random('c10c/%s' % seed)
    out = {'bad': [], 'ops': [], 'n': 0}
    fn = rng.choice([None, F])
    names = None
    if rng.random() < 0.6:
        e, names = mixed(rng, fn)
        from ..evalx import group_elements as ge
        ref = written_out(e)
    else:
        e, ref = build(rng, rng.randint(1, 2), fn)
        e, ref = sp.sympify(e), sp.sympify(ref)
    out['expr'] = str(e)[:200]
    if len(str(ref)) > 6000:
        return out
    ops_chain(rng, e, ref, names, out, sp.Symbol('a').as_poly())
    return out


def written_out(e):
    """replace every cyclic node by the explicit sum / product (own expansion)"""
    from triples.utils.expression import CyclicExpr, CyclicSum
    if isinstance(e, CyclicExpr):
        body = written_out(e.args[0])
        syms = list(e.args[1])
        parts = []
        for q in group_elements(e.args[2]):
            d = {syms[i]: syms[q[i]] for i in range(len(syms))}
            parts.append(body.xreplace(d))
        return (sp.Add if isinstance(e, CyclicSum) else sp.Mul)(*parts)
    if not e.args or not e.has(CyclicExpr):
        return e
    return e.func(*[written_out(x) for x in e.args])


def job_rewrite(seed):
    """rewrite_symmetry directly, many groups for one expression"""
    from triples.utils.expression import rewrite_symmetry
    rng = random.Random('c10r/%s' % seed)
    out = {'bad': [], 'ops': [], 'n': 0}
    e, names = mixed(rng, rng.choice([None, F]))
    ref = written_out(e)
    out['expr'] = str(e)[:200]
    if len(str(ref)) > 8000:
        return out
    for _ in range(3):
        syms, g = pick(rng, e, names)
        e2 = rewrite_symmetry(e, syms, g)
        nm = 'rewrite_symmetry(%s, order %d %s)' % (syms, g.order(), [q.array_form for q in g.generators])
        if e2 != e:
            out['ops'].append('rewrite')
        if not cmp_vals(rng, e2, ref, out, nm):
            return out
        check_nodes(sp.sympify(e2), syms, g, out, nm)
        if rng.random() < 0.4:
            syms, g = pick(rng, sp.sympify(e2), names)
            e3 = rewrite_symmetry(e2, syms, g)
            if not cmp_vals(rng, e3, ref, out, nm + ' then order %d %s' % (g.order(), [q.array_form for q in g.generators])):
                return out
            out['ops'].append('rewrite-twice')
    return out


# ---------------------------------------------------------------- collection of linear-programming proofs

def invariant_poly(rng, syms, grp, deg):
    t = 0
    for _ in range(rng.randint(1, 2)):
        m = sp.prod([s ** rng.randint(0, deg) for s in syms])
        t += rng.choice([1, 2, -1, 3]) * sum(m.xreplace({syms[i]: syms[q[i]] for i in range(len(syms))}) for q in group_elements(grp))
    return sp.expand(t)


def job_collect(seed):
    from triples.core.linsos.solution import SolutionLinear, _solve_optimal_factor
    from triples.core.linsos.basis import LinearBasisTangent, LinearBasisExpr
    from triples.core.linsos.updegree import LinearBasisMultiplier
    from triples.utils import MonomialManager
    rng = random.Random('c10k/%s' % seed)
    out = {'bad': [], 'ops': [], 'n': 0}
    n = rng.choice([2, 3, 3, 3, 4])
    syms = tuple(NAMES[:n]) if rng.random() < 0.7 else tuple(rng.sample(NAMES, n))
    grp = rng.choice(pool(n)) if rng.random() < 0.8 else PermutationGroup(Permutation(list(range(n))))
    mm = MonomialManager(n, grp)
    els = group_elements(grp)
    images = lambda x: [x.xreplace({syms[i]: syms[q[i]] for i in range(n)}) for q in els]
    Q = lambda: gen_poly(rng, syms)

    # aliases:  name(symbols...)  with the value of their polynomial
    I, E = {}, {}
    pol = {}           # alias head -> (args, polynomial)
    for kind, D in (('g', I), ('h', E)):
        for i in range(rng.randint(0, 2)):
            p = Q() if rng.random() < 0.6 else invariant_poly(rng, syms, grp, 1)
            if not p.free_symbols:
                continue
            if rng.random() < 0.25:
                al = p if kind == 'g' else p                     # itself as its own alias
            elif rng.random() < 0.5 and all(sp.expand(x - p) == 0 for x in images(p)):
                al = sp.Symbol('%s%d' % (kind, i))
                pol[al] = p
            else:
                f = sp.Function('%s%d' % (kind.upper(), i))
                al = f(*syms)
                pol[f] = (syms, p)
            D[sp.Poly(p, *syms)] = al
    tpool = list(I.values()) + list(E.values())
    sq = [Q() ** 2 for _ in range(rng.randint(1, 3))]
    basis, y, rows = [], [], []
    for _ in range(rng.randint(1, 7)):
        k = rng.random()
        v = R(rng.randint(1, 9), rng.choice([1, 1, 2, 3, 5]))
        if k < 0.75:
            t = sp.S.One
            for _ in range(rng.randint(0, 3)):
                c = rng.random()
                if c < 0.55 and tpool:
                    t = t * rng.choice(tpool)
                elif c < 0.9:
                    t = t * rng.choice(sq)
                else:
                    t = t * rng.choice([2, R(1, 3), -1, 3])
            if rng.random() < 0.15:
                t = t.expand()
            pw = tuple(rng.choice([0, 0, 1, 1, 2]) for _ in range(n))
            b = LinearBasisTangent(pw, sp.sympify(t), syms)
            row = sp.prod([s ** q for s, q in zip(syms, pw)]) * t
            if any(h in sp.sympify(t).free_symbols or sp.sympify(t).has(h) for h in E.values()) and rng.random() < 0.5:
                v = -v
        else:
            x = Q() * rng.choice([1, Q()])
            b = LinearBasisExpr(sp.sympify(x), syms)
            row = x
        basis.append(b)
        y.append(v)
        rows.append(v * row)
    poly = sp.Poly(Q(), *syms)
    ms = [(sp.S.One, R(rng.randint(1, 5), rng.choice([1, 1, 2])))]
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            m = rng.choice([syms[0], syms[0] ** 2 + syms[-1] ** 2, sp.prod(syms), syms[0] * syms[1], sum(syms)])
            ms.append((sp.sympify(m), R(rng.randint(1, 6), rng.choice([1, 2, 3]))))
        if rng.random() < 0.5:
            ms = ms[1:]
    for m, v in ms:
        at = rng.randint(0, len(basis))
        basis.insert(at, LinearBasisMultiplier.from_expr(poly, m))
        y.insert(at, v)
    ml = sum(v * m for m, v in ms)
    tot_m = sum(images(sp.sympify(ml)))
    ref = sum(sum(images(sp.sympify(r))) for r in rows) / tot_m
    if not rows:
        return out
    y0, I0, E0 = list(y), dict(I), dict(E)

    def fns(env):
        def ev(app):
            args, p = pol[app.func]
            vals = {}
            for s_, a_ in zip(args, app.args):
                vals[s_] = Evaluator(env, ev)(a_)
            return Evaluator(vals, None)(p)
        return ev

    def pre(env):
        env = dict(env)
        for k, p in pol.items():
            if isinstance(k, sp.Symbol):
                env[k] = Evaluator(env, None)(p)
        return env
    for coll in (True, False):
        s = SolutionLinear._from_y_basis(poly, y, basis, mm, ineq_constraints=I, eq_constraints=E, is_equal=True, collect=coll)
        out['ops'].append('linear-collect' if coll else 'linear-plain')
        what = 'rows %s over %s group %s multiplier %s (I %s, E %s), collect=%s' % (
            [str(r) for r in rows], syms, [q.array_form for q in grp.generators], ml, I0, E0, coll)
        if not cmp_vals(rng, sp.sympify(s.solution), sp.sympify(ref), out, what, fns=fns, pre=pre):
            return out
        if list(y) != y0 or I != I0 or E != E0:
            out['bad'].append('assembling the proof modified its arguments')
    return out


def gen_poly(rng, syms):
    d = rng.choice([1, 1, 2])
    f = 0
    while f == 0 or not sp.sympify(f).free_symbols:
        f = sum(rng.randint(-2, 2) * gen.mon(m, syms) for m in gen.monoms(len(syms), d) if rng.random() < 0.7)
    return sp.sympify(f)


# ---------------------------------------------------------------- real proofs

def job_proof(seed):
    from .. import problems as pb
    from triples.core import sum_of_squares
    rng = random.Random('c10p/%s' % seed)
    out = {'bad': [], 'ops': [], 'n': 0}
    a, b, c, d = sp.symbols('a b c d')
    n = rng.choice([3, 3, 3, 4])
    syms = (a, b, c, d)[:n]
    S = gen.cyc if rng.random() < 0.5 else gen.symsum
    k = rng.random()
    x = base_poly(rng, syms)
    p = sp.expand(S(x ** 2 * (rng.choice(syms) if k < 0.4 and n == 3 else 1), syms))
    if p == 0:
        return out
    I = {s: sp.Symbol('x_%s' % s) if rng.random() < 0.3 else s for s in syms}
    meth = rng.choice([['StructuralSOS'], ['LinearSOS'], ['SDPSOS'], ['SymmetricSOS']] if n == 3 else [['LinearSOS'], ['SDPSOS']])
    s = sum_of_squares(sp.Poly(p, *syms), dict(I), {}, method_order=meth, verbose=False) if _verb(sum_of_squares) else \
        sum_of_squares(sp.Poly(p, *syms), dict(I), {}, method_order=meth)
    if s is None:
        out['none'] = 1
        return out
    out['expr'] = str(s.solution)[:200]
    out['proof'] = meth[0]
    if len(str(s.solution)) > 4000:
        return out
    from triples.utils.expression import rewrite_symmetry
    ref = written_out(s.solution)
    for _ in range(3):
        sy = syms if rng.random() < 0.8 else tuple(rng.sample(syms, n))
        g = rng.choice(pool(n))
        s2 = s.rewrite_symmetry(sy, g)
        nm = 'rewriting the %s proof of %s by %s %s' % (meth[0], p, sy, [q.array_form for q in g.generators])
        if not cmp_vals(rng, s2.solution, ref, out, nm):
            return out
        check_nodes(s2.solution, sy, g, out, nm)
        out['ops'].append('proof-rewrite')
    ops_chain(rng, s.solution, ref, syms, out, s.problem)
    return out


def base_poly(rng, syms):
    return sum(rng.randint(-3, 3) * s for s in syms) if rng.random() < 0.6 else \
        sum(rng.randint(-2, 2) * gen.mon(m, syms) for m in gen.monoms(len(syms), 2))


def _verb(f):
    import inspect
    return 'verbose' in inspect.signature(f).parameters


def job(j):
    kind, seed = j.split(':', 1)
    return {'chain': job_chain, 'rewrite': job_rewrite, 'collect': job_collect, 'proof': job_proof}[kind](seed)


def run(chk):
    mix = [('chain', chk.n(1500, 15000)), ('rewrite', chk.n(1500, 15000)), ('collect', chk.n(1500, 15000)), ('proof', chk.n(160, 2000))]
    jobs = ['%s:%d/%d' % (k, chk.seed, i) for k, m in mix for i in range(m)]
    random.Random(chk.seed).shuffle(jobs)
    for i, j, r in common.pmap(job, jobs, cpu=20, deadline=chk.deadline):
        kind = j.split(':')[0]
        if r[0] == 'exc':
            chk.violation('re-expressing raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0] + ' ' + kind)
            continue
        o = r[1]
        chk.count('exact comparisons', o['n'])
        for op in o['ops']:
            chk.observe((o.get('expr', j), op))
            chk.count('op ' + op)
        for f in ('unk', 'undef', 'none'):
            if f in o:
                chk.count(f + ' ' + kind)
        if 'proof' in o:
            chk.count('proof by ' + o['proof'])
        if len(chk.samples) < 8 and o['ops'] and 'expr' in o:
            chk.samples.append({'expr': o['expr'], 'operations': o['ops']})
        for b in o['bad']:
            chk.violation('a re-expressed proof differs', {'job': j, 'what': b}, key='reexpress')
    chk.require('op rewrite', 300)
    chk.require('op linear-collect', 300)
    chk.require('op rewrite_symmetry', 200)
    chk.require('op proof-rewrite', 40)
