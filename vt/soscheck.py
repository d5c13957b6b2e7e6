"""Runs the top-level solver on problems and judges the answers (shared by C01, C02, C05, C06)."""
import random
import sympy as sp
from gmpy2 import mpq
from . import common, oracle, problems as pb, structfuzz as sf
from .evalx import Evaluator, Undefined, NotEvaluable, negative, eval_poly

METHODS = ['StructuralSOS', 'LinearSOS', 'SDPSOS', 'SymmetricSOS']
_S = []


def solver():
    if not _S:
        common.use_repo()
        from triples.core import sum_of_squares
        _S.append(sum_of_squares)
    return _S[0]


def feasible_negative(p, gens, ineq, eq, rng, tries=40):
    """a rational point of the feasible region where p < 0, or None (inequalities only; equality
    constraints are met by solving them for a variable in which they are linear)."""
    for t in range(tries):
        den = rng.choice([1, 1, 2, 5, 20])
        env = {g: mpq(rng.randint(-4 * den, 6 * den), den) for g in gens}
        if rng.random() < 0.5:
            env = {g: abs(v) for g, v in env.items()}
        ok = True
        if eq:
            if len(eq) > 2:
                return None
            free = list(gens)
            rng.shuffle(free)
            for h in eq:
                done = False
                for v in free:
                    P = sp.Poly(h, v)
                    if P.degree() == 1:
                        try:
                            A = Evaluator(env)(P.coeff_monomial(v))
                            B = Evaluator(env)(P.coeff_monomial(1))
                        except Exception:
                            continue
                        if A != 0:
                            env[v] = -B / A
                            free.remove(v)
                            done = True
                            break
                if not done:
                    ok = False
                    break
            if not ok:
                continue
            if any(Evaluator(env)(h) != 0 for h in eq):
                continue
        if any(Evaluator(env)(q) < 0 for q in ineq):
            continue
        if Evaluator(env)(p) < -1e-30:            # beyond the rounding of surds
            return {str(k): str(v) for k, v in env.items()}
    return None


def undefined_at(sol, gens, ineq, eq, point):
    env = {g: mpq(point[str(g)]) for g in gens}
    try:
        funcs = {al: Evaluator(env)(q) for q, al in ineq + eq}
        env.update({a: v for a, v in funcs.items() if a.is_Symbol})
        Evaluator(env, {a: v for a, v in funcs.items() if not a.is_Symbol})(sol)
        return False
    except Undefined:
        return True


def degenerate_at(gens, ineq, eq, point):
    """whether the feasible set fails the constraint qualification at the point (Mangasarian-Fromovitz): only there
    can a nonzero multiplier vanish on all of the feasible set near the point."""
    import numpy as np
    from scipy.optimize import linprog
    env = {g: sp.Rational(point[str(g)]) for g in gens}
    grad = lambda q: [float(sp.sympify(sp.diff(q, g)).subs(env)) for g in gens]
    act = [grad(q) for q in ineq if sp.sympify(q).subs(env) == 0]
    eqs = [grad(q) for q in eq]
    if eqs and np.linalg.matrix_rank(np.array(eqs)) < len(eqs):
        return True
    if not act:
        return False
    r = linprog([0] * len(gens), A_ub=-np.array(act), b_ub=-np.ones(len(act)), A_eq=np.array(eqs) if eqs else None,
                b_eq=np.zeros(len(eqs)) if eqs else None, bounds=[(None, None)] * len(gens))
    return r.status == 2


def false_key(r):
    """the mechanism of a known finding, when a false statement was proved by an identity undefined at the point"""
    if not r['pole']:
        return None
    return 'even-power-constraint' if r['even'] else 'degenerate-feasible-set' if r['degenerate'] else None


def _has_even_factor(q):
    fs = sp.factor_list(q)[1]
    return any(k % 2 == 0 for _, k in fs) and any(k % 2 for _, k in fs)


def rand_orthant(rng):
    """a problem whose variables have prescribed signs; the polynomial is nonnegative on the stated orthant, or (about half
    of the time) on another one, which makes most of the statements false"""
    n = rng.choice([1, 1, 2, 2, 3])
    g = list(sp.symbols('a b c')[:n])
    sg = [rng.choice([1, -1, -1]) for _ in g]
    p = sp.Integer(0)
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = sp.Rational(rng.randint(1, 6), rng.choice([1, 1, 2]))
        for v in g:
            t *= v ** rng.choice([0, 0, 1, 1, 2, 3])
        if rng.random() < 0.4:
            t *= (rng.choice(g) - rng.choice(g + [sp.Integer(1), sp.Integer(2)])) ** 2
        p += t
    p = sp.expand(p)
    if rng.random() < 0.5:
        p = p.xreplace({v: s * v for v, s in zip(g, sg)})
        p = sp.expand(p)
    I = [rng.choice([1, 1, 1, 2, sp.Rational(1, 3)]) * s * v ** rng.choice([1, 1, 1, 1, 3]) for v, s in zip(g, sg) if rng.random() < 0.93]
    return p, g, I, []


def build(job):
    """job -> (p, gens, ineq pairs, eq pairs, call kwargs)"""
    rng = random.Random(job['seed'])
    k = job['kind']
    if k == 'classic':
        p, gens, I, E = pb.from_classic(job['data'])
    elif k == 'cert':
        p, gens, I, E = pb.rand_certificate(rng)
    elif k == 'orthant':
        p, gens, I, E = rand_orthant(rng)
    elif k == 'corpus':
        r = job['data']
        gens = list(sp.symbols(r['g'] + ' '))
        p = sp.sympify(r['e'])
        I, E = (list(gens) if r['m'] else []), []
    else:
        raise ValueError(k)
    if job.get('rename'):
        ren = list(job['rename'])[:len(gens)]
        if len(ren) == len(gens):
            sub = dict(zip(gens, sp.symbols(ren)))
            p = p.xreplace(sub)
            I = [q.xreplace(sub) for q in I]
            E = [q.xreplace(sub) for q in E]
            gens = [sub[g] for g in gens]
    if job.get('dehom') and p.free_symbols:
        v = rng.choice(sorted(p.free_symbols, key=str))
        p = sp.expand(p.xreplace({v: sp.Integer(1)}))
        I = [q.xreplace({v: sp.Integer(1)}) for q in I]
        E = [q.xreplace({v: sp.Integer(1)}) for q in E]
        I = [q for q in I if q.free_symbols]
        E = [q for q in E if q.free_symbols]
        gens = [g for g in gens if g != v]
    if job.get('pert'):
        dg = sp.Poly(p, *gens).total_degree() if gens and p != 0 else -1
        m = rng.choice(sf.monoms(len(gens), rng.choice([dg, dg, 0, dg // 2]))) if gens and dg >= 0 else ()
        if dg >= 0:
            p = sp.expand(p - sp.Rational(1, rng.choice([1, 2, 10, 100, 10**4])) * sf.mon(m, gens))
    if job.get('opposite') and gens:              # the feasible set lies in a hyperplane or in the vertex of a cone
        if I and rng.random() < 0.7:
            I.append(sp.expand(-sum(rng.sample(I, rng.randint(1, min(2, len(I)))))))
        else:
            g = sum(rng.sample(gens, rng.randint(1, len(gens)))) - rng.choice([0, 1])
            I += [g, -g]
    if job.get('mess'):
        I = [pb.mess(q, rng) if rng.random() < 0.5 else q for q in I]
        if rng.random() < 0.2:
            I.append(sp.Integer(rng.choice([1, 5, 0])))
        if I and rng.random() < 0.2:
            I.append(I[0])
        if rng.random() < 0.1:
            E.append(sp.Integer(0))
        rng.shuffle(I)
    al = job.get('alias', 'sym')
    ineq = pb.aliases(I, al, rng, 'i', set(gens))
    eq = pb.aliases(E, al, rng, 'e', set(gens))
    # distinct keys only
    ineq = list(dict(ineq).items())
    eq = list(dict(eq).items())
    return p, gens, ineq, eq, rng


def call(job):
    """('res', info) ..."""
    S = solver()
    p, gens, ineq, eq, rng = build(job)
    if job['alias'] == 'expr' and rng.random() < 0.7:
        I, E = [q for q, _ in ineq], [q for q, _ in eq]
        if rng.random() < 0.3:
            I, E = tuple(I), tuple(E)
    else:
        I, E = dict(ineq), dict(eq)
    form = rng.choice(['expr', 'poly', 'polyperm'])
    q = p
    if form != 'expr' and gens:
        gg = list(gens)
        if form == 'polyperm':
            rng.shuffle(gg)
        surd = any(t.exp.is_Rational and not t.exp.is_Integer for t in p.atoms(sp.Pow))
        q = sp.Poly(p, *gg, extension=True) if surd else sp.Poly(p, *gg)
    kw = {}
    if job.get('methods'):
        kw['method_order'] = list(job['methods'])
    if job.get("configs"):
        kw['configs'] = job['configs']
    desc = {'poly': str(p)[:700], 'ineq': str(ineq)[:500], 'eq': str(eq)[:300], 'form': str(type(q).__name__) + (str(q.gens) if isinstance(q, sp.Poly) else ''),
            'kwargs': str(kw)}
    try:
        s = S(q, I, E, **kw)
    except Exception as ex:
        import traceback
        return {'st': 'exc', 'exc': (type(ex).__name__, str(ex)[:300], traceback.format_exc()[-1800:]), 'desc': desc}
    return {'st': 'none' if s is None else 'solved', 's': s, 'desc': desc, 'p': p, 'gens': gens, 'ineq': ineq, 'eq': eq, 'rng': rng}


def judge(job):
    r = call(job)
    if r['st'] == 'exc':
        return {'st': 'exc', 'exc': r['exc'], 'desc': r['desc']}
    p, gens, ineq, eq, rng = r['p'], r['gens'], r['ineq'], r['eq'], r['rng']
    out = {'st': r['st'], 'desc': r['desc']}
    if r['st'] == 'none':
        return out
    s = r['s']
    sol = s.solution
    out['method'] = s.method
    out['sol'] = str(sol)[:500]
    if job.get('want') != 'neg':
        out['ident'] = oracle.check_identity(sol, p, gens, ineq, eq, rng)
        out['float'] = bool(sol.atoms(sp.Float)) and not p.atoms(sp.Float)
        known = set(gens)
        for _, al in ineq + eq:
            known |= al.free_symbols
        out['extra'] = sorted(str(v) for v in sol.free_symbols - known)
        pr = s.problem
        try:
            out['problem'] = bool(sp.expand((pr.as_expr() if hasattr(pr, 'as_expr') else pr) - p) == 0)
        except Exception as ex:
            out['problem'] = repr(ex)[:200]
        out['exact'] = s.is_equal
    if job.get('want') != 'id':
        fresh = job['alias'] != 'expr'
        if fresh:
            out['nonneg'] = oracle.check_nonneg(sol, gens, ineq, eq, rng, npts=job.get('npts', 24))
        out['false'] = feasible_negative(p, gens, [q for q, _ in ineq], [q for q, _ in eq], rng)
        if out['false']:
            out['pole'] = undefined_at(sol, gens, ineq, eq, out['false'])
            out['degenerate'] = degenerate_at(gens, [q for q, _ in ineq], [q for q, _ in eq], out['false'])
            out['even'] = any(_has_even_factor(q) for q, _ in ineq)
    return out


def jobs(rng, n_classic, n_cert, n_corpus, n_false, pert=0.0, tmax=0.4, n_orthant=0):
    out = []
    corpus = [r for r in sf.load_corpus() if r['t'] < tmax]
    names = ['x y z w u v', 'c b a d e f', 't s r q p o', 'x_1 x_2 x_3 x_4 x_5 x_6', 'G F H S T U', 'z y x w v u', 'alpha beta gamma delta epsilon zeta', 'b c a d f e']

    def common_opts(j):
        j['seed'] = rng.randrange(1 << 40)
        j['alias'] = rng.choice(['sym', 'sym', 'func', 'expr', 'cfunc', 'own'])
        if rng.random() < 0.25:
            j['rename'] = rng.choice(names).split()
        if rng.random() < 0.2:
            j['mess'] = True
        if rng.random() < 0.08:
            j['opposite'] = True
        k = rng.random()
        if k < 0.45:
            j['methods'] = None
        elif k < 0.8:
            j['methods'] = [rng.choice(METHODS)]
        else:
            m = METHODS[:]
            rng.shuffle(m)
            j['methods'] = m[:rng.randint(2, 4)]
        if rng.random() < pert:
            j['pert'] = True
        return j
    for i in range(n_classic):
        out.append(common_opts({'kind': 'classic', 'data': pb.CLASSIC[i % len(pb.CLASSIC)]}))
    for i in range(n_false):
        out.append(common_opts({'kind': 'classic', 'data': pb.FALSE[i % len(pb.FALSE)]}))
    for i in range(n_cert):
        out.append(common_opts({'kind': 'cert'}))
    for i in range(n_corpus):
        j = common_opts({'kind': 'corpus', 'data': rng.choice(corpus)})
        if rng.random() < 0.3:
            j['dehom'] = True
        out.append(j)
    for i in range(n_orthant):
        j = common_opts({'kind': 'orthant'})
        if rng.random() < 0.4:
            j['methods'] = ['LinearSOS']
        if rng.random() < 0.3:
            j['pert'] = True
        out.append(j)
    rng.shuffle(out)
    return out
