"""C03: synthetic three-variable proofs (structural solvers): exact identity and soundness."""
import random
import sympy as sp
from sympy import Rational as R
from .. import common, oracle, structfuzz as sf
from ..gen import cyc_known, cyc_random, schur_like, acyc_known, ABC
from ..evalx import Evaluator, negative
from gmpy2 import mpq

RULE = ('a corpus of forms found by coverage-guided search over the structural solvers (each member '
        'reaches branches others do not), the documented examples, mutations of both (coefficient '
        'changes that keep or break equality points, products, substitutions, surds, small negative '
        'perturbations) and random cyclic/symmetric/acyclic forms, with and without a,b,c >= 0, on acute triangles, and with '
        'renamed or reordered variables. Non-trivial: a returned proof that was re-evaluated exactly '
        'against the polynomial and tested for sign, or a refusal/exception that was classified.')
ASSUMPTIONS = ['identity is tested at random rational points with 4-digit numerators (Schwartz-Zippel)',
               'surd certificates are compared with 80 digits',
               'jobs over the CPU limit give no verdict']
F = sp.Function('F')
H = sp.Function('H')
NAMES = ['a b c', 'b c a', 'c a b', 'b a c', 'x y z', 'z y x', 'p q r', 'x a b', 'c x a', 'b x c', 'u_1 u_2 u_3', 'x b a']
_solver = []


def solver():
    if not _solver:
        common.use_repo()
        from triples.core.structsos import StructuralSOS
        _solver.append(StructuralSOS)
    return _solver[0]


def topoly(e, gens):
    return sp.Poly(e, *gens, extension=True) if e.atoms(sp.Pow) and any(
        p.exp.is_Rational and not p.exp.is_Integer for p in e.atoms(sp.Pow)) else sp.Poly(e, *gens)


def perturb(e, gens, rng):
    """subtract a little: often makes a proved form false somewhere"""
    n = len(gens)
    d = sp.Poly(e, *gens).total_degree()
    m = rng.choice(sf.monoms(n, d))
    s = sf.mon(m, gens)
    if n == 3 and sf.p_cyc(sp.Poly(e, *gens), gens):
        s = sf.cyc(s, gens)
    return sp.expand(e - R(1, rng.choice([2, 10, 100, 1000, 10 ** 5])) * s)


def acute_form(rng):
    """cyclic forms on acute triangles: several known nonnegative, several near the border"""
    a, b, c = ABC
    A = b**2 + c**2 - a**2
    k = rng.random()
    if k < 0.12:
        return sf.cyc(rng.choice([-1, 1, -2, 3]) * a**2 + R(rng.randint(-6, 12), rng.randint(1, 4)) * a * b)
    if k < 0.5:
        x = 1 + R(rng.randint(0, 30), rng.choice([7, 10, 15, 30]))
        y = -6 * x + 3 + R(rng.randint(-1, 20), rng.choice([5, 10, 40]))
        if rng.random() < 0.3:
            y = 6 - 6 * x + R(rng.randint(-20, 20), 10)
        if rng.random() < 0.15:
            x = (8 * sp.sqrt(2) - 3) / 7 + R(rng.randint(0, 5), 20)
            y = R(rng.randint(-60, 0), 12)
        return sf.cyc(-a**3 + x * (a**2 * b + a**2 * c)) + y * a * b * c
    if k < 0.6:
        return sf.cyc(A * rng.choice([a, b, c, a + b, 2 * a + c])) * rng.randint(1, 3) + rng.randint(0, 3) * sf.cyc(a * (b - c)**2)
    if k < 0.8:
        q = sf.rform(rng, 1, ABC, k=3, vanish=rng.choice([None, (1, 1, 1)]))**2
        e = sf.cyc(A * q)
        if rng.random() < 0.4:
            e += rng.randint(1, 3) * sf.cyc(A * (a - b) * (a - c))
        if rng.random() < 0.4:
            e += sf.cyc(sf.rform(rng, 2, ABC, k=2, vanish=(1, 1, 1))**2)
        return e
    S = sf.symsum if rng.random() < 0.7 else sf.cyc
    P = A * A.xreplace({a: b, b: c, c: a}) * A.xreplace({a: c, b: a, c: b})
    if k < 0.9:
        return rng.randint(1, 4) * P + S(sf.rform(rng, 3, ABC, k=1, vanish=(1, 1, 1))**2) * R(1, rng.choice([1, 2]))
    d = rng.choice([4, 5, 6, 7])
    return S(rng.choice([1, 2]) * A * sf.rform(rng, 1, ABC, k=2, vanish=(1, 1, 1))**2 * a**(d - 4)) + rng.randint(0, 2) * S(a**(d - 2) * (a - b) * (a - c))


def build(job):
    kind, e, g, mode, seed, names = job
    rng = random.Random(seed)
    if kind == 'gen':
        gens = ABC
        deg = rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 11, 12])
        f = rng.random()
        if f < 0.45:
            ex = cyc_known(rng, deg, sym=rng.random() < 0.4, real=not mode and deg % 2 == 0)
        elif f < 0.6:
            ex = cyc_random(rng, deg, sym=rng.random() < 0.5)
        elif f < 0.75 and deg >= 2:
            ex = schur_like(rng, deg)
        else:
            ex = acyc_known(rng, min(deg, 6), real=not mode and deg % 2 == 0)
    elif kind == 'acute':
        gens = ABC
        ex = sp.expand(acute_form(rng))
    else:
        gens = sp.symbols(g)
        gens = gens if isinstance(gens, tuple) else (gens,)
        if kind == 'mut':
            s = sf.mutate((seed, e, g, mode, {}))
            if s is None:
                return None
            ex = sp.sympify(s)
        else:
            ex = sp.sympify(e)
            if kind == 'pert':
                ex = perturb(ex, gens, rng)
    ex = sp.sympify(ex)
    if ex == 0:
        return None
    if names and len(gens) == 3:
        ng = sp.symbols(names)
        ex = ex.xreplace(dict(zip(gens, ng)))
        gens = ng
    return ex, gens


def work(job):
    S = solver()
    cov = sf.coverage('/core/structsos/')
    try:
        b = build(job)
    except Exception as ex:
        return ('skip', repr(ex)[:100])
    if b is None:
        return ('skip', 'zero')
    e, gens = b
    mode = job[3]
    rng = random.Random(job[4] + 1)
    p = topoly(e, gens)
    ineq = {g: F(g) for g in gens} if mode else {}
    if mode == 2:
        q = [x**2 for x in gens]
        for i, x in enumerate(gens):
            ineq[sum(q) - 2 * q[i]] = H(x)
    if cov:
        cov.reset()
    try:
        s = S(p, ineq, {})
    except Exception as ex:
        import traceback
        return ('exc', (type(ex).__name__, str(ex)[:300], traceback.format_exc()[-1500:]), str(e), str(gens), p.domain.is_QQ or p.domain.is_ZZ)
    lines = list(cov.cur) if cov else []
    if s is None:
        return ('none', lines)
    sol = s.solution
    con = list(ineq.items())
    i = oracle.check_identity(sol, e, gens, con, [], rng)
    n = oracle.check_nonneg(sol, gens, con, [], rng, npts=24)
    fl = bool(sol.atoms(sp.Float)) if p.domain.is_QQ or p.domain.is_ZZ else False
    # is the polynomial itself negative somewhere on the region?
    neg = None
    for t in range(25):
        lo = 0 if mode else -4
        env = {g: mpq(rng.randint(lo * 3, 12), rng.randint(1, 4)) for g in gens}
        if mode == 2:
            env = {g: mpq(rng.randint(5, 10), 10) for g in gens}
            w = sorted(env.values())
            if w[0]**2 + w[1]**2 < w[2]**2:
                continue
        v = Evaluator(env)(e)
        if negative(v):
            neg = {str(k): str(w) for k, w in env.items()}
            break
    return ('solved', lines, i, n, fl, neg, str(e), str(gens), str(sol)[:400])


def run(chk):
    rng = chk.rng
    corpus = sf.load_corpus()
    docs = sf.load_docs()
    c3 = [r for r in corpus if len(r['g'].split()) == 3]
    jobs = []
    for r in c3:
        if r['t'] > chk.n(1.0, 100):
            continue
        if not r['s'] and chk.quick and rng.random() < 0.4:
            continue
        names = rng.choice(NAMES) if rng.random() < 0.3 else None
        jobs.append(('corpus', r['e'], r['g'], r['m'], rng.randrange(1 << 40), names))
    for d in docs:
        if 'acute' in d['src']:
            jobs.append(('corpus', d['poly'], 'a b c', 2, rng.randrange(1 << 40), None))
        if d['hom'] and len(d['gens']) == 3 and d['deg'] <= 12:
            g = ' '.join(d['gens'])
            for m in (1, 0):
                jobs.append(('corpus', d['poly'], g, m, rng.randrange(1 << 40), rng.choice(NAMES) if rng.random() < 0.3 else None))
    base = [r for r in c3 if r['t'] < 0.6 and r['s']]
    for _ in range(chk.n(350, 9000)):
        r = rng.choice(base)
        m = r['m'] if rng.random() < 0.9 else 1 - r['m']
        jobs.append(('mut', r['e'], r['g'], m, rng.randrange(1 << 40), rng.choice(NAMES) if rng.random() < 0.2 else None))
    for _ in range(chk.n(250, 5000)):
        r = rng.choice(base)
        jobs.append(('pert', r['e'], r['g'], r['m'], rng.randrange(1 << 40), None))
    for _ in range(chk.n(250, 6000)):
        jobs.append(('gen', None, None, rng.randint(0, 1), rng.randrange(1 << 40), rng.choice(NAMES) if rng.random() < 0.2 else None))
    for _ in range(chk.n(200, 4000)):
        jobs.append(('acute', None, None, 2, rng.randrange(1 << 40), rng.choice(NAMES) if rng.random() < 0.2 else None))
    rng.shuffle(jobs)
    solver()
    seen = set()
    seen_s = set()
    for i, j, r in common.pmap(work, jobs, cpu=chk.n(10, 30), deadline=chk.deadline - 60, recycle=400):
        if r[0] != 'ok':
            chk.count('job_' + r[0])
            if r[0] == 'exc':
                chk.violation('harness or oracle raised', {'job': j, 'exc': r[1]})
            continue
        r = r[1]
        chk.count(r[0])
        if r[0] == 'skip':
            continue
        if r[0] == 'exc':
            rational = r[4]
            key = None
            if not rational and r[1][0] == 'TypeError' and ('comparison' in r[1][1] or 'truth value' in r[1][1] or 'LazyException' in r[1][1] or 'relational' in r[1][1]):
                key = 'surd-undecided-comparison'
            chk.violation('the solver raised instead of giving up', {'poly': r[2], 'gens': r[3], 'mode': j[3], 'exc': r[1]}, key=key)
            continue
        seen.update(map(tuple, r[1]))
        chk.observe((j[0], j[1], j[3], j[4]), sample=None)
        if r[0] == 'solved':
            seen_s.update(map(tuple, r[1]))
            _, _, ident, nn, fl, neg, e, g, sol = r
            chk.count('solved_' + j[0])
            d = {'poly': e, 'gens': g, 'nonnegative_vars': j[3], 'solution': sol}
            chk.observe(('s', j[1], j[3], j[4]), sample={'poly': e[:160], 'vars>=0': j[3], 'identity': ident[0], 'nonneg_points': nn[1]})
            if ident[0] == 'bad':
                chk.violation('the proof is not equal to the polynomial', dict(d, at=ident[1]))
            elif ident[0] == 'unknown':
                chk.count('identity_unknown')
                chk.violation('the proof cannot be evaluated', dict(d, why=ident[1])) if 'unknown' in str(ident[1]) or 'infinite' in str(ident[1]) else None
            if nn[0] == 'bad':
                chk.violation('the proof takes a negative value', dict(d, at=nn[1]))
            if fl:
                chk.violation('the proof of a rational polynomial contains floats', d)
            if neg is not None:
                chk.violation('a false inequality was proved', dict(d, at=neg))
    chk.count('structsos_lines_executed', len(seen))
    chk.count('structsos_lines_in_successful_proofs', len(seen_s))
    chk.require('solved', chk.n(900, 1200))
    chk.require('none', 300)
