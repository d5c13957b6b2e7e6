"""C06: semidefinite proofs are exact, with nonnegative weights on squares."""
import random
import sympy as sp
from sympy import Rational as R
from gmpy2 import mpq
from .. import common, soscheck as sc, gen, oracle
from ..evalx import Evaluator, negative
from .c05 import symmetrize, rand_group

RULE = ('problems of C01/C02 (also perturbed, false and barely true ones) and forms with hidden Gram matrices of low '
        'rank (real zeros), solved by the semidefinite method alone under random options (symmetry, preordering, '
        'trivial constraint, degree limit), and the SOSProblem class used directly with a chosen group, constraints and '
        'deparametrisation. Non-trivial: a returned proof evaluated exactly; the weights of a stored decomposition '
        'inspected.')
ASSUMPTIONS = ['identity and nonnegativity are tested at random rational points',
               'only the installed SDP backends (cvxopt, picos and the built-in interior point method) are reached']


def gram(rng):
    """sum of squares with a prescribed real zero, possibly symmetrised"""
    n = rng.choice([2, 3, 3, 3, 4])
    g = sp.symbols('a b c d')[:n]
    h = rng.choice([1, 2, 2] if n <= 3 else [1])
    S = rng.choice([None, gen.cyc, gen.symsum])
    pt = rng.choice([(1, 1, 1, 1), (1, 2, 3, 1), (1, 1, 0, 0), (2, 1, 1, 1), (1, -1, 2, 1), (3, 1, 1, 2)])[:n] if rng.random() < 0.7 else None
    p = 0
    for _ in range(rng.randint(1, 3)):
        f = gen.rform(rng, h, g, k=3, dens=0.8, vanish=pt if pt and pt[0] else None)
        m = sp.Integer(1)
        p += R(rng.randint(1, 6), rng.choice([1, 1, 2, 3, 5])) * (S(f**2, g) if S else f**2)
    return sp.expand(p), list(g), [], []


def opts(rng, gens):
    o = {}
    if rng.random() < 0.35:
        o['preordering'] = rng.choice(['none', 'linear', 'linear-progressive'])
    if rng.random() < 0.1:
        o['ineq_constraints_with_trivial'] = False
    if rng.random() < 0.1:
        o['degree_limit'] = rng.choice([2, 4])
    if rng.random() < 0.15 and gens:
        from sympy.combinatorics import PermutationGroup, Permutation
        o['symmetry'] = PermutationGroup(Permutation(list(range(len(gens)))))
    return o


def job_solve(j):
    rng = random.Random(j['seed'] + 1)
    if j['kind'] == 'gram':
        p, gens, I, E = gram(rng)
        j = dict(j, kind='classic', data=(str(p), ' '.join(str(q).replace(' ', '') for q in I), ''))
    p, gens, I, E, _ = sc.build(j)
    used = set(p.free_symbols).union(*[q.free_symbols for q, _ in I + E])
    j['methods'] = ['SDPSOS']
    j['configs'] = {'SDPSOS': opts(rng, gens if used == set(gens) else [])}
    return sc.judge(j)


def close(qs, g, G):
    """images of polynomials under the group"""
    out = []
    for q in qs:
        for p in G.elements:
            e = sp.expand(q.xreplace(dict(zip(g, p(list(g))))))
            if e not in out:
                out.append(e)
    return out


def job_direct(j):
    """SOSProblem with a group, constraints closed under it, aliases, and its decompositions"""
    common.use_repo()
    from triples.core.sdpsos.sdpsos import SOSProblem
    rng = random.Random(j['seed'])
    n = rng.choice([2, 3, 3, 3, 4])
    g = sp.symbols('a b c d')[:n]
    G = rand_group(rng, n)
    deg = rng.choice([2, 3, 4, 4] if n <= 3 else [2, 3])
    S = lambda e: sp.expand(sum(e.xreplace(dict(zip(g, p(list(g))))) for p in G.elements))
    base = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        q = rng.choice([g[0], g[0] * g[1], sum(rng.randint(0, 2) * s for s in g) + g[0], g[0] + g[1] - (g[2] if n > 2 else 0)])
        if sp.Poly(q, *g).total_degree() <= deg:
            base.append(sp.expand(q))
    I = close(base, g, G)
    E0 = []
    if rng.random() < 0.35:
        h = rng.choice([sum(g) , g[0] - g[1], g[0] * g[1] - g[-1]**2, sum(s**2 for s in g) - 3 * g[0]**2])
        E0 = [sp.expand(h)]
    E = close(E0, g, G)
    E = [e for i, e in enumerate(E) if sp.expand(-e) not in E[:i]]
    if any(sp.expand(-e) in E for e in E):
        return {'st': 'skip'}
    # qmodule: 1 and the given ones whose codegree is even
    Q = [sp.Integer(1)] + I
    Q = [q for q in Q if (deg - sp.Poly(q, *g).total_degree()) % 2 == 0 and sp.Poly(q, *g).total_degree() <= deg]
    if not Q:
        return {'st': 'skip'}
    p = 0
    for _ in range(rng.randint(1, 3)):
        if not Q:
            break
        q = rng.choice(Q)
        h = (deg - sp.Poly(q, *g).total_degree()) // 2
        f = gen.rform(rng, h, g, k=2, dens=0.8)
        p += S(R(rng.randint(1, 4), rng.choice([1, 2, 3])) * q * f**2)
    for h in E:
        d = sp.Poly(h, *g).total_degree()
        if d <= deg:
            p += S(h * gen.rform(rng, deg - d, g, k=2))
    if rng.random() < 0.3:
        p = p + S(rng.choice([1, -1, R(1, 50)]) * gen.mon(rng.choice(gen.monoms(n, deg)), g))
    p = sp.expand(p)
    if p == 0:
        return {'st': 'skip'}
    desc = {'p': str(p), 'qmodule': str(Q), 'ideal': str(E), 'group': str(G)}
    P = sp.Poly(p, *g)
    Qp = [sp.Poly(q, *g) for q in Q]
    Ep = [sp.Poly(q, *g) for q in E]
    prob = SOSProblem(P, symmetry=G)
    try:
        prob.construct(Qp, Ep, deparametrize=rng.random() < 0.7)
    except ValueError:
        # the coefficient equations have no solution: no such representation
        return {'st': 'infeasible', 'desc': desc}
    from triples.sdp.ipm import SDPRationalizeError
    try:
        ok = prob.solve()
    except SDPRationalizeError:
        # documented refusal: a numerical solution without a rational one
        return {'st': 'none', 'desc': desc}
    if not ok:
        return {'st': 'none', 'desc': desc}
    out = {'st': 'solved', 'desc': desc, 'bad': None}
    al = {q: sp.Symbol('u%d' % i) for i, q in enumerate(Qp) if not q.is_one}
    el = {q: sp.Symbol('h%d' % i) for i, q in enumerate(Ep)}
    named = rng.random() < 0.5 and G.order() == 1
    s = prob.as_solution(ineq_constraints=al, eq_constraints=el) if named else prob.as_solution()
    if s is None:
        out['bad'] = 'no solution object after success'
        return out
    sol = s.solution
    out['sol'] = str(sol)[:400]
    pairs = [(q.as_expr(), a) for q, a in al.items()] if named else []
    epairs = [(q.as_expr(), a) for q, a in el.items()] if named else []
    idr = oracle.check_identity(sol, p, g, pairs, epairs, rng)
    if idr[0] == 'bad':
        out['bad'] = 'not an identity: %s' % (idr[1],)
        return out
    if s.is_equal is not True:
        out['bad'] = 'reported inexact'
    dec = prob._sdp.decompositions if hasattr(prob, '_sdp') else {}
    out['weights'] = 0
    for key, (U, D) in dec.items():
        M = prob._sdp.S[key]
        for v in D:
            out['weights'] += 1
            if sp.sympify(v).is_negative or sp.sympify(v).has(sp.Float):
                out['bad'] = 'weight %s' % v
        D2 = sp.diag(*list(D)) if len(list(D)) else sp.zeros(0, 0)
        if U.shape[0] and sp.expand(U.T * D2 * U - M) != sp.zeros(*M.shape):
            out['bad'] = 'decomposition does not multiply back'
    if named:
        nn = oracle.check_nonneg(sol, g, pairs, epairs, rng, npts=20)
        if nn[0] == 'bad':
            out['bad'] = 'negative: %s' % (nn[1],)
    return out


def job(j):
    return job_direct(j) if j['t'] == 'direct' else job_solve(j)


def run(chk):
    rng = chk.rng
    js = sc.jobs(rng, chk.n(160, 800), chk.n(260, 3000), chk.n(100, 1500), chk.n(60, 200), pert=0.25)
    for _ in range(chk.n(200, 2500)):
        js.append({'kind': 'gram', 'seed': rng.randrange(1 << 40), 'alias': 'sym', 'pert': rng.random() < 0.15})
    for j in js:
        j['t'] = 'solve'
        j['npts'] = chk.n(18, 40)
    js += [{'t': 'direct', 'seed': rng.randrange(1 << 40)} for _ in range(chk.n(240, 3000))]
    rng.shuffle(js)
    sc.solver()
    for i, j, r in common.pmap(job, js, cpu=chk.n(8, 60), deadline=chk.deadline - 60, recycle=60):
        if r[0] != 'ok':
            chk.count('job_' + r[0])
            if r[0] == 'exc':
                chk.violation('SOSProblem raised' if j['t'] == 'direct' else 'harness or oracle raised', {'job': j, 'exc': r[1]})
            continue
        r = r[1]
        if j['t'] == 'direct':
            chk.count('direct_' + r['st'])
            chk.count('weights', r.get('weights', 0))
            chk.observe(('d', j['seed']), nontrivial=r['st'] == 'solved')
            if r.get('bad'):
                chk.violation('a directly constructed semidefinite proof is wrong', dict(r['desc'], why=r['bad'], sol=r.get('sol')))
            continue
        chk.count(r['st'])
        chk.observe((str(j),), nontrivial=r['st'] == 'solved')
        if r['st'] == 'exc':
            chk.violation('the semidefinite method raised', {'problem': r['desc'], 'exc': r['exc']})
            continue
        if r['st'] != 'solved':
            continue
        d = {'problem': r['desc'], 'method': r['method'], 'solution': r['sol']}
        chk.count('identity_' + r['ident'][0])
        if len(chk.samples) < 8:
            chk.samples.append({'poly': r['desc']['poly'][:150], 'ineq': r['desc']['ineq'][:100], 'eq': r['desc']['eq'][:80],
                                'options': r['desc']['kwargs'][:200], 'identity': r['ident'][0]})
        if r['ident'][0] == 'bad':
            chk.violation('the proof is not equal to the polynomial', dict(d, at=r['ident'][1]))
        if r['extra']:
            chk.violation('the proof mentions a variable that is not in the problem', dict(d, extra=r['extra']))
        if r['float']:
            chk.violation('the proof of an exact problem contains floats', d)
        if not r['exact']:
            chk.count('inaccurate')
        if 'nonneg' in r:
            chk.count('nonneg_' + r['nonneg'][0])
            if r['nonneg'][0] == 'bad':
                chk.violation('the proof is negative for admissible values of variables and aliases', dict(d, at=r['nonneg'][1]))
        if r.get('false'):
            chk.violation('a statement that is false at a feasible point was proved', dict(d, at=r['false'], undefined_there=r['pole']),
                          key=sc.false_key(r))
    chk.require('solved', chk.n(80, 400))
    chk.require('direct_solved', 25)
    chk.require('weights', 50)
