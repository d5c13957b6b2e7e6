"""C04: families the synthetic-heuristics method documents as solvable are solved."""
import random
import sympy as sp
from sympy import Rational as R
from .. import common, oracle, structfuzz as sf
from ..gen import cyc, symsum, mon, monoms, rform, ABC, acyc_known, cyc_known

RULE = ('documented examples (in the region they are stated for); random cyclic quadratics, cubics and '
        'quartics with a known decomposition plus slack, also in degenerate positions; random positive '
        'definite quadratic forms in 2..6 variables, homogeneous or not; each solved problem again after renaming '
        '/reordering variables, positive rational scaling and cyclic relabelling. Non-trivial: the solver '
        'was required to answer, and the answer was verified as an exact, sound proof.')
ASSUMPTIONS = ['completeness is demanded only for the families named in the property',
               'a job that exceeds its CPU limit gives no verdict (limit is >= 10 times the usual time)']
F = sp.Function('F')
H = sp.Function('H')
_S = []


def solver():
    if not _S:
        common.use_repo()
        from triples.core.structsos import StructuralSOS
        _S.append(StructuralSOS)
    return _S[0]


def topoly(e, gens):
    surd = any(p.exp.is_Rational and not p.exp.is_Integer for p in e.atoms(sp.Pow))
    return sp.Poly(e, *gens, extension=True) if surd else sp.Poly(e, *gens)


def transform(kind, e, gens, rng):
    """(expr, gens) with the same answer expected"""
    if kind == 'id':
        return e, gens
    if kind == 'scale':
        return sp.expand(e * R(rng.choice([2, 3, 7, 1, 12, 1000, 10 ** 6]), rng.choice([1, 5, 9, 1000, 7 ** 6]))), gens
    if kind == 'rot':
        k = rng.randint(1, len(gens) - 1) if len(gens) > 1 else 0
        n = len(gens)
        return e.xreplace({gens[i]: gens[(i + k) % n] for i in range(n)}), gens
    if kind == 'names':
        pool = ['x', 'y', 'z', 'u', 'v', 'w', 'a', 'b', 'c', 'd', 'e', 'f', 't', 'G', 'x_1', 'x_2', 'k', 'm', 'q']
        ng = sp.symbols(rng.sample(pool, len(gens)))
        return e.xreplace(dict(zip(gens, ng))), tuple(ng)
    if kind == 'namesabc':
        ng = list(gens)
        rng.shuffle(ng)
        return e.xreplace(dict(zip(gens, ng))), tuple(ng)
    raise ValueError(kind)


def work(job):
    S = solver()
    fam, e, gs, mode, seed, kinds = job
    rng = random.Random(seed)
    e = sp.sympify(e)
    gens = sp.symbols(gs)
    gens = gens if isinstance(gens, tuple) else (gens,)
    out = []
    for k in kinds:
        e2, g2 = transform(k, e, gens, rng)
        p = topoly(e2, g2)
        ineq = {g: F(g) for g in g2} if mode else {}
        if mode == 2:
            q = [x**2 for x in g2]
            for i_, x in enumerate(g2):
                ineq[sum(q) - 2 * q[i_]] = H(x)
        try:
            s = S(p, ineq, {})
        except Exception as ex:
            import traceback
            out.append((k, 'exc', str(e2)[:600], str(g2), (type(ex).__name__, str(ex)[:300], traceback.format_exc()[-1200:])))
            continue
        if s is None:
            out.append((k, 'none', str(e2)[:600], str(g2), None))
            continue
        con = list(ineq.items())
        i = oracle.check_identity(s.solution, e2, g2, con, [], rng, npts=1)
        out.append((k, 'solved' if i[0] != 'bad' else 'wrong', str(e2)[:600], str(g2), i[1]))
    return out


def slack(deg, g, S, full):
    """strictly positive form on the orthant (full: on R^n)"""
    if full:
        return S(mon((deg,) + (0,) * (len(g) - 1), g))
    return sum(S(mon(m, g)) for m in monoms(len(g), deg))


def fam_cyc(rng):
    """cyclic quadratic/cubic/quartic, a sum of squares (times monomials on the orthant) plus slack"""
    mode = rng.randint(0, 1)
    deg = rng.choice([1, 2, 3, 3, 4, 4, 4, 4]) if mode else rng.choice([2, 4, 4, 4])
    pt = rng.choice([(1, 1, 1), (1, 1, 1), None, (2, 1, 1), (1, 2, 3), (1, 1, 0), (1, 0, 0), (1, 2, 0)])
    e = 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        h = deg // 2 if not mode else rng.randint(0, deg // 2)
        m = rng.choice(monoms(3, deg - 2 * h))
        f = rform(rng, h, ABC, k=rng.choice([2, 3, 6]), vanish=pt if h else None)
        e += R(rng.randint(1, 6), rng.choice([1, 1, 2, 3, 7])) * cyc(mon(m, ABC) * f ** 2)
    e += R(rng.randint(1, 3), rng.choice([1, 2, 10, 100])) * slack(deg, ABC, cyc, not mode)
    return sp.expand(e), 'a b c', mode


def fam_quad(rng):
    n = rng.randint(2, 6)
    names = ['a b', 'a b c', 'a b c d', 'a b c d e', 'a b c d e f'][n - 2]
    g = sp.symbols(names)
    e = 0
    for i in range(rng.randint(1, n + 1)):
        lin = sum(rng.randint(-5, 5) * x for x in g)
        e += R(rng.randint(1, 9), rng.randint(1, 4)) * lin ** 2
    # sparse or dense slack, strictly positive
    e += sum(R(rng.randint(1, 5), rng.choice([1, 1, 3, 20, 1000])) * x ** 2 for x in g)
    if rng.random() < 0.25 and n <= 5:     # non-homogeneous: still strictly positive
        sh = [R(rng.randint(-3, 3), rng.choice([1, 2])) for _ in g]
        e = sp.expand(e).xreplace({x: x + s for x, s in zip(g, sh)}) + R(1, rng.choice([1, 7, 100]))
    return sp.expand(e), names, 0 if rng.random() < 0.8 else 1


def fam_acute(rng):
    """symmetric cubics / cyclic quadratics on acute triangles, strictly inside the documented region"""
    a, b, c = ABC
    if rng.random() < 0.3:
        c2 = rng.choice([-3, -1, 0, 2, 5])
        c1 = (max(-c2, -2 * c2)) + R(rng.randint(0, 12), rng.randint(1, 5))
        return sp.expand(cyc(c2 * a**2 + c1 * a * b)), 'a b c', 2
    x = 1 + R(rng.randint(1, 30), rng.choice([7, 10, 15, 30]))
    # above f(sqrt2,1,1), f(1,1,1) and the border conic
    r2 = sp.sqrt(2)
    lo = max(sp.N((2 + 2 * r2 - (2 * r2 + 6) * x) / r2), sp.N(3 - 6 * x))
    disc = (2 * x + 2)**2 + 4 * (7 * x**2 - 2 * x - 9)
    if disc > 0 :
        y2 = (-(2 * x + 2) + sp.sqrt(disc)) / 2
        lo = max(lo, sp.N(y2) if rng.random() < 2 else lo)
    y = R(int(sp.ceiling(lo * 60))) / 60 + R(rng.randint(1, 60), 60)
    return sp.expand(cyc(-a**3 + x * (a**2 * b + a**2 * c)) + y * a * b * c), 'a b c', 2


def run(chk):
    rng = chk.rng
    jobs = []
    K = ['scale', 'rot', 'names', 'namesabc']
    KD = ['rot', 'names', 'namesabc']
    KC = ['names', 'namesabc']
    for d in sf.load_docs():
        for m in d.get('solved', []):
            jobs.append(('doc', d['poly'], ' '.join(d['gens']), m, rng.randrange(1 << 40), ['id', rng.choice(KD)]))
        if 'acute' in d['src'] and d['deg'] == 3:
            jobs.append(('acutedoc', d['poly'], ' '.join(d['gens']), 2, rng.randrange(1 << 40), ['id', rng.choice(K)]))
    for _ in range(chk.n(600, 12000)):
        e, g, m = fam_cyc(rng)
        if e != 0:
            jobs.append(('cyc', str(e), g, m, rng.randrange(1 << 40), ['id', rng.choice(K)]))
    for _ in range(chk.n(200, 4000)):
        e, g, m = fam_quad(rng)
        jobs.append(('quad', str(e), g, m, rng.randrange(1 << 40), ['id', rng.choice(['scale', 'names'])]))
    for _ in range(chk.n(80, 1500)):
        e, g, m = fam_acute(rng)
        jobs.append(('acute', str(e), g, m, rng.randrange(1 << 40), ['id', rng.choice(['scale', 'names', 'rot'])]))
    for r in sf.load_corpus():
        if r['s'] and r['t'] < chk.n(0.15, 3):
            kk = KC if len(r['g'].split()) == 3 else KC[:1]
            jobs.append(('corpus', r['e'], r['g'], r['m'], rng.randrange(1 << 40), ['id'] + ([rng.choice(kk)] if chk.quick else kk)))
    rng.shuffle(jobs)
    solver()
    for i, j, r in common.pmap(work, jobs, cpu=chk.n(30, 90), deadline=chk.deadline - 60, recycle=400):
        if r[0] != 'ok':
            chk.count('job_' + r[0])
            if r[0] == 'exc':
                chk.violation('harness raised', {'job': j, 'exc': r[1]})
            continue
        base = None
        for k, st, e, g, info in r[1]:
            chk.count('%s_%s_%s' % (j[0], 'id' if k == 'id' else 'moved', st))
            chk.observe((j[0], j[1], j[3], k), nontrivial=st == 'solved', sample={'family': j[0], 'poly': e[:120], 'as': k, 'answer': st})
            d = {'family': j[0], 'poly': e, 'gens': g, 'region': ['R^n', 'orthant', 'acute triangles'][j[3]], 'as': k}
            if k == 'id':
                base = st
            if st == 'exc':
                chk.violation('the solver raised on a documented problem', dict(d, exc=info))
            elif st == 'wrong':
                chk.violation('the proof of a documented problem is not equal to it', dict(d, at=info))
            elif st == 'none':
                if j[0] != 'corpus':
                    chk.violation('a problem of a documented complete family was not solved', d)
                elif k != 'id' and base == 'solved':
                    chk.violation('a solved problem is not solved after a change of names', dict(d, original=j[1][:600], gens0=j[2]))
                elif k == 'id':
                    chk.count('corpus_not_solved_any_more')
    chk.require('cyc_id_solved', 300)
    chk.require('quad_id_solved', 100)
    chk.require('corpus_id_solved', 300)
