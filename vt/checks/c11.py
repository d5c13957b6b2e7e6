"""C11: monomial enumeration, vectorisation, symmetry reduction."""
import random
from itertools import permutations
import sympy as sp
import numpy as np
from sympy import Rational as R
from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup, SymmetricGroup
from .. import common
from ..evalx import group_elements
from .c09 import groups

RULE = ('random polynomials (integer, rational, surd and parametric coefficients; 1..6 variables; degree 0..8; homogeneous or '
        'not) and random permutation groups; enumeration, indexing, vectorisation, inverse, orbit expansion and permuted '
        'vectors compared with set-theoretic definitions; several calls share one manager object. Non-trivial: distinct '
        '(variables, degree, group, homogeneity, polynomial).')
ASSUMPTIONS = ['sympy Poly term access is trusted']
SYM = sp.symbols('a b c d e f')


def all_monoms(n, d):
    if n == 0:
        return [()] if d == 0 else []
    return [(i,) + m for i in range(d + 1) for m in all_monoms(n - 1, d - i)]


def upto(n, d, hom):
    return all_monoms(n, d) if hom else [m for k in range(d + 1) for m in all_monoms(n, k)]


def act(p, m):
    return tuple(m[i] for i in p)


def pdict(p):
    return {m: c for m, c in p.terms() if c != 0}


def check_manager(rng, mod, n, grp, hom, out):
    els = group_elements(grp)
    obj = mod.MonomialManager(n, grp, is_homogeneous=hom)
    kinds = []
    cyc = set(els) == set(group_elements(CyclicGroup(n))) if n > 0 else False
    full = len(els) == len(list(permutations(range(n))))
    optlist = [{'symmetry': obj}] if not hom or rng.random() < .5 else [{'symmetry': grp, 'hom': hom}]
    optlist.append({'symmetry': grp, 'hom': hom})
    if len(els) == 1:
        optlist.append({'hom': hom})
    if hom:                                       # homogeneous is the default
        optlist += [{k: v for k, v in o.items() if k != 'hom'} for o in list(optlist) if 'hom' in o]
    if cyc:
        optlist.append({'cyc': True, 'hom': hom})
    if full:
        optlist.append({'sym': True, 'hom': hom})
    if hom:
        optlist += [{k: v for k, v in o.items() if k != 'hom'} for o in optlist if 'cyc' in o or 'sym' in o]
    opt = rng.choice(optlist)
    gens = SYM[:n]
    bad = out['bad']

    def fail(what, **k):
        bad.append((what, {'n': n, 'group': str(grp.generators), 'hom': hom, 'options': str(opt), **{a: str(b)[:600] for a, b in k.items()}}))
    maxd = {1: 9, 2: 7, 3: 6, 4: 4, 5: 3, 6: 3}[n]
    if len(els) > 30:
        maxd = min(maxd, 4)
    for _ in range(rng.randint(1, 4)):          # the same manager object is reused
        d = rng.randint(0, maxd)
        want_all = upto(n, d, hom)
        orb = {}
        for m in want_all:
            orb.setdefault(frozenset(act(p, m) for p in els), []).append(m)
        reps = {max(o) for o in orb}
        dm, im = mod.generate_monoms(n, d, **opt)
        out['n'] += 1
        if len(set(im)) != len(im) or set(im) != reps:
            fail('representatives', d=d, got=im, want=sorted(reps))
            return
        if dm != {m: i for i, m in enumerate(im)}:
            fail('index table', d=d, got=dm)
        if obj.dict_monoms(d) != dm or obj.inv_monoms(d) != im or obj.length(d) != len(im):
            fail('manager tables differ', d=d)
        if n > 1 and not hom and False:
            pass
        m = rng.choice(want_all)
        st = max(act(p, m) for p in els)
        if obj.standard_monom(m) != st or obj.is_standard_monom(m) != (m == st):
            fail('standard monomial', m=m, got=obj.standard_monom(m), want=st)
        if sorted(obj.permute(m)) != sorted(act(p, m) for p in els):
            fail('orbit', m=m, got=obj.permute(m))
        if hom and obj.index(m) != im.index(st):
            fail('index of a monomial', m=m, got=obj.index(m), want=im.index(st))
        if hom and (m in obj) != (m == st):
            fail('membership', m=m)
        if obj.order() != len(els):
            fail('group order', got=obj.order())
        # vectors
        kind = rng.choice(['Z', 'Q', 'Q', 'surd', 'par', 'big'])
        kinds.append(kind)
        coef = {'Z': lambda: sp.Integer(rng.randint(-9, 9)), 'Q': lambda: R(rng.randint(-30, 30), rng.randint(1, 12)),
                'surd': lambda: R(rng.randint(-5, 5), rng.randint(1, 3)) + rng.randint(-2, 2) * sp.sqrt(rng.choice([2, 3])),
                'par': lambda: rng.randint(-3, 3) * sp.Symbol('k1') + rng.randint(-3, 3),
                'big': lambda: R(rng.randint(-10 ** 40, 10 ** 40), rng.randint(1, 10 ** 25))}[kind]
        # an invariant polynomial of degree exactly d
        t = {}
        for o in orb:
            c = coef() if rng.random() < .7 else sp.S(0)
            for m in o:
                t[m] = c
        top = [m for m in want_all if sum(m) == d]
        if all(t[m] == 0 for m in top):
            o = next(o for o in orb if top[0] in o)
            for m in o:
                t[m] = sp.S(1)
        p = sp.Poly({m: c for m, c in t.items() if c != 0}, *gens) if kind != 'surd' else \
            sp.Poly({m: c for m, c in t.items() if c != 0}, *gens, extension=True)
        out['n'] += 1
        out['distinct'].add((n, d, len(els), hom, kind, str(p.as_expr())[:80]))
        v = mod.arraylize_sp(p, **opt)
        want = [t[m] for m in im]
        if v.shape != (len(im), 1) or any(sp.expand(x - y) != 0 for x, y in zip(v, want)):
            fail('vector of an invariant polynomial', p=p, got=list(v), want=want)
        if list(obj.arraylize_sp(p)) != list(v):
            fail('vector of the manager', p=p, got=list(obj.arraylize_sp(p)), want=want)
        if kind != 'par' and not np.array_equal(obj.arraylize_np(p), mod.arraylize_np(p, **opt)):
            fail('numeric vector of the manager', p=p, got=list(obj.arraylize_np(p)), want=want)
        q = mod.invarraylize(v, gens, d, **opt)
        if tuple(q.gens) != tuple(gens) or sp.expand((q.as_expr() - p.as_expr())) != 0:
            fail('polynomial of its vector', p=p, got=q)
        v2 = mod.arraylize_sp(q, **opt) if q.total_degree() == d else v
        if list(v2) != list(v):
            fail('vector of the polynomial of a vector', got=list(v2), want=list(v))
        if kind != 'par':
            w = mod.arraylize_np(p, **opt)
            if w.shape != (len(im),) or any(abs(float(x) - float(y)) > 1e-12 * (1 + abs(float(y))) for x, y in zip(w, want)):
                fail('numeric vector', p=p, got=w, want=want)
            if kind in ('Z', 'Q'):
                q2 = mod.invarraylize(w, gens, d, **opt)
                if any(abs(float(q2.coeff_monomial(m)) - float(t[m])) > 1e-9 for m in want_all):
                    fail('polynomial of a numeric vector', p=p, got=q2)
            if kind == 'Z':
                q3 = mod.invarraylize([int(x) for x in w], gens, d, **opt)
                if q3 != p:
                    fail('polynomial of an integer list', p=p, got=q3)
        # expansion over the group of an arbitrary polynomial
        g = {m: coef() for m in rng.sample(want_all, min(len(want_all), rng.randint(1, 5)))}
        if all(c == 0 or sum(m) < d for m, c in g.items()):
            g[top[0]] = sp.S(1)
        pg = sp.Poly({m: c for m, c in g.items() if c != 0}, *gens) if kind != 'surd' else \
            sp.Poly({m: c for m, c in g.items() if c != 0}, *gens, extension=True)
        s = {}
        for m, c in g.items():
            for pm in els:
                k = act(pm, m)
                s[k] = s.get(k, 0) + c
        ve = mod.arraylize_sp(pg, expand_cyc=True, **opt)
        out['n'] += 1
        if any(sp.expand(x - s.get(m, 0)) != 0 for x, m in zip(ve, im)):
            fail('expansion over the group', p=pg, got=list(ve), want=[s.get(m, 0) for m in im])
        if kind != 'par':
            vn = mod.arraylize_np(pg, expand_cyc=True, **opt)
            if any(abs(float(x) - float(s.get(m, 0))) > 1e-9 * (1 + abs(float(s.get(m, 0)))) for x, m in zip(vn, im)):
                fail('numeric expansion over the group', p=pg, got=vn)
        # without expansion the representatives' coefficients are read
        vr = mod.arraylize_sp(pg, **opt)
        if any(sp.expand(x - g.get(m, 0)) != 0 for x, m in zip(vr, im)):
            fail('vector of a general polynomial', p=pg, got=list(vr))
        # permuted vectors: one column per group element, each the vector of a permuted polynomial
        if len(els) <= 24 and len(want_all) <= 60:
            base = obj.base()
            if base.order() != 1 or obj.order() != len(els):
                fail('base manager', got=base)
            if True:
                vb = base.arraylize_sp(pg)
                M = obj.permute_vec(vb, d)
                bm = base.inv_monoms(d)
                if sorted(bm) != sorted(want_all):
                    fail('base monomials', d=d)
                cols = sorted(str([M[i, j] for i in range(M.shape[0])]) for j in range(M.shape[1]))
                wantc = []
                for pm in els:
                    h = {}
                    for m, c in g.items():
                        h[act(pm, m)] = c
                    wantc.append(str([sp.sympify(h.get(m, 0)) for m in bm]))
                out['n'] += 1
                if kind in ('Z', 'Q', 'big') and cols != sorted(wantc):
                    fail('permuted vectors', p=pg, got=cols[:4], want=sorted(wantc)[:4])
        # symmetric sum helper
        e = pg.as_expr()
        if len(els) <= 12 and kind != 'surd':
            want_e = sum((e.xreplace({gens[i]: gens[pm[i]] for i in range(n)}) for pm in els), sp.S(0))
            got_e = obj.cyclic_sum(e, gens)
            got_e = got_e.doit() if hasattr(got_e, 'doit') else got_e
            if sp.expand(got_e - want_e) != 0:
                fail('sum over the group', e=e, got=got_e)
    # equality and hashing of managers
    o2 = obj.copy()
    if not (o2 == obj and hash(o2) == hash(obj)):
        fail('copies differ')


def job(seed):
    rng = random.Random('C11/' + seed)
    import triples.utils.monomials as mod
    out = {'bad': [], 'n': 0, 'distinct': set()}
    n = rng.choice([1, 2, 3, 3, 3, 4, 4, 5, 6])
    gr = groups(rng, n)
    if rng.random() < .35:
        gr = PermutationGroup(Permutation(list(range(n))))
    hom = rng.random() < .6
    check_manager(rng, mod, n, gr, hom, out)
    return out


def run(chk):
    n = chk.n(1600, 16000)
    for i, j, r in common.pmap(job, ['%d/%d' % (chk.seed, i) for i in range(n)], cpu=30, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('operation raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        chk.count('comparisons', r[1]['n'])
        for d in r[1]['distinct']:
            chk.observe(d, sample=d)
        for b in r[1]['bad']:
            chk.violation(b[0], dict(b[1], job=j))
    chk.require('comparisons', 2000)
