"""C19: symmetry detection, homogenisation and constraint normalisation."""
import random
from itertools import permutations
import sympy as sp
from sympy import Rational as R
from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup, SymmetricGroup
from gmpy2 import mpq
from .. import common, gen
from ..evalx import Evaluator, group_elements, rnd_rational, same, Undefined, NotEvaluable
from .c09 import groups

RULE = ('random polynomial lists (built symmetric, cyclic, nearly so, or not at all; 1..6 variables; mixed coefficient domains), '
        'random constraint containers (list/tuple/set/mapping, repeated factors, signs, zero and constant entries) sent through '
        'the sanitising decorator with every flag combination, with and without user-given symmetry. Non-trivial: distinct problem.')
ASSUMPTIONS = ['sympy Poly arithmetic is trusted',
               'an even root of an equality alias stands for the square-free part of the constraint (both vanish)']
SYM = sp.symbols('a b c d e f')


def acts(p, m):
    return tuple(m[i] for i in p)


def image(terms, perm):
    return {acts(perm, m): c for m, c in terms.items()}


def tdict(p):
    return {m: c for m, c in p.terms() if c != 0}


def freeze(t):
    return tuple(sorted((m, str(sp.nsimplify(c) if False else c)) for m, c in t.items()))


def lists_invariant(lists, perm):
    for l in lists:
        s = {freeze(tdict(p)) for p in l}
        if {freeze(image(tdict(p), perm)) for p in l} != s:
            return False
    return True


def rpoly(rng, gens, deg, hom=True, k=4, surd=False):
    n = len(gens)
    ms = gen.monoms(n, deg) if hom else [m for d in range(deg + 1) for m in gen.monoms(n, d)]
    e = sum(rng.randint(-k, k) * gen.mon(rng.choice(ms), gens) for _ in range(rng.randint(1, 4)))
    if surd:
        e += sp.sqrt(2) * gen.mon(rng.choice(ms), gens)
    return sp.expand(e)


def orbit_list(rng, e, gens, els):
    out = []
    for p in els:
        x = sp.expand(e.xreplace({gens[i]: gens[p[i]] for i in range(len(gens))}))
        if x not in out:
            out.append(x)
    return out


def sym_job(rng, out):
    from triples.core.shared import identify_symmetry_from_lists
    from triples.utils.expression.coeff import identify_symmetry, Coeff
    from triples.utils.polytools import verify_hom_cyclic, verify_is_symmetric
    n = rng.choice([1, 2, 3, 3, 3, 4, 4, 5, 6])
    gens = SYM[:n]
    if rng.random() < .3:
        gens = tuple(rng.sample(SYM[:n], n))
    els = group_elements(rng.choice([CyclicGroup(n), SymmetricGroup(n) if n <= 5 else CyclicGroup(n), groups(rng, n)]))
    hom = rng.random() < .6
    lists = []
    for _ in range(rng.randint(1, 3)):
        e = rpoly(rng, gens, rng.randint(1, 3), hom, surd=rng.random() < .1)
        o = orbit_list(rng, e, gens, els)
        if rng.random() < .5 or len(o) > 12:
            l = [sp.expand(sum(o))]
        else:
            l = o
        if rng.random() < .2:
            l = l + [rng.choice([rpoly(rng, gens, 2, hom), sum(gens), sp.Mul(*gens), gens[0]])]
        if rng.random() < .1 and len(l) > 1:
            l = l[1:]
        if rng.random() < .15 and l:
            l[0] = sp.expand(l[0] + rng.choice(gens))
        lists.append([sp.Poly(x, *gens) if not x.has(sp.sqrt(2)) else sp.Poly(x, *gens, extension=True) for x in l])
    if rng.random() < .3:
        lists.append([])
    if not any(lists):
        return
    # one common domain, as in a sanitised problem
    hh = rng.random() < .4
    G = identify_symmetry_from_lists(lists, has_homogenized=hh)
    ge = group_elements(G)
    key = ('sym', n, hh, str([[p.as_expr() for p in l] for l in lists])[:200])
    out['obs'].append(key)
    det = {'lists': str([[str(p.as_expr()) for p in l] for l in lists])[:800], 'gens': str(gens), 'group': str(G.generators), 'hom': hh}
    if G.degree != n:
        out['bad'].append(('degree of the detected group', det))
        return
    out['c']['group order %s' % ('1' if len(ge) == 1 else '>1')] = out['c'].get('group order %s' % ('1' if len(ge) == 1 else '>1'), 0) + 1
    for g in ge:
        if not lists_invariant(lists, g):
            out['bad'].append(('the detected group does not preserve the problem', dict(det, perm=str(g))))
            break
    dom = {str(p.domain) for l in lists for p in l}
    if len(dom) == 1 and n > 1:
        rot = tuple(list(range(1, n)) + [0])
        tr = tuple([1, 0] + list(range(2, n)))
        fr = lists_invariant(lists, rot)
        ft = lists_invariant(lists, tr)
        want = []
        if fr:
            want.append(rot)
        if ft and n > 2:
            want.append(tr)
        for w in want:
            if w not in ge:
                out['bad'].append(('a rotation or transposition preserving the problem is missed', dict(det, perm=str(w))))
    # single polynomial versions
    p = rng.choice([p for l in lists for p in l])
    if not p.is_zero:
        t = tdict(p)
        hg = rng.choice([None, gens[-1]])
        G1 = identify_symmetry(p, hg)
        for g in group_elements(G1):
            if image(t, g) != t:
                out['bad'].append(('identify_symmetry returned a group that changes the polynomial', {'p': str(p), 'group': str(G1.generators)}))
                break
        allg = [tuple(range(n))] if n == 1 else [tuple([1, 0] + list(range(2, n))), tuple(list(range(1, n)) + [0])]
        fs = all(image(t, g) == t for g in allg)
        fc = image(t, tuple(list(range(1, n)) + [0])) == t
        c = Coeff(p)
        if bool(c.is_symmetric()) != fs or bool(c.is_cyclic()) != fc:
            out['bad'].append(('symmetry test of the coefficient accessor', {'p': str(p), 'sym': fs, 'cyc': fc}))
        if fs and len(group_elements(G1)) != len(list(permutations(range(n)))):
            out['bad'].append(('full symmetry missed', {'p': str(p), 'group': str(G1.generators)}))
        if fc and tuple(list(range(1, n)) + [0]) not in group_elements(G1) and n > 1:
            out['bad'].append(('cyclic symmetry missed', {'p': str(p), 'group': str(G1.generators)}))
        pg = groups(rng, n)
        inv = all(image(t, g) == t for g in group_elements(pg))
        if bool(c.is_cyclic(pg)) != inv:
            out['bad'].append(('symmetry test for a given group', {'p': str(p), 'group': str(pg.generators), 'want': inv}))
        if n == 3:
            h = len({sum(m) for m in t}) == 1
            for fast in (True, False):
                gh, gc = verify_hom_cyclic(p, fast=fast)
                if bool(gh) != h or (h and bool(gc) != fc):
                    out['bad'].append(('homogeneity / cyclicity test', {'p': str(p), 'fast': fast, 'got': str((gh, gc)), 'want': str((h, fc))}))
            if fc and bool(verify_is_symmetric(p)) != fs:
                out['bad'].append(('symmetric test of a cyclic polynomial', {'p': str(p), 'want': fs}))
        out['obs'].append(('one', str(p)))


def hom_job(rng, out):
    from triples.core.shared import homogenize, homogenize_expr_list
    n = rng.randint(1, 4)
    gens = SYM[:n] if rng.random() < .7 else tuple(sp.symbols('t x t0 y'))[:n]
    p = sp.Poly(rpoly(rng, gens, rng.randint(1, 4), hom=rng.random() < .3, surd=rng.random() < .1), *gens)
    tt = rng.choice([None, sp.Symbol('w'), sp.Symbol('t_h')])
    q, h = homogenize(p, tt)
    out['obs'].append(('hom', str(p), str(tt)))
    if p.is_homogeneous:
        if h is not None or q != p:
            out['bad'].append(('homogenising a homogeneous polynomial', {'p': str(p), 'got': str(q)}))
    else:
        if h is None or h in p.free_symbols or (tt is not None and h != tt) or not q.is_homogeneous or q.total_degree() != p.total_degree() \
                or sp.expand(q.as_expr().xreplace({h: sp.S(1)}) - p.as_expr()) != 0 or set(q.gens) != set(gens) | {h}:
            out['bad'].append(('homogenisation', {'p': str(p), 'got': str(q), 'var': str(h)}))
    h = sp.Symbol('w_')
    l = []
    for _ in range(rng.randint(1, 4)):
        e = rpoly(rng, gens, rng.randint(1, 3), hom=rng.random() < .3)
        if e == 0:
            continue
        l.append(e if rng.random() < .6 else sp.Poly(e, *gens))
    if l:
        r = homogenize_expr_list(l, h)
        for e, x in zip(l, r):
            ee = e.as_expr()
            xx = x.as_expr()
            pp = sp.Poly(sp.expand(xx), *gens, h)
            if sp.expand(xx.subs(h, 1) - ee) != 0 or not pp.is_homogeneous or \
                    pp.total_degree() != sp.Poly(ee, *gens).total_degree():
                out['bad'].append(('homogenising a list', {'e': str(ee), 'got': str(xx)}))
        if len(r) != len(l):
            out['bad'].append(('list length', {'l': str(l), 'got': str(r)}))
        out['obs'].append(('homlist', str(l)))


def sanitize_job(rng, out):
    from triples.core.shared import sanitize_input, sanitize_output
    from triples.utils.expression import SolutionSimple
    from triples.utils.monomials import MonomialManager
    n = rng.choice([1, 2, 2, 3, 3, 3, 4])
    gens = SYM[:n]
    S_ = groups(rng, n) if rng.random() < .6 else PermutationGroup(Permutation(list(range(n))))
    els = group_elements(S_)
    hom = rng.random() < .45
    symm = rng.random() < .6

    def mk(deg):
        f = 1
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            b = rpoly(rng, gens, rng.choice([1, 1, 2]), hom, k=3)
            if b == 0:
                b = gens[0]
            f *= b ** rng.choice([1, 1, 1, 2, 3])
        return sp.expand(f * rng.choice([1, 1, -1, 2, R(-3, 2), 5])) if rng.random() < .5 else f * rng.choice([1, 1, -2, R(1, 3)])

    def mklist(m):
        l = []
        for _ in range(m):
            e = mk(1)
            if symm:
                o = orbit_list(rng, sp.expand(e), gens, els)
                if len(o) > 6:
                    o = [sp.expand(sum(o))]
                l += o
            else:
                l.append(e)
        if rng.random() < .15:
            l.append(sp.Integer(rng.choice([1, 2, 3])))
        if rng.random() < .05:
            l.append(sp.S(0))
        seen, res = set(), []
        for e in l:
            k = sp.expand(e)
            if k not in seen:
                seen.add(k)
                res.append(e)
        return [e for e in res if sp.Poly(e, *gens).total_degree() <= 9 or True]
    ineq_e, eq_e = mklist(rng.choice([0, 1, 1, 2])), mklist(rng.choice([0, 0, 1]))
    p = rpoly(rng, gens, rng.randint(1, 4), hom)
    if symm:
        p = sp.expand(sum(orbit_list(rng, p, gens, els)))
    if rng.random() < .3:
        p = sp.Poly(p, *gens)
    ctr = [0]

    def container(l):
        kind = rng.choice(['list', 'tuple', 'set', 'dict', 'dict', 'dict'])
        items = [(e if rng.random() < .7 else sp.Poly(e, *gens)) for e in l]
        if kind == 'dict':
            al = {}
            k2 = rng.choice(['sym', 'fun', 'self', 'exprs'])
            for e in items:
                ctr[0] += 1
                al[e] = (sp.Symbol('q%d' % ctr[0]) if k2 == 'sym' else sp.Function('F')(ctr[0]) if k2 == 'fun' else
                         (e.as_expr() if isinstance(e, sp.Poly) else e) if k2 == 'self' else sp.Function('Z%d' % ctr[0])(*gens))
            return al, dict((sp.expand(e.as_expr() if isinstance(e, sp.Poly) else e), v) for e, v in al.items())
        c = {'list': list, 'tuple': tuple, 'set': set}[kind](items)
        return c, dict((sp.expand(e.as_expr() if isinstance(e, sp.Poly) else e), e.as_expr() if isinstance(e, sp.Poly) else sp.sympify(e)) for e in items)
    ci, mi = container(ineq_e)
    ce, me = container(eq_e)
    flags = dict(homogenize=rng.random() < .6, infer_symmetry=rng.random() < .5, wrap_constraints=rng.random() < .5,
                 ineq_constraint_sqf=rng.random() < .8, eq_constraint_sqf=rng.random() < .8)
    rec = {}

    def probe(poly, ineq_constraints, eq_constraints, symmetry=None, _homogenizer=None):
        rec.update(poly=poly, ineq=dict(ineq_constraints), eq=dict(eq_constraints), symmetry=symmetry, h=_homogenizer)
        mv = {}
        if flags['wrap_constraints'] and symmetry is not None:
            # the wrapped functions stand for the constraints under every group element
            g_ = rng.choice(group_elements(symmetry.perm_group))
            mv = {poly.gens[i]: poly.gens[g_[i]] for i in range(len(poly.gens))}
        rec['mv'] = mv
        s = sum(((i + 2) * v.xreplace(mv) for i, v in enumerate(ineq_constraints.values())), sp.S(0))
        s += sum(((i + 20) * v.xreplace(mv) for i, v in enumerate(eq_constraints.values())), sp.S(0))
        if _homogenizer is not None:
            s += 7 * _homogenizer * gens[0]
        s += gens[0]
        return SolutionSimple(problem=poly, solution=s)
    kw = {}
    usersym = None
    used = set().union(*[sp.sympify(e.as_expr() if isinstance(e, sp.Poly) else e).free_symbols for e in [p] + ineq_e + eq_e])
    if symm and len(els) > 1 and rng.random() < .3 and (isinstance(p, sp.Poly) or used == set(gens)):
        usersym = S_
        kw['symmetry'] = S_ if rng.random() < .5 else MonomialManager(n, S_)
    ci0, ce0, p0 = (dict(ci) if isinstance(ci, dict) else type(ci)(ci)), (dict(ce) if isinstance(ce, dict) else type(ce)(ce)), p
    det = {'p': str(p), 'ineq': str(ci), 'eq': str(ce), 'flags': str(flags), 'symmetry': str(usersym and usersym.generators)}
    sol = sanitize_output()(sanitize_input(**flags)(probe))(p, ci, ce, **kw)
    out['obs'].append(('san', det['p'], det['ineq'], det['eq'], det['flags']))
    bad = out['bad']
    if ci != ci0 or ce != ce0:
        bad.append(('caller containers modified', det))
    P, I, E, h = rec['poly'], rec['ineq'], rec['eq'], rec['h']
    pe = p.as_expr() if isinstance(p, sp.Poly) else p
    one = {h: sp.S(1)} if h is not None else {}
    if sp.expand(P.as_expr().xreplace(one) - pe) != 0:
        bad.append(('problem polynomial changed', dict(det, got=str(P))))
    allhom = all(q.is_homogeneous for q in [P] + list(I) + list(E))
    if flags['homogenize'] and not allhom:
        bad.append(('problem not homogeneous after homogenisation', dict(det, got=str([str(q) for q in [P] + list(I) + list(E)]))))
    if h is not None and (not flags['homogenize']):
        bad.append(('unexpected homogenising variable', det))
    fs = [q.free_symbols for q in [sp.sympify(pe)] + list(mi) + list(me)]
    gg = set.union(set(), *fs)
    if h is not None and (h in gg or any(h in v.free_symbols for v in list(mi.values()) + list(me.values()))):
        bad.append(('homogenising variable collides with a variable', dict(det, h=str(h))))
    if any(q.gens != P.gens for q in list(I) + list(E)):
        bad.append(('generators differ', det))
    # wrapped functions -> what they restore to, via the returned solution
    env = {g: rnd_rational(rng, 1, 9, 5) * rng.choice([1, 1, -1]) for g in gens}

    def value(e, env_, funcs):
        return Evaluator(env_, funcs)(sp.sympify(e))

    def alias_env(full):
        """values of user aliases = the constraints they name (at t = 1)"""
        env_, funcs = dict(full), {}
        for src, al in list(mi.items()) + list(me.items()):
            v = Evaluator(full)(sp.sympify(src))
            if al in (src,) or not (al.is_Symbol or isinstance(al, sp.core.function.AppliedUndef)):
                continue
            if al.is_Symbol:
                env_[al] = v
            else:
                funcs[al] = v
        return env_, funcs
    # expected set of normalised constraints
    def odd_part(e):
        q = sp.Poly(e, *gens)
        c, l = q.factor_list()
        r = sp.Poly(1 if c > 0 else -1, *gens, domain='QQ')
        for f, m in l:
            if m % 2:
                r = r * f
        return r

    def sqf(e):
        q = sp.Poly(e, *gens)
        c, l = q.factor_list()
        r = sp.Poly(1, *gens, domain='QQ')
        for f, m in l:
            r = r * f
        return r

    def monic(q):
        q = q.set_domain('QQ') if q.domain.is_ZZ else q
        return q

    def posnorm(q):   # up to a positive factor
        q = sp.Poly(q.as_expr() if isinstance(q, sp.Poly) else q, *gens)
        c = q.LC()
        return sp.expand((q / abs(c)).as_expr()) if False else sp.expand(q.as_expr() / abs(c)) if c != 0 else sp.S(0)
    gotI = [posnorm(sp.Poly(q.as_expr().xreplace(one), *gens)) for q in I if not (h is not None and q.as_expr() == h)]
    srcI = [s for s in mi if sp.Poly(s, *gens).total_degree() > 0]
    wantI = {posnorm(odd_part(s) if flags['ineq_constraint_sqf'] else s) for s in srcI}
    wantI = {w for w in wantI if w.free_symbols}
    if set(gotI) != wantI:
        bad.append(('inequality constraints lost, added or changed', dict(det, got=str(gotI), want=str(wantI))))
    srcE = [s for s in me if sp.Poly(s, *gens).total_degree() > 0]
    absn = lambda e: posnorm(e) if sp.Poly(e, *gens).LC() > 0 else posnorm(-sp.sympify(e.as_expr() if isinstance(e, sp.Poly) else e))
    gotE = {absn(sp.expand(q.as_expr().xreplace(one))) for q in E}
    wantE = {absn(sqf(s) if flags['eq_constraint_sqf'] else s) for s in srcE}
    wantE = {w for w in wantE if w.free_symbols}
    if gotE != wantE:
        bad.append(('equality constraints lost, added or changed', dict(det, got=str(gotE), want=str(wantE))))
    if h is not None and not any(q.as_expr() == h for q in I):
        bad.append(('no sign constraint for the homogenising variable', det))
    # the restored expression: sum over normalised constraints with weights
    if flags['wrap_constraints']:
        for dct in (I, E):
            for q, v in dct.items():
                if not isinstance(v, sp.core.function.AppliedUndef) or not set(v.args) == set(q.free_symbols):
                    bad.append(('constraint function does not depend on the right variables', dict(det, q=str(q), v=str(v))))
    if rec['symmetry'] is not None:
        L = [[P], [q for q in I], [q for q in E]]
        for g in group_elements(rec['symmetry'].perm_group):
            if usersym is None and flags['infer_symmetry'] and not lists_invariant(L, g):
                bad.append(('the inferred symmetry does not preserve the problem', dict(det, perm=str(g))))
                break
        if usersym is not None and [tuple(g[:n]) for g in group_elements(rec['symmetry'].perm_group)] != [tuple(g) for g in els]:
            bad.append(('the given symmetry was changed', dict(det, got=str(rec['symmetry']))))
    okpts = 0
    for _ in range(6):
        env = {g: rnd_rational(rng, 1, 9, 5) * rng.choice([1, 1, -1]) for g in gens}
        try:
            # skip points where an even root of an equality alias is ambiguous
            amb = False
            want = mpq(0)
            full = dict(env)
            if h is not None:
                full[h] = mpq(1)
            for i, q in enumerate(I):
                want += (i + 2) * Evaluator(full)(q.as_expr().xreplace(rec['mv']))
            for i, q in enumerate(E):
                q = sp.Poly(q.as_expr().xreplace(rec['mv']), *P.gens)
                v = Evaluator(full)(q.as_expr())
                mult = 1
                for s in srcE:
                    if sp.expand(absn(sqf(s)) - absn(sp.expand(q.as_expr().xreplace(one)))) == 0:
                        mult = max(mult, max(m for _, m in sp.Poly(s, *gens).factor_list()[1]))
                if mult > 1 and flags['eq_constraint_sqf']:
                    amb = True
                want += (i + 20) * v
            if h is not None:
                want += 7 * env[gens[0]]
            want += env[gens[0]]
            e_, f_ = alias_env(env)
            got = Evaluator(e_, f_)(sol.solution)
        except Undefined:
            continue
        except NotEvaluable as ex:
            out['c']['not evaluable'] = out['c'].get('not evaluable', 0) + 1
            break
        if amb:
            out['c']['ambiguous root'] = out['c'].get('ambiguous root', 0) + 1
            break
        okpts += 1
        if not same(got, want, None):
            bad.append(('restored constraints differ from the normalised ones', dict(det, sol=str(sol.solution)[:400], I=str(I), E=str(E),
                        point=str(env), got=str(got)[:60], want=str(want)[:60])))
            break
    if okpts:
        out['c']['restored'] = out['c'].get('restored', 0) + 1
    if sol.problem is not p and sol.problem != p:
        bad.append(('problem attribute of the solution', dict(det, got=str(sol.problem))))
    if sol.ineq_constraints is not ci or sol.eq_constraints is not ce:
        if sol.ineq_constraints != ci or sol.eq_constraints != ce:
            bad.append(('constraint attributes of the solution', det))


def clear_job(rng, out):
    from triples.core.shared import clear_polys_by_symmetry
    from triples.utils.monomials import MonomialManager
    n = rng.choice([2, 3, 3, 4])
    gens = SYM[:n]
    G = groups(rng, n)
    els = group_elements(G)
    l = []
    for _ in range(rng.randint(1, 3)):
        e = rpoly(rng, gens, rng.randint(1, 2), True, k=2)
        if e == 0:
            continue
        o = orbit_list(rng, e, gens, els)
        l += rng.sample(o, rng.randint(1, len(o)))
    if not l:
        return
    rng.shuffle(l)
    tup = rng.random() < .4
    items = [(e, i) for i, e in enumerate(l)] if tup else l
    r = clear_polys_by_symmetry(list(items), gens, MonomialManager(n, G))
    out['obs'].append(('clear', str(l), str(G.generators)))
    k = lambda e: frozenset(orbit_list(rng, sp.expand(e), gens, els))
    got = [k(x[0] if tup else x) for x in r]
    if len(set(got)) != len(got) or set(got) != {k(e) for e in l} or any(x not in items for x in r):
        out['bad'].append(('removing symmetric duplicates', {'l': str(l), 'group': str(G.generators), 'got': str(r)}))


def job(seed):
    rng = random.Random('C19/' + seed)
    out = {'bad': [], 'obs': [], 'c': {}}
    k = rng.random()
    f = sym_job if k < .35 else sanitize_job if k < .8 else hom_job if k < .9 else clear_job
    f(rng, out)
    out['c'][f.__name__] = 1
    return out


def run(chk):
    n = chk.n(4000, 40000)
    for i, j, r in common.pmap(job, ['%d/%d' % (chk.seed, i) for i in range(n)], cpu=30, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('operation raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        for d in r[1]['obs']:
            chk.observe(d, sample=d)
        for k, v in r[1]['c'].items():
            chk.count(k, v)
        for b in r[1]['bad']:
            chk.violation(b[0], dict(b[1], job=j))
    chk.require('sym_job', 300)
    chk.require('restored', 300)
