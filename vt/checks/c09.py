"""C09: cyclic sums / products denote the sum / product over the group; every operation preserves it."""
import random
import sympy as sp
from sympy import Rational as R
from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup, SymmetricGroup, AlternatingGroup, DihedralGroup
from gmpy2 import mpq
from .. import common
from ..evalx import Evaluator, group_elements, Undefined, NotEvaluable, same, rnd_rational

RULE = ('random expressions (polynomials, quotients, surds, function aliases, nested cyclic nodes, parameters) over '
        'random permutation groups on 2..6 symbols, pushed through random operation sequences (construct, expand, '
        'substitute, rename, content, together, signsimp, rebuild); each result is evaluated at exact points and compared '
        'with the same operation on the explicitly written-out group sum. Non-trivial: distinct (expression, group, operation).')
ASSUMPTIONS = ['sympy arithmetic on expressions free of cyclic nodes is trusted',
               'points where a denominator vanishes are skipped']
F, G = sp.Function('F'), sp.Function('G')
PAR = sp.symbols('x y u')
NAMES = sp.symbols('a b c d e f')


def groups(rng, n):
    out = [CyclicGroup(n), SymmetricGroup(n)] if n <= 4 else [CyclicGroup(n)]
    if n >= 3 and n <= 5:
        out += [AlternatingGroup(n), DihedralGroup(n)] if n <= 4 else [DihedralGroup(n)]
    if n == 4:
        out += [PermutationGroup(Permutation([1, 2, 0, 3])), PermutationGroup(Permutation([1, 0, 3, 2])),
                PermutationGroup(Permutation([1, 0, 2, 3]), Permutation([0, 1, 3, 2])),
                PermutationGroup(Permutation([1, 0, 3, 2]), Permutation([2, 3, 0, 1])),
                PermutationGroup(Permutation([1, 0, 2, 3]))]
    if n == 5:
        out += [PermutationGroup(Permutation([1, 2, 0, 4, 3])), PermutationGroup(Permutation([1, 2, 0, 3, 4]), Permutation([0, 1, 2, 4, 3])),
                PermutationGroup(Permutation([1, 2, 0, 3, 4]), Permutation([1, 0, 2, 4, 3])),
                PermutationGroup(Permutation([0, 2, 1, 3, 4]), Permutation([0, 1, 2, 4, 3]))]
    if n == 6:
        out += [PermutationGroup(Permutation([1, 2, 0, 4, 5, 3])),
                PermutationGroup(Permutation([1, 2, 0, 3, 4, 5]), Permutation([0, 1, 2, 4, 5, 3])),
                PermutationGroup(Permutation([1, 2, 0, 3, 4, 5]), Permutation([0, 1, 2, 4, 5, 3]), Permutation([1, 0, 2, 4, 3, 5])),
                PermutationGroup(Permutation([1, 0, 3, 2, 5, 4]), Permutation([2, 3, 0, 1, 4, 5])),
                PermutationGroup(Permutation([1, 0, 2, 3, 4, 5]), Permutation([0, 1, 3, 2, 4, 5]), Permutation([0, 1, 2, 3, 5, 4]))]
    if n == 3:
        out += [PermutationGroup(Permutation([1, 0, 2])), PermutationGroup(Permutation([0, 2, 1]))]
    return rng.choice(out)


def expand_ref(kind, e, syms, grp):
    args = []
    for g in group_elements(grp):
        args.append(e.xreplace({syms[i]: syms[g[i]] for i in range(len(syms))}))
    return sp.Add(*args) if kind == 's' else sp.Mul(*args)


def base_expr(rng, syms, depth, fn):
    """Random cyclic-free expression."""
    s = list(syms) * 3 + list(PAR[:2]) + ([fn(rng.choice(syms)) for _ in range(2)] if fn else [])
    if depth <= 0 or rng.random() < 0.15:
        r = rng.random()
        if r < 0.15:
            return sp.Integer(rng.choice([-3, -2, -1, 2, 3, 5]))
        if r < 0.2:
            return R(rng.choice([-1, 1, 3]), rng.choice([2, 3]))
        if r < 0.23:
            return sp.sqrt(rng.choice([2, 3, 5]))
        return rng.choice(s)
    k = rng.random()
    sub = lambda: base_expr(rng, syms, depth - 1, fn)
    if k < 0.42:
        return sub() + sub() * rng.choice([1, 1, -1, 2, -2, R(1, 2)])
    if k < 0.8:
        return sub() * sub()
    if k < 0.95:
        return sub() ** rng.choice([2, 2, 2, 3])
    d = sub()
    return sub() / (d ** 2 + 1)


def build(rng, depth, fn, same_vars=None, outer_grp=None):
    """(repo expression, written-out reference)"""
    from triples.utils.expression import CyclicSum, CyclicProduct
    k = rng.random() if same_vars is None else 0.5
    if (depth <= 0 and same_vars is None) or k < 0.12:
        n = rng.randint(2, 3)
        e = base_expr(rng, rng.sample(NAMES, n), rng.randint(1, 2), fn)
        return e, e
    if k < 0.72:
        n = rng.choice([2, 3, 3, 3, 3, 4, 4, 5, 6])
        names = list(NAMES[:n]) if rng.random() < 0.6 else rng.sample(NAMES, n)
        if same_vars is not None:                 # nested over the same variables, possibly listed in another order
            names = list(same_vars)
            n = len(names)
            if rng.random() < 0.6:
                rng.shuffle(names)
        grp = outer_grp if outer_grp is not None and rng.random() < 0.6 else groups(rng, n)
        kind = rng.choice('sssp')
        if rng.random() < (0.45 if grp.order() <= 6 else 0.1):
            if rng.random() < 0.35 and grp.order() <= 12:
                be, br = build(rng, depth - 1, fn, names, grp)
            else:
                be, br = build(rng, depth - 1, fn)
            f = base_expr(rng, names, 1, fn)
            op = rng.random()
            if op < 0.5:
                e, r = f * be, f * br
            elif op < 0.8:
                e, r = f + be, f + br
            else:
                e, r = f * be ** 2, f * br ** 2
            if len(str(r)) > 1500 // grp.order() + 200:
                e = r = f
        else:
            e = r = base_expr(rng, names, rng.randint(1, 3) if grp.order() <= 8 else rng.randint(1, 2), fn)
        cls = CyclicSum if kind == 's' else CyclicProduct
        if len(names) == 3 and tuple(names) == NAMES[:3] and grp == CyclicGroup(3) and rng.random() < 0.3:
            obj = cls(e)
        elif grp == CyclicGroup(n) and rng.random() < 0.3:
            obj = cls(e, tuple(names))
        else:
            obj = cls(e, tuple(names), grp)
        return obj, expand_ref(kind, sp.sympify(r), names, grp)
    (e1, r1), (e2, r2) = build(rng, depth - 1, fn), build(rng, depth - 1, fn)
    if k < 0.82:
        return e1 + e2, r1 + r2
    if k < 0.93:
        return e1 * e2, r1 * r2
    return e1 ** 2, r1 ** 2


def value(e, env):
    fns = lambda f: mpq(hash_fn(f, env))
    return Evaluator(env, fns)(e)


def hash_fn(f, env):
    """A fixed interpretation of alias functions: F(t) = 3t+1, G(t) = t^2+2 (at the value of t)."""
    t = Evaluator(env, lambda h: mpq(hash_fn(h, env)))(f.args[0])
    return 3 * t + 1 if f.func == F else t * t + 2


def rand_rule(rng, ref, fn):
    fs = sorted(ref.free_symbols, key=str)
    allnames = list(NAMES) + list(PAR) + list(sp.symbols('p q r'))
    k = rng.random()
    rule = {}
    if k < 0.3:                                   # rename, possibly onto used names
        ks = rng.sample(NAMES, rng.randint(1, 4))
        vs = rng.sample(allnames, len(ks))
        rule = dict(zip(ks, vs))
    elif k < 0.45:                                # permute names
        ks = rng.sample(NAMES, rng.randint(2, 4))
        vs = ks[1:] + ks[:1]
        if rng.random() < 0.5:
            rng.shuffle(vs)
        rule = dict(zip(ks, vs))
    elif k < 0.6:                                 # equivariant maps
        a, b, c = NAMES[:3]
        rule = rng.choice([{a: a * b, b: b * c, c: c * a}, {a: b + c, b: c + a, c: a + b}, {a: 1 / a, b: 1 / b, c: 1 / c},
                           {a: a ** 2, b: b ** 2, c: c ** 2}, {a: a - b, b: b - c, c: c - a},
                           {a: a + PAR[0], b: b + PAR[0], c: c + PAR[0]}, {a: 2 * a, b: 2 * b, c: 2 * c}])
    elif k < 0.7 and fn:
        ks = rng.sample(NAMES, rng.randint(1, 4)) if rng.random() < 0.5 else NAMES
        other = G if fn == F else F
        rule = {fn(t): rng.choice([other(t), other(t), sp.Symbol('al_' + t.name)]) for t in ks}
    elif k < 0.85:
        ks = rng.sample(list(NAMES) + list(PAR), rng.randint(1, 3))
        rule = {t: rng.choice([sp.Integer(rng.randint(-2, 3)), rng.choice(allnames) + 1, rng.choice(allnames) * 2,
                               rng.choice(allnames) - rng.choice(allnames), R(1, 2)]) for t in ks}
    else:
        ks = rng.sample(PAR, rng.randint(1, 2))
        rule = {t: rng.choice([rng.choice(NAMES), rng.choice(allnames), sp.Integer(2)]) for t in ks}
    return rule


def apply(rng, e, r, fn):
    """one random operation on both; returns (name, e2, r2)"""
    from triples.utils.expression import CyclicSum, CyclicProduct
    k = rng.random()
    if k < 0.34:
        rule = rand_rule(rng, r, fn)
        return 'xreplace %s' % rule, e.xreplace(rule), r.xreplace(rule)
    if k < 0.46:
        rule = {a: b for a, b in rand_rule(rng, r, None).items()}
        if rng.random() < 0.6:
            return 'subs-simul %s' % rule, e.subs(rule, simultaneous=True), r.xreplace(rule)
        items = list(rule.items())
        r2 = r
        for o, nw in items:
            r2 = r2.xreplace({o: nw})
        return 'subs %s' % items, e.subs(items), r2
    if k < 0.56:
        return 'doit', e.doit(), r
    if k < 0.6:
        return 'doit-shallow', e.doit(deep=False), r
    if k < 0.66:
        if len(str(r)) < 600:
            return 'expand', e.expand(), r
        return 'doit', e.doit(), r
    if k < 0.76:
        nodes = [n for n in sp.preorder_traversal(e) if isinstance(n, (CyclicSum, CyclicProduct))]
        if nodes:
            n = rng.choice(nodes)
            c, p = n.as_content_primitive()
            n2 = c * p
            return 'content', e.xreplace({n: n2}) if e != n else n2, r
        return 'content', e, r
    if k < 0.82:
        return 'together', sp.together(e), r
    if k < 0.88:
        return 'signsimp', sp.signsimp(e), r
    if k < 0.94:
        def rb(x):
            if x.is_Atom or isinstance(x, (PermutationGroup, Permutation)):
                return x
            return x.func(*[rb(t) if isinstance(t, sp.Expr) else t for t in x.args])
        return 'rebuild', rb(e), r
    c, p = e.as_content_primitive()
    return 'content-top', c * p, r


def orbit_equal(rng, out):
    """Images of the summand under the group give an equal, identically printed object."""
    from triples.utils.expression import CyclicSum, CyclicProduct
    n = rng.choice([2, 3, 3, 4])
    names = NAMES[:n] if rng.random() < 0.5 else tuple(rng.sample(NAMES, n))
    grp = groups(rng, n)
    e = base_expr(rng, names, 2, None)
    g = rng.choice(group_elements(grp))
    e2 = e.xreplace({names[i]: names[g[i]] for i in range(n)})
    for cls in (CyclicSum, CyclicProduct):
        o1, o2 = cls(e, names, grp), cls(e2, names, grp)
        o3 = cls(e, tuple(names[g[i]] for i in range(n)), grp)
        if o1 != o3:
            out.append('%s of %s over the reordered symbols %s (same group) differs: %s / %s' % (cls.__name__, e, names, o1, o3))
        if o1 != o2 or str(o1) != str(o2) or hash(o1) != hash(o2):
            out.append('%s of %s and of its image %s under the group differ: %s / %s' % (cls.__name__, e, e2, o1, o2))


def printing_probe():
    from triples.utils.expression import CyclicSum, CyclicProduct, SymmetricSum
    a, b, c, d = NAMES[:4]
    L = [CyclicSum(a), CyclicSum((a - b) ** 2 * a), CyclicProduct(a ** 2 + b), CyclicSum(a * CyclicSum(a * b + 1)),
         SymmetricSum(a ** 2 * b, (a, b, c)), CyclicSum(a * b ** 2, (a, b, c, d)), CyclicSum(c * b ** 2, (b, c, a)),
         CyclicSum(F(a) * (b - c) ** 2), CyclicProduct(2 * a), CyclicSum(b / (a ** 2 + 1), (a, b), SymmetricGroup(2))]
    return [str(x) for x in L] + [sp.latex(x) for x in L] + [str(x.args[1:2]) for x in L]


_probe0 = [None]


def job(seed):
    rng = random.Random('c09/%s' % seed)
    out = {'bad': [], 'ops': [], 'n': 0}
    fn = rng.choice([None, None, F])
    e, r = build(rng, rng.randint(1, 2), fn)
    e, r = sp.sympify(e), sp.sympify(r)
    out['expr'] = str(e)[:200]
    hist = ['construct']
    for step in range(rng.randint(2, 5)):
        for t in range(6):
            env = {s: rnd_rational(rng, -4, 4, 3) for s in NAMES + PAR + tuple(sp.symbols('p q r'))}
            for s in NAMES:
                env[sp.Symbol('al_' + s.name)] = env[s] * 2 + 5
            if t > 2:
                env = {k: abs(v) + mpq(1, 3) for k, v in env.items()}
            try:
                vr = value(r, env)
                ve = value(e, env)
            except Undefined:
                continue
            except NotEvaluable as ex:
                out['unk'] = str(ex)
                break
            out['n'] += 1
            if not same(ve, vr, None):
                out['bad'].append('after %s: %s evaluates to %s, the written-out expression %s to %s' % (
                    hist, str(e)[:300], str(ve)[:40], str(r)[:400], str(vr)[:40]))
                return out
            break
        out['ops'].append(hist[-1])
        if len(str(r)) > 4000 or len(str(e)) > 4000:
            break
        name, e, r = apply(rng, e, r, fn)
        e, r = sp.sympify(e), sp.sympify(r)
        hist.append(name)
    if rng.random() < 0.3:
        orbit_equal(rng, out['bad'])
        out['orb'] = 1
    if rng.random() < 0.1:
        p = printing_probe()
        out['probe'] = p
    return out


def run(chk):
    ref = None
    # reference printing from a fresh process
    for _, _, r in common.pmap(lambda _: printing_probe(), [0], cpu=60, nproc=1):
        ref = r[1] if r[0] == 'ok' else None
    n = chk.n(4000, 60000)
    jobs = ['%d/%d' % (chk.seed, i) for i in range(n)]
    for i, j, r in common.pmap(job, jobs, cpu=15, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('operation raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        o = r[1]
        for op in o['ops']:
            chk.observe((o['expr'], op))
            chk.count('op ' + op.split()[0])
        if 'unk' in o:
            chk.count('not evaluable')
        if o.get('orb'):
            chk.count('orbit equality')
        if 'probe' in o:
            chk.count('printing probes')
            if ref is not None and o['probe'] != ref:
                d = [(x, y) for x, y in zip(o['probe'], ref) if x != y]
                chk.violation('printing depends on what was constructed before', {'job': j, 'diff': d[:4]})
        if len(chk.samples) < 8 and len(o['ops']) > 2:
            chk.samples.append({'expr': o['expr'], 'operations': o['ops']})
        for b in o['bad']:
            chk.violation('cyclic expression changed value', b)
    chk.require('op construct', 500)
    chk.require('op xreplace', 200)
    chk.require('printing probes', 50)
