"""C14 standard form and factor form read back as the same polynomial."""
import random
import sympy as sp
from sympy import Poly, QQ, ZZ
from vt import common, evalx, textgen as tg
common.use_repo()

RULE = ('random polynomials (1..5 generators, integer/rational/surd/parametric coefficients, dense, sparse, cyclic, symmetric, products of '
        'repeated and permuted factors, signs, monomial factors, constants, zero) written by poly_get_standard_form and '
        'poly_get_factor_form with every flag combination and random groups, parsed again by preprocess_text; exact difference must vanish')


def rcoef(rng, dom, params):
    k = rng.random()
    if dom == 'ZZ':
        return sp.Integer(rng.choice([1, -1, rng.randint(-20, 20)]))
    if dom == 'QQ':
        return sp.Rational(rng.randint(-20, 20), rng.randint(1, 12))
    if dom == 'surd':
        if k < .4:
            return sp.Integer(rng.randint(-5, 5))
        r = sp.sqrt(rng.choice([2, 3]) if k < .45 else 2)
        return rng.choice([r, -r, 1 + r, 1 - r, sp.Rational(1, 3) * r - 2, r / 2])
    if dom == 'param':
        p = sp.Symbol(rng.choice(params))
        q = sp.Symbol(params[-1])
        return rng.choice([sp.Integer(rng.randint(-4, 4)), p, -p, p + 1, 1 - p, p * q, p ** 2 - q, (p - q) * (p + 2), 2 * p, p * q ** 2 / 3, -p ** 2])
    raise ValueError


def rpoly(rng, gens, d, nt, dom, params):
    out = 0
    for _ in range(nt):
        dd = d if rng.random() < .7 else rng.randint(0, d)
        m = 1
        for _k in range(dd):
            m *= rng.choice(gens)
        out += rcoef(rng, dom, params) * m
    return out


def permuted(e, gens, g):
    return sp.sympify(e).xreplace({gens[i]: gens[g[i]] for i in range(len(gens))})


def job(seed):
    from triples.utils.expression.form import poly_get_standard_form, poly_get_factor_form
    from triples.utils.text_process import preprocess_text
    from vt.checks.c09 import groups
    from sympy.combinatorics import CyclicGroup, SymmetricGroup, PermutationGroup
    rng = random.Random(seed)
    st, obs, bad = {}, [], []
    cnt = lambda k, v=1: st.__setitem__(k, st.get(k, 0) + v)
    for _ in range(8):
        n = rng.choice([1, 2, 3, 3, 3, 3, 4, 5])
        letters = list(tg.LETTERS)
        if rng.random() < .5:
            letters = list('abcdefxyz')
        else:
            rng.shuffle(letters)
        gens = tuple(sp.Symbol(x) for x in letters[:n])
        params = letters[n:n + 2]
        k = rng.random()
        if k < .45:
            G = None
        elif k < .65:
            G = SymmetricGroup(n)
        elif k < .75:
            G = PermutationGroup([sp.combinatorics.Permutation(list(range(n)))])
        else:
            G = groups(rng, n)
            if G.degree != n:
                G = None
        GG = CyclicGroup(n) if G is None else G
        els = evalx.group_elements(GG)
        if len(els) > 24:
            G = None
            GG = CyclicGroup(n)
            els = evalx.group_elements(GG)
        dom = rng.choice(['ZZ', 'ZZ', 'QQ', 'QQ', 'surd', 'param'])
        shape = rng.choice(['random', 'sum', 'product', 'product', 'factors', 'const', 'zero', 'monomial'])
        if shape in ('const', 'zero', 'monomial') and rng.random() < .5:
            shape = 'factors'
        base = lambda d, t: rpoly(rng, gens, d, t, dom, params)
        if shape == 'random':
            e = base(rng.randint(1, 6), rng.randint(1, 7))
        elif shape == 'sum':
            x = base(rng.randint(1, 5), rng.randint(1, 3))
            e = sum(permuted(x, gens, g) for g in els)
        elif shape == 'zero':
            e = sp.Integer(0)
        elif shape == 'const':
            e = rcoef(rng, dom, params)
        elif shape == 'monomial':
            e = rcoef(rng, dom, params) * base(0, 1)
            for _k in range(rng.randint(1, 5)):
                e *= rng.choice(gens)
        else:
            e = rcoef(rng, dom, params)
            if e == 0:
                e = sp.Integer(-3)
            for _k in range(rng.randint(1, 3)):
                kk = rng.random()
                if kk < .3:
                    x = rng.choice(gens) ** rng.randint(1, 3)
                elif kk < .55 and n >= 2:
                    u, v = rng.sample(gens, 2)
                    x = (u - v) if rng.random() < .6 else (u + v)
                else:
                    x = rpoly(rng, gens, rng.choice([1, 1, 2]), rng.choice([1, 2, 2]), dom if dom != 'surd' or rng.random() < .3 else 'ZZ', params)
                if shape == 'product' and len(els) <= 6:
                    y = 1
                    for g in els:
                        y *= permuted(x, gens, g)
                    x = y
                elif shape == 'product':
                    x = sum(permuted(x, gens, g) for g in els)
                e *= x ** rng.choice([1, 1, 1, 2, 3] if len(els) <= 3 else [1, 1, 2])
        try:
            p = Poly(e, *gens, extension=True) if rng.random() < .8 or dom == 'surd' else Poly(e, *gens)
        except Exception:
            continue
        if len(p.monoms()) > 150 or p.total_degree() > (8 if dom == 'param' else 5 if dom == 'surd' else 16):
            continue
        om, op = rng.random() < .6, rng.random() < .6
        ref = p.as_expr()
        for nm, f in (('standard', poly_get_standard_form), ('factor', poly_get_factor_form)):
            info = (nm, str(p)[:400], str(G), om, op)
            try:
                text = f(p, G, om, op)
            except Exception as ex:
                bad.append((nm + ' form raised ' + type(ex).__name__, info, repr(ex)[:300]))
                continue
            cnt(nm)
            cnt(shape)
            cnt(dom)
            obs.append(info)
            if 's(' in text:
                cnt('cyclic text')
            if 'p(' in text:
                cnt('product text')
            r = preprocess_text(text, gens, G)
            if r is None:
                bad.append((nm + ' form is not readable', info, text[:300]))
                continue
            d = sp.expand(r.as_expr() - ref)
            if d != 0:
                d = sp.expand(sp.radsimp(d))
            if d != 0:
                bad.append((nm + ' form differs', info, text[:300] + ' reads as ' + str(r.as_expr())[:300]))
    return st, obs, bad


def run(chk):
    n = chk.n(450, 6000)
    for i, j, r in common.pmap(job, ['%d/%d' % (chk.seed, i) for i in range(n)], cpu=15, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        st, obs, bad = r[1]
        for o in obs:
            chk.observe(o, sample=o)
        for k, v in st.items():
            chk.count(k, v)
        for why, info, det in bad:
            chk.violation(why, {'job': j, 'input': info, 'detail': det}, key=why)
    for k in ('standard', 'factor'):
        chk.require(k, 1000)
    for k in ('cyclic text', 'product text', 'surd', 'param', 'QQ', 'ZZ', 'zero', 'const'):
        chk.require(k, 20)
