"""C13 degree_of_zero: the degree of a homogeneous text, also when it cancels to zero."""
import random
from fractions import Fraction as F
import sympy as sp
from vt import common, textgen as tg
common.use_repo()

RULE = ('random homogeneous syntax trees of known formal degree (nonzero constants, parameters, surds, quotients, cyclic sums and '
        'products, random groups), as written, and inside texts that cancel to zero (X-X re-spelled, Y(X-X), expanded minus factored); '
        'reported degree against the formal degree of the tree, and against the total degree of the parsed polynomial')


def job(seed):
    from triples.utils.text_process import degree_of_zero, preprocess_text
    from vt.checks.c12 import make_ctx
    rng = random.Random(seed)
    st, obs, bad = {}, [], []
    cnt = lambda k, v=1: st.__setitem__(k, st.get(k, 0) + v)
    for _ in range(10):
        ctx, G = make_ctx(rng, False)
        opt = {'div': rng.random() < .25, 'dec': False}
        d = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8])
        node = tg.homog(rng, ctx, d, rng.choice([1, 2, 2, 3]), opt)
        if tg.size(node, ctx) > 60:
            continue
        kind = rng.choice(['plain', 'minus', 'factor', 'sum of zeros', 'expanded'])
        names = ctx.gens + ctx.params
        # an accidental zero or a pole makes the tree meaningless
        try:
            for _t in range(2):
                env = {x: tg.lift(ctx, F(rng.randint(1, 40), rng.randint(1, 7))) for x in names}
                v = tg.value(node, env, ctx)
                zero = v == 0
                if not zero:
                    break
        except ZeroDivisionError:
            continue
        D = tg.degree(node, ctx)
        gens = tuple(sp.Symbol(x) for x in ctx.gens)
        def neg(x):
            return ('add', [(-1, x)]) if rng.random() < .3 else x
        if kind == 'plain':
            t = rng.choice([node, ('add', [(-1, node)])])
        elif kind == 'minus':
            s = rng.choice([1, -1])
            t = ('add', [(s, node), (-s, node)])
        elif kind == 'sum of zeros':
            m = tg.homog(rng, ctx, D, 1, opt) if D >= 0 else node
            t = ('add', [(1, node), (1, m), (-1, node), (-1, m)])
        elif kind == 'factor':
            e = rng.randint(0, 3)
            y = tg.homog(rng, ctx, e, rng.choice([0, 1, 2]), {'div': False})
            D += e
            x = ('add', [(1, node), (-1, node)])
            t = ('mul', [('*', y), ('*', x)] if rng.random() < .5 else [('*', x), ('*', y)])
        else:
            # product minus its expansion:  (x+y)(x-y) - x2 + y2
            x, y = ('var', rng.choice(ctx.gens)), ('var', rng.choice(ctx.gens))
            P, M = ('add', [(1, x), (1, y)]), ('add', [(1, x), (-1, y)])
            inner = ('add', [(1, ('mul', [('*', P), ('*', M)])), (-1, ('pow', x, 2)), (1, ('pow', y, 2))])
            t = ('mul', [('*', node), ('*', inner)])
            D += 2
        text = tg.render(t, rng, ctx)
        if len(text) > 500:
            continue
        info = (kind, text, tuple(ctx.gens), str(G))
        obs.append(info)
        cnt(kind)
        cnt('cyclic', tg.has(t, 'cyc'))
        cnt('param', tg.mentions(t, ctx.params))
        cnt('quotient', tg.has_div(t, ctx))
        got = degree_of_zero(text, gens, G)
        if got != D:
            bad.append(('degree', info, 'formal degree %s, reported %s' % (D, got)))
        if kind == 'plain' and not zero and not tg.has_div(t, ctx):
            p = preprocess_text(text, gens, G)
            if p is not None and not p.is_zero:
                cnt('nonzero polynomials')
                if p.total_degree() != got:
                    bad.append(('total degree', info, 'total degree %s, reported %s' % (p.total_degree(), got)))
    return st, obs, bad


def run(chk):
    n = chk.n(400, 6000)
    for i, j, r in common.pmap(job, ['%d/%d' % (chk.seed, i) for i in range(n)], cpu=60, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('degree_of_zero raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        st, obs, bad = r[1]
        for o in obs:
            chk.observe(o, sample=o)
        for k, v in st.items():
            chk.count(k, v)
        for why, info, det in bad:
            chk.violation(why, {'job': j, 'input': info, 'detail': det}, key=why)
    for k in ('plain', 'minus', 'factor', 'expanded', 'sum of zeros', 'cyclic', 'param'):
        chk.require(k, 100)
    chk.require('quotient', 20)
