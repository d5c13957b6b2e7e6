"""C12 text in competition notation is parsed to exactly the polynomial / fraction it denotes."""
import ast, random, re, os, tempfile
from fractions import Fraction as F
import sympy as sp
from gmpy2 import mpq
from vt import common, textgen as tg, evalx
common.use_repo()

RULE = ('random syntax trees (numbers, letters, parameters, sums, quotients, powers, cyclic sums/products, surds, decimals) rendered in '
        'every supported spelling (juxtaposition, omitted carets, **, ^{}, spaces, upper case, $, \\left\\right, \\frac, \\sum, \\prod), '
        'random generators and permutation groups; the value of the tree at random rational points, computed by an independent '
        'interpreter, against the value of what the parser returns in every return type')


def make_ctx(rng, div):
    from vt.checks.c09 import groups
    n = rng.choice([1, 2, 3, 3, 3, 4])
    letters = [x for x in tg.LETTERS]
    rng.shuffle(letters)
    if rng.random() < .4:
        letters = list('abcdexyz')
        if rng.random() < .3:
            letters = list('xyzwabc')
    gens = letters[:n]
    params = letters[n:n + rng.choice([0, 0, 1, 2])]
    from sympy.combinatorics import CyclicGroup, SymmetricGroup, PermutationGroup, Permutation
    k = rng.random()
    if k < .5:
        G = None
        els = evalx.group_elements(CyclicGroup(n))
    elif k < .7:
        G = SymmetricGroup(n)
        els = evalx.group_elements(G)
    else:
        G = groups(rng, n)
        if G.degree != n:
            G = CyclicGroup(n)
        els = evalx.group_elements(G)
    if len(els) > 6:
        G, els = None, evalx.group_elements(CyclicGroup(n))
    rd = rng.choice([2, 3, 5]) if rng.random() < .25 else None
    return tg.Ctx(gens, params, els, rd), G


def to_sp(v):
    if isinstance(v, tg.Q2):
        return v.sp()
    return sp.Rational(v.numerator, v.denominator)


def eval_text(text, env, ctx):
    """value of the 'text' form by Python's own precedence rules"""
    t = text.replace('^', '**').replace('sqrt', 'SQ')
    node = ast.parse(t, mode='eval').body

    def ev(x):
        if isinstance(x, ast.Constant):
            return tg.lift(ctx, F(repr(x.value)) if isinstance(x.value, float) else F(x.value))
        if isinstance(x, ast.Name):
            return env[x.id]
        if isinstance(x, ast.Call):
            n = x.args[0].value
            if x.func.id == 'cbrt':
                return tg.lift(ctx, round(n ** (1 / 3)))
            if ctx.rd:
                r = int((n // ctx.rd) ** .5)
                if r * r * ctx.rd == n:
                    return tg.Q2(0, r, ctx.rd)
            r = int(n ** .5 + .5)
            assert r * r == n
            return tg.lift(ctx, r)
        if isinstance(x, ast.UnaryOp):
            v = ev(x.operand)
            return v if isinstance(x.op, ast.UAdd) else -v
        if isinstance(x, ast.BinOp):
            if isinstance(x.op, ast.Pow):
                b = ev(x.left)
                n = ev(x.right)
                n = int(n.a if isinstance(n, tg.Q2) else n)
                r = tg.lift(ctx, 1)
                for _ in range(abs(n)):
                    r = r * b
                return r if n >= 0 else tg.lift(ctx, 1) / r
            a, b = ev(x.left), ev(x.right)
            if isinstance(x.op, ast.Add):
                return a + b
            if isinstance(x.op, ast.Sub):
                return a + (-b)
            if isinstance(x.op, ast.Mult):
                return a * b
            if isinstance(x.op, ast.Div):
                return a / b
        raise ValueError(ast.dump(x))
    return ev(node)


def close(expected, got, approx):
    """expected exact; got a sympy number"""
    if approx:
        e = float(sp.N(to_sp(expected), 30))
        try:
            g = complex(sp.N(got, 30))
        except Exception:
            return False
        return abs(e - g) <= 1e-9 * (1 + abs(e))
    d = sp.radsimp(sp.expand(got - to_sp(expected))) if not got.is_Rational else got - to_sp(expected)
    if d == 0:
        return True
    if d.is_Rational:
        return False
    return abs(sp.N(d, 60)) < sp.Float(10) ** -45 * (1 + abs(sp.N(to_sp(expected), 20)))


def small(expected, got, ex, sub):
    """decimal literals are read as floats: allow the rounding error of the cancelling terms"""
    tot = sum(abs(complex(sp.N(t.subs(sub), 20))) for t in sp.Add.make_args(sp.expand(ex)))
    return abs(complex(sp.N(got, 20)) - float(sp.N(to_sp(expected), 30))) <= 1e-10 * tot


def job(seed):
    from triples.utils.text_process import preprocess_text
    rng = random.Random(seed)
    out, obs = [], []
    st = {'texts': 0, 'points': 0, 'poly': 0, 'frac': 0, 'expr': 0, 'text': 0, 'surd': 0, 'param': 0, 'group': 0, 'cyc': 0, 'latex': 0,
          'decimal': 0, 'skipped': 0, 'sci': 0}
    for _ in range(6):
        div = rng.random() < .45
        ctx, G = make_ctx(rng, div)
        opt = {'div': div, 'dec': rng.random() < .12 and not ctx.rd, 'cbrt': rng.random() < .08}
        for _t in range(30):
            node = tg.rand(rng, ctx, rng.choice([1, 2, 2, 3, 3, 4]), opt)
            if 2 <= tg.size(node, ctx) <= 60:
                break
        else:
            continue
        names = ctx.gens + ctx.params

        def point():
            return {x: tg.lift(ctx, F(rng.choice([-1, 1]) * rng.randint(1, 9), rng.choice([1, 1, 2, 3]))) for x in names}
        pts = []
        for _t in range(6):
            env = point()
            try:
                pts.append((env, tg.value(node, env, ctx)))
            except ZeroDivisionError:
                continue
            if len(pts) >= 2:
                break
        if len(pts) < 2:
            st['skipped'] += 1
            continue
        text = tg.render(node, rng, ctx)
        if len(text) > 400:
            st['skipped'] += 1
            continue
        gens = tuple(sp.Symbol(x) for x in ctx.gens)
        approx = tg.has(node, 'dec')
        sci = 'e' not in names and rng.random() < .1
        kw = dict(gens=gens, perm=G, scientific_notation=sci, preserve_cbrt=opt['cbrt'])
        if sci and rng.random() < .7:
            k, ex = rng.randint(1, 30), rng.choice([0, 1, 2, 3])
            text = '%de%d*(%s)+%s' % (k, ex, text, text) if rng.random() < .5 else '(%s)*%de%d+%s' % (text, k, ex, text)
            pts = [(e, v * (k * 10 ** ex + 1)) for e, v in pts]
            approx = True
            st['sci'] += 1
        st['texts'] += 1
        obs.append((text, ctx.gens, str(G)))
        st['surd'] += bool(ctx.rd) and tg.has(node, 'sqrt')
        st['param'] += tg.mentions(node, ctx.params)
        st['group'] += G is not None
        st['cyc'] += tg.has(node, 'cyc')
        st['latex'] += '\\' in text
        st['decimal'] += approx
        types = ['expr', 'text', 'frac']
        hd = tg.has_div(node, ctx)
        if not hd:
            types.append('poly')
        for ty in types:
            if ty == 'frac' and (ctx.rd and hd and tg.size(node, ctx) > 12):
                continue
            info = (ty, text, ctx.gens, str(G))
            r = preprocess_text(text, return_type=ty, **kw)
            st[ty] += 1
            if ty == 'text':
                for env, v in pts[:1]:
                    try:
                        got = eval_text(r, env, ctx)
                    except KeyError:
                        out.append((ty, 'foreign symbols', info, r[:300]))
                        continue
                    st['points'] += 1
                    if approx:
                        ok = close(v, to_sp(got), True)
                    else:
                        ok = got == v
                    if not ok:
                        out.append((ty, 'value differs', info, r[:300]))
                continue
            if ty == 'poly':
                if r is None or not isinstance(r, sp.Poly):
                    out.append((ty, 'no polynomial returned', info, repr(r)[:100]))
                    continue
                if r.gens != gens:
                    out.append((ty, 'wrong generators', info, str(r.gens)))
                    continue
                if not approx and any(c.has(sp.Float) for c in r.coeffs()):
                    out.append((ty, 'inexact coefficients', info, str(r)[:300]))
                    continue
                ex = r.as_expr()
            elif ty == 'frac':
                if r[0] is None or r[1] is None:
                    out.append((ty, 'no fraction returned', info, repr(r)[:100]))
                    continue
                if r[0].gens != gens or r[1].gens != gens:
                    out.append((ty, 'wrong generators', info, str(r[0].gens)))
                    continue
                ex = None
            else:
                ex = r
            for env, v in pts:
                sub = {sp.Symbol(x): to_sp(env[x]) for x in names}
                st['points'] += 1
                if ty == 'frac':
                    a, b = r[0].as_expr().subs(sub), r[1].as_expr().subs(sub)
                    if b == 0 or sp.N(b, 30) == 0:
                        continue   # a common zero of a cancelled fraction can not arise here, but a pole of parts can
                    got = a / b
                else:
                    got = ex.subs(sub)
                if got.free_symbols:
                    out.append((ty, 'foreign symbols', info, str(got)[:200]))
                    break
                if not close(v, got, approx) and not (approx and small(v, got, r[0].as_expr() if ty == 'frac' else ex, sub)):
                    out.append((ty, 'value differs', info, 'at %s expected %s got %s' % ({k: str(to_sp(x)) for k, x in env.items()}, to_sp(v), got)))
                    break
    # the reader: order, blank lines, broken lines
    if rng.random() < .3:
        out += reader(rng, st)
    return st, obs, out


def reader(rng, st):
    from triples.utils.text_process import PolyReader
    out = []
    a, b, c = sp.symbols('a b c')
    good = [('a2+b2', a**2 + b**2), ('s(a3)-3abc', a**3 + b**3 + c**3 - 3*a*b*c), ('p(a-b)', (a-b)*(b-c)*(c-a)), ('s(ab(a-b)2)', a*b*(a-b)**2 + b*c*(b-c)**2 + c*a*(c-a)**2)]
    lines, exp = [], []
    bad = rng.random() < .5
    for _ in range(rng.randint(1, 8)):
        k = rng.random()
        if k < .2:
            lines.append(rng.choice(['', '   ', '\t']))
        elif k < .35 and bad:
            lines.append(rng.choice(['a+*b', 'a+(', '2++*', 'a)b(']))
            exp.append(None)
        elif k < .5:
            p = sp.Poly(rng.choice(good)[1], a, b, c)
            lines.append(p)
            exp.append(p)
        else:
            t, e = rng.choice(good)
            lines.append(t if rng.random() < .5 else '  ' + t + ' ')
            exp.append(sp.Poly(e, a, b, c))
    usefile = all(isinstance(x, str) for x in lines) and rng.random() < .7
    if usefile:
        f = tempfile.NamedTemporaryFile('w', suffix='.txt', delete=False)
        f.write('\n'.join(lines) + '\n')
        f.close()
        src = f.name
    else:
        src = lines
    try:
        R = PolyReader(src, ignore_errors=True)
        if len(R) != len(exp):
            out.append(('reader', 'length', (lines,), '%s != %s' % (len(R), len(exp))))
        got = list(R)
        st['reader'] = st.get('reader', 0) + 1
        if got != exp:
            out.append(('reader', 'polynomials differ', (lines,), '%s, expected %s' % (got, exp)))
        # without ignore_errors: the polynomials before the first broken line, then ValueError
        R = PolyReader(src, ignore_errors=False)
        got, err = [], False
        try:
            for x in R:
                got.append(x)
        except ValueError:
            err = True
        if None in exp:
            k = exp.index(None)
            # a broken line may also be reported as None by the polynomial converter, never as a polynomial
            if got[:k] != exp[:k] or any(isinstance(x, sp.Poly) for x in got[k:k + 1]):
                out.append(('reader', 'strict mode', (lines,), '%s, expected %s' % (got, exp)))
        elif err or got != exp:
            out.append(('reader', 'strict mode', (lines,), '%s, expected %s' % (got, exp)))
    finally:
        if usefile:
            os.unlink(src)
    return out


def run(chk):
    n = chk.n(400, 6000)
    for i, j, r in common.pmap(job, ['%d/%d' % (chk.seed, i) for i in range(n)], cpu=60, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('the parser raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        st, obs, bad = r[1]
        for o in obs:
            chk.observe(o, sample=o)
        for k, v in st.items():
            chk.count(k, v)
        for ty, why, info, det in bad:
            chk.violation('%s: %s' % (ty, why), {'job': j, 'input': info, 'detail': det}, key='%s:%s' % (ty, why))
    chk.require('texts', 700)
    chk.require('points', 2000)
    for k in ('poly', 'frac', 'text', 'expr', 'surd', 'param', 'group', 'cyc', 'latex', 'reader'):
        chk.require(k, 10)
