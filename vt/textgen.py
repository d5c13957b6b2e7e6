"""Random expressions in the competition notation: syntax tree, renderings, exact value, formal degree.

Nodes:
 ('num', Fraction) ('dec', str) ('var', name) ('sqrt', n)
 ('add', [(sign, node), ...])        sign +1 / -1
 ('mul', [(op, node), ...])          op '*' or '/', read from left to right, first op '*'
 ('pow', node, n)
 ('cyc', 's'|'p', body, style)       style 'call' | 'latex'
"""
from fractions import Fraction as F
from vt.checks.c17 import Q2

LETTERS = 'abcdfghijkmnoqtvwxyze'


class Ctx:
    def __init__(self, gens, params, elements, rd=None):
        self.gens, self.params, self.elements, self.rd = gens, params, elements, rd
        # rd: the radicand used in this expression (None: no square roots)


def lift(ctx, v):
    return Q2(v, 0, ctx.rd) if ctx.rd else F(v)


def value(node, env, ctx):
    t = node[0]
    if t == 'num':
        return lift(ctx, node[1])
    if t == 'dec':
        return lift(ctx, F(node[1]))
    if t == 'var':
        return env[node[1]]
    if t == 'sqrt':
        m, k = node[1]           # sqrt(m*m*rd) or perfect square
        return Q2(0, m, ctx.rd) if k else lift(ctx, F(m))
    if t == 'cbrt':
        return lift(ctx, F(node[1]))
    if t == 'add':
        r = lift(ctx, 0)
        for s, x in node[1]:
            v = value(x, env, ctx)
            r = r + v if s > 0 else r + (-v)
        return r
    if t == 'mul':
        r = lift(ctx, 1)
        for op, x in node[1]:
            v = value(x, env, ctx)
            r = r * v if op == '*' else r / v
        return r
    if t == 'pow':
        v = value(node[1], env, ctx)
        r = lift(ctx, 1)
        for _ in range(abs(node[2])):
            r = r * v
        return r if node[2] >= 0 else lift(ctx, 1) / r
    if t == 'cyc':
        r = lift(ctx, 0 if node[1] == 's' else 1)
        for g in ctx.elements:
            e2 = dict(env)
            for i, nm in enumerate(ctx.gens):
                e2[nm] = env[ctx.gens[g[i]]]
            v = value(node[2], e2, ctx)
            r = r + v if node[1] == 's' else r * v
        return r
    raise ValueError(t)


def degree(node, ctx):
    """Formal degree in the generators (homogeneous trees)."""
    t = node[0]
    if t == 'var':
        return 1 if node[1] in ctx.gens else 0
    if t == 'add':
        return degree(node[1][0][1], ctx)
    if t == 'mul':
        return sum(degree(x, ctx) if op == '*' else -degree(x, ctx) for op, x in node[1])
    if t == 'pow':
        return degree(node[1], ctx) * node[2]
    if t == 'cyc':
        d = degree(node[2], ctx)
        return d if node[1] == 's' else d * len(ctx.elements)
    return 0


def size(node, ctx):
    t = node[0]
    if t in ('add', 'mul'):
        return sum(size(x, ctx) for _, x in node[1])
    if t == 'pow':
        return size(node[1], ctx)
    if t == 'cyc':
        return size(node[2], ctx) * len(ctx.elements)
    return 1


def has_div(node, ctx):
    """Division by (or negative power of) something that contains a generator."""
    t = node[0]
    if t == 'add':
        return any(has_div(x, ctx) for _, x in node[1])
    if t == 'mul':
        return any(has_div(x, ctx) or (op == '/' and mentions(x, ctx.gens)) for op, x in node[1])
    if t == 'pow':
        return has_div(node[1], ctx) or (node[2] < 0 and mentions(node[1], ctx.gens))
    if t == 'cyc':
        return has_div(node[2], ctx)
    return False


def mentions(node, names):
    t = node[0]
    if t == 'var':
        return node[1] in names
    if t in ('add', 'mul'):
        return any(mentions(x, names) for _, x in node[1])
    if t == 'pow':
        return mentions(node[1], names)
    if t == 'cyc':
        return mentions(node[2], names)
    return False


def has(node, kind):
    if node[0] == kind:
        return True
    t = node[0]
    if t in ('add', 'mul'):
        return any(has(x, kind) for _, x in node[1])
    if t == 'pow':
        return has(node[1], kind)
    if t == 'cyc':
        return has(node[2], kind)
    return False


# ---------------------------------------------------------------- generation
def rnum(rng, opt):
    k = rng.random()
    if opt.get('dec') and k < .3:
        return ('dec', rng.choice(['0.5', '1.25', '2.0', '0.1', '3.75', '0.123', '10.5']))
    if k < .75:
        return ('num', F(rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 25, 100, 123])))
    return ('mul', [('*', ('num', F(rng.randint(1, 30)))), ('/', ('num', F(rng.randint(2, 13))))])


def atom(rng, ctx, opt):
    k = rng.random()
    if ctx.params and k < .12:
        return ('var', rng.choice(ctx.params))
    if opt.get('cbrt') and k < .2:
        return ('cbrt', rng.randint(1, 4))
    if ctx.rd and k < .3:
        return ('sqrt', (rng.randint(1, 3), rng.random() < .85))
    if k < .45:
        return rnum(rng, opt)
    return ('var', rng.choice(ctx.gens))


def const(rng, ctx, opt, depth=1):
    """Nonzero constants (possibly with parameters) for homogeneous trees."""
    k = rng.random()
    if ctx.params and k < .3:
        p = ('var', rng.choice(ctx.params))
        if rng.random() < .5:
            return ('add', [(1, p), (rng.choice([1, -1]), ('num', F(rng.randint(1, 5))))])
        return p
    if ctx.rd and k < .5:
        q = ('sqrt', (rng.randint(1, 3), True))
        if rng.random() < .5:
            return ('add', [(1, q), (rng.choice([1, -1]), ('num', F(rng.randint(1, 5))))])
        return q
    return rnum(rng, opt)


def rand(rng, ctx, depth, opt):
    """A random (in general inhomogeneous) tree."""
    if depth <= 0:
        return atom(rng, ctx, opt)
    k = rng.random()
    if k < .3:
        n = rng.choice([2, 2, 3, 4])
        return ('add', [(rng.choice([1, 1, -1]), rand(rng, ctx, depth - 1, opt)) for _ in range(n)])
    if k < .62:
        n = rng.choice([2, 2, 3, 4])
        out = []
        for i in range(n):
            op = '*' if i == 0 or rng.random() < (.8 if opt.get('div') else .9) else '/'
            if op == '/' and not opt.get('div'):
                x = ('num', F(rng.randint(2, 9)))
            else:
                x = rand(rng, ctx, depth - 1 - (rng.random() < .5), opt)
            out.append((op, x))
        return ('mul', out)
    if k < .8:
        n = rng.choice([2, 2, 2, 3, 3, 4, 5, 1, 0] + ([-1, -2] if opt.get('div') else []))
        return ('pow', rand(rng, ctx, depth - 1 - (rng.random() < .6), opt), n)
    if opt.get('cyc', True):
        kind = rng.choice('ssp')
        style = rng.choice(['call', 'call', 'latex'])
        if kind == 'p' and len(ctx.elements) > 4:
            return ('cyc', 'p', rand(rng, ctx, 0, opt), style)
        return ('cyc', kind, rand(rng, ctx, depth - 1, dict(opt, cyc=rng.random() < .35)), style)
    return rand(rng, ctx, depth - 1, opt)


def monomial(rng, ctx, d):
    """product of d generators as a tree"""
    if d == 0:
        return ('num', F(1))
    e = {}
    for _ in range(d):
        g = rng.choice(ctx.gens)
        e[g] = e.get(g, 0) + 1
    out = []
    for g, n in e.items():
        out.append(('*', ('var', g) if n == 1 else ('pow', ('var', g), n)))
    rng.shuffle(out)
    return out[0][1] if len(out) == 1 else ('mul', out)


def homog(rng, ctx, d, depth, opt):
    """A homogeneous tree of formal degree d >= 0 with nonzero constants."""
    if d == 0:
        return const(rng, ctx, opt)
    if depth <= 0:
        m = monomial(rng, ctx, d)
        if rng.random() < .4:
            return ('mul', [('*', const(rng, ctx, opt)), ('*', m)])
        return m
    k = rng.random()
    ne = len(ctx.elements)
    if k < .35:
        n = rng.choice([2, 2, 3])
        return ('add', [(rng.choice([1, 1, -1]), homog(rng, ctx, d, depth - 1, opt)) for _ in range(n)])
    if k < .6:
        e = rng.randint(0, d)
        parts = [('*', homog(rng, ctx, e, depth - 1, opt)), ('*', homog(rng, ctx, d - e, depth - 1, opt))]
        if opt.get('div') and rng.random() < .4:
            f = rng.randint(0, 2)
            parts = [('*', homog(rng, ctx, e + f, depth - 1, opt)), ('*', homog(rng, ctx, d - e, depth - 1, opt)),
                     ('/', homog(rng, ctx, f, depth - 1, opt))]
        return ('mul', parts)
    if k < .72 and d >= 2:
        for n in rng.sample([2, 3, 4], 3):
            if d % n == 0:
                return ('pow', homog(rng, ctx, d // n, depth - 1, opt), n)
    if opt.get('cyc', True):
        style = rng.choice(['call', 'call', 'latex'])
        if d % ne == 0 and ne <= 4 and rng.random() < .5:
            return ('cyc', 'p', homog(rng, ctx, d // ne, depth - 1, dict(opt, cyc=False)), style)
        return ('cyc', 's', homog(rng, ctx, d, depth - 1, dict(opt, cyc=False)), style)
    return homog(rng, ctx, d, depth - 1, opt)


# ---------------------------------------------------------------- rendering
class Style:
    def __init__(self, rng):
        self.rng = rng
        self.spaces = rng.random() < .3
        self.latex = rng.random() < .5
        self.star = rng.choice([0, 0, .3, 1])      # probability of an explicit *
        self.caret = rng.choice([0, 0, .3, 1])     # probability of an explicit ^
        self.dollar = rng.random() < .1
        self.upper = rng.random() < .1


def render(node, rng, ctx=None):
    st = Style(rng)
    s = r_add(node, st, ctx)
    if st.dollar:
        s = '$' + s + '$'
    if st.upper:
        s = ''.join(ch.upper() if rng.random() < .5 else ch for ch in s)
    return s


def paren(s, st):
    if st.latex and st.rng.random() < .4:
        return '\\left(' + s + '\\right)'
    return '(' + s + ')'


def sp_(st):
    return ' ' * st.rng.randint(0, 2) if st.spaces else ''


def r_add(node, st, ctx):
    """anything, at the top level of a bracket"""
    if node[0] != 'add':
        return r_term(node, st, ctx)
    out = ''
    for i, (s, x) in enumerate(node[1]):
        if i == 0:
            out += '-' if s < 0 else ''
        else:
            out += sp_(st) + ('+' if s > 0 else '-') + sp_(st)
        if x[0] == 'add':
            out += paren(r_add(x, st, ctx), st)
        else:
            out += r_term(x, st, ctx)
    return out


def r_term(node, st, ctx):
    """a product; the text can be followed by + or - or ) or the end"""
    if node[0] == 'mul':
        fs = node[1]
    else:
        fs = [('*', node)]
    # a mul as the first factor needs no brackets; elsewhere it does after '/'
    out = ''
    i = 0
    n = len(fs)
    while i < n:
        op, x = fs[i]
        last = i == n - 1
        # numerator/denominator pair written as a fraction:  ... * x / y  with y right after x
        if st.latex and op == '*' and not last and fs[i + 1][0] == '/' and st.rng.random() < .6:
            txt = '\\frac{' + r_add(x, st, ctx) + '}{' + r_add(fs[i + 1][1], st, ctx) + '}'
            out += joiner(out, txt, st) + txt
            i += 2
            continue
        if x[0] == 'cyc' and x[3] == 'latex' and last:
            body = x[2]
            b = paren(r_add(body, st, ctx), st) if body[0] == 'add' else r_term(body, st, ctx)
            txt = ('\\sum' if x[1] == 's' else '\\prod') + ' ' + b
            out += ('/' if op == '/' else joiner(out, 's', st)) + txt
        else:
            txt = r_factor(x, st, ctx)
            if op == '/':
                out += sp_(st) + '/' + sp_(st) + txt
            else:
                out += joiner(out, txt, st) + txt
        i += 1
    return out


def joiner(left, right, st):
    if not left:
        return ''
    r0 = right[0]
    if r0.isdigit() or r0 == '.':
        return '*'
    if st.rng.random() < st.star:
        return sp_(st) + '*' + sp_(st)
    return ''


def r_factor(node, st, ctx):
    t = node[0]
    if t == 'num':
        v = node[1]
        return str(v) if v.denominator == 1 and v >= 0 else paren(str(v), st)
    if t == 'dec':
        return node[1]
    if t == 'var':
        return node[1]
    if t == 'cbrt':
        return 'cbrt(%d)' % node[1] ** 3
    if t == 'sqrt':
        m, k = node[1]
        return '%ssqrt(%d)' % ('\\' if st.latex and st.rng.random() < .3 else '', m * m * (ctx.rd if k else 1))
    if t == 'pow':
        x, n = node[1], node[2]
        if x[0] == 'var':
            b = x[1]
        elif x[0] in ('num', 'dec') and x[1] != 0:
            b = r_factor(x, st, ctx)
        elif x[0] == 'cyc':
            b = r_call(x, st, ctx)
        elif x[0] in ('sqrt', 'cbrt'):
            b = r_factor(x, st, ctx).replace('\\', '')
        else:
            b = paren(r_add(x, st, ctx), st)
        need = b[-1].isdigit() or n < 0
        k = st.rng.random()
        if n < 0:
            return b + st.rng.choice(['^{%d}', '^(%d)', '**(%d)']) % n
        if st.latex and k < .3:
            return b + '^{%d}' % n
        if need or k < .3 + .7 * st.caret:
            return b + st.rng.choice(['^', '**', '^']) + str(n)
        return b + str(n)
    if t == 'cyc':
        return r_call(node, st, ctx)
    return paren(r_add(node, st, ctx), st)


def r_call(node, st, ctx):
    return node[1] + paren(r_add(node[2], st, ctx), st)
