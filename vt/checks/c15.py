"""C15 every rendering of a solution denotes the solution."""
import random
import re
from fractions import Fraction
import sympy as sp
from sympy import Rational as R
from gmpy2 import mpq
from .. import common
from ..evalx import Evaluator, group_elements, Undefined, NotEvaluable, same, rnd_rational, vadd, vmul, vpow, mix, tofloat
import mpmath

RULE = ('random solutions (sums of products of nested cyclic sums/products over one group, surds, denominators, large exponents) and '
        'real solver outputs; every view (str_latex, str_txt, str_formatted, to_string in 3 modes with/without together and cancel, '
        'as_eq, as_fraction, dehomogenize) is read back by an independent parser of the three notations and evaluated at exact points: '
        'right over left-hand factor must equal the solution, and the equality sign must agree with the exact identity')
ASSUMPTIONS = ['in the text and LaTeX views a sum or product sign governs the factors up to the next sign, + or - or closing bracket']

SUP = {c: str(i) for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}


class ReadError(Exception):
    pass


def tokenize(s, mode):
    """-> list of tokens: ('n', str) ('v', letter) ('op', ch) ('big', 's'|'p', call?) ('sqrt',) ('frac',) ('f',)"""
    out = []
    if mode == 'latex':
        s = s.strip('$')
        s = re.sub(r'\\begin\{aligned\}|\\end\{aligned\}', ' ', s)
        s = s.replace('\\\\', ' ').replace('&', ' ')
        s = s.replace('\\left(', '(').replace('\\right)', ')').replace('\\cdot', '*').replace('\\approx', '≈')
        s = re.sub(r'_\{\\mathrm\{[a-z]+\}\}', '', s)
    i = 0
    while i < len(s):
        ch = s[i]
        if ch.isspace():
            i += 1
        elif ch in '0123456789':
            m = re.match(r'\d+(\.\d+)?', s[i:])
            out.append(('n', m.group(0)))
            i += m.end()
        elif ch in SUP:
            j = i
            t = ''
            while j < len(s) and s[j] in SUP:
                t += SUP[s[j]]
                j += 1
            out.append(('op', '^'))
            out.append(('n', t))
            i = j
        elif s.startswith('**', i):
            out.append(('op', '^'))
            i += 2
        elif mode == 'latex' and ch == '\\':
            m = re.match(r'\\(sum|prod|sqrt|frac)', s[i:])
            if not m:
                raise ReadError('latex command ' + s[i:i + 20])
            w = m.group(1)
            out.append({'sum': ('big', 's', False), 'prod': ('big', 'p', False), 'sqrt': ('sqrt',), 'frac': ('frac',)}[w])
            i += m.end()
        elif s.startswith('f(', i):
            j = s.index(')', i)
            out.append(('f', s[i:j + 1]))
            i = j + 1
        elif s.startswith('sqrt', i):
            out.append(('sqrt',))
            i += 4
        elif ch in 'Σ∏':
            out.append(('big', 's' if ch == 'Σ' else 'p', False))
            i += 1
        elif ch in 'sp' and mode == 'formatted':
            out.append(('big', ch, True))
            i += 1
        elif ch.isalpha():
            out.append(('v', ch))
            i += 1
        elif ch in '+-*/^(){}=≈':
            out.append(('op', {'{': '(', '}': ')'}.get(ch, ch)))
            i += 1
        else:
            raise ReadError('character %r' % ch)
    return out


class Reader:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('end',)

    def isop(self, ch, k=0):
        return self.peek(k) == ('op', ch)

    def take(self, ch):
        if not self.isop(ch):
            raise ReadError('expected %s at %s' % (ch, self.t[self.i:self.i + 5]))
        self.i += 1

    def side(self):
        e = self.expr()
        return e

    def expr(self):
        terms = []
        sign = 1
        while self.isop('+') or self.isop('-'):
            if self.isop('-'):
                sign = -sign
            self.i += 1
        terms.append((sign, self.term()))
        while self.isop('+') or self.isop('-'):
            sign = 1
            while self.isop('+') or self.isop('-'):
                if self.isop('-'):
                    sign = -sign
                self.i += 1
            terms.append((sign, self.term()))
        return ('add', terms)

    def starts_big_group(self):
        return self.isop('(') and self.peek(1)[0] == 'big' and not self.peek(1)[2]

    def term(self, inbody=False):
        fs = []
        op = '*'
        while True:
            p = self.peek()
            if p[0] == 'big' and not p[2]:
                if inbody and fs:
                    break
                self.i += 1
                fs.append((op, ('cyc', p[1], self.term(inbody=True))))
                op = '*'
                if inbody:
                    break
                continue
            if inbody and p[0] == 'f':
                break
            if inbody and fs and self.starts_big_group() and op == '*':
                break
            if p[0] in ('n', 'v', 'f', 'sqrt', 'frac', 'big') or self.isop('('):
                fs.append((op, self.power()))
                op = '*'
            elif self.isop('*') or self.isop('/'):
                if inbody and self.isop('*') and (self.peek(1)[0] == 'big' or (self.isop('(', 1) and self.peek(2)[0] == 'big' and not self.peek(2)[2])):
                    break
                op = self.peek()[1]
                self.i += 1
            else:
                break
        if not fs:
            raise ReadError('empty term at %s' % (self.t[self.i:self.i + 5],))
        return ('mul', fs)

    def power(self):
        b = self.atom()
        while self.isop('^'):
            self.i += 1
            if self.isop('('):
                self.i += 1
                e = self.expr()
                self.take(')')
            elif self.isop('-'):
                self.i += 1
                e = ('add', [(-1, ('mul', [('*', self.atom())]))])
            else:
                e = self.atom()
            b = ('pow', b, e)
        return b

    def atom(self):
        p = self.peek()
        self.i += 1
        if p[0] == 'n':
            return ('num', mpq(Fraction(p[1])))
        if p[0] == 'v':
            return ('var', p[1])
        if p[0] == 'f':
            return ('f', p[1])
        if p[0] == 'sqrt':
            self.take('(')
            e = self.expr()
            self.take(')')
            return ('sqrt', e)
        if p[0] == 'frac':
            self.take('(')
            a = self.expr()
            self.take(')')
            self.take('(')
            b = self.expr()
            self.take(')')
            return ('mul', [('*', a), ('/', b)])
        if p[0] == 'big':
            self.take('(')
            e = self.expr()
            self.take(')')
            return ('cyc', p[1], e)
        if p == ('op', '('):
            e = self.expr()
            self.take(')')
            return e
        raise ReadError('unexpected %s' % (p,))


class Val:
    def __init__(self, gens, els, fval):
        self.gens, self.els, self.fval = [str(g) for g in gens], els, fval

    def ev(self, x, env):
        t = x[0]
        if t == 'num':
            return x[1]
        if t == 'var':
            if x[1] not in env:
                raise ReadError('unknown symbol ' + x[1])
            return env[x[1]]
        if t == 'f':
            if self.fval is None:
                raise ReadError('f inside')
            return self.fval
        if t == 'add':
            r = mpq(0)
            for s, y in x[1]:
                v = self.ev(y, env)
                r = vadd(r, v if s > 0 else vmul(mpq(-1), v))
            return r
        if t == 'mul':
            r = mpq(1)
            for op, y in x[1]:
                v = self.ev(y, env)
                r = vmul(r, v if op == '*' else vpow(v, -1))
            return r
        if t == 'pow':
            e = self.ev(x[2], env)
            b = self.ev(x[1], env)
            if e.denominator != 1:
                return mpmath.mpf(tofloat(b)) ** tofloat(e)
            return vpow(b, int(e))
        if t == 'sqrt':
            v = self.ev(x[1], env)
            return mpmath.sqrt(tofloat(v))
        if t == 'cyc':
            r = mpq(0 if x[1] == 's' else 1)
            for g in self.els:
                e2 = dict(env)
                for i, nm in enumerate(self.gens):
                    e2[nm] = env[self.gens[g[i]]]
                v = self.ev(x[2], e2)
                r = vadd(r, v) if x[1] == 's' else vmul(r, v)
            return r
        raise ReadError(t)


def read_sides(text, mode):
    toks = tokenize(text, mode)
    eqs = [i for i, t in enumerate(toks) if t in (('op', '='), ('op', '≈'))]
    if len(eqs) != 1:
        raise ReadError('%d equality signs' % len(eqs))
    k = eqs[0]
    sides = []
    for part in (toks[:k], toks[k + 1:]):
        r = Reader(part)
        e = r.expr()
        if r.peek()[0] != 'end':
            raise ReadError('trailing %s' % (part[r.i:r.i + 5],))
        sides.append(e)
    return sides[0], toks[k][1], sides[1]


# ------------------------------------------------------------------ random solutions
def rpoly(rng, gens, lin=False):
    n = rng.choice([2, 2, 3])
    out = 0
    for _ in range(n):
        m = rng.choice(gens)
        for _k in range(0 if lin else rng.choice([0, 0, 1, 1, 2])):
            m = m * rng.choice(gens)
        out += rng.choice([1, 1, -1, 2, -3, R(1, 2), R(5, 3)] + ([sp.sqrt(2)] if rng.random() < .15 else [])) * m
    return out


def body(rng, gens, S, P, depth):
    out = rng.choice([1, 1, 2, R(3, 2)])
    for _ in range(rng.choice([0, 1, 1, 2])):
        out = out * rng.choice(gens) ** rng.choice([1, 1, 2, 3])
    if rng.random() < .75:
        q = rpoly(rng, gens)
        if depth and rng.random() < .35:
            q = q + rng.choice(gens) * S(body(rng, gens, S, P, 0))
        out = out * q ** rng.choice([1, 2, 2, 2, 4])
    if rng.random() < .08:
        out = out / rpoly(rng, gens, True) ** 2
    return out


def term(rng, gens, S, P, frac):
    out = rng.choice([1, 1, 2, 3, 7, R(1, 2), R(4, 7), sp.sqrt(3), 12])
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        if k < .45:
            out = out * S(body(rng, gens, S, P, 1)) ** rng.choice([1, 1, 1, 2])
        elif k < .6:
            out = out * P(rng.choice([rng.choice(gens), rpoly(rng, gens, True), rng.choice(gens) ** 2])) ** rng.choice([1, 1, 2, 3, 10, 12, 20, 25, 100] if rng.random() < .2 else [1, 1, 2])
        elif k < .8:
            out = out * rng.choice(gens) ** rng.choice([1, 1, 2, 11, 20, 31] if rng.random() < .3 else [1, 2])
        else:
            out = out * rpoly(rng, gens) ** 2
    if frac and rng.random() < .3:
        out = out / rng.choice([S(rng.choice(gens)), P(rpoly(rng, gens, True)), rng.choice(gens), rpoly(rng, gens, True) ** 2, S(rng.choice(gens) * rng.choice(gens))])
    return out


def solution_expr(rng, gens, G):
    from triples.utils.expression import CyclicSum, CyclicProduct
    S = lambda e: CyclicSum(e, gens, G)
    P = lambda e: CyclicProduct(e, gens, G)
    frac = rng.random() < .5
    out = sum((term(rng, gens, S, P, frac) for _ in range(rng.choice([1, 2, 2, 3, 4]))), sp.Integer(0))
    if rng.random() < .25:
        out = out * S(body(rng, gens, S, P, 0)) * rng.choice([1, R(1, 2), 3])
    if rng.random() < .4:
        out = out / rng.choice([S(rng.choice(gens)), P(rpoly(rng, gens, True)), S(rng.choice(gens) ** 2) * P(rng.choice(gens)), 3 * rng.choice(gens)])
    return out


def negated(e):
    """a product with a negative coefficient that contains a sum or product sign: sympy's text printers drop the
    brackets around the signs in this case (recorded finding)"""
    from triples.utils.expression import CyclicExpr
    for x in sp.preorder_traversal(e):
        if isinstance(x, sp.Mul) and any(isinstance(y, CyclicExpr) for y in x.args) and sp.sympify(x.as_coeff_Mul()[0]).is_negative:
            return True
    return False


def check_views(*a):
    with mpmath.workdps(90):
        return check_views_(*a)


def check_views_(sol, gens, els, rng, equal, tag):
    """equal: True/False when known, else None.  Returns (observations, violations)"""
    obs, bad = [], []
    prob = sol.problem.as_expr()
    expr = sol.solution
    free = sorted(expr.free_symbols | prob.free_symbols | set(gens), key=str)
    pts = []
    for _ in range(12):
        env = {g: rnd_rational(rng, 1, 9) for g in free}
        try:
            v = Evaluator(env)(expr)
            p = Evaluator(env)(prob)
        except (Undefined, NotEvaluable):
            continue
        if p == 0 or v == 0:
            continue
        pts.append(({str(k): x for k, x in env.items()}, env, v, p))
        if len(pts) >= 2:
            break
    if len(pts) < 2:
        return obs, bad
    views = []
    for nm, mode in (('str_latex', 'latex'), ('str_txt', 'txt'), ('str_formatted', 'formatted')):
        views.append((nm, mode, True, lambda nm=nm: getattr(sol, nm)))
    if rng.random() < .3:
        from triples.utils.expression.solution import Solution
        base = Solution(problem=sol.problem, solution=expr)
        for nm, mode in (('str_latex', 'latex'), ('str_txt', 'txt'), ('str_formatted', 'formatted')):
            views.append(('base ' + nm, mode, False, lambda nm=nm, base=base: getattr(base, nm)))
    for mode in ('latex', 'txt', 'formatted'):
        tg, cn = rng.random() < .7, rng.random() < .7
        views.append(('to_string %s together=%s cancel=%s' % (mode, tg, cn), mode, False, lambda mode=mode, tg=tg, cn=cn: sol.to_string(mode, together=tg, cancel=cn)))
    for nm, mode, fname, get in views:
        text = get()
        obs.append((tag, nm, text[:300]))
        det = {'solution': str(expr)[:400], 'gens': str(gens), 'text': text[:500]}
        try:
            L, sign, Rr = read_sides(text, mode)
        except ReadError as e:
            bad.append((nm.replace('base ', 'base_').split(' ')[0] + ' is not readable', dict(det, why=str(e))))
            continue
        if fname and sign == '=' and equal is False:
            bad.append((nm + ' claims equality', det))
        if fname and sign != '=' and equal is True:
            bad.append((nm + ' denies equality', det))
        for senv, env, v, p in pts:
            with mpmath.workdps(90):
                try:
                    l = Val(gens, els, p).ev(L, senv)
                    r = Val(gens, els, None).ev(Rr, senv)
                except ReadError as e:
                    bad.append((nm.replace('base ', 'base_').split(' ')[0] + ' is not readable', dict(det, why=str(e))))
                    break
                except Undefined:
                    continue
                # l = m*p, r = m*v   ->   l*v == r*p
                if not same(vmul(l, v), vmul(r, p)):
                    what = nm.replace('base ', 'base_').split(' ')[0] + ' denotes something else'
                    if mode != 'formatted' and (negated(expr) or negated(sol.as_eq(together=True, cancel=True).rhs)):
                        what = 'negated-product'
                    bad.append((what, dict(det, at=str(senv), left=str(l)[:60], right=str(r)[:60], solution_value=str(v)[:60], problem_value=str(p)[:60])))
                    break
    # fraction
    for tg in (True, False):
        num, den = sol.as_fraction(together=tg)
        obs.append((tag, 'as_fraction', str(num)[:100]))
        for senv, env, v, p in pts:
            try:
                a, b = Evaluator(env)(num), Evaluator(env)(den)
            except Undefined:
                continue
            if not same(a, vmul(b, v)):
                bad.append(('as_fraction differs from the solution', {'solution': str(expr)[:400], 'num': str(num)[:300], 'den': str(den)[:300], 'together': tg}))
                break
    eq = sol.as_eq(together=rng.random() < .5, cancel=rng.random() < .5)
    for senv, env, v, p in pts:
        try:
            a, b = Evaluator(env)(eq.lhs), Evaluator(env)(eq.rhs)
        except Undefined:
            continue
        if not same(vmul(a, v), vmul(b, p)):
            bad.append(('as_eq differs from the solution', {'solution': str(expr)[:400], 'eq': str(eq)[:400]}))
            break
    s2 = sol.copy()
    s2.as_fraction(inplace=True)
    for senv, env, v, p in pts:
        try:
            if not same(Evaluator(env)(s2.solution), v):
                bad.append(('as_fraction(inplace) changed the solution', {'solution': str(expr)[:400], 'new': str(s2.solution)[:400]}))
                break
        except Undefined:
            continue
    if sol.solution is not expr:
        bad.append(('rendering modified the solution', {'solution': str(expr)[:300]}))
    return obs, bad


def job(seed):
    from sympy.combinatorics import CyclicGroup, SymmetricGroup, PermutationGroup, Permutation
    from triples.utils.expression.solution import SolutionSimple
    from .c09 import groups
    rng = random.Random(seed)
    out = {'obs': [], 'bad': [], 'c': {}}
    cnt = lambda k: out['c'].__setitem__(k, out['c'].get(k, 0) + 1)
    for _ in range(4):
        n = rng.choice([2, 3, 3, 3, 3, 4])
        names = rng.choice(['abcd', 'abcd', 'xyzw', 'tuvw', 'qkhm'])[:n]
        gens = sp.symbols(' '.join(names))
        G = rng.choice([CyclicGroup(n), CyclicGroup(n), SymmetricGroup(n) if n <= 3 else CyclicGroup(n), groups(rng, n)])
        els = group_elements(G)
        if len(els) > 6:
            G = CyclicGroup(n)
            els = group_elements(G)
        expr = solution_expr(rng, gens, G)
        if len(str(expr)) > 500 or not expr.free_symbols or expr.has(sp.zoo, sp.nan, sp.oo):
            continue
        k = rng.random()
        prob, equal, flag = None, None, None
        if k < .4:
            # a problem that really equals the solution, when the latter is a polynomial of moderate size
            try:
                if not expr.has(sp.Pow) or not any(isinstance(x, sp.Pow) and x.exp.is_negative for x in sp.preorder_traversal(expr)):
                    pe = sp.Poly(expr.doit(), *gens, extension=True)
                    if pe.total_degree() <= 14:
                        prob, equal = pe, True
                        if rng.random() < .4:
                            prob, equal = pe + rng.choice([1, gens[0], -gens[0] * gens[1]]), False
            except Exception:
                prob = None
            flag = None if rng.random() < .7 else equal
        if prob is None:
            prob = sp.Poly(sum(rng.randint(1, 5) * rng.choice(gens) ** 2 for _ in range(3)) + gens[0] * gens[1], *gens)
            equal = rng.random() < .7
            flag = equal            # the flag handed over is shown as it is
        sol = SolutionSimple(problem=prob, solution=expr, is_equal=flag)
        cnt('solutions')
        cnt('lazy identity test') if flag is None else None
        o, b = check_views(sol, gens, els, rng, equal, 'random')
        out['obs'] += o
        out['bad'] += [(w, dict(d, group=str(G))) for w, d in b]
        for x in o:
            cnt(x[1].split(' ')[0])
        # dehomogenization
        if rng.random() < .4:
            h = sp.Symbol('h') if sp.Symbol('h') not in gens else sp.Symbol('j')
            m2 = n + 1
            g2 = tuple(gens) + (h,)
            G2 = PermutationGroup([Permutation(list(p.array_form) + [n]) for p in G.generators])
            e2 = solution_expr(rng, g2, G2)
            if e2.has(sp.zoo, sp.nan, sp.oo):
                continue
            s2 = SolutionSimple(problem=sp.Poly(sum(x ** 2 for x in g2) + h * gens[0], *g2), solution=e2)
            d2 = s2.dehomogenize(h)
            cnt('dehomogenize')
            for _k in range(4):
                env = {g: rnd_rational(rng, 1, 9) for g in gens}
                try:
                    v1 = Evaluator(dict(env, **{}) | {h: mpq(1)})(e2)
                    v2 = Evaluator(env)(d2.solution)
                except Undefined:
                    continue
                if not same(v1, v2):
                    out['bad'].append(('dehomogenize changed the value', {'solution': str(e2)[:400], 'new': str(d2.solution)[:400]}))
                break
            if d2.solution.has(h) or s2.solution is not e2:
                out['bad'].append(('dehomogenize', {'solution': str(e2)[:400], 'new': str(d2.solution)[:400]}))
    return out


REAL = ['s(a2-ab)', 's(a)3-27p(a)', 's(a2)2-3s(a3b)', 's(a4)-s(a)p(a)', 's(a3)-3p(a)', 's(a(a-b)(a-c))', 's(ab(a-b)2)', 's(a2b4)-p(a)s(ab2)',
        's(a2(a-b)(a-c))', 's(a4b2-2a2b2c2)+s(a2b4)-p(a)s(a2b)+3p(a2)', 's(a/(b+c))-3/2', 's(2a2+3ab)', 's(a5b-a3b2c)', 's(a2+b2-2ab)+s((a-b)2)c2']


def real_job(k):
    from triples.utils.text_process import preprocess_text
    from triples.core.sum_of_squares import sum_of_squares
    from sympy.combinatorics import CyclicGroup
    rng = random.Random(k)
    txt, frac = REAL[k % len(REAL)], True
    num, den = preprocess_text(txt, return_type='frac')
    a, b, c = sp.symbols('a b c')
    ineq = [a, b, c] if k // len(REAL) == 0 else []
    sol = sum_of_squares(num, ineq, [], method_order=['StructuralSOS'] if k % 3 else ['LinearSOS'])
    out = {'obs': [], 'bad': [], 'c': {}}
    if sol is None:
        out['c']['unsolved'] = 1
        return out
    sol = sol.rewrite_symmetry((a, b, c), CyclicGroup(3))
    out['c']['real solutions'] = 1
    if any(len(str(s)) > 1 for s in sol.solution.free_symbols) or sol.solution.atoms(sp.core.function.AppliedUndef):
        return out
    o, bd = check_views(sol, (a, b, c), group_elements(CyclicGroup(3)), rng, True, 'solver ' + txt)
    out['obs'], out['bad'] = o, bd
    return out


def run(chk):
    n = chk.n(220, 3000)
    jobs = [('r', k) for k in range(2 * len(REAL))] + [('x', '%d/%d' % (chk.seed, i)) for i in range(n)]
    for i, j, r in common.pmap(dispatch, jobs, cpu=20, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('a view raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        for o in r[1]['obs']:
            chk.observe(o, sample=o)
        for k, v in r[1]['c'].items():
            chk.count(k, v)
        for w, d in r[1]['bad']:
            chk.violation(w, dict(d, job=j), key=w)
    chk.require('solutions', 200)
    chk.require('real solutions', 10)
    chk.require('lazy identity test', 20)
    chk.require('dehomogenize', 20)


def dispatch(j):
    return real_job(j[1]) if j[0] == 'r' else job(j[1])
