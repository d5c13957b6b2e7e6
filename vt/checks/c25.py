"""C25 rendering from several threads at once."""
import random, sys, threading, time
import sympy as sp
from .. import common
from ..evalx import group_elements

RULE = ('random solutions with nested cyclic nodes rendered by 8 threads in random mixes of views (str_latex, str_txt, str_formatted, '
        'to_string in three modes, str, latex), with microsecond thread switching and yields injected in the printer, some renderings '
        'raising; every text compared with the text of the same view rendered alone afterwards; global printing switches compared '
        'before and after. Observed: overlapping renderings of different views')

VIEWS = ['str_latex', 'str_txt', 'str_formatted', 'latex', 'txt', 'formatted', 'as_fraction', 'str']


class Bomb(sp.Symbol):
    """a symbol whose printing fails"""
    def _sympystr(self, printer):
        raise RuntimeError('bomb')

    def _latex(self, printer):
        raise RuntimeError('bomb')


def render(sol, v):
    if v in ('latex', 'txt', 'formatted'):
        return sol.to_string(v)
    if v == 'as_fraction':
        return sp.srepr(sol.as_fraction())
    if v == 'str':
        return str(sol.solution)
    return getattr(sol, v)


def state():
    from triples.utils.expression.cyclic import CyclicExpr, CyclicSum, CyclicProduct
    from triples.utils.expression.solution import Solution, SolutionSimple
    return tuple((c.__name__, k, c.__dict__.get(k, '-')) for c in (CyclicExpr, CyclicSum, CyclicProduct) for k in ('PRINT_WITH_PARENS', 'PRINT_FULL')) + (
        str(Solution.PRINT_CONFIGS), str(SolutionSimple.PRINT_CONFIGS))


def job(seed):
    from sympy.combinatorics import CyclicGroup, SymmetricGroup
    from triples.utils.expression.solution import SolutionSimple, Solution
    from triples.utils.expression.cyclic import CyclicSum
    from triples.core.structsos.solution import SolutionStructural
    from sympy.printing.printer import Printer
    from .c15 import solution_expr
    rng = random.Random(seed)
    out = {'obs': [], 'bad': [], 'c': {}}
    cnt = lambda k, n=1: out['c'].__setitem__(k, out['c'].get(k, 0) + n)
    sols = []
    while len(sols) < 6:
        n = rng.choice([2, 3, 3, 4])
        gens = sp.symbols(' '.join('abcd'[:n]))
        G = CyclicGroup(n) if rng.random() < .8 or n == 4 else SymmetricGroup(n)
        e = solution_expr(rng, gens, G)
        if len(str(e)) > 400 or e.has(sp.zoo, sp.nan) or not e.free_symbols:
            continue
        cls = rng.choice([SolutionSimple, SolutionSimple, SolutionStructural, Solution])
        p = sp.Poly(sum(rng.randint(1, 9) * g ** 2 for g in gens), *gens)
        sols.append(cls(problem=p, solution=e, is_equal=True))
    bomb = SolutionSimple(problem=sp.Poly(gens[0] ** 2, *gens), solution=CyclicSum(Bomb('q') * gens[0], gens), is_equal=True)
    jobs = []
    for k in range(40):
        s = rng.randrange(len(sols))
        v = rng.choice(VIEWS[:3] + VIEWS)
        if type(sols[s]).__name__ == 'Solution' and v not in VIEWS[:3] + ['str']:
            v = rng.choice(VIEWS[:3])
        jobs.append((s, v))
    for k in range(3):
        jobs.insert(rng.randrange(len(jobs)), (None, rng.choice(VIEWS[:6])))
    orig = Printer._print
    nthr = 8
    yrng = random.Random(seed + 'y')
    yields = [0]

    def slow(self, expr, **kw):
        if yrng.random() < .25:
            yields[0] += 1
            time.sleep(0)
        return orig(self, expr, **kw)
    before = state()
    results = [None] * len(jobs)
    log = []
    lock = threading.Lock()
    todo = list(range(len(jobs)))
    bar = threading.Barrier(nthr)

    def work():
        bar.wait()
        while True:
            with lock:
                if not todo:
                    return
                k = todo.pop()
            s, v = jobs[k]
            log.append((k, 'start'))
            try:
                results[k] = ('ok', render(sols[s] if s is not None else bomb, v))
            except Exception as e:
                results[k] = ('exc', type(e).__name__ + ' ' + str(e)[:100])
            log.append((k, 'end'))
    si = sys.getswitchinterval()
    Printer._print = slow
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work) for _ in range(nthr)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        Printer._print = orig
        sys.setswitchinterval(si)
    after = state()
    if after != before:
        out['bad'].append(('global printing state changed', {'before': str(before), 'after': str(after)}))
    openk = set()
    for k, w in log:
        if w == 'start':
            for o in openk:
                if jobs[o][1] != jobs[k][1]:
                    cnt('overlapping renderings of different views')
            openk.add(k)
        else:
            openk.discard(k)
    cnt('yields', yields[0])
    out['obs'].append(('schedule', tuple(log)))
    for k, (s, v) in enumerate(jobs):
        if s is None:
            cnt('raising renderings')
            if results[k][0] != 'exc':
                out['bad'].append(('a failing rendering did not fail', {'view': v, 'got': results[k]}))
            continue
        cnt('renderings')
        cnt(v)
        exp = render(sols[s], v)
        out['obs'].append((v, exp[:200]))
        if results[k] != ('ok', exp):
            out['bad'].append(('rendered text differs', {'view': v, 'threaded': str(results[k])[:500], 'alone': exp[:500]}))
    return out


def run(chk):
    n = chk.n(60, 700)
    for i, j, r in common.pmap(job, ['%d/%d' % (chk.seed, i) for i in range(n)], cpu=60, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('harness job raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        for o in r[1]['obs']:
            chk.observe(o, sample=o if o[0] != 'schedule' else None)
        for k, v in r[1]['c'].items():
            chk.count(k, v)
        for w, d in r[1]['bad']:
            chk.violation(w, dict(d, job=j))
    chk.require('renderings', 500)
    chk.require('raising renderings', 30)
    chk.require('overlapping renderings of different views', 500)
