"""C24: answers do not depend on history; inputs, configurations and settings are never modified."""
import os, sys, io, re, gc, random, signal, pickle, resource, contextlib, inspect, types
import numpy as np
import sympy as sp
from sympy import Rational as R
from sympy.combinatorics import SymmetricGroup, CyclicGroup, PermutationGroup, Permutation
from .. import common, gen, problems as pb

RULE = ('histories of 4-9 calls drawn from the public interface (solvers with all method orders and nested configurations shared by '
        'several calls, batches, parsing, roots, bounds, symmetric rewriting, basis construction, coefficient views, rounding, matrix '
        'programs, manager), each repeated, with failing and invalid calls among them. Monitors: a deep snapshot of every argument before and '
        'after each call; of every setting of the package (upper-case module variables, public class variables, mutable default arguments '
        'of every function) and of the process-wide numeric, printing and signal settings. Oracle: the same call in a freshly forked process, '
        'the fresh outcomes being collected under different symbol counters and a difference being confirmed by running the history again. '
        'Non-trivial: a history with at least three different calls that succeeded.')
ASSUMPTIONS = ['a fresh process is one forked after importing the package', 'pseudo-random generators are seeded before each call',
               'results that depend on the number of temporary symbols created before (sympy ordering) are not attributed to history',
               'containers whose name says cache or memo are not settings; objects returned by the library are not modified by the caller']
a, b, c, d = sp.symbols('a b c d')
x, y, z, t = sp.symbols('x y z t')
L = {}


def mods():
    if not L:
        common.use_repo()
        with contextlib.redirect_stdout(io.StringIO()):
            import triples.core as core, triples.utils as U, triples.sdp as sdp
            from triples.core.linsos import basis, tangents as tg
            from triples.gui.sos_manager import SOS_Manager
            from triples.utils import monomials
            from triples.utils.expression.cyclic import CyclicExpr
        SOS_Manager.verbose = False
        L.update(core=core, U=U, sdp=sdp, basis=basis, SM=SOS_Manager, mono=monomials, tg=tg, CE=CyclicExpr, mod=sys.modules)
        for _ in (1, 2):         # whatever is loaded lazily
            core.sum_of_squares(a**2 + b**2 + c**2 - a * b - b * c - c * a, [a, b, c])
            core.sum_of_squares(x**2 + y**2 - 2 * x * y + 1, [x], method_order=['LinearSOS', 'SDPSOS'])
            core.sum_of_squares(x**2 + y**2 - 2 * x * y + 1, method_order=['SDPSOS'])
            U.findroot(sp.Poly(a**2 + b**2 + c**2 - a * b - b * c - c * a, a, b, c))
            SOS_Manager.set_poly('s(a2-ab)')
            core.sum_of_squares_multiple(['s(a2-ab)'], save_result=False) if 'save_result' in inspect.signature(core.sum_of_squares_multiple).parameters else None
        L['funcs'] = _functions()
    return L


# ------------------------------------------------------------------ snapshots
def snap(o, depth=0):
    """a comparable picture of a value"""
    if depth > 7:
        return '...'
    if isinstance(o, sp.Poly):
        return ('Poly', tuple(map(str, o.gens)), str(o.domain), tuple((m, str(v)) for m, v in o.terms()))
    if isinstance(o, sp.MatrixBase):
        return ('Matrix', o.shape, tuple(sp.srepr(v) for v in o))
    if isinstance(o, sp.Basic):
        return ('Basic', sp.srepr(o))
    if isinstance(o, np.ndarray):
        return ('array', o.shape, str(o.dtype), o.tobytes() if o.dtype != object else tuple(map(str, o.ravel())), o.flags.writeable)
    if isinstance(o, dict):
        return ('dict', type(o).__name__, tuple((snap(k, depth + 1), snap(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(v, depth + 1) for v in o))
    if isinstance(o, (set, frozenset)):
        return ('set', tuple(sorted(repr(snap(v, depth + 1)) for v in o)))
    if isinstance(o, (int, float, str, bytes, bool, complex, type(None), np.generic)):
        return (type(o).__name__, repr(o))
    if isinstance(o, (types.FunctionType, type, types.ModuleType, types.BuiltinFunctionType)):
        return ('object', getattr(o, '__module__', ''), getattr(o, '__qualname__', getattr(o, '__name__', '')))
    return ('object', type(o).__name__)


CACHE = re.compile('cache|memo|_abc_|counter|registry_count', re.I)
SETTING = re.compile(r'^[A-Z][A-Z0-9_]*$')


def _mine(n):
    return n.split('.')[0] in ('triples', 'web_main')


def _functions():
    out, seen = [], {}
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType) and _mine(f.__module__ or ''):
            try:
                ps = list(inspect.signature(f, follow_wrapped=False).parameters.values())
            except (ValueError, TypeError):
                continue
            for p in ps:
                if isinstance(p.default, (dict, list, set, bytearray)) and not CACHE.search(p.name):
                    key = '%s.%s(%s)' % (f.__module__, f.__qualname__, p.name)
                    seen[key] = seen.get(key, 0) + 1
                    out.append((key + '#%d' % seen[key], p.default))
    return out


def settings():
    s = {}
    for n, m in sorted(sys.modules.items()):
        if m is None or not _mine(n):
            continue
        for k, v in list(vars(m).items()):
            if SETTING.match(k) and not CACHE.search(k) and isinstance(v, (dict, list, set, tuple, int, float, str, type(None))):
                s[n + '.' + k] = snap(v)
            if isinstance(v, type) and v.__module__ == n:
                for kk, vv in list(vars(v).items()):
                    if kk.startswith('_') or CACHE.search(kk):
                        continue
                    if (SETTING.match(kk) or isinstance(vv, bool) or kk in ('verbose',)) and isinstance(vv, (dict, list, set, tuple, bool, int, float, str, type(None))):
                        s['%s.%s.%s' % (n, k, kk)] = snap(vv)
    for key, v in L['funcs']:
        s['default ' + key] = snap(v)
    import mpmath
    s['mpmath precision'] = mpmath.mp.prec
    s['numpy errors'] = str(sorted(np.geterr().items()))
    s['numpy printing'] = str(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    s['recursion limit'] = sys.getrecursionlimit()
    s['directory'] = os.getcwd()
    s['environment'] = snap(dict(os.environ))
    s['signals'] = str([signal.getsignal(q) for q in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)])
    s['float format'] = str(np.float64(1) / 3) + str(0.1) + sp.sstr(R(1, 3) * a**2) + sp.latex(R(1, 3) * a**2)
    s['warnings as errors'] = str([f[0] for f in __import__('warnings').filters if f[0] == 'error'])
    return s


# ------------------------------------------------------------------ outcomes
def norm(o, depth=0):
    """a printable outcome"""
    U = L['U']
    if depth > 6:
        return '...'
    if o is None or isinstance(o, (bool, int, str)):
        return repr(o)
    if isinstance(o, U.Solution):
        return 'Solution(%s, %s)' % (type(o).__name__, sp.sstr(o.solution))
    if isinstance(o, sp.Poly):
        return 'Poly(%s, %s, %s)' % (sp.sstr(o.as_expr()), o.gens, o.domain)
    if isinstance(o, sp.MatrixBase):
        return sp.sstr(sp.Matrix(o).tolist())
    if isinstance(o, sp.Basic):
        return sp.sstr(o) if not o.has(sp.Float) else sp.sstr(o.xreplace({f: sp.Float(f, 7) for f in o.atoms(sp.Float)}))
    if isinstance(o, (float, np.floating)):
        return '%.7g' % o
    if isinstance(o, complex):
        return '%.7g %.7g' % (o.real, o.imag)
    if isinstance(o, np.ndarray):
        return '[%s]%s' % (','.join(norm(v, depth + 1) for v in o.ravel().tolist()), o.shape)
    if isinstance(o, dict):
        return '{%s}' % ', '.join('%s: %s' % (norm(k, depth + 1), norm(v, depth + 1)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return '[%s]' % ', '.join(norm(v, depth + 1) for v in o)
    if isinstance(o, U.RootsInfo):
        return 'RootsInfo(%s; %s; %s)' % (norm(sorted(map(norm, o.roots))), norm(sorted(map(norm, o.strict_roots))), norm([q.expr if hasattr(q, 'expr') else str(q) for q in o.tangents]))
    if isinstance(o, U.Root):
        return 'Root(%s)' % norm([sp.nsimplify(v) if False else sp.Float(sp.N(v, 12), 7) for v in o.root])
    return type(o).__name__


# ------------------------------------------------------------------ calls
CONF = [None, {}, {'LinearSOS': {'preordering': 'none'}}, {'LinearSOS': {'tangents': [(a - b)**2]}}, {'StructuralSOS': {}, 'LinearSOS': {'quad_diff_order': 4}},
        {'SDPSOS': {'preordering': 'linear'}}, {'LinearSOS': {'symmetry': None, 'lift_degree_limit': 2}}, {'SymmetricSOS': {}}, {'LinearSOS': {'linprog_options': {'method': 'highs', 'options': {'presolve': False}}}}]
SHAPES = [('(a-b)**2', '', ''), ('a**2+b**2+c**2-a*b-b*c-c*a', '', ''), ('-a**2', '', ''), ('a-b', 'a b', '')]


def some_problem(rng):
    r = rng.random()
    if r < .45:
        p, g, I, E = pb.from_classic(rng.choice(pb.CLASSIC))
    elif r < .6:
        p, g, I, E = pb.from_classic(rng.choice(pb.FALSE))
    elif r < .8:
        e = gen.cyc_known(rng, rng.choice([2, 3, 3, 4, 4]), sym=rng.random() < .4)
        p, g, I, E = sp.expand(e), [a, b, c], [a, b, c], []
    else:
        p, g, I, E = pb.rand_certificate(rng)
    return p, list(g), list(I), list(E)


def cons(rng, qs, prefix, g):
    k = rng.random()
    if k < .4:
        return list(qs)
    if k < .5 and g:
        return [sp.Poly(q, *g) for q in qs]
    G = sp.Function(prefix)
    if k < .75:
        return {q: G(sp.Integer(i)) for i, q in enumerate(qs)}
    if k < .85:
        return {q: q for q in qs}
    return {q: sp.Symbol('%s_%d' % (prefix, i)) for i, q in enumerate(qs)}


def small_poly(rng, g=(a, b, c), deg=None, sym=True):
    deg = deg or rng.choice([2, 3, 4])
    if sym and rng.random() < .6:
        return sp.Poly(gen.cyc_known(rng, deg, sym=rng.random() < .5), *g)
    return sp.Poly(sum(rng.randint(-4, 4) * gen.mon(m, g) for m in gen.monoms(len(g), deg)) + gen.mon((deg,) + (0,) * (len(g) - 1), g) * 5, *g)


TXT = ['s(a2-ab)', 's(a)^3-27abc', 'p(a+b)-8abc', 's(a/(b+c))-3/2', 'sqrt(2)a2-b2', '1/2a-0.5b', 's(a(b-c)^2)', '(a-b)^2(b-c)', 'a+b+', '((', 's(x)', 'a4-2a2b2+b4', r'\frac{a}{b}-1', '1.5e2a-b', 'x2+y2', '', 'cbrt(2)a', 's(a3b2)']


def op_solve(rng, sh):
    p, g, I, E = some_problem(rng)
    poly = sp.Poly(p, *g) if rng.random() < .4 and g else p
    order = rng.choice([None, ['StructuralSOS', 'LinearSOS'], ['LinearSOS', 'StructuralSOS'], ['StructuralSOS'], ['LinearSOS'], ['LinearSOS', 'SDPSOS'], ['SymmetricSOS', 'LinearSOS'], ['SDPSOS']])
    args = [poly, cons(rng, I, 'g', g), cons(rng, E, 'h', g)]
    kw = {}
    if order is not None:
        kw['method_order'] = sh.setdefault('order' + str(order), list(order)) if rng.random() < .6 else order
    k = rng.randrange(len(CONF))
    if CONF[k] is not None:
        kw['configs'] = sh.setdefault('conf%d' % k, copy_conf(CONF[k]))
    return 'sum_of_squares', L['core'].sum_of_squares, args, kw


def copy_conf(o):
    if isinstance(o, dict):
        return {k: copy_conf(v) for k, v in o.items()}
    if isinstance(o, list):
        return [copy_conf(v) for v in o]
    return o


def op_direct(rng, sh):
    p, g, I, E = some_problem(rng)
    if not g:
        g = [a]
    m = rng.choice(['LinearSOS', 'LinearSOS', 'StructuralSOS', 'SDPSOS', 'SymmetricSOS'])
    f = getattr(L['core'], m)
    cp = lambda qs: {sp.Poly(q, *g): sp.Symbol('k%d' % i) for i, q in enumerate(qs)}
    kw = {}
    if m == 'LinearSOS':
        if rng.random() < .4:
            kw['tangents'] = sh.setdefault('tangents' + str(g), [(g[0] - g[-1])**2, g[0] + g[-1]])
        if rng.random() < .3:
            kw['linprog_options'] = sh.setdefault('lp', {'method': 'highs', 'options': {'presolve': True}})
    return m, f, [sp.Poly(p, *g), cp(I), cp(E)], kw


def op_batch(rng, sh):
    ps = [rng.choice(TXT) if rng.random() < .7 else small_poly(rng, deg=2) for _ in range(rng.randint(1, 3))]
    kw = {}
    if rng.random() < .6:
        kw['poly_reader_configs'] = sh.setdefault('reader', {'gens': (a, b, c), 'ignore_errors': True})
    else:
        kw['poly_reader_configs'] = {'ignore_errors': True}
    if rng.random() < .4:
        kw['configs'] = sh.setdefault('confb', {'LinearSOS': {'quad_diff_order': 4}})
    if rng.random() < .5:
        kw['method_order'] = sh.setdefault('orderb', ['StructuralSOS', 'LinearSOS'])
    f = L['core'].sum_of_squares_multiple
    kw['show_progress' if 'show_progress' in inspect.signature(f).parameters else 'verbose'] = False
    kw['save_result'] = False

    def g(polys, ineq, **k):
        k = {q: v for q, v in k.items() if q in inspect.signature(f).parameters}
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            r = f(polys, ineq, **k)
        if hasattr(r, 'to_dict'):
            return [{str(k): str(v) for k, v in rec.items() if 'time' not in str(k)} for rec in r.to_dict('records')]
        return r
    return 'sum_of_squares_multiple', g, [ps, rng.choice([[a, b, c], {a: a, b: b, c: c}, {}])], kw


def op_text(rng, sh):
    U = L['U']
    s = rng.choice(TXT)
    k = rng.randrange(4)
    g = sh.setdefault('gens%d' % k, [(a, b, c), [x, y], [a, b, c, d], (a, b)][k])
    k = rng.random()
    if k < .5:
        return 'preprocess_text', U.preprocess_text, [s], dict(gens=tuple(g), perm=rng.choice([None, SymmetricGroup(len(g))]), return_type=rng.choice(['poly', 'expr', 'text', 'frac']), scientific_notation=rng.random() < .3)
    if k < .7:
        from triples.utils.text_process import degree_of_zero
        return 'degree_of_zero', degree_of_zero, [s], dict(gens=tuple(g))
    k = rng.randrange(3)
    r2 = random.Random(k)
    ps = sh.setdefault('list%d' % k, [r2.choice(TXT) for _ in range(4)] + [small_poly(r2)])
    return 'PolyReader', (lambda p, **kw: list(U.PolyReader(p, **kw))), [ps], dict(gens=tuple(g), ignore_errors=True)


def op_roots(rng, sh):
    U = L['U']
    k = rng.random()
    p = small_poly(rng)
    if k < .35:
        return 'findroot', (lambda q, **kw: U.findroot(q, **kw)), [p], dict(most=rng.choice([1, 5]), with_tangents=rng.choice([False, L['core'].root_tangents]))
    if k < .5:
        return 'findroot_resultant', (lambda q: sorted(map(norm, U.findroot_resultant(q)))), [p], {}
    if k < .62:
        q = sp.Poly([rng.randint(-5, 5) or 1 for _ in range(rng.randint(3, 6))], x)
        return 'nroots', U.nroots, [q], dict(real=rng.random() < .5)
    if k < .75:
        q = sp.Poly([rng.randint(-5, 5) or 1 for _ in range(rng.randint(3, 6))], x)
        return 'univariate_intervals', (lambda v: list(U.univariate_intervals(v))), [[q, sp.Poly(x**2 - 2, x)]], {}
    if k < .88:
        return 'prove_univariate', L['core'].prove_univariate, [sp.Poly((x - rng.randint(-3, 3))**2 * rng.randint(1, 3) + x**4 * rng.randint(0, 2) + rng.randint(0, 3), x)], {}
    return 'poly grid', (lambda q, n: [list(map(tuple, g_.grid_coor))[:30] + [norm(v) for v in g_.grid_value][:30] for g_ in [U.GridRender.render(q)]]), [p, 0], {}


def op_views(rng, sh):
    U = L['U']
    p = small_poly(rng, deg=rng.choice([2, 3, 4, 5]))
    f = rng.choice([('poly_get_standard_form', U.poly_get_standard_form, {}), ('poly_get_factor_form', U.poly_get_factor_form, {}), ('latex_coeffs', U.latex_coeffs, {}),
                    ('verify_hom_cyclic', U.verify_hom_cyclic, {}), ('verify_is_symmetric', U.verify_is_symmetric, {}), ('identify_symmetry', (lambda q: sorted(map(str, U.identify_symmetry(q).generators))), {}),
                    ('Coeff', (lambda q: [norm(U.Coeff(q)(*m)) for m in q.monoms()]), {}), ('deg', U.deg, {})])
    return f[0], f[1], [p], f[2]


def op_mono(rng, sh):
    U = L['U']
    n, dg = rng.choice([2, 3, 3, 4]), rng.choice([1, 2, 3, 4])
    sym = rng.choice([None, CyclicGroup(n), SymmetricGroup(n)])
    opt = dict(symmetry=sym, hom=rng.random() < .7)
    opt = {} if rng.random() < .2 else {k_: v for k_, v in opt.items() if v is not None}
    k = rng.random()
    g = sp.symbols('a b c d')[:n]
    p = sp.Poly(gen.rform(rng, dg, g, k=4) + gen.mon((dg,) + (0,) * (n - 1), g), *g)
    if k < .3:
        return 'generate_monoms', U.generate_monoms, [n, dg], opt
    if k < .5:
        return 'arraylize_np', U.arraylize_np, [p], dict(expand_cyc=sym is not None and rng.random() < .5, **opt)
    if k < .65:
        return 'arraylize_sp', U.arraylize_sp, [p], opt
    if k < .8:
        v = [rng.randint(-3, 3) for _ in range(len(U.generate_monoms(n, dg, **opt)[1]))]
        v = rng.choice([v, np.array(v), sp.Matrix(v)])
        return 'invarraylize', U.invarraylize, [v, list(g), dg], opt
    if k < .9:
        B = L['basis']
        return 'quad_diff', B.LinearBasisTangent.generate_quad_diff, [rng.choice([sp.Integer(1), g[0], (g[0] - g[1])**2]), tuple(g), rng.choice([2, 3, 4])], dict(symmetry=L['mono'].MonomialManager(n, sym), quad_diff_order=rng.choice([2, 4]))
    return 'cross_exprs', L['basis'].cross_exprs, [sh.setdefault('exprs', [a, b, c - 1, a + b]), (a, b, c), rng.choice([1, 2, 3])], {}


def op_expr(rng, sh):
    U = L['U']
    k = rng.random()
    e = rng.choice([a * (a - b)**2, (a - b)**2, a**2 * b, a / (b + 1), a * b * c, a**2 - b * c, (a + b - c)**2 * a])
    if k < .3:
        return 'CyclicSum', (lambda q, g: (lambda s: [str(s), sp.latex(s), str(s.doit().expand())])(U.CyclicSum(q, g) + 1)), [e, (a, b, c)], {}
    if k < .45:
        return 'CyclicProduct', (lambda q, g: str(U.CyclicProduct(q, g))), [e + 2, (a, b, c)], {}
    if k < .7:
        return 'rewrite_symmetry', U.rewrite_symmetry, [sp.expand(gen.cyc(e)) + U.CyclicSum(e, (a, b, c)), (a, b, c), CyclicGroup(3)], {}
    if k < .85:
        p = sp.Poly(gen.cyc_known(rng, 3, sym=True), a, b, c)
        return 'pqr_sym', U.pqr_sym, [p], {}
    p = sp.Poly(gen.cyc_known(rng, 4, sym=True), a, b, c)
    return 'sym_representation', L['core'].sym_representation, [p.as_expr(), [a, b, c]] if rng.random() < .4 else [p, [a, b, c]], dict(return_poly=rng.random() < .3)


def op_number(rng, sh):
    U = L['U']
    k = rng.random()
    v = rng.uniform(-5, 5)
    if k < .25:
        return 'rationalize', U.rationalize, [v], dict(reliable=rng.random() < .5)
    if k < .45:
        return 'rationalize_array', U.rationalize_array, [sh.setdefault('floats', [.5, 1 / 3, 2.000001, -7.25]) if rng.random() < .5 else np.array([.25, v])], {}
    if k < .6:
        return 'rationalize_bound', (lambda *q, **kw: list(U.rationalize_bound(*q, **kw))), [v], dict(direction=rng.choice([1, -1]))
    if k < .75:
        return 'cancel_denominator', U.cancel_denominator, [sh.setdefault('rats', [R(1, 2), R(2, 3), R(-5, 6)])], {}
    if k < .87:
        return 'square_perturbation', (lambda *q: list(map(norm, U.square_perturbation(*q)))), [R(rng.randint(2, 9), 3), R(1, 5)], {}
    M = sp.Matrix(3, 3, lambda i, j: rng.randint(-2, 2))
    M = M * M.T + sp.eye(3) * rng.choice([0, 1])
    M = rng.choice([M, np.array(M.tolist(), dtype=float)])
    return 'congruence', L['sdp'].congruence, [M], {}


def op_sdp(rng, sh):
    S = L['sdp']
    n = rng.choice([2, 3])
    k = n * (n + 1) // 2
    A = sp.Matrix(n * n, rng.randint(1, 2), lambda i, j: 0)
    for j in range(A.shape[1]):
        B = sp.Matrix(n, n, lambda p, q: 0)
        for p in range(n):
            for q in range(p, n):
                B[p, q] = B[q, p] = rng.randint(-2, 2)
        A[:, j] = sp.Matrix(list(B))
    x0 = sp.Matrix(list(sp.eye(n) * rng.choice([1, 2, -1])))
    sp_ = {'P': (x0, A)}

    def run(space, **kw):
        prob = S.SDPProblem(space, **kw)
        r = prob.solve(verbose=False) if 'verbose' in inspect.signature(prob.solve).parameters else prob.solve()
        return [bool(r is not None and r is not False), [q for q in map(str, prob.free_symbols)]]
    if rng.random() < .25:
        def run(space):
            prob = S.SDPPrimal(sp.Matrix([1, 2]), space)
            r = prob.solve()
            return bool(r is not None and r is not False)
        return 'SDPPrimal', run, [{'P': sp.Matrix([[1, 0, 0, 0], [0, 0, 0, 1]]) if rng.random() < .6 else sp.Matrix([[1, 0, 0, 1], [0, 0, 0, -1]])}], {}
    return 'SDPProblem', run, [sp_], {}


def op_manager(rng, sh):
    SM = L['SM']
    k = rng.random()
    s = rng.choice(TXT)
    if k < .35:
        def f(txt, **kw):
            r = SM.set_poly(txt, **kw)
            return None if r is None else {q: (v if not hasattr(v, 'grid_value') else [norm(u) for u in v.grid_value][:20]) for q, v in r.items()}
        return 'set_poly', f, [s], dict(gens=(a, b, c), homogenize=rng.random() < .2, dehomogenize=rng.choice([None, 1]), standardize_text=rng.choice([None, 'sort', 'factor']))
    if k < .5:
        return 'manager findroot', (lambda p, **kw: SM.findroot(p, **kw)), [small_poly(rng)], dict(verbose=False)
    if k < .6:
        return 'manager latex', (lambda txt, **kw: SM.latex_coeffs(txt, **kw)), [s], {}
    p = small_poly(rng)
    kw = dict(gens=(a, b, c))
    if rng.random() < .5:
        kw['configs'] = sh.setdefault('mconf', {'LinearSOS': {'tangents': [(a - b)**2]}, 'StructuralSOS': {}, 'SymmetricSOS': {}, 'SDPSOS': {}})
    if rng.random() < .5:
        kw['method_order'] = sh.setdefault('morder', ['StructuralSOS', 'LinearSOS'])
    return 'manager sum_of_squares', (lambda q, *r, **k_: SM.sum_of_squares(q, *r, **k_)), [p, sh.setdefault('mineq', [sp.Poly(v, a, b, c) for v in (a, b, c)]) if rng.random() < .7 else [], []], kw


def op_render(rng, sh):
    p, g, I, E = pb.from_classic(rng.choice(pb.CLASSIC[:24]))
    args = [p, list(I), list(E)]

    def f(p, I, E):
        s = L['core'].sum_of_squares(p, I, E, method_order=['StructuralSOS', 'LinearSOS'])
        if s is None:
            return None
        before = sp.srepr(s.solution)
        out = [str(s), s.to_string('txt'), s.to_string('latex')] if hasattr(s, 'to_string') else [str(s)]
        if sp.srepr(s.solution) != before:
            raise Modified('rendering modified the solution')
        return out
    return 'render', f, args, {}


def op_bad(rng, sh):
    """calls that fail half way"""
    U, core = L['U'], L['core']
    k = rng.randrange(8)
    if k == 0:
        return 'bad method', core.sum_of_squares, [a**2 + b**2 - 3 * a * b, [a, b]], dict(method_order=['StructuralSOS', 'Nothing'])
    if k == 1:
        return 'bad option', core.sum_of_squares, [small_poly(rng), [a, b, c]], dict(configs={'LinearSOS': {'no_such_option': 1}, 'StructuralSOS': {'no_such_option': 2}})
    if k == 2:
        return 'bad tangents', core.LinearSOS, [sp.Poly(a**2 + b**2 - a * b, a, b)], dict(tangents=[object()])
    if k == 3:
        return 'not a polynomial', core.sum_of_squares, [sp.sin(a) + 1], {}
    if k == 4:
        return 'wrong constraints', core.sum_of_squares, [a**2 + b, [sp.sqrt(a), 1 / b]], {}
    if k == 5:
        return 'bad text', U.preprocess_text, [rng.choice(['a+', '((', 'a^^b', 's(', ')('])], {}
    if k == 6:
        return 'bad rows', U.invarraylize, [[1, 2], [a, b, c], 3], {}
    return 'bad solver', core.LinearSOS, [sp.Poly(a**3 + b**3 - a**2 * b, a, b), {sp.Poly(a, a, b): a}], dict(linprog_options={'method': 'nothing', 'options': {'x': 1}})


class Modified(Exception):
    pass


OPS = [(op_solve, 10), (op_direct, 5), (op_batch, 3), (op_text, 4), (op_roots, 4), (op_views, 3), (op_mono, 5), (op_expr, 3), (op_number, 3), (op_sdp, 2), (op_manager, 4), (op_render, 1), (op_bad, 3)]


def build(spec, shared):
    name, seed = spec
    return globals()[name](random.Random(seed), shared)


def invoke(f, args, kw):
    random.seed(12345)
    np.random.seed(12345)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return ('ok', norm(f(*args, **kw)))
    except Modified:
        raise
    except Exception as e:
        return ('err', type(e).__name__)


def forked(fn, cpu):
    """run fn in a forked child; None when it does not answer"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            used = sum(resource.getrusage(resource.RUSAGE_SELF)[:2])
            resource.setrlimit(resource.RLIMIT_CPU, (int(used + cpu) + 1, int(used + cpu) + 2))
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as h:
                h.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return None


def fresh(spec, shift=0):
    def go():
        for _ in range(shift):
            sp.Dummy()
        n, f, args, kw = build(spec, {})
        return invoke(f, args, kw)
    return forked(go, 12)


def history(specs):
    """-> (outcomes, changed arguments, changed settings)"""
    def go():
        shared, out, bad = {}, [], []
        before = settings()
        for i, s in enumerate(specs):
            n, f, args, kw = build(s, shared)
            s0 = snap([args, kw, shared])
            try:
                r = invoke(f, args, kw)
            except Modified as e:
                bad.append(('the solution was modified by rendering', i, n, '', ''))
                r = None
            s1 = snap([args, kw, shared])
            if s0 != s1:
                p, q = differ(s0, s1)
                bad.append(('an argument was modified', i, n, p, q))
            after = settings()
            if after != before:
                for k in sorted(set(before) | set(after)):
                    if before.get(k) != after.get(k) and k in before:
                        p, q = differ(before[k], after.get(k))
                        bad.append(('a setting was modified', i, n, k, '%s -> %s' % (p, q)))
            before = after
            out.append(r)
        return out, bad
    return forked(go, 70)


def differ(p, q):
    p, q = str(p), str(q)
    i = 0
    while i < min(len(p), len(q)) and p[i] == q[i]:
        i += 1
    return p[max(0, i - 60):i + 100], q[max(0, i - 60):i + 100]


def job(arg):
    mods()
    rng = random.Random('c24/' + arg)
    k = rng.choice([2, 3, 4])
    base = [(rng.choices([o for o, _ in OPS], [w for _, w in OPS])[0].__name__, rng.randrange(10**9)) for _ in range(k)]
    if rng.random() < .3:            # one kind of call, many times: shared containers and caches
        base = [(base[0][0], rng.randrange(10**9)) for _ in range(k + 1)]
    specs = base * 2
    if rng.random() < .7:
        rng.shuffle(specs)
    bad, c_ = [], {}

    def cnt(k, n=1):
        c_[k] = c_.get(k, 0) + n
    ref = {}
    for s in base:
        ref[s] = [fresh(s, 0)]
    live = [s for s in specs if ref[s][0] is not None]
    cnt('calls without an answer', len(specs) - len(live))
    if not live:
        return bad, [(arg, 0)], c_
    h = history(live)
    if h is None:
        cnt('history without an answer')
        return bad, [(arg, 0)], c_
    out, changed = h
    names = [build(s, {})[0] for s in live]
    for what, i, n, p, q in changed:
        bad.append((what, {'call': n, 'position': i, 'before': p, 'after': q, 'history': names}))
    again = None
    for i, (s, r) in enumerate(zip(live, out)):
        cnt('compared')
        cnt('call ' + names[i])
        cnt('ok calls' if r and r[0] == 'ok' else 'failing calls')
        if r is None or r in ref[s]:
            continue
        for sh in (1, 2, 3, 10, 37, 200, 1500):
            ref[s].append(fresh(s, sh))
            if ref[s][-1] == r:
                break
        if r in ref[s]:
            cnt('depends on symbol counters')
            continue
        if again is None:
            again = history(live)
        if again is None or again[0][i] in ref[s]:
            cnt('not reproduced')
            continue
        p, q = differ(ref[s][0], r)
        bad.append(('the outcome depends on what was called before', {'call': names[i], 'position': i, 'fresh': p, 'after history': q, 'history': names, 'specs': str(live)}))
    oks = len({n for n, r in zip(names, out) if r and r[0] == 'ok'})
    return [(w, {k: str(v)[:900] for k, v in dd.items()}) for w, dd in bad], [(tuple(names), oks)], c_


def run(chk):
    jobs = ['%d/%d' % (chk.seed, i) for i in range(chk.n(260, 6000))]
    mods()
    for i, j, r in common.pmap(job, jobs, cpu=120, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('harness', {'job': j, 'exc': r[1]})
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        bad, obs, c_ = r[1]
        for o in obs:
            chk.observe(o, nontrivial=o[1] >= 3, sample=o)
        for k, v in c_.items():
            chk.count(k, v)
        for w, d_ in bad:
            chk.violation(w, dict(d_, job=j))
    chk.require('compared', 500)
    for n in ('sum_of_squares', 'LinearSOS', 'StructuralSOS', 'sum_of_squares_multiple', 'preprocess_text', 'findroot', 'generate_monoms', 'arraylize_np', 'manager sum_of_squares', 'SDPProblem', 'CyclicSum'):
        chk.require('call ' + n, 3)
