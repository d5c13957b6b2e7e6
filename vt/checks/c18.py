"""C18: a semidefinite problem reported solved carries an exact feasible point, also through reductions."""
import random
import sympy as sp
from fractions import Fraction as F
from sympy import Rational as R
from .. import common

RULE = ('random rational semidefinite problems (dual form from symbolic matrices, affine data, equations and parametrised data; '
        'primal form; 1-3 blocks of sizes 1-4, planted feasible points of every rank, infeasible ones, zero and empty blocks), '
        'reduced by random chains of null space, column space, zero diagonal, equal entry, symmetry and deparametrisation steps, '
        'solved under random objectives, constraints, eigenvalue bounds and backends, and points registered by hand. Every node '
        'carrying a solution is compared exactly with the definition of the problem. Non-trivial: a node with a solution was '
        'examined, or a reduction compared with the exact linear algebra.')
ASSUMPTIONS = ['only the installed backends (cvxopt, picos) are reached',
               'matrices are given symmetric unless constrain_symmetry is requested']


# ---------------------------------------------------------------- exact helpers (plain fractions)
def fr(x):
    x = sp.nsimplify(x) if not isinstance(x, sp.Basic) else x
    return F(int(x.p), int(x.q))


def mat(M):
    return [[fr(M[i, j]) for j in range(M.shape[1])] for i in range(M.shape[0])]


def psd(M):
    """symmetric PSD test by exact pivoting"""
    n = len(M)
    A = [row[:] for row in M]
    for i in range(n):
        for j in range(n):
            if A[i][j] != A[j][i]:
                return False
    left = list(range(n))
    while left:
        p = next((i for i in left if A[i][i] != 0), None)
        if p is None:
            return all(A[i][j] == 0 for i in left for j in left)
        if A[p][p] < 0:
            return False
        left.remove(p)
        for i in left:
            f = A[i][p] / A[p][p]
            if f:
                for j in left:
                    A[i][j] -= f * A[p][j]
    return True


def rank_aug(rows, rhs):
    """(rank of A, rank of [A|b])"""
    M = [list(r) + [b] for r, b in zip(rows, rhs)]
    if not M:
        return 0, 0
    m = len(M[0]) - 1
    rk = 0
    for c in range(m + 1):
        p = next((i for i in range(rk, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        if c == m:
            return rk, rk + 1
        M[rk], M[p] = M[p], M[rk]
        for i in range(rk + 1, len(M)):
            f = M[i][c] / M[rk][c]
            if f:
                M[i] = [x - f * y for x, y in zip(M[i], M[rk])]
        rk += 1
    return rk, rk


def nullbasis(M):
    """columns spanning the null space of a symmetric fraction matrix (list of vectors)"""
    S = sp.Matrix(len(M), len(M), [R(x.numerator, x.denominator) for r in M for x in r])
    return S.nullspace(), S.columnspace()


# ---------------------------------------------------------------- generation
def q(rng, k=3, d=(1, 1, 1, 2, 3)):
    return R(rng.randint(-k, k), rng.choice(d))


def rsym(rng, n, dens, k=2):
    M = sp.zeros(n, n)
    for i in range(n):
        for j in range(i + 1):
            if rng.random() < dens:
                M[i, j] = M[j, i] = q(rng, k)
    return M


def rpsd(rng, n, r):
    M = sp.zeros(n, n)
    for _ in range(r):
        v = sp.Matrix([q(rng, 2, (1, 1, 1, 2)) for _ in range(n)])
        M += rng.choice([1, 1, 2, R(1, 2), 5]) * v * v.T
    return M


def gen_dual(rng):
    """definition: {key: (A0, [A1..Am])}, planted point, feasible?"""
    m = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
    nb = rng.choice([1, 1, 1, 2, 2, 3])
    y0 = [q(rng) for _ in range(m)]
    kind = rng.choice(['full', 'full', 'low', 'low', 'low', 'infeasible', 'any'])
    keys = ['S_%d' % i for i in range(nb)] if rng.random() < .5 else rng.sample(['x', 'key 1', 'major', (1, 0), 'z'], nb)
    D = {}
    for k in keys:
        n = rng.choice([1, 2, 2, 3, 3, 4, 4])
        if nb > 1 and rng.random() < .06:
            n = 0
        dens = rng.choice([.3, .6, 1])
        A = [rsym(rng, n, dens) if rng.random() < .8 else sp.zeros(n, n) for _ in range(m)]
        T = rpsd(rng, n, n + 1 if kind == 'full' else rng.randint(0, n)) if kind != 'any' else rsym(rng, n, 1)
        if kind == 'full' and n:
            T += sp.eye(n)
        # rows that are identically zero, or zero diagonals
        for i in range(n):
            if rng.random() < .12:
                for j in range(n):
                    if rng.random() < .5 or j == i:
                        for B in A:
                            B[i, j] = B[j, i] = 0
                    if kind != 'full':
                        T[i, j] = T[j, i] = 0
        D[k] = [T, A]
    if kind == 'infeasible':
        k = rng.choice(keys)
        n = D[k][0].shape[0]
        if n == 0:
            kind = 'any'
        elif n >= 2 and rng.random() < .5:
            for B in D[k][1]:
                B[0, 0] = B[0, 1] = B[1, 0] = 0
            D[k][0][0, 0] = 0
            D[k][0][0, 1] = D[k][0][1, 0] = 1
        else:
            for B in D[k][1]:
                B[0, 0] = 0
            D[k][0][0, 0] = -1
    for k in keys:
        T, A = D[k]
        A0 = T.copy()
        for t, B in zip(y0, A):
            A0 -= t * B
        D[k] = (A0, A)
    return D, y0, kind


def vec(M):
    return M.reshape(M.shape[0] * M.shape[1], 1)


def S_at(D, y):
    out = {}
    for k, (A0, A) in D.items():
        M = A0.copy()
        for t, B in zip(y, A):
            M += t * B
        out[k] = M
    return out


def descr(D):
    return {str(k): [str(A0.tolist()), [str(B.tolist()) for B in A]] for k, (A0, A) in D.items()}


# ---------------------------------------------------------------- judging a node
def judge_node(node, name):
    """stored parameters, matrices and decompositions of a node agree exactly"""
    if node.y is None or node.S is None:
        return None
    if any(x.has(sp.Float) for x in node.y):
        return '%s: inexact parameters' % name
    S2 = node.S_from_y(node.y)
    if set(S2) != set(node.S) or set(node.S) != set(node.keys()):
        return '%s: keys %s vs %s' % (name, list(node.S), list(S2))
    for k, M in node.S.items():
        if M.shape != S2[k].shape or any(a != b for a, b in zip(M, S2[k])):
            return '%s: S[%s] is not the matrix of the stored parameters' % (name, k)
        A = mat(M)
        if not psd(A):
            return '%s: S[%s] is not positive semidefinite: %s' % (name, k, M.tolist())
        if node.decompositions is None or k not in node.decompositions:
            return '%s: no decomposition of %s' % (name, k)
        dec = node.decompositions[k]
        if len(dec) != 2:
            return '%s: malformed decomposition of %s' % (name, k)
        U, d = dec
        d = list(d)
        if M.shape[0] == 0 or (len(U) == 0 and all(x == 0 for x in M)):
            continue
        if any(x < 0 for x in d) or any(x.has(sp.Float) for x in d):
            return '%s: bad weights of %s' % (name, k)
        if U.T * sp.diag(*d) * U != M:
            return '%s: decomposition of %s does not multiply back' % (name, k)
    return None


def nodes(root):
    out, todo = [], [root]
    while todo:
        x = todo.pop()
        if any(x is z for z in out):
            continue
        out.append(x)
        todo.extend(x.children)
    return out


def norm(e):
    """error type, for the refusals that are documented"""
    return type(e).__name__


def solve_opts(rng, node, primal=False):
    o = {}
    t = rng.random()
    if not primal and t < .3 and node.dof:
        L = list(node.free_symbols)
        obj = rng.choice([L[0], -L[-1], sum(L), sum(L) - 2 * L[0] + 1])
        c = [[], [], [L[0] >= -5], [L[-1] <= 7, L[0] >= -7]][rng.randrange(4)]
        if rng.random() < .5:
            o = {'objective': obj, 'constraints': c, 'min_eigen': rng.choice([0, 0, (1, 0), R(1, 100)])}
            if o['min_eigen'] == (1, 0):
                o['objective'] = None
        else:
            o = {'objective': [obj, -obj], 'constraints': [c, []], 'min_eigen': [0, 0]}
        if o['objective'] is None:
            o = {}
        elif not isinstance(o['objective'], list):
            o['min_eigen'] = float(o['min_eigen']) if o['min_eigen'] else 0
        if o and rng.random() < .3:
            o['use_default_configs'] = rng.choice([0, 2])
    if rng.random() < .2:
        o['solver'] = rng.choice(['cvxopt', 'picos'])
    if rng.random() < .15:
        o['scaling'] = rng.choice([0, 1., 100.])
    if rng.random() < .1:
        o['solve_child'] = False
    return o


def build(rng, D, y0):
    """the problem through one of the constructors; returns (problem, name, usable symbols?)"""
    from triples.sdp import SDPProblem
    how = rng.choice(['matrix', 'matrix', 'space', 'space', 'asym', 'equations', 'param'])
    m = len(y0)
    if any(A0.shape[0] == 0 for A0, A in D.values()) and how in ('matrix', 'asym', 'equations'):
        how = 'space'
    names = rng.choice([['t%d' % i for i in range(m)], list('zyxwv')[:m], ['y_{%d}' % i for i in range(m)]])
    syms = sp.symbols(names) if m else []
    if how == 'matrix':
        S = {}
        for k, (A0, A) in D.items():
            M = A0.copy()
            for s, B in zip(syms, A):
                M += s * B
            if rng.random() < .2:
                M = M.applyfunc(lambda e: sp.factor(e))
            S[k] = M
        arg = S
        if rng.random() < .4 and all(isinstance(k, str) and k.startswith('S_') for k in D):
            arg = list(S.values())
            if len(arg) == 1 and rng.random() < .5:
                arg = arg[0]
        return SDPProblem.from_matrix(arg), how, 'symbols'
    if how == 'space':
        X = {}
        for k, (A0, A) in D.items():
            n2 = len(A0)
            sp_ = sp.Matrix.hstack(*[vec(B) for B in A]) if A else sp.zeros(n2, 0)
            X[k] = (vec(A0), sp_)
        arg = X
        if rng.random() < .3 and all(isinstance(k, str) and k.startswith('S_') for k in D):
            arg = list(X.values())
        return SDPProblem(arg, free_symbols=syms if rng.random() < .5 and m else None), how, 'order'
    if how == 'asym':
        # extra skew directions which the symmetry constraint has to remove
        keys = list(D)
        cols = [sp.Matrix.vstack(*[vec(D[k][1][i]) for k in keys]) for i in range(m)]
        x0 = sp.Matrix.vstack(*[vec(D[k][0]) for k in keys])
        for _ in range(rng.randint(1, 2)):
            K = []
            for k in keys:
                n = D[k][0].shape[0]
                W = sp.zeros(n, n)
                for i in range(n):
                    for j in range(i):
                        if rng.random() < .6:
                            W[i, j] = q(rng, 2)
                            W[j, i] = -W[i, j]
                K.append(vec(W))
            K = sp.Matrix.vstack(*K)
            if any(K):
                cols.append(K)
                x0 = x0 - q(rng, 2) * K
        if not cols:
            cols = [sp.zeros(len(x0), 1)]
        return SDPProblem.from_full_x0_and_space(x0, sp.Matrix.hstack(*cols), {k: D[k][0].shape[0] for k in keys},
                                                 constrain_symmetry=True), how, None
    if how == 'equations':
        keys = list(D)
        if m == 0:
            B = sp.zeros(sum(len(D[k][0]) for k in keys), 1)
        else:
            B = sp.Matrix.hstack(*[sp.Matrix.vstack(*[vec(D[k][1][i]) for k in keys]) for i in range(m)])
        x0 = sp.Matrix.vstack(*[vec(D[k][0]) for k in keys])
        N = B.T.nullspace()
        if not N:
            eq, rhs = sp.zeros(1, len(x0)), sp.zeros(1, 1)
        else:
            eq = sp.Matrix.hstack(*N).T
            rhs = eq * x0
        return SDPProblem.from_equations(eq, rhs, {k: D[k][0].shape[0] for k in keys}), how, None
    # some of the parameters are symbols in the constant part
    c = rng.randint(0, m)
    X = {}
    for k, (A0, A) in D.items():
        n2 = len(A0)
        x = vec(A0)
        for s, B in zip(syms[c:], A[c:]):
            x = x + s * vec(B)
        sp_ = sp.Matrix.hstack(*[vec(B) for B in A[:c]]) if c else sp.zeros(n2, 0)
        X[k] = (x, sp_)
    return SDPProblem(X, free_symbols=syms[:c] if rng.random() < .5 else None), 'param', None


def in_affine(D, S):
    """do the matrices S lie in the affine family of the definition?"""
    rows, rhs = [], []
    for k, (A0, A) in D.items():
        for e in range(len(A0)):
            rows.append([fr(B[e]) for B in A])
            rhs.append(fr(S[k][e] - A0[e]))
    a, b = rank_aug(rows, rhs)
    return a == b


def affine_dim(D, extra):
    """dimension of the set of matrices of the family that satisfy extra(k, B) = -extra(k, A0) (None: empty)"""
    keys = list(D)
    m = len(D[keys[0]][1])
    rows, rhs = [], []
    for k in keys:
        A0, A = D[k]
        lhs = [extra(k, B) for B in A]
        c = extra(k, A0)
        for e in range(len(c)):
            rows.append([fr(l[e]) for l in lhs])
            rhs.append(fr(-c[e]))
    a, b = rank_aug(rows, rhs)
    if a != b:
        return None
    return m - a


def job_dual(j):
    common.use_repo()
    from triples.sdp.ipm import SDPRationalizeError
    from triples.sdp.utils import IteratorAlignmentError
    rng = random.Random(j['seed'])
    D, y0, kind = gen_dual(rng)
    S0 = S_at(D, y0)
    root, how, sy = build(rng, D, y0)
    out = {'st': 'none', 'how': how, 'kind': kind, 'bad': [], 'steps': [], 'n': 0, 'red': 0}
    desc = out['desc'] = {'def': descr(D), 'planted': str(y0), 'how': how}
    m = len(y0)
    if how in ('matrix', 'space'):
        # the symbolic view is the definition
        sym = root.S_from_y()
        A = list(root.free_symbols)
        exp_m = len(set().union(*[set().union(*[set([i]) if any(B) else set() for i, B in enumerate(A_)]) for _, A_ in D.values()])) if how == 'matrix' else m
        if len(A) != exp_m:
            out['bad'].append('%d free symbols instead of %d' % (len(A), exp_m))
        vals = {s: q(rng) for s in A}
        Sv = {k: M.xreplace(vals) for k, M in sym.items()}
        if any(M.has(sp.Symbol) for M in Sv.values()) or not in_affine(D, Sv):
            out['bad'].append('the symbolic matrices are not those of the problem')
    conds = []           # (function of a node's S) conditions on nodes
    last = root
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 2, 3])):
        step = rng.choice(['null', 'null', 'null', 'col', 'zero', 'zero', 'equal', 'sym', 'depar'])
        if how == 'param' and not conds and last is root and rng.random() < .8:
            step = 'depar'
        last = root.get_last_child()
        target = root
        keys = list(root.keys())
        try:
            if step in ('null', 'col'):
                if how == 'param' and last is root:
                    continue
                if step == 'col' and last is not root:
                    continue
                sub = {}
                for k in keys:
                    M = S0[k]
                    n = M.shape[0]
                    nb, cb = nullbasis(mat(M)) if n else ([], [])
                    use = nb if step == 'null' else cb
                    t = rng.random()
                    if step == 'null' and t < .3 and use:
                        use = [use[rng.randrange(len(use))]]
                    if step == 'null' and t > .9 and n:
                        use = [sp.Matrix([q(rng, 1, (1,)) for _ in range(n)])]
                    if step == 'null' and use and rng.random() < .2:
                        use = use + [use[0] * 2]       # redundant column
                    sub[k] = sp.Matrix.hstack(*use) if use else sp.zeros(n, 0)
                if step == 'col' and all(len(s) == 0 or not any(s) for s in sub.values()):
                    continue
                desc.setdefault('steps', []).append((step, {str(k): str(v.tolist()) for k, v in sub.items()}))
                given = {k: v.copy() for k, v in sub.items()}
                perp = given if step == 'null' else {
                    k: (sp.Matrix.hstack(*v.T.nullspace()) if v.T.nullspace() else sp.zeros(v.shape[0], 0)) if len(v) else sp.eye(root.get_size(k))
                    for k, v in given.items()}
                first = last is root
                try:
                    if step == 'null':
                        last = root.constrain_nullspace(sub, to_child=True)
                    else:
                        last = root.constrain_subspace(sub)
                    raised = False
                except ValueError:
                    raised = True
                if first and how in ('matrix', 'space'):
                    ext = lambda k, B: list(B * perp[k]) if len(perp[k]) else []
                    d = affine_dim(D, ext)
                    out['red'] += 1
                    if (d is None) != raised:
                        out['bad'].append('%s step: %s' % (step, 'refused although consistent' if raised else 'accepted although inconsistent'))
                    elif d is not None:
                        # the child describes exactly the reduced family: as many matrices, all within it
                        dep = affine_dim(D, lambda k, B: list(B))  # noqa
                        if last is not root and how == 'space' and last.dof != d:
                            out['bad'].append('%s step: %d free parameters, exactly %d remain' % (step, last.dof, d))
                if raised:
                    out['st'] = 'inconsistent'
                    break
                conds.append((root, lambda S, P=perp: all(not any(S[k] * P[k]) for k in P if len(P[k])), step))
            elif step == 'zero':
                if how == 'param' and last is root:
                    continue
                nd = rng.choice([root, last]) if last is root else last
                zd = None
                if nd is root:
                    zd = {k: [i for i in range(A0.shape[0]) if A0[i, i] == 0 and all(B[i, i] == 0 for B in A)] for k, (A0, A) in D.items()}
                desc.setdefault('steps', []).append(('zero', str(zd)))
                rec = rng.random() < .7
                try:
                    new = nd.constrain_zero_diagonals(recursive=rec)
                    raised = False
                except ValueError:
                    raised = True
                if zd is not None and how in ('matrix', 'space') and rec is False:
                    out['red'] += 1
                    ext = lambda k, B: [B[i, jj] for i in zd[k] for jj in range(B.shape[0])]
                    d = affine_dim(D, ext)
                    if (d is None) != raised:
                        out['bad'].append('zero diagonals: %s' % ('refused although consistent' if raised else 'accepted although inconsistent'))
                    elif d is not None and how == 'space' and new.dof != d:
                        out['bad'].append('zero diagonals: %d free parameters, exactly %d remain' % (new.dof, d))
                    elif d is not None and new is not nd:
                        if {k: new.get_size(k) for k in new.keys()} != {k: A0.shape[0] - len(zd[k]) for k, (A0, A) in D.items()}:
                            out['bad'].append('zero diagonals: sizes %s' % new.size)
                if raised:
                    out['st'] = 'inconsistent'
                    # an inconsistent reduction of feasible problem is wrong
                    if zd is not None and kind in ('full', 'low') and last is root:
                        out['bad'].append('zero diagonals declared inconsistent although a feasible point exists')
                    break
            elif step == 'equal':
                k = rng.choice(list(last.keys()) or [None])
                if k is None or last.get_size(k) < 2:
                    continue
                n = last.get_size(k)
                M = S0[k] if last is root and k in S0 else None
                prs = []
                for _ in range(rng.randint(1, 2)):
                    p1 = (rng.randrange(n), rng.randrange(n))
                    c = [(i, jj) for i in range(n) for jj in range(n) if M is None or M[i, jj] == M[p1]]
                    prs.append((p1, rng.choice(c)))
                desc.setdefault('steps', []).append(('equal', str(k), str(prs)))
                nd = last
                try:
                    last = last.constrain_equal_entries({k: prs})
                except ValueError:
                    out['st'] = 'inconsistent'
                    break
                conds.append((nd, lambda S, k=k, prs=prs: all(S[k][a] == S[k][b] for a, b in prs), 'equal'))
            elif step == 'sym':
                desc.setdefault('steps', []).append(('sym',))
                last.constrain_symmetry()
            else:
                desc.setdefault('steps', []).append(('depar',))
                root.deparametrize()
        except NotImplementedError:
            continue
        last = root.get_last_child()
    if out['st'] != 'inconsistent':
        if how == 'param':
            root.deparametrize()
        node = root
        o = solve_opts(rng, root.get_last_child())
        if how == 'param':
            o.pop('solve_child', None)
        desc['opts'] = str(o)
        leaf = root.get_last_child()
        if o.get('solve_child') is False:
            leaf = root
            conds = []
            if root.children:
                o = {'solve_child': False}
        try:
            ok = root.solve(**o)
        except SDPRationalizeError:
            ok = False
            out['st'] = 'refused'
        except IteratorAlignmentError:
            ok = False
        if ok and (leaf.y is None or root.y is None):
            out['bad'].append('success reported but no parameters stored')
        if ok:
            out['st'] = 'solved'
        elif out['st'] == 'none' and root.y is not None:
            out['bad'].append('failure reported but parameters stored')
        if rng.random() < .3 and ok:
            # a second attempt, possibly with other wishes
            try:
                o = solve_opts(rng, root.get_last_child())
                o.pop('solve_child', None)
                root.solve(**o)
            except (SDPRationalizeError, IteratorAlignmentError):
                pass
    out['n'] += check_all(root, D, conds, out, kind, how)
    # registration by hand
    if how in ('matrix', 'space', 'asym') and rng.random() < .4 and not root.children:
        before = (root.y, root.S, root.decompositions)
        if how == 'space':
            y = sp.Matrix(y0) if m else sp.zeros(0, 1)
            if rng.random() < .5 and m:
                y = y + sp.Matrix([q(rng) for _ in range(m)])
            want = all(psd(mat(M)) for M in S_at(D, list(y)).values())
        else:
            y = sp.Matrix([q(rng, 2) for _ in range(root.dof)]) if root.dof else sp.zeros(0, 1)
            want = all(psd(mat(M)) for M in root.S_from_y(y).values())
        try:
            form = rng.choice(['col', 'row']) if m and how == 'space' else 'col'
            root.register_y(y.T if form == 'row' else y)
            got = True
        except ValueError:
            got = False
        out['reg'] = got
        if got != want:
            out['bad'].append('register_y %s' % ('accepted a point that is not feasible' if got else 'refused a feasible point'))
        if not got and (root.y, root.S, root.decompositions) != before:
            out['bad'].append('a refused registration changed the stored solution')
        if got and form == 'col':
            out['n'] += check_all(root, D, conds, out, kind, how)
    return out


def check_all(root, D, conds, out, kind, how):
    n = 0
    for i, nd in enumerate(nodes(root)):
        if nd.y is None:
            continue
        n += 1
        if how == 'param' and any(M.free_symbols for M in nd.S_from_y(nd.y).values()):
            continue       # its matrices contain parameters
        b = judge_node(nd, 'node %d' % i)
        if b:
            out['bad'].append(b)
    if root.y is not None and root.S is not None:
        S = root.S
        if set(S) != set(D):
            out['bad'].append('keys of the solution')
        else:
            if kind == 'infeasible':
                out['bad'].append('an infeasible problem was solved')
            if not in_affine(D, S):
                out['bad'].append('the matrices violate the affine constraints of the problem')
            if any(not psd(mat(M)) for M in S.values()):
                out['bad'].append('the matrices of the problem are not positive semidefinite')
            for nd, f, name in conds:
                if nd.S is not None and not f(nd.S):
                    out['bad'].append('the %s constraint does not hold' % name)
            if hasattr(root, 'as_params') and how == 'matrix':
                v = root.as_params()
                if any(any(sp.expand(a - b) for a, b in zip(M.xreplace(v), S[k])) for k, M in root.S_from_y().items()):
                    out['bad'].append('as_params does not give the matrices')
    return n


# ---------------------------------------------------------------- primal
def job_primal(j):
    common.use_repo()
    from triples.sdp import SDPPrimal
    from triples.sdp.ipm import SDPRationalizeError
    rng = random.Random(j['seed'])
    nb = rng.choice([1, 1, 2, 3])
    keys = ['S_%d' % i for i in range(nb)]
    sizes = {k: rng.choice([1, 2, 2, 3, 3]) for k in keys}
    kind = rng.choice(['full', 'low', 'low', 'zero'])
    X0 = {}
    for k in keys:
        n = sizes[k]
        X0[k] = rpsd(rng, n, n + 1 if kind == 'full' else rng.randint(0, n))
        if kind == 'zero':
            i = rng.randrange(n)
            for t in range(n):
                X0[k][i, t] = X0[k][t, i] = 0
    E = rng.randint(1, 4)
    A = {k: [rsym(rng, sizes[k], rng.choice([.4, 1])) if rng.random() < .8 else sp.zeros(sizes[k]) for _ in range(E)] for k in keys}
    asym = rng.random() < .2
    oneside = False
    if kind == 'zero':
        # equations that state the zero diagonals: directly, summed, or only after others were found
        for e in range(E):
            if rng.random() < .6:
                c = rng.choice([1, 1, 2, -1, -1])
                for k in keys:
                    A[k][e] = sp.zeros(sizes[k])
                    for i in range(sizes[k]):
                        if not any(X0[k][i, :]) and rng.random() < .8:
                            A[k][e][i, i] = c * rng.choice([1, 1, 3])
                            for t in range(sizes[k]):
                                if t != i and rng.random() < .3:
                                    A[k][e][i, t] = A[k][e][t, i] = q(rng, 1)
    if rng.random() < .12:
        # one equation: a diagonal entry and an off-diagonal one stored on one side only
        k = rng.choice(keys)
        n = sizes[k]
        if n > 1:
            i, t = rng.sample(range(n), 2)
            for k2 in keys:
                A[k2][0] = sp.zeros(sizes[k2])
            A[k][0][i, i] = -X0[k][i, t] or sp.Integer(1)
            A[k][0][i, t] = X0[k][i, i]
            A[k][0][i, i] *= rng.choice([1, 2])
            A[k][0][i, t] *= rng.choice([1, 2])
            oneside = True
    asym = asym or oneside
    if asym and not oneside:
        for k in keys:
            for e in range(E):
                n = sizes[k]
                for i in range(n):
                    for t in range(i):
                        s = q(rng, 2)
                        A[k][e][i, t] += s
                        A[k][e][t, i] -= s
    b = [sum(sum(a * x for a, x in zip(A[k][e], X0[k])) for k in keys) for e in range(E)]
    bad_kind = rng.random() < .12
    if bad_kind:
        A[keys[0]].append(sp.eye(sizes[keys[0]]))
        for k in keys[1:]:
            A[k].append(sp.zeros(sizes[k]))
        b.append(sp.Integer(-1))
        E += 1
    if rng.random() < .15:
        # a redundant equation, sometimes contradicting the others
        e = rng.randrange(E)
        for k in keys:
            A[k].append(2 * A[k][e])
        b.append(2 * b[e])
        E += 1
        if rng.random() < .3:
            b[-1] += 1
            bad_kind = True
    space = {k: sp.Matrix.vstack(*[M.reshape(1, sizes[k]**2) for M in A[k]]) for k in keys}
    x0 = sp.Matrix(b)
    if rng.random() < .5:
        P = SDPPrimal(x0, {k: v.copy() for k, v in space.items()})
    else:
        P = SDPPrimal.from_full_x0_and_space(x0, sp.Matrix.hstack(*[space[k] for k in keys]), sizes)
    desc = {'A': {k: [str(M.tolist()) for M in A[k]] for k in keys}, 'b': str(b), 'planted': {k: str(M.tolist()) for k, M in X0.items()}, 'steps': []}
    out = {'st': 'none', 'how': 'primal', 'kind': 'infeasible' if bad_kind else kind, 'bad': [], 'n': 0, 'red': 0, 'desc': desc}
    if asym and rng.random() < .5:
        P.constrain_symmetry()
        desc['steps'].append('sym')
    conds = []
    zrows = None
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        step = rng.choice(['zero', 'zero', 'null', 'dual'])
        last = P.get_last_child()
        if last.is_dual:
            break
        if step == 'zero':
            rec = rng.random() < .7
            try:
                new = last.constrain_zero_diagonals(recursive=rec)
            except ValueError:
                out['st'] = 'inconsistent'
                break
            desc['steps'].append('zero')
            if new is not last and last is P and not bad_kind:
                # a sound reduction keeps every feasible point: the planted one has zeros in the removed rows
                out['red'] += 1
                for k in keys:
                    r = sp.Matrix(X0[k]).rank() if sizes[k] else 0
                    if new.get_size(k) < r:
                        out['bad'].append('zero diagonals: block %s reduced to size %d, a feasible point has rank %d' % (k, new.get_size(k), r))
        elif step == 'null':
            if P.children:
                continue
            N = {}
            for k in keys:
                nb_, _ = nullbasis(mat(X0[k]))
                N[k] = sp.Matrix.hstack(*nb_) if nb_ and rng.random() < .8 else sp.zeros(sizes[k], 0)
            P.constrain_nullspace({k: v.copy() for k, v in N.items()}, to_child=rng.random() < .5)
            desc['steps'].append(('null', {k: str(v.tolist()) for k, v in N.items()}))
            conds.append((P, lambda S, N=N: all(not any(S[k] * N[k]) for k in N if len(N[k])), 'null'))
        else:
            desc['steps'].append('dual')
            try:
                last.to_dual()
            except ValueError:
                out['st'] = 'inconsistent'
                full = [[fr(x) for k in keys for x in A[k][e]] for e in range(E)]
                a, c = rank_aug(full, [fr(x) for x in b])
                if a == c and not desc['steps'][:-1]:
                    out['bad'].append('consistent equations were refused by to_dual')
                break
    if out['st'] == 'inconsistent':
        return out
    o = {}
    if rng.random() < .2:
        o['solver'] = 'picos'
    if rng.random() < .1:
        o['scaling'] = rng.choice([0, 100.])
    desc['opts'] = str(o)
    try:
        ok = P.solve(**o)
    except SDPRationalizeError:
        ok = False
        out['st'] = 'refused'
    if ok:
        out['st'] = 'solved'
        if P.y is None or P.S is None:
            out['bad'].append('success reported but no parameters stored')
    for i, nd in enumerate(nodes(P)):
        if nd.y is None:
            continue
        out['n'] += 1
        bd = judge_node(nd, 'node %d %s' % (i, type(nd).__name__))
        if bd:
            out['bad'].append(bd)
    if rng.random() < .3 and not P.children:
        full = [[fr(x) for k in keys for x in A[k][e]] for e in range(E)]
        if asym:
            full = [[fr(x) for k in keys for x in (A[k][e] + A[k][e].T) / 2] for e in range(E)]
        before = (P.y, P.S, P.decompositions)
        sym = P.S_from_y()
        if any(M.shape != (sizes[k], sizes[k]) or M != M.T for k, M in sym.items()):
            out['bad'].append('the symbolic matrices are not symmetric of the right size')
        Y = {k: X0[k] if rng.random() < .5 else X0[k] + rsym(rng, sizes[k], .5, 1) / rng.choice([1, 10, 100]) for k in keys}
        a, c = rank_aug(full, [fr(x) for x in b])
        try:
            P.register_y(sp.Matrix.vstack(*[vec(Y[k]) for k in keys]))
            got = True
        except ValueError:
            got = False
        out['reg'] = got
        if got and a != c:
            out['bad'].append('a point was registered for inconsistent equations')
        if not got and a == c and Y == X0 and not bad_kind:
            out['bad'].append('register_y refused a feasible point')
        if not got and (P.y, P.S, P.decompositions) != before:
            out['bad'].append('a refused registration changed the stored solution')
        if got:
            bd = judge_node(P, 'registered')
            if bd:
                out['bad'].append(bd)
    if P.S is not None:
        S = P.S
        if bad_kind:
            out['bad'].append('an infeasible problem was solved')
        for e in range(E):
            v = sum(sum(a * x for a, x in zip(A[k][e], S[k])) for k in keys)
            if v != b[e]:
                out['bad'].append('equation %d: %s instead of %s' % (e, v, b[e]))
                break
        for nd, f, name in conds:
            if not f(S):
                out['bad'].append('the %s constraint does not hold' % name)
    return out


def job(j):
    return job_primal(j) if j['t'] == 'primal' else job_dual(j)


def run(chk):
    rng = chk.rng
    js = [{'t': 'dual', 'seed': rng.randrange(1 << 40)} for _ in range(chk.n(700, 25000))]
    js += [{'t': 'primal', 'seed': rng.randrange(1 << 40)} for _ in range(chk.n(300, 10000))]
    rng.shuffle(js)
    for i, j, r in common.pmap(job, js, cpu=chk.n(10, 60), deadline=chk.deadline - 60, recycle=100):
        if r[0] != 'ok':
            chk.count('job_' + r[0])
            if r[0] == 'exc':
                chk.violation('constructing, reducing or solving raised', {'job': j, 'exc': r[1]})
            continue
        r = r[1]
        chk.count('%s_%s' % (j['t'], r['st']))
        chk.count('nodes_examined', r['n'])
        chk.count('reductions_compared', r['red'])
        if 'reg' in r:
            chk.count('registered' if r['reg'] else 'registration_refused')
        if r['st'] == 'solved':
            chk.count('solved_' + r['how'])
        chk.observe(('j', j['seed']), nontrivial=r['n'] + r['red'] > 0,
                    sample={'how': r['how'], 'steps': str(r['desc'].get('steps'))[:150], 'status': r['st'], 'nodes': r['n']})
        for b in r['bad'][:3]:
            chk.violation(b if len(b) < 90 else b[:90], {'job': j, 'why': r['bad'], 'desc': r['desc']})
    chk.require('dual_solved', chk.n(150, 1000))
    chk.require('primal_solved', chk.n(60, 500))
    chk.require('reductions_compared', chk.n(80, 800))
