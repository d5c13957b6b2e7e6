"""C16 exact linear algebra: every kernel of triples.sdp.arithmetic / Mat2Vec / S_from_y /
decompose_matrix against schoolbook arithmetic on fractions."""
import random
from fractions import Fraction as F
import sympy as sp
from vt import common
common.use_repo()

RULE = ('random matrices of every shape (0..7 rows/columns), sparsity, rank and entry size (1 bit to 200 bits, 32/63/64-bit '
        'boundaries, rationals, surds), dense and sparse internal representations; non-trivial: the operands are not all zero '
        'or the shape is empty; judged by schoolbook elimination/multiplication on python fractions')

EDGE = [2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**62, 2**63 - 1, -2**63, 2**63, -2**63 + 1, 2**64, 3037000499, 3037000500]


def rnd_entry(rng, kind):
    k = kind
    if k == 'mix':
        k = rng.choice(['small', 'small', 'edge', 'big', 'rat', 'bigrat'])
    if k == 'small':
        return F(rng.randint(-3, 3))
    if k == 'int':
        return F(rng.randint(-10**4, 10**4))
    if k == 'edge':
        return F(rng.choice(EDGE))
    if k == 'mid':
        return F(rng.choice([-1, 1]) * rng.randint(2**28, 2**33))
    if k == 'big':
        return F(rng.randint(-2**90, 2**90))
    if k == 'rat':
        return F(rng.randint(-9, 9), rng.randint(1, 9))
    return F(rng.randint(-2**70, 2**70), rng.randint(1, 2**66))


KINDS = ['small', 'small', 'int', 'edge', 'mid', 'big', 'rat', 'rat', 'bigrat', 'mix']


def rnd_mat(rng, r, c, kind=None, dens=None, rank=None):
    kind = kind or rng.choice(KINDS)
    dens = dens if dens is not None else rng.choice([.2, .5, .8, 1])
    if rank is not None and r and c:
        A = rnd_mat(rng, r, rank, 'small' if kind in ('edge', 'mix') else kind, 1)
        B = rnd_mat(rng, rank, c, 'small', dens)
        return mul(A, B, r, rank, c)
    return [[rnd_entry(rng, kind) if rng.random() < dens else F(0) for _ in range(c)] for _ in range(r)]


def mul(A, B, r, k, c):
    return [[sum((A[i][t] * B[t][j] for t in range(k)), F(0)) for j in range(c)] for i in range(r)]


def to_sp(rng, M, r, c):
    """A sympy matrix in one of its internal representations."""
    q = [sp.Rational(x.numerator, x.denominator) for row in M for x in row]
    m = sp.Matrix(r, c, q)
    k = rng.random()
    if r and c and k < .6:
        from sympy.polys.matrices import DomainMatrix
        dm = m._rep
        if k < .2:
            dm = dm.to_field()
        if k < .1 or .3 < k < .5:
            dm = dm.to_sparse()
        elif k < .4:
            dm = dm.to_dense()
        m = sp.Matrix._fromrep(dm)
    return m


def fr(m):
    r, c = m.shape
    return [[F(int(sp.Rational(m[i, j]).p), int(sp.Rational(m[i, j]).q)) for j in range(c)] for i in range(r)]


def rank_of(M, c):
    M = [row[:] for row in M]
    rk = 0
    for j in range(c):
        p = next((i for i in range(rk, len(M)) if M[i][j] != 0), None)
        if p is None:
            continue
        M[rk], M[p] = M[p], M[rk]
        for i in range(rk + 1, len(M)):
            if M[i][j] != 0:
                f = M[i][j] / M[rk][j]
                M[i] = [x - f * y for x, y in zip(M[i], M[rk])]
        rk += 1
    return rk


def rref_of(M, c):
    M = [row[:] for row in M]
    rk = 0
    piv = []
    for j in range(c):
        p = next((i for i in range(rk, len(M)) if M[i][j] != 0), None)
        if p is None:
            continue
        M[rk], M[p] = M[p], M[rk]
        d = M[rk][j]
        M[rk] = [x / d for x in M[rk]]
        for i in range(len(M)):
            if i != rk and M[i][j] != 0:
                f = M[i][j]
                M[i] = [x - f * y for x, y in zip(M[i], M[rk])]
        piv.append(j)
        rk += 1
    return M, piv


def tight(rng, r, c, bits):
    """same-signed entries of the given size, coprime so that no content is pulled out"""
    sg = rng.choice([1, -1])
    M = [[F(sg * rng.randint(2**bits - max(1, 2**(bits - 1) // 2), 2**bits - 1)) for _ in range(c)] for _ in range(r)]
    if r and c and rng.random() < .5:
        M[rng.randrange(r)][rng.randrange(c)] = F(1)
    return M


class Out:
    def __init__(self):
        self.bad, self.obs, self.c = [], [], {}

    def b(self, what, **d):
        self.bad.append((what, {k: str(v)[:600] for k, v in d.items()}))


def check_solution(out, tag, A, b, r, c, x0, space, det, bc=1, eqs=()):
    """x0 + span(space) must be exactly the solution set of A x = b with the equalities."""
    A = [row[:] for row in A]
    b = [row[:] for row in b]
    for g in eqs:
        for i in g[1:]:
            row = [F(0)] * c
            row[g[0]] += 1
            row[i] -= 1
            A.append(row)
            b.append([F(0)] * bc)
    aug = [x + y for x, y in zip(A, b)]
    rk = rank_of(A, c)
    consistent = rank_of(aug, c + bc) == rk
    if isinstance(x0, Exception):
        if consistent:
            out.b(tag + ': a solvable system was reported as inconsistent', **det)
        return 'inconsistent'
    if not consistent:
        out.b(tag + ': an inconsistent system was solved', x0=x0, **det)
        return 'inconsistent'
    if x0.shape != (c, bc) or space.shape[0] != c:
        out.b(tag + ': shape', x0=x0.shape, space=space.shape, **det)
        return 'bad'
    fx, fs = fr(x0), fr(space)
    n = len(A)
    if mul(A, fx, n, c, bc) != b:
        out.b(tag + ': particular solution is wrong', x0=x0, **det)
    k = space.shape[1]
    if k and mul(A, fs, n, c, k) != [[F(0)] * k for _ in range(n)]:
        out.b(tag + ': null space is wrong', space=space, **det)
    elif rank_of([list(t) for t in zip(*fs)], c) != c - rk:
        out.b(tag + ': solution space has the wrong dimension', space=space, **det)
    return 'solved'


def j_matmul(rng, out):
    from triples.sdp.arithmetic import matmul
    r, k, c = rng.randint(0, 6), rng.randint(0, 6), rng.randint(0, 6)
    if rng.random() < .7:
        r, k, c = max(r, 1), max(k, 1), max(c, 1)
    A, B = rnd_mat(rng, r, k), rnd_mat(rng, k, c)
    if rng.random() < .25:
        ab = rng.randint(1, 62)
        A, B = tight(rng, r, k, ab), tight(rng, k, c, max(1, 63 - ab + rng.randint(-3, 1)))
    want = mul(A, B, r, k, c)
    sA, sB = to_sp(rng, A, r, k), to_sp(rng, B, k, c)
    shape = None
    if rng.random() < .3 and r * c:
        shape = rng.choice([(1, r * c), (r * c, 1)])
        want = [[x for row in want for x in row]]
        if shape[1] == 1:
            want = [[x] for x in want[0]]
    got = matmul(sA, sB, return_shape=shape) if shape else matmul(sA, sB)
    det = dict(A=sA, B=sB, shape=shape)
    if got.shape != (shape or (r, c)) or fr(got) != want:
        out.b('matrix product', got=got, **det)
    if fr(sA) != A or fr(sB) != B:
        out.b('operand modified', **det)
    return ('matmul', str(sA), str(sB))


def j_multi(rng, out):
    from triples.sdp.arithmetic import matmul_multiple, symmetric_bilinear_multiple, symmetric_bilinear
    N, n, m = rng.randint(0, 4), rng.randint(0 if rng.random() < .1 else 1, 4), rng.randint(0 if rng.random() < .1 else 1, 4)
    kind = rng.choice(KINDS)
    A, U = rnd_mat(rng, N, n * n, kind), rnd_mat(rng, n, m, rng.choice([kind, 'small']))
    if rng.random() < .3:     # sums just around the 64-bit limit
        ub = rng.randint(1, 31)
        ab = max(1, 63 - rng.choice([1, 2]) * ub + rng.randint(-4, 1))
        A, U = tight(rng, N, n * n, ab), tight(rng, n, m, ub)
    sA, sU = to_sp(rng, A, N, n * n), to_sp(rng, U, n, m)
    mats = [[A[t][i * n:(i + 1) * n] for i in range(n)] for t in range(N)]
    det = dict(A=sA, U=sU, N=N, n=n, m=m)
    got = matmul_multiple(sA, sU)
    want = [[x for row in mul(M, U, n, n, m) for x in row] for M in mats]
    if got.shape != (N, n * m) or fr(got) != want:
        out.b('stacked matrix products', got=got, **det)
    UT = [list(t) for t in zip(*U)] if n else [[] for _ in range(m)]
    want = [[x for row in mul(UT, mul(M, U, n, n, m), m, n, m) for x in row] for M in mats]
    if n:
        got = symmetric_bilinear_multiple(sU, sA)
        if got.shape != (N, m * m) or fr(got) != want:
            out.b('stacked congruences U.T*A*U', got=got, **det)
        for t in range(min(N, 2) if m else 0):
            v = to_sp(rng, [A[t]], 1, n * n)
            g2 = symmetric_bilinear(sU, v, is_A_vec=True, return_shape=(1, m * m))
            g3 = symmetric_bilinear(sU, to_sp(rng, mats[t], n, n))
            if fr(g2) != [want[t]] or [x for row in fr(g3) for x in row] != want[t]:
                out.b('congruence U.T*A*U', got=g2, got2=g3, **det)
    if fr(sA) != A or fr(sU) != U:
        out.b('operand modified', **det)
    return ('multi', str(sA), str(sU))


def j_rref(rng, out):
    from triples.sdp.arithmetic import _rref
    r, c = rng.randint(1, 6), rng.randint(1, 7)
    A = rnd_mat(rng, r, c, rank=rng.choice([None, None, rng.randint(1, min(r, c))]))
    sA = to_sp(rng, A, r, c)
    flag = rng.random() < .5
    got, piv = _rref(sA, normalize_last=flag)
    want, wp = rref_of(A, c)
    if fr(got) != want or list(piv) != wp:
        out.b('reduced row echelon form', A=sA, got=got, pivots=piv, flag=flag)
    if fr(sA) != A:
        out.b('operand modified', A=sA)
    return ('rref', str(sA), flag)


def again(rng, eqs):
    """an orbit is listed again, in another order (as the semidefinite solver does)"""
    if eqs and rng.random() < .4:
        for g in rng.sample(eqs, rng.randint(1, len(eqs))):
            h = g[:]
            rng.shuffle(h)
            eqs.insert(rng.randint(0, len(eqs)), h)


def j_solve(rng, out):
    from triples.sdp.arithmetic import solve_undetermined_linear, solve_csr_linear
    r, c, bc = rng.randint(1, 6), rng.randint(1, 7), rng.choice([1, 1, 1, 2, 3])
    kind = rng.choice(KINDS)
    A = rnd_mat(rng, r, c, kind, rank=rng.choice([None, rng.randint(1, min(r, c))]))
    if rng.random() < .3:
        A[rng.randrange(r)] = [F(0)] * c
    if rng.random() < .3:
        j = rng.randrange(c)
        for row in A:
            row[j] = F(0)
    b = mul(A, rnd_mat(rng, c, bc, 'rat'), r, c, bc) if rng.random() < .6 else rnd_mat(rng, r, bc, 'small')
    sA, sb = to_sp(rng, A, r, c), to_sp(rng, b, r, bc)
    det = dict(A=sA, b=sb)
    try:
        x0, space = solve_undetermined_linear(sA, sb)
    except ValueError as e:
        x0, space = e, None
    k = check_solution(out, 'solve_undetermined_linear', A, b, r, c, x0, space, det, bc)
    out.c[k] = out.c.get(k, 0) + 1
    if fr(sA) != A or fr(sb) != b:
        out.b('operand modified', **det)
    # row-compressed form with equal entries
    eqs = []
    if rng.random() < .6 and c > 1:
        idx = list(range(c))
        rng.shuffle(idx)
        while idx and rng.random() < .8:
            k = rng.randint(1, min(3, len(idx)))
            eqs.append(sorted(idx[:k]))
            idx = idx[k:]
    again(rng, eqs)
    b1 = [row[:1] for row in b]
    if rng.random() < .7:
        x = [[rnd_entry(rng, 'rat')] for _ in range(c)]
        for g in eqs:
            for i in g:
                x[i] = x[g[0]]
        b1 = mul(A, x, r, c, 1)
    sb1 = to_sp(rng, b1, r, 1)
    det = dict(A=sA, b=sb1, equal=eqs)
    try:
        x0, space = solve_csr_linear(sA, sb1, [g[:] for g in eqs])
    except ValueError as e:
        x0, space = e, None
    k = check_solution(out, 'solve_csr_linear', A, b1, r, c, x0, space, det, 1, eqs)
    out.c['csr ' + k] = out.c.get('csr ' + k, 0) + 1
    if fr(sA) != A or fr(sb1) != b1:
        out.b('operand modified', **det)
    return ('solve', str(sA), str(sb), str(sb1), str(eqs))


def j_sep(rng, out):
    """column-separated systems: at most one nonzero entry per column"""
    from triples.sdp.arithmetic import solve_csr_linear, solve_column_separated_linear
    r, c = rng.randint(1, 6), rng.randint(1, 9)
    kind = rng.choice(KINDS)
    A = [[F(0)] * c for _ in range(r)]
    full = rng.random() < .6
    for j in range(c):
        if full or rng.random() < .8:
            v = rnd_entry(rng, kind)
            A[rng.randrange(r)][j] = v if v else F(1)
    eqs = []
    mode = rng.random()
    if mode < .7:
        idx = list(range(c))
        rng.shuffle(idx)
        while idx and rng.random() < .8:
            k = rng.randint(1, min(3, len(idx)))
            g = idx[:k]
            idx = idx[k:]
            if mode < .5:     # as the semidefinite solver does: identical columns
                for i in g[1:]:
                    for row in A:
                        row[i] = row[g[0]]
            eqs.append(g)
        again(rng, eqs)
    if rng.random() < .8:
        x = [[rnd_entry(rng, 'rat')] for _ in range(c)]
        for g in eqs:
            for i in g:
                x[i] = x[g[0]]
        b = mul(A, x, r, c, 1)
    else:
        b = rnd_mat(rng, r, 1, 'small')
    sA, sb = to_sp(rng, A, r, c), to_sp(rng, b, r, 1)
    det = dict(A=sA, b=sb, equal=eqs)
    fs = [('solve_csr_linear', solve_csr_linear)]
    if mode < .5 or mode >= .7:
        fs.append(('solve_column_separated_linear', solve_column_separated_linear))
    for tag, f in fs:
        try:
            x0, space = f(sA, sb, [g[:] for g in eqs])
        except ValueError as e:
            x0, space = e, None
        k = check_solution(out, tag, A, b, r, c, x0, space, det, 1, eqs)
        out.c['separated ' + k] = out.c.get('separated ' + k, 0) + 1
    if fr(sA) != A or fr(sb) != b:
        out.b('operand modified', **det)
    return ('sep', str(sA), str(sb), str(eqs))


def j_null(rng, out):
    from triples.sdp.arithmetic import solve_nullspace
    r, c = rng.randint(1, 6), rng.randint(1, 6)
    A = rnd_mat(rng, r, c, rank=rng.choice([None, rng.randint(1, min(r, c))]))
    sA = to_sp(rng, A, r, c)
    got = solve_nullspace(sA)     # vectors v with A.T v = 0
    rk = rank_of(A, c)
    k = got.shape[1]
    AT = [list(t) for t in zip(*A)]
    g = fr(got)
    if got.shape[0] != r or k != r - rk or (k and (mul(AT, g, c, r, k) != [[F(0)] * k for _ in range(c)] or
                                                   rank_of([list(t) for t in zip(*g)], r) != k)):
        out.b('null space', A=sA, got=got)
    return ('null', str(sA))


def j_vec(rng, out):
    from triples.sdp.utils import Mat2Vec, S_from_y, decompose_matrix
    import numpy as np
    n = rng.randint(1, 5)
    M = rnd_mat(rng, n, n)
    for i in range(n):
        for j in range(i):
            M[i][j] = M[j][i]
    sM = to_sp(rng, M, n, n)
    v = Mat2Vec.mat2vec(sM)
    if fr(v) != [[x] for row in M for x in row] or fr(Mat2Vec.vec2mat(v)) != M or fr(Mat2Vec.vec2mat(v.T)) != M:
        out.b('vectorisation of a matrix', M=sM, got=v)
    if Mat2Vec.length_of_vec(n) != n * n or Mat2Vec.length_of_mat(n * n) != n or \
            Mat2Vec.length_of_vec(n, Mat2Vec.UPPER) != n * (n + 1) // 2 or Mat2Vec.length_of_mat(n * (n + 1) // 2, Mat2Vec.UPPER) != n:
        out.b('lengths of vectorised matrices', n=n)
    up = list(Mat2Vec.upper_vec_of_symmetric_matrix(sM))
    if [F(int(x.p), int(x.q)) for x in up] != [M[i][j] for i in range(n) for j in range(i, n)]:
        out.b('upper triangle', M=sM, got=up)
    if fr(Mat2Vec.symmetric_matrix_from_upper_vec(sp.Matrix(up))) != M:
        out.b('matrix from its upper triangle', M=sM)
    a = np.array([float(x) for x in up])
    if not np.array_equal(Mat2Vec.symmetric_matrix_from_upper_vec(a), np.array([[float(x) for x in row] for row in M])):
        out.b('float matrix from its upper triangle', M=sM)
    if list(Mat2Vec.upper_vec_of_symmetric_matrix(n, return_inds=True)) != [(i, j) for i in range(n) for j in range(i, n)]:
        out.b('upper triangle indices', n=n)
    # S(y) = x0 + space*y
    d = rng.randint(0, 3)
    keys = {}
    want = {}
    y = rnd_mat(rng, d, 1, 'rat')
    for key in rng.sample('abc', rng.randint(1, 3)):
        k = rng.randint(1, 3)
        x0, sps = rnd_mat(rng, k * k, 1, 'rat', 1), rnd_mat(rng, k * k, d, 'rat')
        w = mul(sps, y, k * k, d, 1)
        want[key] = [[x0[i * k + j][0] + w[i * k + j][0] for j in range(k)] for i in range(k)]
        keys[key] = (to_sp(rng, x0, k * k, 1), to_sp(rng, sps, k * k, d))
    if d:
        got = S_from_y(to_sp(rng, y, d, 1), keys)
        if set(got) != set(want) or any(fr(got[k]) != want[k] for k in want):
            out.b('matrix of a parameter vector', data=keys, y=y, got=got)
    # affine matrices
    vs = sp.symbols('u v w')[:rng.randint(1, 3)]
    k1, k2 = rng.randint(1, 3), rng.randint(1, 3)
    cs = [rnd_mat(rng, k1, k2, 'rat') for _ in range(len(vs) + 1)]
    sx = sum((to_sp(rng, c_, k1, k2) * s for c_, s in zip(cs, (sp.S(1),) + vs)), sp.zeros(k1, k2))
    if rng.random() < .5:
        sx = sx.applyfunc(lambda e: (e + 1) - sp.S(1) if rng.random() < .5 else e)
    x, A, vv = decompose_matrix(sx, list(vs) if rng.random() < .7 or set(vs) != sx.free_symbols else None)
    flat = lambda m: [m[i][j] for i in range(k1) for j in range(k2)]
    if [t[0] for t in fr(x)] != flat(cs[0]) or fr(A) != [list(t) for t in zip(*[flat(c_) for c_ in cs[1:]])] or list(vv) != list(vs):
        out.b('affine parts of a symbolic matrix', M=sx, x=x, A=A)
    # slices of a stacked vector
    ch = [rng.choice([rng.randint(0, 4), None, list(range(rng.randint(0, 3))), sp.zeros(2, rng.randint(1, 3))]) for _ in range(rng.randint(0, 4))]
    L = [0 if t is None else t if isinstance(t, int) else len(t) if isinstance(t, list) else t.shape[1] for t in ch]
    st, w = 0, []
    for l in L:
        if l > 0:
            w.append(slice(st, st + l * l))
            st += l * l
    if Mat2Vec.split_vector(ch) != w:
        out.b('slices of a stacked vector', chunks=ch)
    return ('vec', str(sM), str(sx))


def j_alg(rng, out):
    """entries in a quadratic field and symbolic entries take the generic paths"""
    from triples.sdp.arithmetic import matmul, solve_undetermined_linear, symmetric_bilinear
    s = sp.sqrt(rng.choice([2, 3, 5]))
    r, k, c = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
    mk = lambda a, b: sp.Matrix(a, b, [rng.randint(-3, 3) + rng.randint(-2, 2) * s for _ in range(a * b)])
    A, B = mk(r, k), mk(k, c)
    zero = lambda m: all(sp.expand(e) == 0 for e in m)
    ref = lambda X, Y: sp.Matrix(X.rows, Y.cols, lambda i, j: sp.expand(sum(X[i, t] * Y[t, j] for t in range(X.cols))))
    if not zero(matmul(A, B) - ref(A, B)):
        out.b('product over a quadratic field', A=A, B=B)
    Q = mk(k, k)
    if not zero(symmetric_bilinear(B, Q) - ref(ref(B.T, Q), B)):
        out.b('congruence over a quadratic field', A=Q, U=B)
    return ('alg', str(A), str(B))


FS = [(j_matmul, 18), (j_multi, 18), (j_rref, 12), (j_solve, 20), (j_sep, 14), (j_null, 8), (j_vec, 8), (j_alg, 2)]


def job(seed):
    rng = random.Random('C16/' + seed)
    out = Out()
    for _ in range(10):
        f = rng.choices([x for x, _ in FS], [w for _, w in FS])[0]
        o = f(rng, out)
        out.c[f.__name__] = out.c.get(f.__name__, 0) + 1
        out.obs.append(o)
    return out.bad, out.obs, out.c


def run(chk):
    n = chk.n(4000, 60000)
    for i, j, r in common.pmap(job, ['%d/%d' % (chk.seed, i) for i in range(n)], cpu=60, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('an exact kernel raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        bad, obs, c = r[1]
        for o in obs:
            chk.observe(o, sample=str(o)[:300])
        for k, v in c.items():
            chk.count(k, v)
        for w, d in bad:
            chk.violation(w, dict(d, job=j))
    for f, w in FS:
        chk.require(f.__name__, 20)
    chk.require('csr solved', 50)
    chk.require('separated solved', 50)
    chk.require('inconsistent', 10)
