"""C17 congruence decompositions M = U^T S U: exact, and present exactly on PSD matrices."""
import random
from fractions import Fraction as F
import sympy as sp
import numpy as np
from vt import common
common.use_repo()

RULE = ('random symmetric matrices (1..7 rows; rational of any size, quadratic-field entries, exactly representable floats): Gram '
        'matrices of every rank, Gram matrices minus tiny rank-one parts, matrices with zero pivots, indefinite, sparse; verdicts '
        'compared with the signs of the characteristic polynomial computed exactly; factors multiplied back exactly')


class Q2:
    """a + b*sqrt(d), exact"""
    __slots__ = ('a', 'b', 'd')

    def __init__(s, a, b, d):
        s.a, s.b, s.d = F(a), F(b), d

    def _c(s, o):
        return o if isinstance(o, Q2) else Q2(o, 0, s.d)

    def __add__(s, o):
        o = s._c(o)
        return Q2(s.a + o.a, s.b + o.b, s.d)
    __radd__ = __add__

    def __neg__(s):
        return Q2(-s.a, -s.b, s.d)

    def __sub__(s, o):
        return s + (-s._c(o))

    def __mul__(s, o):
        o = s._c(o)
        return Q2(s.a * o.a + s.b * o.b * s.d, s.a * o.b + s.b * o.a, s.d)
    __rmul__ = __mul__

    def __truediv__(s, o):
        o = s._c(o)
        n = o.a * o.a - o.b * o.b * o.d
        return s * Q2(o.a / n, -o.b / n, s.d)

    def __eq__(s, o):
        o = s._c(o)
        return s.a == o.a and s.b == o.b

    def sign(s):
        if s.b == 0 or s.a == 0:
            x = s.a if s.b == 0 else s.b
            return (x > 0) - (x < 0)
        sa, sb = (1 if s.a > 0 else -1), (1 if s.b > 0 else -1)
        if sa == sb:
            return sa
        return sa if s.a * s.a > s.b * s.b * s.d else sb

    def sp(s):
        r = lambda x: sp.Rational(x.numerator, x.denominator)
        return r(s.a) + r(s.b) * sp.sqrt(s.d)


def sign(x):
    return x.sign() if isinstance(x, Q2) else (x > 0) - (x < 0)


def mul(A, B):
    n, k, c = len(A), len(B), len(B[0])
    return [[sum((A[i][t] * B[t][j] for t in range(1, k)), A[i][0] * B[0][j]) for j in range(c)] for i in range(n)]


def is_psd(M):
    """all coefficients of det(t + M) are nonnegative (Faddeev-LeVerrier on -M)"""
    n = len(M)
    zero = M[0][0] * 0
    N = [[-x for x in row] for row in M]
    I = [[zero + (1 if i == j else 0) for j in range(n)] for i in range(n)]
    A = I
    for k in range(1, n + 1):
        NA = mul(N, A)
        tr = sum((NA[i][i] for i in range(1, n)), NA[0][0])
        c = tr * F(-1, k)
        if sign(c) < 0:
            return False
        A = [[NA[i][j] + (c if i == j else 0) for j in range(n)] for i in range(n)]
    return True


def gen(rng, surd=None):
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7]) if surd is None else rng.choice([1, 2, 2, 3, 3])
    big = rng.random() < .2 and surd is None

    def ent(dens=1.0):
        if rng.random() > dens:
            x = F(0)
        elif big:
            x = F(rng.randint(-2**70, 2**70), rng.randint(1, 2**40))
        else:
            x = F(rng.randint(-4, 4), rng.choice([1, 1, 1, 2, 3]))
        if surd:
            return Q2(x, F(rng.randint(-2, 2), rng.choice([1, 1, 2])) if rng.random() < .5 else 0, surd)
        return x
    kind = rng.choice(['gram', 'gram', 'gram', 'near', 'near', 'sym', 'zeropiv', 'diag', 'sparse', 'tail'])
    dens = rng.choice([.3, .6, 1])
    zero = Q2(0, 0, surd) if surd else F(0)

    def gram(r):
        B = [[ent(dens) for _ in range(n)] for _ in range(r)]
        D = [F(rng.randint(0, 5), rng.randint(1, 4)) for _ in range(r)]
        return [[sum((B[t][i] * B[t][j] * D[t] for t in range(r)), zero) for j in range(n)] for i in range(n)]
    if kind in ('gram', 'near', 'tail'):
        M = gram(rng.randint(1, n + 1))
        if kind == 'near':
            v = [ent() for _ in range(n)]
            e = F(1, 10**rng.choice([1, 3, 9, 15, 20, 40])) * rng.choice([1, -1, 1])
            if rng.random() < .5:
                i = rng.randrange(n)
                v = [zero + (1 if i == j else 0) for j in range(n)]
            M = [[M[i][j] - v[i] * v[j] * e for j in range(n)] for i in range(n)]
        if kind == 'tail':
            M[-1][-1] = M[-1][-1] - rng.choice([F(0), F(1), F(1, 1000), F(1, 10**18)])
    elif kind == 'diag':
        M = [[zero for _ in range(n)] for _ in range(n)]
        for i in range(n):
            M[i][i] = zero + rng.choice([0, 0, 1, 2, F(1, 3), 5, -1 if rng.random() < .3 else 0])
    else:
        M = gram(rng.randint(1, n)) if kind == 'zeropiv' else [[zero] * n for _ in range(n)]
        if kind == 'zeropiv':
            k = rng.randrange(n)
            for j in range(n):
                M[k][j] = M[j][k] = zero
            if n > 1 and rng.random() < .6:
                j = rng.choice([t for t in range(n) if t != k])
                M[k][j] = M[j][k] = zero + rng.choice([1, -1, F(1, 10**12)])
        else:
            for i in range(n):
                for j in range(i, n):
                    M[i][j] = M[j][i] = ent(dens if kind == 'sparse' else 1)
                if kind == 'sparse':
                    M[i][i] = M[i][i] * M[i][i]
    return M, kind


def tosp(M):
    r = lambda x: x.sp() if isinstance(x, Q2) else sp.Rational(x.numerator, x.denominator)
    return sp.Matrix([[r(x) for x in row] for row in M])


def ev(e, d):
    """exact value of an expression of Q(sqrt(d))"""
    e = sp.sympify(e)
    if e.is_Rational:
        return Q2(F(int(e.p), int(e.q)), 0, d)
    if e.is_Add or e.is_Mul:
        r = ev(e.args[0], d)
        for a in e.args[1:]:
            r = r + ev(a, d) if e.is_Add else r * ev(a, d)
        return r
    if e.is_Pow and e.exp.is_Rational:
        p, q = int(e.exp.p), int(e.exp.q)
        if q == 2 and e.base.is_Integer:
            b, k = int(e.base), 1
            if b % d == 0 and round((b // d) ** .5) ** 2 == b // d:
                r = Q2(0, round((b // d) ** .5), d)
            else:
                raise ValueError('not in the field: %s' % e)
        elif q == 1:
            r = ev(e.base, d)
        else:
            raise ValueError('not in the field: %s' % e)
        x = Q2(1, 0, d)
        for _ in range(abs(p)):
            x = x * r
        return x if p >= 0 else Q2(1, 0, d) / x
    raise ValueError('not in the field: %s' % e)


def validate(out, tag, M, got, want, det):
    n = M.rows
    if got is None:
        if want:
            out['bad'].append((tag + ': a positive semidefinite matrix was refused', det))
        return
    U, S = got
    if not want:
        out['bad'].append((tag + ': a decomposition of a matrix that is not positive semidefinite', dict(det, U=str(U), S=str(S))))
        return
    if U.shape != (n, n) or len(S) != n:
        out['bad'].append((tag + ': shape', dict(det, U=str(U), S=str(S))))
        return
    d = det.get('field') or 2
    try:
        Ue = [[ev(U[i, j], d) for j in range(n)] for i in range(n)]
        Se = [ev(x, d) for x in S]
        Me = [[ev(M[i, j], d) for j in range(n)] for i in range(n)]
    except ValueError as e:
        out['bad'].append((tag + ': factors outside the field of the matrix', dict(det, exc_=str(e))))
        return
    if any(x.sign() < 0 for x in Se):
        out['bad'].append((tag + ': negative weight', dict(det, S=str(S))))
    if any(Ue[i][j].sign() != 0 for i in range(n) for j in range(i)):
        out['bad'].append((tag + ': not upper triangular', dict(det, U=str(U))))
    for i in range(n):
        for j in range(i, n):
            if (sum((Ue[k][i] * Se[k] * Ue[k][j] for k in range(n)), Q2(0, 0, d)) - Me[i][j]).sign() != 0:
                out['bad'].append((tag + ': U^T*S*U differs from the matrix', dict(det, U=str(U), S=str(S))))
                return


def job(seed):
    from triples.sdp import congruence
    from triples.sdp.utils import congruence_with_perturbation
    from triples.core.structsos.utils import congruence as c_struct
    from triples.core.structsos.pivoting.univariate import congruence as c_uni
    rng = random.Random('C17/' + seed)
    out = {'bad': [], 'obs': [], 'c': {}}
    cnt = lambda k: out['c'].__setitem__(k, out['c'].get(k, 0) + 1)
    for _ in range(8):
        surd = rng.choice([2, 3, 5]) if rng.random() < .12 else None
        M, kind = gen(rng, surd)
        want = is_psd(M)
        sM = tosp(M)
        det = {'M': str(sM.tolist()), 'kind': kind, 'psd': want, 'field': surd}
        cnt(('surd ' if surd else '') + ('psd' if want else 'not psd'))
        keep = sM.copy()
        out['obs'].append((str(sM.tolist()), kind, want))
        if surd is None:
            fs = [('congruence', congruence)]
            if rng.random() < .4:
                fs.append(('congruence_with_perturbation', congruence_with_perturbation))
            if rng.random() < .3:
                fs += [('structsos.congruence', c_struct), ('univariate.congruence', c_uni)]
        else:
            fs = [('structsos.congruence', c_struct)]
        arg = sM
        if rng.random() < .3:
            arg = sp.ImmutableMatrix(sM) if False else sM
        for tag, f in fs:
            validate(out, tag, sM, f(arg), want, det)
            if arg != keep:
                out['bad'].append((tag + ': argument modified', det))
        if surd is None and len(M) <= 4 and rng.random() < .1 and kind == 'near':
            # documented tolerance mode: nearby decomposition
            from sympy.core.evalf import PrecisionExhausted
            try:
                g = congruence_with_perturbation(sM, perturb=True)
            except PrecisionExhausted:      # numerical eigenvalues of sympy gave up: no answer
                cnt('perturbed: no answer')
                continue
            scale = max(1.0, max(abs(float(x)) for x in sM))
            if want and g is None:
                out['bad'].append(('perturbed decomposition refused a positive semidefinite matrix', det))
            if g is not None:
                cnt('perturbed')
                U, S = g
                if any(not (s >= 0) == True for s in S):
                    out['bad'].append(('perturbed decomposition has a negative weight', dict(det, S=str(S))))
                neg = max(0.0, -min(np.linalg.eigvalsh(np.array(sM.tolist(), dtype=float)))) if sM.rows else 0
                R = np.array(U.tolist(), dtype=float)
                R = R.T @ np.diag([float(s) for s in S]) @ R
                if np.abs(R - np.array(sM.tolist(), dtype=float)).max() > 1e-4 * scale + 2 * neg:
                    out['bad'].append(('perturbed decomposition is far from the matrix', det))
    # floats for which the elimination is exact: unit upper triangular integer factors
    n = rng.randint(1, 5)
    U0 = np.triu(np.array([[rng.randint(-3, 3) for _ in range(n)] for _ in range(n)], dtype=float), 1) + np.eye(n)
    D = np.array([float(rng.choice([1, 2, 4, 8, 0.5])) for _ in range(n)])
    neg = rng.random() < .4
    if neg:
        D[rng.randrange(n)] *= -1
    elif rng.random() < .4:
        D[rng.randrange(n)] = 0
    A = U0.T @ np.diag(D) @ U0
    A0 = A.copy()
    g = congruence(A)
    cnt('float')
    out['obs'].append(('float', str(A.tolist())))
    det = {'M': str(A.tolist())}
    if neg != (g is None):
        out['bad'].append(('float verdict', det))
    elif g is not None:
        U, S = g
        if not (np.asarray(S) >= 0).all() or not np.allclose(U.T @ np.diag(S) @ U, A0, atol=1e-9):
            out['bad'].append(('float factors', det))
    if not np.array_equal(A, A0):
        out['bad'].append(('argument modified', det))
    return out


def run(chk):
    n = chk.n(1500, 20000)
    for i, j, r in common.pmap(job, ['%d/%d' % (chk.seed, i) for i in range(n)], cpu=60, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('a decomposition raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        for o in r[1]['obs']:
            chk.observe(o, sample=o)
        for k, v in r[1]['c'].items():
            chk.count(k, v)
        for w, d in r[1]['bad']:
            chk.violation(w, dict(d, job=j))
    chk.require('psd', 500)
    chk.require('not psd', 300)
    chk.require('surd psd', 20)
    chk.require('float', 100)
