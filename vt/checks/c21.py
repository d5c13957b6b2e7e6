"""C21: rounding to rationals keeps the tolerance, the side and the validity condition."""
import random, math
from fractions import Fraction as F
import sympy as sp
from sympy import Rational as R
import numpy as np
from .. import common

RULE = ('floats (near small fractions, dyadic, tiny, huge, many digits, numpy), exact numbers and surds; every rounding '
        'tolerance and direction; polynomials with probed validators; pairs and lists of conics incl. degenerate ones; '
        'vectors for the semidefinite rounding. Non-trivial: one rounding call judged by exact comparison with the input.')
ASSUMPTIONS = ['sympy Rational/Poly arithmetic over QQ, count_roots and Float->Rational conversion are trusted',
               'python floats are read as the exact dyadic numbers they are']
x, y, t = sp.symbols('x y t')


def exact(v):
    """The number as an exact rational, or a 60-digit rational for surds."""
    if isinstance(v, (int, float, np.floating, np.integer)):
        f = F(float(v)) if not isinstance(v, (int, np.integer)) else F(int(v))
        return R(f.numerator, f.denominator)
    if isinstance(v, sp.Rational):
        return v
    if isinstance(v, sp.Float):
        return R(v)
    return R(v.n(60))


def rfloat(rng):
    k = rng.randint(0, 8)
    if k == 0:
        return rng.randint(-999, 999) / rng.randint(1, 60)
    if k == 1:
        return rng.uniform(-10, 10)
    if k == 2:
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-9, 7)
    if k == 3:
        return rng.randint(-99, 99) / 2 ** rng.randint(0, 8)
    if k == 4:
        return sp.Float(str(rng.uniform(-5, 5)) + str(rng.randint(0, 10 ** 9)), rng.choice([10, 20, 30]))
    if k == 5:
        return rng.choice([sp.sqrt(2), sp.sqrt(3) - 1, 3 - sp.sqrt(5), sp.cbrt(2), -sp.sqrt(7) / 3, sp.Rational(1, 3) + sp.sqrt(2), sp.GoldenRatio.expand(func=True)])
    if k == 6:
        return np.float64(rng.randint(-50, 50) / rng.randint(1, 20))
    if k == 7:
        return sp.Float(rng.randint(-300, 300) / rng.randint(1, 40))
    return float(rng.randint(-40, 40)) + rng.choice([0.0, 1e-7, -1e-9, 1e-12, 0.0])


def rpoly(rng, d, k=6):
    c = [R(rng.randint(-k, k), rng.choice([1, 1, 1, 2, 3])) for _ in range(d + 1)]
    if c[0] == 0:
        c[0] = R(1)
    return sp.Poly(c, x, domain='QQ')


def roots_exact(p, eps=R(1, 10 ** 14)):
    """Isolating intervals (lo, hi, multiplicity) of the real roots."""
    if p.degree() <= 0:
        return []
    return [(R(a), R(b), m) for (a, b), m in p.intervals(eps=eps)]


def job(arg):
    common.use_repo()
    from triples.utils import roots as RR
    from triples.core.structsos import utils as SU
    from triples.sdp import rationalize as SR
    kind, seed = arg.split(':')
    rng = random.Random('C21/' + seed + kind)
    bad, obs, c = [], [], {}

    def cnt(k, n=1):
        c[k] = c.get(k, 0) + n

    def fail(what, **d):
        bad.append((what, {k: str(v)[:400] for k, v in d.items()}))

    if kind == 'round':
        for _ in range(10):
            v = rfloat(rng)
            ev = exact(v)
            r = RR.rationalize(v, reliable=True)
            cnt('reliable')
            obs.append(('reliable', repr(v)))
            if not isinstance(r, sp.Rational):
                fail('reliable rounding is not a rational number', v=repr(v), r=r)
            elif abs(r - ev) > max(R(1, 10 ** 6), abs(ev) * R(1, 10 ** 14)):
                fail('reliable rounding is not close', v=repr(v), r=r, err=float(r - ev))
            q = rng.randint(1, 99)
            p = rng.randint(-500, 500)
            r = RR.rationalize(rng.choice([p / q, np.float64(p / q), sp.Float(p / q)]), reliable=True)
            if r != R(p, q) or not isinstance(r, sp.Rational):
                fail('reliable rounding of a float fraction', v=(p, q), r=r)
            cnt('small fractions')
            rounding = rng.choice([.5, .2, .1, .05, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 1e-12])
            r = RR.rationalize(v, rounding=rounding, reliable=False)
            cnt('tolerance')
            obs.append(('tolerance', repr(v), rounding))
            slack = abs(ev) * R(1, 10 ** 14) + (0 if isinstance(v, (int, float, sp.Number, np.floating)) else R(1, 10 ** 15))
            if not isinstance(r, sp.Rational):
                fail('rounding is not a rational number', v=repr(v), r=r)
            elif abs(r - ev) > exact(rounding) + slack:
                fail('rounding misses the tolerance', v=repr(v), r=r, rounding=rounding, err=float(r - ev))
            r2 = SR.rationalize(v, rounding=rounding) if not isinstance(v, np.floating) and (isinstance(v, (float, sp.Number))) else None
            if r2 is not None and (not isinstance(r2, sp.Rational) or abs(r2 - ev) > exact(rounding) + slack):
                fail('semidefinite rounding misses the tolerance', v=repr(v), r=r2, rounding=rounding)
            e = R(rng.randint(-10 ** rng.randint(1, 30), 10 ** rng.randint(1, 30)), rng.randint(1, 10 ** rng.randint(1, 20)))
            ei = rng.choice([e, e.p, sp.Integer(e.p)])
            for kw in ({'reliable': True}, {'reliable': False, 'rounding': rounding}):
                r = RR.rationalize(ei, **kw)
                if r != ei or not isinstance(r, sp.Rational):
                    fail('an exact number was changed', v=ei, r=r)
            cnt('exact input')
        # arrays
        tol = rng.choice([1e-7, 1e-4, 1e-10])
        arr = []
        for _ in range(rng.randint(1, 7)):
            arr.append(rng.choice([abs(float(sp.N(rfloat(rng), 15))),
                                   R(rng.randint(0, 9), rng.randint(1, 9)), (sp.Integer(rng.randint(0, 9)), sp.Integer(rng.randint(1, 9))),
                                   rng.choice([1e-12, 3e-8, 2e-5, 0.0]), rng.randint(0, 5), sp.Float(rng.randint(0, 30) / 7)]))
        keep = list(arr)
        res = RR.rationalize_array(arr, tol=tol)
        cnt('array')
        obs.append(('array', repr(arr), tol))
        if len(res) != len(arr) or any(a is not b for a, b in zip(arr, keep)):
            fail('array length or argument changed', arr=arr, res=res)
        else:
            for a, r in zip(arr, res):
                if isinstance(a, tuple):
                    ok = r == a[0] / a[1]
                elif isinstance(a, (int, sp.Rational)):
                    ok = r == a
                elif abs(a) < tol:
                    ok = r == 0
                else:
                    ok = abs(R(r) - exact(a)) <= max(R(1, 10 ** 6), abs(exact(a)) * R(1, 10 ** 14))
                if not ok:
                    fail('array entry', a=repr(a), r=r, tol=tol)
        vec = np.array([float(rng.uniform(-3, 3)) * 10 ** rng.randint(-9, 2) for _ in range(rng.randint(1, 6))])
        zt = rng.choice([1e-7, 1e-3])
        m = SR.RationalizeWithMask(zt)(vec)
        lim = max(1, np.abs(vec).max()) * zt
        for mm in m:
            cnt('mask')
            for a, r in zip(vec, mm):
                ok = r == 0 if abs(a) <= lim else abs(R(r) - exact(float(a))) <= abs(exact(float(a))) * R(1, 10 ** 4)
                if not ok or not isinstance(r, sp.Rational):
                    fail('masked rounding', a=a, r=r, vec=vec)
        lcms = rng.choice([(1, 1260, 1260 ** 2, 1260 ** 3), (2, 6), (7,)])
        outs = list(SR.RationalizeSimultaneously(lcms)(vec.tolist()))
        if len(outs) != len(lcms):
            fail('simultaneous rounding: number of candidates', n=len(outs))
        for L, mm in zip(lcms, outs):
            cnt('simultaneous')
            for a, r in zip(vec, mm):
                if not isinstance(r, sp.Rational) or L % r.q or abs(r - exact(float(a))) > R(1, 2 * L) + abs(exact(float(a))) * R(1, 10 ** 14):
                    fail('simultaneous rounding', a=a, r=r, L=L)
    elif kind == 'bound':
        for _ in range(8):
            v = rfloat(rng)
            ev = exact(v)
            d = rng.choice([-1, 0, 1])
            rd = rng.choice([None, None, (.1, .01), (1e-3, 1e-5, 1e-7)])
            comp = rng.random() < .7
            got = list(RR.rationalize_bound(v, direction=d, roundings=rd, compulsory=comp))
            cnt('bound')
            obs.append(('bound', repr(v), d, rd, comp))
            mx = exact(max(rd or (.5,) if not comp else (rd or (.5,)) + (.03,)))
            prev = None
            for r in got:
                if not isinstance(r, sp.Rational):
                    fail('candidate is not rational', v=repr(v), r=r)
                    continue
                # 60-digit comparison for surds: never equal to a rational
                if (d == 1 and not r > ev) or (d == -1 and not r < ev):
                    fail('candidate on the wrong side', v=repr(v), d=d, r=r)
                if abs(r - ev) > 4 * mx + abs(ev) * R(1, 10 ** 13):
                    fail('candidate far away', v=repr(v), d=d, r=r, roundings=rd)
                if prev is not None and prev == r:
                    fail('candidate repeated', v=repr(v), r=r)
                prev = r
            lim = R(1, 10 ** 10) if comp else 5 * exact((rd or (1e-8,))[-1])
            best = min([abs(r - ev) for r in got if isinstance(r, sp.Rational)] or [R(10 ** 9)])
            if abs(ev) < 1000 and best > lim:
                fail('candidates do not approach the number', v=repr(v), d=d, got=got[-3:], roundings=rd)
        e = R(rng.randint(-99, 99), rng.randint(1, 9))
        for d in (-1, 0, 1):
            if list(RR.rationalize_bound(e, direction=d)) != [e]:
                fail('a rational bound was changed', v=e, d=d)
    elif kind == 'func':
        p = rpoly(rng, rng.randint(1, 5))
        if rng.random() < .3:
            p = p * rpoly(rng, rng.randint(1, 2)) ** 2
        if p.degree() < 1:
            return bad, obs, c
        d = rng.choice([-1, 0, 1])
        rts = roots_exact(p)
        seen = {}
        mode = rng.choice(['all', 'near', 'half', 'strict', 'never', 'sign'])
        cut = R(rng.randint(-6, 6), 2)
        # validators: the truth does not depend on state
        if mode == 'all':
            val = lambda u: True
        elif mode == 'near':
            w = rng.choice([R(1, 3), R(1, 100), R(1, 10 ** 4), R(1, 10 ** 6)])
            val = lambda u: any(abs(R(u) - a) < w for a, _, _ in rts)
        elif mode == 'half':
            val = lambda u: bool(u >= cut)
        elif mode == 'strict':
            val = lambda u: bool(u * u < 2 + abs(cut))
        elif mode == 'sign':
            q = rpoly(rng, 2)
            val = lambda u: bool(q(u) >= 0)
        else:
            val = lambda u: False

        def probe(u):
            r = val(u)
            seen[u] = r
            return r
        init = rng.choice([None, None, lambda u: True])
        r = SU.rationalize_func(p, probe, validation_initial=init, direction=d)
        cnt('func')
        obs.append(('func', str(p), mode, d, str(cut)))
        det = dict(p=p, mode=mode, d=d, cut=cut, r=r)
        if r is not None:
            cnt('func found')
            if not isinstance(r, sp.Rational):
                fail('returned point is not rational', **det)
            elif not val(r):
                fail('returned point is not valid', **det)
            elif d and sp.sign(p(r)) * d < 0:
                fail('returned point has the wrong sign', **det)
        elif mode in ('all', 'near'):
            # a simple irrational root changes the sign there, so a valid point exists on the wanted side
            simple = [z for z in rts if z[2] == 1] if d else rts
            if simple and max(abs(z[0]) for z in rts) < 100 and len(rts) == len(set(rts)) and min([b[0] - a[1] for a, b in zip(rts, rts[1:])] or [1]) > R(1, 100):
                fail('no point found although one exists next to a root', **det)
        for cst in (R(rng.randint(-9, 9), rng.randint(1, 5)), rng.randint(-5, 5)):
            r = SU.rationalize_func(cst, lambda u: True, direction=d)
            if isinstance(cst, sp.Rational) and r != cst:
                fail('constant candidate', c=cst, r=r)
        # sign cells
        ps = [rpoly(rng, rng.randint(1, 4)) for _ in range(rng.randint(1, 3))]
        if rng.random() < .3:
            ps.append(ps[0] * rpoly(rng, 1))
        if rng.random() < .3:
            ps.append(sp.Poly((x - 1) ** 2, x, domain='QQ'))
        for f in (lambda z: list(RR.univariate_intervals(z)), SU.intervals):
            pts = f(list(ps))
            cnt('cells')
            rts = sorted({(a, b) for p_ in ps for a, b, _ in roots_exact(p_, R(1, 10 ** 30))})
            if any(not isinstance(z, sp.Rational) for z in pts):
                fail('sign change point not rational', ps=ps, pts=pts)
                continue
            if pts != sorted(pts) or len(set(pts)) != len(pts):
                fail('sign change points not increasing', ps=ps, pts=pts)
            # every cell of the arrangement whose closure matters has a representative:
            # each root is itself a point, or lies between two neighbouring points without another root
            allr = roots_exact(sp.Poly(sp.prod([z.sqf_part().as_expr() for z in ps]), x, domain='QQ').sqf_part(), R(1, 10 ** 30))
            for a, b, _ in allr:
                if a == b and a in pts:
                    continue
                lo = [z for z in pts if z <= a]
                hi = [z for z in pts if z >= b]
                if not lo or not hi or sum(1 for q_ in allr if q_[0] >= lo[-1] and q_[1] <= hi[0] and not (q_[0] == q_[1] and q_[0] in (lo[-1], hi[0]))) != 1:
                    fail('a root is not separated by the points', ps=ps, pts=pts, root=float(a))
    elif kind == 'nroots':
        p = rpoly(rng, rng.randint(1, 5), rng.choice([3, 6, 30]))
        mult = rng.random() < .4
        if mult:
            p = p * rpoly(rng, rng.randint(1, 2), 3) ** rng.randint(2, 3)
        rts = roots_exact(p)
        got = RR.nroots(p, method='factor', real=True)
        cnt('nroots')
        obs.append(('nroots', str(p)))
        det = dict(p=p, got=got)
        if len(got) != len(rts):
            fail('number of distinct real roots', want=len(rts), **det)
        else:
            for g, (a, b, _) in zip(sorted(got), rts):
                if isinstance(g, sp.Rational):
                    if p(g) != 0:
                        fail('rational root is not a root', g=g, **det)
                elif abs(R(g) - a) > R(1, 10 ** 9) * max(1, abs(a)):
                    fail('real root inaccurate', g=g, **det)
            if any(a == b and not isinstance(g, sp.Rational) for g, (a, b, _) in zip(sorted(got), rts)):
                if any(f.degree() == 1 for f, _ in p.factor_list()[1]) and sum(isinstance(g, sp.Rational) for g in got) != sum(f.degree() == 1 for f, _ in p.factor_list()[1]):
                    fail('rational root not exact', **det)
        nn = RR.nroots(p, method='factor', real=True, nonnegative=True)
        want = sum(1 for a, b, _ in rts if b > 0 or (a == b == 0))
        if len(nn) != want or any(not g >= 0 for g in nn):
            fail('nonnegative roots', want=want, nn=nn, **det)
        for meth in ('numpy', 'sympy'):
            g = RR.nroots(p, method=meth)
            if len(g) != p.degree():
                fail('number of roots with multiplicity', method=meth, p=p, g=g)
                continue
            cnt('nroots ' + meth)
            # multiplicity and position: the monic polynomial is rebuilt
            re = np.poly([complex(z) for z in g])
            want = np.array([complex(z) for z in p.monic().all_coeffs()])
            if np.abs(re - want).max() > 1e-5 * max(1, np.abs(want).max()):
                fail('roots do not rebuild the polynomial', method=meth, p=p, g=g)
    elif kind == 'misc':
        for _ in range(4):
            nums = [R(rng.randint(-60, 60) * rng.choice([1, 6, 12]), rng.randint(1, 40)) for _ in range(rng.randint(2, 6))]
            if all(z == 0 for z in nums):
                continue
            g = RR.cancel_denominator(nums)
            cnt('cancel')
            obs.append(('cancel', str(nums)))
            q = [z / g for z in nums]
            if any(z.q != 1 for z in q) or math.gcd(*[abs(int(z)) for z in q]) != 1:
                fail('cleared numbers are not coprime integers', nums=nums, g=g)
            a, b = R(rng.randint(1, 90), rng.randint(1, 9)), R(rng.randint(1, 90), rng.randint(1, 9))
            if isinstance(sp.sqrt(a / b), sp.Rational):
                continue
            ts = list(RR.square_perturbation(a, b))
            cnt('square')
            obs.append(('square', str((a, b))))
            for z in ts:
                if not isinstance(z, sp.Rational) or not (0 <= z <= min(a, b)) or z == b and not isinstance(sp.sqrt((b - z) / (a - z)), sp.Rational):
                    fail('perturbation out of range', a=a, b=b, t=z)
                elif z != b and not isinstance(sp.sqrt((a - z) / (b - z)), sp.Rational):
                    fail('perturbed ratio is not a square', a=a, b=b, t=z)
            if not ts:
                fail('no square perturbation', a=a, b=b)
            s = rng.choice([0, 0, 0, sp.sqrt(2), sp.sqrt(3)])
            c1, c2, c3 = [R(rng.randint(-3, 9), rng.randint(1, 3)) + s * rng.randint(0, 1) for _ in range(3)]
            if rng.random() < .3:
                c2 = 2 * sp.sqrt(c1 * c3) if c1 * c3 >= 0 else c2
            if rng.random() < .2:
                c1 = c2 = R(0)
            res = SU.quadratic_weighting(c1, c2, c3, formal=True)
            psd = bool(c1 >= 0) and bool(c3 >= 0) and not bool(sp.expand(4 * c1 * c3 - c2 ** 2) < 0)
            cnt('weighting')
            obs.append(('weighting', str((c1, c2, c3))))
            if (res is not None) != psd:
                fail('verdict on a binary quadratic form', c=(c1, c2, c3), res=res)
            elif res is not None:
                if any(sp.N(w, 40) < -sp.Float(10) ** -30 for w, _ in res):
                    fail('negative weight', c=(c1, c2, c3), res=res)
                tot = sp.radsimp(sp.expand(sum(w * (u * x + v * y) ** 2 for w, (u, v) in res) - (c1 * x ** 2 + c2 * x * y + c3 * y ** 2)))
                if any(abs(sp.N(z, 40)) > sp.Float(10) ** -30 for z in sp.Poly(tot, x, y).coeffs()):
                    fail('weights do not rebuild the form', c=(c1, c2, c3), res=res)
                ex = SU.quadratic_weighting(c1, c2, c3, x, y)
                dd = sp.Poly(sp.expand(ex - (c1 * x ** 2 + c2 * x * y + c3 * y ** 2)), x, y)
                if any(abs(sp.N(z, 40)) > sp.Float(10) ** -30 for z in dd.coeffs()):
                    fail('expression does not rebuild the form', c=(c1, c2, c3), ex=ex)
    elif kind == 'conic':
        def rconic():
            z = lambda: R(rng.choice([0, 0, 0, 1, -1, 2, -2, 3, -3, 5]), rng.choice([1, 1, 1, 2, 3]))
            k = rng.randint(0, 6)
            if k == 0:
                e = (z() * x + z() * y + z()) * (z() * x + z() * y + z())
            elif k == 1:
                e = -(x - z()) ** 2 - (y - z()) ** 2 + rng.choice([R(1), R(1, 100), R(1, 10 ** 4), R(0), R(-1, 100)])
            elif k == 2:
                e = z() * x + z() * y + z()
            elif k == 3:
                e = z() * rng.choice([x, y]) ** 2 + z() * y + z()
            elif k == 4:
                e = z() + 0 * x
            else:
                e = z() * x ** 2 + z() * x * y + z() * y ** 2 + z() * x + z() * y + z()
            return sp.Poly(sp.expand(e), x, y, domain='QQ')
        f = rconic()
        for one in (True, False):
            r = RR.rationalize_quadratic_curve(f, gen=t, one_point=one) if f.total_degree() > 0 else None
            cnt('curve')
            obs.append(('curve', str(f), one))
            if r is None:
                continue
            cnt('curve found')
            if not isinstance(r, dict) or set(r) != {x, y}:
                fail('parametrisation is not a dictionary of both variables', f=f, r=r)
                continue
            if one and any(not isinstance(z, sp.Rational) for z in r.values()):
                fail('point is not rational', f=f, r=r)
            for tv in ([0] if one else [R(1, 7), R(-5, 3), R(22, 9)]):
                pt = {k: sp.sympify(v).subs(t, tv) for k, v in r.items()}
                if any(not z.is_finite for z in pt.values()):
                    continue
                if sp.nsimplify(f.as_expr().subs(pt, simultaneous=True)) != 0:
                    fail('point is not on the curve', f=f, r=r, t=tv)
        ps = [rconic() for _ in range(rng.randint(1, 3))]
        if rng.random() < .25:
            ps.append(-rng.randint(1, 3) * ps[0])
        inside = None
        if rng.random() < .5:     # make the interior nonempty around a known point
            px, py = R(rng.randint(-4, 4), rng.randint(1, 3)), R(rng.randint(-4, 4), rng.randint(1, 3))
            ps = [p_ + (max(0, -p_(px, py)) + rng.choice([0, R(1, 10), R(1)])) for p_ in ps]
            inside = (px, py)
        keep = list(ps)
        r = RR.common_region_of_conics(ps)
        cnt('region')
        obs.append(('region', str(keep)))
        if r is not None:
            cnt('region found')
            if not isinstance(r, tuple) or len(r) != 2 or any(not isinstance(z, (sp.Rational, int)) for z in r):
                fail('region point is not a rational pair', ps=keep, r=r)
            elif any(p_(*r) < 0 for p_ in keep):
                fail('region point violates a condition', ps=keep, r=r)
        elif inside is not None:
            cnt('region missed')
        if ps != keep:
            fail('argument modified', ps=keep, now=ps)
    return bad, obs, c


def run(chk):
    jobs = []
    for kind, q, th in (('round', 200, 2500), ('bound', 220, 2500), ('func', 320, 4000), ('nroots', 250, 4000), ('misc', 150, 2500), ('conic', 320, 4000)):
        jobs += ['%s:%d/%d' % (kind, chk.seed, i) for i in range(chk.n(q, th))]
    chk.rng.shuffle(jobs)
    for i, j, r in common.pmap(job, jobs, cpu=60, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('a rounding routine raised', {'job': j, 'exc': r[1]}, key='exc:' + r[1][0])
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        bad, obs, c = r[1]
        for o in obs:
            chk.observe(o, sample=o)
        for k, v in c.items():
            chk.count(k, v)
        for w, d in bad:
            chk.violation(w, dict(d, job=j))
    for k, m in (('reliable', 800), ('bound', 800), ('func found', 60), ('nroots', 100), ('region found', 60), ('square', 100), ('weighting', 100)):
        chk.require(k, m)
