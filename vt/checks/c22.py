"""C22: each web request gets one answer about its own polynomial; the server survives."""
import os, sys, io, random, threading, time, itertools, json, contextlib
import sympy as sp
from gmpy2 import mpq
from .. import common
from ..evalx import rnd_rational, eval_poly, same, Undefined

RULE = ('web_main driven through its real Flask routes and real socket sessions: valid, odd, malformed and hostile request '
        'dictionaries (every field missing or of a wrong type), several sessions posting from several threads at once with '
        'injected delays and small switch intervals, sessions that disconnect before the answer, failing and missing solver answers (scripted). '
        'Every event delivered to every session is recorded. Oracle: the request log (one sos event per proof request, right '
        'session, right timestamp), an independent reader of the three texts of a success, and the exact polynomial of the request. '
        'Non-trivial: a proof request.')
ASSUMPTIONS = ['a request that is not a JSON object or does not name a session cannot be answered by an event; only survival is judged',
               'the soundness of a proof is judged by C02; here a success must be about the polynomial of the request and a '
               'polynomial that is negative at a positive point must not be reported as proved',
               'variables are nonnegative, as the page documents']
MP = {}


def mods():
    if not MP:
        common.use_repo()
        with contextlib.redirect_stdout(io.StringIO()):
            import web_main as w
        from triples.gui.sos_manager import SOS_Manager
        from triples.utils.text_process import preprocess_text
        from triples.utils.expression.solution import SolutionSimple
        SOS_Manager.verbose = False
        w.app.config['PROPAGATE_EXCEPTIONS'] = False
        import logging
        w.app.logger.setLevel(logging.CRITICAL + 1)
        from triples.core.sum_of_squares import sum_of_squares
        MP.update(sos=sum_of_squares, w=w, SM=SOS_Manager, pt=preprocess_text, SS=SolutionSimple)
    return MP


# ------------------------------------------------------------------ requests
def cyc(f, gens):
    """cyclic sum of f (a function of the generators)"""
    n = len(gens)
    return sum(f(*[gens[(i + k) % n] for i in range(n)]) for k in range(n))


# (text in the letters abc.., polynomial) ; True: a proof exists for nonnegative variables
POOL = {
    3: [('s(a2-ab)', lambda a, b, c: a**2 + b**2 + c**2 - a*b - b*c - c*a, True),
        ('s(a)3-27p(a)', lambda a, b, c: (a + b + c)**3 - 27*a*b*c, True),
        ('s(a3)-3p(a)', lambda a, b, c: a**3 + b**3 + c**3 - 3*a*b*c, True),
        ('s(a2)2-3s(a3b)', lambda a, b, c: (a**2 + b**2 + c**2)**2 - 3*(a**3*b + b**3*c + c**3*a), True),
        ('s(a(a-b)(a-c))', lambda a, b, c: a*(a - b)*(a - c) + b*(b - c)*(b - a) + c*(c - a)*(c - b), True),
        ('s(a/(b+c))-3/2', lambda a, b, c: 2*(a*(c + a)*(a + b) + b*(b + c)*(a + b) + c*(b + c)*(c + a)) - 3*(b + c)*(c + a)*(a + b), True),
        ('a2+b2-2ab', lambda a, b, c: (a - b)**2, True),
        ('(a-b)^2+c', lambda a, b, c: (a - b)**2 + c, True),
        ('a+b-2c', lambda a, b, c: a + b - 2*c, False),
        ('s(a2-2ab)', lambda a, b, c: a**2 + b**2 + c**2 - 2*(a*b + b*c + c*a), False),
        ('s(a4)-s(a)p(a)', lambda a, b, c: a**4 + b**4 + c**4 - (a + b + c)*a*b*c, True),
        ('abc', lambda a, b, c: a*b*c, True),
        ('-a2-bc', lambda a, b, c: -a**2 - b*c, False),
        ('(a2+b2)/2-ab+c/3', lambda a, b, c: (a - b)**2/2 + c/3, True),
        ('(a-1)^2+b', lambda a, b, c: (a - 1)**2 + b, True),
        ('a3+2-3a', lambda a, b, c: a**3 + 2 - 3*a, True),
        ('0', lambda a, b, c: a*0, None), ('5', lambda a, b, c: a*0 + 5, None), ('-1/2', lambda a, b, c: a*0 - sp.Rational(1, 2), None),
        ('s(a-b)', lambda a, b, c: a*0, None), ('b2', lambda a, b, c: b**2, True), ('ab-1', lambda a, b, c: a*b - 1, False),
        ('s(a2b)-3p(a)', lambda a, b, c: a**2*b + b**2*c + c**2*a - 3*a*b*c, True),
        ('sqrt(2)a2-2ab+sqrt(2)b2', lambda a, b, c: sp.sqrt(2)*a**2 - 2*a*b + sp.sqrt(2)*b**2, True),
        ('0.5a2-ab+0.5b2', lambda a, b, c: (a - b)**2/2, True)],
    2: [('a2+b2-2ab', lambda a, b: (a - b)**2, True), ('a3+b3-ab(a+b)', lambda a, b: a**3 + b**3 - a*b*(a + b), True), ('a-b', lambda a, b: a - b, False),
        ('s(a2)-s(ab)', lambda a, b: a**2 + b**2 - 2*a*b, True), ('a4-a+1', lambda a, b: a**4 - a + 1, True), ('7', lambda a, b: 7 + 0*a, None)],
    4: [('s(a2-ab)', lambda a, b, c, d: a**2 + b**2 + c**2 + d**2 - a*b - b*c - c*d - d*a, True), ('a2+b2-2ab', lambda a, b, c, d: (a - b)**2, True),
        ('s(a)2-4s(ab)', lambda a, b, c, d: (a + b + c + d)**2 - 4*(a*b + b*c + c*d + d*a), True), ('ab-cd', lambda a, b, c, d: a*b - c*d, False)],
    1: [('a2-2a+1', lambda a: (a - 1)**2, True), ('a4-a+1', lambda a: a**4 - a + 1, True), ('a-3', lambda a: a - 3, False), ('a3+1', lambda a: a**3 + 1, True)],
    5: [('s(a2-ab)', lambda a, b, c, d, e: a**2 + b**2 + c**2 + d**2 + e**2 - a*b - b*c - c*d - d*e - e*a, True), ('a2+e2-2ae', lambda a, b, c, d, e: (a - e)**2, True)],
}
# texts of three letters whose meaning depends on the permutation group: (text, value given the sum and the product over the group)
GROUPED = [('s(a2b)', lambda S, P, a, b, c: S(a**2*b)), ('s(a2)-s(ab)', lambda S, P, a, b, c: S(a**2) - S(a*b)), ('s(a)2-2s(ab)', lambda S, P, a, b, c: S(a)**2 - 2*S(a*b)),
           ('s(a3b-a2bc)', lambda S, P, a, b, c: S(a**3*b - a**2*b*c)), ('p(a)+s(a3)', lambda S, P, a, b, c: P(a) + S(a**3)), ('s(a2+2ab-c2/2)', lambda S, P, a, b, c: S(a**2 + 2*a*b - c**2/2)),
           ('p(a-b)', lambda S, P, a, b, c: P(a - b)), ('s((a-b)^2)+a', lambda S, P, a, b, c: S((a - b)**2) + a)]
INVALID = ['', 'a+', '((a', 'a))', '1/(a-a)', '?', 'a=b', 'a$$b', 's(', 'sin(a)', 'a^^2', '"', 'a;b', '\u00e1+b', '__import__("os")', 'a**b', '2^a', '1/0', '{}', 's()', 'p', 'a.b', '[a]', 'lambda']
LET = 'abcdeuvwxyz'


def rename(txt, letters):
    return ''.join(letters['abcde'.index(ch)] if ch in 'abcde' and not txt[max(0, i - 1):i + 3].startswith('sqrt') else ch for i, ch in enumerate(txt))


def request_of(rng, ts, grouped=None):
    """a valid request, as the page sends it; returns (json, info); grouped: (an entry of GROUPED, its letters)"""
    n = rng.choice([3, 3, 3, 3, 2, 4, 1, 5])
    txt, f, prov = rng.choice(POOL[n])
    if grouped:
        n, txt, f, prov = 3, grouped[0][0], lambda a, b, c: 0*a, None
    letters = 'abcde'[:n] if rng.random() < .6 else ''.join(rng.sample('abcdexyzuvw', n))
    if grouped:
        letters = grouped[1]
    gens = sp.symbols(list(letters))
    poly = sp.Poly(f(*gens), *gens, extension=True)
    if 'sqrt' in txt:
        letters = 'abcde'[:n]
        gens = sp.symbols(list(letters))
        poly = sp.Poly(f(*gens), *gens, extension=True)
    txt = rename(txt, letters)
    cycp = [(i + 1) % n for i in range(n)]
    perms = [[cycp]] + ([[cycp, [1, 0] + list(range(2, n))]] if n > 2 else []) + [[list(range(n))]]
    perm = perms[0] if 's(' in txt or 'p(' in txt else rng.choice(perms)
    if grouped:
        perm = rng.choice(perms + [[[1, 0, 2]], [[0, 2, 1]]])
    req = {'poly': txt, 'gens': letters, 'perm': json.dumps(perm) if rng.random() < .8 else perm, 'perm_choice': 'cyc', 'timestamp': ts,
           'standardize_text': rng.choice([False, False, False, None, 'factor', 'expand', 'sort'])}
    els = [list(x) for x in _group(perm, n)]
    if grouped:
        every = lambda e: [sp.sympify(e).xreplace({g: gens[i] for g, i in zip(gens, x)}) for x in els]
        poly = sp.Poly(sp.expand(grouped[0][1](lambda e: sp.Add(*every(e)), lambda e: sp.Mul(*every(e)), *gens)), *gens)
    info = {'gens': gens, 'poly': poly, 'prov': prov, 'els': els, 'valid': True}
    if rng.random() < .12:
        req['homogenize'] = True
        if not poly.is_homogeneous and poly.degree(-1) == 0:
            D = poly.total_degree()
            info['poly'] = sp.Poly(sum(v * sp.Mul(*[g ** i for g, i in zip(gens, m)]) * gens[-1] ** (D - sum(m)) for m, v in poly.terms()), *gens, extension=True)
    elif rng.random() < .12:
        d = req['dehomogenize'] = rng.choice([0, 1])
        for g in reversed(gens):
            if poly.degree(g) > 0:
                info['poly'] = sp.Poly(poly.as_expr().subs(g, d), *gens, extension=True)
                break
    if rng.random() < .12:
        req['omit_pow'] = req['omit_mul'] = False
    if info['poly'] is not poly:
        info['prov'] = None
    acts = rng.choice([['findroot'], ['findroot', 'sos'], ['findroot', 'sos'], ['findroot', 'sos'], ['sos'], []])
    req['actions'] = acts
    if 'sos' in acts:
        k = rng.random()
        if n >= 4:
            ms = {'StructuralSOS': True, 'LinearSOS': rng.random() < .5, 'SymmetricSOS': True, 'SDPSOS': False}
        else:
            ms = {m: rng.random() < .75 for m in ('StructuralSOS', 'LinearSOS', 'SymmetricSOS', 'SDPSOS')}
        if rng.random() < .05:
            ms = {m: False for m in ms}
        req['methods'] = ms
        req['configs'] = rng.choice([{'StructuralSOS': {}, 'LinearSOS': {'verbose': True}, 'SDPSOS': {'verbose': True}}, {'LinearSOS': {'verbose': False}}, {}])
        if rng.random() < .5:
            req['tangents'] = rename(rng.choice(['', 'a-b', 'a-b\nb-c\nc-a', 'a2-bc\n\n', 'zzz(\na+b', 's(a)', '1', 'a-a', 'a-b\nzq', '2a-b-1', 'a/b']) if n >= 3 else rng.choice(['', 'a', 'a-1\n((']), letters)
    elif rng.random() < .2:
        req['tangents'] = ''
    return req, info


def _group(perm, n):
    els = {tuple(range(n))}
    while True:
        new = {tuple(p[x[i]] for i in range(n)) for p in map(tuple, perm) for x in els} | els
        if new == els:
            return sorted(els)
        els = new


JUNK = [None, 0, -1, 3.5, True, '', 'abc', 'x' * 300, [], ['a'], [[1, 2]], {}, {'a': 1}, [[0, 1, 2]], '[[1,2,0]]', '[[0,0]]', '[[5,1]]', '1/0', '__import__("os").getcwd()', [None], '\x00', 'é']


def spoil(rng, req):
    """a malformed or hostile variant: drop or replace fields"""
    keys = ['poly', 'gens', 'perm', 'methods', 'configs', 'tangents', 'standardize_text', 'actions', 'homogenize', 'dehomogenize', 'omit_mul', 'omit_pow', 'timestamp']
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(keys)
        if rng.random() < .35:
            req.pop(k, None)
        elif k == 'poly':
            req[k] = rng.choice(INVALID + JUNK)
        elif k == 'actions':
            req[k] = rng.choice([['sos'], ['sos', 'sos'], ['x', 'sos'], [], None, 5, ['findroot', 'sos'], ['findroot']])
        else:
            req[k] = rng.choice(JUNK)
    if rng.random() < .1:
        req[rng.choice(['rootsinfo', 'grid', 'degree', 'txt', 'denom', 'self', 'target', 'sid2', 'kwargs', 'triangle'])] = rng.choice(JUNK)
    return req


# ------------------------------------------------------------------ the monitor
class Scripted:
    """stands in for the solver: fails, answers nothing, or answers"""
    def __init__(self, rng, mode, real):
        self.rng, self.mode, self.real = rng, mode, real


class Bomb:
    """a solution whose rendering fails"""


class Harness:
    def __init__(self, rng, fail, cnt, delays):
        M = mods()
        self.w, self.M, self.rng, self.fail, self.cnt = M['w'], M, rng, fail, cnt
        self.tasks, self.dead, self.lock = [], [], threading.Lock()
        self.delays = delays
        w = self.w
        self.keep = (w.socketio.start_background_task, threading.excepthook, M['SM'].__dict__['sum_of_squares'], M['SM'].__dict__['findroot'])

        def start(target, *a, **k):
            t = self.keep[0](target, *a, **k)
            with self.lock:
                self.tasks.append(t)
            return t
        w.socketio.start_background_task = start
        threading.excepthook = lambda a: self.dead.append((a.exc_type.__name__, str(a.exc_value)[:200]))
        self.script = {}     # timestamp-free: polynomial text -> behaviour
        real_sos = M['SM'].sum_of_squares
        real_fr = M['SM'].findroot
        drng = random.Random(rng.random())

        def pause():
            if self.delays:
                time.sleep(drng.choice([0, 0, .001, .004, .02]))

        def sos(poly, *a, **k):
            pause()
            b = self.script.get(str(poly))
            if b == 'raise':
                raise ValueError('injected')
            if b == 'none':
                return None
            r = real_sos(poly, *a, **k)
            if b == 'badtext' and r is not None:
                r.solution = 17     # not an expression: the texts can not be made
            pause()
            return r

        def fr(poly, *a, **k):
            pause()
            if self.script.get(str(poly)) == 'noroot':
                raise ValueError('injected')
            r = real_fr(poly, *a, **k)
            pause()
            return r
        M['SM'].sum_of_squares = sos
        M['SM'].findroot = fr
        self.sessions = []

    def connect(self):
        c = self.w.socketio.test_client(self.w.app)
        sid = self.w.socketio.server.manager.sid_from_eio_sid(c.eio_sid, '/')
        self.sessions.append((c, sid))
        return c, sid

    def post(self, path, body, **k):
        with self.w.app.test_client() as h:
            r = h.post(path, json=body, **k) if not isinstance(body, bytes) else h.post(path, data=body, **k)
            try:
                return r.status_code, r.get_json(silent=True)
            except Exception:
                return r.status_code, None

    def drain(self):
        while True:
            with self.lock:
                ts = [t for t in self.tasks if t.is_alive()]
            if not ts:
                return
            for t in ts:
                t.join()

    def close(self):
        self.w.socketio.start_background_task, threading.excepthook = self.keep[:2]
        self.M['SM'].sum_of_squares, self.M['SM'].findroot = self.keep[2:]
        for c, sid in self.sessions:
            try:
                if c.is_connected():
                    c.disconnect()
            except Exception:
                pass


def negative_somewhere(poly, gens, rng):
    for _ in range(60):
        env = {g: mpq(rng.choice([0, 0, 1, 1, 2, 3, 5, rng.randint(0, 30)]), rng.choice([1, 1, 2, 7])) for g in gens}
        v = sp.N(poly.as_expr().subs({g: sp.Rational(int(x.numerator), int(x.denominator)) for g, x in env.items()}), 30)
        if v < -1e-12:
            return {str(k): str(x) for k, x in env.items()}
    return None


def judge_proof(h, ev, req, info, rng):
    from .c15 import read_sides, Val, ReadError, vmul
    import mpmath
    gens, poly = info['gens'], info['poly']
    d = {'request': {k: v for k, v in req.items() if k != 'sid'}, 'event': ev}
    at = negative_somewhere(poly, gens, rng)
    if at:
        h.fail('success for a polynomial that is negative at a positive point', at=at, **d)
    free = sorted(poly.free_symbols | set(gens), key=str)
    for key, mode in (('latex', 'latex'), ('txt', 'txt'), ('formatted', 'formatted')):
        text = ev.get(key)
        if not isinstance(text, str) or not text.strip():
            h.fail('a success without its ' + key, **d)
            continue
        try:
            L, sign, Rr = read_sides(text, mode)
        except ReadError as e:
            h.fail('the %s of a success is not readable' % key, why=str(e), **d)
            continue
        n = 0
        for _ in range(8):
            env = {str(g): rnd_rational(rng, 1, 9) for g in free}
            with mpmath.workdps(60):
                try:
                    p = eval_poly(poly, {g: env[str(g)] for g in gens}) if poly.domain.is_QQ or poly.domain.is_ZZ else None
                    if p is None:
                        from ..evalx import Evaluator
                        p = Evaluator({g: env[str(g)] for g in free})(poly.as_expr())
                    l = Val(gens, info['els'], p).ev(L, env)
                    r = Val(gens, info['els'], None).ev(Rr, env)
                except Undefined:
                    continue
                except ReadError as e:
                    h.fail('the %s of a success is not readable' % key, why=str(e), **d)
                    break
                if sign == '=' and not same(l, r):
                    h.fail('the %s of a success is not an identity for the polynomial of the request' % key, at=str(env), left=str(l)[:50], right=str(r)[:50], **d)
                    break
                n += l != 0
            if n >= 2:
                h.cnt('texts read')
                break
        if sign != '=':
            h.cnt('approximate')
            if not poly.has(sp.Float):
                h.fail('the %s of a success is only approximate' % key, **d)


def judge_response(h, code, body, req, info):
    """the reply of a valid request"""
    d = {'request': {k: v for k, v in req.items() if k != 'sid'}, 'reply': str(body)[:500], 'code': code}
    if code != 200 or not isinstance(body, dict) or not body:
        h.fail('a valid request was not answered', **d)
        return
    gens, poly = info['gens'], info['poly']
    h.cnt('replies')
    if not poly.is_zero and body.get('n') != poly.total_degree():
        h.fail('the degree in the reply', want=poly.total_degree(), **d)
    q, den = h.M['pt'](body['txt'], gens=tuple(gens), perm=_sympy_group(info['els']), return_type='frac')
    if q is None or not (sp.expand(q.as_expr() - poly.as_expr()) == 0 or (not poly.is_zero and abs(sp.N(sp.cancel(q.as_expr() / poly.as_expr()).as_numer_denom()[0].free_symbols and 0 or 1)) > 0)):
        h.fail('the text in the reply is another polynomial', want=str(poly), reads=str(q), **d)
    tr = body.get('triangle')
    if len(gens) in (3, 4) and poly.is_homogeneous and not poly.is_zero:
        D = poly.total_degree()
        if not isinstance(tr, list) or len(tr) != ((D + 1) * (D + 2) // 2 if len(gens) == 3 else (D + 1) * (D + 2) * (D + 3) // 6) or \
                sum(x != '0' for x in tr) != len(poly.terms()):
            h.fail('the triangle in the reply', **d)
    hm = body.get('heatmap')
    if len(gens) in (3, 4) and poly.is_homogeneous and not poly.is_zero:
        if not isinstance(hm, list) or len(hm) != (1891 if len(gens) == 3 else 1330):
            h.fail('the heat map in the reply', got=str(hm)[:80], **d)
    elif hm is not None:
        h.fail('a heat map for a polynomial that has none', got=str(hm)[:80], **d)


def _sympy_group(els):
    from sympy.combinatorics import Permutation, PermutationGroup
    return PermutationGroup(*[Permutation(x) for x in els])


def judge_events(h, log, rng, gone=()):
    """log: list of (sid, request, info, code, reply); the offline checker of the recorded histories"""
    got = {}
    for c, sid in h.sessions:
        evs = []
        if sid not in gone:
            for x in c.get_received():
                evs.append((x['name'], x['args'][0] if x['args'] else None))
        got[sid] = evs
        h.cnt('events', len(evs))
    for c, sid in h.sessions:
        if sid in gone:
            continue
        exp = [(q, i) for s, q, i, *_ in log if s == sid]
        ev = got[sid]
        sos = [e for nm, e in ev if nm == 'sos']
        for e in sos:
            if not isinstance(e, dict) or set(e) != {'latex', 'txt', 'formatted', 'success', 'timestamp'} or e['success'] not in (True, False):
                h.fail('malformed sos event', event=e)
        want = [(q, i) for q, i in exp if i['proof']]
        key = lambda t: json.dumps(t, sort_keys=True)
        A = sorted(key(q.get('timestamp', 0)) for q, i in want)
        B = sorted(key(e.get('timestamp')) for e in sos)
        if A != B:
            miss = [q for q, i in want if A.count(key(q.get('timestamp', 0))) > B.count(key(q.get('timestamp', 0)))]
            extra = [e for e in sos if B.count(key(e.get('timestamp'))) > A.count(key(e.get('timestamp')))]
            if miss:
                h.fail('a proof request got no result event', requests=[{k: v for k, v in q.items() if k != 'sid'} for q in miss][:2])
            if extra:
                h.fail('a result event that answers no request of this session', events=extra[:2], requests=[q.get('timestamp') for q, i in want])
        for q, i in want:
            h.cnt('proof requests')
            es = [e for e in sos if key(e.get('timestamp')) == key(q.get('timestamp', 0))]
            if len(es) != 1:
                continue
            e = es[0]
            if e['success']:
                h.cnt('proved')
                if i['valid']:
                    judge_proof(h, e, q, i, rng)
                    if i.get('force') in ('raise', 'none', 'badtext'):
                        h.fail('success although the solver failed', request=q, event=e)
            else:
                h.cnt('failures')
                if e['latex'] or e['txt'] or e['formatted']:
                    h.fail('a failure with a proof', event=e)
                if i['valid'] and i['prov'] and not i.get('force') and q.get('methods', {}).get('StructuralSOS') and not i['poly'].has(sp.Float) and '.' not in q['poly']:
                    P = i['poly']
                    Q = sp.Poly(P.as_expr(), *sorted(P.free_symbols, key=str), extension=True)
                    ref = h.M['sos'](Q, list(Q.gens), [], method_order=[k for k, v in q['methods'].items() if v], configs={'LinearSOS': {'verbose': False}, 'SDPSOS': {'verbose': False}})
                    h.cnt('failures compared with the solver')
                    if ref is not None:
                        h.fail('the solver proves the polynomial, the answer is a failure', request={k: v for k, v in q.items() if k != 'sid'}, proof=ref)
        rt = [e for nm, e in ev if nm == 'rootangents']
        wantr = [q for q, i in exp if i['valid'] and 'findroot' in q['actions'] and q.get('tangents') is None and i.get('force') != 'noroot']
        A = sorted(key(q.get('timestamp', 0)) for q in wantr)
        B = sorted(key(e.get('timestamp')) for e in rt)
        ok = [q for q, i in exp if not i['valid'] or i.get('force') == 'noroot']
        okk = {key(q.get('timestamp', 0)) for q in ok}
        if [x for x in A if x not in okk] != [x for x in B if x not in okk]:
            h.fail('root events do not match the root requests', requests=wantr[:3], events=rt[:3])
        h.cnt('root events', len(rt))
        for e in rt:
            if not isinstance(e.get('rootsinfo'), str) or not isinstance(e.get('tangents'), list) or any(not isinstance(t, str) for t in e['tangents']):
                h.fail('malformed root event', event=e)
        if any(nm not in ('sos', 'rootangents') for nm, e in ev):
            h.fail('an unexpected event', events=[nm for nm, e in ev])
    if h.dead:
        h.fail('a background task died', exceptions=h.dead[:3], requests=[{k: v for k, v in q.items() if k != 'sid'} for s, q, *_ in log][:3])


# ------------------------------------------------------------------ scenarios
def alive(h, rng, tag):
    """the server still proves something for a new session"""
    c, sid = h.connect()
    ts = 'alive-%d' % rng.randrange(10 ** 9)
    gens = sp.symbols('a b c')
    req = {'sid': sid, 'poly': 's(a2-ab)', 'gens': 'abc', 'perm': '[[1,2,0]]', 'actions': ['findroot', 'sos'], 'methods': {'StructuralSOS': True},
           'configs': {}, 'timestamp': ts, 'tangents': ''}
    code, body = h.post('/process/preprocess', dict(req))
    h.drain()
    a, b, c_ = gens
    info = {'gens': gens, 'poly': sp.Poly(a**2 + b**2 + c_**2 - a*b - b*c_ - c_*a, *gens), 'prov': True, 'els': [[0, 1, 2], [1, 2, 0], [2, 0, 1]], 'valid': True, 'proof': True, 'easy': True}
    n0 = len(h.bad)
    judge_response(h, code, body, req, info)
    evs = [x for x in c.get_received()]
    good = [x for x in evs if x['name'] == 'sos' and x['args'][0].get('success') and x['args'][0].get('timestamp') == ts]
    if len(good) != 1:
        h.fail('the server does not answer any more', tag=tag, events=str(evs)[:300])
    else:
        judge_proof(h, good[0]['args'][0], req, info, rng)
    h.sessions.remove((c, sid))
    c.disconnect()
    h.cnt('alive')


def run_scenario(kind, rng, fail, cnt, obs):
    h = Harness(rng, fail, cnt, delays=kind in ('many', 'gone'))
    h.bad = []
    keepi = sys.getswitchinterval()
    try:
        log = []
        ts = itertools.count(rng.randint(0, 10 ** 6))
        if kind in ('one', 'bad', 'fault', 'regroup'):
            c, sid = h.connect()
            other = h.connect()
            grouped = (rng.choice(GROUPED), rng.choice(['abc', 'abc', 'xyz', 'bca', 'ucd'])) if kind == 'regroup' else None
            for _ in range(3 if kind != 'bad' else 5):
                req, info = request_of(rng, next(ts), grouped)
                if grouped:
                    cnt('the same text under another group')
                if kind == 'bad':
                    req = spoil(rng, req)
                    info = {'valid': False, 'gens': info['gens'], 'poly': info['poly']}
                    if rng.random() < .25:
                        req['sid'] = sid
                        body = req
                req['sid'] = sid
                acts = req.get('actions')
                try:
                    info['proof'] = 'sos' in acts
                except TypeError:
                    info['proof'] = False
                if kind == 'fault':
                    req['actions'] = ['findroot', 'sos']
                    info['proof'] = True
                    req.setdefault('methods', {'StructuralSOS': True})
                    req.setdefault('configs', {})
                    b = info['force'] = rng.choice(['raise', 'none', 'noroot', 'badtext'])
                    h.script[str(info['poly'])] = b
                obs.append((str(req), kind))
                code, body = h.post('/process/preprocess', dict(req))
                h.drain()
                log.append((sid, req, info, code, body))
                if info['valid']:
                    judge_response(h, code, body, req, info)
                else:
                    cnt('malformed requests')
                    cnt('status %s' % code)
                h.script.clear()
            judge_events(h, log, rng)
            alive(h, rng, kind)
        elif kind in ('many', 'gone'):
            sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, 5e-3]))
            S = [h.connect() for _ in range(rng.choice([2, 3, 4]))]
            plan = []
            for c, sid in S:
                my = []
                for _ in range(rng.choice([1, 2, 2, 3])):
                    req, info = request_of(rng, next(ts))
                    if rng.random() < .15:
                        req, info = spoil(rng, req), {'valid': False, 'gens': info['gens'], 'poly': info['poly']}
                        req['timestamp'] = next(ts)
                    req['sid'] = sid
                    if rng.random() < .4 and info['valid']:     # the same polynomial in several sessions
                        base = plan[0][0] if plan and plan[0] else None
                        if base and base[1]['valid']:
                            req, info = dict(json.loads(json.dumps(base[0])), sid=sid, timestamp=next(ts)), dict(base[1])
                    try:
                        info['proof'] = 'sos' in req.get('actions')
                    except TypeError:
                        info['proof'] = False
                    my.append((req, info))
                    obs.append((str({k: v for k, v in req.items() if k != 'sid'}), kind))
                plan.append(my)
            res = []
            gone = set()

            def client(k):
                r = random.Random(k)
                c, sid = S[k]
                for req, info in plan[k]:
                    time.sleep(r.choice([0, 0, .002, .01]))
                    code, body = h.post('/process/preprocess', json.loads(json.dumps(req)))
                    res.append((sid, req, info, code, body))
                    if kind == 'gone' and k == 0:
                        gone.add(sid)
                        c.disconnect()
                        break
            th = [threading.Thread(target=client, args=(k,)) for k in range(len(S))]
            for t in th:
                t.start()
            for t in th:
                t.join()
            h.drain()
            cnt('concurrent tasks', len(h.tasks))
            for sid, req, info, code, body in res:
                if info['valid']:
                    judge_response(h, code, body, req, info)
            if kind == 'gone':
                cnt('disconnected sessions', len(gone))
            judge_events(h, res, rng, gone)
            sys.setswitchinterval(keepi)
            alive(h, rng, kind)
        elif kind == 'raw':
            c, sid = h.connect()
            for _ in range(6):
                body = rng.choice([b'', b'{', b'[]', b'null', b'"x"', b'\xff\xfe', b'{"sid": 1}', json.dumps({'poly': 's(a2)', 'sid': 'x' + sid}).encode(), json.dumps({'poly': 's(a2)'}).encode(),
                                   json.dumps({'poly': 's(a2-ab)', 'sid': rng.choice([None, 5, 'nobody', [], {}]), 'actions': rng.choice([['findroot'], ['findroot', 'sos'], ['sos']]), 'methods': {'StructuralSOS': True}, 'configs': {}, 'timestamp': 1}).encode(),
                                   json.dumps([{'poly': 'a', 'sid': sid, 'actions': ['findroot']}]).encode()])
                path = rng.choice(['/process/preprocess', '/process/latexcoeffs', '/process/other', '/'])
                code, _ = h.post(path, body, content_type=rng.choice(['application/json', 'application/json', 'text/plain']))
                obs.append((str(body), path))
                cnt('raw bodies')
                cnt('status %s' % code)
                h.drain()
            for x in c.get_received():
                h.fail('an event for a session that asked for nothing', events=x)
            alive(h, rng, kind)
        elif kind == 'latex':
            for _ in range(4):
                req, info = request_of(rng, 0)
                if len(info['gens']) != 3:
                    continue
                q = {k: req[k] for k in ('poly', 'gens', 'perm')}
                good = True
                if rng.random() < .4:
                    q[rng.choice(list(q))] = rng.choice(JUNK)
                    good = False
                code, body = h.post('/process/latexcoeffs', q)
                obs.append((str(q), 'latex'))
                cnt('latex requests')
                poly = h.M['pt'](req['poly'], gens=info['gens'], return_type='frac')[0] if good else None
                if good and poly.is_homogeneous and (code != 200 or not isinstance(body.get('coeffs'), str) or (not poly.is_zero and 'tabular' not in body['coeffs'])):
                    h.fail('the LaTeX table was not answered', request=q, code=code, reply=body)
                elif good and poly.is_homogeneous and not poly.is_zero:
                    cells = [x.strip(' \\\n') for r in body['coeffs'].split('{' + 'c' * (2 * poly.total_degree() + 1) + '}')[1].split('\\end{tabular}')[0].split('\\\\') for x in r.split('&')]
                    n = sum(1 for x in cells if x and not x.startswith('textcolor'))
                    if n != len(poly.terms()):
                        h.fail('the LaTeX table', request=q, reply=body, cells=n)
                    cnt('latex tables')
            alive(h, rng, kind)
    finally:
        sys.setswitchinterval(keepi)
        h.close()


def job(arg):
    kind, si = arg.split(':')
    mods()
    rng = random.Random('c22/' + arg)
    bad, obs, c_ = [], [], {}
    seen = set()

    def fail(what, **dd):
        bad.append((what, {k: str(v)[:1200] for k, v in dd.items()}))

    def cnt(k, n=1):
        c_[k] = c_.get(k, 0) + n
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        run_scenario(kind, rng, fail, cnt, obs)
    return bad, obs, c_


def run(chk):
    jobs = []
    for kind, q, th in (('one', 70, 900), ('bad', 70, 900), ('fault', 30, 300), ('regroup', 15, 200), ('many', 40, 500), ('gone', 15, 150), ('raw', 10, 80), ('latex', 15, 150)):
        jobs += ['%s:%d/%d' % (kind, chk.seed, i) for i in range(chk.n(q, th))]
    chk.rng.shuffle(jobs)
    mods()
    for i, j, r in common.pmap(job, jobs, cpu=chk.n(30, 90), deadline=chk.deadline, recycle=1):
        if r[0] == 'exc':
            chk.violation('the server or a route raised', {'job': j, 'exc': r[1]})
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        bad, obs, c_ = r[1]
        for o in obs:
            chk.observe(o, nontrivial='sos' in o[0], sample=o)
        for k, v in c_.items():
            chk.count(k, v)
        for w, d_ in bad:
            chk.violation(w, dict(d_, job=j))
    for k, m in (('proof requests', 150), ('proved', 60), ('failures', 60), ('texts read', 150), ('malformed requests', 150), ('concurrent tasks', 60),
                 ('alive', 100), ('root events', 30), ('replies', 100), ('disconnected sessions', 3)):
        chk.require(k, m)
