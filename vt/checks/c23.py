"""C23: batch solving - one record per problem, in order, whatever fails; the saved file says the same."""
import os, sys, csv, time, random, shutil, tempfile, copy, contextlib, io
import sympy as sp
from sympy import Rational as R
from .. import common, gen, oracle, evalx

RULE = ('lists of 0-8 problems (texts in many spellings, Polys, blank lines, texts that are not polynomials, zero, '
        'constants, negative forms, decimal coefficients), given as lists or files, with list or dictionary constraints; '
        'a scripted solver put in front of the real ones raises, refuses, sleeps, answers or answers approximately at '
        'chosen positions; every way of saving (no, directory, file, nested directory, bare name, next to the source). '
        'Oracle: the script, and the same problem solved alone. Non-trivial: a batch with at least two records.')
ASSUMPTIONS = ['the solvers are deterministic for equal inputs (checked by comparing the status and the value of proofs, not their form)',
               'empty lines and entries that are neither text nor polynomials are documented to be skipped']

a, b, c, d = sp.symbols('a b c d')
GOOD = ['a^2+b^2+c^2-a*b-b*c-c*a', 's(a2-ab)', 's(a(b-c)2)', 'a^3+b^3+c^3-3abc', 's(a4-a2bc)', '(a-b)^2', 's(a)2-3s(ab)', '2a^2-4ab+2b^2',
        's(ab(a-b)2)', 's(a^2)2-3s(a^3b)', 's(a3-a2b)', '(a+b+c)(ab+bc+ca)-9abc', 'a^2/2+b^2/2-ab', '0.5a^2+0.5b^2-ab', r'\frac{1}{2}s(a^2-ab)',
        's(a)3-27p(a)', 'p(a+b)-8abc', 'a^4+b^4-a^3b-ab^3', '  s(a2-ab) ', 'a2-2ab+b2+c2']
FAIL = ['-a^2', 's(ab-a2)', 'a-b', '-1', 'a^2-3ab+b^2-c^2', '-s(a3)']
BAD = ['a+(', '??', 'a^', 's(a', 'a*+/b', '1/(a+b)', 'hello world(', 'sqrt(a', '))', 'a@b', 'a^b', "a'b", 'a==b', '1/0', '[a,b]', 'lambda', '#']
ODD = ['0', '1', 'a-a', '3.5', 's(a-b)', 'p(a)', 'a', 'x+a', '1.5a', 'sqrt(2)a^2']
ERRS = [ValueError('boom'), ZeroDivisionError('x'), TypeError(), RecursionError('deep'), AssertionError(), MemoryError(), KeyError('k'),
        NotImplementedError(), StopIteration(), ArithmeticError(), IndexError('a'), RuntimeError('b'), TimeoutError('late'), AttributeError('q'), OSError(5, 'io')]


class Fault:
    """The scripted solver (takes the place of the structural one and falls back to it)."""
    def __init__(self, real):
        self.real, self.script, self.seen, self.kw = real, {}, [], []

    def __call__(self, poly, ineq={}, eq={}, **kw):
        from triples.utils.expression.solution import SolutionSimple
        key = sp.srepr(poly)
        act = self.script.get(key, 'real')
        self.seen.append(key)
        self.kw.append(copy.deepcopy(kw))
        kw.pop('vt_mark', None)
        if isinstance(act, BaseException):
            raise act
        if act == 'none':
            return None
        if isinstance(act, tuple):
            time.sleep(act[1])
            return None if act[0] == 'slow none' else self.real(poly, ineq, eq, **kw)
        if act == 'approx':
            return SolutionSimple(problem=poly, solution=poly.as_expr() * sp.Float('1.000001'), is_equal=False)
        if act == 'wrong':
            return SolutionSimple(problem=poly, solution=poly.as_expr() + 1)
        if act == 'own':
            return SolutionSimple(problem=poly, solution=poly.as_expr())
        return self.real(poly, ineq, eq, **kw)


_S = {}


def setup():
    if not _S:
        common.use_repo()
        import triples.core.sum_of_squares
        M = sys.modules['triples.core.sum_of_squares']
        f = Fault(M.NAME_TO_METHOD['StructuralSOS'])
        M.NAME_TO_METHOD['StructuralSOS'] = f
        from triples.utils.text_process import preprocess_text
        _S.update(M=M, f=f, pt=preprocess_text)
    return _S


def parse(S, t, kw):
    try:
        return S['pt'](t, **kw)
    except Exception:
        return None


def strs(v):
    return '' if v is None else str(v)


def job(arg):
    seed, i = arg
    rng = random.Random('c23/%d/%d' % (seed, i))
    S = setup()
    M, fault = S['M'], S['f']
    bad, cnt = [], {}

    def fail(what, **d):
        bad.append((what, {k: str(v)[:600] for k, v in d.items()}))

    def count(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8])
    gens = (a, b, c)
    kw = {}
    if rng.random() < .25:
        gens = rng.choice([(a, b), (a, b, c, d), (a, b, c)])
        kw['gens'] = gens
    probs = []
    from_file = rng.random() < .3
    for _ in range(n):
        k = rng.random()
        if k < .45:
            t = rng.choice(GOOD)
        elif k < .6:
            t = rng.choice(FAIL)
        elif k < .75:
            t = rng.choice(BAD)
        elif k < .85:
            t = rng.choice(ODD)
        elif k < .93 and not from_file:
            t = sp.Poly(gen.cyc_known(rng, rng.choice([2, 3, 4])), a, b, c) if rng.random() < .7 else sp.Poly(rng.choice([a ** 2 + b ** 2 - 2 * a * b, -a ** 2, sp.S(0), 1.5 * a ** 2]), *gens)
        else:
            t = rng.choice(['', '   ', '\t'])
        probs.append(t)
    if probs and rng.random() < .3:
        probs.insert(rng.randint(0, len(probs)), rng.choice(probs))      # duplicates
    cons = rng.choice(['none', 'list', 'dict', 'list'])
    ineq = {'none': {}, 'list': list(gens), 'dict': {g: sp.Symbol('x_%s' % g) for g in gens}}[cons]
    order = rng.choice([['StructuralSOS'], ['StructuralSOS', 'LinearSOS'], None, 'default'])
    if order is None or order == 'default':
        order = ['StructuralSOS', 'LinearSOS'] if rng.random() < .8 else order
    want_kw = {}
    configs = {}
    if rng.random() < .5:
        configs = {'StructuralSOS': {'vt_mark': rng.randint(0, 99)}, 'LinearSOS': rng.choice([{}, {'verbose': True}, {'lift_degree_limit': 2}, {'augment_tangents': False}])}
        if rng.random() < .15:
            configs['LinearSOS'] = {'no_such_option': 1}
    verbose_sos = rng.random() < .1
    scratch = tempfile.mkdtemp(prefix='vt23_')
    cwd = os.getcwd()
    try:
        src = probs
        os.chdir(scratch)
        if from_file:
            src = rng.choice(['probs.txt', os.path.join(scratch, 'p.txt'), os.path.join('in', 'q.txt')])
            if os.path.dirname(src) and not os.path.isabs(src):
                os.makedirs(os.path.dirname(src))
            probs = [t for t in probs if isinstance(t, str)]
            with open(src, 'w') as f:
                f.write('\n'.join(probs) + rng.choice(['', '\n', '\n\n']))
        elif rng.random() < .2:
            src = tuple(probs)
        texts = [t.strip() if isinstance(t, str) else t for t in probs]
        texts = [t for t in texts if not isinstance(t, str) or t]
        polys = [parse(S, t, kw) if isinstance(t, str) else t for t in texts]
        # the script
        fault.script = {}
        for p in polys:
            if p is None:
                continue
            k = rng.random()
            act = 'real'
            if k < .2:
                act = rng.choice(ERRS)
            elif k < .26:
                act = 'none'
            elif k < .34:
                act = (rng.choice(['slow', 'slow none']), rng.choice([.03, .08, .15]))
            elif k < .4:
                act = 'approx'
            elif k < .45:
                act = 'wrong'
            elif k < .5:
                act = 'own'
            fault.script.setdefault(sp.srepr(p), act)
        mcall = {} if order == 'default' else {'method_order': order}
        # the same problems alone
        alone = []
        for p in polys:
            if p is None:
                alone.append(('invalid', None))
                continue
            cf = copy.deepcopy(configs)
            for k in ('LinearSOS', 'SDPSOS'):
                cf.setdefault(k, {})['verbose'] = False
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    s = M.sum_of_squares(p, copy.copy(ineq), {}, configs=cf, **mcall)
                alone.append(('fail', None) if s is None else (('success' if s.is_equal else 'inaccurate'), s))
            except Exception as e:
                alone.append(('error', None))
        save = rng.choice(['no', 'no', 'dir', 'file', 'nested', 'bare', 'true'])
        sv = {'no': False, 'dir': scratch, 'file': os.path.join(scratch, 'o.csv'), 'nested': os.path.join(scratch, 'x', 'y', 'o.csv'),
              'bare': 'bare.csv', 'true': True}[save]
        if save == 'dir' and rng.random() < .4:
            sv = '.'
        meth = rng.choice(['str_formatted', 'str_txt', 'str_latex', 'call'])
        smeth = meth if meth != 'call' else (lambda s: 'none!' if s is None else str(s.solution))
        before = set(os.path.relpath(os.path.join(r, f)) for r, _, fs in os.walk('.') for f in fs)
        keep = (copy.deepcopy(configs), copy.copy(ineq), list(probs), copy.deepcopy(kw), copy.deepcopy(M.DEFAULT_CONFIGS), list(M.METHOD_ORDER))
        prc = dict(kw)
        fault.seen, fault.kw = [], []
        progress = rng.random() < .3
        ckw = dict(mcall)
        if configs or rng.random() < .5:
            ckw['configs'] = configs
        if prc or rng.random() < .5:
            ckw['poly_reader_configs'] = prc
        elif rng.random() < .5:
            pass
        kwkeep = copy.deepcopy(prc)
        if verbose_sos:
            ckw['verbose_sos'] = True
        det = dict(probs=texts, cons=cons, order=order, script={str(k)[:60]: repr(v) for k, v in fault.script.items()}, save=save, src=type(src).__name__, configs=configs)
        t0 = time.time()
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
                df = M.sum_of_squares_multiple(src, ineq, {}, save_result=sv, save_solution_method=smeth, verbose_progress=progress, **ckw)
        except Exception as e:
            import traceback
            fail('the batch raised', exc=(type(e).__name__, str(e)[:200], traceback.format_exc()[-1200:]), **det)
            return bad, [], cnt
        wall = time.time() - t0
        # ---------- the records
        count('batches')
        obs = [(str(texts), cons, str(order), save)]
        if len(df) != len(texts):
            fail('number of records', got=len(df), want=len(texts), **det)
            return bad, obs, cnt
        if list(df.index) != list(range(1, len(texts) + 1)):
            fail('record numbers', got=list(df.index), **det)
        if (configs, ineq, list(probs), M.DEFAULT_CONFIGS, M.METHOD_ORDER) != (keep[0], keep[1], keep[2], keep[4], keep[5]):
            fail('an argument or a default was modified', now=(configs, ineq, M.DEFAULT_CONFIGS), **det)
        if prc != kwkeep:
            fail('an argument or a default was modified', now=prc, **det)
        recs = df.to_dict('records')
        tot = 0.
        for k, (t, p, (st, s), r) in enumerate(zip(texts, polys, alone, recs)):
            count('records')
            count('status ' + str(r.get('status')))
            dd = dict(det, at=k, problem=t, record=r)
            if not (r['problem'] == t):
                fail('the record is about another problem', **dd)
                continue
            if r['status'] != st:
                fail('status of a record', want=st, **dd)
                continue
            sol, me = r['solution'], r['method']
            isnone = lambda v: v is None or (isinstance(v, float) and v != v)
            if st in ('invalid', 'fail', 'error'):
                if not isnone(sol) or not isnone(me):
                    fail('a proof in the record of a problem that was not solved', **dd)
            else:
                if sol is None or isinstance(sol, float):
                    fail('no proof in the record of a solved problem', **dd)
                    continue
                if sol.problem != p:
                    fail('the proof in a record is about another problem', proof_of=sol.problem, **dd)
                    continue
                act = fault.script.get(sp.srepr(p), 'real')
                if st == 'success' and act != 'wrong' and not (p.domain.is_RR or any('sqrt' in str(q) for q in p.coeffs())):
                    iq = [(g, ineq[g]) for g in gens] if isinstance(ineq, dict) and ineq else [(g, g) for g in (ineq or [])]
                    q = oracle.check_identity(sol.solution, p.as_expr(), list(p.gens), iq, [], rng, 2)
                    count('identity ' + q[0])
                    if q[0] == 'bad':
                        fail('a proof recorded as success is not equal to the problem', why=q[1], sol=sol.solution, **dd)
                if sp.srepr(sol.solution) != sp.srepr(s.solution):
                    count('other form than alone')
                    try:
                        pt = {v: R(rng.randint(1, 9), rng.randint(1, 5)) for v in sol.solution.free_symbols | s.solution.free_symbols}
                        if abs(sp.N((sol.solution - s.solution).doit().subs(pt))) > 1e-3 * (1 + abs(sp.N(s.solution.doit().subs(pt)))):
                            fail('another proof than alone', sol=sol.solution, alone=s.solution, **dd)
                    except TypeError:
                        pass
                if me != s.method:
                    fail('method of a record', want=s.method, **dd)
            if st == 'invalid':
                if r['time'] == r['time']:
                    fail('time of a record', **dd)
            else:
                act = fault.script.get(sp.srepr(p), 'real')
                least = act[1] if isinstance(act, tuple) else 0
                if not (r['time'] >= least * .95) or r['time'] > wall * 1.01 + .01:
                    fail('time of a record', least=least, wall=wall, **dd)
                tot += r['time']
                if p.is_homogeneous and not p.is_zero and r['deg'] != p.total_degree():
                    fail('degree of a record', **dd)
        if tot > wall * 1.02 + .02:
            fail('the times add up to more than the batch took', tot=tot, wall=wall, **det)
        # ---------- every solvable problem reached the solver exactly once, in order
        want = [sp.srepr(p) for p in polys if p is not None]
        first = order is None or order == 'default' or order[0] == 'StructuralSOS'
        if fault.seen and first and fault.seen != want:
            fail('problems reaching the solver', got=fault.seen, want=want, **det)
        if fault.seen:
            count('solver calls', len(fault.seen))
        mark = configs.get('StructuralSOS', {}).get('vt_mark')
        if any(k.get('vt_mark') != mark for k in fault.kw):
            fail('options reaching the solver', got=fault.kw, **det)
        if not verbose_sos and order != 'default' and order is not None and buf.getvalue().strip() and configs.get('LinearSOS') == {'verbose': True}:
            fail('the solver printed although verbose_sos is off', out=buf.getvalue(), **det)
        # ---------- the file
        after = set(os.path.relpath(os.path.join(r, f)) for r, _, fs in os.walk('.') for f in fs) - before
        if save == 'no':
            if after:
                fail('a file was written although saving was off', files=after, **det)
            return bad, obs, cnt
        count('saved ' + save)
        if len(after) != 1:
            fail('the records were not written to one file', files=after, **det)
            return bad, obs, cnt
        fn = after.pop()
        wantf = {'file': 'o.csv', 'nested': os.path.join('x', 'y', 'o.csv'), 'bare': 'bare.csv'}.get(save)
        if wantf and fn != wantf:
            fail('the records were written to another file', file=fn, **det)
        if save == 'true' and isinstance(src, str) and os.path.dirname(fn) != os.path.relpath(os.path.dirname(src) or '.', '.').replace('.', '', 1 if os.path.dirname(src) in ('', scratch) else 0):
            fail('the records were not written next to the source', file=fn, source=src, **det)
        with open(fn, newline='', encoding='utf8') as f:
            rows = list(csv.reader(f))
        head, rows = rows[0], rows[1:]
        if len(rows) != len(recs):
            fail('rows of the saved file', got=len(rows), want=len(recs), **det)
            return bad, obs, cnt
        for k, (row, r) in enumerate(zip(rows, recs)):
            row = dict(zip(head[1:], row[1:]), _i=row[0])
            sol = r['solution']
            sol = None if isinstance(sol, float) else sol
            text = (getattr(sol, meth) if sol is not None else None) if meth != 'call' else smeth(sol)
            if row['_i'] != str(k + 1) or row['problem'] != str(r['problem']) or row['status'] != r['status'] or row['solution'].replace('\r\n', '\n') != strs(text):
                fail('a row of the saved file differs from the record', row=row, record=r, text=text, meth=meth, **det)
            elif (row['method'] or None) != (None if isinstance(r['method'], float) else (r['method'] or None)):
                fail('a row of the saved file differs from the record', row=row, record=r, **det)
            elif (row['time'] == '') != (r['time'] != r['time']) or (row['time'] and abs(float(row['time']) - r['time']) > 1e-9) or float(row['deg']) != float(r['deg']):
                fail('a row of the saved file differs from the record', row=row, record=r, **det)
            count('rows')
        return bad, obs, cnt
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
        fault.script = {}


def run(chk):
    setup()
    jobs = [(chk.seed, i) for i in range(chk.n(360, 5000))]
    for i, j, r in common.pmap(job, jobs, cpu=chk.n(20, 60), deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('the monitor or the batch raised', {'job': j, 'exc': r[1]})
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        bad, obs, cnt = r[1]
        for o in obs:
            chk.observe(o, nontrivial=len(o[0]) > 20, sample=o)
        for k, v in cnt.items():
            chk.count(k, v)
        for w, d in bad:
            chk.violation(w, dict(d, job=j))
    for k, m in (('batches', 100), ('records', 400), ('status success', 50), ('status fail', 20), ('status error', 20), ('status invalid', 20), ('rows', 100)):
        chk.require(k, m)
