"""C27: text input can not execute code or escape the polynomial language."""
import os, sys, io, re, random, tempfile, shutil, builtins, dis, types, contextlib, json, threading
import sympy as sp
from .. import common

RULE = ('hostile texts (Python payloads as they are, in full-width letters, assembled by string formatting, inside string literals, '
        'LaTeX, cyclic sums and expansions over hostile generators, escapes, random Unicode mutations of valid polynomials) given to '
        'preprocess_text in every return type and option, degree_of_zero, PolyReader, the manager (text, dehomogenize, group) and every field '
        'of the web requests. Monitor: an interpreter audit hook records every code object evaluated on behalf of a text and every '
        'file, process, network and import operation; payloads only make a directory inside a scratch folder, which is inspected. '
        'Oracle: evaluated code uses no name outside the arithmetic language, no attribute, no import, no nested code; no side effect; '
        'the value is a polynomial value or an ordinary error. Non-trivial: an input that holds a payload.')
ASSUMPTIONS = ['exhausting time or memory with huge powers is out of scope (inputs are small, jobs have limits)',
               'PolyReader given a file name reads that file, as documented']
LIB = None
ALLOWED = {'Symbol', 'Integer', 'Float', 'Rational', 'Function', 'sqrt', 'cbrt', 'factorial', 'factorial2', 'E', 'I', 'pi'}
MP = {}
MON = {'on': False, 'events': [], 'evals': 0, 'scratch': ''}
WATCH = ('os.', 'subprocess.', 'shutil.', 'socket.', 'ctypes.', 'pty.', 'code.__new__', 'builtins.input', 'builtins.breakpoint', 'tempfile.', 'webbrowser.', 'urllib.',
         'pathlib.', 'glob.', 'signal.', 'syslog.', 'mmap.', 'fcntl.', 'pickle.')
QUIET = ('os.listdir', 'os.scandir', 'os.putenv', 'os.fork', 'os.walk', 'pathlib.Path.glob', 'pathlib.Path.rglob')


def code_problems(co):
    bad = []
    for nm in co.co_names:
        if nm not in ALLOWED:
            bad.append('name ' + nm)
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            bad.append('nested code')
    for ins in dis.get_instructions(co):
        if ins.opname in ('LOAD_ATTR', 'LOAD_METHOD', 'STORE_ATTR', 'IMPORT_NAME', 'IMPORT_FROM', 'STORE_NAME', 'STORE_GLOBAL', 'STORE_SUBSCR', 'DELETE_NAME', 'LOAD_BUILD_CLASS', 'BINARY_SUBSCR'):
            bad.append('%s %s' % (ins.opname, ins.argval))
    return bad


def hook(event, args):
    if not MON['on'] or MON.get('in'):
        return
    MON['in'] = True
    try:
        if event == 'exec':
            co = args[0]
            if not isinstance(co, types.CodeType):
                return
            f = sys._getframe(1)
            first, parser = None, False
            k = 0
            while f is not None and k < 60:
                fn = f.f_code.co_filename
                if first is None and fn != __file__:
                    first = fn
                if fn.endswith('sympy_parser.py') or fn.endswith('sympify.py'):
                    parser = True
                    break
                if '/importlib/' in fn or fn.startswith('<frozen importlib'):
                    return
                f = f.f_back
                k += 1
            repo = first and (first.startswith(common.REPO + os.sep))
            if co.co_filename.startswith('<') and 'lambdify' not in co.co_filename and (parser or repo):
                if co.co_name != '<module>' or co.co_names[:1] == ('namedtuple',):
                    return
                if first and '/collections/' in first or first and first.endswith(('dataclasses.py', 'enum.py', 'typing.py', 'functools.py', 'decorator.py')):
                    return
                src = MON.get('src')
                if src == 'from sympy import *':       # sympy's own preamble
                    return
                MON['evals'] += 1
                b = code_problems(co)
                if b and co.co_names[:1] != ('sympy',):
                    MON['events'].append(('evaluated code outside the language', b[:6]))
        elif event == 'compile':
            s = args[0]
            MON['src'] = (s.decode('utf8', 'replace') if isinstance(s, bytes) else s) if isinstance(s, (str, bytes)) else None
        elif event == 'open':
            p, mode = args[0], args[1]
            if isinstance(p, str) and (MON['scratch'] and MON['scratch'] in p or mode and any(x in mode for x in 'wax+')):
                if p in ('/dev/null',) or (mode and p.endswith('.pyc')) or '/__pycache__/' in p:
                    return
                MON['events'].append(('file operation', (p, mode)))
        elif event.startswith(WATCH) and event not in QUIET:
            MON['events'].append(('system operation', (event, str(args)[:200])))
    finally:
        MON['in'] = False


def mods():
    if not MP:
        common.use_repo()
        with contextlib.redirect_stdout(io.StringIO()):
            import web_main as w
        import triples.utils.text_process as tp
        from triples.gui.sos_manager import SOS_Manager
        SOS_Manager.verbose = False
        w.app.config['PROPAGATE_EXCEPTIONS'] = False
        import logging
        w.app.logger.setLevel(logging.CRITICAL + 1)
        MP.update(w=w, tp=tp, SM=SOS_Manager)
        # load what is imported lazily before watching
        for t in ('s(a2-ab)', 'sqrt(2)a-b', 'a/(b+c)', '0.5a', 'a!', 'a^b', 'u+v'):
            for rt in ('poly', 'frac', 'expr', 'text'):
                tp.preprocess_text(t, return_type=rt)
            SOS_Manager.set_poly(t)
            SOS_Manager.latex_coeffs(t)
    return MP


# ------------------------------------------------------------------ payloads
FW = {c: c + 0xFEE0 for c in range(0x21, 0x7F) if chr(c).isalpha()}
FWU = {**FW, ord('_'): 0xFF3F}


def payloads(rng, can):
    p = rng.choice([
        '__import__("os").mkdir("%s")' % can, "__import__('os').mkdir('%s')" % can, 'open("%s","w")' % can, 'eval("open(\'%s\',\'w\')")' % can,
        'exec("import os;os.mkdir(\'%s\')")' % can, '(lambda: open("%s","w"))()' % can, '[open("%s","w") for i in range(1)]' % can,
        'getattr(__import__("os"),"mkdir")("%s")' % can, 'a.__class__.__mro__[-1].__subclasses__()', '().__class__.__base__.__subclasses__()',
        'a.func', 'a.subs(a,b)', 'a.__class__', 'a.name', '(a+b).args', 'a.is_real', '(1).real', '"".join', 'globals()', 'vars()', 'Symbol.__init__.__globals__', 'sympify("open(\'%s\',\'w\')")' % can,
        'sympify.__globals__["__builtins__"]', 'print(1)', 'quit', 'breakpoint', 'S("open(\'%s\',\'w\')")' % can, 'parse_expr("open(\'%s\',\'w\')")' % can, 'lambdify(a,"open(\'%s\',\'w\')")()' % can,
        'type("x",(),{})', 'dir()', 'help', 'memoryview(b"x")', 'compile("1","","eval")', '(a:=open("%s","w"))' % can, 'f"{open(\'%s\',\'w\')}"' % can, 'preview', 'plot', 'test', 'doctest'])
    return p


def wide(p, tbl):
    """translate outside string literals"""
    return ''.join(x if i % 2 else x.translate(tbl) for i, x in enumerate(re.split(r'("[^"]*"|\'[^\']*\')', p)))


def disguise(rng, p):
    k = rng.random()
    if k < .22:
        return p
    if k < .38:
        return wide(p, FW)
    if k < .5:
        return wide(p, FWU)
    if k < .6:           # alternate letters
        return ''.join(chr(FWU.get(ord(c), ord(c))) if i % 2 else c for i, c in enumerate(p))
    if k < .72:          # assembled by formatting
        q = rng.choice(["'", '"'])
        return q + '%c' * len(p) + q + '%(' + ','.join(str(ord(c)) for c in p) + ',)'
    if k < .78:
        return rng.choice(["'%s'", '"%s"', "'''%s'''", 'b"%s"', 'f"%s"', 'r"%s"', '("%s")', '"%s"*1']) % p.replace('"', "'" if rng.random() < .5 else '\\"')
    if k < .84:
        return ''.join('\\x%02x' % ord(c) for c in p) if rng.random() < .5 else '"' + ''.join('\\%o' % ord(c) for c in p) + '"'
    if k < .9:           # letters kept apart
        return rng.choice(['_', '\u200b', '\u0301', '\xad', '\t', '\x0c']).join(p)
    if k < .95:
        return p.upper()
    return ''.join(w + rng.choice(['', 'left', 'right', 'frac', '\\', '$', ' ']) for w in p)


def embed(rng, p):
    return rng.choice(['%s', '%s', '%s', 'a+%s', 's(%s)', 'p(%s)', 's(a)*%s', '\\frac{%s}{a}', 'sqrt(%s)', '(%s)^2', '\\sum %s', '%s*0', '0*(%s)', '%s+a', '2^%s', 'a.%s', '(a)(%s)',
                       '-%s', 'a2b+%s', '%s!', '1/(%s)', '%s,a', 'cbrt(%s)', '1e2.%s', '1.%s', '1..%s', '.%s', '..%s', 'e.%s', '1.5.e5.%s']) % p


VALID = ['s(a2-ab)', 'a3+b3+c3-3abc', 's(a)2-3s(ab)', 'sqrt(2)a-b', '0.5a2b', '\\frac{a}{b}+1', 's(a/(b+c))-3/2', 'p(a+b)', '1.5e2a', 'a^2+2ab', '(a-b)^2(b-c)^2']
CH = list('abcspxe019.+-*/^()[]{}_!,:;="\'%\\@#&|~<>?`$ \t\n') + ['\uff41', '\uff53', '\uff3f', '\uff0e', '\u2024', '\uff08', '\u03b1', '\u00b2', '\u0660', '\u2118', '\u0301', '\u200d', '\U0001d41a', '\xaa', '\x00', '\ufeff', '\u2028', '\ufe34', '**', '//', ':=', '->', '__', 'lambda', 'or', 'if', 'not', '..', '.n', '.p', '.q', '.t', '!!']


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        i = rng.randint(0, len(s))
        k = rng.random()
        if k < .6:
            s.insert(i, rng.choice(CH))
        elif k < .8 and s:
            s[min(i, len(s) - 1)] = rng.choice(CH)
        elif s:
            del s[min(i, len(s) - 1)]
    return ''.join(s)


def text_of(rng, can):
    if rng.random() < .6:
        return embed(rng, disguise(rng, payloads(rng, can))), True
    t = rng.choice(VALID)
    if rng.random() < .25:
        t = disguise(rng, t)
    return mutate(rng, t), False


# ------------------------------------------------------------------ watching one call
class Watch:
    def __init__(self, fail, cnt, scratch, det):
        self.fail, self.cnt, self.scratch, self.det = fail, cnt, scratch, det

    def __enter__(self):
        MON.update(events=[], evals=0, scratch=self.scratch, src=None)
        self.b = set(vars(builtins))
        self.cwd, self.env = os.getcwd(), dict(os.environ)
        MON['on'] = True
        return self

    def __exit__(self, et, ev, tb):
        MON['on'] = False
        self.cnt('texts evaluated', MON['evals'])
        for what, d in MON['events'][:3]:
            self.fail(what, detail=d, **self.det)
        left = os.listdir(self.scratch)
        if left:
            self.fail('a payload was executed', left=left, **self.det)
            for x in left:
                q = os.path.join(self.scratch, x)
                shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
        if set(vars(builtins)) != self.b or os.getcwd() != self.cwd or dict(os.environ) != self.env:
            self.fail('the process state was changed', **self.det)
        if et is not None:
            if issubclass(et, (common.JobTimeout, MemoryError)):
                return False
            self.cnt('error ' + et.__name__)
            if not issubclass(et, Exception):
                self.fail('an extraordinary error', exc=repr(ev), **self.det)
            return True


def plain(v, depth=0):
    """a polynomial value (expressions, relations and tuples of them included)"""
    if v is None or isinstance(v, (bool, int, float, complex)):
        return True
    if isinstance(v, (tuple, list, sp.Tuple)) and depth < 5:
        return all(plain(x, depth + 1) for x in v)
    return isinstance(v, (sp.Basic, sp.Poly)) and not isinstance(v, type)


def j_parse(rng, fail, cnt, obs, M, scratch):
    tp = M['tp']
    can = rng.choice(['k', 'k', os.path.join(scratch, 'k')])
    t, hostile = text_of(rng, can)
    gens = rng.choice(['abc', 'abc', 'abc', 'ab', 'xyz', 'a"', 'a.', '_a', 'a(', 'a\'b', '%a', '\uff41b', 'a_', 'a[', 'ac,', 'an.'])
    gens = tuple(sp.Symbol(c) for c in gens)
    kw = dict(gens=gens, scientific_notation=rng.random() < .3, preserve_sqrt=rng.random() < .8, preserve_cbrt=rng.random() < .3)
    if rng.random() < .3 and len(gens) > 1:
        from sympy.combinatorics import SymmetricGroup
        kw['perm'] = SymmetricGroup(len(gens))
    if rng.random() < .25 and any(not g.name.isalnum() for g in gens):
        t = rng.choice(['s(a%cb%ca)', 's(a)', 's(aab%ca)', 'p(a.b)', 's(ana)']).replace('%c', rng.choice(list('cb+')))
    obs.append((t[:200], str([g.name for g in gens]), hostile))
    for rt in ('poly', 'frac', 'expr', 'text'):
        v = None
        with Watch(fail, cnt, scratch, dict(text=t, entry='preprocess_text ' + rt, gens=gens, **{k: v_ for k, v_ in kw.items() if k != 'gens'})):
            v = tp.preprocess_text(t, return_type=rt, **kw)
            cnt('parsed')
            ok = {'text': lambda: isinstance(v, str), 'expr': lambda: plain(v),
                  'poly': lambda: v is None or isinstance(v, sp.Poly), 'frac': lambda: isinstance(v, tuple) and len(v) == 2 and all(x is None or isinstance(x, sp.Poly) for x in v)}[rt]()
            MON['on'] = False
            if not ok:
                fail('the value of a text is not a polynomial value', text=t, entry=rt, value=repr(v), type=type(v))
    kw.pop('perm', None)
    with Watch(fail, cnt, scratch, dict(text=t, entry='degree_of_zero')):
        v = tp.degree_of_zero(t, **kw)
        MON['on'] = False
        cnt('degrees')
        if not isinstance(v, (int, sp.Integer)):
            fail('the degree of a text is not a number', text=t, value=repr(v))
    with Watch(fail, cnt, scratch, dict(text=t, entry='PolyReader')):
        for v in tp.PolyReader([t], ignore_errors=rng.random() < .5, gens=gens):
            pass
    cnt('hostile texts' if hostile else 'mutated texts')


def j_manager(rng, fail, cnt, obs, M, scratch):
    SM = M['SM']
    can = rng.choice(['k', 'k', os.path.join(scratch, 'k')])
    t, hostile = text_of(rng, can)
    gens = sp.symbols('a b c')
    val = lambda: rng.choice([disguise(rng, payloads(rng, can)), [payloads(rng, can)], {'a': payloads(rng, can)}, (payloads(rng, can),), {payloads(rng, can): 1}, [[payloads(rng, can)]]])
    r = rng.random()
    obs.append((t[:200], 'manager', hostile))
    if r < .35:
        with Watch(fail, cnt, scratch, dict(text=t, entry='set_poly')):
            SM.set_poly(t, gens=gens, standardize_text=rng.choice([None, 'factor', 'sort']), render_grid=False)
    elif r < .65:
        v = val()
        obs.append((str(v)[:200], 'dehomogenize', True))
        with Watch(fail, cnt, scratch, dict(entry='set_poly dehomogenize', value=v)):
            x = SM.set_poly(rng.choice(['s(a2)', 'a2+b', 'abc', '0']), gens=gens, dehomogenize=v, render_grid=False)
            MON['on'] = False
            if x is not None and not isinstance(x['poly'], sp.Poly):
                fail('the value of a text is not a polynomial value', value=x['poly'], entry='set_poly dehomogenize', given=v)
        cnt('dehomogenize payloads')
    elif r < .8:
        v = val()
        obs.append((str(v)[:200], 'group', True))
        with Watch(fail, cnt, scratch, dict(entry='_parse_perm_group', value=v)):
            SM._parse_perm_group(v)
        cnt('group payloads')
    else:
        with Watch(fail, cnt, scratch, dict(text=t, entry='latex_coeffs')):
            SM.latex_coeffs(t, gens, rng.choice([SM.CONFIG_DEFAULT_PERM]), tabular=rng.random() < .5)
    cnt('manager calls')


def j_web(rng, fail, cnt, obs, M, scratch):
    w = M['w']
    can = rng.choice(['k', 'k', os.path.join(scratch, 'k')])
    keep = (w.socketio.start_background_task, w.socketio.emit)
    w.socketio.start_background_task = lambda f, *a, **k: f(*a, **k)
    w.socketio.emit = lambda *a, **k: None
    try:
        pay = lambda: disguise(rng, payloads(rng, can))
        shape = lambda: rng.choice([lambda: pay(), lambda: [pay()], lambda: {'a': pay()}, lambda: {pay(): pay()}, lambda: [[pay()], pay()]])()
        req = {'sid': 'nobody', 'poly': rng.choice(['s(a2-ab)', 'a2+b2-2ab', '(a-1)^2+b', 's(a2)2-3s(a3b)', 's(a2-2ab)']), 'gens': 'abc', 'perm': '[[1,2,0]]', 'actions': ['findroot', 'sos'],
               'methods': {'StructuralSOS': rng.random() < .5, 'LinearSOS': rng.random() < .6, 'SymmetricSOS': rng.random() < .3, 'SDPSOS': rng.random() < .3},
               'configs': {}, 'timestamp': 1, 'standardize_text': rng.choice([None, 'sort', 'factor'])}
        where = rng.choice(['poly', 'gens', 'perm', 'tangents', 'tangents', 'tangents', 'configs', 'configs', 'configs', 'dehomogenize', 'dehomogenize', 'standardize_text', 'methods', 'actions', 'extra', 'omit_pow', 'latex', 'latex'])
        if where == 'poly':
            req['poly'] = text_of(rng, can)[0]
        elif where == 'gens':
            req['gens'] = rng.choice([pay(), [pay()], [pay(), 'a'], 'a".', ['a', '"', '.']])
            if rng.random() < .5:
                req['poly'] = 's(a%s)' % rng.choice(['a', 'b', '"a"', 'a.b'])
        elif where == 'tangents':
            req['tangents'] = rng.choice([pay(), pay() + '\na-b', text_of(rng, can)[0]]) if rng.random() < .8 else shape()
        elif where == 'configs':
            m = rng.choice(['StructuralSOS', 'LinearSOS', 'SDPSOS', 'SymmetricSOS'])
            keys = {'LinearSOS': ['tangents', 'preordering', 'rootsinfo', 'symmetry', 'linprog_options', 'verbose', '_homogenizer', 'ineq_constraints', 'quad_diff_order'],
                    'SDPSOS': ['preordering', 'symmetry', 'solver', 'solve_kwargs', 'degree', 'verbose', 'ineq_constraints_with_trivial', 'allow_numer', 'roots', 'decompose_method', 'unstable_eig_threshold', 'kwargs'],
                    'StructuralSOS': ['real', 'raise_exception', 'ineq_constraints'], 'SymmetricSOS': ['ineq_constraints', 'symmetry', 'pqr']}[m]
            req['configs'] = {m: {k: shape() for k in rng.sample(keys, rng.randint(1, 2))}}
            req['methods'][m] = True
        elif where == 'extra':
            req[rng.choice(['rootsinfo', 'grid', 'degree', 'txt', 'self', 'target', 'poly_', 'denom'])] = shape()
        elif where != 'latex':
            req[where] = shape()
        path = '/process/preprocess'
        if where == 'latex':
            path = '/process/latexcoeffs'
            req = {'poly': text_of(rng, can)[0], 'gens': rng.choice(['abc', 'abc', pay()]), 'perm': rng.choice(['[[1,2,0]]', pay()])}
        obs.append((str(req)[:400], where, True))
        cnt('web ' + where)
        with w.app.test_client() as h:
            with Watch(fail, cnt, scratch, dict(entry='web ' + where, request=req)):
                h.post(path, json=req)
                cnt('requests')
    finally:
        w.socketio.start_background_task, w.socketio.emit = keep


def job(arg):
    kind, si = arg.split(':')
    M = mods()
    rng = random.Random('c27/' + arg)
    bad, obs, c_ = [], [], {}
    if not MP.get('hooked'):
        MP['hooked'] = True
        sys.addaudithook(hook)
    scratch, cwd = tempfile.mkdtemp(prefix='vt27_'), os.getcwd()
    os.chdir(scratch)

    def fail(what, **dd):
        bad.append((what, {k: str(v)[:700] for k, v in dd.items()}))

    def cnt(k, n=1):
        c_[k] = c_.get(k, 0) + n
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            for _ in range({'parse': 8, 'manager': 8, 'web': 4}[kind]):
                globals()['j_' + kind](rng, fail, cnt, obs, M, scratch)
    finally:
        MON['on'] = False
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return bad, obs, c_


def run(chk):
    jobs = []
    for kind, q, th in (('parse', 170, 4000), ('manager', 80, 1500), ('web', 100, 1500)):
        jobs += ['%s:%d/%d' % (kind, chk.seed, i) for i in range(chk.n(q, th))]
    chk.rng.shuffle(jobs)
    mods()
    for i, j, r in common.pmap(job, jobs, cpu=20, deadline=chk.deadline):
        if r[0] == 'exc':
            chk.violation('an entry point raised something extraordinary', {'job': j, 'exc': r[1]})
            continue
        if r[0] != 'ok':
            chk.count(r[0])
            continue
        bad, obs, c_ = r[1]
        for o in obs:
            chk.observe(o, nontrivial=bool(o[2]), sample=o[:2])
        for k, v in c_.items():
            chk.count(k, v)
        for w, d_ in bad:
            chk.violation(w, dict(d_, job=j))
    for k, m in (('hostile texts', 300), ('mutated texts', 150), ('parsed', 500), ('degrees', 500), ('dehomogenize payloads', 60), ('group payloads', 30), ('requests', 200), ('web tangents', 20), ('web configs', 20)):
        chk.require(k, m)
