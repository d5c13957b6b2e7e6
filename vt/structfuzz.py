"""Corpus of homogeneous forms reaching distinct branches of the structural solvers
(found by a coverage-guided search), mutation of its members, and a coverage recorder."""
import json, os, random, sys, types
import sympy as sp
from sympy import Rational as R
from .gen import a, b, c, cyc, symsum, mon, monoms, rform
from . import common

GP=[(1,1,1),(2,1,1),(1,1,0),(1,2,3),(3,1,1),(1,2,0),(1,0,0),(1,3,2),(3,2,1)]
def orbit_mut(rng,p,gens,dpool):
    """p: sp.Poly over gens; returns an expr"""
    n=len(gens)
    deg=p.total_degree()
    e=p.as_expr()
    S=(lambda x:cyc(x,gens)) if rng.random()<0.75 else (lambda x:symsum(x,gens)) if n<=3 else (lambda x:x)
    if not p_cyc(p,gens): 
        if rng.random()<0.7: S=lambda x:x
    k=rng.random()
    ms=monoms(n,deg)
    if k<0.35:
        for _ in range(rng.choice([1,1,2,3])):
            m=rng.choice(ms); lam=rng.choice([1,-1,2,-2,3,-3,4,-4,5,-6,8,R(1,2),R(-1,2),R(1,3),R(3,2)])
            e+=lam*S(mon(m,gens))
        if rng.random()<0.6:
            pt=rng.choice(GP[:1]*4+GP) if n==3 else (1,)*n
            v=sp.sympify(e).xreplace(dict(zip(gens,map(sp.Integer,pt))))
            m=rng.choice(ms); b_=S(mon(m,gens)); w=sp.sympify(b_).xreplace(dict(zip(gens,map(sp.Integer,pt))))
            if w!=0: e-=v/w*b_
    elif k<0.5:
        q=rng.choice(dpool.get((n,deg),[0]))
        e=rng.choice([1,1,1,2,3,5,10])*e+rng.choice([1,-1,1,2,-2,3,4,R(1,2),10])*sp.sympify(q)
    elif k<0.58:
        m=rng.choice(p.monoms()); c=p.coeff_monomial(m)
        o=set()
        e+= (rng.choice([-1,1,-2,-R(1,2),R(1,2)]))*c*S(mon(m,gens))/(sum(1 for mm,_ in sp.Poly(S(mon(m,gens)),*gens).terms()) if S(mon(m,gens)).is_Mul else 1)
    elif k<0.66 and deg<=8:
        f=rng.choice([sum(gens),sp.Mul(*gens),sum(g**2 for g in gens),sum(gens)**2,cyc(gens[0]*gens[1],gens), cyc(gens[0]*gens[1]+2*gens[0]**2,gens)])
        e=e*f
    elif k<0.74:
        w=[rng.randint(-1,3) for _ in gens]
        if not any(w): w[0]=1
        lin={gens[i]:sum(w[j]*gens[(i+j)%n] for j in range(n)) for i in range(n)}
        e=e.xreplace(lin)
    elif k<0.78 and deg<=5:
        e=e.xreplace({g:g**2 for g in gens})
    elif k<0.81 and deg<=3 and n==3:
        e=e.xreplace({a:b*c,b:c*a,c:a*b})
    elif k<0.86:
        e=e.xreplace({gens[0]:gens[1],gens[1]:gens[0]})
    elif k<0.9 and deg%2==0 :
        f=rform(rng,deg//2,gens,k=3,vanish=(1,)*n if rng.random()<.7 else None)
        e+=S(f**2)*rng.choice([1,2,R(1,2)])
    elif k<0.93 and deg%2==1 and deg>1:
        f=rform(rng,deg//2,gens,k=3,vanish=(1,)*n if rng.random()<.7 else None)
        e+=S(gens[0]*f**2)*rng.choice([1,2,R(1,2)])
    elif k<0.96:
        sq=sp.sqrt(rng.choice([2,3,5,7,13]))
        m=rng.choice(ms); e+=rng.choice([1,-1,2])*sq*(S(mon(m,gens))-rng.choice([1,0])*S(mon(rng.choice(ms),gens)))
    else:
        # remove common factor / vertices
        m=(deg,)+(0,)*(n-1); c=p.coeff_monomial(m); e-=c*S(mon(m,gens))
    return sp.expand(e)


def p_cyc(p,gens):
    n=len(gens)
    d=dict(p.terms())
    return all(d.get(m[1:]+m[:1],0)==c_ for m,c_ in d.items())


def mutate(args):
    seed,base,gens,mode,dpool=args
    rng=random.Random(seed)
    g=sp.symbols(gens)
    e=sp.sympify(base)
    for _ in range(rng.choice([1,1,1,2])):
        if e==0 or len(str(e))>1500: break
        e=orbit_mut(rng,sp.Poly(e,*g),g,dpool)
    if e==0: return None
    p=sp.Poly(e,*g)
    if p.total_degree()>13 or len(str(e))>2500: return None
    return str(e)


def load_corpus():
    with open(os.path.join(common.ROOT, 'corpus', 'structsos.jsonl')) as f:
        return [json.loads(l) for l in f]


def load_docs():
    with open(os.path.join(common.ROOT, 'corpus', 'docs.json')) as f:
        return json.load(f)


class Coverage:
    """Lines of the repository executed while a job runs (first occurrences per job)."""
    TID = 3

    def __init__(self, fragment):
        self.fragment = fragment
        self.cur = set()
        m = sys.monitoring
        m.use_tool_id(self.TID, 'vt')
        m.register_callback(self.TID, m.events.LINE, self._line)
        for code in self._codes():
            m.set_local_events(self.TID, code, m.events.LINE)

    def _codes(self):
        acc = {}

        def rec(code):
            if code in acc:
                return
            acc[code] = 1
            for k in code.co_consts:
                if isinstance(k, types.CodeType):
                    rec(k)
        for name, mod in list(sys.modules.items()):
            if not name.startswith('triples') or mod is None:
                continue
            for v in list(vars(mod).values()):
                if isinstance(v, types.FunctionType):
                    rec(v.__code__)
                elif isinstance(v, type):
                    for w in vars(v).values():
                        w = getattr(w, '__func__', w)
                        if isinstance(w, types.FunctionType):
                            rec(w.__code__)
        return [k for k in acc if self.fragment in k.co_filename]

    def _line(self, code, line):
        self.cur.add((code.co_filename.rsplit('/', 1)[-1], line))
        return sys.monitoring.DISABLE

    def reset(self):
        sys.monitoring.restart_events()
        self.cur.clear()


_cov = None


def coverage(fragment):
    global _cov
    if _cov is None or _cov.fragment != fragment:
        try:
            _cov = Coverage(fragment)
        except Exception:
            _cov = None
    return _cov
