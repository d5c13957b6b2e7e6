"""C01: top-level proofs are exact identities in the given constraint aliases."""
from .. import common, soscheck as sc

RULE = ('classical inequalities, random problems built from a hidden certificate (1-4 variables, '
        'homogeneous or not, inequality and equality constraints) and forms of the structural corpus '
        '(also dehomogenised), under every kind of alias (fresh symbols, functions, the constraints '
        'themselves, names the implementation uses internally), equivalent but messy constraints '
        '(powers, multiples, duplicates, constants), renamed and reordered variables and every choice of '
        'methods. Non-trivial: a returned proof evaluated exactly against the polynomial.')
ASSUMPTIONS = ['identity is tested at random rational points (Schwartz-Zippel)',
               'an equality constraint given with an even power is restored as a root of its alias; '
               'only points where that root is real are compared']


def run(chk):
    js = sc.jobs(chk.rng, chk.n(220, 1500), chk.n(400, 6000), chk.n(240, 3000), chk.n(40, 100))
    for j in js:
        j['want'] = 'id'
    sc.solver()
    for i, j, r in common.pmap(sc.judge, js, cpu=chk.n(12, 60), deadline=chk.deadline - 60, recycle=60):
        if r[0] != 'ok':
            chk.count('job_' + r[0])
            if r[0] == 'exc':
                chk.violation('harness or oracle raised', {'job': j, 'exc': r[1]})
            continue
        r = r[1]
        chk.count(r['st'])
        chk.observe((str(j),), nontrivial=r['st'] == 'solved')
        if r['st'] == 'exc':
            chk.violation('the solver raised', {'problem': r['desc'], 'exc': r['exc']}, key=None)
            continue
        if r['st'] != 'solved':
            continue
        chk.count('by_' + str(r['method']))
        chk.count('alias_' + j['alias'])
        d = {'problem': r['desc'], 'method': r['method'], 'solution': r['sol']}
        if len(chk.samples) < 8:
            chk.samples.append({'poly': r['desc']['poly'][:150], 'ineq': r['desc']['ineq'][:100], 'eq': r['desc']['eq'][:80], 'method': r['method'], 'identity': r['ident'][0]})
        chk.count('identity_' + r['ident'][0])
        if r['ident'][0] == 'bad':
            chk.violation('the proof is not equal to the polynomial', dict(d, at=r['ident'][1]))
        elif r['ident'][0] == 'unknown' and 'unknown' in str(r['ident'][1]):
            chk.violation('the proof mentions a quantity that is not in the problem', dict(d, why=r['ident'][1]))
        if r['extra']:
            chk.violation('the proof mentions a variable that is not in the problem', dict(d, extra=r['extra']))
        if r['float']:
            chk.violation('the proof of an exact problem contains floats', d)
        if r['problem'] is not True:
            chk.violation('the problem stored in the solution is not the input', dict(d, why=r['problem']))
        if not r['exact']:
            chk.count('reported_inaccurate')
    chk.require('solved', chk.n(150, 500))
    chk.require('by_LinearSOS', 20)
    chk.require('by_SDPSOS', 20)
    chk.require('by_StructuralSOS', 20)
