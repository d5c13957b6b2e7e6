"""C02: returned proofs are manifestly nonnegative and false claims are never proved."""
from .. import common, soscheck as sc

RULE = ('the problems of C01 (classical, hidden-certificate and structural-corpus forms, messy constraints, all '
        'aliases and method lists), problems on an orthant with prescribed signs of the variables, a list of false statements, and true problems made false or barely true by '
        'subtracting a small multiple of a monomial. Non-trivial: a returned proof evaluated at independent '
        'rational values of the variables and nonnegative values of the aliases, or a search for a feasible point '
        'where the polynomial is negative.')
ASSUMPTIONS = ['nonnegativity is sampled at 24 (60 thorough) points per proof with the aliases as independent '
               'nonnegative quantities and zero equality aliases',
               'feasible negative points are searched for among rational points']


def run(chk):
    js = sc.jobs(chk.rng, chk.n(170, 1500), chk.n(200, 6000), chk.n(200, 3000), chk.n(130, 600), pert=0.35, n_orthant=chk.n(150, 2500))
    for j in js:
        j['want'] = 'neg'
        j['npts'] = chk.n(24, 60)
    sc.solver()
    for i, j, r in common.pmap(sc.judge, js, cpu=chk.n(12, 60), deadline=chk.deadline - 60, recycle=60):
        if r[0] != 'ok':
            chk.count('job_' + r[0])
            if r[0] == 'exc':
                chk.violation('harness or oracle raised', {'job': j, 'exc': r[1]})
            continue
        r = r[1]
        chk.count(r['st'])
        chk.observe((str(j),), nontrivial=r['st'] == 'solved')
        if r['st'] == 'none' and (j.get('pert') or j['kind'] == 'classic'):
            chk.count('refused')
        if r['st'] != 'solved':
            continue
        chk.count('by_' + str(r['method']))
        d = {'problem': r['desc'], 'method': r['method'], 'solution': r['sol']}
        if r.get('false'):
            chk.violation('a statement that is false at a feasible point was proved', dict(d, at=r['false'], undefined_there=r['pole']),
                          key=sc.false_key(r))
        if 'nonneg' in r:
            chk.count('nonneg_' + r['nonneg'][0])
            if r['nonneg'][0] == 'ok':
                chk.count('points', r['nonneg'][1])
            if r['nonneg'][0] == 'bad':
                chk.violation('the proof is negative for admissible values of variables and aliases', dict(d, at=r['nonneg'][1]))
        if len(chk.samples) < 8:
            chk.samples.append({'poly': r['desc']['poly'][:150], 'ineq': r['desc']['ineq'][:100], 'eq': r['desc']['eq'][:80], 'method': r['method'], 'nonneg': r.get('nonneg', ['-'])[0]})
    chk.require('solved', chk.n(150, 500))
    chk.require('refused', 60)
    chk.require('nonneg_ok', 100)
