"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

T = 'triples/'
prop('C01', 'A returned proof is identically equal to the inequality it claims to prove',
 'Whenever the top-level sum-of-squares solver returns a solution, the solution expression is, as an exact rational identity, equal to the input polynomial once every user-given constraint alias is replaced by the constraint it names. This holds whichever combination of methods is enabled, for any number and names of variables, for non-homogeneous inputs, and for any inequality and equality constraints.',
 ['inputs', 'configurations'], 'all polynomials, constraint sets (as lists or alias maps), variable orders and method lists',
 'Only 14 unit tests exist, none calls the solver; an identity that holds for one sampled input says nothing about another branch of the heuristics.',
 [T+'core/sum_of_squares.py', T+'core/shared.py', T+'core/structsos/structsos.py', T+'core/linsos/linsos.py', T+'core/sdpsos/sdpsos.py', T+'core/symsos/symsos.py', T+'utils/expression/solution.py'],
 [('dispatch over methods and sanitising of inputs/outputs', 'sum_of_squares, sanitize_input, sanitize_output'), ('homogenise / dehomogenise, constraint wrapping and restoring', 'shared.py')],
 observe='return value of sum_of_squares')
prop('C02', 'Returned proofs are manifestly nonnegative; false claims are never proved',
 'A returned solution evaluates to a nonnegative number for all real values of the variables, all nonnegative values of the inequality aliases (taken as independent quantities) and zero equality aliases, wherever it is defined. In particular no solution is returned that is defined at a feasible point where the polynomial is negative, and a multiplier introduced by the solver never vanishes identically on the feasible set cut out by nontrivial constraints.',
 ['inputs', 'configurations'], 'all polynomials including ones barely negative, negative only outside/inside the constrained region, or negative only for mixed signs',
 'No test checks that a false statement is rejected; a sign slip in one branch keeps the identity intact and so survives any equality test.',
 [T+'core/sum_of_squares.py', T+'core/structsos/solution.py', T+'core/structsos/structsos.py', T+'core/structsos/ternary/solver.py', T+'core/structsos/quarternary/solver.py', T+'core/linsos/linsos.py', T+'core/sdpsos/sdpsos.py'],
 [('assumed-nonnegative symbols are replaced by constraint aliases or the proof is dropped', 'SolutionStructural._extract_nonnegative_exprs'), ('negative coefficients rejected', 'structural/linear/SDP solvers')])
prop('C03', 'Synthetic three-variable proofs are exact and sound in every branch',
 'For every homogeneous three-variable polynomial of degree 1 to 12 (cyclic, symmetric or neither, with integer, rational or surd coefficients) the synthetic-heuristics method either gives up or returns an expression exactly equal to the polynomial and built only from squares and the given constraints. It never returns an expression for a polynomial that takes a negative value on the region.',
 ['inputs'], 'all coefficient vectors; each of the several hundred specialised solvers has its own region of coefficient space',
 'There are no tests of these ~14k lines; each branch is reached only by specially placed coefficients (equality cases, degenerate discriminants).',
 [T+'core/structsos/ternary/*.py', T+'core/structsos/utils.py', T+'core/structsos/pivoting/*.py'],
 [('degree-specific solvers', 'ternary/{quadratic,cubic,quartic,quintic*,sextic*,septic*,octic*,nonic,sparse,acyclic,dense_symmetric}.py'), ('shared helpers', 'utils.py sum_y_exprs, quadratic_weighting, rationalize_func, zip_longest')])
prop('C04', 'Inequalities the solver documents as solvable are solved',
 'Every nonnegative three-variable cyclic form of degree at most 4 with rational coefficients that is a sum of squares with slack, every strictly positive quadratic form in two to six variables, every quadratic and symmetric cubic strictly inside the documented region for acute triangles, and the documented example inequalities (those provable at the pinned commit) get a proof from the synthetic-heuristics method under the sign constraints stated for them. For these families the answer does not depend on a positive rational scaling of the polynomial or a relabelling of the variables, and for every three-variable form it does not depend on the names of the variables.',
 ['inputs'], 'all members of the documented complete families, all renamings and positive scalings',
 'No test calls these solvers; incompleteness shows only on specific coefficients.',
 [T+'core/structsos/ternary/*.py', T+'core/structsos/nvars.py', T+'core/structsos/sparse.py', T+'core/structsos/quarternary/*.py', T+'core/structsos/constrained/*.py'],
 [('complete algorithms for quadratic, cubic and quartic cyclic forms', 'ternary/quadratic.py, cubic.py, quartic.py'), ('example polynomials in docstrings', 'structsos/**')])
prop('C05', 'Linear-programming proofs are exact nonnegative combinations of the basis',
 'When the linear-programming method returns a solution, it is exactly (over the rationals) equal to the input polynomial and is a combination, with nonnegative coefficients, of squares times products of the given constraints, divided by a positive multiplier when the degree was lifted. Infeasible linear programs and numerically approximate solutions never leak into the answer.',
 ['inputs', 'configurations'], 'all polynomials, constraints, tangents and lift degrees',
 'No test runs the linear-programming path end to end; a rounding failure appears only for specific coefficients.',
 [T+'core/linsos/linsos.py', T+'core/linsos/basis.py', T+'core/linsos/correction.py', T+'core/linsos/solution.py', T+'core/linsos/tangents.py', T+'core/linsos/updegree.py'],
 [('rationalisation of the LP vertex', 'correction.py'), ('basis arrays vs. basis expressions', 'basis.py'), ('lift by a positive multiplier', 'updegree.py'), ('expression construction and symmetrisation', 'solution.py')])
prop('C06', 'Semidefinite-programming proofs are exact, with positive weights on squares',
 'When the semidefinite method returns a solution, it is exactly equal to the input polynomial modulo the equality constraints and every square carries a nonnegative rational (or exact algebraic) weight times a product of the given inequality constraints. This holds whether or not symmetry reduction, low-rank facial reduction at real zeros, or degree lifting is used.',
 ['inputs', 'configurations'], 'all polynomials, constraint sets, symmetry groups and solver options',
 'No test runs the semidefinite path; rationalisation succeeds or fails depending on the particular spectrahedron.',
 [T+'core/sdpsos/sdpsos.py', T+'core/sdpsos/solution.py', T+'core/sdpsos/manifold.py', T+'core/sdpsos/utils.py', T+'sdp/dual.py', T+'sdp/rationalize.py'],
 [('facial reduction by known zeros', 'manifold.py'), ('Gram matrices to squares', 'solution.py'), ('rationalisation', 'sdp/rationalize.py')])
prop('C07', 'Symmetric-form substitution is exact and invertible, and its proofs are exact',
 'Rewriting a symmetric three-variable polynomial in the substituted symmetric-form variables and substituting back gives exactly the original polynomial divided by the documented positive factor, and the (p,q,r) conversion of a symmetric or cyclic polynomial expands back to it. A proof returned by the symmetric method is exactly equal to the input and nonnegative for nonnegative (or all real, when unconstrained) variables.',
 ['inputs'], 'all symmetric polynomials, both the real-variable and positive-variable substitutions',
 'The doctests sample two polynomials.',
 [T+'core/symsos/representation.py', T+'core/symsos/symsos.py', T+'core/symsos/symmetric.py', T+'utils/expression/pqr.py'],
 [('substitution and its inverse', 'sym_representation, sym_representation_inv'), ('p, q, r elimination', 'pqr_sym, pqr_cyc, pqr_ker'), ('proof search', 'symsos.py, symmetric.py')])
prop('C08', 'One-variable (and homogeneous two-variable) positivity is decided exactly',
 'For a univariate rational polynomial and an interval (half-line, whole line or finite), a certificate of nonnegativity is returned if the polynomial is nonnegative there and none is returned if it is negative somewhere in the interval. The certificate is an exact identity: squares with positive rational weights times the interval factors; the same holds for homogeneous bivariate polynomials on the cone cut out by linear constraints, where a returned proof is always exact.',
 ['inputs'], 'all univariate rational polynomials including ones with multiple, endpoint, or nearly touching roots; all intervals',
 'No test; the numerical root stage and the rational correction stage fail only on ill-conditioned inputs.',
 [T+'core/structsos/pivoting/univariate.py', T+'core/structsos/pivoting/bivariate.py'],
 [('interior-point Gram matrices made rational', 'prove_univariate, prove_univariate_interval'), ('half-plane intersection', 'HalfspaceIntersection2D')])
prop('C09', 'Cyclic sums and products mean the sum/product over the permutation group',
 'For any expression, symbol tuple and permutation group, a cyclic sum (product) object always stands for the sum (product) of the images of the expression under every group element: construction-time simplification, expansion, substitution, simultaneous renaming, differentiation-free simplification, pulling out of constants, and content extraction all preserve that value. Two objects that are constructed from the same arguments are equal and print identically regardless of what was constructed before.',
 ['inputs', 'histories'], 'all expressions, all permutation groups on up to five symbols, all substitutions',
 'The five existing tests sample alternating and cyclic groups on fixed expressions.',
 [T+'utils/expression/cyclic.py'],
 [('canonicalisation at construction', 'CyclicSum.__new__/CyclicProduct.__new__'), ('substitution', '_xreplace, _eval_subs'), ('simplification', '_eval_simplify_, as_content_primitive')])
prop('C10', 'Re-expressing a proof with cyclic sums does not change its value',
 'Rewriting a finished expression by a symmetry group, removing or nesting cyclic sums, and collecting its terms gives an expression exactly equal to the one it started from, also when the expression is not invariant under the group or mixes constraint aliases.',
 ['inputs'], 'all expressions and groups',
 'Not tested.', [T+'utils/expression/cyclic.py', T+'utils/expression/solution.py', T+'core/shared.py'],
 [('symmetry rewriting', 'rewrite_symmetry, SolutionSimple.rewrite_symmetry'), ('collection', 'SolutionSimple.collect / together / as_content_primitive')])
prop('C11', 'Monomial vectors, matrices and symmetry-reduced bases are mutually inverse',
 'Turning a polynomial into a coefficient vector over a monomial basis and back gives the polynomial again, for any variable count, degree, homogeneous or not, numeric or exact, with or without a symmetry group; enumerated monomials are complete, duplicate-free and each symmetry orbit is represented exactly once with its correct multiplicity. Index and inverse-index tables agree with each other.',
 ['inputs', 'histories'], 'all variable counts, degrees, permutation groups, including sequences of calls sharing caches',
 'Doctests sample one polynomial each.',
 [T+'utils/monomials.py'], [('enumeration', 'generate_expr, MonomialReduction'), ('vectorisation', 'arraylize_np, arraylize_sp, invarraylize, MonomialHomogeneousFull, MonomialFull, MonomialPerm'), ('caches', 'options cache by group')])
prop('C12', 'Text is parsed to exactly the polynomial it denotes',
 'Parsing an inequality written in the competition notation (juxtaposed single letters, exponents without carets, sums s() and products p() over the permutation group, sqrt() and cbrt(), LaTeX fragments with \\frac, \\sum and \\prod, decimals, optional scientific notation, nested fractions) yields exactly the value an independent reading of the notation yields, whichever return type is asked for (text, expression, polynomial, fraction) and for every permutation group and generator list; decimals are read as floating point numbers, everything else exactly. A reader over a file or list yields one entry per non-blank line in order.',
 ['inputs', 'configurations'], 'all strings of the grammar, all generator tuples and groups',
 'One doctest of a helper is the only test.',
 [T+'utils/text_process.py'], [('preprocess, cycle expansion, fractions', 'preprocess_text, pl, cycle_expansion, PolyReader')])
prop('C13', 'The degree of a textual expression is computed without expanding it',
 'For a textual homogeneous expression (with nonzero constants and parameters, sums and products over a group, quotients, nested brackets, leading signs) the reported degree equals the degree in the generators computed by formal degree arithmetic, also when the whole text cancels to zero, and equals the total degree of the parsed polynomial when no cancellation occurs.',
 ['inputs'], 'all strings of the grammar', 'Doctest samples one string.', [T+'utils/text_process.py'], [('degree arithmetic', 'degree_of_zero')])
prop('C14', 'Displayed normal forms of a polynomial read back as the same polynomial',
 'Writing a polynomial in the compact standard form or in factored form (with sums and products over the group, with or without multiplication and power signs) and parsing the text again under the same generators and group yields exactly the same polynomial, for every tuple of single-letter generators, every group, and integer, rational, surd or parametric coefficients, constants and zero included.',
 ['inputs', 'configurations'], 'all polynomials with rational coefficients, all groups',
 'Not tested.', [T+'utils/expression/form.py', T+'utils/text_process.py'], [('standard form', 'poly_get_standard_form'), ('factor form', 'poly_get_factor_form, _reduce_factor_list')])
prop('C15', 'Every rendering of a solution denotes the solution',
 'The plain-text, compact, LaTeX and fraction views of a solution (and of any nested sum, product and power of cyclic terms) denote exactly the same rational function as the solution itself: reading the text back gives the same value, numerator over denominator equals the value, and the reported equation has the problem on its left-hand side. (In the text and LaTeX views a sum or product sign governs the factors that follow it up to the next sum or product sign, plus, minus or closing bracket.)',
 ['inputs'], 'all expressions that can occur in solutions', 'Not tested.',
 [T+'utils/expression/solution.py', T+'utils/expression/cyclic.py'], [('rendering', 'Solution.to_string / str_f / latex, CyclicExpr printers'), ('fractions', 'as_fraction, numerator, denominator, together')])
prop('C16', 'Exact linear algebra is exact',
 'Matrix products, linear solves, null spaces, row reductions and permuted/blockwise variants used for exact certificates agree exactly with schoolbook rational arithmetic for all shapes (including empty and rank-deficient ones) and all entry sizes (including numerators and denominators beyond 64 bits); an inconsistent system is reported, never silently solved.',
 ['inputs'], 'all rational matrices of all shapes', 'Not tested; fixed-width fast paths overflow only for specific magnitudes.',
 [T+'sdp/arithmetic.py', T+'utils/polytools.py'], [('fast exact kernels', 'matmul, matmul_multiple, solve_undetermined_linear, solve_csr_linear, solve_nullspace, rank_revealing helpers, vec2mat/mat2vec')])
prop('C17', 'Congruence decompositions are exact and succeed exactly on PSD matrices',
 'Decomposing a symmetric matrix as U^T S U returns exact factors with a nonnegative diagonal exactly when the matrix is positive semidefinite, and reports failure otherwise; this holds for singular, sparse and nearly singular matrices with rationals of any size, with quadratic surds, and with exactly representable floats.',
 ['inputs'], 'all symmetric matrices', 'Not tested.', [T+'sdp/utils.py', T+'utils/polytools.py', T+'sdp/arithmetic.py'], [('congruence with pivot skipping', 'congruence, congruence_with_perturbation')])
prop('C18', 'A semidefinite problem reported solved carries an exact feasible point',
 'When a semidefinite problem (dual or primal form) reports success, its stored parameters give matrices that satisfy the affine constraints exactly and are positive semidefinite with the stored decomposition multiplying back to them. After any chain of reductions (restricting rows and columns, eliminating entries, facial reduction) solving the reduced problem gives, back in the original problem, matrices that are feasible for the original constraints.',
 ['inputs', 'histories'], 'all affine matrix families, all sequences of transformations',
 'No test.', [T+'sdp/dual.py', T+'sdp/primal.py', T+'sdp/transform.py', T+'sdp/rationalize.py', T+'sdp/utils.py', T+'sdp/backend/*.py'],
 [('registration of a solution', 'register_y / register_S_and_y'), ('child-to-parent propagation', 'SDPTransformation.propagate_to_parent'), ('rationalisation with verification', 'rationalize_and_decompose')])
prop('C19', 'Symmetry detection and homogenisation never change the problem',
 'The symmetry group detected for a set of polynomials leaves every list of that set invariant, and contains the full rotation of the variables and the exchange of the first two whenever these leave the set invariant; homogenising a problem and setting the extra variable back to one gives the original problem; normalising a list, tuple, set or mapping of constraints keeps each constraint, up to positive factors and even powers (and, for an equality, its square-free part), with its own alias, and the wrapped aliases stand for the images of the constraints under every element of the symmetry.',
 ['inputs'], 'all polynomial lists', 'Not tested on failure cases.',
 [T+'core/shared.py', T+'utils/expression/coeff.py', T+'utils/polytools.py'], [('detection', 'identify_symmetry_from_lists, identify_symmetry, verify_hom_cyclic, verify_is_symmetric'), ('homogenisation', 'homogenize, dehomogenize, sanitize_input')])
prop('C20', 'Root and optimum finders return true points',
 'Univariate root isolation, and the root objects built on them (conjugates, exact coordinates, rational and cyclic forms), return points that satisfy the equations they are reported for, keep multiplicities and are complete for univariate rational polynomials; local minima and equality points reported for a problem lie in its feasible region and reproduce the reported value.',
 ['inputs'], 'all polynomials and constraint sets', 'Not tested.',
 [T+'utils/roots/*.py'], [('root objects', 'Root, RootAlgebraic, RootRational, RootPoly, RootTernary...'), ('searches', 'findroot, findroot_resultant, nroots')])
prop('C21', 'Rounding to rationals respects the requested tolerance and validity condition',
 'Converting floats to rationals returns a fraction within the stated tolerance (exactly the same number for exact inputs), simplest-in-interval searches return a point of the interval satisfying the caller\'s validator or nothing, and lists of candidates always stay inside the requested bounds.',
 ['inputs'], 'all floats and intervals, all direction/tolerance settings', 'Not tested.',
 [T+'utils/roots/rationalize.py', T+'core/structsos/utils.py'], [('continued fractions', 'rationalize, rationalize_array, cancel_denominator'), ('interval searches', 'rationalize_bound, rationalize_func, common_region_of_conics')])
prop('C22', 'Each web request gets one answer about its own polynomial; the server survives',
 'For any request (valid, malformed, or hostile) the web server neither crashes nor hangs the session: every proof request receives exactly one result event, carrying either a proof of the polynomial in that very request or a failure; concurrent sessions only receive their own answers. A success answer is an exact, sound proof in every representation sent.',
 ['inputs', 'histories', 'schedules'], 'all request dictionaries, orders and interleavings of sessions',
 'The web layer has no tests.', [T+'../web_main.py', T+'gui/sos_manager.py', T+'gui/visualize.py'],
 [('event handlers and background tasks', 'preprocess, sum_of_squares, findroot handlers'), ('manager', 'SOS_Manager')])
prop('C23', 'Batch solving records every problem once, in order, whatever fails',
 'Solving a list of problems yields exactly one record per problem in input order, each with the right status, text, timing and proof (or none), whether individual problems succeed, fail, time out or raise; saving to a file writes the same records and solving a list gives each problem the same result as solving it alone.',
 ['inputs', 'fault_sequences'], 'all lists of problems and all failing positions',
 'Not tested.', [T+'core/sum_of_squares.py'], [('record loop', 'sum_of_squares_multiple, _process_records')])
prop('C24', 'Answers do not depend on history and inputs are never modified',
 'Solving the same problem twice in one process, in any order among other problems, gives the same outcome as in a fresh process; no call modifies the polynomials, constraint containers, configuration dictionaries or default settings that the caller passed or that later calls use.',
 ['histories', 'inputs'], 'all sequences of calls', 'Tests are single calls in fresh state.',
 [T+'core/shared.py', T+'core/sum_of_squares.py', T+'gui/sos_manager.py', T+'utils/text_process.py', T+'utils/monomials.py', T+'utils/expression/coeff.py'],
 [('mutable defaults and module caches', 'poly_reader_configs, DEFAULT_CONFIGS, monomial caches')])
prop('C25', 'Solutions may be rendered from several threads at once',
 'Rendering solutions concurrently from several threads in any mix of output formats gives each thread exactly the text that rendering the same solution alone gives, and leaves the global printing state unchanged, also when a rendering raises.',
 ['schedules'], 'all interleavings of renderings', 'Tests are single-threaded.',
 [T+'utils/expression/cyclic.py', T+'utils/expression/solution.py'], [('process-wide printing switch', 'CyclicExpr.PRINT_WITH_PARENS, PRINT_FULL')])
prop('C26', 'Coefficient triangles, grids and the pretty views show the polynomial\'s own data',
 'The coefficient accessor, its symmetry tests and arithmetic, the coefficient triangle and the heat-map grid report exactly the coefficients and signs of the polynomial at the documented positions, for any variable order, missing monomials and exact or decimal coefficients.',
 ['inputs'], 'all polynomials', 'Not tested.',
 [T+'utils/expression/coeff.py', T+'gui/visualize.py', T+'gui/sos_manager.py'], [('accessor', 'Coeff'), ('grid', 'Grid, GridRender, GridPoly'), ('triangle', 'SOS_Manager coefficient triangle')])
prop('C27', 'Text input can not execute code or escape the polynomial language',
 'No input string given to the parser or to the web or manager entry points causes anything other than a polynomial value or an ordinary error: it never runs attacker-chosen attribute access, imports, file or process operations.',
 ['inputs'], 'all strings including Unicode, dunder names, quotes, calls and numeric bombs of bounded size', 'Not tested.',
 [T+'utils/text_process.py', T+'gui/sos_manager.py', 'web_main.py'], [('sanitising before evaluation', 'preprocess_text, pl')])
for p in P:
    p['anchors']['files'] = [f.replace('triples/../', '') for f in p['anchors']['files']]
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
