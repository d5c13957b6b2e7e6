SKIP = {}
TECH = {
 'C07': 'runtime monitoring: every substitution, (p,q,r) conversion, transformed constraint, factor extraction and pivoting proof is put back and compared exactly at rational points; proofs of the symmetric method are judged like C01 and C02',
 'C08': 'runtime monitoring: each returned certificate is re-expanded exactly, each answer/refusal compared with an independent Sturm-sequence decision, over generated polynomials, intervals and cones',
 'C09': 'runtime monitoring: an independent evaluator that enumerates the group elements observes every cyclic object before and after each operation (construction, xreplace, doit, expand, simplify, as_content_primitive, together), exact rational points',
 'C10': 'runtime monitoring: an evaluator that enumerates the group elements observes every re-expression (rewriting by a group, removing, collecting, fraction, equation, dehomogenizing, assembling linear-programming rows) and compares it exactly with the written-out original',
 'C11': 'runtime monitoring: exact oracle (brute-force enumeration of exponent vectors and orbits) over every table, vectorisation and inverse of randomly chosen sizes and groups',
 'C19': 'runtime monitoring: a probe solver inserted behind the input sanitizer records what reaches the solvers; exact oracles compare it, and the restored output, with the original problem; brute-force invariance tests for the detected groups',
 'C12': 'runtime monitoring: an independent interpreter of random syntax trees is the oracle for every return type of the parser over thousands of spellings, groups and generators',
 'C13': 'runtime monitoring: formal degree arithmetic on the syntax tree is the oracle for every reported degree, over texts as written and texts that cancel to zero',
 'C14': 'runtime monitoring: every formatted text is parsed again and compared exactly with the polynomial',
 'C16': 'runtime monitoring: exact fraction arithmetic is the oracle for every linear-algebra routine over random, structured and degenerate matrices in every domain',
 'C17': 'runtime monitoring: factors multiplied back exactly, the verdict compared with exact characteristic-polynomial signs',
 'C15': 'runtime monitoring: an independent reader of the plain-text, formatted and LaTeX views evaluates each rendering at exact rational points and compares it with the solution, over random nests of cyclic terms and real solver answers',
 'C25': 'runtime monitoring: recorded renderings of several threads (injected switch points inside the printers, random switch intervals) compared with the single-thread texts; the global printing state and warnings checked after every history, including failing renderings',
 'C01': 'runtime monitoring: every proof returned by the top-level solver is evaluated exactly at rational points (constraint aliases replaced by the constraints) and compared with the input polynomial',
 'C02': 'runtime monitoring: every returned proof is evaluated at independent values of variables and nonnegative aliases; a search for feasible negative points watches for false claims being proved',
 'C03': 'runtime monitoring: every expression returned by the synthetic solvers (found by evolving coefficient vectors towards new branches) is compared exactly with the form and tested for manifest nonnegativity',
 'C04': 'runtime monitoring: answers for generated members of the documented families and for the documented examples are recorded; a refusal, or an answer that changes under renaming or scaling, is a violation',
 'C05': 'runtime monitoring: hooks on the linear program record the basis rows, targets and weights of every solve; an exact oracle re-derives the polynomial from them and every returned proof is evaluated exactly',
 'C06': 'runtime monitoring: every proof of the semidefinite method (alone, and through SOSProblem with chosen groups and constraints) is evaluated exactly; stored weights and decompositions are inspected and multiplied back',
 'C18': 'runtime monitoring: every node of every reduction chain that stores a solution is compared exactly with the definition of the generated problem (affine membership, exact semidefinite test, decomposition multiplied back)',
 'C20': 'runtime monitoring: every reported root, minimum and equality point is substituted back with high precision; isolation lists and resultant searches are compared with exact Sturm counts; grid minima, first-order systems and global minima with brute force',
 'C21': 'runtime monitoring: exact rational arithmetic checks every rounded number, array, bound, interval search and conic region against its stated tolerance and validator',
 'C23': 'runtime monitoring: a scripted faulty solver and a recorded file system observe every record of generated batches; the recorded history is compared with the list of problems given (order, exactly once, verdicts, saved files re-read)',
 'C26': 'runtime monitoring: every accessor, cell, pixel, colour and table entry of generated polynomials is compared with exact arithmetic on the terms; the drawing calls are recorded',
 'C22': 'runtime monitoring: real Flask routes and socket sessions under hostile, concurrent and faulty workloads; the recorded requests and delivered events are checked offline (exactly once, right session, right timestamp) and each success is read back and compared exactly',
 'C24': 'runtime monitoring: random histories of successful and failing calls run in one process; every answer is compared with the answer of a freshly forked process, arguments are snapshotted around every call, and settings, default arguments and process state are watched',
 'C27': 'runtime monitoring: an interpreter audit hook records every code object evaluated for a text and every file, process and network operation, while hostile texts go through every text entry point; a scratch folder is inspected for side effects',
}
