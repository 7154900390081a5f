# id: (level, technique, note)
NA = {}
T['C01'] = (MC, 'explicit enumeration of all expression-building programs up to a length on the real operators, against a reference interpreter',
  'Every program up to the stated length over the stated operand alphabet, at five points, all ownership variants; relative tolerance 1e-9. Longer programs only in parametric families.')
T['C02'] = (MC, 'explicit enumeration of all expression graphs up to a size on the real differentiator, against forward-mode jets',
  'Every graph up to the stated size, all request orders for derivatives; points where the reference loses more than six digits are skipped.')
T['C03'] = (MC, 'explicit enumeration of all expression graphs and all variable iteration orders, against second-order jets',
  'Every graph up to the stated size; hash orders enumerated through the seed until all permutations of the variables occurred.')
T['C04'] = (MC, 'explicit enumeration of all expression programs up to a length, affine claims compared with the reference at all points',
  'Every program up to the stated length and constructor-built nests; soundness at five points plus exact slopes.')
T['C05'] = (MC, 'explicit enumeration of models; the feasibility of each grid point in the standard form (slacks solved for) compared with the model',
  'All models of up to two constraints (three for limits) from a pool of forms; equivalence is decided on a finite grid of points.')
T['C06'] = (MC, 'explicit enumeration of all sequences of evaluate/combine calls up to a length on the real problem objects, against jets of the model',
  'Every model of the pool, every sequence of evaluations and combinations up to the stated length over the stated points and multipliers.')
T['C07'] = (MC, 'explicit enumeration of models and of the solver answers (statuses, value patterns, multiplier patterns) with a recording solver behind the real solve path',
  'Every value and multiplier is made distinct, so that any misplacement shows; models of up to three constraints of the pool.')
T['C08'] = (MC, 'explicit enumeration of small mixed-integer problems; each written file is read back by an independent reader of the format and by the installed solver',
  'Every problem of the stated shapes over the stated coefficient alphabets; disk-full at every byte count.')
T['C09'] = (MC, 'explicit enumeration of all solution files derived from complete ones (every truncation, line order, line deletion, duplication and token replacement)',
  'Files of up to the stated number of entries; anything that is not a complete file must give an error or values the file states.')
T['C12'] = (MC, 'explicit enumeration of all callback sequences up to a length with all flag combinations, issued to the real callbacks by a stand-in for libipopt',
  'The stand-in defines the Ipopt C symbols; new_x/new_lambda flags follow the documented convention (false only if the vector is that of the previous call).')
T['C13'] = (MC, 'explicit enumeration of models, option assignments, status codes and creation/option failures of a stand-in for libipopt that keeps a ledger of its problem objects',
  'Every status code of the interface and unknown ones; every place where the library may refuse.')
T['C14'] = (MC, 'explicit enumeration of all sequences of parameter assignments up to a length over all known and unknown names and value types',
  'The effect of each parameter is observed at the stand-in for the solver command or library.')
T['C15'] = (MC, 'explicit enumeration of all coordinate matrices of the stated shapes, orders and repetitions, against dense matrices',
  'Shapes and entry counts as stated in the evidence.')
T['C16'] = (MC, 'explicit enumeration of all comparison overloads, operand pairs, tags and assignments against the reference relation',
  'All overloads over the operand alphabet; assignments over a grid including missing and non-finite values.')
T['C17'] = (MC, 'explicit enumeration of all expression programs and models; the printed text is read back by an independent parser and compared at all points',
  'Reading is by the usual precedence with left association; values are compared with a relative tolerance.')
T['C20'] = (MC, 'explicit enumeration of all histories of create, clone and drop up to a length with same-named objects, against an abstract identity model',
  'Histories up to the stated length; solve results are observed through a solver whose answer is made from the problem it gets.')
T['C21'] = (MC, 'explicit enumeration of small problems and of evaluation sequences on all views of each',
  'Problems of the stated shapes; every view is compared with the data it was made from.')
T['C22'] = (MC, 'explicit enumeration of all sequences of model operations (objective, constraints, starting values, succeeding and failing solves) up to a depth, against an abstract model state',
  'Every sequence up to the stated depth with a recording solver.')
T['C23'] = (MC, 'explicit enumeration of models under enumerated hash seeds: the standard problem, LP file and results must be one and the same',
  'Hash seeds are set by the harness; enumerated until every order of the variables occurred (for up to four variables).')
T['C10'] = (FE, 'exhaustive fault enumeration on the real solve call: every cut of the output, exit status, signal, failing system call (and pairs of them), full disk and unusable command',
  'The command is a stand-in found on PATH; system calls of the library are interposed and made to fail one by one (thorough: in pairs); after each fault a further call must work and all files must be as before.')
T['C11'] = (MC, 'stateless model checking of the real solve calls: all schedules of their file accesses up to a number of context switches, and dynamic partial-order reduction over conflicting accesses',
  'Two and three participants, in threads and in processes forked from one parent; steps are file accesses (interposed in libc) and those of the stand-in command.')
T['C18'] = (MC, 'explicit enumeration of all models from pools of objectives, rows and limits, each solved by the real cbc/clp and compared with an exhaustive search over all vertices and integer values, and with the optimality conditions',
  'Subsets of up to two (thorough: three) rows of the pool with all objectives and integrality patterns (the deepest level: some objectives each); six known findings about unbounded models. Wrong statuses that the solver itself gives for an independently written file of the same problem are excused and counted.')
T['C19'] = (MC, 'explicit enumeration of all models from pools of nonlinear and linear objectives and constraints and of starting points, each solved by the real Ipopt; first-order conditions by reference derivatives, optimum of convex ones by trying all active sets',
  'Subsets of up to two (thorough: three) constraints; solutions at the default limits of 1e8 (unbounded models) are left out except for three listed ones, which are known findings.')

T['C24'] = (MC, 'explicit enumeration of all models from pools and of sequences of them with one solver object; what reaches the stand-in command or library is compared with the model at every grid point, objective and feasibility',
  'Pools of C05 with every objective; comparison at all points of a grid around the limits; class acceptance for all three solvers.')

T['C25'] = (MC, 'explicit enumeration of all sequences of operations up to a depth on tables of expressions that share parts, all living objects observed again after every operation',
  'Sequences of two operations (thorough: three) of the full alphabet and of four of a smaller one; values and gradients against reference jets.')

T['C26'] = (MC, 'explicit enumeration of all constraints over pools of sides, relations, tags and starting row numbers, and of models of them; the components are compared with the constraint at every grid point, derivatives with reference jets',
  'About 66000 constraints and models in the quick tier; grid of about 100 points each.')

T['C27'] = (MC, 'explicit enumeration of all sizes of all parts of problem data, up to two parts (thorough: three) differing from a consistent base; acceptance compared with the rule of consistency',
  'About 459000 combinations in the quick tier.')
T['C28'] = (MC, 'explicit enumeration of all pairs of short vectors over a set of numbers with every tolerance, and of every position of one difference in longer vectors; outcome of the real macro compared with the rule',
  'About 180000 pairs in the quick tier.')
T['C29'] = (MC, 'explicit enumeration of all expression programs up to a length and of all names over an alphabet; every node and derivative is asked what it is and compared with its values at all points',
  'About 230000 programs and names in the quick tier.')
