#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=mech,observe_at=observe) ))
def m(name,where): return dict(name=name,where=where)
M="src/model/"
p("C01","Expressions evaluate like ordinary arithmetic, however they were built",
  "An expression built from variables, constant nodes and plain numbers with +, -, *, /, negation, sine and cosine evaluates, for every assignment of its variables at which the arithmetic is well defined, to the value ordinary real arithmetic gives, up to rounding. This holds for every mix of owned and borrowed operands and for numbers on either side, whatever simplification happens while building, and for nodes made by their constructors. Building never panics, except for dividing by a literal zero; a variable without a value makes the result not-a-number if the value depends on it.",
  ["programs","inputs"],"all sequences of building operations (operator, operand kinds, sharing of sub-expressions, special constants 0, 1, -1, cancelling, tiny, huge) and all variable values",
  "node.rs unit tests build a few dozen fixed expressions and mostly compare their printed form; the folding, flattening and distribution rules interact over arbitrary sequences of operations, which no fixed list reaches (x+1-1 used to panic).",
  [M+"node.rs",M+"node_func.rs",M+"node_base.rs",M+"function/*.rs",M+"constant.rs",M+"variable.rs"],
  [m("operator overloads with constant folding, sum flattening and constant-times-sum distribution","src/model/node.rs macros impl_node_{add,mul,neg,sub,div}_*"),m("recursive evaluation","src/model/node_base.rs")],["Node::evaluate"])
p("C02","First derivatives are the true partial derivatives",
  "For every expression and every variable, the derivative expression evaluates at every point where the expression is differentiable and its value well defined to the true partial derivative, up to rounding. Sub-expressions that are shared or occur several times, including in both operands of one operation, contribute once per occurrence, and a variable that does not occur gives zero. Asking for one derivative or for several at once, in any order or with repetitions, gives the same values. The partial derivative of one operation by one of its arguments, added up over the argument's occurrences, is the derivative of that operation, and by anything else zero. The simple paths to the variables, which the chain rule runs over, are all the paths from the expression down to each requested variable and no others.",
  ["programs","inputs"],"all expression graphs (with sharing) and points",
  "Tests differentiate a handful of expressions and compare strings; correctness under sharing (f+f, f*f, f/f, nested) is a property of all graphs (f/f used to be wrong).",
  [M+"node_diff.rs",M+"function/*.rs",M+"node.rs"],
  [m("sum over all paths of products of local partial derivatives, nodes identified by pointer","src/model/node_diff.rs"),m("local partials","src/model/function/*.rs partial")],["NodeDiff::derivative","NodeDiff::derivatives"])
p("C03","Gradient and Hessian components are complete and each entry appears once",
  "The standard components of an expression list a gradient in which every variable appears at most once and every variable with a nonzero partial derivative appears, and second derivatives in which every unordered pair of variables appears at most once and every pair with a nonzero second derivative appears. Every listed entry evaluates to the true first or second derivative, and the listed expression itself to the expression's value.",
  ["programs","inputs","configurations"],"all expression graphs, points, and hash iteration orders (which decide the orientation of each pair)",
  "Unit tests check a few expressions under the one hash order of the run; the order of variables in maps is random per process and decides which half of the Hessian is produced.",
  [M+"node_std.rs",M+"node_diff.rs"],
  [m("upper-triangular enumeration over the variables of a hash map","src/model/node_std.rs std_components")],["NodeStd::std_components"])
p("C04","Affine recognition is sound, complete for linear ones, and finds all variables",
  "If an expression is reported as affine, the reported coefficients and constant reproduce its value at every point. Every expression built only from variables, constants, sums, differences, negation and multiplication or division by constant expressions is reported as affine. The reported variable set contains every variable the value depends on, and no variable that was not used to build it.",
  ["programs","inputs"],"all expressions, all points",
  "Tests cover some ten expressions; soundness must hold for every combination of nested constants, cancelling terms, products and quotients, and an error silently turns an Nlp into a wrong Lp.",
  [M+"node_std.rs",M+"function/*.rs"],
  [m("bottom-up propagation of affine flag, coefficient map and constant","std_properties in src/model/function/*.rs")],["NodeStd::std_properties"])
p("C05","The standard-form problem is equivalent to the model",
  "For every model, the problem handed to the solver has the model's feasible set (a point satisfies all constraints exactly if some values of the added slack variables make it feasible there), the model's objective up to an additive constant with maximization turned into minimization of the negative, and integrality exactly on the model's integer variables. Its class is linear, mixed-integer linear, nonlinear or mixed-integer nonlinear as the model demands, and the maps from rows and limits back to constraints name the constraint each row or active limit came from. A variable that the constraints leave free is not restricted by the problem.",
  ["programs","inputs","configurations"],"all models (objective, sense, constraint kinds, forms and orders), all points, all hash orders",
  "Tests transform about five fixed models; equivalence is a statement about all combinations of constraint forms (either side, scaled, duplicated or dominated bounds, constants, cancelling terms) and all points.",
  [M+"constraint_std.rs",M+"model_std.rs",M+"model.rs"],
  [m("classification of each constraint into limit, linear row with slack, or nonlinear row with slack","src/model/constraint_std.rs"),m("assembly, tightest-limit selection, problem class","src/model/model_std.rs std_problem")],["ModelStd::std_problem"])
p("C06","Nonlinear problems evaluate to the model's values and derivatives, every time",
  "After evaluating a nonlinear standard problem at any point, its objective, gradient, Hessian, constraint values, Jacobian and constraint Hessians are the true values for the model at that point, with all Hessian entries in the lower triangle. The combined Hessian is the combination of the constraint Hessians of the last evaluated point with the multipliers last given. Neither depends on what was evaluated or combined before.",
  ["programs","inputs","histories"],"all models, all sequences of evaluation points and multiplier vectors",
  "Tests evaluate one or two models at one or two points; stale or accumulated values show only over sequences of evaluations, and misplaced entries only for particular variable orders.",
  [M+"model_std.rs","src/problem/minlp.rs","src/problem/nlp.rs"],
  [m("evaluation closure writing into persistent buffers","src/model/model_std.rs eval_fn"),m("combination of Hessians","src/problem/minlp.rs combine_h")],["ProblemNlp/ProblemMinlp evaluate, combine_h and getters"])
p("C07","Solver results reach exactly the variables and constraints they belong to",
  "When a solver returns a status and a solution, the model reports that status, every variable of the model gets the solver's value for that variable, and every equality constraint, inequality and variable limit gets the multiplier the solver returned for its row, slack limit or limit. Limits that a tighter one makes redundant report no multiplier or zero, and no value is reported under a variable or constraint that is not in the model, apart from the slack variables.",
  ["programs","inputs","configurations"],"all models of each of the four classes, all solver answers, all hash orders",
  "Tests check the duals of a few models at their optimum, where most multipliers are zero or equal; a swapped or shifted index is visible only with distinct values for every entry and for all layouts of rows and limits.",
  [M+"model.rs",M+"model_std.rs"],
  [m("mapping of solution vectors through index maps","src/model/model.rs solve")],["Model::final_primals","Model::final_duals","Model::solver_status"])
p("C08","The LP file describes the same problem",
  "For every mixed-integer linear problem, the written LP file denotes the same objective, the same equality rows with repeated entries added up, the same right-hand sides, limits and integer variables, to ten significant digits, both by the grammar of the format and as read by the installed solver. Writing does not change the problem, and a file that cannot be written gives an error.",
  ["inputs"],"all problem data: dimensions, sparsity patterns with duplicates and empty rows, signs and magnitudes of numbers, integer patterns",
  "One test writes one file and hands it to the solver; sign, magnitude, duplicate and emptiness patterns combine far beyond it.",
  ["src/problem/milp.rs","src/matrix/coo.rs","src/matrix/csr.rs"],
  [m("LP writer","src/problem/milp.rs write_to_lp_file")],["ProblemMilpIO::write_to_lp_file"])
p("C09","Reading a solution file gives exactly what the file says, or no solution",
  "A complete solution file in the form that the command-line solvers write is read to its status and to exactly the values and multipliers it lists, whatever the order of its lines, the size of the numbers and the problem's limits and integrality, and so is what a solve reports for it. Any other content - truncated, damaged, naming unknown variables or rows, empty, missing - never panics and never yields a solved status with a value the file does not state.",
  ["inputs","crash_points"],"all files: all sequences of lines over an alphabet, all prefixes and all single-byte damages of real files, both solvers' formats",
  "Tests read four well-formed files; robustness is about all damaged ones.",
  ["src/solver/cbc_cmd.rs"],
  [m("line parser","src/solver/cbc_cmd.rs read_sol_file")],["SolverCbcCmd::read_sol_file"])
p("C10","A failing solver command never yields a solved status nor leaves files behind",
  "Whatever the external solver command does - it is missing, cannot be run, exits with a failure, is killed at any point, writes no, partial or damaged output, or the problem file cannot be written - the solve call returns an error or a status other than solved, and it reports solved only with the values of a complete answer. After every call, successful or not, no file that the call created remains and no other file is changed, no file descriptor or process is kept, and the next call works, however many there were before. The command receives the problem file, the configured log level and the name of the solution file.",
  ["fault_sequences","crash_points"],"all fault points of one solver run, at every byte of its output, and sequences of faults and successes, for both command-line solvers",
  "Tests only run the healthy installed solvers; no fault is ever injected.",
  ["src/solver/cbc_cmd.rs","src/solver/clp_cmd.rs"],
  [m("temporary files, process spawn, wait, clean-up","src/solver/{cbc,clp}_cmd.rs solve")],["Solver::solve","working directory"])
p("C11","Concurrent solves do not disturb each other",
  "Any number of solves with the command-line solvers may run at the same time in one process or in several processes sharing a working directory: every one of them returns the result of its own problem, and together they leave no files behind, for every interleaving of their file accesses.",
  ["schedules"],"all interleavings of the file-visible steps of several concurrent solves (same or different solvers, threads or processes)",
  "The tests are marked #[serial]; no two solves ever overlap in them.",
  ["src/solver/cbc_cmd.rs","src/solver/clp_cmd.rs"],
  [m("unique file names per call","src/solver/{cbc,clp}_cmd.rs solve")],["Solver::solve results","working directory"])
p("C12","Ipopt always receives values for the point and multipliers it asks about",
  "Whatever order Ipopt calls back in, and whatever combination of new-point and new-multiplier flags its calling convention allows, each callback returns the objective, gradient, constraint values, Jacobian or Lagrangian Hessian of the problem for the point, multipliers and objective factor of that very call, in the sparsity structure announced before. Calls with inconsistent dimensions or null data are refused and nothing is written.",
  ["histories","inputs"],"all callback sequences up to a depth, over points, multipliers, factors and flag combinations that the convention allows",
  "The solver tests let Ipopt choose one callback order on easy problems, in which wrong Hessians only slow convergence.",
  ["src/solver/ipopt.rs","src/problem/nlp.rs","src/problem/minlp.rs"],
  [m("callbacks that cache evaluations by flags","src/solver/ipopt.rs eval_*_cb")],["Ipopt C callbacks"])
p("C13","An Ipopt solve passes the problem, maps the result and frees what it created",
  "A solve hands Ipopt the problem's dimensions, limits, starting point and configured options, and reports solved exactly for Ipopt's success codes, infeasible exactly for its infeasibility code, and error otherwise, with every primal value and multiplier in its place and with the library's sign convention. Ipopt's problem object is released exactly once on every path after its creation, and refused options or failed creation give an error.",
  ["fault_sequences","inputs"],"all return codes, all option and creation failures, all small problem layouts",
  "Tests see only success and infeasibility codes; failures of the C library cannot be provoked from them.",
  ["src/solver/ipopt.rs"],
  [m("FFI session","src/solver/ipopt.rs solve")],["Solver::solve","Ipopt C interface"])
p("C14","Solver parameters keep their names and types and take effect",
  "For every sequence of parameter assignments to any solver, an assignment of a known name with a value of its type succeeds and is what is read afterwards, and an assignment of an unknown name or of another type returns an error and changes nothing. Solver objects do not share parameters.",
  ["histories"],"all sequences of assignments up to a depth over names, types and values, for every solver",
  "One test sets one parameter per solver; the rule is about all sequences.",
  ["src/solver/base.rs","src/solver/cbc_cmd.rs","src/solver/clp_cmd.rs","src/solver/ipopt.rs"],
  [m("type-preserving update of the parameter map","src/solver/base.rs set_param")],["Solver::set_param","Solver::get_param"])
p("C15","Sparse matrix operations preserve the matrix",
  "For every matrix in coordinate form, with any order and repetition of entries, conversion to compressed rows represents the same matrix with consistent row pointers, adding up duplicates represents the same matrix with every column at most once per row, and multiplying by a vector gives the product. Iteration yields all entries in order, and every accessor reports what was stored. Data of inconsistent sizes is refused (row indices, column indices and values of different numbers, row pointers that do not match the shape or the entries, a product with a vector of the wrong size), and consistent data never.",
  ["inputs"],"all small matrices: shapes including empty ones, patterns, repetitions, orders, values",
  "Tests convert and compress two or three fixed matrices.",
  ["src/matrix/coo.rs","src/matrix/csr.rs"],
  [m("counting sort by row, duplicate summation with per-column markers","src/matrix/{coo,csr}.rs")],["CooMat","CsrMat"])
p("C16","Constraints say what was compared and measure violation correctly",
  "Every comparison of expressions or numbers, in every overload and on either side, builds a constraint with that left side, relation, right side and tag. Its violation at an assignment is the absolute difference for equality, the excess by which an inequality fails, zero exactly if it holds, and not-a-number if a side cannot be evaluated.",
  ["programs","inputs"],"all comparison overloads, expressions, tags and assignments, including incomplete ones",
  "Tests check single examples per overload and the violation at a few points.",
  [M+"constraint.rs",M+"node_cmp.rs"],
  [m("comparison trait implementations and violation","src/model/node_cmp.rs, src/model/constraint.rs")],["NodeCmp","Constraint::violation","Constraint accessors"])
p("C17","Printed expressions, constraints and models mean what they print",
  "Reading the printed form of any expression by the usual rules of precedence gives an expression with the same value at every assignment. The printed form of a constraint shows both sides and the relation, and that of a model shows the sense, the objective and every constraint with its tag, in order.",
  ["programs","inputs"],"all expressions, constraints and models up to a size",
  "Tests compare a few dozen strings; missing parentheses show only for particular nestings.",
  [M+"function/*.rs",M+"constraint.rs",M+"model.rs"],
  [m("Display implementations with parenthesization by child kind","src/model/function/*.rs fmt")],["Display"])
p("C18","Linear and mixed-integer models are solved correctly end to end",
  "Solving a linear or mixed-integer linear model with the command-line solvers reports solved with a point that is feasible, integral where required and optimal exactly if the model has an optimum, and infeasible exactly if it has no feasible point. For linear models the reported multipliers have the documented signs and together with the point satisfy the optimality conditions. The two solvers agree, and maximizing an expression gives the optimum of minimizing its negative.",
  ["programs","inputs"],"all small linear and mixed-integer models over a coefficient grid with at least one objective or row entry",
  "Tests solve six models; agreement with the true optimum has to hold for all models and all paths through writer, solver, reader and mapping.",
  [M+"model.rs",M+"model_std.rs","src/problem/milp.rs","src/solver/cbc_cmd.rs","src/solver/clp_cmd.rs"],
  [m("model to file to solver to result","src/model/model.rs solve, src/solver/*_cmd.rs")],["Model::solve, final_primals, final_duals"])
p("C19","Nonlinear models are solved to optimality conditions end to end",
  "When Ipopt reports a nonlinear or linear model as solved, the returned point is feasible and, together with the reported multipliers in the documented sign convention, satisfies the first-order optimality conditions of the model to tolerance. Smooth convex models with an interior are reported as solved with the known optimum, for minimization and maximization alike.",
  ["programs","inputs"],"all small smooth models over a pool of objectives, constraints and starting points",
  "Tests solve two or three models and compare a few numbers.",
  ["src/solver/ipopt.rs",M+"model.rs",M+"model_std.rs"],
  [m("model to Ipopt to result","src/solver/ipopt.rs")],["Model::solve, final_primals, final_duals"])
p("C20","Variables and constraints are identified by object, never by name or content",
  "Clones of a variable, expression or constraint equal it and hash alike, also as keys of value maps, and separately created ones are different even with the same name, kind or content, whatever was created, cloned or dropped before. Evaluation, derivatives, standard form and solve results keep same-named variables and equal-looking constraints apart.",
  ["histories","programs"],"all sequences of creating, cloning, dropping and using objects up to a depth",
  "Tests check one clone and one pair; identity must survive all histories.",
  [M+"node.rs",M+"constraint.rs",M+"variable.rs"],
  [m("pointer identity for equality and hashing","src/model/node.rs, src/model/constraint.rs")],["PartialEq/Hash on Node and Constraint"])
p("C21","All views of a problem agree",
  "A linear problem viewed as mixed-integer linear, nonlinear or mixed-integer nonlinear, and a mixed-integer linear or nonlinear problem viewed as mixed-integer nonlinear, have the same data, dimensions and starting point, and evaluating any view gives the same objective, gradient and constraint values. Linear problems have no integer restrictions and empty Hessians and nonlinear parts.",
  ["inputs","histories"],"all small problem data and evaluation sequences",
  "Tests construct one instance per class.",
  ["src/problem/lp.rs","src/problem/milp.rs","src/problem/nlp.rs","src/problem/minlp.rs"],
  [m("bases constructed from the same data","src/problem/lp.rs new")],["as_mut_milp/as_mut_nlp/as_mut_minlp"])
p("C22","A model always reflects its history, and failed solves leave nothing stale",
  "After any sequence of setting the objective, adding constraints, setting starting values and solving, the model reports exactly the last objective, all added constraints in order and the last starting values, and each solve hands the solver exactly that state, as does the standard problem made from the model at any time. After a solve the reported results are those of that solve alone; after a failed solve there are none.",
  ["histories"],"all sequences of model operations up to a depth, with solvers that succeed, fail or report other statuses",
  "Tests build each model once and solve once.",
  [M+"model.rs",M+"model_std.rs"],
  [m("result fields reset before each solve","src/model/model.rs solve")],["Model accessors"])
p("C23","Nothing observable depends on hash iteration order",
  "For variables with different names, the standard-form problem of a model - order of variables, rows, limits, objective, evaluations, and the maps back to the model - and the results reported for a given solver are the same in every run, whatever the randomly seeded iteration order of hash maps.",
  ["configurations","programs"],"all iteration orders of the hash maps over a model's variables (seeds enumerated until every order was seen) for all models of a pool",
  "Each test process runs under one random order; a dependence shows in a fraction of runs only.",
  [M+"node_std.rs",M+"constraint_std.rs",M+"model_std.rs",M+"model.rs"],
  [m("maps keyed by node address, sorted by name where order matters","src/model/model_std.rs")],["ModelStd::std_problem","Model::solve"])
p("C24","What a solver receives is the whole model, or the solve is refused",
  "Whenever a solve reaches the solver, the problem file given to clp or cbc, or the functions, limits and sparsity given to Ipopt, describe the model exactly: same objective and sense, same feasible points, same integer restrictions, every variable and every constraint. A model of a class the solver does not take (clp: linear; cbc: linear and mixed-integer linear; Ipopt: linear and nonlinear) is refused with an error, without calling the solver and without results.",
  ["inputs","histories"],"all models built from pools of objectives and constraints, with every solver, and sequences of them with one solver object",
  "Tests check solver results of a few models, not what was sent; a dropped row or restriction shows only on particular models.",
  [M+"model.rs",M+"model_std.rs","src/solver/clp_cmd.rs","src/solver/cbc_cmd.rs","src/solver/ipopt.rs","src/solver/base.rs"],
  [m("Model::solve to the problem file or callbacks","src/model/model.rs, src/solver")],["problem file of clp/cbc","Ipopt C interface"])
p("C25","Expressions, constraints and models are values that nothing else changes",
  "Whatever is done with expressions, constraints and models - combining them by reference or by value, cloning, dropping, evaluating, differentiating, analysing, printing, adding to models, solving, refused operations - every existing expression keeps its value at every point, its derivatives, linearity data and printed form, every constraint its violation, tag and printed form, every model its contents; the same question asked again has the same answer.",
  ["histories","programs"],"all sequences of operations up to a depth on tables of expressions that share parts",
  "Tests use each expression once after building it; sharing, caching or reuse faults show only in later uses.",
  [M+"node.rs",M+"function/",M+"constraint.rs",M+"node_diff.rs",M+"model.rs"],
  [m("shared immutable nodes (Rc)","src/model/node.rs, src/model/function")],["operators on Node and &Node","evaluate, derivatives, std_properties, Display"])
p("C26","Standard components describe constraints and models exactly",
  "The standard components that a constraint reports - linear rows with right-hand sides, nonlinear functions with Jacobian and Hessian entries, variable limits, slack variables and properties - describe exactly that constraint at every point, with rows numbered from the given counters, which advance by the rows used; slack variables are continuous, new each time and appear in the properties. The components of a model are those of its objective and, in order, of all its constraints.",
  ["inputs","programs"],"all constraints built from pools of sides, relations, tags and starting counters, and all models built from them",
  "Tests compare component lists of a few constraints; the description must be right for every expression and position.",
  [M+"constraint_std.rs",M+"model_std.rs",M+"node_std.rs"],
  [m("std_components of constraints","src/model/constraint_std.rs"),m("AddAssign of components","src/model/constraint_std.rs")],["ConstraintStd::std_components","ModelStd::std_components"])
p("C27","Problem data of inconsistent sizes is refused",
  "A problem of any of the four classes can be made exactly when the sizes of its data agree: costs, limits, integer flags and starting values one per variable, right-hand sides one per row, Jacobian and Hessians of the problem's dimensions, one Hessian per function; data of inconsistent sizes is refused, consistent data never. Combining Hessians takes exactly one multiplier per function. Problems and empty solutions report the sizes they were made with.",
  ["inputs"],"all classes, all small dimensions, every part or pair of parts of any other size",
  "No test tries inconsistent data; a wrong size that is let through becomes a wrong file or a wrong call into a solver.",
  ["src/problem/minlp.rs","src/problem/milp.rs","src/problem/nlp.rs","src/problem/lp.rs","src/problem/base.rs"],
  [m("size checks of the constructors","src/problem")],["ProblemLp::new","ProblemMilp::new","ProblemNlp::new","ProblemMinlp::new","combine_h","ProblemSol::new"])
p("C28","The exported vector comparison accepts exactly vectors that agree",
  "assert_vec_approx_eq!, the exported macro, passes exactly when both vectors have the same length and every pair of elements differs by at most epsilon; a pair with an undefined number never passes, wherever it stands. (Equal infinities, whose difference is undefined, are left open.) It works on vectors, slices and arrays, with equal results.",
  ["inputs"],"all pairs of vectors over a set of numbers, all lengths, all tolerances, all positions of the one differing element",
  "The macro decides other tests; one that lets a wrong pair pass makes tests silently useless, and only unequal vectors, which tests do not try, show it.",
  ["src/macros.rs"],
  [m("assert_vec_approx_eq","src/macros.rs")],["numopt::assert_vec_approx_eq!"])
p("C29","Nodes and variables are what they were made as",
  "A variable reports exactly the name and the kind it was made with, and so do its copies; other nodes have the empty name. A node that is said to be a constant has one value, whatever the variables are, and it is said to be the constant c for exactly that value c. Nodes whose value depends on a variable are never said to be constants; what the operators build from numbers and constants alone always is, with the value arithmetic gives. The derivative of a variable by itself is one, by any other variable zero, and that of a constant zero.",
  ["inputs","programs"],"all names and kinds, all expressions and derivatives of expressions",
  "Simplification decides by these answers what may be left out: a wrong one, for a value or a name no test uses (nearly one, nearly zero, unusual characters, long), silently changes models.",
  [M+"node.rs",M+"constant.rs",M+"variable.rs",M+"node_func.rs"],
  [m("is_constant, is_constant_with_value","src/model/node.rs"),m("variable kinds and names","src/model/variable.rs")],["Node::is_constant","Node::is_constant_with_value","Node::name","VariableScalar::is_integer"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
