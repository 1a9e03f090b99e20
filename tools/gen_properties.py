#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

prop("C01", "Elimination ordering and fill-in storage are valid for any sparsity pattern",
 "For every collection of variable groups, the computed elimination ordering eliminates every variable exactly once, in supernodes whose separators contain only variables eliminated later. The storage derived from it has a slot for every pair of variables that share a group and for every fill-in entry that eliminating in that order creates. This holds for groups in any order, with any overlap, duplicates, nesting or disconnected pieces, and with any set of valid leaf groups or root.",
 ["inputs"], "all families of variable groups (any number, any overlap, any listing order of groups and of variables inside a group), all admissible leaf sets",
 "The tests check a handful of hand-drawn clique trees and compare with one expected ordering; an ordering bug needs a particular overlap pattern (deep path, tie in the intersection weights, forest, nested groups) and is invisible when the fill happens to be covered anyway.",
 ["conex/clique_ordering.cc", "conex/tree_utils.cc", "conex/triangular_matrix_workspace.cc", "conex/supernodal_solver.cc"],
 [("order, supernodes, separators", "elimination order of the cliques and the split of each clique", "clique_ordering.cc PickCliqueOrder"),
  ("snodes, separators in the triangular workspace", "storage of the factor", "triangular_matrix_workspace.h")],
 [("greedy clique tree + running-intersection fill", "clique_ordering.cc: PickCliqueOrder, FillIn"), ("PathInTree", "tree_utils.cc"), ("SupernodesToData", "supernodal_solver.cc")],
 ["return values of PickCliqueOrder / GetData / the workspace constructor"])

prop("C02", "The assembled Newton system is the sum of the constraints' contributions",
 "For every program, the assembled linear system equals, in the program's own variable numbering, the sum over its constraints of each constraint's block placed at the variables it was registered on, with equality constraints occupying symmetric multiplier rows and columns; the right-hand-side vectors and scalar inner products are sums in the same way. The result does not depend on the order in which constraints were added, on how their variables are listed, on overlap between them, or on how many times the system was assembled, factored or solved before.",
 ["programs", "histories"], "all mixes of constraints and cost terms on all variable subsets in all orders, any number of re-assemblies interleaved with factorizations",
 "Tests assemble a few fixed sparse programs and compare with a dense sum; wrong placement needs a particular overlap or ordering that leaves a block reached by one path only.",
 ["conex/kkt_solver.cc", "conex/supernodal_assembler.cc", "conex/supernodal_assembler.h", "conex/constraint_manager.h", "conex/equality_constraint.cc", "conex/quadratic_cost.cc"],
 [("KKT matrix", "dense view of the assembled system in original numbering", "kkt_solver.h KKTMatrix"), ("AW, AQc, inner products", "assembled residuals", "newton_step.h WorkspaceSchurComplement")],
 [("Bind / direct update / scatter", "supernodal_assembler.cc, kkt_solver.cc"), ("AssembleSchurComplementResiduals", "constraint_manager.h")],
 ["SupernodalKKTSolver::KKTMatrix, Assemble; program.sys after a solve"])

prop("C03", "The sparse factorization solves the assembled system in every mode",
 "After a successful assemble and factor, solving returns the vector that satisfies the assembled system for every right-hand side, in each of the factorization modes, with or without iterative refinement, for every sparsity pattern. Repeating a solve, solving several right-hand sides, and re-assembling and re-factoring give the same answers, and a matrix that is not positive definite is reported as a failed factorization in Cholesky mode rather than solved.",
 ["inputs", "histories", "configurations"], "all sparsity patterns, right-hand sides, solver modes, refinement counts and call sequences",
 "Tests use two or three patterns per mode and one right-hand side; block updates touching a separator shared by several supernodes or a mode switch between factorizations are not reached.",
 ["conex/block_triangular_operations.cc", "conex/kkt_solver.cc", "conex/triangular_matrix_workspace.cc", "conex/RLDLT.h"],
 [("factor blocks", "diagonal, off-diagonal blocks and factorizations per supernode", "block_triangular_operations.cc")],
 [("block Cholesky / LDLT / QR", "block_triangular_operations.cc, kkt_solver.cc"), ("iterative refinement", "kkt_solver.cc")],
 ["SupernodalKKTSolver::Factor, Solve, SolveInPlace"])

prop("C04", "Registering a constraint is all-or-nothing",
 "Adding a constraint or cost to a program either succeeds, appending exactly one constraint over exactly the given variables, or is rejected and changes nothing. It is rejected exactly when the variable list repeats a variable or names one outside the program; indices of earlier constraints, and multipliers of equality constraints, are never renumbered or shared.",
 ["histories", "inputs"], "all sequences of add calls with valid and invalid variable lists, by copy or by move, over every kind of constraint",
 "Tests add one invalid list once; sequences in which a rejected call sits between accepted ones, or an equality follows a rejected equality, are not exercised.",
 ["conex/constraint_manager.h", "conex/cone_program.h", "conex/quadratic_cost.cc"],
 [("constraints, cliques, dual variables", "registered constraints with their variables and multipliers", "constraint_manager.h")],
 [("uniqueness and range test", "constraint_manager.h IsUnique"), ("AddConstraint / AddEqualityConstraint", "constraint_manager.h")],
 ["return value of Program::AddConstraint; kkt_system_manager_.cliques / dual_vars; SizeOfKKTSystem"])

prop("C05", "Calls of the C interface validate their arguments and fail without side effects",
 "Every constraint-creating (CONEX_New*) or updating (CONEX_Update*, CONEX_SetNumberOfVariables) call of the C interface either returns success and performs exactly the requested change, giving a new constraint the next index, or returns failure and leaves the program as it was. Such calls with null pointers, or with dimensions, indices, hypercomplex components or constraint handles out of range, fail; well-formed calls succeed, whatever calls were made before, including solves. The array calls (CONEX_Add*) return the id of the constraint they add, and a sparse one whose variable list is not admissible returns a negative id and adds nothing.",
 ["histories", "inputs"], "all call sequences over the C interface with in-range and out-of-range arguments, before and after solves",
 "Tests try a dozen single bad calls on a fresh program; the guarantee is over histories (bad call after good call, calls after a solve, on a program with other constraint kinds).",
 ["interfaces/conex.cc", "conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/linear_constraint.cc", "conex/quadratic_cost.cc", "conex/cone_program.h"],
 [("program", "constraint list and coefficient data", "interfaces/conex.cc")],
 [("argument checks", "interfaces/conex.cc, Update* functions of the constraints")],
 ["return codes and constraint ids of CONEX_* calls; program data"])

prop("C06", "A constraint built by coefficient updates equals the one built in one shot",
 "After any sequence of accepted coefficient updates, a constraint or quadratic cost behaves exactly as if it had been constructed with the final coefficients: each update sets its own entry (and the mirrored entry demanded by symmetry or Hermitian conjugation) and no other, and the last write to an entry wins.",
 ["histories"], "all sequences of coefficient updates, including overwriting, interleaving across constraints, any hypercomplex component, and updates between solves",
 "Tests set each coefficient once in a natural order; overwrites, interleavings and off-diagonal imaginary components in the other triangle are not covered.",
 ["conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/linear_constraint.cc", "conex/quadratic_cost.cc", "interfaces/conex.cc"],
 [("coefficient data", "affine term and operator of each constraint", "constraint classes")],
 [("UpdateLinearOperator / UpdateAffineTerm", "each constraint's .cc")],
 ["Newton data of the constraint at the identity point; solutions"])

prop("C07", "Every cone supplies the exact Newton data of its constraint",
 "For every constraint kind (linear, dense and Hermitian matrix inequality over each algebra, second-order, generalized quadratic, equality, quadratic cost) the block it contributes at its current scaling point is the Gram matrix of its scaled coefficients, with the matching products against the affine term and the scaling point, for every number of variables and cone order, whether it initializes the system or adds to it.",
 ["inputs"], "all coefficient data, cone orders, variable counts, scaling points and both initialize/accumulate modes",
 "Tests compare one or two random instances of a fixed size per cone, mostly at the identity; symmetric fill of the last column, block loops over many variables and accumulate mode are sampled once.",
 ["conex/linear_constraint.cc", "conex/dense_lmi_constraint.cc", "conex/psd_constraint.cc", "conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/equality_constraint.cc", "conex/quadratic_cost.cc"],
 [("G, AW, AQc, <w,c>, <c,Qc>", "Newton data", "newton_step.h")],
 [("ConstructSchurComplementSystem", "each constraint's .cc")],
 ["outputs of ConstructSchurComplementSystem"])

prop("C19", "Every cone reports and takes the step the Newton direction prescribes",
 "For every cone constraint, the norms it reports for the Newton direction at a point and the extreme eigenvalues, trace and norm it reports for its weighted slack are those of the direction and slack of its own algebra (exactly where its eigenvalue iteration is exact, never beyond the true norm elsewhere); the step it then takes moves its scaling point along the geodesic of that direction by the requested length, the affine update adds exactly the linearised direction, and the multiplier it reports is its scaling point in the pairing of its coefficients.",
 ["inputs", "histories"], "all coefficient data, scaling points, directions, step lengths, weights of the affine term and of the identity, and all orders of these calls",
 "Tests run whole solves, which converge to the same answer with a wrong norm, a damped step of the wrong length or a slightly wrong update; single calls are tested at the identity only.",
 ["conex/linear_constraint.cc", "conex/psd_constraint.cc", "conex/dense_lmi_constraint.cc", "conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/exponential_map.cc", "conex/exponential_map_pade.cc", "conex/approximate_eigenvalues.cc"],
 [("W", "scaling point", "constraint workspaces"), ("norminfd, normsqrd, eigenvalue bounds", "step information", "newton_step.h")],
 [("PrepareStep, TakeStep, GetWeightedSlackEigenvalues, SetIdentity", "each constraint's .cc"), ("get_dual_variable", "constraint.h")],
 ["StepInfo, WeightedSlackEigenvalues, Newton data after the step, get_dual_variable"])

prop("C08", "Solver workspaces never overlap and never leave their buffer",
 "For every program, the scratch areas handed to its constraints, its Newton blocks, its statistics and its residuals lie inside the program's buffer and are pairwise disjoint, whatever the mix and sizes of constraints; a buffer shared with, or grown by, a larger program is used correctly by each program that is solved with it. No constraint's results change because another constraint is present.",
 ["programs", "histories", "configurations"], "all mixes of constraint kinds and sizes, all iteration limits, own or shared buffer, any sequence of re-initializations",
 "Tests solve with one fixed mix; an under-counted size is hidden by alignment padding except for particular orders.",
 ["conex/workspace.h", "conex/workspace_soc.h", "conex/linear_workspace.h", "conex/psd_constraint.h", "conex/hermitian_psd.h", "conex/newton_step.h", "conex/memory_utils.h", "conex/cone_program.h", "conex/triangular_matrix_workspace.h"],
 [("workspaces", "list of (size, base) areas in one buffer", "workspace.h")],
 [("SizeOf / Initialize pairs", "workspace headers"), ("sequential layout", "workspace.h Initialize")],
 ["addresses and sizes of workspace members after initialization"])

prop("C09", "The interior-point loop obeys its configured limits and centering protocol",
 "In every run the solver performs at most the configured number of iterations; the barrier parameter always stays between its target and its configured maximum and is held fixed during centering; it stops only at the iteration limit, after the configured number of final centering steps, on final-centering convergence, or on a failed factorization. Every step uses the length given by the norm of the Newton direction, is taken on every constraint with the same parameters that were used to compute its direction, and a run that ends at the iteration limit without convergence is never reported solved.",
 ["programs", "configurations", "histories"], "all configurations (limits, centering counts, tolerances, rescaling, line search, start mode) and all sequences of responses of the constraints",
 "Tests run the defaults on well-behaved problems, where several of the guards are never decisive; the protocol is a state machine over many iterations and options.",
 ["conex/cone_program.cc", "conex/cone_program.h"],
 [("inverse sqrt mu, centering counter, final/initial centering flags, scalings", "loop state", "cone_program.cc Solve")],
 [("Solve loop", "cone_program.cc"), ("ApplyLimits", "cone_program.cc")],
 ["calls received by the constraints of the program, status, iteration statistics"])

prop("C10", "A reported outcome is true",
 "When a solve is reported solved, the returned point satisfies every constraint and is optimal: together with the returned multipliers (when requested) it forms an optimality certificate, to the accuracy given by the final barrier parameter: feasible point, multipliers in their cones, stationarity including equality constraints and quadratic costs, and a duality gap that vanishes with the barrier parameter. A problem that is infeasible or unbounded is never reported solved, a solvable problem is never flagged, and the flags raised for a linear program identify the side that is really infeasible; well-posed problems with strictly feasible primal and dual points are solved, given enough iterations and a moderate accuracy, with the otherwise default options; the value returned by Solve equals the reported status.",
 ["programs", "configurations"], "all well-posed, infeasible and unbounded programs mixing every constraint kind, equalities and quadratic costs, with every solver mode and option preset",
 "Tests check one optimal value per problem class, never the certificate on a mix of cones, equalities and sparse variable subsets, nor the flags on infeasible mixes.",
 ["conex/cone_program.cc", "conex/kkt_solver.cc", "conex/linear_constraint.cc", "conex/psd_constraint.cc", "conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/quadratic_epigraph.cc", "conex/divergence.cc"],
 [("status, y, dual variables", "reported outcome", "cone_program.h")],
 [("Newton loop and termination", "cone_program.cc"), ("PrepareStep/TakeStep", "each constraint")],
 ["Solve return value, Status(), primal output, GetDualVariable"])

prop("C11", "A cold-started solve does not depend on history",
 "Solving a program from a cold start gives the same status, solution, multipliers and iteration history as solving a freshly built identical program, whatever solves (cold, warm, failed, infeasible, with other options or costs) were performed on it before and whatever other programs exist or share its buffer, given the same state of the process's random number generator.",
 ["histories"], "all sequences of solves, cost changes, option changes and updates before the cold solve",
 "Tests solve each program once or twice with the same options; state left behind by a failed or differently configured solve is not exercised.",
 ["conex/cone_program.cc", "conex/cone_program.h", "conex/kkt_solver.cc", "conex/supernodal_assembler.h"],
 [("scaling point, scalings, status, workspace, solver mode", "state surviving a solve", "cone_program.h")],
 [("Initialize", "cone_program.cc")],
 ["outputs of Solve"])

prop("C12", "A warm start continues from the point the previous solve left",
 "A warm-started solve begins at the scaling point and problem scaling left by the previous solve, so splitting a run into shorter warm-started runs visits the same points; it falls back to the cold point exactly when its first factorization fails or its first direction is at least the configured abort threshold, and then completes like a normal solve. It works for any iteration limit, any later change of cost, and any number of repetitions.",
 ["histories", "configurations"], "all sequences of cold and warm solves with changing costs, iteration limits, thresholds and constraint kinds",
 "Tests warm start one program with the same limits as the cold solve; different limits, aborts, and repeated continuation are not covered.",
 ["conex/cone_program.cc", "conex/cone_program.h", "conex/workspace.h"],
 [("scaling point W, b/c scaling", "state carried over", "constraint workspaces, WorkspaceStats")],
 [("Initialize in warm mode, abort logic", "cone_program.cc")],
 ["calls received by constraints, statistics, solutions"])

prop("C13", "Iteration statistics and multiplier queries report the last solve",
 "After a solve, statistics are available for exactly the iterations it performed, addressed from the front or (with negative indices) from the back, with the barrier parameter each iteration used; any other index, or a query before any solve, leaves the output untouched. Multiplier queries report the size and the value of the multiplier of the addressed constraint and no other, and an invalid constraint index is harmless.",
 ["histories", "inputs"], "all solves (converged, limited, failed, infeasible, warm) followed by all indices",
 "Tests read one or two entries after one successful solve.",
 ["interfaces/conex.cc", "conex/workspace.h", "conex/cone_program.h", "conex/constraint.h"],
 [("num_iter, sqrt_inv_mu", "per-iteration history", "workspace.h WorkspaceStats")],
 [("CONEX_GetIterationStats", "interfaces/conex.cc"), ("GetDualVariable", "cone_program.h")],
 ["outputs of the query functions"])

prop("C14", "Two-sided linear inequalities keep exactly their feasible set",
 "Converting rows with lower and upper bounds into solver form keeps the set of points that satisfy them: a row with equal bounds becomes an equality, a finite bound becomes one inequality (up to positive scaling), an infinite bound becomes none, and no row is lost, duplicated or mixed with another, for any combination of rows.",
 ["inputs"], "all coefficient rows and all combinations of finite, infinite and equal bounds, including all-equality, all-free and empty inputs",
 "Tests use a single matrix with one pattern of bounds.",
 ["conex/linear_constraint.cc", "interfaces/conex.cc"],
 [("inequality and equality rows", "converted system", "linear_constraint.cc PreprocessLinearInequality")],
 [("PreprocessLinearInequality", "linear_constraint.cc"), ("CONEX_AddLinearInequalities", "interfaces/conex.cc")],
 ["output matrices; the constraints registered in the program"])

prop("C15", "Hypercomplex matrix algebra obeys the laws of its algebra",
 "Matrix sums, products, Jordan products, traces, inner products, conjugate transposes and quadratic representations over the real, complex, quaternion and octonion algebras equal their definition from the algebra's multiplication table, in which norms multiply; Hermitian matrices stay Hermitian under the operations that must preserve this.",
 ["inputs"], "all matrices over all four algebras (any order; order at most 3 for octonions)",
 "Tests check a few identities on random matrices in floating point; a wrong sign in one product of two imaginary units survives when the identity is symmetric in it.",
 ["conex/jordan_matrix_algebra.cc", "conex/jordan_matrix_algebra.h"],
 [("hypercomplex matrices", "one real matrix per unit", "jordan_matrix_algebra.h")],
 [("multiplication tables", "jordan_matrix_algebra.cc Multiply")],
 ["outputs of the matrix operations"])

prop("C16", "The barrier parameter chosen by line search or divergence bound is admissible",
 "The line search of a constraint returns exactly the interval of barrier weights for which the combined Newton direction stays within the requested norm, or reports that it is empty; the solver uses the largest weight admissible for all constraints at once. The divergence rule returns a weight whose divergence bound does not exceed the requested value whenever one exists and otherwise says so.",
 ["inputs", "programs"], "all slack directions, norm bounds and spectra; any number of constraints with different intervals",
 "Tests check one feasible interval of one constraint.",
 ["conex/linear_constraint.cc", "conex/divergence.cc", "conex/cone_program.cc", "conex/quadratic_cost.cc"],
 [("interval of weights", "line search output", "newton_step.h LineSearchOutput")],
 [("FindMinimumMu / PerformLineSearch", "linear_constraint.cc"), ("ComputeMuFromLineSearch", "cone_program.cc"), ("DivergenceUpperBoundInverse", "divergence.cc")],
 ["PerformLineSearch output; weight used by the first step of a solve"])

prop("C17", "Equivalent formulations of a problem give the same answer",
 "The outcome of a solve is a property of the problem, not of its formulation: permuting variables or constraints, splitting a constraint into blocks, stating linear inequalities as diagonal matrix inequalities, stating a real matrix inequality over a larger algebra or as dense or sparse, and restating a second-order cone as a matrix inequality or as the generalized quadratic cone, all yield the same status, optimal value and (when unique) solution.",
 ["programs"], "all programs and all equivalence-preserving reformulations of them",
 "Tests never compare two formulations beyond one sparse/dense pair.",
 ["conex/linear_constraint.cc", "conex/psd_constraint.cc", "conex/dense_lmi_constraint.cc", "conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/kkt_solver.cc"],
 [("outcome", "status, value, solution", "cone_program.h")],
 [("common Newton step framework", "constraint.h, newton_step.h")],
 ["Solve outputs"])

prop("C18", "The C interface configures and runs the solver exactly like the C++ one",
 "Filling in default options through the C interface sets every option to the C++ default, every option set through the C interface reaches the solver unchanged, and a program built and solved through the C interface gives the same result as the same program built and solved in C++, for maximization and for minimization with linear and quadratic costs.",
 ["configurations", "programs"], "all option settings (each option alone and in combination) and all program kinds constructible through both interfaces",
 "Tests touch four or five options through the C interface, always starting from zeroed memory.",
 ["interfaces/conex.cc", "interfaces/conex.h", "conex/cone_program.h"],
 [("CONEX_SolverConfiguration", "options", "interfaces/conex.h")],
 [("CONEX_SetDefaultOptions, APIConvertSolverConfiguration", "interfaces/conex.cc")],
 ["options after CONEX_SetDefaultOptions; results of CONEX_Solve / CONEX_Maximize"])

prop("N01", "Numerical kernels are accurate to rounding",
 "The matrix exponential, Pade and geodesic updates and the approximate extreme eigenvalues are accurate to a small multiple of machine precision for every input in their domain.",
 ["inputs"], "all symmetric and Hermitian matrices of admissible norm",
 "Tests compare with a reference on random matrices.",
 ["conex/exponential_map.cc", "conex/exponential_map_pade.cc", "conex/approximate_eigenvalues.cc"],
 [("matrix", "argument and result", "exponential_map.cc")], [("scaling and series", "exponential_map.cc")], ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
