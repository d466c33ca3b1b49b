#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
A = "fbstab/fbstab_algorithm-impl.h"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

COMP = ["fbstab/components/full_variable.cc", "fbstab/components/full_residual.cc",
        "fbstab/components/full_feasibility.cc"]
DENSE = ["fbstab/fbstab_dense.h", "fbstab/fbstab_dense.cc",
         "fbstab/components/dense_data.h", "fbstab/components/dense_data.cc",
         "fbstab/components/dense_cholesky_solver.cc"]
MPC = ["fbstab/fbstab_mpc.h", "fbstab/fbstab_mpc.cc", "fbstab/components/mpc_data.h",
       "fbstab/components/mpc_data.cc", "fbstab/components/riccati_linear_solver.cc",
       "tools/matrix_sequence.h"]
ALG = [A, "fbstab/fbstab_algorithm.h"]

prop("C01", "A dense solve that reports success returns an optimal point",
 "Whenever a dense QP solve reports success, the returned primal-dual point satisfies the problem's own optimality conditions (stationarity, equalities, inequalities, dual signs, complementarity), recomputed from the user's data, to the requested absolute plus relative tolerance. This holds for every convex problem, every initial guess, and both option presets.",
 ["inputs", "configurations"],
 "all convex dense QPs (singular Hessians, redundant or contradictory constraints included), all guesses, all presets",
 "The tests solve four hand-picked problems from a zero guess; success on any other problem, guess, size or option set is never examined.",
 ALG + DENSE + COMP,
 [("stopping test on the penalized natural residual", A + " Solve"),
  ("Newton system assembly and solve", "fbstab/components/dense_cholesky_solver.cc Initialize/Solve"),
  ("residual evaluation", "fbstab/components/full_residual.cc")],
 ["exit flag and vectors written back to the caller"])

prop("C02", "Dense exit verdicts agree with the exact status of the problem",
 "Success is reported only for problems that are feasible and bounded, primal infeasibility only for infeasible ones, dual infeasibility only for problems with a descending recession direction. For data and guesses of moderate size (entries up to 100) the reliability preset gives every problem with up to a dozen variables a verdict, and the default preset every strictly convex or one-variable one: no exception and no iteration-limit exit.",
 ["inputs", "configurations"],
 "all convex dense QPs with small integer data over enumerated shapes and guesses, classified exactly in rational arithmetic, and larger ones whose status is known by construction",
 "The tests contain one infeasible and one unbounded problem; a wrong verdict needs a particular combination of data and guess (several were found and repaired here).",
 ALG + DENSE + COMP,
 [("infeasibility certificates", "fbstab/components/full_feasibility.cc CheckFeasibility"),
  ("stall test", A + " Solve"), ("verdict mapping", A + " CheckForInfeasibility")],
 ["exit flag"])

prop("C03", "An infeasibility verdict comes with a valid certificate",
 "When a solve reports infeasibility or unboundedness, the vectors handed back are themselves a numerically valid Farkas-type certificate of exactly that claim for the user's data: a non-negative multiplier combination that contradicts the constraints, or a recession direction along which the cost decreases. This holds for both solver interfaces.",
 ["inputs", "configurations"],
 "all infeasible or unbounded QPs of the enumerated shapes (dense and optimal-control form), all guesses, both presets",
 "The tests only compare the flag; the returned certificate is never inspected.",
 ALG + COMP + ["fbstab/components/mpc_data.cc", "fbstab/components/dense_data.cc"],
 [("certificate checks", "fbstab/components/full_feasibility.cc CheckFeasibility"),
  ("certificate write-back", A + " Solve (infeasible exit)")],
 ["exit flag and vectors written back to the caller"])

prop("C04", "An optimal-control solve that reports success returns an optimal point",
 "Whenever an optimal-control solve reports success, the returned trajectory and multipliers satisfy dynamics, initial condition, stage constraints, stationarity, dual signs and complementarity of the problem as documented, recomputed stage by stage from the user's data, to the requested tolerance. This holds for time-varying data with cross terms, affine dynamics, linear costs and arbitrary guesses.",
 ["inputs", "configurations"],
 "all time-varying linear-quadratic optimal-control problems of small horizon and dimension, all guesses, both presets",
 "The tests only use time-invariant data with zero affine and cross terms, starting from zero; stage indexing errors cancel there.",
 ALG + MPC + COMP,
 [("implicit block operators", "fbstab/components/mpc_data.cc"),
  ("Riccati recursion", "fbstab/components/riccati_linear_solver.cc")],
 ["exit flag and vectors written back to the caller"])

prop("C05", "Optimal-control exit verdicts agree with the exact status of the problem",
 "For optimal-control problems success is reported only for feasible and bounded problems, primal infeasibility only for infeasible ones and dual infeasibility only for ones with a descending recession direction; for data and guesses of moderate size the default preset reaches a verdict on every strictly convex problem and the reliability preset on every feasible one and on small infeasible ones.",
 ["inputs", "configurations"],
 "all small time-varying optimal-control problems within the enumerated deviations from the base problems, classified exactly in rational arithmetic, and larger ones (long horizons included) whose status is known by construction, all guesses",
 "No existing test solves an infeasible or an unbounded optimal-control problem.",
 ALG + MPC + COMP,
 [("infeasibility certificates", "fbstab/components/full_feasibility.cc"),
  ("Riccati factorization", "fbstab/components/riccati_linear_solver.cc Initialize")],
 ["exit flag"])

prop("C06", "The optimal-control and dense interfaces agree on the same problem",
 "Writing an optimal-control problem out as an explicit dense QP and solving it through the dense interface gives the same verdict, the same optimal cost and, if the optimum is unique, the same primal solution as solving it through the structured interface.",
 ["inputs", "configurations"],
 "all enumerated small time-varying optimal-control problems and guesses",
 "No existing test solves one problem through both interfaces.",
 MPC + DENSE + ALG,
 [("equivalence of the structured and the general form", "fbstab/fbstab_mpc.h class documentation")],
 ["results of the two public interfaces"])

prop("C07", "Structured data operators equal the explicit matrices for all scalings",
 "Every matrix-vector and vector operation of the problem-data classes computes exactly the documented y <- a*M*x + b*y (or y <- a*w + y) for the matrices of the documented problem, for every scaling pair, horizon and dimension; in particular a zero b overwrites y whatever it held. The reported forcing norm is the norm of the three linear terms.",
 ["inputs", "configurations"],
 "all operators, basis vectors, scalings and small shapes, with every matrix entry distinct",
 "The operator unit tests in the tree are not compiled and only use time-invariant data with scalings +1/-1.",
 ["fbstab/components/mpc_data.cc", "fbstab/components/mpc_data.h",
  "fbstab/components/dense_data.cc", "fbstab/components/dense_data.h"],
 [("per-stage block products with specialised branches", "fbstab/components/mpc_data.cc gemv*/axpy*")],
 ["output vectors of the data operators"])

prop("C08", "The Newton step solves the documented linear system",
 "For every iterate, proximal centre and positive regularization, both linear solvers return a step that satisfies the documented regularized Newton system of the problem (all three block rows, with the documented generalized derivative of the complementarity function), and a consistent constraint-margin step. The two solvers therefore agree on equivalent problems.",
 ["inputs", "configurations"],
 "all sign patterns of margins and multipliers (kinks included), regularizations, smoothing weights and small shapes",
 "A wrong step is usually repaired by the line search and more iterations, so end-to-end tests still pass.",
 ["fbstab/components/dense_cholesky_solver.cc", "fbstab/components/riccati_linear_solver.cc",
  "fbstab/components/dense_cholesky_solver.h", "fbstab/components/riccati_linear_solver.h"],
 [("barrier augmented Hessian and elimination", "DenseCholeskySolver / RiccatiLinearSolver Initialize, Solve"),
  ("generalized derivative", "PFBGradient in both solvers")],
 ["step returned by the linear solver"])

prop("C09", "Any initial guess is acceptable and a good guess is recognised",
 "The initial guess never changes an answer: from any guess, any verdict that is reported is the correct one and a reported solution is optimal; for problems with data of order one and guesses with entries up to 1e3 the verdict is always reached and equals the one from the zero guess, as does the solution if it is unique. Restarting from a returned solution stops at once with zero iterations and the point unchanged, and a guess that already meets the tolerance is recognised and handed back unchanged without iterating; the reported initial residual is that of the guess. A non-finite guess never leads to a reported success with a wrong point, and the solve still ends.",
 ["inputs", "histories"],
 "all guesses over a wide value alphabet (negative multipliers, huge and non-finite values included) for each enumerated problem",
 "All existing tests start at the origin.",
 ALG + COMP,
 [("guess read-in and margin initialisation", A + " CopyIntoVariable"),
  ("globalisation by line search", A + " SolveProximalSubproblem")],
 ["exit flag, iteration counts and returned vectors"])

prop("C10", "A reused solver behaves exactly like a new one",
 "The outcome of a solve (verdict, vectors, counters, printed progress) depends only on the problem, the guess and the current options: it is identical whatever sequence of successful, infeasible, failed or rejected solves and option updates the solver object went through before, whatever memory contents the object was created on, and whatever other solver objects of the process did before.",
 ["histories"],
 "all operation sequences up to a depth over an alphabet of solves, option updates and failing calls; all heap fill patterns of an alphabet",
 "Every existing test uses a fresh solver object for a single solve.",
 ALG + DENSE + MPC + COMP,
 [("re-initialisation at the start of each solve", A + " Solve"),
  ("workspace vectors and cached norms", "components")],
 ["complete observable result of the last solve of the history"],
 [dict(name="workspaces", meaning="iterates, residual caches, factorizations and merit history that outlive a solve", where="FBstabAlgorithm and component members")])

prop("C11", "Every solve ends within its iteration limits and says so truthfully",
 "For all limits on Newton, proximal, inner and line-search iterations a solve ends, the reported counters never exceed the limits, an iteration-limit verdict is given only when one of the limits was actually reached, and the point handed back when the Newton limit stops the solve never has a larger residual than the point the interrupted subproblem started from.",
 ["inputs", "configurations"],
 "all combinations of small iteration limits and line-search modes over a problem set that includes infeasible and unbounded problems",
 "No existing test reaches an iteration limit.",
 ALG,
 [("limit checks", A + " Solve / SolveProximalSubproblem"),
  ("choice of the better iterate", A + " Solve (iteration timeout)")],
 ["exit flag, counters, residuals and returned vectors"])

prop("C12", "Returned values are mutually consistent on every exit",
 "On every exit the returned constraint margin equals b - A*z of the returned z; on success and iteration-limit exits the reported residual is the residual of the returned point and its multipliers carry no sign violation beyond the tolerance; the reported initial residual is that of the guess; counters and times are non-negative.",
 ["inputs", "configurations"],
 "all enumerated dense and optimal-control problems, guesses, presets and iteration limits",
 "The tests compare z and v of four problems to constants; the margin, residuals and counters are unchecked.",
 ALG + COMP,
 [("write-back and summary", A + " WriteVariable / PrepareOutput"),
  ("incremental margin update", "fbstab/components/full_variable.cc axpy")],
 ["returned vectors and summary structure"])

prop("C13", "Options are sanitised, all take effect, and legal options never crash",
 "Option values inside the documented ranges are stored unchanged, values outside are replaced by admissible ones, field by field and independently of the others, and sanitised options never make a solve throw. Each option has its documented effect: tolerances bound the reported residual, limits bound the counters, disabling the feasibility check suppresses infeasibility verdicts, and the presets of both interfaces coincide and are what a new solver uses.",
 ["configurations", "inputs"],
 "all pairs of option fields over below-range, boundary, interior and above-range values; problem set covering all verdicts",
 "The tests only ever switch off printing.",
 ALG + ["fbstab/fbstab_dense.cc", "fbstab/fbstab_mpc.cc"],
 [("sanitising", A + " ValidateOptions"), ("field-wise copy", A + " UpdateParameters"),
  ("presets", A + " DefaultParameters / ReliableParameters")],
 ["current parameters, solve results"])

prop("C14", "Inconsistent sizes are rejected before anything is touched",
 "A constructor or solve call whose problem data, guess or solver dimensions do not fit together always throws a runtime error and leaves guess and solver unchanged, and a call whose dimensions do fit is never rejected. The vector, residual, feasibility, data and linear-solver components likewise reject every documented precondition violation (sizes, non-positive parameters, missing data). No mismatch leads to an out-of-bounds access.",
 ["inputs"],
 "all combinations of dimensions of every input array within +-1 of the declared ones (pairs of deviations), including sequence lengths; all pairs of small shapes of solver and data; arrays with permuted dimensions",
 "There is no test with inconsistent sizes.",
 ["fbstab/fbstab_dense.h", "fbstab/fbstab_mpc.h", "fbstab/fbstab_dense.cc", "fbstab/fbstab_mpc.cc",
  "fbstab/components/dense_data.h", "fbstab/components/mpc_data.cc"],
 [("validation", "DenseData constructor, MpcData::ValidateInputs, ValidateInputs, ValidateInputSizes")],
 ["exceptions, guess contents"])

prop("C15", "Solves only write the caller's result vectors, in owned or mapped memory",
 "A solve never modifies problem data, writes nothing but the four result vectors, reads nothing outside the arrays it was given, and gives the same result whether the caller passes owned containers or views onto its own buffers. This holds for every exit path. The containers themselves agree with that: a new variable is the origin with vectors of the declared sizes, new problem data have the declared sizes, a view refers to exactly the caller's memory, and filling a view sets every entry of all four vectors and nothing else.",
 ["inputs", "configurations"],
 "all enumerated problems and shapes, owned and mapped storage, every exit path",
 "Only two tests use mapped storage and none looks around the buffers.",
 ["fbstab/fbstab_dense.h", "fbstab/fbstab_dense.cc", "fbstab/fbstab_mpc.h", "fbstab/fbstab_mpc.cc",
  "fbstab/components/dense_data.h", "fbstab/components/mpc_data.h", "tools/matrix_sequence.h"],
 [("views instead of copies", "ProblemDataRef, VariableRef, MapMatrixSequence")],
 ["memory of the caller"])

prop("C16", "Printing never influences a solve and goes only where it was asked to go",
 "The result of a solve is identical at every verbosity, nothing at all is printed when display is off, all output goes to the stream object supplied by the caller (standard output by default), the final summary carries the same verdict, counters and residuals as the returned structure, and every progress line shows the iteration numbers, residual norms and step length of the iterate the solver is really at.",
 ["configurations", "inputs"],
 "all verbosity levels, exits and problems of the set, both interfaces",
 "The tests run with display off or ignore what is printed.",
 ALG + ["tools/output_stream.h"],
 [("display guards", A + " Print*"), ("stream template", "tools/output_stream.h")],
 ["text received by the stream, process standard output"])

prop("C17", "Separate solver objects are independent under every interleaving",
 "Two solver objects used from two threads (or nested, one inside the print callback of the other) never influence each other: each solve gives exactly the result it gives alone, for every interleaving of their steps.",
 ["schedules"],
 "all interleavings of two concurrent solves at memory-access granularity (by reduction to the accesses that do not commute), warm and from the first solve of a process, and all nesting points",
 "All tests are single threaded; a shared temporary only shows under a particular interleaving.",
 ALG + DENSE + MPC + COMP,
 [("all state is per object", "class members, no globals")],
 ["results of both solves"])

prop("C18", "Numerical failures are contained",
 "If a factorization or linear solve fails at any iteration the solve throws a runtime error, leaves the caller's guess untouched and the solver reusable with unaffected later results. Wrong, zero, reversed or non-finite Newton steps at any iterations can cost progress but never lead to a wrong verdict, an invalid certificate, a success whose reported residual is not that of the returned point, or a non-terminating solve; success still requires one of the two documented stopping tests (residual below tolerance, or a proximal step shorter than the stall tolerance). Data that make a factorization break down (non-convex costs) or are not finite are treated alike: a linear solver reports failure rather than success with a step that does not solve its equations, and the solve throws or stops at its limits instead of reporting success at a point that is no solution or a certificate that is none.",
 ["fault_sequences"],
 "every single failure point and every fault sequence with a bounded number of corrupted steps (all positions, all fault kinds) over the problem set",
 "Failures of the linear solver cannot be provoked through the tests' problems.",
 ALG + COMP,
 [("failure propagation", A + " SolveProximalSubproblem"),
  ("line search and stopping tests evaluated on true residuals", A)],
 ["exceptions, exit flag, returned vectors, later solves"])

prop("C19", "Matrix sequences behave like independent arrays of matrices",
 "A matrix sequence is a fixed-shape list of matrices with value semantics, stored contiguously and column-major: writing one element changes nothing else, copies are independent, views alias exactly the memory they were given, and out-of-range indices or bad shapes always throw.",
 ["histories", "inputs"],
 "all operation sequences up to a depth over construct, write, copy, assign, move, view and index operations on a pool of sequences and shapes",
 "There is no test of the containers.",
 ["tools/matrix_sequence.h"],
 [("stride arithmetic and bounds checks", "tools/matrix_sequence.h")],
 ["element values, exceptions"])

prop("C20", "Each Newton step is globalised by the documented line search",
 "Every accepted inner iterate lies on the computed Newton direction at the largest step length in the backtracking sequence that gives the documented sufficient decrease of the subproblem merit (relative to the current merit in monotone mode, to the largest of the last five in non-monotone mode), or at the end of the sequence. A subproblem is iterated until it meets the documented inner tolerance and no further; the proximal centre then moves to its result projected onto non-negative multipliers, and the regularization stays the configured one.",
 ["inputs", "configurations"],
 "every step of every solve over enumerated problems, guesses and line-search options, observed at the linear-solver interface of the algorithm template",
 "Broken globalisation rarely shows on easy problems started at the origin.",
 ALG,
 [("backtracking loop and merit buffer", A + " SolveProximalSubproblem, InsertMerit, MaxMerit")],
 ["sequence of iterates and directions passed to the linear solver"])

prop("C21", "The sparse factorization wrapper factors and solves every pattern",
 "The wrapper around the sparse LDL' package solves A*x = b for every symmetric quasi-definite sparsity pattern and ordering it is given, can be refactored with new values any number of times, and stays inside its own workspace.",
 ["inputs", "histories"],
 "all upper-triangular sparsity patterns up to a size, all short sequences of factor and solve calls",
 "Its only test is not part of the build and covers one matrix.",
 ["tools/qdldl/qdldl_wrapper.h", "tools/qdldl/qdldl_types.h"],
 [("workspace sizing and call order", "tools/qdldl/qdldl_wrapper.h")],
 ["solution vectors, memory checker"])

prop("C22", "Residuals, merits, variables and certificate tests are the documented ones",
 "For every point, centre, smoothing weight and regularization the residual objects hold exactly the documented natural, penalized and proximal-subproblem residuals, with norms and merit that always belong to the stored vectors, whatever was computed before; the variable operations (fill, copy, scaled addition, projection, margin) do what they document and keep the margin equal to b - A*z; and the feasibility test accepts precisely the directions that satisfy the documented certificate conditions to the given tolerance, at any scale of the direction and of the right-hand sides (a decrease counts when it is significant relative to the right-hand side it comes from).",
 ["inputs", "histories"],
 "all operation sequences up to a depth on two variables and a residual; all sign patterns of (margin, multiplier, centre); all small integer directions on all small integer problems",
 "The component tests in the tree are mostly not compiled and evaluate a handful of fixed points.",
 COMP + ["fbstab/components/full_residual.h", "fbstab/components/full_variable.h", "fbstab/components/full_feasibility.h"],
 [("residual evaluation and cached norms", "fbstab/components/full_residual.cc"),
  ("scaled addition with margin correction", "fbstab/components/full_variable.cc axpy"),
  ("certificate conditions", "fbstab/components/full_feasibility.cc CheckFeasibility")],
 ["values read through the accessors", "feasibility status"])

prop("C23", "The algorithm takes the documented decisions whatever its components say",
 "For any residuals, merits, Newton directions, linear-solver failures and certificates its components report, and whatever was solved before with the same objects, the algorithm core makes exactly the documented decisions: when an outer or inner iteration stops, how the inner tolerance tightens, which step length is taken, where the proximal centre moves, when a certificate ends the solve, what is returned when a limit is reached, how often the linear solver is called and with which right-hand side and parameters.",
 ["inputs", "configurations", "fault_sequences", "histories"],
 "all component behaviours with at most k answers away from a set of base behaviours, all short merit sequences, over option settings and solve histories",
 "Real problems reach few of the decision combinations; the answers of the components cannot be chosen through the tests' problems.",
 ALG,
 [("the proximal and Newton loops", A + " Solve, SolveProximalSubproblem")],
 ["exit flag, counters, returned point and residuals, calls of the components"])

prop("C24", "Memory use does not grow with use",
 "Repeating any sequence of calls on one solver object (solves of any kind and outcome, option updates, rejected arguments, solves ended by an exception from the linear solver or from the caller's output stream) does not increase the live heap memory from one repetition to the next. Destroying a solver, a problem-data or variable structure, a matrix sequence, a component or a factorization, or failing to construct one, leaves nothing behind. The live memory does not grow with the number of iterations of a solve.",
 ["inputs", "histories", "fault_sequences"],
 "all words of operations up to a depth, repeated, on one solver object; all words of object life cycles, repeated; long solves",
 "Tests solve a handful of problems and exit; a leak on an error path or per solve only shows in a long-running controller.",
 ALG + ["fbstab/fbstab_dense.h", "fbstab/fbstab_mpc.h", "fbstab/components/full_variable.h", "fbstab/components/riccati_linear_solver.h", "tools/matrix_sequence.h", "tools/qdldl/qdldl_wrapper.h"],
 [("solver objects own their working memory", "fbstab/fbstab_dense.h, fbstab/fbstab_mpc.h unique_ptr members"),
  ("owned storage of internal variables", "fbstab/components/full_variable.h")],
 ["live heap blocks and bytes after every repetition"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
