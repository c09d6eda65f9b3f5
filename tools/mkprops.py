#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  The text lives here so that JSON quoting never gets in the way.
import json, os
A="fbstab/fbstab_algorithm-impl.h"; AH="fbstab/fbstab_algorithm.h"
D="fbstab/fbstab_dense.h"; DC="fbstab/fbstab_dense.cc"; M="fbstab/fbstab_mpc.h"; MC="fbstab/fbstab_mpc.cc"
C="fbstab/components/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   observe_at=list(observe),hook_needed=hook)))
p("C01","A Success verdict is certified by the returned point",
 "Whenever a solve returns Success, the returned primal-dual point satisfies the problem's KKT conditions: its penalised natural residual for the alpha in force, recomputed from the problem data, is at most abs_tol + rel_tol*(1+||(f,h,b)||), or the last two outer iterates differ by no more than stall_tol; the returned inequality duals are non-negative (up to the tolerance when the guess itself was accepted) and every returned number is finite. This holds whatever the solver object was used for before, whatever the initial guess, and even if search directions were inexact or corrupted during the solve.",
 ["inputs","histories","fault_sequences"],
 "All convex QPs (dense and MPC), initial guesses including huge, negative-dual and non-finite ones, option settings, previous uses of the solver object, corrupted problem data, and faults striking individual Newton steps.",
 "The tests compare five dense and four MPC solutions with stored answers on fresh solvers; none re-derives the KKT residual, reuses a solver, feeds damaged data or disturbs an iteration.",
 [A,C+"full_residual.cc",C+"full_variable.cc"],
 [("outer stopping test","%s: Solve, main proximal loop"%A),("dual projection after each subproblem","%s: SolveProximalSubproblem"%A),("penalised natural residual",C+"full_residual.cc")],
 [("combo tolerance","absolute plus relative stopping threshold","FBstabAlgorithm")],["return value of Solve and the written-back variable"])
p("C02","The returned summary describes the returned point and the run",
 "For Success and iteration-limit results the reported residual is the residual of the point that is handed back, the reported initial residual is that of the initial guess, the returned margin equals b - A z, and the iteration counts equal the work actually done and never exceed the configured limits. An iteration-limit verdict is given only if a configured limit was really reached, and the point returned with it is no worse than the outer iterate the interrupted subproblem started from.",
 ["inputs","histories","fault_sequences"],
 "All problems, guesses, limits (including budgets starved to one iteration), solver histories and Newton-step faults.",
 "No test inspects residual, initial_residual, y or the counters, and none hits an iteration limit.",
 [A,AH,C+"full_variable.cc"],
 [("summary assembly","%s: PrepareOutput"%A),("best-of choice on timeout","%s: Solve, iteration timeout check"%A),("margin update",C+"full_variable.cc: axpy")],
 [("newton_iters / prox_iters","work counters","FBstabAlgorithm")],["SolverOut","written-back variable"])
p("C03","Infeasibility verdicts are sound and come with a certificate",
 "When a solve reports primal, dual or primal-dual infeasibility, the returned point is a certificate of exactly that, up to the configured infeasibility tolerance: non-negative inequality duals with A'v+G'l near 0 and b'v+h'l < 0 for primal, a direction with Hz, Gz near 0, Az not increasing and f'z < 0 for dual. A strictly convex problem with a strictly feasible point is never reported infeasible, from any initial guess and after any history; a solvable problem that is not strictly convex is so reported only when it lies within the tolerance of an infeasible one. An infeasible or unbounded problem is never reported solved from a moderate guess. (The last two sentences are for undisturbed search directions.)",
 ["inputs","histories","fault_sequences"],
 "Feasible, infeasible, unbounded, redundant and doubly infeasible QPs; any initial guess; any previous use of the solver; checks switched on or off between calls; faulted Newton steps.",
 "Two tests look at one hand-written infeasible and one unbounded QP from the origin; neither checks the certificate nor tries feasible problems from other guesses.",
 [C+"full_feasibility.cc",C+"full_feasibility.h",A],
 [("certificate test",C+"full_feasibility.cc: CheckFeasibility"),("verdict mapping","%s: CheckForInfeasibility"%A)],
 [("difference of outer iterates","candidate certificate","FBstabAlgorithm dx_")],["exit flag and written-back variable"])
p("C04","Every solve ends within its budget and makes progress",
 "A solve terminates after an amount of work bounded by its iteration limits, for any data including non-finite numbers, and never exceeds the configured numbers of Newton, proximal, inner or line-search iterations. Once disturbances stop, strictly convex strictly feasible well-scaled problems are solved to Success within default budgets from any moderate guess, and clearly infeasible or unbounded ones are flagged as such; isolated instances on which the iteration cycles numerically are excepted, a failure shared by neighbouring instances is not.",
 ["inputs","histories","fault_sequences"],
 "Work counted in executed basic blocks of the code under test, per call; problems, guesses and histories generated; data corruption, starved budgets, failed allocations and disturbed Newton steps before the measured call.",
 "Tests see a handful of easy problems terminate; they bound nothing and never follow a fault by a recovery.",
 [A,AH],[("iteration limits","%s: the four nested loops"%A),("tolerance schedule","%s: inner_tol update"%A),("line search","%s: SolveProximalSubproblem"%A)],
 [],["return of Solve; executed basic blocks"])
p("C05","A solve depends only on its inputs, not on history or memory contents",
 "The result of a solve (verdict, counts, residuals and every bit of the returned point) is a function of problem data, initial guess and current options alone: a solver object that has already solved, failed or thrown on any other problems gives the same answer as a freshly built one in a fresh process, also when it is called from inside the output stream of another solver's call. What the heap happened to contain when workspaces were allocated has no influence.",
 ["histories","fault_sequences","inputs"],
 "Sequences of create, configure, solve, fail and destroy operations over several solvers sharing one heap, with calls nested in the output stream of other calls, and the allocator handing out memory filled with zeros, NaN, Inf, huge values or recycled contents.",
 "Every test builds a fresh solver, calls it once, and runs on whatever the heap contains.",
 [A,C+"dense_data.cc",C+"full_feasibility.cc",C+"riccati_linear_solver.cc",C+"dense_cholesky_solver.cc",C+"full_residual.cc"],
 [("per-call initialisation","%s: Solve, initialization phase"%A),("workspaces overwritten before use",C+"*.cc")],
 [("merit_buffer_, ri_, dx_, factorisations","state that survives a call","FBstabAlgorithm and components")],["SolverOut and written-back variable, bit by bit"])
p("C06","Solver objects used by different threads do not affect each other",
 "Threads that each own a solver object and their own output, and at most share read-only problem data, obtain from every call exactly the result that call would give alone. This holds for every interleaving of their execution, and when one of the threads stops forever in the middle of a call.",
 ["schedules","fault_sequences","histories"],
 "Two to four threads, each with its own solvers (dense and MPC mixed) and call sequence; a context switch may fall after any basic block of library code; threads may be killed mid-call.",
 "The tests are single threaded.",
 [A,DC,MC,C+"*.cc","tools/*.h"],[("all mutable state lives in the solver object","class members of FBstabDense, FBstabMpc and components")],
 [],["per-call results against the same calls run alone"])
p("C07","A failed call leaves a usable solver and an untorn guess",
 "If constructing a solver or calling Solve ends in an exception (out of memory, a throwing output stream, a failed factorisation), the caller's variable is left either exactly as passed in or holding one complete iterate, nothing is leaked, and the problem data is untouched. The same solver object can be used again at once and then behaves like a new one.",
 ["fault_sequences","crash_points","histories"],
 "An allocation failure at every allocation index reached, a stream exception at every print, a linear-solver failure at every Newton step, alone and in sequences, at every verbosity.",
 "No test provokes an exception inside a solve.",
 [A,DC,MC,D,M,C+"*.cc"],[("results written back only at the end","%s: WriteVariable"%A),("owning members","FBstabDense/FBstabMpc unique_ptr members")],
 [],["caller's buffers, simulated heap ledger, next call's result"])
p("C08","A solution is a fixpoint: warm restarts cost nothing",
 "Solving again from a point that a solve returned with Success because its residual met the tolerance, under the same data and options, returns Success immediately with zero Newton and proximal iterations, the same residual and an unchanged point, on the same or another solver object. Saving a solution and restoring it later therefore loses nothing; in general a guess is handed back at once, unchanged, exactly when its residual meets the tolerance (stall_tol below 1).",
 ["histories","inputs","configurations"],
 "All problems solved to Success by residual, with other solves, option round trips and solver re-creation in between; the saved point may pass through a simulated crash and restart.",
 "No test solves twice.",
 [A,C+"full_variable.cc"],[("guess taken over as first outer iterate","%s: CopyIntoVariable"%A),("stopping test before any work","%s: Solve"%A)],
 [],["second SolverOut and variable"])
p("C09","Verbosity, output stream, storage flavour and device faults never change results",
 "The verdict, counts, residuals and returned point are the same bit for bit at every display level, with the default or any custom output stream, with owned or mapped problem data and variables, and when the output device fails, is full or writes short. Output faults that the stream does not itself throw never surface as errors.",
 ["configurations","fault_sequences","histories"],
 "All combinations of display level, stream, data and variable flavour, with device errors and short writes injected at arbitrary writes.",
 "Tests use one combination each and a working stdout.",
 [A,D,M,"tools/output_stream.h","tools/matrix_sequence.h"],[("templated input types","%s, %s: Solve"%(D,M)),("guarded printing","%s: Print*"%A)],
 [],["SolverOut and variable across variants"])
p("C10","The progress log is complete, ordered and agrees with the result",
 "At display level OFF nothing is printed; at any higher level a printed summary naming the verdict, counts, limits, residual parts, tolerance and time of exactly this call is the last thing printed. At iteration level it is preceded by one header and one line per outer iteration with non-decreasing counters ending at the reported ones, and at detailed level by one block per subproblem, closed by an end line unless a limit cuts it short; the numbers in these lines are those of this call and never left over from an earlier one.",
 ["histories","inputs","configurations"],
 "Reused and fresh solvers, all verdicts, all levels, limits starved or generous, custom and default streams.",
 "No test looks at what is printed.",
 [A,"tools/output_stream.h"],[("print helpers","%s: PrintIterHeader..PrintFinal"%A)],[],["text received by the stream or the stdout device"])
p("C11","Options are sanitised into their documented ranges and the last setting wins",
 "Whatever values other than NaN a caller supplies, the options in force lie in the documented admissible ranges with minima not above maxima (inner_tol_max is raised to inner_tol_min when given below it), admissible values are kept unchanged, sanitising twice equals sanitising once, and a solve never fails because of option values. Each solve obeys exactly the options set last on that object - as far as it can be seen: the regularisation, step lengths that are powers of beta with sufficient decrease (against the current merit only, when the nonmonotone search is off), subproblem tolerances reduced by delta within their bounds and met before a subproblem is left early, and no infeasibility verdict when the check is disabled - and options of one object never leak to another.",
 ["configurations","histories"],
 "Arbitrary option values including negative, huge and contradictory ones, updates between solves, failed solves in between, several objects.",
 "Tests set a few valid values once.",
 [A,AH,DC,MC],[("validation","%s: ValidateOptions"%A),("update","%s: UpdateParameters"%A)],[("opts_","options in force","FBstabAlgorithm")],["CurrentParameters, behaviour of Solve"])
p("C12","The library stays inside its memory and writes only its outputs",
 "No call reads or writes outside the buffers it owns or was given, modifies problem data, or leaks memory: after a solver is destroyed every byte allocated on its behalf has been returned exactly once. This holds also when allocations fail part way or mapped buffers are tightly packed between guard bytes.",
 ["inputs","fault_sequences","histories"],
 "All call sequences, sizes and storage flavours on a simulated heap with guard bytes, with and without allocation failures.",
 "Tests run without any memory checking and with owned storage.",
 [D,M,C+"*.cc","tools/matrix_sequence.h"],[("RAII ownership","unique_ptr and Eigen members"),("const maps over caller data",C+"dense_data.h, "+C+"mpc_data.h")],[],["simulated heap ledger, guard bytes, problem data checksums"])
p("C13","Reported solve time measures the call and survives clock changes",
 "solve_time is never negative, never more than the time that really passed between call and return, and never less than the time that passed between the first and last progress line the call printed; the printed time is the same number in milliseconds. Adjusting the wall clock during a solve does not affect it.",
 ["fault_sequences","schedules"],
 "Wall-clock jumps in both directions at any clock reading, stalls inside the output stream, preemption for arbitrary times.",
 "Tests ignore solve_time and cannot move the clock.",
 [A,AH],[("start and stop readings","%s: Solve, PrepareOutput"%A),("clock choice",AH)],[],["SolverOut.solve_time, printed time"])
p("C14","Every search direction solves the documented regularised Newton system",
 "Each Newton direction used by a solve satisfies, within floating-point backward error, the documented linear system at the current iterate, proximal centre, regularisation strength and penalty weight, and its margin part matches its primal part. This holds at every iterate any history or disturbance can lead to, and re-factorisation leaves nothing behind from earlier systems, for the dense and the Riccati factorisation alike.",
 ["inputs","histories","fault_sequences"],
 "Every Newton step of generated solves on reused linear solvers, including iterates reached through corrupted earlier steps, changed options and failed factorisations.",
 "Component tests are disabled in the build; the enabled tests see only final answers.",
 [C+"dense_cholesky_solver.cc",C+"riccati_linear_solver.cc",C+"mpc_data.cc",C+"dense_data.cc"],
 [("condensing and factorisation",C+"dense_cholesky_solver.cc, "+C+"riccati_linear_solver.cc")],[("factors, gamma, mu","state of the last factorisation","linear solvers")],["linear-solver component boundary (template parameter of the algorithm)"])
p("C15","The MPC and dense front ends are interchangeable replicas",
 "An optimal control problem given to the MPC solver, and the same problem written out as a dense QP and given to the dense solver, receive the same verdict, and when it is Success both points are optimal for it and agree on the unique minimiser; isolated instances on which one iteration cycles numerically are excepted, a disagreement shared by neighbouring instances is not. A group of replicas running either front end over the same sequence of problems, with restarts and different warm starts, thus never disagree on the control applied.",
 ["inputs","histories","fault_sequences"],
 "Generated optimal control problems (feasible, infeasible, time-varying), replica groups with crashes, lost warm starts and delayed inputs.",
 "Tests check each front end separately on different problems.",
 [M,MC,D,DC,C+"mpc_data.cc",C+"riccati_linear_solver.cc",C+"dense_cholesky_solver.cc"],[("stage-wise operators",C+"mpc_data.cc"),("shared algorithm",A)],[],["exit flags and returned z"])
p("C16","Receding-horizon control survives lossy networks, crashes and stale warm starts",
 "A controller that repeatedly solves an MPC problem from the latest measurement, warm started from whatever it has, returns at every step either a certified optimal plan or an honest non-Success, so the first input applied never violates the input limits when Success was reported. From a moderate state and warm start every step succeeds, even when input limits or the target change on the way, and once message loss, crashes, corrupted warm starts and disturbances stop, at most one more step is refused and the plant is brought to its target within a bounded number of steps.",
 ["fault_sequences","schedules","crash_points","histories"],
 "Event-driven simulation of plant, sensor, controller, network and warm-start storage; loss, duplication, reordering, delay, partition, controller crash and restart, torn or stale stored warm starts, plant disturbances, derated actuators, moving targets.",
 "Tests solve single open-loop problems from zero.",
 [M,MC,A],[("warm starting","%s: CopyIntoVariable"%A),("mapped problem data and x0","%s: ProblemDataRef"%M)],[],["applied inputs, plant state, per-step certificates"])
p("C17","Matrix sequences and problem containers behave as values",
 "Copies of a matrix sequence are deep and independent, views alias the memory they were made from, element access maps index (i,j,k) to column-major storage and out-of-range or invalid arguments throw without side effects. A copy, assignment or construction that fails for lack of memory leaves a consistent object whose reported dimensions never exceed the memory it holds.",
 ["histories","fault_sequences"],
 "Random sequences of construct, copy, move, assign, view, write and destroy on a set of sequences, against a simple reference model, with allocation failures injected at any allocation.",
 "Tests only construct and fill sequences.",
 ["tools/matrix_sequence.h","tools/copyable_macros.h",D,M,DC,MC],[("defaulted copy and move","tools/copyable_macros.h"),("constructor and index checks","tools/matrix_sequence.h")],[("N_, nr_, nc_, nel_, data_","shape and storage","MatrixSequence")],["public accessors"])
p("C18","Badly sized inputs are rejected with an exception and no side effects",
 "Constructing a solver with inadmissible sizes, or solving with data, sequences or variables whose sizes are inconsistent with each other or with the solver, throws a runtime error before anything is modified, printed or retained. The solver, the caller's variable and later calls are unaffected.",
 ["inputs","histories"],
 "Every single-field and multi-field size mutation of problem data and variables, owned and mapped, interleaved with valid solves on the same objects.",
 "Tests never pass inconsistent sizes.",
 [D,DC,M,MC,C+"dense_data.h",C+"mpc_data.cc"],[("size validation","%s: ValidateInputs; %s: ValidateInputSizes; %smpc_data.cc: ValidateInputs"%(D,M,C))],[],["exceptions, caller's buffers, following solves"])
p("C19","Problem operators compute what they document, for all scalings and callers",
 "The operators of the dense and MPC problem data compute y <- a*M*x + b*y (M = H, A, A', G, G') and y <- a*w + y (w = f, h, b) to rounding for every a and b, ignore what y held when b is 0, and the forcing norm is ||(f,h,b)||. They change neither their argument nor the problem data, also when several threads use one data object at once, on any heap contents, and after calls that ran out of memory. The MPC operators reject null and wrongly sized vectors with a runtime_error and leave them untouched.",
 ["inputs","histories","schedules","fault_sequences"],
 "All problem sizes and storage flavours (owned, mapped, guard-separated, mapped sequences), all scalars including 0, 1 and -1, all vectors, all interleavings of threads sharing one data object, failing allocations.",
 "The component tests that touch a few operators are disabled, with a = 1 or -1; scalings the solvers never use were wrong without any test noticing.",
 [C+"mpc_data.cc",C+"dense_data.cc",C+"mpc_data.h",C+"dense_data.h",C+"abstract_components.h"],
 [("stage-wise operators",C+"mpc_data.cc: gemvH, gemvA, gemvG, gemvGT, gemvAT, axpyf, axpyh, axpyb"),("dense operators",C+"dense_data.cc")],
 (),["operator results, arguments and problem data"])
p("C21","Iterates, residuals and certificate tests keep their documented meaning",
 "Through any sequence of operations on variables, the margin of a variable stays y = b - Az to rounding, copies are exact and independent, sums, fills, projections and norms are what they say, and nothing but the target of an operation changes. Inner, natural and penalised residuals equal their definitions for the alpha, centre and sigma given last, and all reported norms and the merit belong to the residual held now; the certificate test answers exactly according to its tolerance. Every one of these operations without linked problem data fails with a runtime_error.",
 ["inputs","histories","schedules","fault_sequences"],
 "All sequences of operations over several variables, residuals and checkers that share or switch problem data, from one or several threads, with allocations failing in between; all tolerances including those right at a threshold.",
 "No enabled test uses these classes directly; a solve from a fresh object exercises a single fixed order of operations at a handful of points.",
 [C+"full_variable.cc",C+"full_residual.cc",C+"full_feasibility.cc"],
 [("margin update",C+"full_variable.cc: axpy, Fill, InitializeConstraintMargin"),("cached norms",C+"full_residual.cc"),("certificate conditions",C+"full_feasibility.cc: CheckFeasibility")],
 [("y","inequality margin","FullVariable"),("znorm/lnorm/vnorm","cached norms","FullResidual")],["accessors of the three classes"])
p("C20","The sparse LDL wrapper stores and converts its types faithfully",
 "Sparse matrices and factorisations passed through the sparse LDL wrapper keep their values and dimensions and own their memory exactly once.",
 ["inputs"],"All sparse matrices.","Not built by the project.",
 ["tools/qdldl/qdldl_wrapper.h","tools/qdldl/qdldl_types.h"],[("wrapper types","tools/qdldl")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
