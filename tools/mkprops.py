#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

A = "src/Algorithm/"; I = "src/Interfaces/"; C = "src/Common/"; L = "src/Algorithm/LinearSolvers/"

p("C01", "The return status and the returned point tell the truth",
  "Whenever a solve reports success, an acceptable point or a feasible point, the returned point, multipliers and objective satisfy, recomputed from the user's functions in the user's coordinates, the documented optimality, feasibility and complementarity tolerances up to the documented bound relaxation. Infeasible, diverging, iteration-limit, time-limit, too-few-degrees-of-freedom, invalid-definition and invalid-number statuses are reported only when the documented condition really holds.",
  ["inputs", "configurations", "fault_sequences"], "For every problem, option combination and sequence of failing evaluations, linear-solver faults, delays and user stops.",
  "The tests solve a handful of well-behaved problems to optimality and do not recompute optimality conditions; failure statuses and their combination with scaling, fixed variables, restoration and faults are not reached.",
  [A + "IpOptErrorConvCheck.cpp", A + "IpIpoptAlg.cpp", A + "IpIpoptCalculatedQuantities.cpp", A + "IpRestoMinC_1Nrm.cpp", I + "IpIpoptApplication.cpp", I + "IpTNLPAdapter.cpp"],
  [("convergence tests against tol, dual_inf_tol, constr_viol_tol, compl_inf_tol and the acceptable level", A + "IpOptErrorConvCheck.cpp CheckConvergence"),
   ("translation of solver returns to application status", I + "IpIpoptApplication.cpp call_optimize"),
   ("unscaling of point and multipliers", A + "IpOrigIpoptNLP.cpp FinalizeSolution, " + I + "IpTNLPAdapter.cpp FinalizeSolution")],
  observe=["return value of OptimizeTNLP", "finalize_solution"])

p("C02", "Iteration and time limits bound every solve",
  "A solve never performs more than max_iter iterations, never starts another iteration once the CPU or wall-clock time spent exceeds the configured limit, and reports the corresponding limit status with the latest iterate when it stops for that reason. Apart from user code, every solve makes progress and ends within a bounded amount of work.",
  ["inputs", "configurations", "schedules", "fault_sequences"], "For every problem, limit values, cost of every evaluation and factorisation, clock jump and fault sequence, including limits hit inside the restoration phase.",
  "Tests use the real clock and never reach a limit inside restoration, during slow evaluations or under clock jumps.",
  [A + "IpOptErrorConvCheck.cpp", A + "IpRestoMinC_1Nrm.cpp", A + "IpRestoConvCheck.cpp", A + "IpBacktrackingLineSearch.cpp", A + "IpPDPerturbationHandler.cpp", "src/Common/IpUtils.cpp"],
  [("limit checks in every convergence test", A + "IpOptErrorConvCheck.cpp CheckConvergence"), ("remaining time handed to the restoration phase", A + "IpRestoMinC_1Nrm.cpp PerformRestoration")],
  observe=["return status", "intermediate_callback", "callbacks invoked after the limit"])

p("C03", "A user stop is honoured promptly and cleanly",
  "When the intermediate callback returns false in any iteration and mode, no further iteration is reported, only the evaluations needed to report the final point follow, the solve ends with User_Requested_Stop and the final-solution callback delivers the iterate at which the user stopped.",
  ["inputs", "configurations", "crash_points", "fault_sequences"], "For every problem, option set and iteration (regular or restoration phase) at which the stop is requested, also combined with failing evaluations.",
  "No test requests a stop; stops inside restoration phases and after watchdog or acceptable points need specific trajectories.",
  [A + "IpIpoptAlg.cpp", A + "IpOptErrorConvCheck.cpp", A + "IpRestoMinC_1Nrm.cpp", A + "IpOrigIpoptNLP.cpp"],
  [("callback and USER_STOP in the convergence check", A + "IpOptErrorConvCheck.cpp CheckConvergence"), ("RESTORATION_USER_STOP propagation", A + "IpRestoMinC_1Nrm.cpp PerformRestoration")],
  observe=["callbacks after the stop", "finalize_solution", "return status"])

p("C04", "The final-solution callback is delivered once and is self-consistent",
  "For every solve that gets past problem setup, finalize_solution is called exactly once, last, with a status that corresponds to the returned status, and objective and constraint values equal to the user's functions at the reported point. Fixed variables are reported at their value with multipliers that close the dual equation where documented, bounds hold as configured, and the reported point equals the last reported iterate.",
  ["inputs", "configurations", "fault_sequences", "histories"], "For every problem (fixed variables, scaling, dependent constraints), option set, fault sequence and number of successive solves.",
  "Tests look only at a few optimal solutions and never at the final report after failures, limits or re-optimisation.",
  [I + "IpTNLPAdapter.cpp", I + "IpIpoptApplication.cpp", A + "IpOrigIpoptNLP.cpp"],
  [("final resorting, projection and fixed-variable multipliers", I + "IpTNLPAdapter.cpp FinalizeSolution"), ("call on every exit path", I + "IpIpoptApplication.cpp call_optimize")],
  observe=["finalize_solution", "return status"])

p("C05", "Failing and non-finite evaluations are contained",
  "A user function that fails or returns NaN or infinity at a trial point makes the algorithm reject or repair that trial point; no iterate is ever accepted, reported or returned at which the objective or the constraints could not be evaluated. Failures that cannot be worked around end in the documented failure status; a solve never crashes, hangs or reports success because of them.",
  ["inputs", "configurations", "fault_sequences"], "For every problem, option set and schedule of failing evaluations of objective, gradient, constraints, Jacobian and Hessian.",
  "No test contains a failing evaluation.",
  [A + "IpBacktrackingLineSearch.cpp", A + "IpOrigIpoptNLP.cpp", I + "IpTNLPAdapter.cpp", A + "IpIpoptAlg.cpp", A + "IpRestoMinC_1Nrm.cpp", A + "IpFilterLSAcceptor.cpp"],
  [("Eval_Error raised for failed or non-finite values", A + "IpOrigIpoptNLP.cpp f/c/d/grad_f/jac_c/jac_d/h"), ("step reduction on evaluation errors", A + "IpBacktrackingLineSearch.cpp DoBacktrackingLineSearch")],
  observe=["intermediate_callback", "get_curr_iterate", "finalize_solution", "return status"])

p("C06", "User callbacks are invoked according to the documented protocol",
  "Callbacks get the announced dimensions, the user's variable order and index style, points within the bounds as relaxed, correct new_x and new_lambda flags, structure requests before value requests, and no calls outside a solve. Each callback is called only when the options require it (no Hessian under quasi-Newton, one evaluation of what is declared constant, no derivatives that are to be approximated), and the Hessian is requested with the multipliers and objective factor that belong to the current iterate.",
  ["inputs", "configurations", "histories", "fault_sequences"], "For every problem, style, option set, fault sequence and series of solves.",
  "Tests use callbacks that ignore the flags and never check what they are called with.",
  [I + "IpTNLPAdapter.cpp", I + "IpTNLPAdapter.hpp", A + "IpOrigIpoptNLP.cpp", I + "IpTNLP.hpp"],
  [("update_local_x / update_local_lambda and the new_x/new_y logic", I + "IpTNLPAdapter.cpp"), ("caching of function values per iterate", A + "IpOrigIpoptNLP.cpp")],
  observe=["arguments and order of all TNLP callbacks"])

p("C07", "Exceptions and exhausted memory are contained and the application stays usable",
  "An exception thrown by any user callback or an allocation failure at any point of a solve never escapes or crashes the process but yields the documented exception or memory status (or a status that the algorithm documents for the situation), and the same application object then solves further problems as if nothing had happened.",
  ["inputs", "crash_points", "fault_sequences", "histories"], "For every callback and call number that throws, every kind of exception, every allocation that fails, and every later solve with the same application.",
  "Tests never throw and never run out of memory.",
  [I + "IpIpoptApplication.cpp", I + "IpTNLPAdapter.cpp", A + "IpIpoptAlg.cpp", C + "IpSmartPtr.hpp"],
  [("catch clauses around initialisation and optimisation", I + "IpIpoptApplication.cpp OptimizeNLP/call_optimize")],
  observe=["return status", "outcome of the next solve"])

p("C08", "Solves are deterministic and independent of process history",
  "With the same problem and options, a solve makes the same sequence of callbacks with bitwise identical arguments and returns the same result, no matter what memory contained before, when the solve starts, what other solves ran before in the process or with the same application object, and whether it is a first optimisation or a re-optimisation.",
  ["inputs", "configurations", "histories", "fault_sequences"], "For every problem, option set, heap content, clock value and history of earlier (successful, failed or aborted) solves.",
  "Tests run each problem once and only compare the end result.",
  [A + "IpIpoptAlg.cpp", I + "IpIpoptApplication.cpp", I + "IpTNLPAdapter.cpp", A + "IpOrigIpoptNLP.cpp", A + "IpLimMemQuasiNewtonUpdater.cpp", L + "IpMumpsSolverInterface.cpp", A + "IpFilterLSAcceptor.cpp"],
  [("initialisation of every strategy object per solve", "InitializeImpl of the strategy objects in src/Algorithm"), ("cache keyed by object tags", C + "IpCachedResults.hpp, " + C + "IpTaggedObject.hpp")],
  observe=["hash over all callbacks and results"])

p("C09", "Concurrent solves do not influence each other",
  "Several solves that run at the same time in different threads with separate application objects each make the same callbacks and return the same results as if run alone, for every interleaving, while the sequential linear solver is never entered by two threads at once.",
  ["schedules", "inputs", "configurations", "fault_sequences"], "For every interleaving of the threads at basic-block granularity, every mix of problems and options, and faults in one of them.",
  "The only concurrency test runs one mix of problems once under the operating system's schedule.",
  [L + "IpMumpsSolverInterface.cpp", C + "IpReferenced.hpp", C + "IpCachedResults.hpp", C + "IpTaggedObject.cpp", C + "IpDebug.cpp", I + "IpIpoptApplication.cpp"],
  [("global MUMPS mutex", L + "IpMumpsSolverInterface.cpp"), ("thread-local tag counter", C + "IpTaggedObject.cpp")],
  observe=["hash over callbacks and results per thread", "entries into MUMPS"])

p("C10", "The options registry stores exactly what was validly set",
  "Every option setting through any interface, file or stream is accepted exactly if name, type and value are valid for the documented option, and a rejected or clobber-protected setting leaves all options unchanged. Reading returns the last accepted value, or the documented default if none was set, with prefixed settings taking precedence, and option files with comments, quotes and truncated, failing or malformed content have exactly the documented effect.",
  ["histories", "inputs", "fault_sequences"], "For every sequence of set, unset, read, file and print operations and every (also damaged) option file.",
  "The options test only prints the documentation.",
  [C + "IpOptionsList.cpp", C + "IpRegOptions.cpp", I + "IpIpoptApplication.cpp"],
  [("value validation", C + "IpRegOptions.cpp"), ("tokenizer and option list", C + "IpOptionsList.cpp")],
  observe=["Set*/Get* results", "Initialize(params_file/istream)", "PrintList/PrintUserOptions"])

p("C11", "Output is passive and complete",
  "Print level, console, output files, printing frequency and info strings never change the callbacks, iterates or results of a solve, also when the output file cannot be opened or writing fails. What is printed agrees with what happened: the iteration lines, the final summary and the exit message match the iterates and status, and output that was requested in a file is there when the solve has ended.",
  ["inputs", "configurations", "fault_sequences"], "For every problem, print option set, and file-system fault (open failure, short writes, full disk).",
  "Tests discard output or look at it by eye.",
  [C + "IpJournalist.cpp", A + "IpOrigIterationOutput.cpp", A + "IpRestoIterationOutput.cpp", I + "IpIpoptApplication.cpp"],
  [("journalist and file journals", C + "IpJournalist.cpp"), ("iteration output", A + "IpOrigIterationOutput.cpp")],
  observe=["hash over callbacks and results", "bytes written to console and file"])

p("C12", "Live inspection is correct and passive",
  "In every intermediate callback and in the final callback the current iterate and its violations can be obtained, scaled or unscaled; the values are those of the current iterate in the user's order and agree with the reported objective, infeasibilities, the user's functions and bounds, and the scaling in force. Asking for them any number of times changes nothing in the course of the solve, and outside a solve the request is refused.",
  ["inputs", "configurations", "schedules", "fault_sequences"], "For every problem, option set, iteration and mode, and any pattern of inspection calls.",
  "The only test inspects three fixed problems.",
  [I + "IpTNLP.cpp", I + "IpTNLPAdapter.cpp", A + "IpRestoIpoptNLP.cpp"],
  [("get_curr_iterate / get_curr_violations", I + "IpTNLP.cpp"), ("ResortX/ResortG/ResortBoundMultipliers", I + "IpTNLPAdapter.cpp")],
  observe=["TNLP::get_curr_iterate", "TNLP::get_curr_violations"])

p("C13", "No memory errors and no leaks, whatever happens",
  "No sequence of solves, faults, stops, exceptions and option choices makes the solver read or write invalid memory or execute undefined behaviour; once the application and problem objects are released, all memory and linear-solver instances obtained during the solves have been released.",
  ["inputs", "configurations", "fault_sequences", "histories"], "For every problem, option set, fault sequence and solve history, with every exit path.",
  "Tests run without sanitizers on fault-free paths.",
  [A + "IpIpoptAlg.cpp", I + "IpTNLPAdapter.cpp", L + "IpMumpsSolverInterface.cpp", "src/LinAlg/IpDenseVector.cpp", C + "IpSmartPtr.hpp", I + "IpStdCInterface.cpp"],
  [("reference counting", C + "IpSmartPtr.hpp"), ("destructors of adapters and linear solver interfaces", I + "IpTNLPAdapter.cpp, " + L + "IpMumpsSolverInterface.cpp")],
  observe=["address and undefined-behaviour sanitizers", "live allocations after release"])

p("C14", "Linear-solver failures are absorbed or reported, never mistaken for success",
  "When the linear solver reports lack of memory, singularity, wrong inertia, an internal error or returns an inaccurate or invalid solution, the solve retries, regularises, falls back or fails with a documented status; a success status still satisfies its meaning, and transient faults do not prevent the solve of a well-posed convex problem. No fault leads to an endless loop or a crash.",
  ["fault_sequences", "inputs", "configurations"], "For every problem, option set, and schedule and kind of linear-solver failure.",
  "Linear solver failures do not occur in the tests.",
  [L + "IpMumpsSolverInterface.cpp", L + "IpTSymLinearSolver.cpp", A + "IpPDFullSpaceSolver.cpp", A + "IpPDPerturbationHandler.cpp", A + "IpLowRankAugSystemSolver.cpp", A + "IpStdAugSystemSolver.cpp"],
  [("retry with more memory", L + "IpMumpsSolverInterface.cpp Factorization"), ("inertia correction", A + "IpPDPerturbationHandler.cpp"), ("iterative refinement and residual checks", A + "IpPDFullSpaceSolver.cpp")],
  observe=["return status", "iterates", "work done"])

p("C15", "Statistics count what happened",
  "After every solve the statistics report exactly the number of iterations and of evaluations of each user function that took place, the objective and infeasibilities of the reported point, and times that equal the time elapsed on the clocks during the solve; they never mix in values of an earlier solve.",
  ["inputs", "configurations", "histories", "fault_sequences"], "For every problem, option set, fault sequence, clock behaviour and series of solves.",
  "No test reads the statistics.",
  [I + "IpSolveStatistics.cpp", A + "IpOrigIpoptNLP.cpp", A + "IpTimingStatistics.hpp", C + "IpTimedTask.hpp", I + "IpIpoptApplication.cpp"],
  [("evaluation counters", A + "IpOrigIpoptNLP.cpp"), ("SolveStatistics constructor", I + "IpSolveStatistics.cpp")],
  observe=["IpoptApplication::Statistics"])

p("C16", "Stopping and restarting loses nothing",
  "A solve stopped after any iteration and started again from the reported primal-dual point, in a new or the same application, reaches the same quality of result as the uninterrupted solve; a warm start from an optimal point terminates within a few iterations at that point. Starting point, multipliers and warm-start data given by the user are the ones the first iterate is computed from.",
  ["crash_points", "inputs", "configurations", "histories"], "For every well-posed problem, every iteration at which the solve is stopped, and every number of restarts.",
  "No test stops or warm-starts a solve.",
  [A + "IpWarmStartIterateInitializer.cpp", A + "IpDefaultIterateInitializer.cpp", I + "IpTNLPAdapter.cpp", I + "IpIpoptApplication.cpp"],
  [("warm start initialisation", A + "IpWarmStartIterateInitializer.cpp"), ("GetStartingPoint", I + "IpTNLPAdapter.cpp")],
  observe=["finalize_solution", "first intermediate_callback of the restart"])

p("C17", "All language interfaces give the same solve",
  "The same problem with the same options solved through the C or Fortran interface makes the same sequence of callbacks with the same arguments and delivers the same status, point, multipliers and objective as through the C++ interface, including user stops, failing evaluations, scaling, the intermediate callback and its inspection functions; invalid calls are refused.",
  ["inputs", "configurations", "fault_sequences", "histories"], "For every problem, option set, fault schedule and call sequence of the C and Fortran interfaces.",
  "Tests of the C and Fortran interfaces solve one fixed problem each.",
  [I + "IpStdCInterface.cpp", I + "IpStdInterfaceTNLP.cpp", I + "IpStdFInterface.c"],
  [("adapter from C callbacks to TNLP", I + "IpStdInterfaceTNLP.cpp"), ("Fortran wrappers", I + "IpStdFInterface.c")],
  observe=["callback sequence and results per interface"])

p("C18", "The derivative checker reports exactly the wrong derivatives",
  "With the derivative test enabled, every derivative entry that deviates by more than the tolerance from the finite difference at the perturbed starting point, and every entry of the wrong position, is reported, correct derivatives are not, and the test neither changes the subsequent solve nor fails when evaluations fail. Derivatives approximated by finite differences agree with the true ones to the documented accuracy.",
  ["inputs", "configurations", "fault_sequences"], "For every problem, single or multiple corrupted derivative entries, test options and failing evaluations.",
  "The derivative test is not part of any test.",
  [I + "IpTNLPAdapter.cpp"],
  [("CheckDerivatives", I + "IpTNLPAdapter.cpp"), ("finite-difference Jacobian and gradient", I + "IpTNLPAdapter.cpp")],
  observe=["journal output of the test", "callbacks"])

p("C19", "Iteration reports describe the true iterate",
  "Every intermediate callback reports a consecutive iteration number, the right mode, and the objective, primal and dual infeasibility, barrier parameter, step sizes, regularisation and line-search trials that belong to the current iterate as recomputed from the user's functions and the live iterate.",
  ["inputs", "configurations", "fault_sequences"], "For every problem, option set, fault sequence and iteration.",
  "No test compares the reported numbers with anything.",
  [A + "IpOptErrorConvCheck.cpp", A + "IpIpoptAlg.cpp", A + "IpRestoMinC_1Nrm.cpp", A + "IpIpoptCalculatedQuantities.cpp", A + "IpOrigIpoptNLP.cpp"],
  [("IntermediateCallBack with the values of the iterate", A + "IpOrigIpoptNLP.cpp"), ("info fields", A + "IpIpoptData.hpp")],
  observe=["intermediate_callback", "get_curr_iterate"])

p("C20", "Well-posed problems are solved and solves recover once faults stop",
  "Convex problems with an interior point and bounded solution set are solved to optimality under every supported algorithm option within a bounded number of iterations; if transient evaluation or linear-solver faults occur and then cease, the solve still ends at a point of the same optimal value or with a documented failure status, and a fresh solve succeeds.",
  ["inputs", "configurations", "fault_sequences"], "For every well-posed convex problem, option set, and finite fault sequence.",
  "Tests cover a handful of problems with default options.",
  [A + "IpIpoptAlg.cpp", A + "IpBacktrackingLineSearch.cpp", A + "IpFilterLSAcceptor.cpp", A + "IpAdaptiveMuUpdate.cpp", A + "IpMonotoneMuUpdate.cpp", A + "IpPDSearchDirCalc.cpp", A + "IpLimMemQuasiNewtonUpdater.cpp"],
  [("filter line search with restoration", A + "IpBacktrackingLineSearch.cpp"), ("barrier update", A + "IpMonotoneMuUpdate.cpp, " + A + "IpAdaptiveMuUpdate.cpp")],
  observe=["return status", "objective value", "iteration count"])

p("C21", "Sensitivities and reduced Hessians of sIPOPT are those of the solution",
  "For a problem with parameters, sIPOPT returns for every requested perturbation the solution of the optimality conditions linearised at the reported solution (in the user's space, under every scaling; with bound check, with the variables and multipliers that would leave their bounds fixed at them), the sensitivity matrix and the reduced Hessian and its eigenvalues likewise; it reports the same solution once that a solve without it reports, computes nothing after a failed solve, and always terminates.",
  ["inputs", "configurations", "fault_sequences"], "For every problem, set of parameters and perturbations, option set, limit, stop, and evaluation or linear-solver fault during or after the solve.",
  "The sIPOPT tests print the results of three small examples without comparing them with anything; scaling, bound checks with several steps, limits and failing backsolves do not occur.",
  ["contrib/sIPOPT/src/SensApplication.cpp", "contrib/sIPOPT/src/SensAlgorithm.cpp", "contrib/sIPOPT/src/SensStdStepCalc.cpp", "contrib/sIPOPT/src/SensMetadataMeasurement.cpp", "contrib/sIPOPT/src/SensIndexPCalculator.cpp", "contrib/sIPOPT/src/SensIndexSchurData.cpp", "contrib/sIPOPT/src/SensDenseGenSchurDriver.cpp", "contrib/sIPOPT/src/SensReducedHessianCalculator.cpp", "contrib/sIPOPT/src/SensSimpleBacksolver.cpp"],
  [("sensitivity step with bound check", "contrib/sIPOPT/src/SensStdStepCalc.cpp Step, BoundCheck"), ("reduced Hessian", "contrib/sIPOPT/src/SensReducedHessianCalculator.cpp"), ("postponed report of the solution", "contrib/sIPOPT/src/SensApplication.cpp Run")],
  observe=["finalize_metadata", "DirectionalD_*, SensitivityM_*", "printed reduced Hessian", "finalize_solution"])

if __name__ == "__main__":
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(v, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
