"""Per-property exploration budgets: (number of runs, cap in seconds)."""
ASSUMPTIONS = [
    "MUMPS, BLAS/LAPACK and the C++ runtime behave as documented apart from the faults injected",
    "the simulated user functions are deterministic unless a fault is scheduled",
    "single-threaded BLAS; one simulated thread runs at any time (sequential consistency)",
]
Q = (24000, 80)
TH = (600000, 2400)
PROPS = {
    "C01": dict(quick=Q, thorough=TH,
                rule="Seeds draw one of 30 problem families, a swarm of 0-8 algorithm options, and (in about half of the runs) failing or non-finite evaluations, linear-solver faults, slow evaluations with time limits, or a user stop."),
    "C02": dict(quick=Q, thorough=TH,
                rule="Seeds draw a problem, options, iteration/CPU/wall-clock limits and the simulated cost of every evaluation and factorisation (including clock jumps), with evaluation and linear-solver faults."),
    "C03": dict(quick=Q, thorough=TH,
                rule="Seeds draw a problem biased towards the restoration phase, options, and the callback occurrence at which the user stops, with evaluation faults."),
    "C04": dict(quick=Q, thorough=TH,
                rule="Seeds draw a problem (fixed variables under every treatment, scaling, relaxed bounds, dependent constraints), options, faults and optionally a re-optimisation."),
    "C05": dict(quick=Q, thorough=TH,
                rule="Seeds draw a problem, options and a schedule of failing / NaN / infinite evaluations of f, grad f, g, jac g and the Hessian; the live iterate is inspected in every iteration."),
    "C06": dict(quick=Q, thorough=TH,
                rule="Seeds draw a problem, index style, constant-derivative and approximation options, warm starts, evaluation faults, stops and re-optimisation; every callback is checked against the protocol model."),
    "C19": dict(quick=Q, thorough=TH,
                rule="Seeds draw a problem, options and evaluation faults; every iteration report is recomputed from the live iterate."),
    "C12": dict(quick=(16000, 80), thorough=TH,
                rule="Seeds draw a problem, scaling, treatment of fixed variables, options, faults and how often, in which order and with which subset of outputs the iterate is inspected; each run compares a solve with and without inspection."),
    "C15": dict(quick=(20000, 80), thorough=TH,
                rule="Seeds draw a problem, options, simulated costs and jumps of the wall and CPU clocks, faults, exceptions and up to three further solves with the same application; after each solve the statistics are compared with the recorded history."),
    "C08": dict(quick=(9000, 90), thorough=TH,
                rule="Seeds draw a problem, options, a fault schedule and a history (solves of other problems, in the same and in other applications, some stopped or ended by exceptions, contents of fresh, freed and stack memory, clock, state of drand48); the recorded behaviour must equal that of a first solve in a fresh process, bit by bit; re-optimisations with changed data must equal a first optimisation of the changed problem."),
    "C09": dict(quick=(2400, 85), thorough=(60000, 2400),
                rule="Seeds draw two to four users (problem, options, faults, stops, exceptions, number of solves), the scheduler seed and the mean distance of preemptions (1 to 100000 basic blocks); every user runs in a simulated thread of its own and must behave exactly as when run alone."),
    "C13": dict(variants=["sim", "asan"], quick={"sim": (4000, 45), "asan": (1200, 55)}, thorough={"sim": (200000, 1500), "asan": (50000, 1500)},
                rule="Seeds draw a scenario of another property (problem, options, failing allocations, exceptions, faults, histories, threads, interfaces), executed with tracking of all allocations and, in a second build, under the address and undefined-behaviour sanitizers."),
    "C14": dict(quick=(12000, 90), thorough=TH,
                rule="Seeds draw a problem, options and a schedule of linear-solver faults (failed calls, singularity, wrong inertia, NaN or perturbed solutions, memory shortage) in one of six modes, followed by a further solve with the same application."),
    "C11": dict(quick=(9000, 90), thorough=TH,
                rule="Seeds draw a problem, options, print levels of console, file and stream journals, output options, faults and user stops; each run compares a solve with output with one without, and the text with the recorded history."),
    "C07": dict(quick=(12000, 90), thorough=TH,
                rule="Seeds draw a problem, options, and the occurrences at which user functions throw (five kinds of exception), memory allocations fail, or the user stops; the status, the propagation of the exception and the next solve with the same application are judged."),
    "C10": dict(quick=(16000, 80), thorough=TH,
                rule="Seeds draw sequences of up to 30 operations on an option list (typed and string setters, getters with prefixes, option files read from files, streams that fail, directories, enumeration, printing, clobber protection, copies, the documented table) with failing allocations and I/O errors, executed against a reference model of the option list; at the end the options act in a solve."),
    "C17": dict(quick=(8000, 80), thorough=TH,
                rule="Seeds draw a problem and a history on one problem handle (creation, valid and invalid options, scaling, callback changes, output files, up to four solves, inspections inside and outside of the callback, NULL outputs, invalid creations, throwing callbacks), executed through the C or the Fortran interface and through the C++ interface; all recorded behaviour must agree bit by bit."),
    "C16": dict(quick=(24000, 60), thorough=TH,
                rule="Seeds draw a problem, starting point, multipliers and initialisation options (first iterate against a reference model), or the iterations at which a solve is stopped and how it is restarted (same, fresh application, re-optimisation, warm or cold)."),
    "C18": dict(quick=(16000, 60), thorough=TH,
                rule="Seeds draw a problem, options of the derivative test, wrong or misplaced derivative entries, failing evaluations during the test, or finite-difference approximations; the report is compared with a reference model and the solve with one without test."),
    "C20": dict(quick=(16000, 75), thorough=TH,
                rule="Seeds draw a convex problem with interior point, an option set, and an isolated failure or a transient fault sequence of evaluations and linear solver; all solves must reach the optimal value once faults stop."),
    "C21": dict(quick=(9000, 75), thorough=TH,
                rule="Seeds draw a problem extended by parameters that enter objective and constraints, perturbations, scaling, sIPOPT options (several steps, sensitivity matrix, bound check, residuals, reduced Hessian), solver options, limits, stops, evaluation and linear-solver faults; the results are compared with a dense extended-precision solution of the linearised optimality conditions and with a solve without sIPOPT."),
}
NOT_CLAIMED = {}
