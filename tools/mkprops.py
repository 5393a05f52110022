#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "An optimal verdict is true of the data currently in the workspace",
 "Whenever a solve returns 'optimal' (or 'close to optimal'), the returned x, y, z, s satisfy, for the problem data the caller currently has in force, the primal and dual equations, the cone memberships and the duality-gap bound to within the full (respectively the reduced) tolerances in the settings, up to a modest fixed factor for internal scaling. "
 "This holds whatever happened before or during the solve: earlier solves, data and settings updates, SIGINT at any instant, an iteration limit of any value, or a transiently bad or failing linear solve.",
 ["histories","fault_sequences","inputs"], "every sequence of setup / settings / update / solve calls, every SIGINT instant and every sequence of transient linear-solver faults, over LP, second-order and exponential cones",
 "The tests solve fixed problems once from a fresh workspace and compare the exit code; they never look at a verdict reached after an interruption, after an update, from the best-iterate fallback, or with a bad search direction.",
 ["src/ecos.c","src/kkt.c","src/cone.c","src/expcone.c","src/equil.c","include/ecos.h"],
 [("exit tests on recomputed residuals and gap","src/ecos.c checkExitConditions/updateStatistics/computeResiduals"),("best-iterate fallback with reduced tolerances","src/ecos.c saveIterateAsBest/restoreBestIterate"),("back-scaling of the returned point","src/ecos.c backscale")],
 ["return code of ECOS_solve","w->x, w->y, w->z, w->s","w->info"],
 [("best iterate","fallback point and its statistics","src/ecos.c pwork best_*")])

prop("C02", "Infeasible and unbounded verdicts come with a valid certificate",
 "Whenever a solve returns 'primal infeasible' or 'dual infeasible / unbounded' (or the 'close to' variants), the returned vectors are a Farkas certificate (respectively an improving ray in the recession cone) for the data currently in force, to within the tolerance in the settings, and the verdict is never given for a problem that is strictly primal and dual feasible. "
 "Problems constructed to be robustly infeasible or unbounded are never reported optimal. This holds after any history of solves and updates, SIGINT at any instant, and transient linear-solver faults.",
 ["histories","fault_sequences","inputs"], "every sequence of operations, SIGINT instants and linear-solver faults, over feasible, infeasible and unbounded problems of all cone types",
 "The tests contain a handful of infeasible and unbounded problems, each solved once from a fresh workspace, and check only the exit flag, never the certificate.",
 ["src/ecos.c","src/cone.c","src/expcone.c","src/equil.c"],
 [("infeasibility measures pinfres / dinfres and their tests","src/ecos.c updateStatistics/checkExitConditions")],
 ["return code of ECOS_solve","w->x, w->y, w->z, w->s","w->info->pinf, dinf"])

prop("C03", "SIGINT stops a running solve promptly and leaves the workspace usable",
 "A SIGINT delivered at any instant while a solve is running makes that solve return within at most one further interior-point iteration, with either the interrupted code or a true verdict, and with a consistent iterate no worse than claimed; it is never ignored and never carried over to a later solve. "
 "After the interrupted solve the same workspace, with unchanged data and settings, solves to the same result as an uninterrupted workspace.",
 ["crash_points","schedules","histories"], "every instant of every solve at which the signal can arrive, single and repeated, followed by any further solves and updates",
 "No test delivers a signal; the interrupt path is dead code in the suite.",
 ["src/ecos.c","src/ctrlc.c","include/ctrlc.h"],
 [("handler flag polled every iteration","src/ctrlc.c check_ctrlc, src/ecos.c main loop")],
 ["return code of ECOS_solve","w->info->iter","result of the next ECOS_solve"],
 [("int_detected","SIGINT seen since the solve started","src/ctrlc.c")])

prop("C04", "The caller's SIGINT handling is restored on every exit",
 "After any library call returns, with any return code, the process's SIGINT disposition is exactly the one in force before the call; outside a running solve a SIGINT always reaches the application's own handler. "
 "A SIGINT that does not reach the application's handler has stopped the solve during which it arrived (for solves that do not overlap in time with a solve on another thread).",
 ["crash_points","histories","fault_sequences"], "every signal instant relative to the installation and removal of the handler, every exit path of a solve (verdict, iteration limit, numerical failure, slacks leaving the cone, factorization failure, interrupt) and any sequence of calls, including branch-and-bound",
 "No test inspects the signal disposition, and most exit paths are never taken by the suite.",
 ["src/ctrlc.c","src/ecos.c","ecos_bb/ecos_bb.c"],
 [("init_ctrlc / remove_ctrlc bracket","src/ctrlc.c, src/ecos.c ECOS_solve")],
 ["sigaction(SIGINT)","application handler invocations"],
 [("oact","saved disposition","src/ctrlc.c")])

prop("C05", "Concurrent use of separate workspaces does not interfere",
 "Client threads that each set up, solve, update and clean up their own workspaces (continuous or mixed-integer) obtain exactly the results they would obtain running alone, under every interleaving of the threads.",
 ["schedules","histories"], "every preemptive interleaving of two or more client threads at basic-block granularity, each running any sequence of operations on its own workspaces",
 "All tests are single-threaded and use one workspace at a time, so any hidden shared or static state is invisible.",
 ["src/ecos.c","src/kkt.c","src/spla.c","src/splamm.c","src/cone.c","src/preproc.c","src/equil.c","ecos_bb/ecos_bb.c","external/ldl/src/ldl.c","external/amd/src"],
 [("all solver state lives in the workspace","include/ecos.h pwork, include/kkt.h kkt, include/ecos_bb.h ecos_bb_pwork")],
 ["return codes, x, y, z, s, info of every operation"])

prop("C06", "Results depend only on the problem data and the settings",
 "For the same data, settings and sequence of calls, return codes and returned vectors are identical bit for bit whatever the memory allocator hands out (stale contents, placement, malloc(0) convention, reuse), however the clock advances, whether or not verbose printing is on, and whether or not writing to standard output succeeds.",
 ["fault_sequences","histories","configurations"], "every heap content and layout, clock behaviour, standard-output failure pattern and verbosity, over any sequence of calls on continuous and mixed-integer workspaces",
 "The tests run in one environment; a read of uninitialised memory or a dependence on time or printing happens to give the same answer there.",
 ["src/ecos.c","src/preproc.c","src/kkt.c","src/splamm.c","ecos_bb/ecos_bb.c","ecos_bb/ecos_bb_preproc.c","external/ldl/src/ldl.c"],
 [("workspace initialisation at setup and at the start of each solve","src/preproc.c ECOS_setup, src/ecos.c init, ecos_bb/ecos_bb.c initialize_root")],
 ["return codes, x, y, z, s, info of every operation"])

prop("C07", "Re-solving an updated workspace equals solving afresh",
 "After any sequence of solves, settings changes and data updates on a workspace (new arrays, the same arrays rewritten in place, single entries of c and h), including solves that were interrupted or failed, the next solve gives the same exit code, the same objective and an equally accurate point as a newly set-up workspace holding the same data and settings.",
 ["histories","fault_sequences"], "every history of operations and every failed or interrupted solve in it",
 "One test updates data once; none compares with a fresh workspace, repeats updates, mixes update styles, or updates after an interrupted or failed solve.",
 ["src/ecos.c","src/equil.c","src/kkt.c","src/preproc.c"],
 [("re-equilibration and KKT refresh on update","src/ecos.c ECOS_updateData, ecos_updateDataEntry_h/c, src/equil.c"),("re-initialisation at each solve","src/ecos.c init, src/kkt.c kkt_init")],
 ["return code, objective, x, y, z, s, iteration count"],
 [("PKPt","KKT matrix that must follow every data update","src/kkt.c")])

prop("C08", "The caller's data arrays are given back intact",
 "When a workspace is cleaned up, or its data are replaced by arrays stored elsewhere, the caller's G, A, c, h and b arrays hold the values the caller last put in them (up to rounding), whatever solves, interruptions, failures and updates happened in between; between solves the cost vector is never left scaled. "
 "The index arrays are never modified, and the mixed-integer interface never modifies the caller's G and h.",
 ["histories","fault_sequences"], "every history of operations, interruptions and failing solves between handing an array over and getting it back",
 "The tests never look at the input arrays after the solver has used them.",
 ["src/equil.c","src/ecos.c","src/preproc.c","ecos_bb/ecos_bb_preproc.c"],
 [("undo of the equilibration","src/equil.c unset_equilibration, src/ecos.c backscale, ECOS_updateData, src/preproc.c ECOS_cleanup")],
 ["contents of the caller's arrays"])

prop("C09", "Memory is neither leaked, overrun nor freed twice",
 "Over every history of operations ended by cleanup, all memory the library allocated is released exactly once, except precisely the first k of x, y, s, z that cleanup was asked to keep, which stay readable and can be freed by the caller; a solve or an update retains no memory. "
 "No call reads or writes outside its allocations, for any problem shape, iteration or node limit, interruption or failure.",
 ["histories","fault_sequences","inputs"], "every history of operations with interrupted and failing solves, every keep count, every problem shape including empty blocks",
 "The tests run without a leak checker, use keep count 0, and never clean up after an abnormal exit.",
 ["src/preproc.c","src/splamm.c","src/ecos.c","ecos_bb/ecos_bb_preproc.c","ecos_bb/ecos_bb.c"],
 [("allocation and release lists","src/preproc.c ECOS_setup/ECOS_cleanup, ecos_bb/ecos_bb_preproc.c ECOS_BB_setup/ECOS_BB_cleanup")],
 ["malloc/free ledger, redzones, AddressSanitizer"])

prop("C10", "A rejected setup fails cleanly",
 "Setup returns NULL, and does not crash, when the cone dimensions do not add up, when a constraint matrix has duplicate entries, or when memory runs out while the fill-reducing ordering is computed. "
 "After such a failure nothing the library allocated remains allocated, the caller's arrays hold their original values (up to rounding), and other workspaces and later setups are unaffected.",
 ["fault_sequences","inputs","histories"], "every allocation of the ordering phase failing, every dimension mismatch and duplicate entry, before, between and after successful setups",
 "The tests never make an allocation fail and contain no malformed problem whose aftermath is inspected.",
 ["src/preproc.c","external/amd/src/amd_order.c","src/equil.c"],
 [("dimension test and ordering result test","src/preproc.c ECOS_setup")],
 ["return value of ECOS_setup","malloc/free ledger","contents of the caller's arrays"])

prop("C11", "Branch-and-bound returns the true mixed-integer optimum",
 "When the mixed-integer solver reports an optimal solution, the returned point is integral, feasible, and within the gap tolerances of the true optimum; when it reports infeasible, no integer point exists; and on a bounded problem with enough iterations it does report one of the two, unless some node relaxation ends without a full-accuracy verdict. "
 "This holds for every branching strategy, node-selection method, random-number stream, and order in which the integer variables are listed.",
 ["schedules","configurations","inputs"], "every random-number stream and search order (strategy x node selection), over bounded mixed-integer problems with boolean, integer and continuous variables and all cone types",
 "The tests run a dozen fixed problems with default settings and the platform's rand(); correctness over search orders is not reached.",
 ["ecos_bb/ecos_bb.c","ecos_bb/ecos_bb_preproc.c","include/ecos_bb.h"],
 [("branching, bounding and pruning","ecos_bb/ecos_bb.c branch/get_bounds/get_next_node/should_continue"),("strong and reliability branching fixings","ecos_bb/ecos_bb.c check_infeasible_*_var"),("bound rows for integer variables","ecos_bb/ecos_bb_preproc.c socp_to_ecos_bb")],
 ["return code of ECOS_BB_solve","ecos_prob->x and objective"])

prop("C12", "An interrupted or failed relaxation never becomes a proof",
 "If SIGINT arrives at any instant of a mixed-integer solve, or a node relaxation breaks down numerically, the solver never reports infeasible unless no integer point exists, never reports optimal unless its point is feasible, integral and optimal within the gap tolerances, and never reports a feasible solution that is not feasible and integral. "
 "A SIGINT stops the mixed-integer search promptly, and a later solve of the same workspace is complete and correct.",
 ["crash_points","fault_sequences","schedules"], "every instant at which the signal arrives and every node relaxation that fails, under every strategy and random stream",
 "No test interrupts the tree search or makes a relaxation fail.",
 ["ecos_bb/ecos_bb.c","src/ecos.c","src/ctrlc.c"],
 [("treatment of relaxation exit codes","ecos_bb/ecos_bb.c get_bounds, strong_branch_*")],
 ["return code of ECOS_BB_solve","ecos_prob->x"])

prop("C13", "Branch-and-bound respects its node budget and reports it honestly",
 "With a budget of k nodes the search expands at most k nodes and always returns; a budget-limited exit says 'feasible' exactly when it returns an integral feasible point, whose objective and statistics are reported correctly, and 'no solution' otherwise; exits before the budget is exhausted are proofs, or follow a node relaxation that ended without a full-accuracy verdict. "
 "No budget value, strategy or random stream makes it write outside the storage sized by that budget.",
 ["configurations","schedules","inputs"], "every node budget from one upwards, every strategy, node selection and random stream, with and without an interruption",
 "The tests use the default budget of 1000 nodes, which is never reached.",
 ["ecos_bb/ecos_bb.c","ecos_bb/ecos_bb_preproc.c"],
 [("loop guard and exit code","ecos_bb/ecos_bb.c should_continue/get_ret_code"),("node storage","ecos_bb/ecos_bb_preproc.c ECOS_BB_setup")],
 ["return code of ECOS_BB_solve","prob->iter","ecos_prob->x"])

prop("C14", "Re-solving an updated mixed-integer workspace equals solving afresh",
 "After any sequence of mixed-integer solves (complete, budget-limited or interrupted) and updates of entries of h and c by the caller's own indices, the next solve reports the same status and optimal value as a newly set-up mixed-integer workspace with the same data.",
 ["histories","schedules"], "every history of solves, interruptions and entry updates, under every strategy and random stream",
 "One test updates one entry once on a problem without general integers; none compares with a fresh workspace.",
 ["ecos_bb/ecos_bb.c","ecos_bb/ecos_bb_preproc.c"],
 [("row offset of user constraints and re-initialisation of the tree","ecos_bb/ecos_bb.c updateDataEntry_h/c, initialize_root")],
 ["return code of ECOS_BB_solve","objective value"])

prop("C15", "Reported setup and solve times are those of the clock",
 "After setup and after every solve, on every exit path, the reported setup and solve times equal the time that elapsed on the monotonic clock during that call (up to negligible entry and exit work): non-negative, exact across second boundaries, and not influenced by wall-clock adjustments or by earlier calls.",
 ["schedules","fault_sequences","histories"], "every clock phase, rate, stall and wall-clock jump, every exit path, over any sequence of calls",
 "Tests read the real clock and cannot place a second boundary, a stall or a clock step inside a solve.",
 ["src/timer.c","src/ecos.c","src/preproc.c"],
 [("tic/toc difference with borrow","src/timer.c toc"),("timer bracket of setup and solve","src/preproc.c ECOS_setup, src/ecos.c ECOS_solve")],
 ["w->info->tsetup, w->info->tsolve"])

prop("C16", "Every solve terminates within its iteration limit and recovers after faults",
 "Every solve returns after at most the configured number of interior-point iterations and a bounded amount of work per iteration, whatever transient numerical faults, NaNs, signals or clock behaviour it meets. "
 "Once faults stop, the next solve of a well-posed problem on the same workspace succeeds with the same exit code as on a fresh one.",
 ["fault_sequences","histories","schedules"], "every sequence of linear-solver failures, perturbations and NaNs, interrupts and clock behaviour, every iteration limit including zero",
 "The tests never inject a fault into a solve, and never use an iteration limit other than the default.",
 ["src/ecos.c","src/kkt.c","src/cone.c"],
 [("iteration limit, stall and NaN exits, bounded refinement and backtracking","src/ecos.c ECOS_solve, expConeLineSearch, src/kkt.c kkt_solve")],
 ["return code, w->info->iter, simulated steps"])

prop("C17", "The reported statistics describe the returned point",
 "On every exit of a solve, including iteration limits, interruptions, numerical failures and best-iterate recovery, the reported primal and dual costs are those of the returned x and (y, z), the reported gap and residuals are those of the returned point, the reported infeasibility residuals, complementarity measure and kappa/tau belong to it, the infeasibility flags agree with the exit code, and the returned s and z lie in their cones (for an infeasibility or unboundedness verdict, the part of the point that makes up the certificate).",
 ["fault_sequences","crash_points","histories"], "every exit path, reached by interrupts, iteration limits and transient linear-solver faults at any instant, over any history",
 "The tests check exit codes of successful solves; statistics after abnormal exits and best-iterate recovery are never compared with the point returned.",
 ["src/ecos.c","src/equil.c","src/cone.c"],
 [("statistics saved and restored with the iterate","src/ecos.c saveIterateAsBest/restoreBestIterate, updateStatistics, backscale")],
 ["w->info","w->x, w->y, w->z, w->s"])

prop("C18", "Well-posed problems are decided",
 "On a problem that is strictly primal and dual feasible, with well-conditioned constraint matrices, a solve with the default accuracy and at least the default iteration limit that meets no fault returns 'optimal'; on a robustly infeasible or robustly unbounded problem it returns that verdict. "
 "This holds whatever the workspace went through before: earlier solves, small iteration limits, interruptions, failing linear solves, data updates. (With exponential cones, or with h, b or c of very different magnitudes, the method may stall or stop at reduced accuracy on single instances; there, not every small problem of one shape is left undecided.)",
 ["inputs","histories","fault_sequences"], "every well-posed problem of every cone mix, after every history of solves, limits, updates, interruptions and failures",
 "The tests solve a few dozen fixed problems on fresh workspaces; a loss of robustness, or state that survives an abnormal exit, shows on others.",
 ["src/ecos.c","src/kkt.c","src/cone.c","src/expcone.c","src/equil.c","src/preproc.c"],
 [("initial point, step lengths, centering and exit tests","src/ecos.c init, lineSearch, expConeLineSearch, checkExitConditions"),("regularised factorization and iterative refinement","src/kkt.c kkt_factor, kkt_solve"),("scalings","src/cone.c updateScalings, src/expcone.c")],
 ["return code of ECOS_solve"])

prop("C19", "The printed report tells the outcome that is returned",
 "With verbose printing on, what a solve prints agrees with what it returns, on every exit path: exactly one verdict, that of the exit code (for an aborted solve, that it was aborted); "
 "the accuracy printed with it is that of the reported statistics; one progress line per iterate, numbered from zero up to the reported iteration count; "
 "the line of the returned iterate (the last one, or the one named as recovered) shows the reported costs, gap, residuals, kappa/tau and complementarity measure; the printed runtime is the sum of the reported setup and solve times. "
 "A mixed-integer solve prints one line per node, numbered from zero, whose upper bound never rises, and its last line shows the node count and the bounds it ended with. With verbose off a solve prints nothing.",
 ["fault_sequences","histories","schedules"], "every exit path of every solve, in every history, with signals, failing linear solves, iteration and node limits, and failing writes",
 "No test reads the output, and none reaches the exits that report a recovered iterate.",
 ["src/ecos.c","ecos_bb/ecos_bb.c"],
 [("verdict and progress lines","src/ecos.c checkExitConditions, printProgress, ECOS_solve"),("progress of the tree search","ecos_bb/ecos_bb.c print_progress, ECOS_BB_solve")],
 ["standard output of ECOS_solve and ECOS_BB_solve","return codes, w->info"])

# --- not claimed: pure functions of their input, no schedule, clock, fault or history in them
prop("C90", "The fill-reducing ordering is a permutation",
 "For every symmetric sparsity pattern the ordering routine returns a permutation of the indices.",
 ["inputs"], "every sparsity pattern", "Only the patterns of the test problems are ordered.",
 ["external/amd/src"], [("AMD_order","external/amd/src/amd_order.c")], ["output of AMD_order"])
prop("C91", "The sparse LDL' factors reproduce the matrix",
 "For every quasi-definite sparse matrix the computed factors multiply back to the (regularised) matrix within rounding, and the triangular solves invert them.",
 ["inputs"], "every quasi-definite matrix and right-hand side", "Only the KKT systems of the test problems are factored.",
 ["external/ldl/src/ldl.c"], [("LDL_numeric2 and solves","external/ldl/src/ldl.c")], ["L, D and solution vectors"])
prop("C92", "Exponential-cone scalar functions are accurate",
 "The Wright omega function and the exponential-cone barrier gradient and Hessian are accurate to near machine precision over their whole domain.",
 ["inputs"], "every real argument in the domain", "Tests evaluate a few arguments.",
 ["src/wright_omega.c","src/expcone.c"], [("wrightOmega, evalExpGradient, evalExpHessian","src/wright_omega.c, src/expcone.c")], ["return values"])
prop("C93", "Sparse transpose and symmetric permutation preserve entries",
 "Transposing and symmetrically permuting a sparse matrix preserves every entry exactly once, and the index maps returned point to where each entry went.",
 ["inputs"], "every sparse matrix and permutation", "Only the matrices of the test problems are transposed and permuted.",
 ["src/splamm.c"], [("transposeSparseMatrix, permuteSparseSymmetricMatrix","src/splamm.c")], ["output matrices and maps"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sch)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
