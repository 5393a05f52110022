#!/usr/bin/env python3
# Source of /verif/MANIFEST.json.
import json, os
TECH = {
 "C01": "deterministic simulation: seeded histories with KKT/SIGINT faults; KKT-condition oracle in long double on the caller's own data",
 "C02": "deterministic simulation: seeded histories with KKT/SIGINT faults; Farkas-certificate oracle plus generated ground truth",
 "C03": "deterministic simulation: SIGINT at seeded instruction-level ticks; promptness, statistics and fresh-workspace oracles",
 "C04": "deterministic simulation: simulated process signal state, SIGINT and breakdown faults; disposition invariant after every call",
 "C05": "deterministic simulation: threads as coroutines switched at basic-block granularity by a seeded scheduler; bitwise non-interference against solo runs",
 "C06": "deterministic simulation: same plan in a hostile and a plain environment (heap, clock, stdout); bitwise comparison",
 "C07": "deterministic simulation: seeded histories with failing and interrupted solves; refinement against a fresh workspace",
 "C08": "deterministic simulation: seeded histories with faults; model of the caller's arrays",
 "C09": "deterministic simulation: simulated allocator with ledger, redzones and AddressSanitizer poisoning over seeded histories with faults",
 "C10": "deterministic simulation: allocation-failure and malformed-input injection around healthy workspaces; ledger and data model",
 "C11": "deterministic simulation: seeded search orders and random streams; enumeration of the generated MIP as reference",
 "C12": "deterministic simulation: SIGINT at seeded ticks and failing relaxations inside the tree search; enumeration reference",
 "C13": "deterministic simulation: seeded node budgets, orders and random streams; budget, exit-code and storage oracles",
 "C14": "deterministic simulation: seeded histories of mixed-integer solves, interruptions and updates; refinement against fresh workspace and enumeration",
 "C15": "deterministic simulation: simulated clocks with phases, stalls and steps; reported times against simulated time",
 "C16": "deterministic simulation: transient numerical faults; work bounds and bounded-step recovery against a fresh workspace",
 "C17": "deterministic simulation: every exit path forced by faults and limits; recomputation of the statistics from the returned point",
 "C18": "deterministic simulation: seeded histories with faults on well-posed problems of known ground truth; the next undisturbed solve must give the verdict",
 "C19": "deterministic simulation: every exit path forced by faults, signals and limits with the output recorded at the seam; the printed report against the returned code and statistics",
}
NOTE = {
 "C01": "Sampled, not exhaustive. Tolerances carry a fixed factor (12 on residuals, 4 on the gap, times the generated scaling spread); the gap test of the homogeneous iterate (not divided by tau^2) is a known finding.",
 "C02": "Sampled. Certificate residual factor 20; ground truth only for generated problems with an interior or a robust certificate; only the certificate half of the iterate is judged.",
 "C03": "Sampled instants. 'Promptly' is at most one more interior-point iteration; a signal in the entry or exit edge of the call, outside the handler's installation, is the application's.",
 "C04": "Sampled. Overlapping solves on several threads (shared static handler slot) are a known finding; everything else is an alarm.",
 "C05": "Threads are coroutines switched at basic-block edges, so word tearing and compiler/CPU reordering are not modelled; rand() is given one stream per thread.",
 "C06": "Comparison is bitwise over the explored environments; uninitialised reads are caught when the heap contents change a result.",
 "C07": "Compared where the fresh result itself is stable under rounding-level perturbations of the data; replaced-array 'mix' updates are covered by the solution oracle only.",
 "C08": "Equality up to 1e-10 relative; updates that replace only some of the arrays are excluded, as the interface gives no contract for them.",
 "C09": "The library's own allocations are tracked exactly; overreads are seen in the AddressSanitizer share, overruns in all runs.",
 "C10": "Every allocation of the ordering package can be failed; failures of other allocations crash (known finding).",
 "C11": "Problems are small (at most about 8 integer variables) so that enumeration is exact; unbounded general-integer problems are not required to finish.",
 "C12": "Same reference as C11. Faults corrupt linear solves, never the data or the residual evaluation, so a verdict of the relaxation at full accuracy is still a proof.",
 "C13": "Budgets from 1 to 30 nodes; storage checked by redzones, in a share of the runs also by AddressSanitizer.",
 "C14": "Same reference as C11 plus a fresh workspace.",
 "C15": "The clock advances per basic block and per reading; entry and exit work outside the measured interval is allowed for (30% of the undisturbed time).",
 "C16": "Bounds: iterations <= maxit, factorizations <= maxit+2, linear solves per iteration by the refinement limit, and a total step cap.",
 "C17": "Statistics are recomputed in long double; residual comparison is relative 1e-4, costs 1e-9.",
 "C18": "Sampled. Well-conditioned: eigenvalue ratio of the Gram matrices of [A;G] and A above 2e-3. Exponential-cone problems: up to 7 variables, and an alarm only if six other instances of the same shape are not decided either.",
 "C19": "Sampled. Verdict phrases, numbers, line numbers and bounds are parsed from the text; columns other than the statistics (step, centring, refinement and backtracking counts) are not judged.",
}
NA = {
 "C90": "Pure function of its input (a sparsity pattern): no schedule, clock, fault or history for a simulator to control.",
 "C91": "Pure function of its input (matrix and right-hand side): nothing for a simulator to schedule or fail.",
 "C92": "Pure scalar functions of their arguments: nothing for a simulator to schedule or fail.",
 "C93": "Pure function of its input (a sparse matrix): nothing for a simulator to schedule or fail.",
}
M = {"version": 1, "setup_cmd": "python3 simctl.py setup",
     "checks": [{"property": c, "quick_cmd": f"python3 simctl.py check {c} quick", "thorough_cmd": f"python3 simctl.py check {c} thorough", "technique": TECH[c], "level": "exploration", "level_note": NOTE[c]} for c in sorted(TECH)],
     "not_applicable": [{"property": c, "reason": NA[c]} for c in sorted(NA)],
     "notes": "No hooks in /repo: every seam is taken at link time (ld --wrap of libc and LDL entry points, compile-time renaming of AMD's allocator) and at compile time (-fsanitize-coverage=trace-pc as the scheduler's yield point). All commits in /repo are 'fix:' repairs, listed in known_findings.txt. See DESIGN.md."}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(M, open(p, "w"), indent=1)
