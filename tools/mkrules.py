#!/usr/bin/env python3
# Source of /verif/rules.json: how a case of each check is made and what makes it non-trivial.
import json, os
CONT = "One case = one seeded plan: generated conic problems (LP/SOC/exponential cones, equality constraints, varied sparsity and scaling) with known ground truth, a history of setup/settings/update/solve/cleanup operations on one or two workspaces, an environment (heap contents and layout, clock phase and rate) and a fault list (factorisation failures, perturbed or non-finite KKT solutions, SIGINT at a basic-block tick or before an intercepted call). "
BB = "One case = one seeded plan: a generated mixed-integer problem whose optimum is known by enumeration, a history of setup/settings/update/solve/cleanup operations on the mixed-integer interface with strategy, node selection, node budget and random stream drawn per plan, and a fault list. "
R = {
 "C01": CONT + "Non-trivial: an optimal verdict was checked after an earlier solve of the same workspace or under a fault.",
 "C02": CONT + "Mostly infeasible and unbounded instances. Non-trivial: an infeasibility or unboundedness verdict was checked.",
 "C03": CONT + "Each interrupted solve is followed by an identical undisturbed one. Non-trivial: a SIGINT was delivered inside a solve.",
 "C04": CONT + "Also mixed-integer solves, rejected setups, signals outside calls, changes of disposition, and 8% two-thread cases. Non-trivial: a signal was delivered or a fault fired in a solve, or two threads ran.",
 "C05": "One case = one seeded plan of two or three client threads, each with its own history of operations on its own workspaces, and a schedule that switches threads at basic-block granularity in one of four styles; each thread is then re-run alone and compared bit for bit. Non-trivial: at least two task switches happened.",
 "C06": CONT + "The plan is executed in its random environment and in a plain one and compared bit for bit. Non-trivial: at least one solve was compared.",
 "C07": CONT + "Non-trivial: a re-solve was compared with a fresh workspace holding the same data and settings.",
 "C08": CONT + "Also the mixed-integer interface and rejected setups. Non-trivial: the caller's arrays were compared after at least one solve.",
 "C09": CONT + "Also the mixed-integer interface, empty and odd problem shapes and rejected setups. Non-trivial: a cleanup was reached and the allocation ledger balanced.",
 "C10": "One case = one seeded plan of malformed setups (wrong dimensions, duplicate entries, failing allocations in the ordering package) around successful ones on the same and on other workspaces. Non-trivial: a setup was rejected and its aftermath compared.",
 "C11": BB + "Non-trivial: the search branched at least once.",
 "C12": BB + "Non-trivial: a SIGINT or a numerical fault hit a mixed-integer solve.",
 "C13": BB + "Every plan has a small node budget. Non-trivial: the budget and exit code were checked.",
 "C14": BB + "Non-trivial: a re-solve after updates, interruptions or budget exits was compared with a fresh workspace.",
 "C15": CONT + "With stalls, clock jumps, wall-clock steps and sleeps. Non-trivial: a reported time was compared with the simulated clock.",
 "C16": CONT + "Non-trivial: a solve after faults was compared with a fresh workspace.",
 "C17": CONT + "Non-trivial: the statistics of a re-solve or of an exit other than plain was checked.",
 "C18": CONT + "Only well-posed problems. Non-trivial: the verdict of an undisturbed re-solve was compared with the ground truth.",
 "C19": CONT + "A quarter are mixed-integer histories instead. Verbose printing is switched on and off between solves, writes may fail. Non-trivial: the text of a verbose solve was compared with what the solve returned.",
}
json.dump(R, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "rules.json"), "w"), indent=1)
