From 70b2ea83e1362471cc4e48da73acfeab51bb23e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 01/20] fix: keep the first iterate before the exit checks of
 iteration 0

SIGINT, maxit=0 or a NaN at iteration 0 compared with and restored a best
iterate that had never been saved (uninitialised memory on the first solve,
the solution of the previous problem on later ones).
---
 src/ecos.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index e5e321d..c66a4ad 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1129,6 +1129,9 @@ idxint ECOS_solve(pwork* w)
 		/* Update statistics */
 		updateStatistics(w);
 
+		/* The first iterate is the best one seen so far: every exit below may fall back to it */
+		if( w->info->iter == 0 ){ saveIterateAsBest( w ); }
+
 #if PRINTLEVEL > 1
 		/* Print info */
 		if( w->stgs->verbose ) printProgress(w->info);
@@ -1276,10 +1279,7 @@ idxint ECOS_solve(pwork* w)
          * Check whether current iterate is worth keeping as the best solution so far,
          * before doing another iteration
          */
-        if (w->info->iter == 0) {
-            /* we're at the first iterate, so there's nothing to compare yet */
-            saveIterateAsBest( w );
-        } else if( compareStatistics( w->info, w->best_info) ){
+        if( w->info->iter > 0 && compareStatistics( w->info, w->best_info) ){
             /* PRINTTEXT("Better solution found, saving as best so far \n"); */
             saveIterateAsBest( w );
         }
-- 
2.43.0


From c5e12632e712d8f4dfe6cbd991891db7814140df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 02/20] fix: leave ECOS_solve through one exit when the solve
 breaks down

A failed factorization and an iterate outside the cone returned without
undoing the scaling of c (the caller's array and every later solve used the
scaled cost), without scaling the iterate back, without setting tsolve and
without restoring the SIGINT handler.
---
 src/ecos.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index c66a4ad..9f56aee 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1114,6 +1114,16 @@ idxint ECOS_solve(pwork* w)
 	if( initcode == ECOS_FATAL ){
 #if PRINTLEVEL > 0
         if( w->stgs->verbose ) PRINTTEXT("\nFatal error during initialization, aborting.");
+#endif
+        /* there is no iterate to scale back yet, only c */
+#if defined EQUILIBRATE && EQUILIBRATE > 0
+        for( i=0; i < w->n; i++ ){ w->c[i] *= w->xequil[i]; }
+#endif
+#if PROFILING > 0
+        w->info->tsolve = toc(&tsolve);
+#endif
+#if CTRLC > 0
+        remove_ctrlc();
 #endif
         return ECOS_FATAL;
     }
@@ -1304,7 +1314,8 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
                 if( w->stgs->verbose ) PRINTTEXT("\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
 #endif
-                return ECOS_OUTCONE;
+                exitcode = ECOS_OUTCONE;
+                break;
 
             } else {
                 break;
@@ -1339,7 +1350,8 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
 	    if( w->stgs->verbose ) PRINTTEXT("\nProblem in factoring KKT system, aborting.");
 #endif
-	        return ECOS_FATAL;
+	        exitcode = ECOS_FATAL;
+	        break;
 	    }
 
 		/* Solve for RHS1, which is used later also in combined direction */
-- 
2.43.0


From 8464659af22f024b0c0d8ea6f14a5a73556413df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 03/20] fix: update the data of a problem without equality
 constraints

ECOS_updateData dereferenced w->A, which is NULL for such problems.  It also
took arrays that are merely adjacent in memory for overlapping ones and then
left the replaced arrays equilibrated.
---
 src/ecos.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 9f56aee..7747aaf 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1652,6 +1652,17 @@ void ecos_updateDataEntry_c(pwork* w, idxint idx, pfloat value)
 }
 
 
+#if defined EQUILIBRATE && EQUILIBRATE > 0
+/*
+ * Returns 1 if the arrays a and b of length n share no element
+ */
+static idxint is_disjoint(const pfloat* a, const pfloat* b, idxint n)
+{
+    return n <= 0 || a + n <= b || b + n <= a;
+}
+#endif
+
+
 /*
  * Updates numerical data for G, A, c, h, and b,
  * and re-equilibrates.
@@ -1667,11 +1678,11 @@ void ECOS_updateData(pwork *w, pfloat *Gpr, pfloat *Apr,
     /* Only unequilibrate the old data if the new data is in a different location in memory. */
     /* This is required for backward compatibility since existing code might need this step. */
     if (
-        ((Gpr + w->G->nnz < w->G->pr) || (w->G->pr + w->G->nnz < Gpr)) &&
-        ((Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
-        ((c + w->n < w->c) || (w->c + w->n < c)) &&
-        ((h + w->m < w->h) || (w->h + w->m < h)) &&
-        ((b + w->p < w->b) || (w->b + w->p < b))
+        is_disjoint(Gpr, w->G->pr, w->G->nnz) &&
+        (w->A == NULL || is_disjoint(Apr, w->A->pr, w->A->nnz)) &&
+        is_disjoint(c, w->c, w->n) &&
+        is_disjoint(h, w->h, w->m) &&
+        is_disjoint(b, w->b, w->p)
     ){
     unset_equilibration(w);
     }
-- 
2.43.0


From 3345b29a34d28dbed2ff4c2de7205aeec58548e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 04/20] fix: check the cone dimensions before allocating in
 ECOS_setup

Returning NULL for dimensions that do not add up leaked every allocation made
before the check.
---
 src/preproc.c | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/preproc.c b/src/preproc.c
index b0e57aa..439b93d 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -612,6 +612,28 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
     PRINTTEXT("\n");
 
+#endif
+
+    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate
+     * (before anything is allocated) */
+    cidx = 0;
+    for( i=0; i<ncones; i++ ){ cidx += q[i]; }
+#ifdef EXPCONE
+    if(cidx+l+3*nexc!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
+#endif
+        return NULL;
+    }
+#else
+    if(cidx+l!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
+#endif
+        return NULL;
+    }
 #endif
 
 	/* get work data structure */
@@ -715,25 +737,6 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
 #endif
 
-    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
-#ifdef EXPCONE
-    if(cidx+l+3*nexc!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
-#endif
-        return NULL;
-    }
-#else
-    if(cidx+l!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
-#endif
-        return NULL;
-    }
-#endif
-
 	/* info struct */
     mywork->info = (stats *)MALLOC(sizeof(stats));
 #if PROFILING > 1
-- 
2.43.0


From c2ef7f83210a5c4eb3a2bdf8a6f3bad5f15e0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 05/20] fix: release everything when ECOS_setup cannot compute
 the ordering

Duplicate entries or a failed allocation in AMD made ECOS_setup return NULL
with all of its memory leaked and the caller's data left equilibrated.
---
 src/preproc.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/preproc.c b/src/preproc.c
index 439b93d..9ab54ba 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -461,7 +461,9 @@ void ECOS_cleanup(pwork* w, idxint keepvars)
 	FREE(w->KKT->dz1);              /* mywork->KKT->dz1 = (pfloat *)MALLOC(mywork->m*sizeof(pfloat)); */
 	FREE(w->KKT->dz2);              /* mywork->KKT->dz2 = (pfloat *)MALLOC(mywork->m*sizeof(pfloat)); */
 	FREE(w->KKT->Flag);             /* mywork->KKT->Flag = (idxint *)MALLOC(nK*sizeof(idxint));       */
-	freeSparseMatrix(w->KKT->L);
+	if (w->KKT->L) {
+		freeSparseMatrix(w->KKT->L);
+	}
 	FREE(w->KKT->Lnz);              /* mywork->KKT->Lnz = (idxint *)MALLOC(nK*sizeof(idxint));        */
 	FREE(w->KKT->Parent);           /* mywork->KKT->Parent = (idxint *)MALLOC(nK*sizeof(idxint));     */
 	FREE(w->KKT->Pattern);          /* mywork->KKT->Pattern = (idxint *)MALLOC(nK*sizeof(idxint));    */
@@ -941,6 +943,23 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 		PRINTTEXT("Problem in AMD ordering, exiting.\n");
         AMD_info(Info);
 #endif
+        /* release everything and give the caller's data back unequilibrated */
+        mywork->KKT->P = P;
+        mywork->KKT->L = NULL;
+        mywork->rx = NULL;
+        mywork->ry = NULL;
+        mywork->rz = NULL;
+        FREE(Sign);
+        if(At) {
+            freeSparseMatrix(At);
+            FREE(AtoAt);
+            FREE(AttoK);
+        }
+        freeSparseMatrix(Gt);
+        freeSparseMatrix(KU);
+        FREE(GtoGt);
+        FREE(GttoK);
+        ECOS_cleanup(mywork, 0);
         return NULL;
 	}
 
-- 
2.43.0


From f5ed9c75982e00ad771b0c2e15057cb0d7159002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 06/20] fix: skip the bounds of integer variables in
 updateDataEntry_h

The rows added for the bounds precede the caller's rows for boolean and for
integer variables; only the former were skipped, so that the update hit a
bound row or the wrong row of h.
---
 ecos_bb/ecos_bb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 1a76213..a845e3b 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1184,7 +1184,7 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
 void updateDataEntry_h(ecos_bb_pwork *w, idxint idx, pfloat value)
 {
-    ecos_updateDataEntry_h(w->ecos_prob, idx + (2 * w->num_bool_vars), value);
+    ecos_updateDataEntry_h(w->ecos_prob, idx + 2 * (w->num_bool_vars + w->num_int_vars), value);
 }
 
 void updateDataEntry_c(ecos_bb_pwork *w, idxint idx, pfloat value)
-- 
2.43.0


From 4b6bc9f8ed06ddb4dd1cdeb219c646a5b31daf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 07/20] fix: number the bound rows of integer variables by
 their list position

The rows were numbered in column order while the search sets the bounds of
the i-th listed boolean, then of the i-th listed integer variable.  Unsorted
lists, or an integer variable in a column before a boolean one, made the
search set the bounds of the wrong variables.
---
 ecos_bb/ecos_bb_preproc.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index f052e6f..c46f777 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -43,15 +43,16 @@
 #define CALLOC calloc
 #endif
 
-static int contains(idxint idx, idxint num_int, idxint *bool_vars_idx)
+/* Returns the position of idx in the list, -1 if it is not there */
+static idxint position(idxint idx, idxint num_int, idxint *vars_idx)
 {
     idxint i;
-    idxint ans = 0;
     for (i = 0; i < num_int; ++i)
     {
-        ans += (bool_vars_idx[i] == idx);
+        if (vars_idx[i] == idx)
+            return i;
     }
-    return (int)ans;
+    return -1;
 }
 
 /* Augments the G and b arrays to take lb and ub constraints
@@ -74,10 +75,10 @@ static void socp_to_ecos_bb(
         Gjc_out[i] = Gjc_in[i];
     }
 
-    j = 0;
     for (i = 0; i < n; ++i)
     {
-        if (contains(i, num_bool_vars, bool_vars_idx))
+        /* The bounds of the j-th listed variable, booleans first, are rows 2j and 2j+1 */
+        if ((j = position(i, num_bool_vars, bool_vars_idx)) >= 0)
         {
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
@@ -103,11 +104,10 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
-        else if (contains(i, num_int_vars, int_vars_idx))
+        else if ((j = position(i, num_int_vars, int_vars_idx)) >= 0)
         {
+            j += num_bool_vars;
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -132,8 +132,6 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else
         {
-- 
2.43.0


From fedc6805877c4c9fc0e1dc2aae39ea3ab2efba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 08/20] fix: keep the incumbent found at the root node

The bound of a feasible rounding of the root relaxation was thrown away, so
that 'no solution' could be reported together with a feasible point.  Without
any incumbent, uninitialised memory was loaded as the solution.
---
 ecos_bb/ecos_bb.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index a845e3b..1ffc019 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1143,7 +1143,6 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     get_bounds(curr_node_idx, prob);
 
     prob->global_L = prob->nodes[curr_node_idx].L;
-    prob->global_U = prob->nodes[curr_node_idx].U;
 
     while (should_continue(prob, curr_node_idx))
     {
@@ -1171,7 +1170,10 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
         curr_node_idx = get_next_node(prob);
     }
-    load_solution(prob);
+    if (!isinf(prob->global_U))
+    {
+        load_solution(prob);
+    }
 
 #if MI_PRINTLEVEL > 0
     if (prob->stgs->verbose)
-- 
2.43.0


From 69ed9bf59ca549bd1d6411e8ffcfe32d4172a690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 09/20] fix: read the node's own relaxation in reliability
 branching

The candidates after the first strong-branched one were read from the
solution of the last strong-branching problem, and the split index of the
node's parent was taken for one found at this node.
---
 ecos_bb/ecos_bb.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 1ffc019..936093a 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -752,7 +752,13 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
 
     idxint ecos_result;
     pfloat q;
-    pfloat *x_values = NULL;
+
+    /* strong branching overwrites the solution of this node's relaxation */
+    pfloat *x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
+    memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
+
+    /* set split idx to something impossible */
+    *split_idx = -1;
 
     idxint *random_idx = get_shuffled_array(problem->num_bool_vars + problem->num_int_vars);
     idxint rand_i;
@@ -769,7 +775,7 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
             var_idx = problem->int_vars_idx[(i - problem->num_bool_vars)];
         }
 
-        const pfloat y = problem->ecos_prob->x[var_idx];
+        const pfloat y = x_values[var_idx];
         if (float_eqls(y, pfloat_floor(y, problem->stgs->integer_tol), problem->stgs->integer_tol) ||
             float_eqls(y, pfloat_ceil(y, problem->stgs->integer_tol), problem->stgs->integer_tol))
         {
@@ -793,8 +799,6 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
                 strong_initialized = 1;
 
                 calc_tmp_branching_problem(problem, &q, &ecos_result);
-                x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
-                memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
             }
 
             var_idx = i;
-- 
2.43.0


From 2e6ac11cda2084b5aeaf35170b76a708ada69a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 10/20] fix: never take an interrupted or failed relaxation for
 a proof

The mixed-integer search declared a node infeasible when its relaxation was
interrupted by SIGINT or broke down, took the cost of a relaxation that ran
out of iterations for a lower bound and its point for a solution, and did not
stop on SIGINT.  An interrupted search now stops and returns ECOS_SIGINT with
the incumbent; a node whose relaxation breaks down is branched on, or, when
that is impossible, left unresolved, in which case the result is reported as
after running out of iterations.  Strong branching ignores the cost of failed
probes and always leaves a variable to branch on.
---
 ecos_bb/ecos_bb.c | 144 +++++++++++++++++++++++++++++++++++++++-------
 include/ecos_bb.h |  11 +++-
 2 files changed, 131 insertions(+), 24 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 936093a..6c8a169 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -30,6 +30,7 @@
 #include "ecos_bb.h"
 #include "math.h"
 #include "equil.h"
+#include "ctrlc.h"
 #include "spla.h"
 
 #include <string.h>
@@ -339,6 +340,52 @@ static char is_infeasible(idxint ecos_result)
     return 0;
 }
 
+/*
+ * Only an optimal relaxation bounds the cost of the node's integer points:
+ * when it stopped for any other reason its cost proves nothing
+ */
+static char is_bound(idxint ecos_result)
+{
+    return ecos_result == ECOS_OPTIMAL || ecos_result == ECOS_OPTIMAL + ECOS_INACC_OFFSET;
+}
+
+/*
+ * Solves the current relaxation and notices when it was interrupted
+ */
+static idxint solve_relaxation(ecos_bb_pwork *prob)
+{
+    idxint ecos_result = ECOS_solve(prob->ecos_prob);
+#if CTRLC > 0
+    if (check_ctrlc())
+    {
+        prob->interrupted = 1;
+    }
+#endif
+    if (ecos_result == ECOS_SIGINT)
+    {
+        prob->interrupted = 1;
+    }
+    return ecos_result;
+}
+
+/*
+ * Can we branch on the point at which the relaxation stopped?
+ */
+static char has_branching_point(ecos_bb_pwork *prob, idxint ecos_result)
+{
+    idxint i;
+    if (!is_bound(ecos_result) && ecos_result != ECOS_MAXIT && ecos_result != ECOS_NUMERICS)
+    {
+        return 0;
+    }
+    for (i = 0; i < prob->ecos_prob->n; ++i)
+    {
+        if (isnan(prob->ecos_prob->x[i]) || isinf(prob->ecos_prob->x[i]))
+            return 0;
+    }
+    return 1;
+}
+
 /*
  * returns the score for down / up branching.
  * Using the product, same method is used in SCIP
@@ -397,8 +444,10 @@ static void initialize_strong_branching(ecos_bb_pwork *problem, idxint node_idx)
 static void calc_tmp_branching_problem(ecos_bb_pwork *problem, pfloat *relaxation, idxint *ecos_result)
 {
     set_prob(problem, problem->tmp_branching_bool_node_id, problem->tmp_branching_int_node_id);
-    *ecos_result = ECOS_solve(problem->ecos_prob);
-    *relaxation = eddot(problem->ecos_prob->n, problem->ecos_prob->x, problem->ecos_prob->c);
+    *ecos_result = solve_relaxation(problem);
+    *relaxation = is_bound(*ecos_result)
+                      ? eddot(problem->ecos_prob->n, problem->ecos_prob->x, problem->ecos_prob->c)
+                      : ECOS_NAN;
 }
 
 /*
@@ -549,7 +598,7 @@ static void get_branch_var_strong_branching(ecos_bb_pwork *problem, idxint *spli
 
     idxint *random_idx = get_shuffled_array(problem->num_bool_vars + problem->num_int_vars);
     idxint rand_i;
-    for (rand_i = 0; rand_i < problem->num_bool_vars + problem->num_int_vars; ++rand_i)
+    for (rand_i = 0; rand_i < problem->num_bool_vars + problem->num_int_vars && !problem->interrupted; ++rand_i)
     {
         idxint const i = random_idx[rand_i];
 
@@ -762,7 +811,7 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
 
     idxint *random_idx = get_shuffled_array(problem->num_bool_vars + problem->num_int_vars);
     idxint rand_i;
-    for (rand_i = 0; rand_i < problem->num_bool_vars + problem->num_int_vars; ++rand_i)
+    for (rand_i = 0; rand_i < problem->num_bool_vars + problem->num_int_vars && !problem->interrupted; ++rand_i)
     {
         idxint const i = random_idx[rand_i];
 
@@ -830,10 +879,13 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
             }
             const pfloat var_change_up = pfloat_ceil(current_value, problem->stgs->integer_tol) - current_value;
             const pfloat var_change_down = current_value - pfloat_floor(current_value, problem->stgs->integer_tol);
-            sum_ptr[2 * var_idx] += (q_down - q) / var_change_down;
-            cnt_ptr[2 * var_idx] += 1;
-            sum_ptr[2 * var_idx + 1] += (q_up - q) / var_change_up;
-            cnt_ptr[2 * var_idx + 1] += 1;
+            if (!isnan(q_down - q) && !isnan(q_up - q))
+            {
+                sum_ptr[2 * var_idx] += (q_down - q) / var_change_down;
+                cnt_ptr[2 * var_idx] += 1;
+                sum_ptr[2 * var_idx + 1] += (q_up - q) / var_change_up;
+                cnt_ptr[2 * var_idx + 1] += 1;
+            }
 
             score = get_score(q_down - q, q_up - q);
         }
@@ -892,11 +944,15 @@ static void load_solution(ecos_bb_pwork *prob)
 
 static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
 {
-    idxint i, ret_code, branchable, viable_rounded_sol;
+    idxint i, ret_code, bounded, branchable, viable_rounded_sol;
     viable_rounded_sol = 0;
 
     set_prob(prob, get_bool_node_id(node_idx, prob), get_int_node_id(node_idx, prob));
-    ret_code = ECOS_solve(prob->ecos_prob);
+    ret_code = solve_relaxation(prob);
+    if (prob->interrupted)
+    {
+        return;
+    }
 
 #if MI_PRINTLEVEL > 1
     if (prob->stgs->verbose)
@@ -909,12 +965,15 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
     }
 #endif
 
-    if (ret_code == ECOS_OPTIMAL ||
-        ret_code == ECOS_OPTIMAL + ECOS_INACC_OFFSET ||
-        ret_code == ECOS_MAXIT ||
-        ret_code == ECOS_NUMERICS)
+    bounded = is_bound(ret_code);
+
+    if (has_branching_point(prob, ret_code))
     {
-        prob->nodes[node_idx].L = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+        /* otherwise the node keeps the bound of its parent */
+        if (bounded)
+        {
+            prob->nodes[node_idx].L = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+        }
 
         // if global best known solution is better than our lower
         if (prob->global_U < prob->nodes[node_idx].L)
@@ -926,7 +985,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         prob->nodes[node_idx].relaxation = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
 
         // update pseudocost_values
-        if (prob->nodes[node_idx].prev_split_idx >= 0)
+        if (bounded && prob->nodes[node_idx].prev_split_idx >= 0)
         {
             idxint split_idx = prob->nodes[node_idx].prev_split_idx;
             const idxint offset = prob->nodes[node_idx].up_branch_node ? 1 : 0;
@@ -978,6 +1037,11 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
 
         if (branchable)
         { /* pfloat_round and check feasibility*/
+            idxint fallback_idx = -1;
+            pfloat fallback_val = 0.0;
+            get_branch_var_most_infeasible(prob, &fallback_idx, &fallback_val);
+            prob->nodes[node_idx].split_idx = -1;
+
             switch (prob->stgs->branching_strategy)
             {
             case BRANCHING_STRATEGY_MOST_INFEASIBLE:
@@ -996,6 +1060,15 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
                 get_branch_var_random(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val));
             default:;
             }
+            if (prob->interrupted)
+            {
+                return;
+            }
+            if (prob->nodes[node_idx].split_idx < 0)
+            {
+                prob->nodes[node_idx].split_idx = fallback_idx;
+                prob->nodes[node_idx].split_val = fallback_val;
+            }
 
             prob->nodes[node_idx].status = MI_SOLVED_BRANCHABLE;
 
@@ -1007,7 +1080,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             }
 #endif
             set_prob(prob, prob->tmp_bool_node_id, prob->tmp_int_node_id);
-            ret_code = ECOS_solve(prob->ecos_prob);
+            ret_code = solve_relaxation(prob);
 
 #if MI_PRINTLEVEL > 1
             if (prob->stgs->verbose)
@@ -1026,6 +1099,12 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
                 viable_rounded_sol = 1;
             }
         }
+        else if (!bounded)
+        { /* Neither a solution nor a variable to branch on */
+            prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+            prob->nodes[node_idx].U = ECOS_INFINITY;
+            prob->unresolved++;
+        }
         else
         { /* This is already an integer solution*/
             prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
@@ -1059,22 +1138,34 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
         }
     }
-    else
-    { /*Assume node infeasible*/
+    else if (is_infeasible(ret_code))
+    {
         prob->nodes[node_idx].L = ECOS_INFINITY;
         prob->nodes[node_idx].U = ECOS_INFINITY;
         prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
     }
+    else
+    { /* The relaxation broke down: nothing is known about this node */
+        prob->nodes[node_idx].U = ECOS_INFINITY;
+        prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+        prob->unresolved++;
+    }
 }
 
 static idxint should_continue(ecos_bb_pwork *prob, idxint curr_node_idx)
 {
-    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && abs_2(prob->global_U / prob->global_L - 1.0) > prob->stgs->rel_tol_gap && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
+    /* the relative gap is not a number when neither bound is known */
+    return !prob->interrupted && (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && !(abs_2(prob->global_U / prob->global_L - 1.0) <= prob->stgs->rel_tol_gap) && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
 }
 
 static int get_ret_code(ecos_bb_pwork *prob)
 {
-    if (prob->iter < prob->stgs->maxit - 1)
+    if (prob->interrupted)
+    {
+        return ECOS_SIGINT;
+    }
+
+    if (prob->iter < prob->stgs->maxit - 1 && !prob->unresolved)
     {
         if (isinf(prob->global_U))
         {
@@ -1142,11 +1233,17 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     /* of http://stanford.edu/class/ee364b/lectures/bb_slides.pdf*/
     prob->iter = 0;
     prob->dive_node_id = 0;
+    prob->interrupted = 0;
+    prob->unresolved = 0;
     initialize_root(prob);
     /*print_node(prob, curr_node_idx);*/
     get_bounds(curr_node_idx, prob);
 
     prob->global_L = prob->nodes[curr_node_idx].L;
+    if (prob->nodes[curr_node_idx].status != MI_SOLVED_BRANCHABLE)
+    {
+        curr_node_idx = -1;
+    }
 
     while (should_continue(prob, curr_node_idx))
     {
@@ -1167,7 +1264,10 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
         /* Step 3*/
         get_bounds(curr_node_idx, prob);
-        get_bounds(prob->iter, prob);
+        if (!prob->interrupted)
+        {
+            get_bounds(prob->iter, prob);
+        }
 
         /* Step 4*/
         prob->global_L = get_global_L(prob);
diff --git a/include/ecos_bb.h b/include/ecos_bb.h
index b1fa622..67ef951 100644
--- a/include/ecos_bb.h
+++ b/include/ecos_bb.h
@@ -58,13 +58,16 @@
 #define MI_INFEASIBLE (ECOS_PINF)
 /*ECOS_BB proved problem is unbounded*/
 #define MI_UNBOUNDED (ECOS_DINF)
-/*ECOS_BB hit maximum iterations but a feasible solution was found and the best seen feasible solution was returned*/
+/*ECOS_BB hit maximum iterations (or had to give up nodes whose relaxation broke down numerically)
+  but a feasible solution was found and the best seen feasible solution was returned*/
 #define MI_MAXITER_FEASIBLE_SOLN (ECOS_OPTIMAL + ECOS_INACC_OFFSET)
-/*ECOS_BB hit maximum iterations without finding a feasible solution*/
+/*ECOS_BB hit maximum iterations (or had to give up nodes) without finding a feasible solution*/
 #define MI_MAXITER_NO_SOLN (ECOS_PINF + ECOS_INACC_OFFSET)
 /*ECOS_BB hit maximum iterations without finding a feasible solution that was unbounded*/
 #define MI_MAXITER_UNBOUNDED (ECOS_DINF + ECOS_INACC_OFFSET)
 
+/* An interrupted search returns ECOS_SIGINT, with the best seen feasible solution if global_U is finite */
+
 /* Max integer and all smaller integer representable by single precision */
 #define MAX_FLOAT_INT (8388608)
 
@@ -179,6 +182,10 @@ extern "C"
 		settings_bb *stgs;
 		idxint default_settings;
 
+		/* what kept the search from being a proof */
+		idxint interrupted; /* SIGINT arrived during a relaxation */
+		idxint unresolved;  /* nodes given up because their relaxation broke down */
+
 	} ecos_bb_pwork;
 
 	ecos_bb_pwork *ECOS_BB_setup(
-- 
2.43.0


From 898dd98fc962d0890eee96282cb3b3934ddaa8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 11/20] fix: fail cleanly when ECOS_BB_setup cannot set up the
 relaxation

The NULL returned by ECOS_setup was dereferenced.
---
 ecos_bb/ecos_bb_preproc.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index c46f777..103b307 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -280,6 +280,12 @@ ecos_bb_pwork *ECOS_BB_setup(
         Apr, Ajc, Air,
         c, prob->h_new, b);
 
+    if (prob->ecos_prob == NULL)
+    {
+        ECOS_BB_cleanup(prob, 0);
+        return NULL;
+    }
+
     /* Store the number of integer variables in the problem*/
     prob->num_bool_vars = num_bool_vars;
     prob->num_int_vars = num_int_vars;
@@ -325,7 +331,10 @@ ecos_bb_pwork *ECOS_BB_setup(
 void ECOS_BB_cleanup(ecos_bb_pwork *prob, idxint num_vars_keep)
 {
     /* FREE solver memory*/
-    ECOS_cleanup(prob->ecos_prob, num_vars_keep);
+    if (prob->ecos_prob != NULL)
+    {
+        ECOS_cleanup(prob->ecos_prob, num_vars_keep);
+    }
     FREE(prob->tmp_bool_node_id);
     FREE(prob->tmp_int_node_id);
     FREE(prob->tmp_branching_bool_node_id);
-- 
2.43.0


From 25d3d85abba1062a65ca01b75deaaf4dbbe584b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 12/20] fix: do not accept an infeasibility certificate whose
 residual exceeds its improvement

When tau makes the iterate small, cx and the residual norms fall below
the tolerance together, and primal infeasible problems were reported
unbounded (and vice versa).
---
 include/ecos.h | 2 ++
 src/ecos.c     | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ecos.h b/include/ecos.h
index 8c0385c..154fe20 100644
--- a/include/ecos.h
+++ b/include/ecos.h
@@ -62,6 +62,8 @@ extern "C" {
 #define SIGMAMAX   (1.0)         /* never fully center                   */
 #define STEPMIN    (1E-6)        /* smallest step that we do take        */
 #define STEPMAX    (0.999)  /* largest step allowed, also in affine dir. */
+#define CERTRATIO  (1E-2)        /* max. certificate residual relative to
+                                                its improvement */
 #define SAFEGUARD  (500)         /* Maximum increase in PRES before
                                                 ECOS_NUMERICS is thrown. */
 /*Ecos exponential cone default settings*/
diff --git a/src/ecos.c b/src/ecos.c
index 7747aaf..78a28ef 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -529,9 +529,12 @@ void updateStatistics(pwork* w)
 	 * CVXOPT uses the following:
      * info->pinfres = w->hz + w->by < 0 ? w->hresx / w->resx0 / (-w->hz - w->by) : NAN;
      * info->dinfres = w->cx < 0 ? MAX(w->hresy/w->resy0, w->hresz/w->resz0) / (-w->cx) : NAN;
+     *
+     * The residual of a certificate must also be small compared with its improvement: when
+     * tau and kap make the iterate small, both can fall below the tolerance at the same time.
      */
-    info->pinfres = (w->hz + w->by)/MAX(w->ny+w->nz,1) < -w->stgs->reltol ? w->hresx / MAX(w->ny+w->nz,1) : ECOS_NAN;
-    info->dinfres = w->cx/MAX(w->nx,1) < -w->stgs->reltol ? MAX(w->hresy/MAX(w->nx,1), w->hresz/MAX(w->nx+w->ns,1)) : ECOS_NAN;
+    info->pinfres = (w->hz + w->by)/MAX(w->ny+w->nz,1) < -w->stgs->reltol && w->hresx < CERTRATIO*(-w->hz - w->by) ? w->hresx / MAX(w->ny+w->nz,1) : ECOS_NAN;
+    info->dinfres = w->cx/MAX(w->nx,1) < -w->stgs->reltol && MAX(w->hresy, w->hresz) < CERTRATIO*(-w->cx) ? MAX(w->hresy/MAX(w->nx,1), w->hresz/MAX(w->nx+w->ns,1)) : ECOS_NAN;
 
 
 
-- 
2.43.0


From e349f398e5eb3a091e411f656a7f7fc37e1a2344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 13/20] fix: keep the search sound and finite when relaxations
 are inexact

A relaxation that is only close to optimal bounds a node by its dual cost;
branch only on variables the node leaves free and inside its bounds; keep
branching at an integral point whose relaxation proves nothing; stop at the
first interrupted relaxation.
---
 ecos_bb/ecos_bb.c | 152 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 120 insertions(+), 32 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 6c8a169..a98f122 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -221,15 +221,35 @@ static pfloat get_global_L(ecos_bb_pwork *prob)
     return L;
 }
 
+/*
+ * Can the node be split on var i at value y? Relaxations hold the bounds only
+ * up to their tolerance, so y may be fractional although the node fixes i
+ */
+static char is_branch_candidate(ecos_bb_pwork *prob, idxint node_idx, idxint i, pfloat y)
+{
+    const pfloat down = pfloat_floor(y, prob->stgs->integer_tol);
+    const pfloat up = pfloat_ceil(y, prob->stgs->integer_tol);
+    if (float_eqls(y, down, prob->stgs->integer_tol) || float_eqls(y, up, prob->stgs->integer_tol))
+    {
+        return 0;
+    }
+    if (i < prob->num_bool_vars)
+    {
+        return get_bool_node_id(node_idx, prob)[i] == MI_STAR;
+    }
+    i -= prob->num_bool_vars;
+    return -get_int_node_id(node_idx, prob)[2 * i] <= down && up <= get_int_node_id(node_idx, prob)[2 * i + 1];
+}
+
 /*
  * Function to return the next var to split on
  * using most infeasible branching
  */
-static void get_branch_var_most_infeasible(ecos_bb_pwork *prob, idxint *split_idx, pfloat *split_val)
+static void get_branch_var_most_infeasible(ecos_bb_pwork *prob, idxint *split_idx, pfloat *split_val, idxint node_idx)
 {
     idxint i;
     pfloat x, y, d, ambiguity;
-    d = 1.0;
+    d = ECOS_INFINITY;
     for (i = 0; i < (prob->num_bool_vars + prob->num_int_vars); ++i)
     {
         if (i < prob->num_bool_vars)
@@ -243,7 +263,7 @@ static void get_branch_var_most_infeasible(ecos_bb_pwork *prob, idxint *split_id
             x = y - pfloat_floor(y, prob->stgs->integer_tol);
         }
         ambiguity = abs_2(x - 0.5);
-        if (ambiguity < d)
+        if (ambiguity < d && is_branch_candidate(prob, node_idx, i, y))
         {
             *split_idx = i;
             *split_val = y;
@@ -259,7 +279,7 @@ static void get_branch_var_most_infeasible(ecos_bb_pwork *prob, idxint *split_id
  * Function to return the next var to split on
  * using random branching
  */
-static void get_branch_var_random(ecos_bb_pwork *prob, idxint *split_idx, pfloat *split_val)
+static void get_branch_var_random(ecos_bb_pwork *prob, idxint *split_idx, pfloat *split_val, idxint node_idx)
 {
     while (1)
     {
@@ -268,8 +288,7 @@ static void get_branch_var_random(ecos_bb_pwork *prob, idxint *split_idx, pfloat
                          ? prob->ecos_prob->x[prob->bool_vars_idx[i]]
                          : prob->ecos_prob->x[prob->int_vars_idx[i - prob->num_bool_vars]];
         *split_idx = i;
-        if (float_eqls(*split_val, pfloat_floor(*split_val, prob->stgs->integer_tol), prob->stgs->integer_tol) ||
-            float_eqls(*split_val, pfloat_ceil(*split_val, prob->stgs->integer_tol), prob->stgs->integer_tol))
+        if (!is_branch_candidate(prob, node_idx, i, *split_val))
         {
             continue;
         }
@@ -281,6 +300,38 @@ static void get_branch_var_random(ecos_bb_pwork *prob, idxint *split_idx, pfloat
 #endif
 }
 
+/*
+ * Function to return the first var the node leaves free, whatever its value.
+ * Returns 0 if the node fixes all of them
+ */
+static char get_branch_var_free(ecos_bb_pwork *prob, idxint node_idx, idxint *split_idx, pfloat *split_val)
+{
+    idxint i;
+    for (i = 0; i < prob->num_bool_vars; ++i)
+    {
+        if (get_bool_node_id(node_idx, prob)[i] == MI_STAR)
+        {
+            *split_idx = i;
+            *split_val = 0.5;
+            return 1;
+        }
+    }
+    for (i = 0; i < prob->num_int_vars; ++i)
+    {
+        const pfloat lb = -get_int_node_id(node_idx, prob)[2 * i];
+        const pfloat ub = get_int_node_id(node_idx, prob)[2 * i + 1];
+        if (lb < ub)
+        {
+            pfloat y = pfloat_round(prob->ecos_prob->x[prob->int_vars_idx[i]]);
+            y = y < lb ? lb : y > ub ? ub : y;
+            *split_idx = i + prob->num_bool_vars;
+            *split_val = y < ub ? y + 0.5 : y - 0.5;
+            return 1;
+        }
+    }
+    return 0;
+}
+
 /*
  * Updates the solver's lb and ub contraints for integer variables
  * to the bounds specified by the node
@@ -349,12 +400,27 @@ static char is_bound(idxint ecos_result)
     return ecos_result == ECOS_OPTIMAL || ecos_result == ECOS_OPTIMAL + ECOS_INACC_OFFSET;
 }
 
+/*
+ * Lower bound proven by the current relaxation. When it is only close to
+ * optimal its cost can be far above its dual cost
+ */
+static pfloat get_bound(ecos_bb_pwork *prob, idxint ecos_result)
+{
+    const pfloat cost = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+    return ecos_result == ECOS_OPTIMAL ? cost : MIN(cost, prob->ecos_prob->info->dcost);
+}
+
 /*
  * Solves the current relaxation and notices when it was interrupted
  */
 static idxint solve_relaxation(ecos_bb_pwork *prob)
 {
-    idxint ecos_result = ECOS_solve(prob->ecos_prob);
+    idxint ecos_result;
+    if (prob->interrupted)
+    {
+        return ECOS_SIGINT;
+    }
+    ecos_result = ECOS_solve(prob->ecos_prob);
 #if CTRLC > 0
     if (check_ctrlc())
     {
@@ -446,7 +512,7 @@ static void calc_tmp_branching_problem(ecos_bb_pwork *problem, pfloat *relaxatio
     set_prob(problem, problem->tmp_branching_bool_node_id, problem->tmp_branching_int_node_id);
     *ecos_result = solve_relaxation(problem);
     *relaxation = is_bound(*ecos_result)
-                      ? eddot(problem->ecos_prob->n, problem->ecos_prob->x, problem->ecos_prob->c)
+                      ? get_bound(problem, *ecos_result)
                       : ECOS_NAN;
 }
 
@@ -613,8 +679,7 @@ static void get_branch_var_strong_branching(ecos_bb_pwork *problem, idxint *spli
         }
         pfloat current_value = x_values[var_id];
         // if already int, skip candidate
-        if (float_eqls(current_value, pfloat_floor(current_value, problem->stgs->integer_tol), problem->stgs->integer_tol) ||
-            float_eqls(current_value, pfloat_ceil(current_value, problem->stgs->integer_tol), problem->stgs->integer_tol))
+        if (!is_branch_candidate(problem, node_idx, i, current_value))
         {
             continue;
         }
@@ -747,8 +812,7 @@ static void get_branch_var_pseudocost_branching(ecos_bb_pwork *problem, idxint *
         }
 
         pfloat y = problem->ecos_prob->x[var_idx];
-        if (float_eqls(y, pfloat_floor(y, problem->stgs->integer_tol), problem->stgs->integer_tol) ||
-            float_eqls(y, pfloat_ceil(y, problem->stgs->integer_tol), problem->stgs->integer_tol))
+        if (!is_branch_candidate(problem, node_idx, i, y))
         {
             continue;
         }
@@ -825,8 +889,7 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
         }
 
         const pfloat y = x_values[var_idx];
-        if (float_eqls(y, pfloat_floor(y, problem->stgs->integer_tol), problem->stgs->integer_tol) ||
-            float_eqls(y, pfloat_ceil(y, problem->stgs->integer_tol), problem->stgs->integer_tol))
+        if (!is_branch_candidate(problem, node_idx, i, y))
         {
             continue;
         }
@@ -972,7 +1035,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         /* otherwise the node keeps the bound of its parent */
         if (bounded)
         {
-            prob->nodes[node_idx].L = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+            prob->nodes[node_idx].L = get_bound(prob, ret_code);
         }
 
         // if global best known solution is better than our lower
@@ -1017,7 +1080,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         branchable = 1;
         for (i = 0; i < prob->num_bool_vars; ++i)
         {
-            prob->tmp_bool_node_id[i] = (char)pfloat_round(prob->ecos_prob->x[prob->bool_vars_idx[i]]);
+            prob->tmp_bool_node_id[i] = prob->ecos_prob->x[prob->bool_vars_idx[i]] >= 0.5 ? MI_ONE : MI_ZERO;
             branchable &= float_eqls(prob->ecos_prob->x[prob->bool_vars_idx[i]], (pfloat)prob->tmp_bool_node_id[i], prob->stgs->integer_tol);
         }
         for (i = 0; i < prob->num_int_vars; ++i)
@@ -1039,13 +1102,23 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         { /* pfloat_round and check feasibility*/
             idxint fallback_idx = -1;
             pfloat fallback_val = 0.0;
-            get_branch_var_most_infeasible(prob, &fallback_idx, &fallback_val);
+            get_branch_var_most_infeasible(prob, &fallback_idx, &fallback_val, node_idx);
             prob->nodes[node_idx].split_idx = -1;
+            prob->nodes[node_idx].status = MI_SOLVED_BRANCHABLE;
 
+            if (fallback_idx < 0)
+            {
+                if (!get_branch_var_free(prob, node_idx, &fallback_idx, &fallback_val))
+                {
+                    prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+                    prob->unresolved++;
+                }
+            }
+            else
             switch (prob->stgs->branching_strategy)
             {
             case BRANCHING_STRATEGY_MOST_INFEASIBLE:
-                get_branch_var_most_infeasible(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val));
+                get_branch_var_most_infeasible(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val), node_idx);
                 break;
             case BRANCHING_STRATEGY_STRONG_BRANCHING:
                 get_branch_var_strong_branching(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val), node_idx);
@@ -1057,7 +1130,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
                 get_branch_var_reliability_branching(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val), node_idx);
                 break;
             case BRANCHING_STRATEGY_RANDOM:
-                get_branch_var_random(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val));
+                get_branch_var_random(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val), node_idx);
             default:;
             }
             if (prob->interrupted)
@@ -1070,8 +1143,6 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
                 prob->nodes[node_idx].split_val = fallback_val;
             }
 
-            prob->nodes[node_idx].status = MI_SOLVED_BRANCHABLE;
-
 #if MI_PRINTLEVEL > 1
             if (prob->stgs->verbose)
             {
@@ -1099,16 +1170,28 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
                 viable_rounded_sol = 1;
             }
         }
-        else if (!bounded)
-        { /* Neither a solution nor a variable to branch on */
-            prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
-            prob->nodes[node_idx].U = ECOS_INFINITY;
-            prob->unresolved++;
-        }
         else
-        { /* This is already an integer solution*/
+        {
             prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
-            prob->nodes[node_idx].U = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+            if (bounded)
+            { /* This is already an integer solution*/
+                prob->nodes[node_idx].U = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+            }
+            else
+            { /* Neither a solution nor a variable to branch on */
+                prob->nodes[node_idx].U = ECOS_INFINITY;
+            }
+            if (ret_code != ECOS_OPTIMAL)
+            { /* The node may hold better integer points */
+                if (get_branch_var_free(prob, node_idx, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val)))
+                {
+                    prob->nodes[node_idx].status = MI_SOLVED_BRANCHABLE;
+                }
+                else
+                {
+                    prob->unresolved++;
+                }
+            }
         }
 
         if (prob->nodes[node_idx].U < prob->global_U)
@@ -1152,10 +1235,15 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
     }
 }
 
-static idxint should_continue(ecos_bb_pwork *prob, idxint curr_node_idx)
+static idxint is_gap_open(ecos_bb_pwork *prob)
 {
     /* the relative gap is not a number when neither bound is known */
-    return !prob->interrupted && (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && !(abs_2(prob->global_U / prob->global_L - 1.0) <= prob->stgs->rel_tol_gap) && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
+    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && !(abs_2(prob->global_U / prob->global_L - 1.0) <= prob->stgs->rel_tol_gap);
+}
+
+static idxint should_continue(ecos_bb_pwork *prob, idxint curr_node_idx)
+{
+    return !prob->interrupted && is_gap_open(prob) && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
 }
 
 static int get_ret_code(ecos_bb_pwork *prob)
@@ -1165,7 +1253,7 @@ static int get_ret_code(ecos_bb_pwork *prob)
         return ECOS_SIGINT;
     }
 
-    if (prob->iter < prob->stgs->maxit - 1 && !prob->unresolved)
+    if (prob->iter < prob->stgs->maxit - 1 && !(prob->unresolved && is_gap_open(prob)))
     {
         if (isinf(prob->global_U))
         {
-- 
2.43.0


From 26ee49fb1ecbb277723ba40acf5a33d6302ecacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 14/20] fix: report an unbounded mixed-integer problem as
 unbounded, not infeasible

---
 ecos_bb/ecos_bb.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index a98f122..080d846 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -301,10 +301,11 @@ static void get_branch_var_random(ecos_bb_pwork *prob, idxint *split_idx, pfloat
 }
 
 /*
- * Function to return the first var the node leaves free, whatever its value.
+ * Function to return the first var the node leaves free, whatever its value,
+ * to be split next to its value in x or, without x, in the middle of its bounds.
  * Returns 0 if the node fixes all of them
  */
-static char get_branch_var_free(ecos_bb_pwork *prob, idxint node_idx, idxint *split_idx, pfloat *split_val)
+static char get_branch_var_free(ecos_bb_pwork *prob, idxint node_idx, const pfloat *x, idxint *split_idx, pfloat *split_val)
 {
     idxint i;
     for (i = 0; i < prob->num_bool_vars; ++i)
@@ -322,7 +323,7 @@ static char get_branch_var_free(ecos_bb_pwork *prob, idxint node_idx, idxint *sp
         const pfloat ub = get_int_node_id(node_idx, prob)[2 * i + 1];
         if (lb < ub)
         {
-            pfloat y = pfloat_round(prob->ecos_prob->x[prob->int_vars_idx[i]]);
+            pfloat y = pfloat_round(x ? x[prob->int_vars_idx[i]] : lb + (ub - lb) / 2);
             y = y < lb ? lb : y > ub ? ub : y;
             *split_idx = i + prob->num_bool_vars;
             *split_val = y < ub ? y + 0.5 : y - 0.5;
@@ -380,9 +381,7 @@ static void set_prob(ecos_bb_pwork *prob, char *bool_node_id, pfloat *int_node_i
 
 static char is_infeasible(idxint ecos_result)
 {
-    if (ecos_result == ECOS_DINF ||
-        ecos_result == ECOS_PINF ||
-        ecos_result == ECOS_DINF + ECOS_INACC_OFFSET ||
+    if (ecos_result == ECOS_PINF ||
         ecos_result == ECOS_PINF + ECOS_INACC_OFFSET)
     {
         return 1;
@@ -391,6 +390,11 @@ static char is_infeasible(idxint ecos_result)
     return 0;
 }
 
+static char is_unbounded(idxint ecos_result)
+{
+    return ecos_result == ECOS_DINF || ecos_result == ECOS_DINF + ECOS_INACC_OFFSET;
+}
+
 /*
  * Only an optimal relaxation bounds the cost of the node's integer points:
  * when it stopped for any other reason its cost proves nothing
@@ -1108,7 +1112,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
 
             if (fallback_idx < 0)
             {
-                if (!get_branch_var_free(prob, node_idx, &fallback_idx, &fallback_val))
+                if (!get_branch_var_free(prob, node_idx, prob->ecos_prob->x, &fallback_idx, &fallback_val))
                 {
                     prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
                     prob->unresolved++;
@@ -1183,7 +1187,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             }
             if (ret_code != ECOS_OPTIMAL)
             { /* The node may hold better integer points */
-                if (get_branch_var_free(prob, node_idx, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val)))
+                if (get_branch_var_free(prob, node_idx, prob->ecos_prob->x, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val)))
                 {
                     prob->nodes[node_idx].status = MI_SOLVED_BRANCHABLE;
                 }
@@ -1227,6 +1231,17 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         prob->nodes[node_idx].U = ECOS_INFINITY;
         prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
     }
+    else if (is_unbounded(ret_code) &&
+             get_branch_var_free(prob, node_idx, NULL, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val)))
+    { /* Its relaxation is unbounded, but the node may hold no integer point */
+        prob->nodes[node_idx].status = MI_SOLVED_BRANCHABLE;
+    }
+    else if (ret_code == ECOS_DINF)
+    { /* All variables are fixed: the problem is unbounded */
+        prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+        prob->nodes[node_idx].U = -ECOS_INFINITY;
+        prob->global_U = -ECOS_INFINITY;
+    }
     else
     { /* The relaxation broke down: nothing is known about this node */
         prob->nodes[node_idx].U = ECOS_INFINITY;
-- 
2.43.0


From 3e94c23bd7ed7abb617f4de415a436812cfb8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 15/20] fix: do not judge an iterate whose tau has become
 negative

---
 src/ecos.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 78a28ef..4cf5c24 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1152,13 +1152,14 @@ idxint ECOS_solve(pwork* w)
 
         /* SAFEGUARD: Backtrack to best previously seen iterate if
          *
-         * - the update was bad such that the primal residual PRES has increased by a factor of SAFEGUARD, or
-         * - the gap became negative
+         * - the update was bad such that the primal residual PRES has increased by a factor of SAFEGUARD,
+         * - the gap became negative, or
+         * - tau became negative (the minimum step is taken even if it leads out of the cone)
          *
          * If the safeguard is activated, the solver tests if reduced precision has been reached, and reports
          * accordingly. If not even reduced precision is reached, ECOS returns the flag ECOS_NUMERICS.
          */
-        if( w->info->iter > 0 && (w->info->pres > SAFEGUARD*pres_prev || w->info->gap < 0) ){
+        if( w->info->iter > 0 && (w->info->pres > SAFEGUARD*pres_prev || w->info->gap < 0 || w->tau < 0) ){
 #if PRINTLEVEL > 1
             if( w->stgs->verbose ) deleteLastProgressLine( w->info );
             if( w->stgs->verbose ) PRINTTEXT("Unreliable search direction detected, recovering best iterate (%i) and stopping.\n", (int)w->best_info->iter);
-- 
2.43.0


From 81d143c32d99b83b3825e6b8e1fdd5e986b2910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 16/20] fix: recognise a minimal step for every gamma and for
 exponential cones

The test for a line search that failed compared the step with
STEPMIN*GAMMA for equality. With another settings->gamma, and with
exponential cones (whose step is scaled by gamma more than once), the
two never match, and ECOS carried on from an iterate it could not
improve, up to returning one that lies outside its cone.
---
 src/ecos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecos.c b/src/ecos.c
index 4cf5c24..463472a 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1198,7 +1198,7 @@ idxint ECOS_solve(pwork* w)
              */
 
             /* Did the line search cock up? (zero step length) */
-            if( w->info->iter > 0 && w->info->step == STEPMIN*GAMMA ){
+            if( w->info->iter > 0 && w->info->step <= STEPMIN*w->stgs->gamma ){
 #if PRINTLEVEL > 0
                 if( w->stgs->verbose ) deleteLastProgressLine( w->info );
                 if( w->stgs->verbose ) PRINTTEXT("No further progress possible, recovering best iterate (%i) and stopping.", (int)w->best_info->iter );
-- 
2.43.0


From 95157bb4649732a6fcb39658e2f63cb00bde8dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 17/20] fix: measure the improvement of an infeasibility
 certificate in the scale of the data

pinfres and dinfres accept a certificate only while its residual is small
against its improvement. The two were compared without regard to the size of
the data: with a large c a primal infeasible problem was reported unbounded
(the ray's residual is measured against -c'x, which grows with c), and with
large h or b an unbounded one infeasible.
---
 src/ecos.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 463472a..4fcf6df 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -530,11 +530,12 @@ void updateStatistics(pwork* w)
      * info->pinfres = w->hz + w->by < 0 ? w->hresx / w->resx0 / (-w->hz - w->by) : NAN;
      * info->dinfres = w->cx < 0 ? MAX(w->hresy/w->resy0, w->hresz/w->resz0) / (-w->cx) : NAN;
      *
-     * The residual of a certificate must also be small compared with its improvement: when
-     * tau and kap make the iterate small, both can fall below the tolerance at the same time.
+     * The residual of a certificate must also be small compared with its improvement, measured
+     * in the scale of the data: when tau and kap make the iterate small, both can fall below
+     * the tolerance at the same time.
      */
-    info->pinfres = (w->hz + w->by)/MAX(w->ny+w->nz,1) < -w->stgs->reltol && w->hresx < CERTRATIO*(-w->hz - w->by) ? w->hresx / MAX(w->ny+w->nz,1) : ECOS_NAN;
-    info->dinfres = w->cx/MAX(w->nx,1) < -w->stgs->reltol && MAX(w->hresy, w->hresz) < CERTRATIO*(-w->cx) ? MAX(w->hresy/MAX(w->nx,1), w->hresz/MAX(w->nx+w->ns,1)) : ECOS_NAN;
+    info->pinfres = (w->hz + w->by)/MAX(w->ny+w->nz,1) < -w->stgs->reltol && w->hresx < CERTRATIO*(-w->hz - w->by)/MAX(w->resy0,w->resz0) ? w->hresx / MAX(w->ny+w->nz,1) : ECOS_NAN;
+    info->dinfres = w->cx/MAX(w->nx,1) < -w->stgs->reltol && MAX(w->hresy, w->hresz) < CERTRATIO*(-w->cx)/w->resx0 ? MAX(w->hresy/MAX(w->nx,1), w->hresz/MAX(w->nx+w->ns,1)) : ECOS_NAN;
 
 
 
-- 
2.43.0


From 96bb9f265c6985cb2791f73d77f98c2dfbb9e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 18/20] fix: do not call an iterate with an infinite entry
 optimal

An infinite entry of x in a variable that appears in no constraint leaves all
residuals small: they are divided by the norm of x. The cost is then not a
number, and the test for optimality did not look at it.
---
 src/ecos.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 4fcf6df..ea87146 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -195,8 +195,9 @@ idxint checkExitConditions(pwork* w, idxint mode)
         reltol = w->stgs->reltol_inacc;
     }
 
-    /* Optimal? */
-    if( ( -w->cx > 0 || -w->by - w->hz >= -abstol ) &&
+    /* Optimal? (an infinite entry of x that appears in no constraint leaves the residuals small) */
+    if( !isnan( w->info->pcost ) &&
+        ( -w->cx > 0 || -w->by - w->hz >= -abstol ) &&
         ( w->info->pres < feastol && w->info->dres < feastol ) &&
         ( w->info->gap < abstol || w->info->relgap < reltol  )){
 #if PRINTLEVEL > 0
-- 
2.43.0


From d580e0a525f0f380dcbabb76c494de9a63730a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:54 +0000
Subject: [PATCH 19/20] fix: do not lose a primal residual that is not a number

MAX(a,b) drops a b that is not a number: with an infinite entry in x the
residual of the inequalities is not a number, but pres was taken from the
equalities alone, and with an infinite cost the relative gap is 0: 'close to
optimal' was reported for it. The same for the residual of an improving ray.
---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index ea87146..548f7be 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -522,7 +522,7 @@ void updateStatistics(pwork* w)
     /* residuals */
     nry = w->p > 0 ? norm2(w->ry, w->p)/MAX(w->resy0+w->nx,1) : 0.0;
     nrz = norm2(w->rz, w->m)/MAX(w->resz0+w->nx+w->ns,1);
-	info->pres = MAX(nry, nrz) / w->tau;
+	info->pres = (isnan(nrz) ? nrz : MAX(nry, nrz)) / w->tau; /* MAX drops a second argument that is not a number */
 	info->dres = norm2(w->rx, w->n)/MAX(w->resx0+w->ny+w->nz,1) / w->tau;
 
 	/* infeasibility measures
@@ -536,7 +536,7 @@ void updateStatistics(pwork* w)
      * the tolerance at the same time.
      */
     info->pinfres = (w->hz + w->by)/MAX(w->ny+w->nz,1) < -w->stgs->reltol && w->hresx < CERTRATIO*(-w->hz - w->by)/MAX(w->resy0,w->resz0) ? w->hresx / MAX(w->ny+w->nz,1) : ECOS_NAN;
-    info->dinfres = w->cx/MAX(w->nx,1) < -w->stgs->reltol && MAX(w->hresy, w->hresz) < CERTRATIO*(-w->cx)/w->resx0 ? MAX(w->hresy/MAX(w->nx,1), w->hresz/MAX(w->nx+w->ns,1)) : ECOS_NAN;
+    info->dinfres = w->cx/MAX(w->nx,1) < -w->stgs->reltol && w->hresy < CERTRATIO*(-w->cx)/w->resx0 && w->hresz < CERTRATIO*(-w->cx)/w->resx0 ? MAX(w->hresy/MAX(w->nx,1), w->hresz/MAX(w->nx+w->ns,1)) : ECOS_NAN;
 
 
 
-- 
2.43.0


From d911701f7050a109dd897f550bdec61622ac1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:38 +0000
Subject: [PATCH 20/20] fix: the report of a solve that ends on NaNs names the
 outcome it returns

---
 src/ecos.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 548f7be..1581194 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1275,10 +1275,7 @@ idxint ECOS_solve(pwork* w)
                 if( exitcode == ECOS_NOT_CONVERGED_YET ){
                     exitcode = ECOS_NUMERICS;
 #if PRINTLEVEL > 0
-                    if( w->stgs->verbose ) {
-                        const char* what = interrupted ? "INTERRUPTED" : "RAN OUT OF ITERATIONS";
-                        PRINTTEXT("\n%s (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", what, MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
-                    }
+                    if( w->stgs->verbose ) PRINTTEXT("\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
 #endif
                 }
                 break;
-- 
2.43.0

