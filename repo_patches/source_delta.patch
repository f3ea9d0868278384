From 0353e729586f5feb86fac732e9b76eb3be33b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 01/16] fix: report infeasibility found when a doubleton
 equality row transfers bounds

---
 src/explorers/DtonsEq.c | 52 +++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 1f08315..c2f0819 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -185,31 +185,37 @@ static inline void can_dton_be_eliminated(Matrix *AT, const double *row_vals,
     *subst = row_cols[*subst];
 }
 
-// lb and ub are bounds on variable that gets substituted
-static inline void modify_bounds(Constraints *constraints, int i, double aij,
-                                 double aik, double rhs, double lb_subst,
-                                 double ub_subst, int stay, ColTag col_tag_subst)
+// lb and ub are bounds on variable that gets substituted. Returns INFEASIBLE if
+// the transferred bounds contradict the bounds of the variable that stays.
+static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
+                                           double aij, double aik, double rhs,
+                                           double lb_subst, double ub_subst,
+                                           int stay, ColTag col_tag_subst)
 {
     assert(aij != 0 && aik != 0);
     bool same_sign = (aik * aij > 0.0);
+    PresolveStatus status = UNCHANGED;
 
     if (same_sign)
     {
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_ub_cand = (rhs - aik * lb_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            status = update_ub(constraints, stay, new_ub_cand,
+                               i HUGE_BOUND_IS_NOT_OK);
 
-            if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
+            if (status == INFEASIBLE ||
+                HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return status;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_lb_cand = (rhs - aik * ub_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            status = update_lb(constraints, stay, new_lb_cand,
+                               i HUGE_BOUND_IS_NOT_OK);
         }
     }
     else
@@ -217,20 +223,25 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_lb_cand = (rhs - aik * lb_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            status = update_lb(constraints, stay, new_lb_cand,
+                               i HUGE_BOUND_IS_NOT_OK);
 
-            if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
+            if (status == INFEASIBLE ||
+                HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return status;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_ub_cand = (rhs - aik * ub_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            status = update_ub(constraints, stay, new_ub_cand,
+                               i HUGE_BOUND_IS_NOT_OK);
         }
     }
+
+    return status;
 }
 
 #ifndef TESTING
@@ -701,8 +712,12 @@ static PresolveStatus remove_dton_eq_rows__(Problem *prob, int max_shift_per_row
 
         // transfer bounds to variable that stays and skip the reduction
         // if the variable that stays was fixed because of the bound change
-        modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb, bounds[k].ub,
-                      j, col_tags[k]);
+        if (modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb,
+                          bounds[k].ub, j, col_tags[k]) == INFEASIBLE)
+        {
+            status = INFEASIBLE;
+            break;
+        }
 
         if (HAS_TAG(col_tags[j], C_TAG_INACTIVE))
         {
@@ -748,11 +763,12 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
 
     // important to have double ptr in case of realloc when appending
     iVec **dton_rows = &(prob->constraints->state->dton_rows);
+    PresolveStatus status = UNCHANGED;
     while ((*dton_rows)->len > 0)
     {
-        PresolveStatus temp = remove_dton_eq_rows__(prob, max_shift_per_row);
+        status = remove_dton_eq_rows__(prob, max_shift_per_row);
 
-        if (temp != REDUCED)
+        if (status != REDUCED)
         {
             break;
         }
@@ -767,6 +783,6 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
 
     DEBUG(verify_problem_up_to_date(prob->constraints));
 
-    // always return UNCHANGED because this function can't detect infeas/unbnd.
-    return UNCHANGED;
+    // either INFEASIBLE or UNCHANGED (never REDUCED)
+    return (status == INFEASIBLE) ? INFEASIBLE : UNCHANGED;
 }
-- 
2.43.0


From 1c0d69fd2551f8879f103d2a230a7e5ab730b5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 02/16] fix: print nothing when verbose is false

---
 src/core/Presolver.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 5adc344..9f774c1 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -360,7 +360,7 @@ cleanup:
 static inline bool update_termination(size_t nnz_after_cycle,
                                       size_t nnz_before_cycle, Complexity complexity,
                                       PresolveStatus status, double max_time,
-                                      Timer outer_timer)
+                                      Timer outer_timer, bool verbose)
 {
     if (HAS_STATUS(status, UNBNDORINFEAS))
     {
@@ -377,7 +377,11 @@ static inline bool update_termination(size_t nnz_after_cycle,
 
     if (GET_ELAPSED_SECONDS(outer_timer) >= max_time)
     {
-        printf("Maximum time limit of %.2f seconds reached.\n", max_time);
+        if (verbose)
+        {
+            printf("Maximum time limit of %.2f seconds reached.\n", max_time);
+        }
+
         return true;
     }
 
@@ -715,7 +719,7 @@ PresolveStatus run_presolver(Presolver *presolver)
 
         terminate =
             update_termination(nnz_after_cycle, nnz_before_cycle, curr_complexity,
-                               status, stgs->max_time, outer_timer);
+                               status, stgs->max_time, outer_timer, stgs->verbose);
 
         if (curr_complexity == MEDIUM)
         {
@@ -730,7 +734,11 @@ PresolveStatus run_presolver(Presolver *presolver)
     if (status != UNCHANGED)
     {
         // problem detected to be infeasible or unbounded
-        print_infeas_or_unbnd_message(status);
+        if (stgs->verbose)
+        {
+            print_infeas_or_unbnd_message(status);
+        }
+
         return status;
     }
 
-- 
2.43.0


From 27e22094cf0cc45f4a78666623c6b7fc759fe34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 03/16] fix: keep the qsort comparator state per thread

---
 include/core/pslp_thread.h         | 8 ++++++++
 src/explorers/Parallel_rows.c      | 8 +++++---
 src/explorers/Primal_propagation.c | 5 +++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/core/pslp_thread.h b/include/core/pslp_thread.h
index e0ac373..ffc2848 100644
--- a/include/core/pslp_thread.h
+++ b/include/core/pslp_thread.h
@@ -1,6 +1,14 @@
 #ifndef PSLP_THREAD_H
 #define PSLP_THREAD_H
 
+// storage class of file-scope variables that must not be shared between presolvers
+// that run in different threads
+#if defined(_MSC_VER)
+#define PSLP_THREAD_LOCAL __declspec(thread)
+#else
+#define PSLP_THREAD_LOCAL __thread
+#endif
+
 #if defined(_WIN32) || defined(_WIN64)
 
 #include <stdint.h>
diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index f29c8b9..1b3ad8f 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -28,14 +28,16 @@
 #include "Workspace.h"
 #include "iVec.h"
 #include "limits.h" // for INT_MAX
+#include "pslp_thread.h"
 #include "utils.h"
 #include <PSLP_warnings.h>
 #include <math.h> // For round()
 #include <stdint.h>
 
-// global variables needed for qsort
-static int *global_sparsity_IDs;
-static int *global_coeff_hashes;
+// variables needed for qsort (one copy per thread, so that presolvers running in
+// different threads do not share them)
+static PSLP_THREAD_LOCAL int *global_sparsity_IDs;
+static PSLP_THREAD_LOCAL int *global_coeff_hashes;
 
 // djb2 hash function
 static inline uint32_t hash_int_array(const int *arr, int size)
diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index a77fb97..b6f101b 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -28,6 +28,7 @@
 #include "SimpleReductions.h"
 #include "State.h"
 #include "Workspace.h"
+#include "pslp_thread.h"
 #include "utils.h"
 
 static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
@@ -782,8 +783,8 @@ PresolveStatus propagate_primal(Problem *prob, bool finite_bound_tightening)
     return UNCHANGED;
 }
 
-// Static variable to hold col_sizes (for qsort)
-static const int *global_col_sizes;
+// Static variable to hold col_sizes (for qsort), one copy per thread
+static PSLP_THREAD_LOCAL const int *global_col_sizes;
 
 int compare_col_len(const void *a, const void *b)
 {
-- 
2.43.0


From ed40b3fe1f265e4226c4ddb28c586523910cecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 04/16] fix: do not read past the end of the caller's row
 pointers

---
 src/core/Matrix.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 3736b02..385551f 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -107,12 +107,16 @@ Matrix *matrix_new_no_extra_space(const double *Ax, const int *Ai, const int *Ap
     memcpy(A->x, Ax, nnz * sizeof(double));
     memcpy(A->i, Ai, nnz * sizeof(int));
 
-    for (int i = 0; i <= n_rows; ++i)
+    for (int i = 0; i < n_rows; ++i)
     {
         A->p[i].start = Ap[i];
         A->p[i].end = Ap[i + 1];
     }
 
+    // Ap has n_rows + 1 entries
+    A->p[n_rows].start = Ap[n_rows];
+    A->p[n_rows].end = Ap[n_rows];
+
     return A;
 }
 
-- 
2.43.0


From fb1d39df75976fd3b6ed59d6a2eda7deb1d171af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 05/16] fix: relax implied variable bounds in release builds
 too

---
 src/explorers/Primal_propagation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index b6f101b..cbd00eb 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -864,7 +864,7 @@ void remove_redundant_bounds(Constraints *constraints)
                                    bounds))
             {
                 remove_finite_lb_from_activities(&col, acts, bounds[ii].lb);
-                DEBUG(bounds[ii].lb = -INF);
+                bounds[ii].lb = -INF;
                 UPDATE_TAG(col_tags[ii], C_TAG_LB_INF);
             }
         }
@@ -876,7 +876,7 @@ void remove_redundant_bounds(Constraints *constraints)
                                    bounds))
             {
                 remove_finite_ub_from_activities(&col, acts, bounds[ii].ub);
-                DEBUG(bounds[ii].ub = INF);
+                bounds[ii].ub = INF;
                 UPDATE_TAG(col_tags[ii], C_TAG_UB_INF);
             }
         }
-- 
2.43.0


From c1f01dfa67600dfd1a70aeac918cd9ba6073dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 06/16] fix: record the bound tags of the column that stays
 before they are merged

---
 src/explorers/Parallel_cols.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index 717b72e..fef2fa3 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -52,6 +52,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
     int ii, jj, j, k, len_j;
     const int *aj_cols;
     double ratio, cj, ck, ak0, lb_j_old, ub_j_old;
+    ColTag col_tag_j_old;
     const double *aj_vals;
 
     for (ii = 0; ii < bin_size - 1; ++ii)
@@ -97,6 +98,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 // ---------------------------------------------------------------------
                 lb_j_old = bounds[j].lb;
                 ub_j_old = bounds[j].ub;
+                col_tag_j_old = col_tags[j];
                 if (ratio > 0)
                 {
                     // update lb
@@ -162,7 +164,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 set_col_to_substituted(k, col_tags + k, sub_cols_to_delete);
                 save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,
                                             bounds[k].lb, bounds[k].ub, ratio, j, k,
-                                            col_tags[j], col_tags[k]);
+                                            col_tag_j_old, col_tags[k]);
             }
             else
             {
-- 
2.43.0


From 295a4f7cdde79240c547e52b5337cd564d906398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 07/16] fix: do not modify the dual solution inside a
 debug-only check

---
 src/core/Postsolver.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 6e4bc03..ecb366e 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -287,15 +287,17 @@ static void retrieve_parallel_col(Solution *sol, const int *indices,
     }
 
 #ifndef NDEBUG
-    SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[j]);
+    // (the check must not change the solution)
+    double zj = sol->z[j];
+    SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(zj);
 
     // if the multiplier is positive the variable should be at its lower bound
-    if (sol->z[j] > 0)
+    if (zj > 0)
     {
         assert(!HAS_TAG(cTag_j, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(sol->x[j], lb_j));
     }
     // if the multiplier is negative the variable should be at its upper bound
-    else if (sol->z[j] < 0)
+    else if (zj < 0)
     {
         assert(!HAS_TAG(cTag_j, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(sol->x[j], ub_j));
     }
-- 
2.43.0


From 388bbae2e64c87248c447b7798c7fd5465c4cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 08/16] fix: return NULL from new_presolver when an allocation
 fails

---
 include/data_structures/Vec_macros.h |  1 +
 src/core/Postsolver.c                |  7 ++--
 src/core/Presolver.c                 | 53 ++++++++++++++++++++--------
 src/core/State.c                     |  5 +--
 src/core/Workspace.c                 | 19 +++++++---
 5 files changed, 59 insertions(+), 26 deletions(-)

diff --git a/include/data_structures/Vec_macros.h b/include/data_structures/Vec_macros.h
index f71b6ed..e04ae05 100644
--- a/include/data_structures/Vec_macros.h
+++ b/include/data_structures/Vec_macros.h
@@ -62,6 +62,7 @@
                                                                                     \
     static inline void TYPE_NAME##Vec_free(TYPE_NAME##Vec *vec)                     \
     {                                                                               \
+        RETURN_IF_NULL(vec);                                                        \
         PS_FREE(vec->data);                                                         \
         PS_FREE(vec);                                                               \
     }                                                                               \
diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index ecb366e..a207080 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -38,6 +38,7 @@
 PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
 {
     PostsolveInfo *info = (PostsolveInfo *) ps_malloc(1, sizeof(PostsolveInfo));
+    RETURN_PTR_IF_NULL(info, NULL);
 
     size_t init_size;
 
@@ -55,11 +56,7 @@ PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
     info->type = u16Vec_new(init_size);
     if (!info->starts || !info->indices || !info->vals || !info->type)
     {
-        PS_FREE(info->starts);
-        PS_FREE(info->indices);
-        PS_FREE(info->vals);
-        PS_FREE(info->type);
-        PS_FREE(info);
+        postsolve_info_free(info);
         return NULL;
     }
 
diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 9f774c1..a1ac66e 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -63,6 +63,7 @@ enum Complexity
 PresolveStats *init_stats(size_t n_rows, size_t n_cols, size_t nnz)
 {
     PresolveStats *stats = (PresolveStats *) ps_calloc(1, sizeof(PresolveStats));
+    RETURN_PTR_IF_NULL(stats, NULL);
     stats->n_rows_original = n_rows;
     stats->n_cols_original = n_cols;
     stats->nnz_original = nnz;
@@ -118,6 +119,7 @@ static void *init_thread_func(void *arg)
     ParallelInitData *data = (ParallelInitData *) arg;
 
     data->row_tags = new_rowtags(data->lhs_copy, data->rhs_copy, data->n_rows);
+    RETURN_PTR_IF_NULL(data->row_tags, NULL);
 
     for (int i = 0; i < data->n_cols; i++)
     {
@@ -274,25 +276,27 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
                                       ubs,  lhs_copy, rhs_copy, bounds,   col_tags,
                                       NULL, NULL,     NULL,     row_sizes};
 
-    ps_thread_create(&thread_id, NULL, init_thread_func, &parallel_data);
+    bool has_thread = (ps_thread_create(&thread_id, NULL, init_thread_func,
+                                        &parallel_data) == 0);
 
     // Main thread: Transpose A and count rows
     AT = transpose(A, work->iwork_n_cols);
-    if (!AT)
+    if (AT) count_rows(AT, col_sizes);
+
+    // sync threads (do the work here if the thread could not be created)
+    if (has_thread)
     {
         ps_thread_join(&thread_id, NULL);
-        goto cleanup;
     }
-    count_rows(AT, col_sizes);
-
-    // sync threads
-    ps_thread_join(&thread_id, NULL);
+    else
+    {
+        init_thread_func(&parallel_data);
+    }
 
     row_tags = parallel_data.row_tags;
-    if (!row_tags) goto cleanup;
     locks = parallel_data.locks;
     activities = parallel_data.activities;
-    if (!locks || !activities) goto cleanup;
+    if (!AT || !row_tags || !locks || !activities) goto cleanup;
 
     // ---------------------------------------------------------------------------
     //  Initialize internal data and constraints
@@ -305,24 +309,45 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
         constraints_new(A, AT, lhs_copy, rhs_copy, bounds, data, row_tags, col_tags);
     if (!constraints) goto cleanup;
 
+    // these are now owned by 'constraints'
+    A = AT = NULL;
+    lhs_copy = rhs_copy = NULL;
+    bounds = NULL;
+    row_tags = NULL;
+    col_tags = NULL;
+
     // ---------------------------------------------------------------------------
     //             Allocate the actual presolver
     // ---------------------------------------------------------------------------
-    presolver = (Presolver *) ps_malloc(1, sizeof(Presolver));
+    presolver = (Presolver *) ps_calloc(1, sizeof(Presolver));
+    if (!presolver) goto cleanup;
     obj = objective_new(c_copy);
-    if (!presolver || !obj) goto cleanup;
+    if (!obj) goto cleanup;
+    c_copy = NULL; // owned by 'obj'
     presolver->stgs = stgs;
     presolver->prob = new_problem(constraints, obj);
-    presolver->stats = init_stats(A->m, A->n, nnz);
+    if (!presolver->prob) goto cleanup;
+
+    // these are now owned by 'presolver->prob'
+    DEBUG(run_debugger(constraints, false));
+    row_sizes = col_sizes = NULL;
+    locks = NULL;
+    activities = NULL;
+    data = NULL;
+    work = NULL;
+    constraints = NULL;
+    obj = NULL;
+
+    presolver->stats = init_stats(n_rows, n_cols, nnz);
     // presolver->stats->nnz_removed_trivial = nnz - A->nnz; due to clean_small_coeff
     presolver->reduced_prob =
         (PresolvedProblem *) ps_calloc(1, sizeof(PresolvedProblem));
-    DEBUG(run_debugger(constraints, false));
+    if (!presolver->stats || !presolver->reduced_prob) goto cleanup;
 
     // ---------------------------------------------------------------------------
     //           Allocate space for returning the solution
     // ---------------------------------------------------------------------------
-    presolver->sol = (Solution *) ps_malloc(1, sizeof(Solution));
+    presolver->sol = (Solution *) ps_calloc(1, sizeof(Solution));
     if (!presolver->sol) goto cleanup;
     presolver->sol->x = (double *) ps_malloc(n_cols, sizeof(double));
     presolver->sol->y = (double *) ps_malloc(n_rows, sizeof(double));
diff --git a/src/core/State.c b/src/core/State.c
index 408cca5..06c6fd3 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -88,8 +88,9 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     data->postsolve_info = postsolve_info_new(n_rows, n_cols);
 
     if (!data->ston_rows || !data->ston_cols || !data->dton_rows ||
-        !data->empty_cols || !data->empty_rows || !data->fixed_cols_to_delete ||
-        !data->sub_cols_to_delete || !data->rows_to_delete || !data->postsolve_info)
+        !data->empty_cols || !data->empty_rows || !data->updated_activities ||
+        !data->fixed_cols_to_delete || !data->sub_cols_to_delete ||
+        !data->rows_to_delete || !data->postsolve_info)
     {
         free_state(data);
         return NULL;
diff --git a/src/core/Workspace.c b/src/core/Workspace.c
index ffd3d46..feaa0bf 100644
--- a/src/core/Workspace.c
+++ b/src/core/Workspace.c
@@ -35,9 +35,13 @@ Work *new_work(size_t n_rows, size_t n_cols)
     work->iwork2_max_nrows_ncols =
         (int *) ps_calloc(MAX(n_rows, n_cols), sizeof(int));
     work->int_vec = iVec_new(INT_VEC_INITIALIZATION);
-    work->mappings = (Mapping *) ps_malloc(1, sizeof(Mapping));
-    work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
-    work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    work->mappings = (Mapping *) ps_calloc(1, sizeof(Mapping));
+
+    if (work->mappings)
+    {
+        work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
+        work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    }
 
     if (!work->iwork_n_cols || !work->iwork_n_rows ||
         !work->iwork1_max_nrows_ncols || !work->iwork2_max_nrows_ncols ||
@@ -63,8 +67,13 @@ void free_work(Work *work)
     PS_FREE(work->iwork1_max_nrows_ncols);
     PS_FREE(work->iwork2_max_nrows_ncols);
     iVec_free(work->int_vec);
-    PS_FREE(work->mappings->cols);
-    PS_FREE(work->mappings->rows);
+
+    if (work->mappings)
+    {
+        PS_FREE(work->mappings->cols);
+        PS_FREE(work->mappings->rows);
+    }
+
     PS_FREE(work->mappings);
     PS_FREE(work);
 }
-- 
2.43.0


From 0b56f522192bf563834e2bcd4e66fa8412d69ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 09/16] fix: recompute both activities when a substitution
 makes both finite

---
 src/core/Activity.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/Activity.c b/src/core/Activity.c
index 49c7a8f..bfc6add 100644
--- a/src/core/Activity.c
+++ b/src/core/Activity.c
@@ -704,18 +704,19 @@ Altered_Activity update_activity_coeff_change(Activity *act, double lb, double u
     }
 #endif
 
-    // recompute from scratch if necessary
+    // recompute from scratch if necessary (both may have to be recomputed)
+    Altered_Activity altered = NO_RECOMPUTE;
     if (act->n_inf_min == 0 && n_inf_min_before == 1)
     {
-        return MIN_ALTERED_RECOMPUTE;
+        altered |= MIN_ALTERED_RECOMPUTE;
     }
 
     if (act->n_inf_max == 0 && n_inf_max_before == 1)
     {
-        return MAX_ALTERED_RECOMPUTE;
+        altered |= MAX_ALTERED_RECOMPUTE;
     }
 
-    return NO_RECOMPUTE;
+    return altered;
 }
 
 void remove_finite_lb_from_activities(const ConstColView *col, Activity *acts,
-- 
2.43.0


From 571a30f7525b9afa23cd445da099915662ff27d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 10/16] fix: account for columns fixed in the same pass when a
 column is fixed to infinity

---
 src/core/Postsolver.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index a207080..9502642 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -683,9 +683,11 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
                                   const Constraints *constraints, double bound)
 {
     assert(pos_inf == 1 || pos_inf == -1);
-    int i, row;
+    int i, j, row;
     const Matrix *AT = constraints->AT;
     const Matrix *A = constraints->A;
+    const ColTag *col_tags = constraints->col_tags;
+    const Bound *bounds = constraints->bounds;
     int *row_sizes = constraints->state->row_sizes;
     double *lhs = constraints->lhs;
     double *rhs = constraints->rhs;
@@ -705,6 +707,19 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     {
         row = rows[i];
         side = (HAS_TAG(row_tags[row], R_TAG_LHS_INF)) ? rhs[row] : lhs[row];
+
+        // columns that have been fixed to a finite value but have not yet been
+        // removed from A are not retrieved before this column, so we account
+        // for them here
+        for (j = A->p[row].start; j < A->p[row].end; ++j)
+        {
+            int k = A->i[j];
+            if (HAS_TAG(col_tags[k], C_TAG_FIXED) && !IS_ABS_INF(bounds[k].lb))
+            {
+                side -= A->x[j] * bounds[k].lb;
+            }
+        }
+
         dVec_append(info->vals, side);
         dVec_append_array(info->vals, A->x + A->p[row].start,
                           (size_t) row_sizes[row]);
-- 
2.43.0


From ddca9ed8900778f9587142cdcf5631078f5b2d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 11/16] fix: keep an inequality whose column singleton may be
 at its bound

---
 src/explorers/StonCols.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 5f07098..6d71e49 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -376,8 +376,9 @@ static void fix_col_ston(double val, double Aik, RowView *row, ColView *col,
 static inline PresolveStatus
 process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
                      bool impl_free_from_above, bool impl_free_from_below,
-                     Activity *act, Lock *locks, iVec *rows_to_delete, size_t *A_nnz,
-                     const Bound *bounds, iVec *ston_rows, iVec *dton_rows,
+                     bool not_at_ub, bool not_at_lb, Activity *act, Lock *locks,
+                     iVec *rows_to_delete, size_t *A_nnz, const Bound *bounds,
+                     iVec *ston_rows, iVec *dton_rows,
                      PostsolveInfo *postsolve_info)
 {
     bool is_lhs_inf = HAS_TAG(*row->tag, R_TAG_LHS_INF);
@@ -486,10 +487,10 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
 
     // ----------------------------------------------------------------
     // try to conclude that the upper part of the constraint is active
-    // at an optimal solution
+    // at an optimal solution (if the variable can be at its bound, the
+    // dual variable of the constraint may get the wrong sign)
     // ----------------------------------------------------------------
-    if ((ck < 0 && Aik > 0 && impl_free_from_above) ||
-        (ck > 0 && Aik < 0 && impl_free_from_below))
+    if ((ck < 0 && Aik > 0 && not_at_ub) || (ck > 0 && Aik < 0 && not_at_lb))
     {
         // update locks in case the old lhs was infinite
         if (is_lhs_inf)
@@ -514,8 +515,7 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
     // try to conclude that the lower part of the constraint is active
     // at an optimal solution
     // ----------------------------------------------------------------
-    if ((ck > 0 && Aik > 0 && impl_free_from_below) ||
-        (ck < 0 && Aik < 0 && impl_free_from_above))
+    if ((ck > 0 && Aik > 0 && not_at_lb) || (ck < 0 && Aik < 0 && not_at_ub))
     {
         // update locks in case the old rhs was infinite
         if (is_rhs_inf)
@@ -665,9 +665,15 @@ PresolveStatus remove_ston_cols__(Problem *prob)
         }
         else
         {
+            bool not_at_ub = implied_free_from_above_by_row(
+                Aik, &const_row_view, bounds[k].lb, bounds[k].ub - FEAS_TOL,
+                col_tags[k], acts + i, col_tags, bounds);
+            bool not_at_lb = implied_free_from_below_by_row(
+                Aik, &const_row_view, bounds[k].lb + FEAS_TOL, bounds[k].ub,
+                col_tags[k], acts + i, col_tags, bounds);
             status |= process_colston_ineq(
                 &row_view, &col_view, prob->obj, Aik, impl_free_from_above,
-                impl_free_from_below, acts + i, locks, rows_to_delete, A_nnz, bounds,
+                impl_free_from_below, not_at_ub, not_at_lb, acts + i, locks, rows_to_delete, A_nnz, bounds,
                 ston_rows, dton_rows, postsolve_info);
         }
     }
-- 
2.43.0


From b4eff1af369820a3150f7bfb3beff522974d58bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 12/16] fix: do not fix an empty column twice

---
 src/explorers/SimpleReductions.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index 22ced65..65070e6 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -691,8 +691,12 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
 
         if (IS_EQUAL_FEAS_TOL(bounds[ii].lb, bounds[ii].ub))
         {
-            // no need to check return value since bounds are equal
-            fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
+            // empty columns are fixed by remove_empty_cols
+            if (col_sizes[ii] > 0)
+            {
+                // no need to check return value since bounds are equal
+                fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
+            }
         }
         else if (bounds[ii].lb > bounds[ii].ub + FEAS_TOL)
         {
-- 
2.43.0


From 530b15a9b6c5159f6da95fee1cbc991299af6c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 13/16] fix: compare a parallel equality row with all rows
 merged before it

---
 src/explorers/Parallel_rows.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 1b3ad8f..c70c496 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -402,9 +402,20 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     {
         int other_row_idx = bin[i];
         bool is_other_row_eq = HAS_TAG(row_tags[other_row_idx], R_TAG_EQ);
+        double other_row_rhs = rhs[other_row_idx];
+        double other_row_lhs = lhs[other_row_idx];
+        is_rhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_RHS_INF);
+        is_lhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_LHS_INF);
 
         if (!is_remaining_row_eq && is_other_row_eq)
         {
+            // the equality must also be consistent with the rows that have
+            // already been merged into the remaining row
+            other_row_rhs = remaining_row_new_rhs;
+            other_row_lhs = remaining_row_new_lhs;
+            is_rhs_inf_other_row = is_rhs_inf_remaining_row;
+            is_lhs_inf_other_row = is_lhs_inf_remaining_row;
+
             // swap(remaining_row, other_row)
             int temp = remaining_row_idx;
             remaining_row_idx = other_row_idx;
@@ -421,10 +432,8 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
 
         other_row_coeff = A->x[A->p[other_row_idx].start];
         ratio = remaining_row_coeff / other_row_coeff;
-        other_row_rhs_scaled = rhs[other_row_idx] * ratio;
-        other_row_lhs_scaled = lhs[other_row_idx] * ratio;
-        is_rhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_RHS_INF);
-        is_lhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_LHS_INF);
+        other_row_rhs_scaled = other_row_rhs * ratio;
+        other_row_lhs_scaled = other_row_lhs * ratio;
 
         // -----------------------------------------------------------------------
         // if both rows are equalities we check that they are consistent
-- 
2.43.0


From dbcc8ecd2c1de5750bb480c9e0df22eb633f2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 14/16] fix: use the feasibility tolerance when a parallel row
 is compared with an equality

---
 src/explorers/Parallel_rows.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index c70c496..c223f80 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -452,12 +452,12 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
         {
             bool infeas_rhs =
                 !is_rhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs > other_row_rhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs < other_row_rhs_scaled));
+                ((ratio > 0 && remaining_row_new_rhs >= other_row_rhs_scaled + FEAS_TOL) ||
+                 (ratio < 0 && remaining_row_new_rhs <= other_row_rhs_scaled - FEAS_TOL));
             bool infeas_lhs =
                 !is_lhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs < other_row_lhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs > other_row_lhs_scaled));
+                ((ratio > 0 && remaining_row_new_rhs <= other_row_lhs_scaled - FEAS_TOL) ||
+                 (ratio < 0 && remaining_row_new_rhs >= other_row_lhs_scaled + FEAS_TOL));
 
             if (infeas_rhs || infeas_lhs)
             {
-- 
2.43.0


From aa33451f8066d04014477d4f6c77d7e65dace9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 15/16] fix: do not read past the end of a row when a
 coefficient is removed

---
 src/core/Matrix.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 385551f..a6546e0 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -521,10 +521,11 @@ void remove_coeff(RowView *row, int col)
         if (row->cols[i] == col)
         {
             shift = 1;
+            continue;
         }
 
-        row->vals[i] = row->vals[i + shift];
-        row->cols[i] = row->cols[i + shift];
+        row->vals[i - shift] = row->vals[i];
+        row->cols[i - shift] = row->cols[i];
     }
 
     assert(shift != 0);
-- 
2.43.0


From c5f562bbbd36c893a8b34a89f675ea0ce6fccc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 16/16] fix: do not remove another coefficient when a
 substituted coefficient vanishes

---
 src/core/Matrix.c       |  8 ++------
 src/explorers/DtonsEq.c | 27 ++++++++++++++++++---------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index a6546e0..05dd998 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -488,13 +488,9 @@ double insert_or_update_coeff(Matrix *A, int row, int col, double val, int *row_
             *row_size += 1;
         }
     }
-    // if the new value is zero, we just have to shift
-    else
+    // if the new value is zero, we just have to shift (if the coefficient exists)
+    else if (insertion != end && A->i[insertion] == col)
     {
-        // we only expect that the new value is zero if the coefficient
-        // already exists
-        assert(A->i[insertion] == col);
-
         // we only have to shift values if the zero is not in the end
         if (insertion != end - 1)
         {
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index c2f0819..3e6f6c3 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -288,12 +288,18 @@ static inline
     // TODO: should we have rejected the reduction if the new value is
     // very small? (don't delete todo here)
     // -----------------------------------------------------------------
-    if (insertion != end && A->i[insertion] == j)
+    bool stays_in_row = (insertion != end && A->i[insertion] == j);
+    if (stays_in_row)
     {
         old_val = A->x[insertion];
     }
 
     double new_val = old_val - (aij / aik) * A->x[subst_idx];
+    if (ABS(new_val) <= ZERO_TOL)
+    {
+        new_val = 0.0;
+    }
+
     Old_and_new_coeff old_and_new_coeff;
     old_and_new_coeff.old_coeff_stay = old_val;
     old_and_new_coeff.old_coeff_subst = A->x[subst_idx];
@@ -327,16 +333,19 @@ static inline
     insertion -= (subst_idx < insertion);
 
     // -------------------------------------------------------------------
-    // if we get unexpected cancellation we should remove the coefficient,
-    // otherwise we insert it
+    // if we get unexpected cancellation we should remove the coefficient
+    // (if it exists), otherwise we insert it
     // -------------------------------------------------------------------
-    if (ABS(new_val) <= ZERO_TOL)
+    if (new_val == 0.0)
     {
-        len = (size_t) (end - insertion - 1);
-        memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
-        memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
-        end -= 1;
-        diff_row_size += 1;
+        if (stays_in_row)
+        {
+            len = (size_t) (end - insertion - 1);
+            memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
+            memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
+            end -= 1;
+            diff_row_size += 1;
+        }
     }
     // -----------------------------------------------------------------
     // Insert the new value. If it exists or should be inserted in
-- 
2.43.0

