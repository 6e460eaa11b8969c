From 1e5de7abaacca6e9ac29c20aaa6004f2394c4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:45 +0000
Subject: [PATCH 01/40] fix: qmatqmat stores its result in column-major order
 (was transposed, out of bounds when not square)

---
 c3/lib_clinalg/qmarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index b6b2d4a..5f05940 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -958,7 +958,7 @@ qmatqmat(const struct Qmarray * a, const struct Qmarray * b)
     for (jj = 0; jj < b->nrows; jj++){
         for (ii = 0; ii < a->ncols; ii++){
             // c[jj*a->ncols+ii] = a[:,ii]^T b[jj,:]
-            c->funcs[ii*c->nrows+jj] =  generic_function_sum_prod(b->ncols, 1, 
+            c->funcs[jj*c->nrows+ii] =  generic_function_sum_prod(b->ncols, 1, 
                     a->funcs + ii*a->nrows, b->nrows, b->funcs + jj);
         }
     }
-- 
2.43.0


From 228234c33a5ee457fe94ebf0bfd493e098d790f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:54 +0000
Subject: [PATCH 02/40] fix: function_train_sum of one-dimensional function
 trains (stacked the only core twice, leading rank 2)

---
 c3/lib_clinalg/ft.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index b430784..af7a4c3 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2848,6 +2848,14 @@ function_train_sum(const struct FunctionTrain * a,
                    const struct FunctionTrain * b)
 {
     struct FunctionTrain * ft = function_train_alloc(a->dim);
+
+    if (ft->dim == 1){ // a single core, nothing to concatenate
+        ft->cores[0] = qmarray_copy(b->cores[0]);
+        qmarray_axpy(1.0,a->cores[0],ft->cores[0]);
+        ft->ranks[0] = a->ranks[0];
+        ft->ranks[1] = a->ranks[1];
+        return ft;
+    }
     
     // first core
     ft->cores[0] = qmarray_stackh(a->cores[0], b->cores[0]);
-- 
2.43.0


From b73cb810c83f9240cc2ae2cdbbd2bb4ab10b5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:54 +0000
Subject: [PATCH 03/40] fix: one-dimensional function_train_linear and
 function_train_quadratic_aligned leave the last rank at zero

---
 c3/lib_clinalg/ft.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index af7a4c3..9222b4a 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -1769,6 +1769,7 @@ function_train_linear(const double * c, size_t ldc,
 
     size_t onDim = 0;
     ft->ranks[onDim] = 1;
+    ft->ranks[dim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
     }
@@ -2049,6 +2050,7 @@ function_train_quadratic_aligned(const double * coeffs, const double * m,
 
     size_t onDim = 0;
     ft->ranks[onDim] = 1;
+    ft->ranks[dim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
     }
-- 
2.43.0


From 95d292f7f9ffde2763b6630fb1ddc793c85b94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:54 +0000
Subject: [PATCH 04/40] fix: function_train_quadratic_aligned builds the last
 core with the options of the previous dimension

---
 c3/lib_clinalg/ft.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 9222b4a..3c40407 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2088,6 +2088,7 @@ function_train_quadratic_aligned(const double * coeffs, const double * m,
         }
 
         onDim = dim-1;
+        o = multi_approx_opts_get_aopts(aopts,onDim);
 
         ft->ranks[onDim] = 2;
         ft->ranks[onDim+1] = 1;
-- 
2.43.0


From ddd459ccaeafe8eb4eed8629e4e1c50172683c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:54 +0000
Subject: [PATCH 05/40] fix: one-dimensional function_train_initsum writes past
 its only core and leaves the last rank at zero

---
 c3/lib_clinalg/ft.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 3c40407..78bb50d 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -1616,6 +1616,7 @@ function_train_initsum(struct MultiApproxOpts * ftargs, struct Fwrap * fw)
     fwrap_set_which_eval(fw,onDim);
     aopt = multi_approx_opts_get_aopts(ftargs, onDim);
     ft->ranks[onDim] = 1;
+    ft->ranks[dim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
     }
@@ -1625,10 +1626,11 @@ function_train_initsum(struct MultiApproxOpts * ftargs, struct Fwrap * fw)
 
     ft->cores[onDim]->funcs[0] = 
         generic_function_approximate1d(aopt->fc,aopt->aopts,fw);
-    ft->cores[onDim]->funcs[1] = generic_function_constant(1.0, aopt->fc, 
-                                                           aopt->aopts);
 
     if (dim > 1){
+        ft->cores[onDim]->funcs[1] = generic_function_constant(1.0, aopt->fc,
+                                                               aopt->aopts);
+
         for (onDim = 1; onDim < dim-1; onDim++){
 
             fwrap_set_which_eval(fw,onDim);
-- 
2.43.0


From fdb341f9ca33f22b652b0e426b7c73de2107e33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 06/40] fix: function_train_operate leaves the first rank at
 zero

---
 c3/lib_clinalg/ft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 78bb50d..facb5ac 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -261,7 +261,7 @@ function_train_operate(const struct FunctionTrain * ft,
 {
 
     struct FunctionTrain * ft_out = function_train_alloc(ft->dim);
-    ft_out->ranks[1] = ft->ranks[1];
+    ft_out->ranks[0] = ft->ranks[0];
     for (size_t ii = 0; ii < ft_out->dim; ii++){
         ft_out->cores[ii] = qmarray_operate_elements(ft->cores[ii],
                                                      op[ii]);
-- 
2.43.0


From 02a968a6834275015015c710ef4247b4bde86f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 07/40] fix: function_train_gradient_eval returns zero for
 one-dimensional function trains

---
 c3/lib_clinalg/ft.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index facb5ac..526fea3 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4328,8 +4328,10 @@ void function_train_gradient_eval(const struct FunctionTrain * ft,
         ind_rl += r2;
     }
 
-    backind = 0;
-    out[backind] = cblas_ddot(ranks[1],grads_lr,1,evals_rl + ind_rl, 1);
+    if (dim > 1){
+        backind = 0;
+        out[backind] = cblas_ddot(ranks[1],grads_lr,1,evals_rl + ind_rl, 1);
+    }
 
     free(evals_lr); evals_lr = NULL;
     free(evals_rl); evals_rl = NULL;
-- 
2.43.0


From c76d5cf0fc1e2b88987878f879cb2007a1fac78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 08/40] fix: function_train_eval_up_to_core includes the last
 requested core (returned the previous product, possibly out of bounds)

---
 c3/lib_clinalg/ft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 526fea3..852dc57 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -700,7 +700,7 @@ void function_train_eval_up_to_core(struct FunctionTrain * ft, size_t core, cons
         ft->cores[ii]->funcs, x[ii],t1);
     
     int onsol = 1;
-    for (ii = 1; ii < core; ii++){
+    for (ii = 1; ii <= core; ii++){
         if (ii%2 == 1){
             function_train_eval_next_core(ft,ii,1,x+ii,0,t1,0,t2,0,t3,0); // zeros because only 1 data point
             onsol = 2;
-- 
2.43.0


From b694f02253a9923f2591bfb57f6a300e606b5358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 09/40] fix: function_train_eval_co_perturb(_ind) read past the
 cores of one-dimensional function trains

---
 c3/lib_clinalg/ft.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 852dc57..267cfc3 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -1335,7 +1335,11 @@ double function_train_eval_co_perturb(struct FunctionTrain * ft,
         generic_function_1darray_eval2(
             ft->cores[ii]->nrows * ft->cores[ii]->ncols,
             ft->cores[ii]->funcs, pert[2*ii+1], t2);
-        if (ii == 0){
+        if (dim == 1){
+            vals[0] = t1[0];
+            vals[1] = t2[0];
+        }
+        else if (ii == 0){
             vals[ii] = cblas_ddot(ft->ranks[1],t1,1,bprod[1],1);
             vals[ii+1] = cblas_ddot(ft->ranks[1],t2,1,bprod[1],1);
         }
@@ -1489,7 +1493,11 @@ double function_train_eval_co_perturb_ind(struct FunctionTrain * ft,
         generic_function_1darray_eval2_ind(
             ft->cores[ii]->nrows * ft->cores[ii]->ncols,
             ft->cores[ii]->funcs, pert[2*ii+1], t2);
-        if (ii == 0){
+        if (dim == 1){
+            vals[0] = t1[0];
+            vals[1] = t2[0];
+        }
+        else if (ii == 0){
             vals[ii] = cblas_ddot(ft->ranks[1],t1,1,bprod[1],1);
             vals[ii+1] = cblas_ddot(ft->ranks[1],t2,1,bprod[1],1);
         }
-- 
2.43.0


From 0a8c1a634bb177825ba292385cb9b688cce600a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 10/40] fix: c3vgemv accumulates into y (summed into empty
 function trains, which aborts)

---
 c3/lib_clinalg/ft.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 267cfc3..df090b7 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4770,17 +4770,12 @@ void c3vgemv(size_t m, size_t n, double alpha, struct FT1DArray * A, size_t lda,
 
     size_t ii;
     assert (*y != NULL);
-    ft1d_array_scale(*y,m,incy,beta);
-    
-    struct FT1DArray * run = ft1d_array_alloc(m);
+
     for (ii = 0; ii < m; ii++){
         struct FT1DArray ftatemp;
         ftatemp.ft = A->ft+ii;
-        c3vprodsum(n,1.0,&ftatemp,lda,x,incx,0.0,&(run->ft[ii*incy]),epsilon, opts);
+        c3vprodsum(n,alpha,&ftatemp,lda,x,incx,beta,&((*y)->ft[ii*incy]),epsilon, opts);
     }
-    c3vaxpy(m,alpha,run,1,y,incy,epsilon, opts);
-
-    ft1d_array_free(run); run = NULL;
 }
 
 /***********************************************************//**
-- 
2.43.0


From 931502dd5909221971b9a6800b68d425429fbab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 11/40] fix: c3vgemv_arr applies beta once

---
 c3/lib_clinalg/ft.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index df090b7..9c31764 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4795,8 +4795,7 @@ void c3vgemv_arr(int trans, size_t m, size_t n, double alpha, double * A,
 {
     size_t ii;
     assert (*y != NULL);
-    ft1d_array_scale(*y,m,incy,beta);
-        
+
     if (trans == 0){
         for (ii = 0; ii < m; ii++){
             c3vaxpy_arr(n,alpha,B,incb,A+ii,lda,beta,&((*y)->ft[ii*incy]),epsilon, opts);
-- 
2.43.0


From 043d19c002420c130c3f28967666c03b95db88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:18 +0000
Subject: [PATCH 12/40] fix: function_train_round(_maxrank_all) read past the
 cores of one-dimensional function trains

---
 c3/lib_clinalg/ft.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 9c31764..c9aa491 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2600,6 +2600,9 @@ function_train_round(struct FunctionTrain * ain, double epsilon,
     }
     struct OneApproxOpts * o = NULL;
     struct FunctionTrain * a = function_train_copy(ain);
+    if (a->dim == 1){ // nothing to truncate
+        return a;
+    }
 //    size_t ii;
     size_t core;
     struct Qmarray * temp = NULL;
@@ -2701,6 +2704,9 @@ function_train_round_maxrank_all(struct FunctionTrain * ain, double epsilon,
     }
     struct OneApproxOpts * o = NULL;
     struct FunctionTrain * a = function_train_copy(ain);
+    if (a->dim == 1){ // nothing to truncate
+        return a;
+    }
 //    size_t ii;
     size_t core;
     struct Qmarray * temp = NULL;
-- 
2.43.0


From 4e3aa0df551de944ae8dc9d92bd4294f6b7af6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 13/40] fix: const_elem_exp_aopts_alloc stores the upper bound
 as lower bound (upper bound uninitialized)

---
 c3/lib_funcs/constelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 3a31952..23bf21a 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -110,7 +110,7 @@ struct ConstElemExpAopts * const_elem_exp_aopts_alloc(size_t N, double * x)
     aopts->node_alloc = 0;
     aopts->nodes = x;
     aopts->lb = x[0];
-    aopts->lb = x[N-1];
+    aopts->ub = x[N-1];
         
     aopts->adapt = 0;
     aopts->delta = DBL_MAX;
-- 
2.43.0


From c3b01d0f5ec66093d0de1cb587b7dc072828f199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 14/40] fix: const_elem_exp_param_grad_eval(2) leave one
 gradient entry unset, and eval2 returns a node instead of the value

---
 c3/lib_funcs/constelm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 23bf21a..a75d6c8 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -753,7 +753,7 @@ int const_elem_exp_param_grad_eval(
             grad[ii*nparam+jj] = 0.0;
         }
 
-        for (size_t jj = indmin+2; jj < nparam; jj++)
+        for (size_t jj = indmin+1; jj < nparam; jj++)
         {
             grad[ii*nparam+jj] = 0.0;
         }
@@ -787,14 +787,14 @@ double const_elem_exp_param_grad_eval2(
         grad[jj] = 0.0;
     }
 
-    for (size_t jj = indmin+2; jj < nparam; jj++)
+    for (size_t jj = indmin+1; jj < nparam; jj++)
     {
         grad[jj] = 0.0;
     }
 
     grad[indmin] = 1.0;
 
-    return f->nodes[indmin];
+    return f->coeff[indmin];
 }
 
 /********************************************************//**
-- 
2.43.0


From b4930c5a250d8a5b253af7bc921d9ad8bade7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 15/40] fix: const_elem_exp_deriv computes the last value from
 an already overwritten coefficient

---
 c3/lib_funcs/constelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index a75d6c8..fd9c67b 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -697,7 +697,7 @@ struct ConstElemExp * const_elem_exp_deriv(const struct ConstElemExp * f)
     for (size_t ii = 1; ii < le->num_nodes-1; ii++){
         le->coeff[ii] = (le->coeff[ii+1] - le->coeff[ii]) / (le->nodes[ii+1] - le->nodes[ii]);
     }
-    le->coeff[le->num_nodes-1] = (le->coeff[le->num_nodes-1] - le->coeff[le->num_nodes-2]) /
+    le->coeff[le->num_nodes-1] = (f->coeff[le->num_nodes-1] - f->coeff[le->num_nodes-2]) /
         (le->nodes[le->num_nodes-1] - le->nodes[le->num_nodes-2]);
 
     return le;
-- 
2.43.0


From 3750bb61c9fe6a33ee4ff9682dad2e1f03594b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 16/40] fix: lin_elem_exp_squared_norm_param_grad is not the
 gradient of the squared norm

---
 c3/lib_funcs/linelm.c | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 746fb23..1a4e8c3 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -1085,27 +1085,16 @@ lin_elem_exp_squared_norm_param_grad(const struct LinElemExp * f,
         return 0;
     }
 
+    // the squared norm is lin_elem_exp_inner(f,f)
     double dx = f->nodes[1]-f->nodes[0];
-    double term1 = ((f->coeff[0]-1.0)/3.0 + f->coeff[1]/2.0) * dx;
-    grad[0] += 2.0 * scale * term1;
-    double dx2,df;
+    grad[0] += scale * f->coeff[0] * dx;
     for (size_t ii = 1; ii < f->num_nodes-1; ii++){
-        // left side of ii
-        df = f->coeff[ii] - f->coeff[ii-1];
-        grad[ii] += 2.0 * scale * (0.5 * f->coeff[ii] * dx + 1.0/3.0 * df * dx);
-
-        // right side
-        dx2 = dx * dx;
-        term1 = ((f->coeff[ii]-1.0)/3.0 + f->coeff[ii+1]/2.0) * dx;
-        grad[ii] += 2.0 * scale * term1;
-        
-        dx = dx2;
+        dx = f->nodes[ii+1]-f->nodes[ii-1];
+        grad[ii] += scale * f->coeff[ii] * dx;
     }
-
-    // left side of last node node
     size_t ii = f->num_nodes-1;
-    df = f->coeff[ii] - f->coeff[ii-1];
-    grad[ii] += 2.0 * scale * (0.5 * f->coeff[ii] * dx + 1.0/3.0 * df * dx);
+    dx = f->nodes[ii]-f->nodes[ii-1];
+    grad[ii] += scale * f->coeff[ii] * dx;
 
     return 0;
 }
-- 
2.43.0


From a6089e16b4b89e7466c91b48b5350dfa618a7364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 17/40] fix: adaptive lin/const_elem_exp_onezero (zero-length
 domain without zeros, a zero lost when one lies on the lower bound, unsorted
 check of the upper bound, leak)

---
 c3/lib_funcs/constelm.c | 7 +++++--
 c3/lib_funcs/linelm.c   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index fd9c67b..e757e70 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -1607,6 +1607,8 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
         if (nzeros == 0){
             double * nodes = calloc_double(2);
             double * coeff = calloc_double(2);
+            nodes[0] = opts->lb;
+            nodes[1] = opts->ub;
             struct ConstElemExp * le = const_elem_exp_init(2,nodes,coeff);
             le->coeff[0] = 1.0;
             free(nodes); nodes = NULL;
@@ -1626,7 +1628,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
             if (difflb < 1e-14){
                 onlb = 1;
             }
-            double diffub = fabs(zero_locs[nzeros-1]-opts->ub);
+            double diffub = fabs(sorted_arr[nzeros-1]-opts->ub);
             if (diffub < 1e-14){
                 onub = 1;
             }
@@ -1666,7 +1668,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 nodes[0] = opts->lb;
                 coeff[0] = 0.0;
                 for (size_t jj = 1; jj < nzeros; jj++){
-                    nodes[jj] = sorted_arr[jj-1];
+                    nodes[jj] = sorted_arr[jj];
                     coeff[jj] = 0.0;
                 }
                 nodes[nzeros] = opts->ub;
@@ -1692,6 +1694,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 assert (1 == 0);
             }
             /* print_const_elem_exp(le,3,NULL,stdout); */
+            free(sorted_arr); sorted_arr = NULL;
             return le;
         }
     }
diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 1a4e8c3..d02e446 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -2374,6 +2374,8 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
         if (nzeros == 0){
             double * nodes = calloc_double(2);
             double * coeff = calloc_double(2);
+            nodes[0] = opts->lb;
+            nodes[1] = opts->ub;
             struct LinElemExp * le = lin_elem_exp_init(2,nodes,coeff);
             le->coeff[0] = 1.0;
             free(nodes); nodes = NULL;
@@ -2393,7 +2395,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
             if (difflb < 1e-14){
                 onlb = 1;
             }
-            double diffub = fabs(zero_locs[nzeros-1]-opts->ub);
+            double diffub = fabs(sorted_arr[nzeros-1]-opts->ub);
             if (diffub < 1e-14){
                 onub = 1;
             }
@@ -2433,7 +2435,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 nodes[0] = opts->lb;
                 coeff[0] = 0.0;
                 for (size_t jj = 1; jj < nzeros; jj++){
-                    nodes[jj] = sorted_arr[jj-1];
+                    nodes[jj] = sorted_arr[jj];
                     coeff[jj] = 0.0;
                 }
                 nodes[nzeros] = opts->ub;
@@ -2459,6 +2461,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 assert (1 == 0);
             }
             /* print_lin_elem_exp(le,3,NULL,stdout); */
+            free(sorted_arr); sorted_arr = NULL;
             return le;
         }
     }
-- 
2.43.0


From faa22a3798b131421fc3503e87e2268250b2c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:44 +0000
Subject: [PATCH 18/40] fix: periodic second derivative uses half-integer
 frequencies for an odd number of nodes

---
 c3/lib_clinalg/diffusion.c | 2 +-
 c3/lib_funcs/linelm.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/diffusion.c b/c3/lib_clinalg/diffusion.c
index b38f5d4..fe182f0 100644
--- a/c3/lib_clinalg/diffusion.c
+++ b/c3/lib_clinalg/diffusion.c
@@ -776,7 +776,7 @@ static double * compute_Lp(size_t nx, const double * nodes)
     }
 
     for (size_t ii = 0; ii < nx; ii++){
-        p[ii] = dp * ii - dp * nx / 2.0;
+        p[ii] = dp * ii - dp * (nx / 2);
     }
 
     for (size_t ll=0; ll<nx; ll++){
diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index d02e446..92eed06 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -888,7 +888,7 @@ void lin_elem_exp_dderiv_initialize_fourier(struct LinElemExp * f)
     }
 
     for (size_t ii = 0; ii < nx; ii++){
-        p[ii] = dp * ii - dp * nx / 2.0;
+        p[ii] = dp * ii - dp * (nx / 2);
     }
 
     for (size_t ll=0; ll<nx; ll++){
-- 
2.43.0


From ef61990f6cc1cdfcf1ffb3ce9357a0322426a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:55 +0000
Subject: [PATCH 19/40] fix: parameter gradient of a one-dimensional function
 train was multiplied by the function value

---
 c3/lib_superlearn/parameterization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_superlearn/parameterization.c b/c3/lib_superlearn/parameterization.c
index 9b9cff7..e8a6ccc 100644
--- a/c3/lib_superlearn/parameterization.c
+++ b/c3/lib_superlearn/parameterization.c
@@ -996,7 +996,7 @@ double ft_param_gradeval_lin(struct FTparam * ftp, const double * grad_evals,
     onparam = onparam - ftp->nparams_per_core[backind];
 
     for (size_t ii = 0; ii < r2; ii++){
-        double right_mult = mem[indmem + r1 + ii];
+        double right_mult = (ftp->dim > 1) ? mem[indmem + r1 + ii] : 1.0;
         for (size_t ll = 0; ll < ftp->nparams_per_uni[onuni]; ll++){
             grad[onparam] =  grad_evals[onparam]*right_mult;
             onparam++;
@@ -1154,7 +1154,7 @@ double ft_param_gradeval(struct FTparam * ftp, const double * x,
     onparam = onparam - ftp->nparams_per_core[backind];
 
     for (size_t ii = 0; ii < r2; ii++){
-        double right_mult = mem[indmem + r1 + ii];
+        double right_mult = (ftp->dim > 1) ? mem[indmem + r1 + ii] : 1.0;
         for (size_t ll = 0; ll < ftp->nparams_per_uni[onuni]; ll++){
             grad[onparam] =  grad_evals[onparam]*right_mult;
             onparam++;
-- 
2.43.0


From 5fd83b9ae03e3278eb692c8151484ec7f96214a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 20/40] fix: copying a linear transform keeps its matrix types

---
 c3/lib_probability/probability.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 1927569..8eab6ee 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -645,6 +645,7 @@ struct LinearTransform * linear_transform_copy(struct LinearTransform * lt)
 {
     struct LinearTransform * newlt = 
         linear_transform_alloc(lt->dimin, lt->dimout, lt->A, lt->b, lt->det);
+    newlt->mt = lt->mt;
 
     if (lt->Ainv != NULL){
         newlt->Ainv = calloc_double(lt->dimin*lt->dimout);
@@ -652,6 +653,7 @@ struct LinearTransform * linear_transform_copy(struct LinearTransform * lt)
         newlt->binv = calloc_double(lt->dimin);
         memmove(newlt->binv, lt->binv, lt->dimin * sizeof(double));
         newlt->detinv = lt->detinv;
+        newlt->mti = lt->mti;
     }
     return newlt;
     
-- 
2.43.0


From 7696f55c8cff3655cea195d4cf09317fda2bb182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:19 +0000
Subject: [PATCH 21/40] fix: maxvol_rhs starts from the rows chosen by pivoting
 (LU of the wrong submatrix, one-based pivots used as indices, out of bounds
 for square matrices)

---
 c3/lib_linalg/linalg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index 8404f1a..b6818b1 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -1427,7 +1427,7 @@ int maxvol_rhs(const double * A, size_t n, size_t r, size_t * rows, double * Asi
 
     temp2 = calloc_double(n*r);
     memmove(temp2, A, n*r*siz);
-    dgetrf_((int*)&r,(int*)&r, temp2, (int*)&r, ipiv, &info); //lu decomp
+    dgetrf_((int*)&n,(int*)&r, temp2, (int*)&n, ipiv, &info); //lu decomp
     if (info < 0) printf("Input %d of LU is not correct\n ", info);
     //if (info > 0) printf("Rank is too high, suggest lowering it\n");
 
@@ -1449,6 +1449,7 @@ int maxvol_rhs(const double * A, size_t n, size_t r, size_t * rows, double * Asi
     }
 
     for (ii = 0; ii < r; ii++){
+        ipiv[ii] -= 1; // lapack counts from one
         jj = (size_t) ipiv[ii];
         
         if (jj != ii){
-- 
2.43.0


From f2f03ddef076f573561cd19e4a3d77a51634c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:19 +0000
Subject: [PATCH 22/40] fix: vec_kron passes the wrong leading dimension when
 the factors have different numbers of columns

---
 c3/lib_linalg/linalg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index b6818b1..ca5bab6 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -666,7 +666,7 @@ void vec_kron(size_t m, size_t n, double * a, size_t lda, size_t k, size_t l,
                 b, ldb, v, k, 0.0, temp, m);
     
     cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, n, l, m, 1.0,
-                    a, lda, temp, m, scale, out, n);
+                    a, lda, temp, m, scale, out, l);
     free(temp);
 }
 
@@ -680,7 +680,7 @@ void vec_kronl(size_t m, size_t n, double * a, size_t lda, size_t k, size_t l,
                 b, ldb, (double *) v, k, 0.0, temp, m);
     
     cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, n, l, m, 1.0,
-                    a, lda, temp, m, scale, (double *) out, n);
+                    a, lda, temp, m, scale, (double *) out, l);
     free(temp);
 }
 /*************************************************************//**
-- 
2.43.0


From 5ef846e96c7cf39cda012952408f47c9fa9034e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:19 +0000
Subject: [PATCH 23/40] fix: cross_index_merge pairs every right index with the
 first left index

---
 c3/lib_clinalg/indmanage.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c3/lib_clinalg/indmanage.c b/c3/lib_clinalg/indmanage.c
index 19e3796..a11370a 100644
--- a/c3/lib_clinalg/indmanage.c
+++ b/c3/lib_clinalg/indmanage.c
@@ -439,7 +439,6 @@ cross_index_merge(struct CrossIndex * left, struct CrossIndex * right)
     struct CrossNode * cl = left->nodes;
     struct CrossNode * cr = right->nodes;
     for (size_t ii = 0; ii < right->n;ii++){
-        cl = left->nodes;
         vals[ii] = calloc_double(d);
         memmove(vals[ii],cl->x,dl*sizeof(double));
         memmove(vals[ii]+dl,cr->x,dr*sizeof(double));
-- 
2.43.0


From e801a028370865fed9f22014f4ae0cc428c145a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:19 +0000
Subject: [PATCH 24/40] fix: strip_ends drops the terminator of the shifted
 string, and both strip functions read before empty strings

---
 c3/lib_stringmanip/stringmanip.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 0753621..29bc17a 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -57,7 +57,7 @@ void strip_blank_ends(char * strin)
     }
 
     n = strlen(str);
-    while (str[n]==' ' || str[n]=='\0')
+    while (n >= 0 && (str[n]==' ' || str[n]=='\0'))
         n--;
     str[n+1]='\0';
 }
@@ -69,11 +69,11 @@ void strip_ends(char * strin, char left, char right)
     char * str = strin;
     while (str[ii] == left)
     {
-        memmove(str,str+1,strlen(str+1));
+        memmove(str,str+1,strlen(str+1)+1);
     }
     
     n = strlen(str);
-    while (str[n] == right || str[n]=='\0'){
+    while (n >= 0 && (str[n] == right || str[n]=='\0')){
         n--;
     }
     str[n+1] = '\0';
-- 
2.43.0


From a3e712010884aa5ea304bc3c65fef8b7d393ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:19 +0000
Subject: [PATCH 25/40] fix: bite_string2 misses a separator that follows a
 partial match or starts the string

---
 c3/lib_stringmanip/stringmanip.c | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 29bc17a..bea2b5f 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -110,27 +110,13 @@ char * bite_string(char * strin, char tok)
 char * bite_string2(char * strin, char * tok)
 {
     char * out = NULL;
-    size_t ii = 0;
-    size_t cut = 0;
-    size_t nMatch = 0;
-    for (ii = 0; ii < strlen(strin); ii++){
-        if (strin[ii] == tok[nMatch]){
-            nMatch++;
-        }
-        else{
-            nMatch = 0;
-        }
-        if (nMatch == strlen(tok)){
-            cut = ii+1 - nMatch;
-            break;
-        }
-    }
-    
-    if (cut > 0){
+    char * found = strstr(strin,tok);
+    if (found != NULL){
+        size_t cut = (size_t)(found - strin);
         out = malloc((cut+1)*sizeof(char));
         memmove(out,strin,cut);
         out[cut] = '\0';
-        memmove(strin, strin+cut+strlen(tok), strlen(strin)+1-ii-1);
+        memmove(strin, found+strlen(tok), strlen(found+strlen(tok))+1);
     }
     return out;
 }
-- 
2.43.0


From e4593fd3a0218238be771f841065763deea11f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:19 +0000
Subject: [PATCH 26/40] fix: readtxt_double_array counts but does not read
 tab-separated numbers

---
 c3/lib_stringmanip/stringmanip.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index bea2b5f..e06c095 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -343,13 +343,13 @@ double * readtxt_double_array(char * str,size_t *nrows, size_t *ncols)
     /* printf("number of rows = %zu\n",*nrows); */
     /* printf("number of cols = %zu\n",*ncols); */
 
-    token = strtok(str3," ,\n");
+    token = strtok(str3,"\t ,\n");
     size_t ind = 0;
     /* printf("%s %zu \n",token,ind); */
     while (token != NULL){
         data[ind] = atof(token);
         ind++;
-        token = strtok(NULL," ,\n");
+        token = strtok(NULL,"\t ,\n");
         /* printf("%s %zu\n",token,ind); */
     }
 
-- 
2.43.0


From 1bd2a67778abafa09df2ec1f84095b57261e4be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:43 +0000
Subject: [PATCH 27/40] fix: strip_blank_ends reads one byte past the string

---
 c3/lib_stringmanip/stringmanip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index e06c095..d3bce0c 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -53,7 +53,7 @@ void strip_blank_ends(char * strin)
     char * str = strin;
     while (str[ii] == ' ')
     {
-        memmove(str,str+1,strlen(str)+1);
+        memmove(str,str+1,strlen(str));
     }
 
     n = strlen(str);
-- 
2.43.0


From 0ed05f2c03db541b85e486af9ec65792adead871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:25 +0000
Subject: [PATCH 28/40] fix: c3opt_print_stored_values strides the stored
 vectors by the iteration count

---
 c3/lib_optimization/optimization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 8954b92..eeb1603 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -844,12 +844,12 @@ void c3opt_print_stored_values(struct c3Opt * opt, FILE * fp, int width, int pre
         }
         if (opt->store_grad == 1){
             for (size_t jj = 0; jj < opt->d; jj++){
-                fprintf(fp,"%*.*G ",width,prec,opt->stored_grad[ii*opt->niters+jj]);
+                fprintf(fp,"%*.*G ",width,prec,opt->stored_grad[ii*opt->d+jj]);
             }
         }
         if (opt->store_x== 1){
             for (size_t jj = 0; jj < opt->d; jj++){
-                fprintf(fp,"%*.*G ",width,prec,opt->stored_x[ii*opt->niters+jj]);
+                fprintf(fp,"%*.*G ",width,prec,opt->stored_x[ii*opt->d+jj]);
             }
         }
         fprintf(fp,"\n");
-- 
2.43.0


From cd13201c29894057b6a973b61090b21b6c3b4087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:25 +0000
Subject: [PATCH 29/40] fix: strong Wolfe line search aborts when a step
 improves f but not sufficiently

---
 c3/lib_optimization/optimization.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index eeb1603..d27a82a 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1553,11 +1553,6 @@ double c3opt_ls_strong_wolfe(struct c3Opt * opt, double * x, double fx,
         }
         if ((*newf > checkval) || ( (*newf >= f_prev) && (iter > 1))){
             /* printf("found range (%G,%G) \n",t_prev,t); */
-            if (f_prev > *newf){
-                /* printf("f_prev = %G\n",f_prev); */
-                /* printf("*newf = %G\n",*newf); */
-                assert (f_prev < *newf);
-            }
             t = c3opt_ls_zoom(opt,t_prev,f_prev,t,x,dir,newx,fx,dg,grad,newf);
             return t * alpha;
         }
-- 
2.43.0


From 2bf246e4ab67e9ac2be7b01bbf4ce41312a00d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:25 +0000
Subject: [PATCH 30/40] fix: c3opt_copy overruns the BATCHGRAD workspace and
 drops the stochastic objective

---
 c3/lib_optimization/optimization.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index d27a82a..558aa09 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -302,6 +302,7 @@ struct c3Opt * c3opt_create(enum c3opt_alg alg)
     opt->d = 0;
 
     opt->f = NULL;
+    opt->fsgd = NULL;
     opt->farg = NULL;
 
     opt->lb = NULL;
@@ -450,6 +451,7 @@ struct c3Opt * c3opt_alloc(enum c3opt_alg alg, size_t d)
     opt->d = d;
 
     opt->f = NULL;
+    opt->fsgd = NULL;
     opt->farg = NULL;
     
     opt->lb = calloc_double(d);
@@ -533,6 +535,7 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     }
     struct c3Opt * opt = c3opt_alloc(old->alg,old->d);
     opt->f = old->f;
+    opt->fsgd = old->fsgd;
     opt->farg = old->farg;
     memmove(opt->lb,old->lb,opt->d*sizeof(double));
     memmove(opt->ub,old->ub,opt->d*sizeof(double));
@@ -545,7 +548,8 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     opt->nlocs   = old->nlocs;
     if ((opt->alg == BFGS) || (opt->alg == BATCHGRAD) || (opt->alg == LBFGS)){
         opt->grad = 1;
-        memmove(opt->workspace,old->workspace,4*opt->d*sizeof(double));
+        size_t nwork = (opt->alg == BATCHGRAD) ? 2*opt->d : 4*opt->d;
+        memmove(opt->workspace,old->workspace,nwork*sizeof(double));
         c3ls_free(opt->ls); opt->ls = NULL;
         opt->ls = c3ls_copy(old->ls);
     }
-- 
2.43.0


From 21efe61c9e431cb45c056518446744e044afd341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:25 +0000
Subject: [PATCH 31/40] fix: L-BFGS list crashes with a single stored pair and
 when freed empty

---
 c3/lib_optimization/optimization.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 558aa09..95b0408 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2355,7 +2355,7 @@ void c3opt_lbfgs_list_insert(struct c3opt_lbfgs_list * list, size_t iter,
     new->iter = iter;
 
     if (list->size >= list->m){ // full list
-        new->next = list->most_recent; // next one is going to be the most recent one
+        new->next = (new == list->most_recent) ? NULL : list->most_recent; // next one is going to be the most recent one
         // don't need to set prev as it is already set in first if statement
     }
     else if (list->size > 0){
@@ -2375,7 +2375,7 @@ void c3opt_lbfgs_list_insert(struct c3opt_lbfgs_list * list, size_t iter,
     }
     else{//(list->size == 0){
         new->next = NULL;
-        new->prev = NULL;
+        new->prev = (list->m == 1) ? new : NULL; // a full list knows its oldest element
         list->size = 1;
     }
     
@@ -2489,6 +2489,10 @@ void c3opt_lbfgs_list_free(struct c3opt_lbfgs_list * list)
     if (list != NULL){
         struct c3opt_lbfgs_data * current = list->most_recent;
         struct c3opt_lbfgs_data * next;
+        if (current == NULL){ // nothing was ever inserted
+            free(list); list = NULL;
+            return;
+        }
         c3opt_lbfgs_data_free_contents(current);
         current->prev = NULL;
         for (size_t ii = 1; ii < list->size; ii++){
-- 
2.43.0


From e1182b5a6cb9cd0b083e07b8dc945b67ed9bfa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:25 +0000
Subject: [PATCH 32/40] fix: c3opt setters leak the arrays they replace

---
 c3/lib_optimization/optimization.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 95b0408..c93c595 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -804,6 +804,9 @@ void c3opt_set_storage_options(struct c3Opt * opt, int store_func, int store_gra
     opt->store_grad = store_grad;
     opt->store_x = store_x;
 
+    free(opt->stored_grad); opt->stored_grad = NULL;
+    free(opt->stored_func); opt->stored_func = NULL;
+    free(opt->stored_x);    opt->stored_x = NULL;
     if (opt->store_grad == 1){
         opt->stored_grad = calloc_double(opt->d*sizeof(double)*opt->maxiter);
     }
@@ -930,6 +933,7 @@ void c3opt_set_brute_force_vals(struct c3Opt * opt, size_t nvals, double * loc)
         fprintf(stderr,"in order to add brute force values\n");
     }
     opt->nlocs = nvals;
+    free(opt->workspace); opt->workspace = NULL;
     opt->workspace = calloc_double(nvals * opt->d);
     memmove(opt->workspace,loc,opt->d*nvals*sizeof(double));
 }
-- 
2.43.0


From ed89b3938a702edd67f06474da23131305853f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:51 +0000
Subject: [PATCH 33/40] fix: strong Wolfe line search bisects forever once the
 bracket reaches machine resolution

---
 c3/lib_optimization/optimization.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index c93c595..c0e03c7 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1435,6 +1435,9 @@ double c3opt_ls_zoom(struct c3Opt * opt, double tlow,
         /* printf("(tlow,thigh) = (%3.15G,%3.15G),\n",tl,th); */
 
         t = (tl + th)/2.0;
+        if ((t == tl) || (t == th)){ // bracket cannot be halved any further
+            break;
+        }
         c3opt_ls_x_move(d,t,dir,x,newx,lb,ub);
 
         fcurr = c3opt_eval(opt,newx,grad);
-- 
2.43.0


From 5c6ace21016c8441af0e26767f448efb81545722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:10 +0000
Subject: [PATCH 34/40] fix: c3opt_copy drops the last entry of a full
 optimization history

---
 c3/lib_optimization/optimization.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index c0e03c7..54d3944 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -575,17 +575,19 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     opt->store_grad  = old->store_grad;
     opt->store_func = old->store_func;
     opt->store_x     = old->store_x;
+    // a run stores up to maxiter + 1 values
+    size_t nstore = (opt->niters > opt->maxiter) ? opt->niters : opt->maxiter;
     if (opt->store_grad == 1){
-        opt->stored_grad = calloc_double(opt->d*sizeof(double)*opt->maxiter);
-        memmove(opt->stored_grad,old->stored_grad,opt->d*sizeof(double)*opt->maxiter);
+        opt->stored_grad = calloc_double(opt->d*sizeof(double)*nstore);
+        memmove(opt->stored_grad,old->stored_grad,opt->d*sizeof(double)*opt->niters);
     }
     if (opt->store_x == 1){
-        opt->stored_x = calloc_double(opt->d*sizeof(double)*opt->maxiter);
-        memmove(opt->stored_x,old->stored_x,opt->d*sizeof(double)*opt->maxiter);
+        opt->stored_x = calloc_double(opt->d*sizeof(double)*nstore);
+        memmove(opt->stored_x,old->stored_x,opt->d*sizeof(double)*opt->niters);
     }
     if (opt->store_func == 1){
-        opt->stored_func = calloc_double(sizeof(double)*opt->maxiter);
-        memmove(opt->stored_func,old->stored_func,sizeof(double)*opt->maxiter);
+        opt->stored_func = calloc_double(sizeof(double)*nstore);
+        memmove(opt->stored_func,old->stored_func,sizeof(double)*opt->niters);
     }
 
     return opt;
-- 
2.43.0


From 85622242b646337f2514786c9404f704bba0b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 35/40] fix: alternating regression writes past the end of the
 stored objective values

---
 c3/lib_superlearn/regress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index 6c547d8..03f1709 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -547,7 +547,8 @@ c3_regression_run_als(struct FTparam * ftp, struct RegressOpts * ropts, struct c
     double * stored_fvals = NULL;
     size_t nepochs = 0;
     if (c3opt_get_store_func(optimizer) == 1){
-        stored_fvals = calloc_double(2 * ropts->max_als_sweeps * ftp->dim * c3opt_get_maxiter(optimizer));
+        // an optimization stores its starting point and up to maxiter + 1 iterates
+        stored_fvals = calloc_double(2 * ropts->max_als_sweeps * ftp->dim * (c3opt_get_maxiter(optimizer) + 2));
     }
     
     size_t maxrank = function_train_get_maxrank(ftp->ft);
-- 
2.43.0


From 5044b260c5d1e0b96e709da898d6d47516e4e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 36/40] fix: ttelem uses the second mode size as the stride of
 every later core

---
 c3/lib_tensdecomp/tensortrain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index 4cd62f2..c862eb6 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -196,7 +196,7 @@ double ttelem(struct tt * ttc, size_t * elem)
         cblas_dgemv(CblasColMajor, CblasTrans, ttc->ranks[ii+1], 
                 ttc->ranks[ii+2], 1.0, 
                 ttc->cores[ii+1]->vals + elem[ii+1] * ttc->ranks[ii+1],
-                ttc->ranks[ii+1] * ttc->nvals[1],
+                ttc->ranks[ii+1] * ttc->nvals[ii+1],
                 vec, 1, 0.0, temp, 1);
 
         free(vec);
-- 
2.43.0


From b7f5311e23ce72d81c472681a3331dbae52e9171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 37/40] fix: tt_x builds cores with the mode size as right rank

---
 c3/lib_tensdecomp/tensortrain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index c862eb6..c276c87 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -162,7 +162,7 @@ tt_x(const double * x, size_t dimx, size_t dim, size_t * nvals)
     // before dimx
     for (ii = 0; ii < dimx; ii++){
         new->ranks[ii] = 1;
-        new->cores[ii] = tensor_ones_3d(1,1,nvals[ii]);
+        new->cores[ii] = tensor_ones_3d(1,nvals[ii],1);
     }
     // dim x
     new->ranks[dimx] = 1;
@@ -171,7 +171,7 @@ tt_x(const double * x, size_t dimx, size_t dim, size_t * nvals)
     // after dimx
     for (ii = dimx+1; ii < dim; ii++){
         new->ranks[ii] = 1;
-        new->cores[ii] = tensor_ones_3d(1,1,nvals[ii]);
+        new->cores[ii] = tensor_ones_3d(1,nvals[ii],1);
     }
     new->ranks[dim] = 1;
     return new;
-- 
2.43.0


From 05f348491a0e18bd46cebaae16f4d7368ede3abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 38/40] fix: transposed copy of a 3d tensor keeps the
 untransposed sizes

---
 c3/lib_tensor/tensor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensor/tensor.c b/c3/lib_tensor/tensor.c
index f39b60d..56f5830 100755
--- a/c3/lib_tensor/tensor.c
+++ b/c3/lib_tensor/tensor.c
@@ -470,7 +470,7 @@ struct tensor * tensor_copy_3d(const struct tensor * t, int transpose){
         nvals[0] = t->nvals[2];
         nvals[1] = t->nvals[1];
         nvals[2] = t->nvals[0];
-        init_tensor(&out, 3, t->nvals);
+        init_tensor(&out, 3, nvals);
         size_t ii,jj,kk;
         for (ii = 0; ii < nvals[0]; ii++){
             for (jj = 0; jj < nvals[1]; jj++){
-- 
2.43.0


From d516592471cf37dc176fde11eff184bb9cb8b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 39/40] fix: tt_round leaves the dimension of the new cores
 uninitialized

---
 c3/lib_tensdecomp/tt_multilinalg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_tensdecomp/tt_multilinalg.c b/c3/lib_tensdecomp/tt_multilinalg.c
index 87437ea..2a52c56 100755
--- a/c3/lib_tensdecomp/tt_multilinalg.c
+++ b/c3/lib_tensdecomp/tt_multilinalg.c
@@ -88,6 +88,7 @@ struct tt * tt_round(struct tt * a, double epsilon)
         fprintf(stderr, "failed to allocate memory.\n");
         exit(1);
     }
+    b->cores[0]->dim = 3;
     b->cores[0]->nvals = calloc_size_t(3);
     b->cores[0]->nvals[0] = b->ranks[0];
     b->cores[0]->nvals[1] = a->nvals[0];
@@ -111,6 +112,7 @@ struct tt * tt_round(struct tt * a, double epsilon)
             fprintf(stderr, "failed to allocate memory.\n");
             exit(1);
         }
+        b->cores[ii]->dim = 3;
         b->cores[ii]->nvals = calloc_size_t(3);
         b->cores[ii]->nvals[0] = b->ranks[ii];
         b->cores[ii]->nvals[1] = a->nvals[ii];
@@ -144,6 +146,7 @@ struct tt * tt_round(struct tt * a, double epsilon)
             fprintf(stderr, "failed to allocate memory.\n");
             exit(1);
     }
+    b->cores[ii]->dim = 3;
     b->cores[ii]->nvals = calloc_size_t(3);
     b->cores[ii]->nvals[0] = b->ranks[ii];
     b->cores[ii]->nvals[1] = a->nvals[ii];
-- 
2.43.0


From a576324c8779c2170466d364ce617ea22bf48c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:22 +0000
Subject: [PATCH 40/40] fix: getLegPtsWts2 accepts 200 nodes but its tables end
 at 199

---
 c3/lib_quadrature/legquadrules2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_quadrature/legquadrules2.c b/c3/lib_quadrature/legquadrules2.c
index 2d1fc8c..8dd41a8 100644
--- a/c3/lib_quadrature/legquadrules2.c
+++ b/c3/lib_quadrature/legquadrules2.c
@@ -649,7 +649,7 @@ pts1, pts2, pts3, pts4, pts5, pts6, pts7, pts8, pts9, pts10, pts11, pts12, pts13
 
 int getLegPtsWts2(size_t n, double ** pts, double ** wts)
 {  
-	 if ((n < 1) || (n > 200)){
+	 if ((n < 1) || (n > 199)){
  	 	 return 1;
 	 }
 	 *pts = legpts[n-1];
-- 
2.43.0

