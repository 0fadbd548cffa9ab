From f3477bee965dbedb1bf27528b4c0640d2b5af4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 01/15] fix: emit the -1 diagonal of the KKT matrix for empty
 rows of G

The diagonal entry was only written while visiting the last entry of a row
of G, so a structurally empty row got none and updatekktmatrix overwrote
the last entry of the previous column instead.
---
 src/Auxilary.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index cfdae2f..b90a016 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -41,13 +41,10 @@ void formkktmatrix_U(smat *P, smat *G, smat *Gt, smat *kkt)
 			kkt->ir[kkt_nnz] = Gt->ir[j];
 			kkt->pr[kkt_nnz] = Gt->pr[j];
 			kkt_nnz++;
-			if (j == Gt->jc[i + 1] - 1)
-			{
-				kkt->ir[kkt_nnz] = P->n + i;
-				kkt->pr[kkt_nnz] = -1.0;
-				kkt_nnz++;
-			}
 		}
+		kkt->ir[kkt_nnz] = P->n + i;
+		kkt->pr[kkt_nnz] = -1.0;
+		kkt_nnz++;
 		kkt->jc[i + 1 + P->n] = kkt_nnz;
 	}
 }
@@ -123,13 +120,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + A->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + A->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n + At->n] = kkt_nnz;
 		}
 	}
@@ -168,13 +162,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n] = kkt_nnz;
 		}
 	}
-- 
2.43.0


From 521fd056c0a8ad196f2e376a8051b90125108840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 02/15] fix: decide the maximum-iterations status per solve

The cumulative IterationCount was compared with maxit, so a second solve
that used up its iterations kept the stale optimal status of the first.
---
 src/qpSWIFT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 8831d13..23d5434 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -601,7 +601,7 @@ qp_int QP_SOLVE(QP *myQP)
 			}
 		}
 
-		if (myQP->stats->IterationCount == myQP->options->maxit)
+		if (idx == myQP->options->maxit)
 		{
 			myQP->stats->Flag = QP_MAXIT;
 		}
-- 
2.43.0


From 5fb1704097fdec9b7779d0d54a0744e0fe1c14ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 03/15] fix: size the natural-order fallback by the stored
 equality count

With p != 0 but A or b missing the permutation holds n+m entries; the
fallback after a failed AMD ordering wrote n+m+p.
---
 src/qpSWIFT.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 23d5434..d95a28d 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -209,7 +209,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < n + m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
@@ -431,7 +431,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < n + m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
-- 
2.43.0


From ee71bd4242925bc49d5de8274a755f4309985eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 04/15] fix: initialise the equality residual norm

Without equality constraints it is never computed, but verbose output
prints it at every iteration.
---
 src/qpSWIFT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index d95a28d..14dc00e 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -81,6 +81,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_ry = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
@@ -282,6 +283,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_ry = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
-- 
2.43.0


From a2658b5342e23a405be3a57d211d17c53084c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 05/15] fix: initialise the objective value reported when no
 iteration runs

---
 src/qpSWIFT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 14dc00e..8f1c2d1 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -82,6 +82,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
 	myQP->stats->n_ry = 0.0;
+	myQP->stats->fval = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
@@ -284,6 +285,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
 	myQP->stats->n_ry = 0.0;
+	myQP->stats->fval = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
-- 
2.43.0


From a7bfff5380030dbcc3fbfb84c2c0a902ebe0b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 06/15] fix: check the rank of c, h and b before reading their
 length

---
 python/pyqpSWIFT.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 2f75797..18b7f09 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -84,20 +84,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         return NULL;
     }
 
-    qp_int n, m, p;
-    dims = PyArray_DIMS(c);
-    n = (qp_int)dims[0];
-    dims = PyArray_DIMS(h);
-    m = (qp_int)dims[0];
-    if (b && A)
-    {
-        dims = PyArray_DIMS(b);
-        p = (qp_int)dims[0];
-    }
-    else
-    {
-        p = 0;
-    }
+    qp_int n, m, p = 0;
 
     /*Check Input Data here*/
     /*---- c vector ------*/
@@ -106,6 +93,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "c must be a floating array with one dimension");
         return NULL;
     }
+    dims = PyArray_DIMS(c);
+    n = (qp_int)dims[0];
     /*---- c vector ------*/
 
     /*---- h vector ------*/
@@ -114,6 +103,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "h must be a floating array with one dimension");
         return NULL;
     }
+    dims = PyArray_DIMS(h);
+    m = (qp_int)dims[0];
     /*---- h vector ------*/
 
     /*---- b vector and A Matrix ------*/
@@ -125,6 +116,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             PyErr_SetString(PyExc_TypeError, "b must be a floating array with one dimension");
             return NULL;
         }
+        dims = PyArray_DIMS(b);
+        p = (qp_int)dims[0];
         /*---- b vector ------*/
 
         /*---- A Matrix ------*/
-- 
2.43.0


From d5fd0f73ae6f3d03a34ad153b15a8b0f95883cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 07/15] fix: release the option value when it is rejected

---
 python/pyqpSWIFT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 18b7f09..6ac2c5d 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -187,6 +187,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
+                Py_DECREF(opts_maxiter);
                 PyErr_SetString(PyExc_TypeError, "max iterations must be between 0 and 200, using the default value of 100");
                 return NULL;
             }
@@ -204,6 +205,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
+                Py_DECREF(opts_abstol);
                 PyErr_SetString(PyExc_TypeError, "absolute tolerance must be between 0 and 1, using the default value");
                 return NULL;
             }
@@ -221,6 +223,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
+                Py_DECREF(opts_reltol);
                 PyErr_SetString(PyExc_TypeError, "realtive tolerance must be between 0 and 1, using the default value");
                 return NULL;
             }
@@ -238,6 +241,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
+                Py_DECREF(opts_sigma);
                 PyErr_SetString(PyExc_TypeError, "sigma must be positive, using the default value");
                 return NULL;
             }
@@ -256,6 +260,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 //  PyErr_WarnEx(PyExc_UserWarning, "verbose must be non-negative, using the default value", 1);
+                Py_DECREF(opts_verbose);
                 PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 return NULL;
             }
-- 
2.43.0


From d3a9398b2513638eafe41a250ec0e0cfbe7ef4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 08/15] fix: do not return a result while an exception is set
 for a bad OUTPUT option

---
 python/pyqpSWIFT.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 6ac2c5d..c684443 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -278,7 +278,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
-                PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1);
+                PyErr_Clear();
+                if (PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1) < 0)
+                {
+                    Py_DECREF(opts_output);
+                    return NULL;
+                }
                 // PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 // return NULL;
             }
-- 
2.43.0


From 933b24e2f565ba3dffde708797986985cb49e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 09/15] fix: do not read row indices beyond the matrix when
 column pointers decrease

---
 src/amd_valid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amd_valid.c b/src/amd_valid.c
index 609abca..003fcde 100644
--- a/src/amd_valid.c
+++ b/src/amd_valid.c
@@ -62,9 +62,9 @@ GLOBAL Int AMD_valid
 	p1 = Ap [j] ;
 	p2 = Ap [j+1] ;
 	AMD_DEBUG2 (("\nColumn: "ID" p1: "ID" p2: "ID"\n", j, p1, p2)) ;
-	if (p1 > p2)
+	if (p1 > p2 || p2 > nz)
 	{
-	    /* column pointers must be ascending */
+	    /* column pointers must be ascending and within Ai */
 	    AMD_DEBUG0 (("column "ID" pointer bad\n", j)) ;
 	    return (AMD_INVALID) ;
 	}
-- 
2.43.0


From 1aa8125260f48473e2597f289e8f8f817cb6c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 10/15] fix: reject permutation entries that are not whole
 numbers in the MATLAB entry

---
 matlab/qpSWIFT_mex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index eeebc68..037005e 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -411,7 +411,13 @@ void mexFunction(int nlhs, mxArray *plhs[],
         // Change Matlab Indexing to C-based Indexing
         for (qp_int i = 0; i < n + m + p; i++)
         {
+            if (!(pr[i] >= 1 && pr[i] <= n + m + p))
+                mexErrMsgTxt("Not a Valid Permutation Vector");
+
             Permutpr[i] = pr[i] - 1;
+
+            if (Permutpr[i] + 1 != pr[i])
+                mexErrMsgTxt("Not a Valid Permutation Vector");
         }
 
         // Check if the permutation Matrix is Valid
-- 
2.43.0


From 08d9a0538d95a15e1c80bdab072515449f0e6a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 11/15] fix: accept the documented spelling of the Permut
 option in the MATLAB entry

---
 matlab/qpSWIFT_mex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index 037005e..ca1a0ad 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -347,6 +347,10 @@ void mexFunction(int nlhs, mxArray *plhs[],
     {
         sttgs_permut = sttgs ? mxGetField(sttgs, 0, "permut") : 0;
     }
+    if (!sttgs_permut)
+    {
+        sttgs_permut = sttgs ? mxGetField(sttgs, 0, "Permut") : 0;
+    }
 
     if (sttgs_permut)
     {
-- 
2.43.0


From c2e4b47be9dc0fc014402b6086da6510df79dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 12/15] fix: check the type and reject NaN for scalar options
 in the MATLAB entry

---
 matlab/qpSWIFT_mex.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index ca1a0ad..a27a498 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -99,6 +99,15 @@ char helpstr[] = {
 "      -> s          : Primal Slack Variables \n"
 };
 
+/* Value of a scalar option of any numeric type; an empty or non-numeric one is an error */
+static double option_value(const mxArray *opt, const char *msg)
+{
+    if ((!mxIsNumeric(opt) && !mxIsLogical(opt)) || mxIsComplex(opt) || mxIsEmpty(opt))
+        mexErrMsgTxt(msg);
+
+    return mxGetScalar(opt);
+}
+
 void mexFunction(int nlhs, mxArray *plhs[],
                  int nrhs, const mxArray *prhs[])
 {
@@ -450,44 +459,51 @@ void mexFunction(int nlhs, mxArray *plhs[],
 
     if (sttgs_maxiter)
     {
+        double value = option_value(sttgs_maxiter, "Iteration Number must be within 0 and 200");
 
-        if (*mxGetPr(sttgs_maxiter) < 0 || *mxGetPr(sttgs_maxiter) > 200)
+        if (!(value >= 0 && value <= 200))
             mexErrMsgTxt("Iteration Number must be within 0 and 200");
 
-        myQP->options->maxit = (qp_int)(*mxGetPr(sttgs_maxiter));
+        myQP->options->maxit = (qp_int)value;
     }
 
     if (sttgs_abstol)
     {
+        double value = option_value(sttgs_abstol, "Absolute Tolerance must be within 0 and 1");
 
-        if (*mxGetPr(sttgs_abstol) < 0 || *mxGetPr(sttgs_abstol) > 1)
+        if (!(value >= 0 && value <= 1))
             mexErrMsgTxt("Absolute Tolerance must be within 0 and 1");
 
-        myQP->options->abstol = (qp_real)(*mxGetPr(sttgs_abstol));
+        myQP->options->abstol = (qp_real)value;
     }
     if (sttgs_reltol)
     {
+        double value = option_value(sttgs_reltol, "Relative Tolerance must be within 0 and 1");
 
-        if (*mxGetPr(sttgs_reltol) < 0 || *mxGetPr(sttgs_reltol) > 1)
+        if (!(value >= 0 && value <= 1))
             mexErrMsgTxt("Relative Tolerance must be within 0 and 1");
 
-        myQP->options->reltol = (qp_real)(*mxGetPr(sttgs_reltol));
+        myQP->options->reltol = (qp_real)value;
     }
 
     if (sttgs_sigma)
     {
-        myQP->options->sigma = (qp_real)(*mxGetPr(sttgs_sigma));
-        if (*mxGetPr(sttgs_sigma) < 0)
+        double value = option_value(sttgs_sigma, "Sigma must be positive");
+
+        if (!(value >= 0))
             mexErrMsgTxt("Sigma must be positive");
+
+        myQP->options->sigma = (qp_real)value;
     }
 
     if (sttgs_verbose)
     {
+        double value = option_value(sttgs_verbose, "Verbose must be positive");
 
-        if (*mxGetPr(sttgs_verbose) < 0)
+        if (!(value >= 0 && value <= 2147483647))
             mexErrMsgTxt("Verbose must be positive");
 
-        myQP->options->verbose = (qp_real)(*mxGetPr(sttgs_verbose));
+        myQP->options->verbose = (qp_int)value;
     }
 
     if (myQP->options->verbose > 0)
-- 
2.43.0


From 1ac6be2b02108148cd932bf1686858dd965b6035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 13/15] fix: require contiguous input ports in the Simulink
 blocks

---
 simulink/qpSWIFT_sfunc.c   | 19 +++++++++++++------
 simulink/qpSWIFT_sfunc_e.c | 25 +++++++++++++++++--------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/simulink/qpSWIFT_sfunc.c b/simulink/qpSWIFT_sfunc.c
index 9fbb4a5..b244b44 100644
--- a/simulink/qpSWIFT_sfunc.c
+++ b/simulink/qpSWIFT_sfunc.c
@@ -61,6 +61,13 @@ static void mdlInitializeSizes(SimStruct *S) /* Init sizes array */
     ssSetInputPortDirectFeedThrough(S, 2, 1);
     ssSetInputPortDirectFeedThrough(S, 3, 1);
 
+    /* The elements of an input are read as one array */
+
+    ssSetInputPortRequiredContiguous(S, 0, 1);
+    ssSetInputPortRequiredContiguous(S, 1, 1);
+    ssSetInputPortRequiredContiguous(S, 2, 1);
+    ssSetInputPortRequiredContiguous(S, 3, 1);
+
     /* One sample time */
 
     ssSetNumSampleTimes(S, 1);
@@ -111,12 +118,12 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     out_tsetup = ssGetOutputPortRealSignal(S, 3);   /* tsetup */
     out_tsolve = ssGetOutputPortRealSignal(S, 4);   /* tsolve */
 
-    InputRealPtrsType in_P, in_c, in_G, in_h, in_sigma_d;
+    const real_T *in_P, *in_c, *in_G, *in_h;
 
-    in_P = ssGetInputPortRealSignalPtrs(S, 0);
-    in_c = ssGetInputPortRealSignalPtrs(S, 1);
-    in_G = ssGetInputPortRealSignalPtrs(S, 2);
-    in_h = ssGetInputPortRealSignalPtrs(S, 3);
+    in_P = ssGetInputPortRealSignal(S, 0);
+    in_c = ssGetInputPortRealSignal(S, 1);
+    in_G = ssGetInputPortRealSignal(S, 2);
+    in_h = ssGetInputPortRealSignal(S, 3);
 
  
     size_P = ssGetInputPortWidth(S, 0); // P
@@ -137,7 +144,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     
     
     
-    myQP = QP_SETUP_dense(n, m, 0, *in_P , NULL, *in_G, *in_c, *in_h, NULL, NULL, COLUMN_MAJOR_ORDERING);
+    myQP = QP_SETUP_dense(n, m, 0, (qp_real *)in_P, NULL, (qp_real *)in_G, (qp_real *)in_c, (qp_real *)in_h, NULL, NULL, COLUMN_MAJOR_ORDERING);
       
     /* ---------------------- Change the following settings as desired ---------------------- */
     /* -------------------------------------------------------------------------------------- */
diff --git a/simulink/qpSWIFT_sfunc_e.c b/simulink/qpSWIFT_sfunc_e.c
index 9b301c8..b30c011 100644
--- a/simulink/qpSWIFT_sfunc_e.c
+++ b/simulink/qpSWIFT_sfunc_e.c
@@ -64,6 +64,15 @@ static void mdlInitializeSizes(SimStruct *S) /* Init sizes array */
     ssSetInputPortDirectFeedThrough(S, 4, 1);
     ssSetInputPortDirectFeedThrough(S, 5, 1);
 
+    /* The elements of an input are read as one array */
+
+    ssSetInputPortRequiredContiguous(S, 0, 1);
+    ssSetInputPortRequiredContiguous(S, 1, 1);
+    ssSetInputPortRequiredContiguous(S, 2, 1);
+    ssSetInputPortRequiredContiguous(S, 3, 1);
+    ssSetInputPortRequiredContiguous(S, 4, 1);
+    ssSetInputPortRequiredContiguous(S, 5, 1);
+
     /* One sample time */
 
     ssSetNumSampleTimes(S, 1);
@@ -115,14 +124,14 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     out_tsetup = ssGetOutputPortRealSignal(S, 3);   /* tsetup */
     out_tsolve = ssGetOutputPortRealSignal(S, 4);   /* tsolve */
 
-    InputRealPtrsType in_P, in_c, in_A, in_b, in_G, in_h;
+    const real_T *in_P, *in_c, *in_A, *in_b, *in_G, *in_h;
 
-    in_P = ssGetInputPortRealSignalPtrs(S, 0);
-    in_c = ssGetInputPortRealSignalPtrs(S, 1);
-    in_A = ssGetInputPortRealSignalPtrs(S, 2);
-    in_b = ssGetInputPortRealSignalPtrs(S, 3);
-    in_G = ssGetInputPortRealSignalPtrs(S, 4);
-    in_h = ssGetInputPortRealSignalPtrs(S, 5);
+    in_P = ssGetInputPortRealSignal(S, 0);
+    in_c = ssGetInputPortRealSignal(S, 1);
+    in_A = ssGetInputPortRealSignal(S, 2);
+    in_b = ssGetInputPortRealSignal(S, 3);
+    in_G = ssGetInputPortRealSignal(S, 4);
+    in_h = ssGetInputPortRealSignal(S, 5);
 
    
     size_P = ssGetInputPortWidth(S, 0); // P
@@ -137,7 +146,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     m = (qp_int)size_h;
 
 
-    myQP = QP_SETUP_dense(n, m, p, *in_P , *in_A, *in_G, *in_c, *in_h, *in_b, NULL, COLUMN_MAJOR_ORDERING);
+    myQP = QP_SETUP_dense(n, m, p, (qp_real *)in_P, (qp_real *)in_A, (qp_real *)in_G, (qp_real *)in_c, (qp_real *)in_h, (qp_real *)in_b, NULL, COLUMN_MAJOR_ORDERING);
     
     /* ---------------------- Change the following settings as desired ---------------------- */
     /* -------------------------------------------------------------------------------------- */
-- 
2.43.0


From d7cf6ea47f4febc05c6b07944863f4a795162a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 14/15] fix: test_reach read before the marks when it ran past
 the root of a tree

---
 src/Auxilary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index b90a016..cd865a3 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -1102,7 +1102,7 @@ void test_reach(qp_int *Parent, qp_int *Pinv, qp_int *UPattern, qp_int n, qp_int
 	{
 		i = Pinv[j];
 
-		for (; UPattern[i] != top && i != -1; i = Parent[i])
+		for (; i != -1 && UPattern[i] != top; i = Parent[i])
 		{
 			UPattern[i] = top;
 		}
-- 
2.43.0


From 94c53955284e51354616d365a396d31b6b85ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 15/15] fix: LDL_cache_numeric read past the end of a column it
 skips

---
 src/ldl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldl.c b/src/ldl.c
index a32d714..beeb81e 100644
--- a/src/ldl.c
+++ b/src/ldl.c
@@ -406,7 +406,7 @@ qp_int UPattern[] /*Update Pattern of subsequent iterations*/
 		else{
 			/*for (jj = Ltp[k]; jj < Ltp[k + 1]; jj++)
 				++work[Lti[jj]];*/
-			for (jj = Lp[k]; UPattern[Li[jj]] != n && jj < Lp[k + 1]; jj++, work[k]++);
+			for (jj = Lp[k]; jj < Lp[k + 1] && UPattern[Li[jj]] != n; jj++, work[k]++);
 		}
 
 	}
-- 
2.43.0

