From 005a639a82acbd55208396f8259da9c722ab43df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:41 +0000
Subject: [PATCH 01/11] fix: fast_expf close to its upper and lower limits

The scale factor 2^n was built directly from its exponent bits. For
arguments in (88.376, 88.7228] n is 128 and the factor was infinity, so a
finite result was reported as infinity. For arguments in [-88, -87.68] n is
-127 and the factor was 0, so the result was flushed to 0. Scale in two
steps instead.
---
 include/exp.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/exp.h b/include/exp.h
index 363b356..e7f2de0 100644
--- a/include/exp.h
+++ b/include/exp.h
@@ -140,8 +140,10 @@ inline float fast_expf(float initial_x) {
     z *= x2;
     z += x + 1.0f;
 
-    /* multiply by power of 2 */
-    z *=  details::uint322sp((n+0x7f)<<23);
+    /* multiply by power of 2, in two steps since 2^n may be out of the range of the normal numbers */
+    const int32_t n1 = n >> 1;
+    z *=  details::uint322sp((n1+0x7f)<<23);
+    z *=  details::uint322sp((n-n1+0x7f)<<23);
 
     if (initial_x > details::MAXLOGF) z=std::numeric_limits<float>::infinity();
     if (initial_x < details::MINLOGF) z=0.f;
-- 
2.43.0


From 88021b52d6898139abf3c6deb45e7cad2924e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:41 +0000
Subject: [PATCH 02/11] fix: NaN returned by fast_tan and fast_tanf for tiny
 arguments

The reciprocal -1/res was evaluated and multiplied by 0 also when it is not
used. For subnormal arguments below about 2^-1024 (2^-128 in single
precision) the reciprocal overflows and 0*inf gave NaN.
---
 include/tan.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tan.h b/include/tan.h
index c1ec59d..35b3370 100644
--- a/include/tan.h
+++ b/include/tan.h
@@ -118,7 +118,8 @@ inline double fast_tan(double x){
     // Avoid fpe generated by 1/0 if res is 0
     const double zeroIfXNonZero = (x==0.);
     res += zeroIfXNonZero;
-    res = quad * (-1./res) + alt * res; // one coeff is one and one is 0!
+    // The denominator is 1 when the reciprocal is not used: -1/res could be infinite
+    res = quad * (-1./(alt + quad * res)) + alt * res; // one coeff is one and one is 0!
 
     // Again, return 0 if res==0, the correct result otherwhise
     return details::dpXORuint64(res,sign_mask) * (1.-zeroIfXNonZero);
@@ -155,7 +156,8 @@ inline float fast_tanf(float x){
     // Avoid fpe generated by 1/0 if res is 0
     const float zeroIfXNonZero = (x==0.f);
     res += zeroIfXNonZero;
-    res = quad * (-1.f/res) + alt * res; // one coeff is one and one is 0!
+    // The denominator is 1 when the reciprocal is not used: -1/res could be infinite
+    res = quad * (-1.f/(alt + quad * res)) + alt * res; // one coeff is one and one is 0!
 
     return details::spXORuint32(res,sign_mask) * (1.f-zeroIfXNonZero);
 
-- 
2.43.0


From 4db309b56b22e385068bdd5c09ecc11b2dc45d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:41 +0000
Subject: [PATCH 03/11] fix: 0/0 in fast_atan2f for two zero arguments

The protection against a zero denominator was commented out, so
fast_atan2f(0,0) raised the invalid floating point exception.
---
 include/atan2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/atan2.h b/include/atan2.h
index 62f9249..bf70eef 100644
--- a/include/atan2.h
+++ b/include/atan2.h
@@ -105,7 +105,7 @@ inline float fast_atan2f( float y, float x ) {
     // To avoid the fpe, we protect against /0.
     const float oneIfXXZero = (xx==0.f);
     
-    float t=yy/(xx/*+oneIfXXZero*/);
+    float t=yy/(xx+oneIfXXZero);
     float z=t;
     if( t > 0.4142135623730950f ) // * tan pi/8
             z = (t-1.0f)/(t+1.0f);
-- 
2.43.0


From 329ebbeb25faea65dfa6875ba75e444f10a12643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:41 +0000
Subject: [PATCH 04/11] fix: diffbit for identical numbers and for large
 differences

log2(0) is -infinity, and its conversion to an integer is undefined. For
differences just below a power of two above 2^53 the rounding of the
difference to double gave a result too large by one.
---
 include/diagnostic/vdtdiag_helper.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 6dcb6f5..e140a97 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -178,8 +178,11 @@ uint16_t diffbit(const T a,const T b ){
 	uint64_t ib = fp2uint64(b);
 	uint64_t c = ia>ib? ia-ib : ib -ia;
 	//uint64_t c = ia^ib;
-	/// return the log2+1
-	return log2(c)+1;
+	/// return the log2+1, 0 if the numbers are identical
+	uint16_t bit = 0;
+	for (;c!=0;c>>=1)
+		bit++;
+	return bit;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 0b85e716b8fe7fbe7a77d6323daacc2d31751d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:41 +0000
Subject: [PATCH 05/11] fix: elapsed time of the timer across a second boundary

The difference of the nanoseconds is negative when the second reading has a
smaller sub-second part. It was converted to an unsigned integer, so that
the sum in floating point was out of range.
---
 include/diagnostic/vdtdiag_helper.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index e140a97..6c5e029 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -383,8 +383,9 @@ private:
 		timespec temp;
 		temp.tv_sec = m_time2.tv_sec-m_time1.tv_sec;
 		temp.tv_nsec = m_time2.tv_nsec-m_time1.tv_nsec;
-		uint64_t elapsed_time = temp.tv_nsec;
-		elapsed_time += 1e9*temp.tv_sec;
+		// The difference of the nanoseconds is negative if a second boundary was crossed
+		int64_t elapsed_time = temp.tv_nsec;
+		elapsed_time += INT64_C(1000000000)*temp.tv_sec;
 		return elapsed_time;
 	}
 
-- 
2.43.0


From 5d9a9edd898742937c774a75751213a28d8346bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:25 +0000
Subject: [PATCH 06/11] fix: reading comparison files with infinite or NaN
 inputs

The decimal copy of the input was extracted as a number, which fails for
inf and nan, so reading stopped at the first such row.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 8078e80..008ef6e 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -66,7 +66,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy;	//input value for Python, now useless
+			std::string dummy;	//input value for Python, now useless
 			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff >> dummy) {
 				m_input.push_back(in_val.getValue());
 				IfcnComparison<T>::m_out1.push_back(out1_val.getValue());
@@ -182,7 +182,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val1, in_val2, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy1, dummy2;	//input value for Python, now useless
+			std::string dummy1, dummy2;	//input value for Python, now useless
 			while(ifile >> in_val1 >> in_val2 >> out1_val >> out2_val >> tmp_diff >> dummy1 >> dummy2) {
 				m_input1.push_back(in_val1.getValue());
 				m_input2.push_back(in_val2.getValue());
@@ -318,7 +318,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T trash;	//input value for Python, now useless
+			std::string trash;	//input value for Python, now useless
 			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff >> trash) {
 				m_input.push_back(in_val.getValue());
 				m_out1.push_back(out1_val.getValue());
-- 
2.43.0


From 1bd8a121da73e0a4baa04a64a5b07d300c48b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:25 +0000
Subject: [PATCH 07/11] fix: header length in the old comparison file reader

Files have five header lines, the reader skipped two.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 008ef6e..a996377 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -307,7 +307,7 @@ public:
 			std::ifstream ifile ( input_filename );
 			std::string line;
 			//skip the 5 header lines but read the func name from resp		
-			for (uint16_t i=0;i<2;++i)
+			for (uint16_t i=0;i<5;++i)
 				std::getline(ifile,line);
 			//read data from file	
 			//read stats:
-- 
2.43.0


From 47cf15c6caa2f053ba8edc3ce1b67018ed345048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:38 +0000
Subject: [PATCH 08/11] fix: count the timed calls in 64 bits

The number of calls was a 32 bit product, so the mean time per call was
wrong once inputs times repetitions reached 2^32.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 0787314..fa809d4 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -205,7 +205,7 @@ private:
   delete [] results_arr;
   
   // Calculate mean and error on the mean
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
   //-----------------------------------------------------------------------------
@@ -253,7 +253,7 @@ private:
     delete [] results_arr;
 
     // Calculate mean and error on the mean
-    const uint64_t iterations = size * m_repetitions;
+    const uint64_t iterations = uint64_t(size) * m_repetitions;
     calculate_mean_and_err(t,t2,iterations);
     }
 //-----------------------------------------------------------------------------
@@ -289,7 +289,7 @@ private:
      fool_optimisation(results);
     }
     
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
 
@@ -327,7 +327,7 @@ void measureTime2Dv(){
 			 fool_optimisation(results);
 			}
 
-		const uint64_t iterations = size * m_repetitions;
+		const uint64_t iterations = uint64_t(size) * m_repetitions;
 		calculate_mean_and_err(t,t2,iterations);
 		}
 
-- 
2.43.0


From a2bd0b4688bc4539cb688a0278ff30f9a29028ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:49:56 +0000
Subject: [PATCH 09/11] fix: use the function name, not a shifted pointer, as
 the key of the Python 3 module

---
 src/vdtNumpyWrapper.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index dc7b39e..8653d54 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -181,7 +181,7 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
       vdt_v = PyUFunc_FromFuncAndData(funcs, data+2*i, types, 2, 1, 1,
                                     PyUFunc_None, fname[i],
                                     fdoc[i], 0);
-      PyDict_SetItemString(d, fname+i, vdt_v);
+      PyDict_SetItemString(d, fname[i], vdt_v);
       Py_DECREF(vdt_v);
     }
     // add sincos and atan2 by hand
-- 
2.43.0


From 183bcc7240705511b866185813bb4e9c3ca4c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:49:56 +0000
Subject: [PATCH 10/11] fix: offer div, fma and fmac in the Python 3 module too

---
 src/vdtNumpyWrapper.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index 8653d54..ae06267 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -184,7 +184,7 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
       PyDict_SetItemString(d, fname[i], vdt_v);
       Py_DECREF(vdt_v);
     }
-    // add sincos and atan2 by hand
+    // add sincos, atan2 div,fma and fmac by hand
     vdt_v = PyUFunc_FromFuncAndData(funcs12, dataSinCos, types12, 2, 1, 2,
 				    PyUFunc_None, "vdt_sincos",
 				    "vdt_sincos", 0);
@@ -195,6 +195,21 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
 				    "vdt_atan2", 0);
     PyDict_SetItemString(d,  "vdt_atan2", vdt_v);
     Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs21, dataDiv, types12, 2, 2, 1,
+				    PyUFunc_None, "vdt_div",
+				    "vdt_div", 0);
+    PyDict_SetItemString(d,  "vdt_div", vdt_v);
+    Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs31, dataFMA, types31, 2, 3, 1,
+				    PyUFunc_None, "vdt_fma",
+				    "vdt_fma", 0);
+    PyDict_SetItemString(d,  "vdt_fma", vdt_v);
+    Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs31, dataFMAC, types31, 2, 3, 1,
+				    PyUFunc_None, "vdt_fmac",
+				    "correctly rounded fma", 0);
+    PyDict_SetItemString(d,  "vdt_fmac", vdt_v);
+    Py_DECREF(vdt_v);
 
 
     return m;
-- 
2.43.0


From 0ded10f6eadaa8fe845e0af5bfdbe05ee87534ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:49:56 +0000
Subject: [PATCH 11/11] fix: honour the strides of the operands in the numpy
 loops

---
 src/vdtNumpyWrapper.c | 64 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index ae06267..ea091c8 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -34,9 +34,13 @@ static void vdt_vf(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
+  npy_intp in_step = steps[0], out_step = steps[1];
 
-  (*functionPtr)((const float *)in, (float *)out,n); 
+  if (in_step == sizeof(float) && out_step == sizeof(float))
+    (*functionPtr)((const float *)in, (float *)out,n);
+  else
+    for (npy_intp i=0; i<n; ++i, in += in_step, out += out_step)
+      (*functionPtr)((const float *)in, (float *)out,1);
 }
 
 static void vdt_vd(char **args, npy_intp *dimensions,
@@ -47,9 +51,13 @@ static void vdt_vd(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
+  npy_intp in_step = steps[0], out_step = steps[1];
   
-  (*functionPtr)((const double *)in, (double *)out,n); 
+  if (in_step == sizeof(double) && out_step == sizeof(double))
+    (*functionPtr)((const double *)in, (double *)out,n);
+  else
+    for (npy_intp i=0; i<n; ++i, in += in_step, out += out_step)
+      (*functionPtr)((const double *)in, (double *)out,1);
 }
 
 
@@ -62,9 +70,13 @@ static void vdt_vf21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
+  npy_intp in1_step = steps[0], in2_step = steps[1], out_step = steps[2];
   
-  (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,n); 
+  if (in1_step == sizeof(float) && in2_step == sizeof(float) && out_step == sizeof(float))
+    (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,n);
+  else
+    for (npy_intp i=0; i<n; ++i, in1 += in1_step, in2 += in2_step, out += out_step)
+      (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,1);
 }
 
 static void vdt_vf12(char **args, npy_intp *dimensions,
@@ -75,9 +87,13 @@ static void vdt_vf12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
+  npy_intp in_step = steps[0], out1_step = steps[1], out2_step = steps[2];
   
-  (*functionPtr)((const float *)in, (float *)out1, (float *)out2,n); 
+  if (in_step == sizeof(float) && out1_step == sizeof(float) && out2_step == sizeof(float))
+    (*functionPtr)((const float *)in, (float *)out1, (float *)out2,n);
+  else
+    for (npy_intp i=0; i<n; ++i, in += in_step, out1 += out1_step, out2 += out2_step)
+      (*functionPtr)((const float *)in, (float *)out1, (float *)out2,1);
 }
 
 static void vdt_vf31(char **args, npy_intp *dimensions,
@@ -88,9 +104,13 @@ static void vdt_vf31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
+  npy_intp in1_step = steps[0], in2_step = steps[1], in3_step = steps[2], out_step = steps[3];
   
-  (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,n); 
+  if (in1_step == sizeof(float) && in2_step == sizeof(float) && in3_step == sizeof(float) && out_step == sizeof(float))
+    (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,n);
+  else
+    for (npy_intp i=0; i<n; ++i, in1 += in1_step, in2 += in2_step, in3 += in3_step, out += out_step)
+      (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,1);
 }
 
 
@@ -102,9 +122,13 @@ static void vdt_vd21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
+  npy_intp in1_step = steps[0], in2_step = steps[1], out_step = steps[2];
   
-  (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,n); 
+  if (in1_step == sizeof(double) && in2_step == sizeof(double) && out_step == sizeof(double))
+    (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,n);
+  else
+    for (npy_intp i=0; i<n; ++i, in1 += in1_step, in2 += in2_step, out += out_step)
+      (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,1);
 }
 
 static void vdt_vd12(char **args, npy_intp *dimensions,
@@ -115,9 +139,13 @@ static void vdt_vd12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0],  *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
+  npy_intp in_step = steps[0], out1_step = steps[1], out2_step = steps[2];
   
-  (*functionPtr)((const double *)in, (double *)out1, (double *)out2,n); 
+  if (in_step == sizeof(double) && out1_step == sizeof(double) && out2_step == sizeof(double))
+    (*functionPtr)((const double *)in, (double *)out1, (double *)out2,n);
+  else
+    for (npy_intp i=0; i<n; ++i, in += in_step, out1 += out1_step, out2 += out2_step)
+      (*functionPtr)((const double *)in, (double *)out1, (double *)out2,1);
 }
 
 static void vdt_vd31(char **args, npy_intp *dimensions,
@@ -128,9 +156,13 @@ static void vdt_vd31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
+  npy_intp in1_step = steps[0], in2_step = steps[1], in3_step = steps[2], out_step = steps[3];
   
-  (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,n); 
+  if (in1_step == sizeof(double) && in2_step == sizeof(double) && in3_step == sizeof(double) && out_step == sizeof(double))
+    (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,n);
+  else
+    for (npy_intp i=0; i<n; ++i, in1 += in1_step, in2 += in2_step, in3 += in3_step, out += out_step)
+      (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,1);
 }
 
 
-- 
2.43.0

