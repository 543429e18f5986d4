From 89f5e5dd74bf0b96c764e14f9ca3004a5a241583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 01/17] fix: crossprob_mc poisson with an empty first line
 always printed 0

With no upper bound given, a process with more than zero steps was counted
as crossing the (absent) upper bound.
---
 src/crossprob_mc.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index c515271..a10d2c7 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -121,7 +121,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
 
 static bool does_random_poisson_process_cross(const vector<double>& b, const vector<double>& B, ExponentialRNG& exprng, vector<double>& tmp_buffer)
 {
-    size_t max_steps = b.size();
+    // If no upper bound is specified, any number of steps is allowed but only the first B.size() of them matter.
+    size_t max_steps = (b.size() > 0) ? b.size() : B.size();
     assert(tmp_buffer.size() >= max_steps);
 
     size_t num_steps = 0;
@@ -132,7 +133,7 @@ static bool does_random_poisson_process_cross(const vector<double>& b, const vec
             return does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
         }
         if (num_steps >= max_steps) {
-            return true;
+            return (b.size() > 0) || does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
         }
         tmp_buffer[num_steps] = last_x;
         ++num_steps;
@@ -147,7 +148,7 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
 
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
-    vector<double> buffer(b.size() + 1);
+    vector<double> buffer(max(b.size(), B.size()) + 1);
     int count_crossings = 0;
     for (int reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
-- 
2.43.0


From ae1c2062408d686c322901ec97bc8c9ca610da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 02/17] fix: initialise the TinyMT parameters

mat1, mat2 and tmat were read uninitialised, so the random sequence depended
on leftover stack contents and had no guaranteed period.
---
 src/crossprob_mc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index a10d2c7..e603294 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -17,6 +17,10 @@ class RandomNumberGenerator {
 public:
     RandomNumberGenerator(uint64_t seed) {
         // cout << "Random seed: " << seed << endl;
+        // These parameters must be set before calling tinymt64_init. The values are those of the TinyMT reference implementation.
+        random_state.mat1 = 0xfa051f40;
+        random_state.mat2 = 0xffd0fff4;
+        random_state.tmat = UINT64_C(0x58d02ffeffbfffbc);
         tinymt64_init(&random_state, seed);
     }
     double generate_uniform01()
-- 
2.43.0


From 19d0fb92be0d9874657b64639a153b829bf6b0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 03/17] fix: do not exit with status 0 when the result could
 not be written

---
 src/crossprob.cc    | 3 +++
 src/crossprob_mc.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/crossprob.cc b/src/crossprob.cc
index 10b279c..1f33971 100644
--- a/src/crossprob.cc
+++ b/src/crossprob.cc
@@ -169,6 +169,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
     }
 
     cout << result << endl;
+    if (!cout) {
+        throw runtime_error("Unable to write the result to the standard output.");
+    }
 
     return 0;
 }
diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index e603294..bcab643 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -227,6 +227,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
         print_usage();
         throw runtime_error("Second command line argument must be 'ecdf' or 'poisson'");
     }
+    if (!cout) {
+        throw runtime_error("Unable to write the result to the standard output.");
+    }
 
     return 0;
 }
-- 
2.43.0


From 3049ab9a754570521af6a1bc35d4c33c2720e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 04/17] fix: ecdf1_new for samples of size 0 and 1

Size 1 failed an assertion (jump_size <= n), size 0 read B[-1].
---
 src/ecdf1_new.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index b87b17f..ebe5ce4 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -116,11 +116,15 @@ double ecdf1_new_B(const vector<double>& B)
     //cout << "Called ecdf1_new_B()\n";
     int n = B.size();
     check_boundary_vector("B", n, B);
+    if (n == 0) {
+        return 1.0; // No bounds to cross
+    }
 
     // Asymptotically any k in the range [logn, n/logn] should give optimal results as n goes to infinity.
     // Setting k=c*sqrt(n) and minimizing the asymptotic runtime, we obtain k=sqrt(2*n),
     // however, empirically slightly lower numbers give better results.
     int k = sqrt(n) + 1; // The +1 is to prevent it from being zero for small array sizes.
+    k = min(k, n);
 
 
     vector<double> poisson_nocross_probabilities = poisson_B_noncrossing_probability_n2(n, n, B, k);
-- 
2.43.0


From 294b40518b759970d4677c60ede7971f071accd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 05/17] fix: ecdf2 failed an assertion when some b_i > B_i

The propagated interval of counts became empty with a negative size. The
probability in this case is 0.
---
 src/ecdf2.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecdf2.cc b/src/ecdf2.cc
index 9cf2dd7..d41498f 100644
--- a/src/ecdf2.cc
+++ b/src/ecdf2.cc
@@ -121,6 +121,12 @@ double ecdf2(const vector<double>& b, const vector<double>& B, bool use_fft)
     check_boundary_vector("b", n, b);
     check_boundary_vector("B", n, B);
 
+    for (int i = 0; i < n; ++i) {
+        if (b[i] > B[i]) {
+            return 0.0; // There is no value of X_(i) between b_i and B_i
+        }
+    }
+
     vector<double> poisson_nocross_probs = poisson_process_noncrossing_probability(n, n, b, B, use_fft);
 
     return poisson_nocross_probs[n] / poisson_pmf(n, n);
-- 
2.43.0


From 8fa647ecfd8fed49490b54477312521a95d0bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 06/17] fix: report memory exhaustion instead of crashing

Failed aligned allocations were dereferenced (segmentation fault), and
bad_alloc was not caught by the programs (abort).
---
 src/aligned_mem.hh   | 15 ++++++++++++---
 src/crossprob.cc     |  4 ++++
 src/crossprob_mc.cc  |  4 ++++
 src/ecdf1_mns2016.cc |  6 ++++++
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/aligned_mem.hh b/src/aligned_mem.hh
index 213133b..b84af68 100644
--- a/src/aligned_mem.hh
+++ b/src/aligned_mem.hh
@@ -3,21 +3,30 @@
 
 #include <complex>
 #include <cstdlib>
+#include <new>
 #include "mm_malloc.h"
 
 #define ALIGNMENT (32)
 
+inline void* allocate_aligned_mem(size_t num_bytes)
+{
+    void* p = _mm_malloc(num_bytes, ALIGNMENT);
+    if (p == NULL) {
+        throw std::bad_alloc();
+    }
+    return p;
+}
+
 inline double* allocate_aligned_doubles(int n)
 {
-    return static_cast<double*>(_mm_malloc(n*sizeof(double), ALIGNMENT));
+    return static_cast<double*>(allocate_aligned_mem(n*sizeof(double)));
 }
 
 inline std::complex<double>* allocate_aligned_complexes(int n)
 {
-    return static_cast<std::complex<double>*>(_mm_malloc(n*sizeof(std::complex<double>), ALIGNMENT));
+    return static_cast<std::complex<double>*>(allocate_aligned_mem(n*sizeof(std::complex<double>)));
 }
 
-
 inline void free_aligned_mem(void* p)
 {
     _mm_free(p);
diff --git a/src/crossprob.cc b/src/crossprob.cc
index 1f33971..3bec494 100644
--- a/src/crossprob.cc
+++ b/src/crossprob.cc
@@ -194,5 +194,9 @@ int main(int argc, char* argv[])
         cout << "Error:" << endl;
         cout << e.what() << endl;
         return 3;
+    } catch (exception& e) { // e.g. bad_alloc
+        cout << "Error:" << endl;
+        cout << e.what() << endl;
+        return 4;
     }
 }
diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index bcab643..4a5a40b 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -247,5 +247,9 @@ int main(int argc, char* argv[])
         cout << "runtime_error exception caught:" << endl;
         cout << e.what() << endl;
         return 2;
+    } catch (exception& e) { // e.g. bad_alloc
+        cout << "exception caught:" << endl;
+        cout << e.what() << endl;
+        return 3;
     }
 }
diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 6d858b6..b85b5e4 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -1,4 +1,5 @@
 #include <vector>
+#include <new>
 #include <stdexcept>
 #include <iostream>
 #include <sstream>
@@ -96,6 +97,11 @@ PolynomialTranslatedMonomials::PolynomialTranslatedMonomials(int max_degree) :
     assert(max_degree >= 0);
     multiplicative_coefficients = (FLOAT*)_mm_malloc(sizeof(FLOAT)*(max_degree+1), 32);
     additive_coefficients = (FLOAT*)_mm_malloc(sizeof(FLOAT)*(max_degree+1), 32);
+    if ((multiplicative_coefficients == NULL) || (additive_coefficients == NULL)) {
+        _mm_free(multiplicative_coefficients);
+        _mm_free(additive_coefficients);
+        throw bad_alloc();
+    }
     memset(multiplicative_coefficients, 0, sizeof(FLOAT)*(max_degree+1));
     memset(additive_coefficients, 0, sizeof(FLOAT)*(max_degree+1));
 }
-- 
2.43.0


From 93ff381a8b4241e51d85b225c4660c76bbc8f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 07/17] fix: release memory and FFT plans when a computation
 fails

Buffers were released only on the normal path, so an exception (failed
allocation) in a constructor or in mid-computation leaked them.
---
 src/aligned_mem.hh   |  8 ++++++++
 src/ecdf1_new.cc     |  5 ++---
 src/fftwconvolver.cc | 32 ++++++++++++--------------------
 src/fftwconvolver.hh | 11 ++++++-----
 src/poisson_pmf.cc   | 10 ++--------
 src/poisson_pmf.hh   |  8 ++++----
 6 files changed, 34 insertions(+), 40 deletions(-)

diff --git a/src/aligned_mem.hh b/src/aligned_mem.hh
index b84af68..d556676 100644
--- a/src/aligned_mem.hh
+++ b/src/aligned_mem.hh
@@ -3,6 +3,7 @@
 
 #include <complex>
 #include <cstdlib>
+#include <memory>
 #include <new>
 #include "mm_malloc.h"
 
@@ -32,4 +33,11 @@ inline void free_aligned_mem(void* p)
     _mm_free(p);
 }
 
+// Owner of a block of aligned memory, for releasing it also when an exception is thrown.
+struct AlignedMemDeleter {
+    void operator()(void* p) const { free_aligned_mem(p); }
+};
+typedef std::unique_ptr<double[], AlignedMemDeleter> AlignedDoubles;
+typedef std::unique_ptr<std::complex<double>[], AlignedMemDeleter> AlignedComplexes;
+
 #endif
diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index ebe5ce4..25780fd 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -32,7 +32,7 @@ vector<double> poisson_B_noncrossing_probability_n2(int n, double intensity, con
 
     PoissonPMFGenerator pmfgen(n+1);
 
-    double* tmp = allocate_aligned_doubles(n+1);
+    AlignedDoubles tmp(allocate_aligned_doubles(n+1));
 
     int n_steps = B.size();
     double I_prev_location = 0.0;
@@ -50,7 +50,7 @@ vector<double> poisson_B_noncrossing_probability_n2(int n, double intensity, con
         //cout << endl;
         //cout << "buffers.get_src(): " << buffers.get_src() << endl;
 
-        fftconvolver.convolve_same_size(n-I_prev, pmfgen.get_array(), &buffers.get_src()[I_prev+1], tmp);
+        fftconvolver.convolve_same_size(n-I_prev, pmfgen.get_array(), &buffers.get_src()[I_prev+1], tmp.get());
         //cout << "Convolution: ";
         //print_double_array(tmp, n+1);
         //cout << endl;
@@ -107,7 +107,6 @@ vector<double> poisson_B_noncrossing_probability_n2(int n, double intensity, con
     fftconvolver.convolve_same_size(n-n_steps+1, pmfgen.get_array(), &buffers.get_src()[n_steps], &buffers.get_dest()[n_steps]);
     fill(&buffers.get_dest()[0], &buffers.get_dest()[n_steps], 0.0);
 
-    free_aligned_mem(tmp);
     return buffers.get_dest();
 }
 
diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index 4b98a62..75278e5 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -32,13 +32,13 @@ FFTWConvolver::FFTWConvolver(int maximum_input_size) :
 {
     int maximum_padded_input_size = round_up(2*maximum_input_size, ROUNDING);
 
-    r2c_in = allocate_aligned_doubles(maximum_padded_input_size);
-    r2c_out = allocate_aligned_complexes(maximum_padded_input_size);
+    r2c_in.reset(allocate_aligned_doubles(maximum_padded_input_size));
+    r2c_out.reset(allocate_aligned_complexes(maximum_padded_input_size));
 
-    c2r_in = allocate_aligned_complexes(maximum_padded_input_size);
-    c2r_out = allocate_aligned_doubles(maximum_padded_input_size);
+    c2r_in.reset(allocate_aligned_complexes(maximum_padded_input_size));
+    c2r_out.reset(allocate_aligned_doubles(maximum_padded_input_size));
 
-    tmp_complex = allocate_aligned_complexes(maximum_padded_input_size);
+    tmp_complex.reset(allocate_aligned_complexes(maximum_padded_input_size));
 }
 
 void convolve_same_size_naive(int size, const double* __restrict__ src0, const double* __restrict__ src1, double* __restrict__ dest)
@@ -74,7 +74,7 @@ fftw_plan FFTWConvolver::memoized_r2c_plan(int rounded_size)
     assert(index < r2c_plans.size());
 
     if (r2c_plans[index] == NULL) {
-        r2c_plans[index] = fftw_plan_dft_r2c_1d(rounded_size, r2c_in, reinterpret_cast<fftw_complex*>(r2c_out), FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
+        r2c_plans[index] = fftw_plan_dft_r2c_1d(rounded_size, r2c_in.get(), reinterpret_cast<fftw_complex*>(r2c_out.get()), FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
     }
 
     return r2c_plans[index];
@@ -89,7 +89,7 @@ fftw_plan FFTWConvolver::memoized_c2r_plan(int rounded_size)
     assert(index < c2r_plans.size());
 
     if (c2r_plans[index] == NULL) {
-        c2r_plans[index] = fftw_plan_dft_c2r_1d(rounded_size, reinterpret_cast<fftw_complex*>(c2r_in), c2r_out, FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
+        c2r_plans[index] = fftw_plan_dft_c2r_1d(rounded_size, reinterpret_cast<fftw_complex*>(c2r_in.get()), c2r_out.get(), FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
     }
 
     return c2r_plans[index];
@@ -125,22 +125,22 @@ void FFTWConvolver::convolve_same_size(
     int padded_size = round_up(2*size, ROUNDING);
     
     // tmp_complex <- FFT(zeropad(input_a));
-    copy_zero_padded(input_a, r2c_in, size, padded_size);
+    copy_zero_padded(input_a, r2c_in.get(), size, padded_size);
     //fftw_execute(memoized_r2c_plan(padded_size));
     //memcpy(tmp_complex, r2c_out, sizeof(complex<double>)*(padded_size/2 + 1));
-    fftw_execute_dft_r2c(memoized_r2c_plan(padded_size), r2c_in, reinterpret_cast<fftw_complex*>(tmp_complex));
+    fftw_execute_dft_r2c(memoized_r2c_plan(padded_size), r2c_in.get(), reinterpret_cast<fftw_complex*>(tmp_complex.get()));
     // Try this instead of last two lines:
     // fftw_execute_dft_r2c(memoized_r2c_plan(padded_length), r2c_in, tmp_complex);
 
     // r2c_out <- FFT(zeropad(input_b));
-    copy_zero_padded(input_b, r2c_in, size, padded_size); 
+    copy_zero_padded(input_b, r2c_in.get(), size, padded_size); 
     fftw_execute(memoized_r2c_plan(padded_size));
 
     // Perform element-wise product of FFT(a) and FFT(b) and then compute inverse fourier transform.
     // FFTW returns unnormalized output. To normalize it one must divide each element of the result by the number of elements.
-    elementwise_complex_product(padded_size/2 + 1, tmp_complex, r2c_out, c2r_in, 1.0/double(padded_size));
+    elementwise_complex_product(padded_size/2 + 1, tmp_complex.get(), r2c_out.get(), c2r_in.get(), 1.0/double(padded_size));
     fftw_execute(memoized_c2r_plan(padded_size));
-    std::memcpy(output, c2r_out, size * sizeof(double));
+    std::memcpy(output, c2r_out.get(), size * sizeof(double));
 }
 
 FFTWConvolver::~FFTWConvolver()
@@ -156,12 +156,4 @@ FFTWConvolver::~FFTWConvolver()
             fftw_destroy_plan(c2r_plans[i]);
         }
     }
-
-    free_aligned_mem(r2c_in);
-    free_aligned_mem(r2c_out);
-
-    free_aligned_mem(c2r_in);
-    free_aligned_mem(c2r_out);
-
-    free_aligned_mem(tmp_complex);
 }
diff --git a/src/fftwconvolver.hh b/src/fftwconvolver.hh
index d694a43..fea9b5c 100644
--- a/src/fftwconvolver.hh
+++ b/src/fftwconvolver.hh
@@ -4,6 +4,7 @@
 #include <vector>
 #include <complex>
 #include <fftw3.h>
+#include "aligned_mem.hh"
 
 class FFTWConvolver {
 public:
@@ -13,18 +14,18 @@ public:
 private:
     int maximum_input_size;
 
-    std::complex<double>* tmp_complex;
+    AlignedComplexes tmp_complex;
 
 
     // The r2c plans perform, for various sizes, a real to complex FFT with input at r2c_in and output at r2c_out
-    double* r2c_in;
-    std::complex<double>* r2c_out;
+    AlignedDoubles r2c_in;
+    AlignedComplexes r2c_out;
     std::vector<fftw_plan> r2c_plans;
     fftw_plan memoized_r2c_plan(int rounded_size);
 
     // The c2r plans perform, for various sizes, a complex to real FFT with input at c2r_in and output at c2r_out
-    std::complex<double>* c2r_in;
-    double* c2r_out;
+    AlignedComplexes c2r_in;
+    AlignedDoubles c2r_out;
     std::vector<fftw_plan> c2r_plans;
     fftw_plan memoized_c2r_plan(int rounded_size);
 
diff --git a/src/poisson_pmf.cc b/src/poisson_pmf.cc
index 76599c2..5c295e8 100644
--- a/src/poisson_pmf.cc
+++ b/src/poisson_pmf.cc
@@ -12,22 +12,16 @@ PoissonPMFGenerator::PoissonPMFGenerator(int max_k)
     assert(max_k > 0);
 
     this->max_k = max_k;
-    log_gamma_LUT = allocate_aligned_doubles(max_k+2);
+    log_gamma_LUT.reset(allocate_aligned_doubles(max_k+2));
     for (int i = 0; i < max_k+2; ++i) {
         log_gamma_LUT[i] = lgamma(i);
     }
-   pmf_array_ptr = allocate_aligned_doubles(max_k+1);
+   pmf_array_ptr.reset(allocate_aligned_doubles(max_k+1));
     for (int i = 0; i < max_k+1; ++i) {
         pmf_array_ptr[i] = 0;
     }
 }
 
-PoissonPMFGenerator::~PoissonPMFGenerator()
-{
-    free_aligned_mem(pmf_array_ptr);
-    free_aligned_mem(log_gamma_LUT);
-}
-
 
 void PoissonPMFGenerator::compute_array(int k, double lambda)
 {
diff --git a/src/poisson_pmf.hh b/src/poisson_pmf.hh
index 2966fee..2ab6cc2 100644
--- a/src/poisson_pmf.hh
+++ b/src/poisson_pmf.hh
@@ -3,6 +3,7 @@
 
 #include <cmath>
 #include <cassert>
+#include "aligned_mem.hh"
 
 // Computes the probability of a Poisson random variable with intensity lambda:
 // Pr[Pois(lambda)=k] = e^-lambda * lambda^k / k!
@@ -21,7 +22,6 @@ inline double poisson_pmf(double lambda, int k)
 class PoissonPMFGenerator {
 public:
     PoissonPMFGenerator(int max_k);
-    ~PoissonPMFGenerator();
     double evaluate_pmf(double lambda, int k) const
     {
         assert(lambda >= 0);
@@ -38,11 +38,11 @@ public:
     // Returns the smallest integer N such that for all indices i >= N we have that due to double-precision rounding
     //     Pr[Pois(lambda) = i] = 0
     void compute_array(int k, double lambda); 
-    const double* get_array() const {return pmf_array_ptr;}
+    const double* get_array() const {return pmf_array_ptr.get();}
 private:
     int max_k;
-    double* log_gamma_LUT;
-    double* pmf_array_ptr;
+    AlignedDoubles log_gamma_LUT;
+    AlignedDoubles pmf_array_ptr;
 };
 
 #endif
-- 
2.43.0


From af96d0837b0a03855ed562b69b7050850a501568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 08/17] fix: report FFT plans that could not be created

A NULL plan was executed (segmentation fault).
---
 src/fftwconvolver.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index 75278e5..ca15225 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -1,6 +1,8 @@
 #include <iostream>
 #include <cassert>
 #include <cstring>
+#include <sstream>
+#include <stdexcept>
 #include "fftwconvolver.hh"
 #include "aligned_mem.hh"
 
@@ -75,6 +77,9 @@ fftw_plan FFTWConvolver::memoized_r2c_plan(int rounded_size)
 
     if (r2c_plans[index] == NULL) {
         r2c_plans[index] = fftw_plan_dft_r2c_1d(rounded_size, r2c_in.get(), reinterpret_cast<fftw_complex*>(r2c_out.get()), FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
+        if (r2c_plans[index] == NULL) {
+            throw runtime_error("FFTW failed to create a plan.");
+        }
     }
 
     return r2c_plans[index];
@@ -90,6 +95,9 @@ fftw_plan FFTWConvolver::memoized_c2r_plan(int rounded_size)
 
     if (c2r_plans[index] == NULL) {
         c2r_plans[index] = fftw_plan_dft_c2r_1d(rounded_size, reinterpret_cast<fftw_complex*>(c2r_in.get()), c2r_out.get(), FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
+        if (c2r_plans[index] == NULL) {
+            throw runtime_error("FFTW failed to create a plan.");
+        }
     }
 
     return c2r_plans[index];
-- 
2.43.0


From 235776e81dc2498b04005fb2ab31b6e45f0b84c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 09/17] fix: concurrent calls crashed in the FFTW planner

Plan creation and destruction are not thread-safe in FFTW, so two threads
calling ecdf2 or ecdf1_new at the same time corrupted the planner's state.
---
 src/fftwconvolver.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index ca15225..97732b0 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <cassert>
 #include <cstring>
+#include <mutex>
 #include <sstream>
 #include <stdexcept>
 #include "fftwconvolver.hh"
@@ -21,6 +22,9 @@ const int ROUNDING = 2048;
 const int MINIMUM_SIZE_FOR_FFTW_CONVOLUTION = 128;
 
 
+// In FFTW only the execution of plans is thread-safe. Their creation and destruction must be serialized.
+static mutex fftw_planner_mutex;
+
 int round_up(int n, int rounding)
 {
     assert(rounding >= 0);
@@ -76,6 +80,7 @@ fftw_plan FFTWConvolver::memoized_r2c_plan(int rounded_size)
     assert(index < r2c_plans.size());
 
     if (r2c_plans[index] == NULL) {
+        lock_guard<mutex> lock(fftw_planner_mutex);
         r2c_plans[index] = fftw_plan_dft_r2c_1d(rounded_size, r2c_in.get(), reinterpret_cast<fftw_complex*>(r2c_out.get()), FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
         if (r2c_plans[index] == NULL) {
             throw runtime_error("FFTW failed to create a plan.");
@@ -94,6 +99,7 @@ fftw_plan FFTWConvolver::memoized_c2r_plan(int rounded_size)
     assert(index < c2r_plans.size());
 
     if (c2r_plans[index] == NULL) {
+        lock_guard<mutex> lock(fftw_planner_mutex);
         c2r_plans[index] = fftw_plan_dft_c2r_1d(rounded_size, reinterpret_cast<fftw_complex*>(c2r_in.get()), c2r_out.get(), FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
         if (c2r_plans[index] == NULL) {
             throw runtime_error("FFTW failed to create a plan.");
@@ -153,6 +159,7 @@ void FFTWConvolver::convolve_same_size(
 
 FFTWConvolver::~FFTWConvolver()
 {
+    lock_guard<mutex> lock(fftw_planner_mutex);
     for (size_t i = 0; i < r2c_plans.size(); ++i) {
         if (r2c_plans[i] != NULL) {
             fftw_destroy_plan(r2c_plans[i]);
-- 
2.43.0


From e399589ae1ae0af671ca5355a751019fc55b191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 10/17] fix: ecdf1_mns2016 returned NaN for a probability of
 zero

The logarithm of a zero (or, by cancellation, slightly negative) integral was taken.
---
 src/ecdf1_mns2016.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index b85b5e4..8a6a590 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -234,6 +234,9 @@ double ecdf1_mns2016_b(const vector<double>& b)
     //FLOAT max_coef = maximum_multiplicative_coefficient(p);
     //FLOAT min_coef = minimum_multiplicative_coefficient(p);
     FLOAT integral_result = p.evaluate(1);
+    if (integral_result <= 0) {
+        return 0.0; // The probability is zero, or too small to be told from it. It has no logarithm.
+    }
     FLOAT log_integral_result = LOG(integral_result);
     FLOAT noncrossing_probability = EXP(LOG_GAMMA(n+1) + log_integral_result - total_exponent_delta*LOG(2));
     // cout << p << endl;
-- 
2.43.0


From cb973b6bff219f9df380d3a073eec2d95f993bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 11/17] fix: NaN among the bounds crashed instead of being
 refused

With -ffast-math a NaN passed the monotonicity check, and the algorithms
then indexed out of bounds (segmentation fault or failed assertion).
---
 src/common.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/common.cc b/src/common.cc
index 4519e10..1d1a3c1 100644
--- a/src/common.cc
+++ b/src/common.cc
@@ -1,16 +1,26 @@
 #include "common.hh"
 
+#include <cstdint>
+#include <cstring>
 #include <stdexcept>
 #include <sstream>
 
 using namespace std;
 
 
+// With -ffast-math the compiler may assume that std::isnan() is always false and that every comparison is ordered.
+static bool is_nan(double x)
+{
+    uint64_t bits;
+    memcpy(&bits, &x, sizeof(bits));
+    return (bits & UINT64_C(0x7fffffffffffffff)) > UINT64_C(0x7ff0000000000000);
+}
+
 static bool is_monotone_increasing(const vector<double>& v)
 {
     double prev = -numeric_limits<double>::infinity();
     for (int i = 0; i < (int)v.size(); ++i) {
-        if (v[i] < prev) {
+        if (is_nan(v[i]) || (v[i] < prev)) {
             return false;
         }
         prev = v[i];
-- 
2.43.0


From d953ad3152b787b6dff7c4a1f6b1e62512a1b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 12/17] fix: the Python module crashed when reading an item of
 a sequence failed

PySequence_GetItem returns NULL then, which must not be converted.
---
 python_extension/crossprob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 4bb2635..e7132f6 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -3515,7 +3515,7 @@ namespace swig {
   struct traits_as<Type, value_category> {
     static Type as(PyObject *obj) {
       Type v;
-      int res = asval(obj, &v);
+      int res = obj ? asval(obj, &v) : SWIG_ERROR;
       if (!obj || !SWIG_IsOK(res)) {
 	if (!PyErr_Occurred()) {
 	  ::SWIG_Error(SWIG_TypeError,  swig::type_name<Type>());
-- 
2.43.0


From dc0030f3d8e01f7b8e7f4a78e03bc92f28b3f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 13/17] fix: the Python module leaked references when a
 sequence raised

The traceback of the caller's exception, and with it the sequence, was never
released; the exception's text may also be unavailable.
---
 python_extension/crossprob.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index e7132f6..1d5a391 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -920,19 +920,20 @@ SWIG_Python_AddErrorMsg(const char* mesg)
     PyErr_Fetch(&type, &value, &traceback);
   if (value) {
     PyObject *old_str = PyObject_Str(value);
-    const char *tmp = SWIG_Python_str_AsChar(old_str);
+    const char *tmp = old_str ? SWIG_Python_str_AsChar(old_str) : NULL;
     PyErr_Clear();
-    Py_XINCREF(type);
     if (tmp)
       PyErr_Format(type, "%s %s", tmp, mesg);
     else
       PyErr_Format(type, "%s", mesg);
     SWIG_Python_str_DelForPy3(tmp);
-    Py_DECREF(old_str);
+    Py_XDECREF(old_str);
     Py_DECREF(value);
   } else {
     PyErr_SetString(PyExc_RuntimeError, mesg);
   }
+  Py_XDECREF(type);
+  Py_XDECREF(traceback);
 }
 
 SWIGRUNTIME int
-- 
2.43.0


From 1ca3ec21ec9a8205d7c79f4a078b8f4c0e67b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 14/17] fix: the Python module could read a sequence without
 end

A sequence that becomes shorter while it is read was read on for as long as it
delivered items, and one whose length raises was read with the exception set.
---
 python_extension/crossprob.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 1d5a391..49dda5d 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -4345,7 +4345,10 @@ namespace swig
 
     size_type size() const
     {
-      return static_cast<size_type>(PySequence_Size(_seq));
+      Py_ssize_t n = PySequence_Size(_seq);
+      if (n < 0)
+	throw std::invalid_argument("the length of the sequence is not available");
+      return static_cast<size_type>(n);
     }
 
     bool empty() const
@@ -4431,7 +4434,7 @@ namespace swig {
     // seq->assign(swigpyseq.begin(), swigpyseq.end()); // not used as not always implemented
     typedef typename SwigPySeq::value_type value_type;
     typename SwigPySeq::const_iterator it = swigpyseq.begin();
-    for (;it != swigpyseq.end(); ++it) {
+    for (;it < swigpyseq.end(); ++it) {
       seq->insert(seq->end(),(value_type)(*it));
     }
   }
-- 
2.43.0


From f6361d3ccaa35a29516d572fea8608950f2e870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 15/17] fix: the Python module leaked memory when a sequence
 could not be converted

---
 python_extension/crossprob.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 49dda5d..0032d5b 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -4457,7 +4457,12 @@ namespace swig {
 	  SwigPySequence_Cont<value_type> swigpyseq(obj);
 	  if (seq) {
 	    sequence *pseq = new sequence();
-	    assign(swigpyseq, pseq);
+	    try {
+	      assign(swigpyseq, pseq);
+	    } catch (...) {
+	      delete pseq;
+	      throw;
+	    }
 	    *seq = pseq;
 	    return SWIG_NEWOBJ;
 	  } else {
-- 
2.43.0


From ae478b93dbdc14b101ef60ee0eee3c0f6b02bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 16/17] fix: crossprob_mc never ended for more than 2^31-1
 simulations

The counter of type int overflowed before it reached num_simulations.
---
 src/crossprob_mc.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 4a5a40b..fc0a783 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -115,8 +115,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
     RandomNumberGenerator rng(time(NULL) + (n<<20));
 
     vector<double> tmp_buffer(n);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);
     }
 
@@ -153,8 +153,8 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(max(b.size(), B.size()) + 1);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
     }
 
-- 
2.43.0


From 77dd3bc683336b009455e4a651d320a2b70180bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:58 +0000
Subject: [PATCH 17/17] fix: refuse convolutions larger than FFTWConvolver's
 buffers and plans

The constructor stored the maximum input size rounded up by 2047, so sizes that the buffers and
the tables of plans were not made for passed the check in convolve_same_size().
---
 src/fftwconvolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index 97732b0..774ce7f 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -32,7 +32,7 @@ int round_up(int n, int rounding)
 }
 
 FFTWConvolver::FFTWConvolver(int maximum_input_size) :
-    maximum_input_size(maximum_input_size+ROUNDING-1),
+    maximum_input_size(maximum_input_size),
     r2c_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL),
     c2r_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL)
 {
-- 
2.43.0

