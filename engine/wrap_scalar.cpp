// Entry points of the scalar proof jobs.  Each wrapper only selects one result of one vdt
// function; the bodies that get verified are the ones in /repo/include.
#include <cmath>
#include <limits>
#include "vdtMath.h"
#include "stdwrap.h"
#define W1(n, f) extern "C" double n(double x) { return vdt::f(x); }
#define W1F(n, f) extern "C" float n(float x) { return vdt::f(x); }
W1(w_exp, fast_exp) W1F(w_expf, fast_expf)
W1(w_log, fast_log) W1F(w_logf, fast_logf)
W1(w_sin, fast_sin) W1F(w_sinf, fast_sinf)
W1(w_cos, fast_cos) W1F(w_cosf, fast_cosf)
W1(w_tan, fast_tan) W1F(w_tanf, fast_tanf)
W1(w_asin, fast_asin) W1F(w_asinf, fast_asinf)
W1(w_acos, fast_acos) W1F(w_acosf, fast_acosf)
W1(w_atan, fast_atan) W1F(w_atanf, fast_atanf)
W1(w_tanh, fast_tanh) W1F(w_tanhf, fast_tanhf)
W1(w_isqrt, fast_isqrt) W1F(w_isqrtf, fast_isqrtf)
W1(w_aisqrt, fast_approx_isqrt) W1F(w_aisqrtf, fast_approx_isqrtf)
W1(w_pisqrt, isqrt) W1F(w_pisqrtf, isqrtf)
W1(w_inv, fast_inv) W1F(w_invf, fast_invf)
W1(w_ainv, fast_approx_inv) W1F(w_ainvf, fast_approx_invf)
W1(w_pinv, inv) W1F(w_pinvf, invf)
extern "C" double w_scs(double x) { double s, c; vdt::fast_sincos(x, s, c); return s; }
extern "C" double w_scc(double x) { double s, c; vdt::fast_sincos(x, s, c); return c; }
extern "C" float w_scsf(float x) { float s, c; vdt::fast_sincosf(x, s, c); return s; }
extern "C" float w_sccf(float x) { float s, c; vdt::fast_sincosf(x, s, c); return c; }
extern "C" double w_atan2(double y, double x) { return vdt::fast_atan2(y, x); }
extern "C" float w_atan2f(float y, float x) { return vdt::fast_atan2f(y, x); }
