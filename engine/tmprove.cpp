#include <cfenv>
// Taylor-model prover for floating-point contracts.
//
// Executes the lowered LLVM IR of the real functions on boxes of consecutive floating-point
// inputs.  A floating-point value is enclosed by
//     sum_k c_k t^k  +  sum_i n_i e_i  +  [-rem,rem]        t in [-1,1], e_i in [-1,1]
// (c_k binary128, t the position in the box, e_i one symbol per rounding) together with an
// interval and an exponent g such that the value is a multiple of 2^g.  A contract clause is
// an inequality between the returned enclosure and a Taylor enclosure of the mathematical
// reference function on the same box; a box that cannot be decided is bisected, down to single
// floating-point numbers, which are executed concretely.
#include <quadmath.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <unordered_map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <algorithm>
#include <chrono>
#include <random>
#include <dlfcn.h>
#include <cassert>
#include <limits>

typedef __float128 Q;
typedef long double L;
typedef __int128 I128;
typedef unsigned __int128 U128;
static const int DM = 12;     // maximal degree
static const int NM = 120;    // maximal number of rounding symbols
static const L LUP = 1.0L + 0x1p-58L;
static const L QEPS = 0x1p-110L;   // relative rounding error of one binary128 operation (2^-113), with margin
static const L REFEPS = 0x1p-104L; // trusted relative accuracy of libquadmath reference values
static const L LINF = std::numeric_limits<L>::infinity();

static inline L qabs(Q q) { L v = (L)q; if (v < 0) v = -v; return v * LUP; }
static inline L qlo(Q q) { return nextafterl((L)q, -LINF); }
static inline L qhi(Q q) { return nextafterl((L)q, LINF); }
static inline L dn(L x) { return nextafterl(x, -LINF); }
static inline L upl(L x) { return nextafterl(x, LINF); }

struct Unsupported { std::string m; };
struct NeedSplit { std::string m; };
struct Infeasible {};

struct Ctx {
  int D = 9;
  int nn = 0;               // rounding symbols in use
  bool fma = false;         // arbitrary contraction of multiply-add
  std::vector<int> dec, cnt; // decisions of this path
  size_t dpos = 0;
  unsigned flags = 0;
  std::string flagwhere;
  long steps = 0;
  long calls = 0;
};
static thread_local Ctx C;
enum { FL_INVALID = 1, FL_DIVZ = 2, FL_OVF = 4, FL_CONV = 8, FL_SHIFT = 16, FL_NSW = 32, FL_MEM = 64, FL_IDIV = 128 };
static void flag(unsigned f, const char *w = "") { if (!(C.flags & f)) C.flagwhere += w; C.flags |= f; }

static int choose(int k) {
  if (k <= 1) return 0;
  if (C.dpos < C.dec.size()) return C.dec[C.dpos++];
  if (C.dec.size() > 24) throw NeedSplit{"too many undecided choices"};
  C.dec.push_back(0); C.cnt.push_back(k); C.dpos++;
  return 0;
}

// ---------------------------------------------------------------- Taylor models
struct TM {
  Q c[DM + 1];
  L n[NM];
  int nn = 0; // number of valid n entries (others are zero)
  L rem = 0;
  TM() { for (int i = 0; i <= C.D; i++) c[i] = 0; }
  TM(Q v) { c[0] = v; for (int i = 1; i <= C.D; i++) c[i] = 0; }
  TM(const TM &o) { *this = o; }
  TM &operator=(const TM &o) {
    for (int i = 0; i <= C.D; i++) c[i] = o.c[i];
    nn = o.nn; for (int i = 0; i < nn; i++) n[i] = o.n[i];
    rem = o.rem; return *this;
  }
  L noise() const { L s = 0; for (int i = 0; i < nn; i++) s += fabsl(n[i]); return s * LUP; }
  L dev() const { L s = 0; for (int i = 1; i <= C.D; i++) s += qabs(c[i]); return s * LUP; }
  L pnorm() const { return (dev() + qabs(c[0])) * LUP; }
  L norm() const { return (pnorm() + noise() + rem) * LUP; }
  void ext(int k) { while (nn < k) n[nn++] = 0; }
  // range
  void range(L &lo, L &hi) const {
    Q a = c[0], b = c[0];
    for (int i = 1; i <= C.D; i++) {
      if (c[i] == 0) continue;
      if (i & 1) { Q x = fabsq(c[i]); a -= x; b += x; }
      else { if (c[i] > 0) b += c[i]; else a += c[i]; }
    }
    L w = (noise() + rem) * LUP;
    if (w == 0 && dev() == 0 && (Q)(L)c[0] == c[0]) { lo = hi = (L)c[0]; return; }
    w += pnorm() * (QEPS * 16);
    lo = dn(dn(qlo(a)) - w); hi = upl(upl(qhi(b)) + w);
  }
};
static int newsym(TM &t, L mag) {
  if (mag == 0) return -1;
  if (C.nn >= NM) { t.rem = (t.rem + mag) * LUP; return -1; }
  int id = C.nn++;
  t.ext(id); t.n[id] = mag; t.nn = id + 1;
  return id;
}
static TM tneg(const TM &a) { TM r = a; for (int i = 0; i <= C.D; i++) r.c[i] = -a.c[i]; for (int i = 0; i < a.nn; i++) r.n[i] = -a.n[i]; return r; }
static TM tadd(const TM &a, const TM &b, int sg = 1) {
  TM r; L q = 0;
  for (int i = 0; i <= C.D; i++) { r.c[i] = sg > 0 ? a.c[i] + b.c[i] : a.c[i] - b.c[i]; q += qabs(r.c[i]); }
  r.nn = std::max(a.nn, b.nn);
  L nr = 0;
  for (int i = 0; i < r.nn; i++) {
    L x = i < a.nn ? a.n[i] : 0, y = i < b.nn ? b.n[i] : 0;
    r.n[i] = sg > 0 ? x + y : x - y; nr += fabsl(r.n[i]);
  }
  r.rem = (a.rem + b.rem + q * QEPS + nr * 0x1p-62L) * LUP;
  return r;
}
static TM tscale(const TM &a, Q s) {
  TM r; L q = 0, nr = 0; L sl = (L)s;
  for (int i = 0; i <= C.D; i++) { r.c[i] = a.c[i] * s; q += qabs(r.c[i]); }
  r.nn = a.nn;
  for (int i = 0; i < a.nn; i++) { r.n[i] = a.n[i] * sl; nr += fabsl(r.n[i]); }
  r.rem = (a.rem * qabs(s) + q * QEPS + nr * 0x1p-60L) * LUP;
  return r;
}
static bool isConst(const TM &a) { if (a.nn || a.rem != 0) return false; for (int i = 1; i <= C.D; i++) if (a.c[i] != 0) return false; return true; }
static TM tmul(const TM &a, const TM &b) {
  if (isConst(a)) return tscale(b, a.c[0]);
  if (isConst(b)) return tscale(a, b.c[0]);
  TM r; int D = C.D;
  L A[DM + 1], B[DM + 1]; L pa = 0, pb = 0;
  int da = 0, db = 0;
  for (int i = 0; i <= D; i++) {
    A[i] = qabs(a.c[i]); B[i] = qabs(b.c[i]); pa += A[i]; pb += B[i];
    if (A[i] != 0) da = i;
    if (B[i] != 0) db = i;
  }
  for (int i = 0; i <= da; i++)
    for (int j = 0; j <= db && i + j <= D; j++) r.c[i + j] += a.c[i] * b.c[j];
  L tr = 0;
  for (int i = 1; i <= da; i++)
    for (int j = std::max(0, D - i + 1); j <= db; j++) tr += A[i] * B[j];
  L na = a.noise(), nb = b.noise();
  L a0 = (L)a.c[0], b0 = (L)b.c[0];
  r.nn = std::max(a.nn, b.nn); L nr = 0;
  for (int i = 0; i < r.nn; i++) {
    L x = i < a.nn ? a.n[i] : 0, y = i < b.nn ? b.n[i] : 0;
    r.n[i] = a0 * y + b0 * x; nr += fabsl(a0 * y) + fabsl(b0 * x);
  }
  L dva = (pa - A[0]) * LUP + A[0] * 0x1p-57L, dvb = (pb - B[0]) * LUP + B[0] * 0x1p-57L;
  dva = a.dev(); dvb = b.dev();
  L Na = (pa + na) * LUP, Nb = (pb + nb) * LUP;
  L rr = tr + dva * nb + dvb * na + na * nb + Na * b.rem + Nb * a.rem + a.rem * b.rem + pa * pb * QEPS * (D + 2) + nr * 0x1p-60L;
  r.rem = rr * LUP * LUP;
  return r;
}
// quotient; v must be bounded away from 0 by vmin>0
static TM tdiv(const TM &u, const TM &v, L vmin, L zmax_hint) {
  int D = C.D; TM z;
  for (int k = 0; k <= D; k++) {
    Q s = u.c[k];
    for (int j = 1; j <= k; j++) s -= v.c[j] * z.c[k - j];
    z.c[k] = s / v.c[0];
  }
  TM vp = v; vp.nn = 0; vp.rem = 0;
  TM up = u; up.nn = 0; up.rem = 0;
  TM w = tmul(z, vp);
  TM r = tadd(up, w, -1);
  L res = r.norm();
  L zn = z.pnorm();
  L z0 = (L)z.c[0], v0 = (L)v.c[0];
  TM out = z; out.nn = std::max(u.nn, v.nn);
  L a0 = 0, vn = 0, nr = 0;
  for (int i = 0; i < out.nn; i++) {
    L x = i < u.nn ? u.n[i] : 0, y = i < v.nn ? v.n[i] : 0;
    L a = x - z0 * y; nr += fabsl(x) + fabsl(z0 * y);
    a0 += fabsl(a); vn += fabsl(y);
    out.n[i] = a / v0;
  }
  a0 += nr * 0x1p-60L;
  L dv = (v.dev() + v.noise() + v.rem) * LUP;
  L av0 = fabsl(v0);
  L e = (res + u.rem + zn * v.rem) / vmin + z.dev() * vn / vmin + a0 * dv / (vmin * av0) + nr * 0x1p-60L / av0 + vn * qabs(z.c[0]) * 0x1p-60L / av0;
  out.rem = e * LUP * LUP;
  return out;
}
static TM tsqrt(const TM &u, L umin) {
  int D = C.D; TM z;
  z.c[0] = sqrtq(u.c[0]);
  for (int k = 1; k <= D; k++) {
    Q s = u.c[k];
    for (int j = 1; j < k; j++) s -= z.c[j] * z.c[k - j];
    z.c[k] = s / (2 * z.c[0]);
  }
  TM up = u; up.nn = 0; up.rem = 0;
  TM r = tadd(up, tmul(z, z), -1);
  L res = r.norm();
  L z0 = (L)z.c[0];
  L su = sqrtl(umin) * (1 - 0x1p-60L);
  L zlo, zhi; z.range(zlo, zhi);
  L den = su + std::max(zlo, (L)0); // sqrt(u)+z lower bound
  if (!(den > 0)) throw NeedSplit{"sqrt"};
  TM out = z; out.nn = u.nn; L un = 0;
  for (int i = 0; i < u.nn; i++) { out.n[i] = u.n[i] / (2 * z0); un += fabsl(u.n[i]); }
  // |sqrt(u)+z - 2 z0| <= |sqrt(u)-z| + 2 dev(z)
  L tot = (res + u.rem + un) / den;
  L df = tot + 2 * z.dev() + z0 * 0x1p-58L;
  out.rem = ((res + u.rem) / den + un * df / (den * 2 * z0) + un / z0 * 0x1p-60L) * LUP * LUP;
  return out;
}

// ---------------------------------------------------------------- long double intervals
struct IVL { L lo, hi; };
static IVL iv(L a) { return {a, a}; }
static IVL iadd(IVL a, IVL b) { return {dn(a.lo + b.lo), upl(a.hi + b.hi)}; }
static IVL isub(IVL a, IVL b) { return {dn(a.lo - b.hi), upl(a.hi - b.lo)}; }
static IVL imul(IVL a, IVL b) {
  L p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  L mn = p[0], mx = p[0];
  for (int i = 1; i < 4; i++) { mn = std::min(mn, p[i]); mx = std::max(mx, p[i]); }
  return {dn(mn), upl(mx)};
}
static IVL idiv(IVL a, IVL b) {
  if (b.lo <= 0 && b.hi >= 0) throw NeedSplit{"interval division"};
  L p[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi};
  L mn = p[0], mx = p[0];
  for (int i = 1; i < 4; i++) { mn = std::min(mn, p[i]); mx = std::max(mx, p[i]); }
  return {dn(mn), upl(mx)};
}
static IVL isqrtv(IVL a) { if (a.lo < 0) throw NeedSplit{"interval sqrt"}; return {dn(sqrtl(a.lo)), upl(sqrtl(a.hi))}; }
static L imag(IVL a) { return std::max(fabsl(a.lo), fabsl(a.hi)); }

// ---------------------------------------------------------------- reference functions
enum Ref { R_EXP, R_LOG, R_SIN, R_COS, R_TAN, R_ASIN, R_ACOS, R_ATAN, R_TANH, R_ISQRT, R_INV, R_ID, R_COT, R_NONE };
static Ref refByName(const std::string &s) {
  static std::map<std::string, Ref> m = {{"exp", R_EXP}, {"log", R_LOG}, {"sin", R_SIN}, {"cos", R_COS}, {"tan", R_TAN}, {"asin", R_ASIN}, {"acos", R_ACOS}, {"atan", R_ATAN}, {"tanh", R_TANH}, {"isqrt", R_ISQRT}, {"inv", R_INV}, {"id", R_ID}};
  auto it = m.find(s); if (it == m.end()) throw Unsupported{"reference " + s}; return it->second;
}
static Q refQ(Ref r, Q x) {
  switch (r) {
  case R_EXP: return expq(x); case R_LOG: return logq(x); case R_SIN: return sinq(x); case R_COS: return cosq(x);
  case R_TAN: return tanq(x); case R_ASIN: return asinq(x); case R_ACOS: return acosq(x); case R_ATAN: return atanq(x);
  case R_TANH: return tanhq(x); case R_ISQRT: return 1 / sqrtq(x); case R_INV: return 1 / x; default: return x;
  }
}
// Interval enclosure of the reference over [a,b] (monotone pieces evaluated with binary128 at the ends).
static IVL refI(Ref r, L a, L b) {
  auto pad = [](Q lo, Q hi) { if (lo > hi) std::swap(lo, hi); L l = (L)lo, h = (L)hi; l -= fabsl(l) * 0x1p-60L; h += fabsl(h) * 0x1p-60L; return IVL{dn(l), upl(h)}; };
  switch (r) {
  case R_EXP: case R_LOG: case R_ASIN: case R_ACOS: case R_ATAN: case R_TANH: case R_ISQRT: case R_ID:
    return pad(refQ(r, a), refQ(r, b));
  case R_INV: if (a <= 0 && b >= 0) throw NeedSplit{"1/x"}; return pad(refQ(r, a), refQ(r, b));
  case R_SIN: case R_COS: {
    Q sa = refQ(r, a), sb = refQ(r, b);
    IVL e = pad(sa, sb);
    // extrema inside?
    Q k0 = r == R_SIN ? ((Q)a / M_PIq - 0.5Q) : (Q)a / M_PIq, k1 = r == R_SIN ? ((Q)b / M_PIq - 0.5Q) : (Q)b / M_PIq;
    Q m = ceilq(k0 - 1e-9Q);
    if (k1 - k0 > 3) return {-1.0L, 1.0L};
    for (; m <= k1 + 1e-9Q; m += 1) { if (fmodq(fabsq(m), 2) == 0) e.hi = 1; else e.lo = -1; }
    if (e.lo < -1) e.lo = -1;
    if (e.hi > 1) e.hi = 1;
    return e;
  }
  case R_TAN: {
    Q k0 = (Q)a / M_PIq - 0.5Q, k1 = (Q)b / M_PIq - 0.5Q;
    if (ceilq(k0 - 1e-24Q) <= k1 + 1e-24Q) throw NeedSplit{"tan pole"};
    return pad(tanq(a), tanq(b));
  }
  default: throw Unsupported{"refI"};
  }
}
// Taylor coefficients, generic in arithmetic
template <class T> struct Ar;
template <> struct Ar<Q> {
  static Q add(Q a, Q b) { return a + b; } static Q sub(Q a, Q b) { return a - b; } static Q mul(Q a, Q b) { return a * b; }
  static Q div(Q a, Q b) { return a / b; } static Q k(double x) { return x; } static Q sq(Q a) { return sqrtq(a); }
};
template <> struct Ar<IVL> {
  static IVL add(IVL a, IVL b) { return iadd(a, b); } static IVL sub(IVL a, IVL b) { return isub(a, b); } static IVL mul(IVL a, IVL b) { return imul(a, b); }
  static IVL div(IVL a, IVL b) { return idiv(a, b); } static IVL k(double x) { return iv(x); } static IVL sq(IVL a) { return isqrtv(a); }
};
// f(x0+H t) = sum f_k t^k ; f[0..n] filled; val = f(x0) (or enclosure), aux = companion value
template <class T> static void coeffs(Ref r, int n, T x, T H, T val, T aux, T *f) {
  typedef Ar<T> A;
  f[0] = val;
  switch (r) {
  case R_ID: for (int k = 1; k <= n; k++) f[k] = A::k(0); f[1] = H; break;
  case R_EXP: for (int k = 1; k <= n; k++) f[k] = A::div(A::mul(f[k - 1], H), A::k(k)); break;
  case R_LOG: case R_INV: case R_ISQRT: {
    T q = A::div(H, x);
    if (r == R_LOG) { f[1] = q; for (int k = 2; k <= n; k++) f[k] = A::mul(A::mul(f[k - 1], q), A::div(A::k(-(k - 1)), A::k(k))); }
    if (r == R_INV) for (int k = 1; k <= n; k++) f[k] = A::mul(A::mul(f[k - 1], q), A::k(-1));
    if (r == R_ISQRT) for (int k = 1; k <= n; k++) f[k] = A::mul(A::mul(f[k - 1], q), A::div(A::k(-(2 * k - 1)), A::k(2 * k)));
    break;
  }
  case R_SIN: case R_COS: {
    // aux: for sin the cosine at x, for cos minus the sine at x : f' = aux*H, aux' = -f*H
    T g[DM + 3]; g[0] = aux;
    for (int k = 1; k <= n; k++) {
      f[k] = A::div(A::mul(g[k - 1], H), A::k(k));
      g[k] = A::mul(A::div(A::mul(f[k - 1], H), A::k(k)), A::k(-1));
    }
    break;
  }
  case R_TAN: case R_TANH: {
    for (int k = 0; k < n; k++) {
      T s = A::k(0);
      if (k == 0 && r == R_TANH) s = aux; // sech^2
      else {
        for (int j = 0; j <= k; j++) s = A::add(s, A::mul(f[j], f[k - j]));
        if (r == R_TANH) s = A::mul(s, A::k(-1));
        if (k == 0) s = A::add(s, A::k(1));
      }
      f[k + 1] = A::div(A::mul(s, H), A::k(k + 1));
    }
    break;
  }
  case R_ATAN: {
    T w0 = A::add(A::k(1), A::mul(x, x)), w1 = A::mul(A::mul(x, H), A::k(2)), w2 = A::mul(H, H);
    T g[DM + 3];
    for (int k = 0; k < n; k++) {
      if (k == 0) g[0] = A::div(H, w0);
      else {
        T s = A::mul(w1, g[k - 1]);
        if (k >= 2) s = A::add(s, A::mul(w2, g[k - 2]));
        g[k] = A::mul(A::div(s, w0), A::k(-1));
      }
      f[k + 1] = A::div(g[k], A::k(k + 1));
    }
    break;
  }
  case R_ASIN: case R_ACOS: {
    // s = sqrt((1-x)(1+x)); g = H/s
    T u0 = A::mul(A::sub(A::k(1), x), A::add(A::k(1), x)), u1 = A::mul(A::mul(x, H), A::k(-2)), u2 = A::mul(A::mul(H, H), A::k(-1));
    T s[DM + 3], g[DM + 3];
    s[0] = A::sq(u0);
    T s2 = A::mul(s[0], A::k(2));
    for (int k = 1; k < n; k++) {
      T v = k == 1 ? u1 : k == 2 ? u2 : A::k(0);
      for (int j = 1; j < k; j++) v = A::sub(v, A::mul(s[j], s[k - j]));
      s[k] = A::div(v, s2);
    }
    for (int k = 0; k < n; k++) {
      T v = k == 0 ? H : A::k(0);
      for (int j = 1; j <= k; j++) v = A::sub(v, A::mul(s[j], g[k - j]));
      g[k] = A::div(v, s[0]);
      f[k + 1] = A::div(g[k], A::k(k + 1));
      if (r == R_ACOS) f[k + 1] = A::mul(f[k + 1], A::k(-1));
    }
    break;
  }
  default: throw Unsupported{"coeffs"};
  }
}
static Q refAux(Ref r, Q x) {
  if (r == R_SIN) return cosq(x);
  if (r == R_COS) return -sinq(x);
  if (r == R_TANH) { Q c = coshq(x); return 1 / (c * c); }
  return 0;
}
static IVL refAuxI(Ref r, L a, L b) {
  if (r == R_SIN) return refI(R_COS, a, b);
  if (r == R_COS) { IVL s = refI(R_SIN, a, b); return {-s.hi, -s.lo}; }
  if (r == R_TANH) {
    L m = (a <= 0 && b >= 0) ? 0 : std::min(fabsl(a), fabsl(b)), M = std::max(fabsl(a), fabsl(b));
    Q h = refAux(r, m), l = refAux(r, M);
    return {dn((L)l * (1 - 0x1p-50L)), upl((L)h * (1 + 0x1p-50L))};
  }
  return {0, 0};
}
// Enclosure of the reference over x = x0 + H t restricted to [a,b].
static TM refTM(Ref r, Q x0, Q H, L a, L b) {
  int D = C.D; TM z;
  if (H == 0) {
    z.c[0] = refQ(r, x0); z.rem = qabs(z.c[0]) * REFEPS;
    return z;
  }
  Q f[DM + 3]; IVL g[DM + 3];
  Q v = refQ(r, x0), av = refAux(r, x0);
  coeffs<Q>(r, D, x0, H, v, av, f);
  IVL X{a, b}; IVL HI{qlo(H), qhi(H)};
  coeffs<IVL>(r, D + 1, X, HI, refI(r, a, b), refAuxI(r, a, b), g);
  L q = 0;
  for (int k = 0; k <= D; k++) { z.c[k] = f[k]; q += qabs(f[k]); }
  z.rem = (imag(g[D + 1]) + q * REFEPS * 4) * LUP * LUP;
  return z;
}

// ---------------------------------------------------------------- machine values
struct FV {
  int prec = 53;            // 53 or 24
  enum K { TOP, POINT, FIN, RAT } k = TOP;
  double pv = 0;            // POINT
  TM tm; L lo = 0, hi = 0;  // FIN
  int g = -20000;           // multiple of 2^g
  bool nz = true;           // may be -0
  bool raw = false;         // may be an unrounded product (contraction)
  int rv = 0, rs = 1;       // RAT: variable 1=min-magnitude 2=max-magnitude, sign
};
typedef std::shared_ptr<FV> FP;
struct IV {
  int w = 64;
  enum K { TOP, CST, RNG, BITS } k = TOP;
  uint64_t v = 0;
  U128 lo = 0, hi = 0; bool hasTM = false; TM tm;
  FP f;
};
typedef std::shared_ptr<IV> IP;
struct Val {
  enum K { UNDEF, F, I, PTR, AGG, FN } k = UNDEF;
  FP f; IP i; int obj = -1; long off = 0;
  std::shared_ptr<std::vector<Val>> agg;
  std::string fn;
};
static Val mkF(FP f) { Val v; v.k = Val::F; v.f = f; return v; }
static Val mkI(IP i) { Val v; v.k = Val::I; v.i = i; return v; }
static uint64_t mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static IP icst(int w, uint64_t v) { auto p = std::make_shared<IV>(); p->w = w; p->k = IV::CST; p->v = v & mask(w); return p; }
static IP itop(int w) { auto p = std::make_shared<IV>(); p->w = w; p->k = IV::TOP; return p; }
static FP ftop(int prec) { auto p = std::make_shared<FV>(); p->prec = prec; p->k = FV::TOP; return p; }
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static uint32_t fbits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static float bitsf(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
static int emin(int prec) { return prec == 53 ? -1074 : -149; }
static int expo(L x) { int e; frexpl(x, &e); return e - 1; } // |x| in [2^e,2^{e+1})
static int ulpexp(L x, int prec) { if (x == 0) return emin(prec); return std::max(expo(x) - prec + 1, emin(prec)); }
static L maxfin(int prec) { return prec == 53 ? (L)1.7976931348623157e308 : (L)3.4028234663852886e38f; }
static L rn(L x, int prec) { // round a long double to the format (monotone)
  if (prec == 53) return (L)(double)x;
  return (L)(float)x;
}
static FP fpoint(int prec, double v) {
  auto p = std::make_shared<FV>(); p->prec = prec; p->k = FV::POINT; p->pv = v;
  p->nz = v == 0 && std::signbit(v);
  if (std::isfinite(v)) {
    p->tm = TM((Q)v); p->lo = p->hi = v;
    if (v == 0) p->g = 20000; else {
      int e; double m = frexp(fabs(v), &e); uint64_t mm = (uint64_t)ldexp(m, 53); p->g = e - 53 + __builtin_ctzll(mm);
    }
  }
  return p;
}
static bool isFin(const FV &a) { return a.k == FV::FIN || (a.k == FV::POINT && std::isfinite(a.pv)); }
static bool isPt(const FV &a) { return a.k == FV::POINT; }
// real result (tm, [rl,rh]) -> rounded value
static FP fround_(TM tm, L rl, L rh, int gex, int prec, bool nz, bool symbol = true, bool tightrange = true) {
  L tl, th; tm.range(tl, th); rl = std::max(rl, tl); rh = std::min(rh, th);
  if (rl > rh) { // only possible through pessimistic rounding of an (almost) exact value
    L m = (rl + rh) / 2, w = fabsl(rl - rh); rl = m - w; rh = m + w; }
  L M = std::max(fabsl(rl), fabsl(rh));
  if (!(M <= maxfin(prec))) { if (!(M < maxfin(prec) * (1 + ldexpl(1, -prec - 1)))) {
    flag(FL_OVF, "overflow;"); L lim = ldexpl(1, prec == 53 ? 1024 : 128);
    if (rl >= lim) return fpoint(prec, INFINITY);
    if (rh <= -lim) return fpoint(prec, -INFINITY);
    return ftop(prec); } }
  auto p = std::make_shared<FV>(); p->prec = prec; p->k = FV::FIN;
  bool exact = gex >= emin(prec) && M <= ldexpl(1, std::min(gex + prec, 16000));
  if (M == 0) exact = true;
  if (!exact) {
    int e = expo(M); if (M == ldexpl(1, e)) e--;
    int he = std::max(e - prec, emin(prec) - 1);
    L d = ldexpl(1, he);
    if (symbol) newsym(tm, d); else tm.rem = (tm.rem + d) * LUP;
  }
  p->tm = tm;
  if (tightrange) { p->lo = rn(rl, prec); p->hi = rn(rh, prec); }
  else { p->lo = std::min(rl, rn(rl, prec)); p->hi = std::max(rh, rn(rh, prec)); }
  if (std::isinf(p->lo)) p->lo = -maxfin(prec);
  if (std::isinf(p->hi)) p->hi = maxfin(prec);
  int g2 = emin(prec);
  if (p->lo > 0) g2 = ulpexp(p->lo, prec); else if (p->hi < 0) g2 = ulpexp(p->hi, prec);
  p->g = exact ? std::max(gex, g2) : g2;
  if (!tightrange) p->g = gex;
  p->nz = nz && p->lo <= 0 && p->hi >= 0;
  return p;
}
static FP fneg_(FP a) {
  if (a->k == FV::TOP) return a;
  auto p = std::make_shared<FV>(*a);
  if (a->k == FV::RAT) { p->rs = -a->rs; return p; }
  if (isPt(*a)) return fpoint(a->prec, -a->pv);
  p->tm = tneg(a->tm); p->lo = -a->hi; p->hi = -a->lo; p->nz = p->lo <= 0 && p->hi >= 0; return p;
}
// decide the sign bit of a value, forking if it is unknown: 0 or 1
static int signOf(FV &a) {
  if (isPt(a) && std::isnan(a.pv)) return choose(2); // any NaN pattern
  if (isPt(a)) return std::signbit(a.pv);
  if (a.k == FV::RAT) return a.rs < 0;
  if (a.k == FV::TOP) return choose(2);
  if (a.lo > 0 || (a.lo == 0 && !a.nz)) return 0;
  if (a.hi < 0) return 1;
  int s = choose(2);
  if (s) a.hi = std::min(a.hi, (L)0); else a.lo = std::max(a.lo, (L)0);
  return s;
}
static bool isNaN(const FV &a) { return a.k == FV::POINT && std::isnan(a.pv); }
static FP restrictRange(FP a, L lo, L hi) {
  auto p = std::make_shared<FV>(*a);
  p->lo = std::max(p->lo, lo); p->hi = std::min(p->hi, hi);
  if (p->lo > p->hi) throw Infeasible{};
  return p;
}
static FP fabs_(FP a) {
  if (a->k == FV::TOP) return a;
  if (isPt(*a)) return fpoint(a->prec, fabs(a->pv));
  if (a->k == FV::RAT) { auto p = std::make_shared<FV>(*a); p->rs = 1; return p; }
  if (a->lo >= 0) { auto p = std::make_shared<FV>(*a); p->nz = false; return p; }
  if (a->hi <= 0) { auto p = fneg_(a); p->nz = false; return p; }
  if (choose(2) == 0) { auto p = restrictRange(a, 0, LINF); p->nz = false; return p; }
  auto p = restrictRange(fneg_(a), 0, LINF); p->nz = false; return p;
}
static double rnd(double v, int prec) { return prec == 53 ? v : (double)(float)v; }
struct RatioVar { bool on = false; Q x0, H; L a, b; bool maxIsY = false; };
static thread_local RatioVar RV;

static FP fbin(int op, FP a, FP b, int prec) {
  // op: 0 add 1 sub 2 mul 3 div
  if ((isPt(*a) && std::isnan(a->pv)) || (isPt(*b) && std::isnan(b->pv))) return fpoint(prec, NAN);
  if (a->k == FV::RAT || b->k == FV::RAT) {
    // +-0 added to or multiplied with a symbolic magnitude, ratios of magnitudes
    auto zero = [](FP x) { return isPt(*x) && x->pv == 0; };
    auto one = [](FP x) { return isPt(*x) && x->pv == 1; };
    if (op == 0 && zero(b)) return a;
    if (op == 0 && zero(a)) return b;
    if (op == 1 && zero(b)) return a;
    if (op == 1 && zero(a)) return fneg_(b);
    if ((op == 2 || op == 3) && one(b)) return a;
    if (op == 2 && one(a)) return b;
    if ((op == 2 || op == 3) && zero(a)) return fpoint(prec, (std::signbit(a->pv) != (b->rs < 0)) ? -0.0 : 0.0);
    if (op == 2 && zero(b)) return fpoint(prec, (std::signbit(b->pv) != (a->rs < 0)) ? -0.0 : 0.0);
    if (op == 3 && a->k == FV::RAT && b->k == FV::RAT) {
      int s = a->rs * b->rs;
      if (a->rv == b->rv) return fpoint(prec, s);
      if (!RV.on) { flag(FL_OVF, "ratio;"); return ftop(prec); }
      TM t; t.c[0] = RV.x0; t.c[1] = RV.H; L lo = RV.a, hi = RV.b;
      if (a->rv == 2) {
        if (!(RV.a > 0)) { flag(FL_OVF, "ratio;"); return ftop(prec); }
        t = tdiv(TM((Q)1), t, RV.a, 0); lo = dn(1 / RV.b); hi = upl(1 / RV.a);
      }
      if (s < 0) { t = tneg(t); L x = lo; lo = -hi; hi = -x; }
      return fround_(t, lo, hi, -20000, prec, true);
    }
    flag(FL_OVF, "symbolic;");
    return ftop(prec);
  }
  if (isPt(*a) && isPt(*b)) {
    double x = a->pv, y = b->pv, r;
    if (prec == 53) r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
    else { float xf = x, yf = y; r = op == 0 ? xf + yf : op == 1 ? xf - yf : op == 2 ? xf * yf : xf / yf; }
    if (std::isnan(r) && !std::isnan(x) && !std::isnan(y)) flag(FL_INVALID, "invalid;");
    else if (std::isinf(r) && std::isfinite(x) && std::isfinite(y)) { if (op == 3 && y == 0) flag(FL_DIVZ, "divzero;"); else flag(FL_OVF, "overflow;"); }
    if (C.fma && op == 2) {
      // the product may stay unrounded inside a fused operation
      FP p = fpoint(prec, r);
      if (std::isfinite(r) && r != 0) {
        Q ex = (Q)x * (Q)y; L d = qabs(ex - (Q)r);
        if (d != 0) {
          auto q = std::make_shared<FV>(*p); q->k = FV::FIN; q->tm.rem = d; q->lo = std::min((L)r, qlo(ex)); q->hi = std::max((L)r, qhi(ex));
          q->g = a->g + b->g; q->raw = true; return q;
        }
      }
      return p;
    }
    return fpoint(prec, r);
  }
  if (!isFin(*a) || !isFin(*b)) {
    if (op == 2 && ((isPt(*a) && a->pv == 0) || (isPt(*b) && b->pv == 0))) flag(FL_INVALID, "0*top;");
    flag(FL_OVF, "top;");
    return ftop(prec);
  }
  L rl, rh; TM t; int g = -20000; bool nz = true;
  if (op == 0 || op == 1) {
    FP bb = b;
    if (op == 0) { rl = dn(a->lo + b->lo); rh = upl(a->hi + b->hi); t = tadd(a->tm, b->tm, 1); nz = a->nz && b->nz; }
    else { rl = dn(a->lo - b->hi); rh = upl(a->hi - b->lo); t = tadd(a->tm, b->tm, -1); nz = a->nz && b->lo <= 0 && b->hi >= 0; }
    // exact endpoint sums stay exact when representable in long double
    L s = op == 0 ? a->lo + b->lo : a->lo - b->hi; if (s == rl || (Q)s == (op == 0 ? (Q)a->lo + (Q)b->lo : (Q)a->lo - (Q)b->hi)) rl = s;
    s = op == 0 ? a->hi + b->hi : a->hi - b->lo; if ((Q)s == (op == 0 ? (Q)a->hi + (Q)b->hi : (Q)a->hi - (Q)b->lo)) rh = s;
    g = std::min(a->g, b->g);
    if (a == b) { if (op == 1) return fpoint(prec, 0.0); g = a->g + 1; }
    // adding an exact zero
    if (isPt(*b) && b->pv == 0) { auto p = std::make_shared<FV>(*a); p->nz = nz; return p; }
    if (op == 0 && isPt(*a) && a->pv == 0) { auto p = std::make_shared<FV>(*b); p->nz = nz; return p; }
    return fround_(t, rl, rh, g, prec, nz);
  }
  if (op == 2) {
    if (a == b) {
      L m = (a->lo <= 0 && a->hi >= 0) ? 0 : std::min(fabsl(a->lo), fabsl(a->hi)), M = std::max(fabsl(a->lo), fabsl(a->hi));
      rl = m == 0 ? 0 : dn(m * m); rh = upl(M * M); nz = false;
    } else { IVL m = imul({a->lo, a->hi}, {b->lo, b->hi}); rl = m.lo; rh = m.hi; }
    for (int sw = 0; sw < 2; sw++) {
      FP x = sw ? b : a, y = sw ? a : b;
      if (isPt(*x) && x->pv == 0) {
        if (y->lo > 0) return fpoint(prec, x->pv);
        if (y->hi < 0) return fpoint(prec, -x->pv);
        auto p = fpoint(prec, 0); p->k = FV::FIN; p->nz = true; return p;
      }
      if (isPt(*x) && x->pv == 1) return y;
    }
    t = tmul(a->tm, b->tm); g = (a->g > -15000 && b->g > -15000) ? a->g + b->g : -20000;
    if (C.fma) { FP p = fround_(t, rl, rh, g, prec, nz, false, false); p->raw = true; return p; }
    return fround_(t, rl, rh, g, prec, nz);
  }
  // division
  if (b->lo <= 0 && b->hi >= 0) { flag(FL_DIVZ, "divzero?;"); flag(FL_INVALID, "invalid?;"); return ftop(prec); }
  { IVL m = idiv({a->lo, a->hi}, {b->lo, b->hi}); rl = m.lo; rh = m.hi; }
  L vmin = std::min(fabsl(b->lo), fabsl(b->hi));
  if (isPt(*b)) { int e; if (frexp(fabs(b->pv), &e) == 0.5) g = a->g - (e - 1); t = tscale(a->tm, 1 / (Q)b->pv); }
  else {
    L tl, th; b->tm.range(tl, th);
    if (tl <= 0 && th >= 0) { // series not usable: interval only
      t = TM(((Q)rl + (Q)rh) / 2); t.rem = (rh - rl) * LUP;
    } else t = tdiv(a->tm, b->tm, vmin, 0);
  }
  return fround_(t, rl, rh, g, prec, nz);
}
static FP fsqrt_(FP a, int prec) {
  if (isPt(*a)) {
    if (a->pv < 0) flag(FL_INVALID, "sqrt<0;");
    return fpoint(prec, prec == 53 ? sqrt(a->pv) : (double)sqrtf((float)a->pv));
  }
  if (a->k != FV::FIN) { flag(FL_INVALID, "sqrt?;"); return ftop(prec); }
  if (a->hi < 0) { flag(FL_INVALID, "sqrt<0;"); return fpoint(prec, NAN); }
  if (a->lo < 0) { flag(FL_INVALID, "sqrt<0?;"); return ftop(prec); }
  L rl = a->lo == 0 ? 0 : dn(sqrtl(a->lo)), rh = upl(sqrtl(a->hi));
  TM t; L tl, th; a->tm.range(tl, th);
  if (a->lo > 0 && tl > 0 && a->tm.c[0] > 0) t = tsqrt(a->tm, std::max(a->lo, tl));
  else { t = TM(((Q)rl + (Q)rh) / 2); t.rem = (rh - rl) * LUP; }
  return fround_(t, rl, rh, -20000, prec, false);
}
static FP fconv(FP a, int to) {
  if (a->prec == to) return a;
  if (a->k == FV::TOP) return ftop(to);
  if (isPt(*a)) { double r = rnd(a->pv, to); if (std::isinf(r) && std::isfinite(a->pv)) flag(FL_OVF, "fptrunc;"); return fpoint(to, r); }
  if (a->k == FV::RAT) { if (to == 53) { auto p = std::make_shared<FV>(*a); p->prec = to; return p; } flag(FL_OVF, "fptrunc sym;"); return ftop(to); }
  if (to == 53) { auto p = std::make_shared<FV>(*a); p->prec = 53; return p; }
  return fround_(a->tm, a->lo, a->hi, a->g, 24, a->nz);
}
// floor/ceil/trunc/rint style functions: result integer decided or forked
static FP fintfun(int kind, FP a) {
  auto fn = [&](double x) { return kind == 0 ? floor(x) : kind == 1 ? ceil(x) : kind == 2 ? trunc(x) : kind == 3 ? rint(x) : round(x); };
  if (a->k == FV::TOP || a->k == FV::RAT) { return ftop(a->prec); }
  if (isPt(*a)) return fpoint(a->prec, fn(a->pv));
  if (std::min(fabsl(a->lo), fabsl(a->hi)) >= ldexpl(1, a->prec - 1) && (a->lo > 0) == (a->hi > 0)) return a; // already an integer
  double l = fn((double)a->lo), h = fn((double)a->hi);
  if (h - l > 256) { // wide: x + [-1,1]
    auto p = std::make_shared<FV>(); p->prec = a->prec; p->k = FV::FIN; p->tm = a->tm; p->tm.rem += 1; p->lo = l; p->hi = h; p->g = 0; p->nz = true; return p; }
  if (l == h) { auto p = fpoint(a->prec, l); if (l == 0) { p->k = FV::FIN; p->nz = true; } return p; }
  if (h - l <= 3) { int k = choose((int)(h - l) + 1); return fpoint(a->prec, l + k); }
  throw NeedSplit{"rounding function"};
}

// comparison a<b etc.; returns -1 if undecided
static int ltDec(const FV &a, const FV &b) { // a<b ?
  if (a.hi < b.lo) return 1;
  if (a.lo >= b.hi) return 0;
  TM d = tadd(a.tm, b.tm, -1); L lo, hi; d.range(lo, hi);
  if (hi < 0) return 1;
  if (lo >= 0) return 0;
  return -1;
}
static int fcmp_(const std::string &p, FP a, FP b) {
  bool ord = p[0] == 'o'; // ordered
  if (p == "true") return 1;
  if (p == "false") return 0;
  bool na = isPt(*a) && std::isnan(a->pv), nb = isPt(*b) && std::isnan(b->pv);
  if (p == "ord" || p == "uno") {
    if (na || nb) return p == "uno";
    if (a->k != FV::TOP && b->k != FV::TOP) return p == "ord";
    return choose(2);
  }
  if (na || nb) return !ord;
  std::string r = p.substr(1); // eq ne lt le gt ge
  if (a.get() == b.get() && a->k == FV::FIN) return r == "eq" || r == "le" || r == "ge";
  if (isPt(*a) && isPt(*b)) {
    double x = a->pv, y = b->pv;
    return r == "eq" ? x == y : r == "ne" ? x != y : r == "lt" ? x < y : r == "le" ? x <= y : r == "gt" ? x > y : x >= y;
  }
  if (a->k == FV::RAT || b->k == FV::RAT) {
    // symbolic magnitudes: comparison with zero or with each other
    auto cls = [](FP x, int &s, int &m) { // sign and magnitude class (0 zero, 1 small, 2 big)
      if (x->k == FV::RAT) { s = x->rs; m = x->rv; return true; }
      if (isPt(*x) && x->pv == 0) { s = 0; m = 0; return true; }
      return false;
    };
    int sa, ma, sb, mb;
    if (cls(a, sa, ma) && cls(b, sb, mb)) {
      int c; // sign of a-b ; 2 = undecided
      if (sa != sb) c = sa < sb ? -1 : 1;
      else if (ma == mb) c = 0;
      else {
        c = (ma < mb ? -1 : 1) * sa;
        if (RV.on && RV.b >= 1 && ma && mb) { // magnitudes may be equal when the ratio reaches 1
          if (RV.a >= 1) c = 0;
          else { if (choose(2) == 1) c = 0; }
        }
      }
      return r == "eq" ? c == 0 : r == "ne" ? c != 0 : r == "lt" ? c < 0 : r == "le" ? c <= 0 : r == "gt" ? c > 0 : c >= 0;
    }
    return choose(2);
  }
  if (!isFin(*a) || !isFin(*b)) {
    // infinity against finite
    if (isFin(*a) && isPt(*b) && std::isinf(b->pv)) { bool pos = b->pv > 0; return r == "eq" ? 0 : r == "ne" ? 1 : (r == "lt" || r == "le") ? pos : !pos; }
    if (isFin(*b) && isPt(*a) && std::isinf(a->pv)) { bool pos = a->pv > 0; return r == "eq" ? 0 : r == "ne" ? 1 : (r == "gt" || r == "ge") ? pos : !pos; }
    return choose(2);
  }
  int d = -1;
  if (r == "lt") d = ltDec(*a, *b);
  else if (r == "gt") d = ltDec(*b, *a);
  else if (r == "le") { d = ltDec(*b, *a); if (d >= 0) d = !d; }
  else if (r == "ge") { d = ltDec(*a, *b); if (d >= 0) d = !d; }
  else {
    int e = -1;
    if (a->lo > b->hi || b->lo > a->hi) e = 0;
    else if (a->lo == a->hi && b->lo == b->hi && a->lo == b->lo) e = 1;
    else { TM x = tadd(a->tm, b->tm, -1); L lo, hi; x.range(lo, hi); if (lo > 0 || hi < 0) e = 0; }
    d = e < 0 ? -1 : (r == "eq" ? e : !e);
  }
  if (d >= 0) return d;
  d = choose(2);
  // remember the outcome: narrow the compared values on this path (they are floats of the format, so strict
  // comparisons exclude the end point)
  auto below = [&](FP x, L v, bool strict) {
    if (isPt(*x)) return;
    if (strict && !x->raw && (x->prec == 53 ? (L)(double)v == v : (L)(float)v == v)) v = x->prec == 53 ? (L)nextafter((double)v, -INFINITY) : (L)nextafterf((float)v, -INFINITY);
    x->hi = std::min(x->hi, v); if (x->lo > x->hi) throw Infeasible{};
  };
  auto above = [&](FP x, L v, bool strict) {
    if (isPt(*x)) return;
    if (strict && !x->raw && (x->prec == 53 ? (L)(double)v == v : (L)(float)v == v)) v = x->prec == 53 ? (L)nextafter((double)v, INFINITY) : (L)nextafterf((float)v, INFINITY);
    x->lo = std::max(x->lo, v); if (x->lo > x->hi) throw Infeasible{};
  };
  if (a == b) return d;
  std::string q = r;
  if (!d) q = r == "lt" ? "ge" : r == "ge" ? "lt" : r == "gt" ? "le" : r == "le" ? "gt" : r == "eq" ? "ne" : "eq";
  if (q == "lt") { L bh = b->hi, al = a->lo; below(a, bh, true); above(b, al, true); }
  else if (q == "le") { L bh = b->hi, al = a->lo; below(a, bh, false); above(b, al, false); }
  else if (q == "gt") { L bl = b->lo, ah = a->hi; above(a, bl, true); below(b, ah, true); }
  else if (q == "ge") { L bl = b->lo, ah = a->hi; above(a, bl, false); below(b, ah, false); }
  else if (q == "eq") { L l = std::max(a->lo, b->lo), h = std::min(a->hi, b->hi); below(a, h, false); above(a, l, false); below(b, h, false); above(b, l, false); }
  return d;
}

// ---- integers
static U128 wmax(int w) { return (((U128)1) << w) - 1; }
static IP irng(int w, U128 lo, U128 hi, const TM *tm) {
  if (lo > hi || hi > wmax(w)) return itop(w);
  if (lo == hi) return icst(w, (uint64_t)lo);
  auto p = std::make_shared<IV>(); p->w = w; p->k = IV::RNG; p->lo = lo; p->hi = hi;
  if (tm) { p->hasTM = true; p->tm = *tm; }
  return p;
}
static Q u2q(U128 x) { return (Q)(uint64_t)(x >> 64) * 0x1p64Q + (Q)(uint64_t)x; }
// bits of a finite value with known sign
static IP bitsRange(FP a) {
  int w = a->prec == 53 ? 64 : 32, mb = a->prec - 1;
  if (isNaN(*a)) return itop(w);
  if (isPt(*a)) return icst(w, w == 64 ? dbits(a->pv) : fbits((float)a->pv));
  if (a->k != FV::FIN) return itop(w);
  int s = signOf(*a);
  FP v = s ? fneg_(a) : a;
  L lo = std::max(v->lo, (L)0), hi = std::max(v->hi, (L)0);
  U128 bl = w == 64 ? dbits((double)lo) : fbits((float)lo), bh = w == 64 ? dbits((double)hi) : fbits((float)hi);
  U128 sb = s ? ((U128)1) << (w - 1) : 0;
  int bias = w == 64 ? 1023 : 127;
  int E = (int)(bl >> mb);
  if (E >= 1 && (bh >> mb) < (unsigned)(1 << (w - 1 - mb)) && (((int)(bh >> mb) == E) || bh == ((U128)(E + 1) << mb))) {
    TM t = tscale(v->tm, scalbnq(1, mb - (E - bias)));
    t.c[0] += u2q(((U128)E << mb) + sb) - scalbnq(1, mb);
    return irng(w, bl + sb, bh + sb, &t);
  }
  return irng(w, bl + sb, bh + sb, nullptr);
}
static IP conc(IP a) { // make a BITS value a range
  if (a->k == IV::BITS) return bitsRange(a->f);
  return a;
}
static TM itm(const IV &a) {
  if (a.k == IV::CST) return TM(u2q(a.v));
  if (a.hasTM) return a.tm;
  TM t((u2q(a.lo) + u2q(a.hi)) / 2); t.rem = qabs(u2q(a.hi) - u2q(a.lo)) ; return t;
}
static FP bitsToF(IP a) {
  int prec = a->w == 64 ? 53 : 24;
  if (a->k == IV::BITS) return a->f;
  if (a->k == IV::CST) return fpoint(prec, a->w == 64 ? bitsd(a->v) : (double)bitsf((uint32_t)a->v));
  if (a->k == IV::TOP) return ftop(prec);
  int w = a->w, mb = prec - 1, bias = w == 64 ? 1023 : 127, eb = w - 1 - mb;
  U128 sbit = ((U128)1) << (w - 1);
  if ((a->lo & sbit) != (a->hi & sbit)) return ftop(prec);
  int s = (a->lo & sbit) ? 1 : 0;
  U128 lo = a->lo & ~sbit, hi = a->hi & ~sbit;
  if ((hi >> mb) >= (U128)((1 << eb) - 1)) return ftop(prec);
  L fl = w == 64 ? (L)bitsd((uint64_t)lo) : (L)bitsf((uint32_t)lo), fh = w == 64 ? (L)bitsd((uint64_t)hi) : (L)bitsf((uint32_t)hi);
  int E = (int)(lo >> mb);
  auto p = std::make_shared<FV>(); p->prec = prec; p->k = FV::FIN; p->nz = s && lo == 0;
  if (a->hasTM && E >= 1 && ((int)(hi >> mb) == E || hi == ((U128)(E + 1) << mb))) {
    TM t = a->tm; t.c[0] -= u2q(((U128)E << mb) + (s ? sbit : 0)) - scalbnq(1, mb);
    p->tm = tscale(t, scalbnq(1, E - bias - mb));
  } else { p->tm = TM(((Q)fl + (Q)fh) / 2); p->tm.rem = (fh - fl) * LUP; }
  p->lo = fl; p->hi = fh; p->g = ulpexp(fl, prec);
  if (s) { FP q = fneg_(p); q->nz = lo == 0; return q; }
  return p;
}
static int64_t sx(uint64_t v, int w) { if (w >= 64) return (int64_t)v; return (int64_t)(v << (64 - w)) >> (64 - w); }
static bool signedRange(const IV &a, I128 &lo, I128 &hi) {
  if (a.k == IV::CST) { lo = hi = sx(a.v, a.w); return true; }
  if (a.k != IV::RNG) return false;
  U128 sb = ((U128)1) << (a.w - 1);
  bool sl = (a.lo & sb) != 0, sh = (a.hi & sb) != 0;
  if (sl != sh) return false;
  I128 off = sl ? ((I128)1) << a.w : 0;
  lo = (I128)a.lo - off; hi = (I128)a.hi - off; return true;
}
static IP ibin(const std::string &op, bool nsw, IP a, IP b) {
  int w = a->w;
  uint64_t sgn = 1ull << (w - 1);
  // sign-bit operations on the pattern of a float keep the float
  for (int swp = 0; swp < 2; swp++) {
    IP x = swp ? b : a, y = swp ? a : b;
    if (x->k == IV::BITS && y->k == IV::CST && (op == "and" || op == "or" || op == "xor")) {
      FP f = x->f; FP r;
      if (op == "xor" && y->v == sgn) r = fneg_(f);
      else if (op == "or" && y->v == sgn) r = fneg_(fabs_(f));
      else if (op == "and" && y->v == (mask(w) & ~sgn)) r = fabs_(f);
      else if ((op == "or" || op == "xor") && y->v == 0) r = f;
      else if (op == "and" && y->v == mask(w)) r = f;
      else if (op == "and" && y->v == sgn) return icst(w, signOf(*f) ? sgn : 0);
      if (r) { if (r->k == FV::POINT && !isNaN(*r)) return bitsRange(r); auto p = std::make_shared<IV>(*x); p->f = r; return p; }
    }
  }
  if (a->k == IV::BITS && b->k == IV::CST && (op == "lshr" || op == "ashr") && (int)b->v == w - 1) {
    int s = signOf(*a->f); return icst(w, op == "lshr" ? s : (s ? mask(w) : 0));
  }
  a = conc(a); b = conc(b);
  if ((op == "shl" || op == "lshr" || op == "ashr")) {
    if (b->k != IV::CST) { flag(FL_SHIFT, "shift?;"); return itop(w); }
    if (b->v >= (uint64_t)w) { flag(FL_SHIFT, "shift;"); return itop(w); }
  }
  if (op == "udiv" || op == "sdiv" || op == "urem" || op == "srem") {
    if (b->k != IV::CST || b->v == 0) { flag(FL_IDIV, "idiv;"); return itop(w); }
    if (a->k != IV::CST) {
      if (a->k == IV::RNG && op[0] == 'u' && op == "udiv") return irng(w, a->lo / b->v, a->hi / b->v, nullptr);
      return itop(w);
    }
  }
  if (a->k == IV::CST && b->k == IV::CST) {
    uint64_t x = a->v, y = b->v, r = 0; int64_t sxx = sx(x, w), sy = sx(y, w);
    I128 sr = 0; bool chk = false;
    if (op == "add") { r = x + y; sr = (I128)sxx + sy; chk = true; }
    else if (op == "sub") { r = x - y; sr = (I128)sxx - sy; chk = true; }
    else if (op == "mul") { r = x * y; sr = (I128)sxx * sy; chk = true; }
    else if (op == "shl") r = x << y;
    else if (op == "lshr") r = x >> y;
    else if (op == "ashr") r = (uint64_t)(sxx >> y);
    else if (op == "and") r = x & y;
    else if (op == "or") r = x | y;
    else if (op == "xor") r = x ^ y;
    else if (op == "udiv") r = x / y;
    else if (op == "urem") r = x % y;
    else if (op == "sdiv") r = (uint64_t)(sxx / sy);
    else if (op == "srem") r = (uint64_t)(sxx % sy);
    if (nsw && chk && sr != (I128)sx(r & mask(w), w)) flag(FL_NSW, "signed overflow;");
    return icst(w, r);
  }
  if (a->k == IV::TOP || b->k == IV::TOP) { if (nsw) flag(FL_NSW, "signed overflow?;"); return itop(w); }
  if (op == "add" || op == "sub") {
    I128 lo, hi, al = a->k == IV::CST ? (I128)a->v : (I128)a->lo, ah = a->k == IV::CST ? (I128)a->v : (I128)a->hi;
    I128 bl = b->k == IV::CST ? (I128)b->v : (I128)b->lo, bh = b->k == IV::CST ? (I128)b->v : (I128)b->hi;
    if (op == "add") { lo = al + bl; hi = ah + bh; } else { lo = al - bh; hi = ah - bl; }
    I128 M = ((I128)1) << w; I128 k = 0;
    if (lo < 0 && hi < 0) k = M; else if (lo >= M) k = -M; else if (lo < 0 || hi >= M) { if (nsw) flag(FL_NSW, "signed overflow?;"); return itop(w); }
    if (nsw) {
      I128 x, y, z, v; if (signedRange(*a, x, y) && signedRange(*b, z, v)) {
        I128 l2 = op == "add" ? x + z : x - v, h2 = op == "add" ? y + v : y - z; I128 h = ((I128)1) << (w - 1);
        if (l2 < -h || h2 >= h) flag(FL_NSW, "signed overflow?;");
      } else flag(FL_NSW, "signed overflow?;");
    }
    TM t = tadd(itm(*a), itm(*b), op == "add" ? 1 : -1);
    if (k != 0) t.c[0] += k > 0 ? u2q((U128)k) : -u2q((U128)-k);
    return irng(w, (U128)(lo + k), (U128)(hi + k), &t);
  }
  if (b->k == IV::CST && a->k == IV::RNG && (op == "shl" || op == "lshr" || op == "ashr")) {
    int s = (int)b->v;
    if (op == "ashr") { U128 sb = ((U128)1) << (w - 1); if ((a->lo & sb) || (a->hi & sb)) { if ((a->lo & sb) && (a->hi & sb)) {
          U128 hb = wmax(w) & ~(wmax(w) >> s); return irng(w, (a->lo >> s) | hb, (a->hi >> s) | hb, nullptr); } return itop(w); } }
    if (op == "shl") {
      if ((a->hi << s) <= wmax(w)) { TM t = tscale(itm(*a), scalbnq(1, s)); return irng(w, a->lo << s, a->hi << s, &t); }
      U128 hiPart = a->lo >> (w - s);
      if (hiPart == (a->hi >> (w - s))) { U128 sub = hiPart << (w - s); TM t = itm(*a); t.c[0] -= u2q(sub); t = tscale(t, scalbnq(1, s)); return irng(w, (a->lo - sub) << s, (a->hi - sub) << s, &t); }
      return itop(w);
    }
    TM t = tscale(itm(*a), scalbnq(1, -s));
    Q half = (1 - scalbnq(1, -s)) / 2; t.c[0] -= half; newsym(t, qabs(half));
    return irng(w, a->lo >> s, a->hi >> s, &t);
  }
  if (op == "and" || op == "or" || op == "xor") {
    if (a->k == IV::CST) std::swap(a, b);
    if (b->k == IV::CST && a->k == IV::RNG) {
      U128 d = a->lo ^ a->hi; int k = 0; while (d >> k) k++;
      U128 low = ((U128)1 << k) - 1, cst = b->v, pre = a->lo & ~low;
      U128 clow = cst & low;
      TM t = itm(*a);
      auto affine = [&](U128 npre) { t.c[0] += u2q(npre) - u2q(pre); U128 lo = (a->lo & low) | npre, hi = (a->hi & low) | npre; return irng(w, lo, hi, a->hasTM ? &t : nullptr); };
      if (op == "and" && clow == low) return affine(pre & cst);
      if (op == "and" && clow == 0) return icst(w, (uint64_t)(pre & cst));
      if (op != "and" && clow == 0) return affine(op == "or" ? (pre | cst) : (pre ^ (cst & ~low)));
      if (op == "or" && clow == low) return icst(w, (uint64_t)(pre | cst));
      if (op == "xor" && clow == low) {
        U128 npre = (pre ^ cst) & ~low; TM t2 = tneg(t); t2.c[0] += u2q(pre) + u2q(low) + u2q(npre);
        return irng(w, npre | (low - (a->hi & low)), npre | (low - (a->lo & low)), a->hasTM ? &t2 : nullptr);
      }
      if (op == "and") {
        // clears some low bits: a mask of the form high ones / low zeros keeps an affine part
        U128 inv = low & ~cst;
        if ((inv & (inv + 1)) == 0) { // cst low part = ones then zeros
          U128 npre = pre & cst; t.c[0] += u2q(npre) - u2q(pre); Q h = u2q(inv) / 2; t.c[0] -= h; newsym(t, qabs(h));
          return irng(w, npre | ((a->lo & low) & cst), npre | ((a->hi & low) & cst), a->hasTM ? &t : nullptr);
        }
        return irng(w, pre & cst, (pre & cst) | clow, nullptr);
      }
      if (op == "or") return irng(w, pre | cst, pre | cst | low, nullptr);
      return irng(w, (pre ^ cst) & ~low, ((pre ^ cst) & ~low) | low, nullptr);
    }
    return itop(w);
  }
  if (op == "mul") {
    if (a->k == IV::CST) std::swap(a, b);
    if (b->k == IV::CST && a->k == IV::RNG && (U128)a->hi * b->v <= wmax(w) && a->hi <= wmax(62)) {
      TM t = tscale(itm(*a), (Q)b->v); if (nsw && a->hi * b->v >= ((U128)1 << (w - 1))) flag(FL_NSW, "mul;"); return irng(w, a->lo * b->v, a->hi * b->v, &t);
    }
    if (nsw) flag(FL_NSW, "mul?;");
    return itop(w);
  }
  return itop(w);
}
static int icmp_(const std::string &p, IP a, IP b) {
  a = conc(a); b = conc(b);
  if (a->k == IV::TOP || b->k == IV::TOP) return choose(2);
  I128 al, ah, bl, bh;
  if (p[0] == 's') { if (!signedRange(*a, al, ah) || !signedRange(*b, bl, bh)) return choose(2); }
  else {
    al = a->k == IV::CST ? (I128)a->v : (I128)a->lo; ah = a->k == IV::CST ? (I128)a->v : (I128)a->hi;
    bl = b->k == IV::CST ? (I128)b->v : (I128)b->lo; bh = b->k == IV::CST ? (I128)b->v : (I128)b->hi;
  }
  int d = -1; std::string r = p.size() == 3 ? p.substr(1) : p;
  auto lt = [](I128 al, I128 ah, I128 bl, I128 bh) { return ah < bl ? 1 : al >= bh ? 0 : -1; };
  if (r == "lt") d = lt(al, ah, bl, bh);
  else if (r == "gt") d = lt(bl, bh, al, ah);
  else if (r == "le") { d = lt(bl, bh, al, ah); if (d >= 0) d = !d; }
  else if (r == "ge") { d = lt(al, ah, bl, bh); if (d >= 0) d = !d; }
  else { int e = (al == ah && bl == bh && al == bl) ? 1 : (ah < bl || bh < al) ? 0 : -1; d = e < 0 ? -1 : r == "eq" ? e : !e; }
  return d >= 0 ? d : choose(2);
}
static IP fptoi(FP a, int w, bool sg) {
  L lim_lo = sg ? -ldexpl(1, w - 1) : 0, lim_hi = sg ? ldexpl(1, w - 1) : ldexpl(1, w);
  if (!isFin(*a)) { flag(FL_CONV, "fptoi;"); return itop(w); }
  L l = truncl(a->lo), h = truncl(a->hi);
  if (l < lim_lo || h >= lim_hi) { flag(FL_CONV, "fptoi range;"); return itop(w); }
  if (l == h) return icst(w, (uint64_t)(int64_t)l);
  if (h - l <= 2) { int k = choose((int)(h - l) + 1); return icst(w, (uint64_t)(int64_t)(l + k)); }
  if (isPt(*a)) return icst(w, (uint64_t)(int64_t)l);
  // wide range: value = trunc(a), kept as an enclosure
  if (l >= 0) {
    TM t = a->tm; t.c[0] -= 0.5Q; t.rem = (t.rem + 0.5L) * LUP;
    return irng(w, (U128)l, (U128)h, &t);
  }
  return itop(w);
}
static FP itof(IP a, int prec, bool sg) {
  a = conc(a);
  if (a->k == IV::TOP) {
    L h = ldexpl(1, a->w); auto p = std::make_shared<FV>(); p->prec = prec; p->k = FV::FIN; p->tm = TM((Q)0); p->tm.rem = h; p->lo = sg ? -h / 2 : 0; p->hi = h; p->g = 0; p->nz = false; return p;
  }
  if (a->k == IV::CST) {
    double r;
    if (sg) { int64_t v = sx(a->v, a->w); r = prec == 53 ? (double)v : (double)(float)v; }
    else r = prec == 53 ? (double)a->v : (double)(float)a->v;
    return fpoint(prec, r);
  }
  TM t = itm(*a); I128 lo, hi;
  if (sg) { if (!signedRange(*a, lo, hi)) { L h = ldexpl(1, a->w - 1); auto p = std::make_shared<FV>(); p->prec = prec; p->k = FV::FIN; p->tm = TM((Q)0); p->tm.rem = h; p->lo = -h; p->hi = h; p->g = 0; p->nz = false; return p; }
    if (lo < 0) t.c[0] -= scalbnq(1, a->w); }
  else { lo = a->lo; hi = a->hi; }
  return fround_(t, (L)lo, (L)hi, 0, prec, false);
}

// ---------------------------------------------------------------- program
struct Op { enum K { REG, CONST, GLOB, UNDEF, NUL, AGG, FN } k; int r = -1; Val v; std::string g; long off = 0; std::vector<Op> sub; };
enum Opc { FADD, FSUB, FMUL, FDIV, FREM, IBINOP, FNEG, FREEZE, FCMP, ICMP, CAST, SELECT, PHI, BR, CBR, SWITCH, RET, UNREACH, ALLOCA, LOAD, STORE, GEP, CALL, EXTRACT, INSERT };
struct Instr {
  Opc op; int dst = -1; std::string s, s2; std::vector<Op> a; std::vector<long> k; int fty = 0, ty = 0; bool nsw = false; int callee = -1;
};
struct Fn { std::string name; int np, nr, nb; std::vector<std::vector<Instr>> b; };
struct GlobItem { long off; Op o; };
struct Glob { long size; std::vector<GlobItem> it; };
static std::vector<Fn> FNS; static std::unordered_map<std::string, int> FIDX; static std::map<std::string, Glob> GL;
// type codes: positive = int width, -53 double, -24 float, 0 void, 1000 ptr, 2000 agg
static int tcode(const std::string &t) {
  if (t == "f64") return -53; if (t == "f32") return -24; if (t == "void") return 0; if (t == "ptr") return 1000; if (t == "agg") return 2000;
  return atoi(t.c_str() + 1);
}
static Val constVal(const std::string &t) {
  size_t c = t.find(':');
  if (t[0] == 'i') return mkI(icst(atoi(t.substr(1, c - 1).c_str()), strtoull(t.c_str() + c + 1, 0, 10)));
  uint64_t b = strtoull(t.c_str() + c + 1, 0, 16);
  if (t.compare(0, 3, "f64") == 0) return mkF(fpoint(53, bitsd(b)));
  return mkF(fpoint(24, bitsf((uint32_t)b)));
}
static Op rdOp(std::istream &is) {
  std::string t; is >> t; Op o;
  if (t[0] == 'r') { o.k = Op::REG; o.r = atoi(t.c_str() + 1); }
  else if (t[0] == 'i' || t[0] == 'f') { o.k = Op::CONST; o.g = t; }
  else if (t[0] == 'g') { size_t p = t.rfind('+'); o.k = Op::GLOB; o.g = t.substr(1, p - 1); o.off = atol(t.c_str() + p + 1); }
  else if (t[0] == 'u') o.k = Op::UNDEF;
  else if (t[0] == 'n') o.k = Op::NUL;
  else if (t[0] == 'p') { o.k = Op::FN; o.g = t.substr(2); }
  else if (t[0] == 'A') { o.k = Op::AGG; int n = atoi(t.c_str() + 1); for (int i = 0; i < n; i++) o.sub.push_back(rdOp(is)); }
  else throw Unsupported{"operand " + t};
  return o;
}
static void loadProgram(const std::string &file) {
  std::ifstream in(file); std::string ln; Fn cur; std::vector<Instr> *blk = nullptr;
  while (std::getline(in, ln)) {
    if (ln.empty()) continue;
    std::istringstream is(ln); std::string w; is >> w;
    if (w == "F") { cur = Fn(); is >> cur.name >> cur.np >> cur.nr >> cur.nb; cur.b.resize(cur.nb); }
    else if (w == "B") { int i; is >> i; blk = &cur.b[i]; }
    else if (w == "E") { FIDX[cur.name] = FNS.size(); FNS.push_back(cur); }
    else if (w == "G") { std::string n; Glob g; size_t k; is >> n >> g.size >> k; for (size_t i = 0; i < k; i++) { GlobItem it; is >> it.off; it.o = rdOp(is); g.it.push_back(it); } GL[n] = g; }
    else {
      Instr I; std::string t;
      static std::map<std::string, Opc> FB = {{"fadd", FADD}, {"fsub", FSUB}, {"fmul", FMUL}, {"fdiv", FDIV}, {"frem", FREM}};
      static std::map<std::string, int> IB = {{"add", 1}, {"sub", 1}, {"mul", 1}, {"udiv", 1}, {"sdiv", 1}, {"urem", 1}, {"srem", 1}, {"shl", 1}, {"lshr", 1}, {"ashr", 1}, {"and", 1}, {"or", 1}, {"xor", 1}};
      static std::map<std::string, int> CS = {{"fptosi", 1}, {"fptoui", 1}, {"sitofp", 1}, {"uitofp", 1}, {"fptrunc", 1}, {"fpext", 1}, {"zext", 1}, {"sext", 1}, {"trunc", 1}, {"bitcast", 1}, {"ptrtoint", 1}, {"inttoptr", 1}};
      if (FB.count(w)) { I.op = FB[w]; is >> I.dst >> t; I.ty = tcode(t); I.a.push_back(rdOp(is)); I.a.push_back(rdOp(is)); }
      else if (IB.count(w)) { I.op = IBINOP; I.s = w; int n; is >> I.dst >> t >> n; I.nsw = n; I.ty = tcode(t); I.a.push_back(rdOp(is)); I.a.push_back(rdOp(is)); }
      else if (w == "fneg" || w == "freeze") { I.op = w == "fneg" ? FNEG : FREEZE; is >> I.dst >> t; I.ty = tcode(t); I.a.push_back(rdOp(is)); }
      else if (w == "fcmp" || w == "icmp") { I.op = w == "fcmp" ? FCMP : ICMP; is >> I.dst >> I.s >> t; I.ty = tcode(t); I.a.push_back(rdOp(is)); I.a.push_back(rdOp(is)); }
      else if (CS.count(w)) { I.op = CAST; I.s = w; std::string t2; is >> I.dst >> t >> t2; I.fty = tcode(t); I.ty = tcode(t2); I.a.push_back(rdOp(is)); }
      else if (w == "select") { I.op = SELECT; is >> I.dst; for (int i = 0; i < 3; i++) I.a.push_back(rdOp(is)); }
      else if (w == "phi") { I.op = PHI; int n; is >> I.dst >> n; for (int i = 0; i < n; i++) { long b; is >> b; I.k.push_back(b); I.a.push_back(rdOp(is)); } }
      else if (w == "br") { I.op = BR; long b; is >> b; I.k.push_back(b); }
      else if (w == "cbr") { I.op = CBR; I.a.push_back(rdOp(is)); long b, c; is >> b >> c; I.k = {b, c}; }
      else if (w == "switch") { I.op = SWITCH; I.a.push_back(rdOp(is)); long d, n; is >> d >> n; I.k = {d}; for (int i = 0; i < n; i++) { unsigned long v; long b; is >> v >> b; I.k.push_back((long)v); I.k.push_back(b); } }
      else if (w == "ret") { I.op = RET; is >> std::ws; if (is.peek() != EOF) I.a.push_back(rdOp(is)); }
      else if (w == "unreachable") I.op = UNREACH;
      else if (w == "alloca") { I.op = ALLOCA; long n; is >> I.dst >> n; I.k = {n}; }
      else if (w == "load") { I.op = LOAD; long n; is >> I.dst >> t >> n; I.ty = tcode(t); I.k = {n}; I.a.push_back(rdOp(is)); }
      else if (w == "store") { I.op = STORE; long n; is >> t >> n; I.ty = tcode(t); I.k = {n}; I.a.push_back(rdOp(is)); I.a.push_back(rdOp(is)); }
      else if (w == "gep") { I.op = GEP; long off, n; is >> I.dst; I.a.push_back(rdOp(is)); is >> off >> n; I.k = {off}; for (int i = 0; i < n; i++) { I.a.push_back(rdOp(is)); long s; is >> s; I.k.push_back(s); } }
      else if (w == "call") { I.op = CALL; int n; is >> I.dst >> t >> I.s >> n; I.ty = tcode(t); for (int i = 0; i < n; i++) I.a.push_back(rdOp(is)); }
      else if (w == "extractvalue" || w == "insertvalue") { I.op = w[0] == 'e' ? EXTRACT : INSERT; int n; is >> I.dst >> n; for (int i = 0; i < n; i++) { long x; is >> x; I.k.push_back(x); } I.a.push_back(rdOp(is)); if (w[0] == 'i') I.a.push_back(rdOp(is)); }
      else throw Unsupported{"bytecode " + ln};
      blk->push_back(I);
    }
  }
  for (auto &f : FNS) for (auto &b : f.b) for (auto &i : b) if (i.op == CALL) { auto it = FIDX.find(i.s); i.callee = it == FIDX.end() ? -1 : it->second; }
}

// ---------------------------------------------------------------- callee contracts (modular use)
struct CalleeContract { Ref ref; double A, B; int prec; long narg; L dlo, dhi; };
static std::map<std::string, CalleeContract> CC;
static thread_local std::string CC_SELF; // function currently being verified: its own contract is not used

// ---------------------------------------------------------------- interpreter
struct Cell { long size; Val v; };
struct Obj { long size; std::map<long, Cell> cells; bool ro = false; };
struct Machine {
  std::vector<Obj> objs; std::map<std::string, int> gobj;
  Val opv(const Op &o, std::vector<Val> &R) {
    switch (o.k) {
    case Op::REG: return R[o.r];
    case Op::CONST: return constVal(o.g);
    case Op::UNDEF: return Val();
    case Op::NUL: { Val v; v.k = Val::PTR; v.obj = -1; return v; }
    case Op::FN: { Val v; v.k = Val::FN; v.fn = o.g; return v; }
    case Op::AGG: { Val v; v.k = Val::AGG; v.agg = std::make_shared<std::vector<Val>>(); for (auto &s : o.sub) v.agg->push_back(opv(s, R)); return v; }
    case Op::GLOB: {
      Val v; v.k = Val::PTR; v.off = o.off; auto it = gobj.find(o.g);
      if (it == gobj.end()) {
        auto &g = GL.at(o.g); Obj ob; ob.size = g.size; ob.ro = true;
        for (auto &i : g.it) { Val c = constVal(i.o.g); long sz = c.k == Val::F ? (c.f->prec == 53 ? 8 : 4) : std::max(1, c.i->w / 8); ob.cells[i.off] = {sz, c}; }
        objs.push_back(ob); v.obj = gobj[o.g] = objs.size() - 1;
      } else v.obj = it->second;
      return v;
    }
    }
    return Val();
  }
  FP F(const Val &v, int prec) { if (v.k == Val::F) return v.f; if (v.k == Val::UNDEF) return ftop(prec); throw Unsupported{"float operand"}; }
  IP I(const Val &v, int w) { if (v.k == Val::I) return v.i; if (v.k == Val::UNDEF) return itop(w); throw Unsupported{"int operand"}; }
  Val toType(const Val &v, int ty) { // reinterpret same-size value
    if (ty == -53 || ty == -24) {
      if (v.k == Val::F) return v;
      if (v.k == Val::I) return mkF(bitsToF(v.i));
      return mkF(ftop(-ty));
    }
    if (ty > 0 && ty < 1000) {
      if (v.k == Val::I) return v;
      if (v.k == Val::F) { if (isPt(*v.f) && !isNaN(*v.f)) return mkI(bitsRange(v.f)); auto p = std::make_shared<IV>(); p->w = v.f->prec == 53 ? 64 : 32; p->k = IV::BITS; p->f = v.f; return mkI(p); }
      return mkI(itop(ty));
    }
    return v;
  }
  void store(const Val &p, long size, const Val &v) {
    if (p.k != Val::PTR || p.obj < 0) { flag(FL_MEM, "store;"); throw Unsupported{"store through unknown pointer"}; }
    Obj &o = objs[p.obj];
    if (o.ro) throw Unsupported{"store to constant"};
    if (p.off < 0 || p.off + size > o.size) { flag(FL_MEM, "out of bounds store;"); return; }
    // remove overlapping cells (splitting is not needed: partially overwritten cells become bytes of unknown content)
    for (auto it = o.cells.begin(); it != o.cells.end();) {
      if (it->first < p.off + size && p.off < it->first + it->second.size) {
        long b = it->first, s = it->second.size; Val ov = it->second.v;
        it = o.cells.erase(it);
        if (b < p.off || b + s > p.off + size) { // keep the untouched integer part when it is constant
          Val iv_ = toType(ov, (int)s * 8);
          if (iv_.k == Val::I) {
            IP c = conc(iv_.i);
            if (c->k == IV::CST) {
              for (long x = b; x < b + s; x++) if (x < p.off || x >= p.off + size) o.cells[x] = {1, mkI(icst(8, c->v >> (8 * (x - b))))};
            }
          }
        }
      } else ++it;
    }
    o.cells[p.off] = {size, v};
  }
  Val load(const Val &p, long size, int ty) {
    if (p.k != Val::PTR || p.obj < 0) throw Unsupported{"load through unknown pointer"};
    Obj &o = objs[p.obj];
    if (p.off < 0 || p.off + size > o.size) { flag(FL_MEM, "out of bounds load;"); return undefOf(ty); }
    auto it = o.cells.find(p.off);
    if (it != o.cells.end() && it->second.size == size) return toType(it->second.v, ty);
    // inside a larger cell
    for (auto &c : o.cells)
      if (c.first <= p.off && p.off + size <= c.first + c.second.size) {
        Val iv_ = toType(c.second.v, (int)c.second.size * 8);
        if (iv_.k != Val::I) return undefOf(ty);
        IP x = ibin("lshr", false, iv_.i, icst(iv_.i->w, 8 * (p.off - c.first)));
        return toType(mkI(itrunc(x, (int)size * 8)), ty);
      }
    // assembled from smaller cells (constants only)
    uint64_t acc = 0; long pos = 0;
    while (pos < size) {
      auto c = o.cells.find(p.off + pos);
      if (c == o.cells.end() || pos + c->second.size > size) return undefOf(ty);
      Val iv_ = toType(c->second.v, (int)c->second.size * 8);
      if (iv_.k != Val::I) return undefOf(ty);
      IP x = conc(iv_.i); if (x->k != IV::CST) return undefOf(ty);
      acc |= x->v << (8 * pos); pos += c->second.size;
    }
    return toType(mkI(icst((int)size * 8, acc)), ty);
  }
  Val undefOf(int ty) {
    if (ty == -53 || ty == -24) return mkF(ftop(-ty));
    if (ty > 0 && ty < 1000) return mkI(itop(ty));
    return Val();
  }
  IP itrunc(IP a, int w) {
    a = conc(a);
    if (a->w == w) return a;
    if (a->k == IV::CST) return icst(w, a->v);
    if (a->k == IV::TOP) return itop(w);
    U128 hiPart = a->lo >> w;
    if (hiPart != (a->hi >> w)) return itop(w);
    U128 sub = hiPart << w; TM t = itm(*a); t.c[0] -= u2q(sub);
    return irng(w, a->lo - sub, a->hi - sub, a->hasTM ? &t : nullptr);
  }
  Val builtin(const std::string &n, std::vector<Val> &a, int ty, bool &ok) {
    ok = true;
    auto st = [&](const char *s) { return n.compare(0, strlen(s), s) == 0; };
    if (st("llvm.lifetime") || st("llvm.assume") || st("llvm.donothing") || st("llvm.dbg") || st("llvm.invariant")) return Val();
    if (st("llvm.fabs.") || n == "fabs" || n == "fabsf") return mkF(fabs_(F(a[0], -ty)));
    if (st("llvm.sqrt.") || n == "sqrt" || n == "sqrtf") return mkF(fsqrt_(F(a[0], -ty), -ty));
    if (st("llvm.copysign.") || n == "copysign" || n == "copysignf") {
      FP x = F(a[0], -ty), s = F(a[1], -ty); FP m = fabs_(x);
      if (isPt(*m) && std::isnan(m->pv)) return mkF(m);
      return mkF(signOf(*s) ? fneg_(m) : m);
    }
    if (st("llvm.floor.") || n == "floor" || n == "floorf") return mkF(fintfun(0, F(a[0], -ty)));
    if (st("llvm.ceil.") || n == "ceil" || n == "ceilf") return mkF(fintfun(1, F(a[0], -ty)));
    if (st("llvm.trunc.") || n == "trunc" || n == "truncf") return mkF(fintfun(2, F(a[0], -ty)));
    if (st("llvm.rint.") || st("llvm.nearbyint.") || st("llvm.roundeven.") || n == "rint" || n == "rintf" || n == "nearbyint") return mkF(fintfun(3, F(a[0], -ty)));
    if (st("llvm.round.") || n == "round" || n == "roundf") return mkF(fintfun(4, F(a[0], -ty)));
    if (st("llvm.minnum.") || st("llvm.maxnum.") || n == "fmin" || n == "fmax" || n == "fminf" || n == "fmaxf") {
      bool mn = n.find("min") != std::string::npos; FP x = F(a[0], -ty), y = F(a[1], -ty);
      if (isPt(*x) && std::isnan(x->pv)) return mkF(y);
      if (isPt(*y) && std::isnan(y->pv)) return mkF(x);
      return mkF(fcmp_(mn ? "olt" : "ogt", x, y) ? x : y);
    }
    if (st("llvm.fma.") || n == "fma" || n == "fmaf") {
      int prec = -ty; FP x = F(a[0], prec), y = F(a[1], prec), z = F(a[2], prec);
      if (isPt(*x) && isPt(*y) && isPt(*z)) return mkF(fpoint(prec, prec == 53 ? ::fma(x->pv, y->pv, z->pv) : (double)fmaf((float)x->pv, (float)y->pv, (float)z->pv)));
      for (FP v : {x, y, z}) if (isPt(*v) && std::isnan(v->pv)) return mkF(v);
      if (!isFin(*x) || !isFin(*y) || !isFin(*z)) { flag(FL_OVF, "fma;"); return mkF(ftop(prec)); }
      TM t = tadd(tmul(x->tm, y->tm), z->tm, 1); IVL r = iadd(imul({x->lo, x->hi}, {y->lo, y->hi}), {z->lo, z->hi});
      int g = (x->g > -15000 && y->g > -15000) ? std::min(x->g + y->g, z->g) : -20000;
      return mkF(fround_(t, r.lo, r.hi, g, prec, true));
    }
    if (st("llvm.fmuladd.")) { FP p = fbin(2, F(a[0], -ty), F(a[1], -ty), -ty); return mkF(fbin(0, p, F(a[2], -ty), -ty)); }
    if (n == "ldexp" || n == "ldexpf" || n == "scalbn" || n == "scalbnf" || st("llvm.ldexp.")) {
      int prec = -ty; FP x = F(a[0], prec); IP k = conc(I(a[1], 32));
      if (isPt(*x) && !std::isfinite(x->pv)) return mkF(x);
      if (k->k != IV::CST || !isFin(*x)) { flag(FL_OVF, "ldexp;"); return mkF(ftop(prec)); }
      long e = sx(k->v, k->w);
      if (isPt(*x)) return mkF(fpoint(prec, prec == 53 ? ldexp(x->pv, e) : (double)ldexpf((float)x->pv, e)));
      if (e > 4000 || e < -4000) { flag(FL_OVF, "ldexp;"); return mkF(ftop(prec)); }
      TM t = tscale(x->tm, scalbnq(1, e));
      return mkF(fround_(t, ldexpl(x->lo, e), ldexpl(x->hi, e), x->g + e, prec, x->nz));
    }
    if (n == "frexp" || n == "frexpf" || st("llvm.frexp.")) {
      bool pair = n[0] == 'l'; int prec = pair ? (n.find("f32") != std::string::npos ? 24 : 53) : -ty; FP x = F(a[0], prec);
      auto give = [&](FP m, IP e) { if (!pair) { store(a[1], 4, mkI(e)); return mkF(m); } Val v; v.k = Val::AGG; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(mkF(m)); v.agg->push_back(mkI(e)); return v; };
      if (!isFin(*x)) return give(isPt(*x) ? x : ftop(prec), itop(32));
      if (isPt(*x)) { int e; double m = frexp(x->pv, &e); return give(fpoint(prec, m), icst(32, (uint64_t)(int64_t)e)); }
      if (x->lo <= 0 && x->hi >= 0) throw NeedSplit{"frexp"};
      L l = std::min(fabsl(x->lo), fabsl(x->hi)), h = std::max(fabsl(x->lo), fabsl(x->hi));
      int e1 = expo(l), e2 = expo(h); if (e2 - e1 > 2) throw NeedSplit{"frexp"};
      int e = e1 + choose(e2 - e1 + 1) + 1;
      TM t = tscale(x->tm, scalbnq(1, -e));
      return give(fround_(t, ldexpl(x->lo, -e), ldexpl(x->hi, -e), x->g - e, prec, false), icst(32, (uint64_t)(int64_t)e));
    }
    if (st("llvm.memcpy.") || st("llvm.memmove.") || n == "memcpy" || n == "memmove") {
      IP len = conc(I(a[2], 64)); if (len->k != IV::CST || a[0].k != Val::PTR || a[1].k != Val::PTR || a[0].obj < 0 || a[1].obj < 0) throw Unsupported{"memcpy"};
      long sz = len->v; std::vector<std::pair<long, Cell>> cp;
      for (auto &c : objs[a[1].obj].cells) {
        long e = c.first + c.second.size;
        if (c.first >= a[1].off && e <= a[1].off + sz) cp.push_back({c.first - a[1].off, c.second});
        else if (c.first < a[1].off + sz && e > a[1].off) { // partial: copy as an integer slice
          long s0 = std::max(c.first, a[1].off), s1 = std::min(e, a[1].off + sz);
          Val p; p.k = Val::PTR; p.obj = a[1].obj; p.off = s0; Val v = load(p, s1 - s0, (int)(s1 - s0) * 8); cp.push_back({s0 - a[1].off, {s1 - s0, v}});
        }
      }
      Obj &o = objs[a[0].obj];
      if (a[0].off < 0 || a[0].off + sz > o.size) { flag(FL_MEM, "memcpy;"); return Val(); }
      for (auto it = o.cells.begin(); it != o.cells.end();) { if (it->first < a[0].off + sz && a[0].off < it->first + it->second.size) it = o.cells.erase(it); else ++it; }
      for (auto &c : cp) o.cells[a[0].off + c.first] = c.second;
      return n[0] == 'm' ? a[0] : Val();
    }
    if (st("llvm.memset.") || n == "memset") {
      IP len = conc(I(a[2], 64)), b = conc(I(a[1], 8)); if (len->k != IV::CST || b->k != IV::CST || a[0].k != Val::PTR || len->v > 4096) throw Unsupported{"memset"};
      for (uint64_t i = 0; i < len->v; i++) { Val p = a[0]; p.off += i; store(p, 1, mkI(icst(8, b->v))); }
      return n[0] == 'm' ? a[0] : Val();
    }
    if (st("llvm.abs.") || n == "abs" || n == "labs") { IP x = I(a[0], ty); int neg = icmp_("slt", x, icst(x->w, 0)); return mkI(neg ? ibin("sub", false, icst(x->w, 0), x) : x); }
    if (st("llvm.smax.") || st("llvm.smin.") || st("llvm.umax.") || st("llvm.umin.")) {
      IP x = I(a[0], ty), y = I(a[1], ty); std::string p; p += n[5]; p += n.substr(6, 3) == "max" ? "gt" : "lt"; return mkI(icmp_(p, x, y) ? x : y);
    }
    if (st("llvm.is.fpclass.")) {
      FP x = F(a[0], 53); IP m = conc(I(a[1], 32)); uint64_t k = m->v;
      if (isPt(*x)) {
        double d = x->pv; bool r = false; bool sub = std::fpclassify(x->prec == 24 ? (double)0 : d) == FP_SUBNORMAL || (x->prec == 24 && std::fpclassify((float)d) == FP_SUBNORMAL);
        if (std::isnan(d)) r = k & 3; else if (std::isinf(d)) r = d < 0 ? k & 4 : k & 512; else if (d == 0) r = std::signbit(d) ? k & 32 : k & 64;
        else if (sub) r = d < 0 ? k & 16 : k & 128; else r = d < 0 ? k & 8 : k & 256;
        return mkI(icst(1, r));
      }
      if (x->k == FV::FIN || x->k == FV::RAT) { if (!(k & ~(uint64_t)(3 | 4 | 512))) return mkI(icst(1, 0)); if ((k & 0x1F8) == 0x1F8) return mkI(icst(1, 1)); }
      return mkI(icst(1, choose(2)));
    }
    ok = false; return Val();
  }
  Val call(int fi, std::vector<Val> args, int depth) {
    if (depth > 40) throw Unsupported{"recursion"};
    const Fn &f = FNS[fi];
    C.calls++;
    if (!CC.empty() && args.size() >= 1 && depth > 0) {
      auto it = CC.find(f.name);
      if (it != CC.end() && f.name != CC_SELF) {
        bool ok; Val v = applyContract(it->second, args, ok);
        if (ok) return v;
      }
    }
    std::vector<Val> R(f.nr);
    for (int i = 0; i < f.np && i < (int)args.size(); i++) R[i] = args[i];
    int b = 0, pb = -1;
    while (true) {
      const auto &ins = f.b[b]; size_t ip = 0;
      // phis are parallel
      std::vector<std::pair<int, Val>> ph;
      while (ip < ins.size() && ins[ip].op == PHI) {
        const Instr &I_ = ins[ip]; bool found = false;
        for (size_t k = 0; k < I_.k.size(); k++) if (I_.k[k] == pb) { ph.push_back({I_.dst, opv(I_.a[k], R)}); found = true; break; }
        if (!found) throw Unsupported{"phi"};
        ip++;
      }
      for (auto &p : ph) R[p.first] = p.second;
      bool jumped = false;
      for (; ip < ins.size() && !jumped; ip++) {
        const Instr &i = ins[ip];
        if (++C.steps > 20000) throw NeedSplit{"step limit"};
        switch (i.op) {
        case FADD: case FSUB: case FMUL: case FDIV: {
          Val x = opv(i.a[0], R), y = opv(i.a[1], R);
          R[i.dst] = mkF(fbin(i.op == FADD ? 0 : i.op == FSUB ? 1 : i.op == FMUL ? 2 : 3, F(x, -i.ty), F(y, -i.ty), -i.ty)); break;
        }
        case FREM: {
          FP x = F(opv(i.a[0], R), -i.ty), y = F(opv(i.a[1], R), -i.ty);
          if (isPt(*x) && isPt(*y)) R[i.dst] = mkF(fpoint(-i.ty, fmod(x->pv, y->pv))); else throw Unsupported{"frem"};
          break;
        }
        case IBINOP: { Val x = opv(i.a[0], R), y = opv(i.a[1], R); R[i.dst] = mkI(ibin(i.s, i.nsw, I(x, i.ty), I(y, i.ty))); break; }
        case FNEG: R[i.dst] = mkF(fneg_(F(opv(i.a[0], R), -i.ty))); break;
        case FREEZE: R[i.dst] = opv(i.a[0], R); break;
        case FCMP: { Val x = opv(i.a[0], R), y = opv(i.a[1], R); R[i.dst] = mkI(icst(1, fcmp_(i.s, F(x, -i.ty), F(y, -i.ty)))); break; }
        case ICMP: {
          Val x = opv(i.a[0], R), y = opv(i.a[1], R);
          if (x.k == Val::PTR && y.k == Val::PTR) { if (i.s != "eq" && i.s != "ne") throw Unsupported{"pointer compare"}; bool e = x.obj == y.obj && (x.obj < 0 || x.off == y.off); R[i.dst] = mkI(icst(1, i.s == "eq" ? e : !e)); break; }
          R[i.dst] = mkI(icst(1, icmp_(i.s, I(x, i.ty), I(y, i.ty)))); break;
        }
        case CAST: {
          Val x = opv(i.a[0], R);
          if (i.s == "fptosi" || i.s == "fptoui") R[i.dst] = mkI(fptoi(F(x, -i.fty), i.ty, i.s == "fptosi"));
          else if (i.s == "sitofp" || i.s == "uitofp") R[i.dst] = mkF(itof(I(x, i.fty), -i.ty, i.s == "sitofp"));
          else if (i.s == "fptrunc" || i.s == "fpext") R[i.dst] = mkF(fconv(F(x, -i.fty), -i.ty));
          else if (i.s == "trunc") R[i.dst] = mkI(itrunc(I(x, i.fty), i.ty));
          else if (i.s == "zext" || i.s == "sext") {
            IP a = conc(I(x, i.fty));
            if (a->k == IV::CST) R[i.dst] = mkI(icst(i.ty, i.s == "zext" ? a->v : (uint64_t)sx(a->v, a->w)));
            else if (a->k == IV::TOP) R[i.dst] = i.s == "zext" ? mkI(irng(i.ty, 0, wmax(i.fty), nullptr)) : mkI(itop(i.ty));
            else {
              U128 sb = ((U128)1) << (a->w - 1);
              if (i.s == "zext" || (!(a->lo & sb) && !(a->hi & sb))) { TM t = itm(*a); R[i.dst] = mkI(irng(i.ty, a->lo, a->hi, a->hasTM ? &t : nullptr)); }
              else if ((a->lo & sb) && (a->hi & sb)) { U128 k = wmax(i.ty) - wmax(a->w); TM t = itm(*a); t.c[0] += u2q(k); R[i.dst] = mkI(irng(i.ty, a->lo + k, a->hi + k, a->hasTM ? &t : nullptr)); }
              else R[i.dst] = mkI(itop(i.ty));
            }
          } else if (i.s == "bitcast") R[i.dst] = toType(x, i.ty);
          else throw Unsupported{i.s};
          break;
        }
        case SELECT: { Val c = opv(i.a[0], R); IP k = I(c, 1); int t = k->k == IV::CST ? (int)k->v : choose(2); R[i.dst] = opv(i.a[t ? 1 : 2], R); break; }
        case BR: pb = b; b = i.k[0]; jumped = true; break;
        case CBR: { IP k = I(opv(i.a[0], R), 1); int t = k->k == IV::CST ? (int)k->v : choose(2); pb = b; b = i.k[t ? 0 : 1]; jumped = true; break; }
        case SWITCH: {
          IP k = conc(I(opv(i.a[0], R), 64)); int nb = i.k[0];
          if (k->k != IV::CST) {
            int n = (i.k.size() - 1) / 2; int t = choose(n + 1); if (t < n) nb = i.k[2 + 2 * t];
          } else for (size_t q = 1; q + 1 < i.k.size(); q += 2) if (((uint64_t)i.k[q] & mask(k->w)) == k->v) { nb = i.k[q + 1]; break; }
          pb = b; b = nb; jumped = true; break;
        }
        case RET: if (i.a.empty()) return Val(); return opv(i.a[0], R);
        case UNREACH: flag(FL_MEM, "unreachable;"); throw NeedSplit{"unreachable"};
        case ALLOCA: { Obj o; o.size = i.k[0]; objs.push_back(o); Val v; v.k = Val::PTR; v.obj = objs.size() - 1; v.off = 0; R[i.dst] = v; break; }
        case LOAD: {
          Val p = opv(i.a[0], R);
          if (i.ty == 2000) throw Unsupported{"aggregate load"};
          R[i.dst] = load(p, i.k[0], i.ty); break;
        }
        case STORE: {
          Val v = opv(i.a[0], R); if (i.ty == 2000) throw Unsupported{"aggregate store"};
          store(opv(i.a[1], R), i.k[0], v); break;
        }
        case GEP: {
          Val p = opv(i.a[0], R); if (p.k != Val::PTR) throw Unsupported{"gep base"};
          p.off += i.k[0];
          for (size_t q = 1; q < i.a.size(); q++) { IP x = conc(I(opv(i.a[q], R), 64)); if (x->k != IV::CST) throw NeedSplit{"variable index"}; p.off += sx(x->v, x->w) * i.k[q]; }
          R[i.dst] = p; break;
        }
        case CALL: {
          std::vector<Val> av; for (auto &o : i.a) av.push_back(opv(o, R));
          Val r;
          if (i.callee >= 0) r = call(i.callee, av, depth + 1);
          else { bool ok; r = builtin(i.s, av, i.ty, ok); if (!ok) throw Unsupported{"external function " + i.s}; }
          if (i.dst >= 0) R[i.dst] = r;
          break;
        }
        case EXTRACT: {
          Val v = opv(i.a[0], R);
          for (long k : i.k) { if (v.k == Val::UNDEF) break; if (v.k != Val::AGG || k >= (long)v.agg->size()) throw Unsupported{"extractvalue"}; Val t = (*v.agg)[k]; v = t; }
          R[i.dst] = v; break;
        }
        case INSERT: {
          Val v = opv(i.a[0], R), x = opv(i.a[1], R); Val n; n.k = Val::AGG; n.agg = std::make_shared<std::vector<Val>>();
          if (v.k == Val::AGG) *n.agg = *v.agg;
          if (i.k.size() != 1) throw Unsupported{"nested insertvalue"};
          if ((long)n.agg->size() <= i.k[0]) n.agg->resize(i.k[0] + 1);
          (*n.agg)[i.k[0]] = x; R[i.dst] = n; break;
        }
        default: throw Unsupported{"op"};
        }
      }
      if (!jumped) throw Unsupported{"fell off block"};
    }
  }
  Val applyContract(const CalleeContract &c, std::vector<Val> &a, bool &ok) {
    ok = false; if (a[0].k != Val::F) return Val();
    FP x = a[0].f;
    if (c.narg >= 0) { if (a.size() < 2 || a[1].k != Val::I || a[1].i->k != IV::CST || (long)a[1].i->v != c.narg) return Val(); }
    if (!isFin(*x) || x->lo < c.dlo || x->hi > c.dhi) return Val();
    // F(x) composed
    Q x0 = x->tm.c[0]; TM w = x->tm; w.c[0] = 0; L S = std::max(w.norm(), (L)0);
    TM z;
    if (S == 0) z = refTM(c.ref, x0, 0, x->lo, x->hi);
    else {
      Q SQ = (Q)S; TM p = refTM(c.ref, x0, SQ, x->lo, x->hi); // polynomial in w/S
      TM ws = tscale(w, 1 / SQ); int D = C.D; TM acc(p.c[D]);
      for (int k = D - 1; k >= 0; k--) { acc = tmul(acc, ws); acc = tadd(acc, TM(p.c[k]), 1); }
      acc.rem = (acc.rem + p.rem) * LUP; z = acc;
    }
    L lo, hi; z.range(lo, hi);
    L e = (c.A + c.B * std::max(fabsl(lo), fabsl(hi))) * LUP;
    auto p = std::make_shared<FV>(); p->prec = c.prec; p->k = FV::FIN; p->tm = z; newsym(p->tm, e);
    IVL rr = refI(c.ref, x->lo, x->hi); p->lo = rn(std::max(lo, rr.lo) - e, c.prec); p->hi = rn(std::min(hi, rr.hi) + e, c.prec);
    p->g = p->lo > 0 ? ulpexp(p->lo, c.prec) : p->hi < 0 ? ulpexp(p->hi, c.prec) : emin(c.prec); p->nz = true;
    ok = true; return mkF(p);
  }
};

// ---------------------------------------------------------------- jobs
// ordinals of floats: monotone map to integers
static int64_t ordD(double d) { int64_t b = (int64_t)dbits(d); return b >= 0 ? b : (int64_t)(0x8000000000000000ull) - b - 1; } // -0 -> -1
static double fromOrdD(int64_t o) { if (o >= 0) return bitsd((uint64_t)o); return bitsd((uint64_t)((int64_t)0x8000000000000000ull - (o + 1))); }
static int64_t ordF(float d) { int32_t b = (int32_t)fbits(d); return b >= 0 ? b : (int64_t)(int32_t)(0x80000000u - (uint32_t)b) - 1; }
static float fromOrdF(int64_t o) { if (o >= 0) return bitsf((uint32_t)o); return bitsf(0x80000000u - (uint32_t)(int32_t)(o + 1)); }

struct Clause { bool absret = false; enum K { ACC, BITS, NANC, RANGE, SAMESIGN, ATAN2 } k; Ref ref = R_NONE; L A = 0, B = 0, E = 0; uint64_t bits = 0; L lo = 0, hi = 0; };
struct Piece { int64_t lo, hi; };
struct Job {
  std::string name, func, sym; int prec = 53; int D = 9; bool fma = false; unsigned defmask = 0; std::vector<Clause> cl; std::vector<Piece> dom;
  bool ratio = false; int sx_ = 1, sy_ = 1, maxIsY = 0, zero = 0; // ratio jobs
  std::vector<std::pair<double, double>> rdom;
  long extra = -1; std::string self; long maxboxes = 4000000; int samples = 2; double timelimit = 1e9;
};
struct Box { int job; int64_t lo, hi; double a, b; int depth; };

struct JobRes {
  std::mutex m; long boxes = 0, leaves = 0, splits = 0, paths = 0, points = 0, clauseChecks = 0, samples = 0, rounds = 0;
  double worst = 0; std::string worstAt; // largest proven bound relative to the contract bound
  std::vector<Box> ubox; std::vector<std::string> fails; std::vector<std::string> unsupported; std::vector<std::string> unres; long fcount = 0, ucount = 0; double cputime = 0;
  double sworst = 0; std::string sworstAt; long contained = 0; std::vector<std::string> uncontained; long maxsyms = 0; std::vector<std::string> samplesOut; double widest = 0;
};
static std::vector<Job> JOBS; static std::vector<std::unique_ptr<JobRes>> RES;
static void *SO = nullptr;
static double x_of(const Job &j, int64_t o) { return j.prec == 53 ? fromOrdD(o) : (double)fromOrdF((int64_t)o); }

// result of one box: 0 proved, 1 undecided
struct BoxOut { bool ok; std::string why; double ratio = 0; L rlo = LINF, rhi = -LINF; bool anyTop = false; long paths = 0, checks = 0; bool pointfail = false; };

static bool clauseCheck(const Job &j, const Clause &c, FP ret, Q x0, Q H, L a, L b, std::string &why, double &ratio, const TM *refCache) {
  switch (c.k) {
  case Clause::NANC: if (isPt(*ret) && std::isnan(ret->pv)) return true; why = "not NaN"; return false;
  case Clause::BITS: {
    if (!isPt(*ret)) { why = "not a constant"; return false; }
    uint64_t u = j.prec == 53 ? dbits(ret->pv) : fbits((float)ret->pv);
    if (u == c.bits) return true; char s[80]; snprintf(s, 80, "result bits %llx", (unsigned long long)u); why = s; return false;
  }
  case Clause::RANGE: if (!isFin(*ret)) { why = "result not finite"; return false; } if (ret->lo >= c.lo && ret->hi <= c.hi) return true; { char s[160]; snprintf(s, 160, "range [%.6Lg,%.6Lg]", ret->lo, ret->hi); why = s; } return false;
  case Clause::SAMESIGN: if (!isFin(*ret)) { why = "result not finite"; return false; } if (a > 0 ? ret->lo > 0 : b < 0 ? ret->hi < 0 : false) return true; why = "sign"; return false;
  case Clause::ACC: case Clause::ATAN2: {
    if (!isFin(*ret)) { why = "result not finite"; return false; }
    const TM &r = *refCache;
    L lo, hi; r.range(lo, hi);
    if (c.k == Clause::ACC) { IVL q = refI(c.ref, a, b); lo = std::max(lo, q.lo); hi = std::min(hi, q.hi); }
    L fmin = lo > 0 ? lo : hi < 0 ? -hi : 0;
    L bound = (c.A + c.B * fmin) * (1 - 0x1p-58L);
    if (c.E != 0) { // backward term: E*|x|*(1+F^2) (tangent)
      L xm = std::min(fabsl(a), fabsl(b)); bound += c.E * xm * (1 + fmin * fmin) * (1 - 0x1p-56L);
    }
    if (c.absret) { if (ret->lo >= 0) ; else if (ret->hi <= 0) ret = fneg_(ret); else { why = "sign of result unknown"; return false; } }
    TM d = tadd(ret->tm, r, -1); L dl, dh; d.range(dl, dh); L err = std::max(fabsl(dl), fabsl(dh));
    if (err == 0) { ratio = 0; return true; }
    ratio = bound > 0 ? (double)(err / bound) : 1e300;
    if (err <= bound) return true;
    char s[120]; snprintf(s, 120, "error bound %.4Lg exceeds %.4Lg", err, bound); why = s; return false;
  }
  }
  return false;
}
static TM atan2Ref(const Job &j, Q x0, Q H, L a, L b) { // angle for signs/swap of the job, ratio variable in [a,b]
  TM t = refTM(R_ATAN, x0, H, a, b); Q pi = M_PIq;
  if (j.maxIsY) { t = tneg(t); t.c[0] += pi / 2; }
  if (j.sx_ < 0) { t = tneg(t); t.c[0] += pi; }
  if (j.sy_ < 0 && !(j.zero == 1 && j.sx_ < 0)) t = tneg(t);
  t.rem += 0x1p-100L; if (a == 0 && b == 0 && j.sx_ > 0 && !j.maxIsY) t.rem = 0;
  if (!j.maxIsY && j.sx_ > 0) t.rem -= 0x1p-100L, t.rem = std::max(t.rem, (L)0);
  return t;
}
static BoxOut runBox(const Job &j, const Box &bx, bool point) {
  BoxOut out; out.ok = true;
  C.D = j.D; C.fma = j.fma; C.dec.clear(); C.cnt.clear();
  CC_SELF = j.self;
  Q x0, H; L a, b;
  if (j.ratio) { a = bx.a; b = bx.b; x0 = ((Q)a + (Q)b) / 2; H = (Q)b - x0; }
  else { a = x_of(j, bx.lo); b = x_of(j, bx.hi); x0 = ((Q)a + (Q)b) / 2; Q h1 = (Q)b - x0, h2 = x0 - (Q)a; H = (h1 > h2 ? h1 : h2); if (H != 0) H *= (1 + 0x1p-100Q); }
  std::map<int, TM> refs;
  bool special = !j.ratio && (!std::isfinite((double)a) || !std::isfinite((double)b));
  try {
    for (auto &c : j.cl) {
      if (c.k == Clause::ACC && !special) { if (!refs.count(c.ref)) refs[c.ref] = refTM(c.ref, x0, H, a, b); }
      if (c.k == Clause::ATAN2) refs[1000] = atan2Ref(j, x0, H, a, b);
    }
  } catch (NeedSplit &e) { out.ok = false; out.why = "reference: " + e.m; return out; }
  while (true) {
    C.dpos = 0; C.nn = 0; C.flags = 0; C.flagwhere.clear(); C.steps = 0;
    out.paths++;
    if (out.paths > 4096) { out.ok = false; out.why = "too many paths"; return out; }
    Machine m; std::vector<Val> args;
    if (j.ratio) {
      RV.on = !(j.zero); RV.x0 = x0; RV.H = H; RV.a = a; RV.b = b;
      auto mk = [&](int var, int s) { auto p = std::make_shared<FV>(); p->prec = j.prec; p->k = FV::RAT; p->rv = var; p->rs = s; p->lo = s > 0 ? ldexpl(1, emin(j.prec)) : -maxfin(j.prec); p->hi = s > 0 ? maxfin(j.prec) : -ldexpl(1, emin(j.prec)); p->nz = false; return p; };
      FP Y = mk(j.maxIsY ? 2 : 1, j.sy_), X = mk(j.maxIsY ? 1 : 2, j.sx_);
      if (j.zero == 1) Y = fpoint(j.prec, j.sy_ > 0 ? 0.0 : -0.0);
      if (j.zero == 2) X = fpoint(j.prec, j.sx_ > 0 ? 0.0 : -0.0);
      if (j.zero == 3) { Y = fpoint(j.prec, j.sy_ > 0 ? 0.0 : -0.0); X = fpoint(j.prec, j.sx_ > 0 ? 0.0 : -0.0); }
      args = {mkF(Y), mkF(X)};
    } else {
      RV.on = false;
      if (point) args.push_back(mkF(fpoint(j.prec, (double)a)));
      else {
        auto p = std::make_shared<FV>(); p->prec = j.prec; p->k = FV::FIN; p->tm.c[0] = x0; p->tm.c[1] = H; p->lo = a; p->hi = b;
        p->g = a > 0 ? ulpexp(a, j.prec) : b < 0 ? ulpexp(b, j.prec) : emin(j.prec); p->nz = b == 0 && std::signbit((double)b);
        if (a < 0 && b == 0 && !p->nz) p->nz = true;
        args.push_back(mkF(p));
      }
      if (j.extra >= 0) args.push_back(mkI(icst(32, j.extra)));
    }
    bool pathOk = true; std::string why;
    try {
      Val r = m.call(FIDX.at(j.func), args, 0);
      if (r.k != Val::F) throw Unsupported{"result is not a float"};
      FP ret = r.f;
      if (isFin(*ret)) { out.rlo = std::min(out.rlo, ret->lo); out.rhi = std::max(out.rhi, ret->hi); } else if (isPt(*ret) && !std::isnan(ret->pv)) { out.rlo = std::min(out.rlo, (L)ret->pv); out.rhi = std::max(out.rhi, (L)ret->pv); } else out.anyTop = true;
      if (C.flags & j.defmask) { pathOk = false; why = "definedness: " + C.flagwhere; }
      for (auto &c : j.cl) {
        double ra = 0; std::string w2;
        const TM *rc = c.k == Clause::ATAN2 ? &refs[1000] : c.k == Clause::ACC ? &refs[c.ref] : nullptr;
        out.checks++;
        if (!clauseCheck(j, c, ret, x0, H, a, b, w2, ra, rc)) { pathOk = false; why += w2 + "; "; }
        else out.ratio = std::max(out.ratio, ra);
      }
    } catch (NeedSplit &e) { pathOk = false; why = e.m; } catch (Infeasible &) { }
    if (!pathOk) { out.ok = false; out.why = why; return out; }
    // next path
    while (!C.dec.empty() && C.dec.back() + 1 >= C.cnt.back()) { C.dec.pop_back(); C.cnt.pop_back(); }
    if (C.dec.empty()) break;
    C.dec.back()++;
  }
  return out;
}
// concrete run of the compiled function against the contract; returns true if violated
static bool concrete(const Job &j, double x, double yv, double xv, double &ret, std::string &msg, double &ratio, bool undecided = false) {
  if (!SO || j.sym.empty()) return false;
  void *fp = dlsym(SO, j.sym.c_str()); if (!fp) return false;
  if (undecided && (j.defmask & 15)) feclearexcept(FE_ALL_EXCEPT);
  if (j.ratio) ret = j.prec == 53 ? ((double (*)(double, double))fp)(yv, xv) : (double)((float (*)(float, float))fp)((float)yv, (float)xv);
  else if (j.extra >= 0) ret = j.prec == 53 ? ((double (*)(double, unsigned))fp)(x, (unsigned)j.extra) : (double)((float (*)(float, unsigned))fp)((float)x, (unsigned)j.extra);
  else ret = j.prec == 53 ? ((double (*)(double))fp)(x) : (double)((float (*)(float))fp)((float)x);
  if (undecided && (j.defmask & 15)) {
    int ex = fetestexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW);
    bool bad = ((j.defmask & 9) && (ex & FE_INVALID)) || ((j.defmask & 2) && (ex & FE_DIVBYZERO)) || ((j.defmask & 4) && (ex & FE_OVERFLOW));
    if (bad) { char s[200]; if (j.ratio) snprintf(s, 200, "y=%a x=%a: ", yv, xv); else snprintf(s, 200, "x=%a: ", x); msg = s; msg += std::string("raises") + (ex & FE_INVALID ? " INVALID" : "") + (ex & FE_DIVBYZERO ? " DIVBYZERO" : "") + (ex & FE_OVERFLOW ? " OVERFLOW" : ""); return true; }
  }
  for (auto &c : j.cl) {
    char s[400];
    if (c.k == Clause::NANC) { if (!std::isnan(ret)) { snprintf(s, 400, "x=%a: result %a, expected NaN", x, ret); msg = s; return true; } }
    else if (c.k == Clause::BITS) { uint64_t u = j.prec == 53 ? dbits(ret) : fbits((float)ret); if (u != c.bits) { snprintf(s, 400, "x=%a y=%a: result bits %llx, expected %llx", j.ratio ? xv : x, yv, (unsigned long long)u, (unsigned long long)c.bits); msg = s; return true; } }
    else if (c.k == Clause::RANGE) { if (!(ret >= (double)c.lo && ret <= (double)c.hi)) { snprintf(s, 400, "x=%a: result %a outside [%Lg,%Lg]", x, ret, c.lo, c.hi); msg = s; return true; } }
    else if (c.k == Clause::SAMESIGN) { if (!(ret * x > 0) && !(ret != 0 && std::signbit(ret) == std::signbit(x))) { snprintf(s, 400, "x=%a: result %a has the wrong sign", x, ret); msg = s; return true; } }
    else {
      Q f = c.k == Clause::ATAN2 ? atan2q((Q)yv, (Q)xv) : refQ(c.ref, (Q)x);
      if (c.absret) f = fabsq(f);
      Q bd = (Q)c.A + (Q)c.B * fabsq(f); if (c.E != 0) bd += (Q)c.E * fabsq((Q)x) * (1 + f * f);
      Q e = fabsq((c.absret ? fabsq((Q)ret) : (Q)ret) - f);
      if (!std::isfinite(ret) || e > bd * (1 + 1e-12Q)) {
        if (j.ratio) snprintf(s, 400, "y=%a x=%a: result %a, true %a, error %.6g allowed %.6g", yv, xv, ret, (double)f, (double)e, (double)bd);
        else snprintf(s, 400, "x=%a (%.17g): result %a, true %a, error %.6g allowed %.6g", x, x, ret, (double)f, (double)e, (double)bd);
        msg = s; return true;
      }
      if (bd > 0) ratio = std::max(ratio, (double)(e / bd));
    }
  }
  return false;
}

static std::vector<Box> STACK; static std::mutex SM; static std::condition_variable SCV; static int ACTIVE = 0; static std::atomic<bool> STOP(false);
static uint64_t SEED = 1;
static double T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void worker(int id) {
  std::mt19937_64 rng(SEED * 1000003 + id);
  while (true) {
    Box bx;
    {
      std::unique_lock<std::mutex> lk(SM);
      SCV.wait(lk, [] { return !STACK.empty() || ACTIVE == 0 || STOP; });
      if (STOP || STACK.empty()) { SCV.notify_all(); return; }
      bx = STACK.back(); STACK.pop_back(); ACTIVE++;
    }
    const Job &j = JOBS[bx.job]; JobRes &R = *RES[bx.job];
    std::vector<Box> push; bool skip = false;
    { std::lock_guard<std::mutex> l(R.m); if (R.fcount >= 3 || (R.ucount >= 50)) skip = true; }
    double t1 = now();
    if (!skip && now() - T0 > j.timelimit) { std::lock_guard<std::mutex> l(R.m); R.ucount++; if (R.unres.size() < 20) R.unres.push_back("time limit"); skip = true; }
    if (!skip) {
      bool point = j.ratio ? false : bx.lo == bx.hi;
      BoxOut o; bool uns = false; std::string um;
      try { o = runBox(j, bx, point); } catch (Unsupported &e) { uns = true; um = e.m; o.ok = false; o.why = "unsupported: " + e.m; }
      // concrete samples
      std::vector<std::string> cf; double cr = 0, cx = 0; long ns = 0, cont = 0; std::vector<std::string> unc;
      if (SO) {
        int n = point ? 1 : j.samples + (o.ok ? 0 : 1);
        for (int k = 0; k < n; k++) {
          double x = 0, y = 0, xx = 0, ret = 0; std::string msg;
          if (!j.ratio) {
            int64_t s = point ? bx.lo : k == 0 ? bx.lo : k == 1 ? bx.hi : bx.lo + (int64_t)(rng() % ((uint64_t)(bx.hi - bx.lo) + 1));
            x = x_of(j, s);
          } else {
            // pick magnitudes with the requested ratio
            double big, small; int e = j.prec == 53 ? 1000 : 120;
            int ex = (int)(rng() % (2 * e)) - e; big = ldexp(1 + (rng() >> 12) * 0x1p-52, ex); double r = bx.a + (bx.b - bx.a) * ((rng() >> 11) * 0x1p-53);
            if (j.prec == 24) big = (float)big;
            small = big * r; if (j.prec == 24) small = (float)small;
            if (!std::isfinite(small)) continue;
            if (j.zero == 0 && small == 0) continue;
            double ym = j.maxIsY ? big : small, xm = j.maxIsY ? small : big;
            if (j.zero == 1) ym = 0; if (j.zero == 2) xm = 0; if (j.zero == 3) ym = xm = 0;
            y = j.sy_ * ym; xx = j.sx_ * xm;
          }
          double rr = 0; ns++;
          bool bad = concrete(j, x, y, xx, ret, msg, rr, !o.ok);
          if (rr > cr) { cr = rr; cx = x; }
          if (bad) { cf.push_back(msg); break; }
          if (o.ok && !uns && !o.anyTop && !j.fma && !j.ratio) { if (ret >= (double)o.rlo && ret <= (double)o.rhi) cont++; else { char s[200]; snprintf(s, 200, "x=%a result %a not in [%La,%La]", x, ret, o.rlo, o.rhi); unc.push_back(s); } }
        }
      }
      std::lock_guard<std::mutex> l(R.m);
      R.boxes++; R.paths += o.paths; R.clauseChecks += o.checks; R.samples += ns; R.contained += cont; R.maxsyms = std::max(R.maxsyms, (long)C.nn);
      for (auto &s : unc) if (R.uncontained.size() < 5) R.uncontained.push_back(s);
      if (cr > R.sworst) { R.sworst = cr; char s[60]; snprintf(s, 60, "%a", cx); R.sworstAt = s; }
      if (!cf.empty()) { R.fcount++; if (R.fails.size() < 5) R.fails.push_back("concrete " + cf[0]); }
      else if (o.ok) {
        R.leaves++; if (point) R.points++;
        if (o.ratio > R.worst) { R.worst = o.ratio; char s[120]; if (j.ratio) snprintf(s, 120, "ratio [%.6g,%.6g]", bx.a, bx.b); else snprintf(s, 120, "[%a,%a]", x_of(j, bx.lo), x_of(j, bx.hi)); R.worstAt = s; }
        if (R.samplesOut.size() < 3 && (R.leaves % 7) == 1) { char s[200]; if (j.ratio) snprintf(s, 200, "ratio [%a,%a] proved, bound ratio %.3f", bx.a, bx.b, o.ratio); else snprintf(s, 200, "[%a,%a] proved on %ld path(s), error <= %.3f of the bound", x_of(j, bx.lo), x_of(j, bx.hi), o.paths, o.ratio); R.samplesOut.push_back(s); }
      } else if (R.ubox.size() < 60 && (uns || point || R.boxes > j.maxboxes || (j.ratio && (j.zero || bx.depth > 60))) && (R.ubox.push_back(bx), false)) {
      } else if (uns) { R.ucount += 50; if (R.unsupported.size() < 5) R.unsupported.push_back(um); }
      else if (point) {
        // the abstract run of a single input failed but the compiled code meets the contract there
        R.ucount++; char s[300]; snprintf(s, 300, "x=%a: %s", x_of(j, bx.lo), o.why.c_str()); R.unres.push_back(s);
      } else if (R.boxes > j.maxboxes) { R.ucount++; char s[300]; snprintf(s, 300, "[%a,%a]: %s (box budget)", x_of(j, bx.lo), x_of(j, bx.hi), o.why.c_str()); R.unres.push_back(s); }
      else if (j.ratio && (j.zero || bx.depth > 60)) { R.ucount++; char s[300]; snprintf(s, 300, "ratio [%a,%a]: %s", bx.a, bx.b, o.why.c_str()); R.unres.push_back(s); }
      else {
        R.splits++;
        Box l = bx, r = bx; l.depth++; r.depth++;
        if (j.ratio) { double mid = bx.a + (bx.b - bx.a) / 2; l.b = mid; r.a = mid; }
        else {
          // bisect by value inside a binade, by ordinal otherwise
          int64_t mid = bx.lo + (bx.hi - bx.lo) / 2;
          l.hi = mid; r.lo = mid + 1;
        }
        push.push_back(r); push.push_back(l);
      }
      R.cputime += now() - t1;
    }
    {
      std::unique_lock<std::mutex> lk(SM);
      for (auto &b : push) STACK.push_back(b);
      ACTIVE--;
      SCV.notify_all();
    }
  }
}
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static std::string jarr(const std::vector<std::string> &v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += "\"" + jesc(v[i]) + "\""; } return o + "]"; }

static L rdL(const std::string &s) { // number or hex float, or k*2^e
  return strtold(s.c_str(), nullptr);
}
int main(int argc, char **argv) {
  // usage: tmprove bytecode jobs so seed threads
  if (argc < 6) { fprintf(stderr, "usage\n"); return 2; }
  try {
    loadProgram(argv[1]);
    std::ifstream in(argv[2]); std::string ln; Job cur;
    while (std::getline(in, ln)) {
      std::istringstream is(ln); std::string w; is >> w; if (w.empty() || w[0] == '#') continue;
      if (w == "job") { cur = Job(); is >> cur.name; }
      else if (w == "func") is >> cur.func;
      else if (w == "sym") is >> cur.sym;
      else if (w == "self") is >> cur.self;
      else if (w == "prec") is >> cur.prec;
      else if (w == "deg") is >> cur.D;
      else if (w == "fma") is >> cur.fma;
      else if (w == "extra") is >> cur.extra;
      else if (w == "defmask") is >> cur.defmask;
      else if (w == "maxboxes") is >> cur.maxboxes;
      else if (w == "timelimit") is >> cur.timelimit;
      else if (w == "samples") is >> cur.samples;
      else if (w == "acc") { Clause c; c.k = Clause::ACC; std::string r, a, b, e; is >> r >> a >> b >> e; c.ref = refByName(r); c.A = rdL(a); c.B = rdL(b); c.E = rdL(e); cur.cl.push_back(c); }
      else if (w == "atan2") { Clause c; c.k = Clause::ATAN2; std::string a, b; int ab = 0; is >> a >> b >> ab; c.absret = ab; c.A = rdL(a); c.B = rdL(b); cur.cl.push_back(c); }
      else if (w == "nan") { Clause c; c.k = Clause::NANC; cur.cl.push_back(c); }
      else if (w == "bits") { Clause c; c.k = Clause::BITS; std::string a; is >> a; c.bits = strtoull(a.c_str(), 0, 16); cur.cl.push_back(c); }
      else if (w == "range") { Clause c; c.k = Clause::RANGE; std::string a, b; is >> a >> b; c.lo = rdL(a); c.hi = rdL(b); cur.cl.push_back(c); }
      else if (w == "samesign") { Clause c; c.k = Clause::SAMESIGN; cur.cl.push_back(c); }
      else if (w == "dom") { std::string a, b; is >> a >> b; double x = strtod(a.c_str(), 0), y = strtod(b.c_str(), 0); Piece p; if (cur.prec == 53) { p.lo = ordD(x); p.hi = ordD(y); } else { p.lo = ordF((float)x); p.hi = ordF((float)y); } if (p.lo > p.hi) throw Unsupported{"empty domain " + ln}; cur.dom.push_back(p); }
      else if (w == "dombits") { std::string a, b; is >> a >> b; uint64_t x = strtoull(a.c_str(), 0, 16), y = strtoull(b.c_str(), 0, 16); Piece p; if (cur.prec == 53) { p.lo = ordD(bitsd(x)); p.hi = ordD(bitsd(y)); } else { p.lo = ordF(bitsf((uint32_t)x)); p.hi = ordF(bitsf((uint32_t)y)); } cur.dom.push_back(p); }
      else if (w == "ratio") { cur.ratio = true; is >> cur.sx_ >> cur.sy_ >> cur.maxIsY >> cur.zero; }
      else if (w == "rdom") { std::string a, b; is >> a >> b; cur.rdom.push_back({strtod(a.c_str(), 0), strtod(b.c_str(), 0)}); }
      else if (w == "contract") { std::string f, r, a, b, l, h; CalleeContract c; is >> f >> r >> a >> b >> c.prec >> c.narg >> l >> h; c.ref = refByName(r); c.A = (double)rdL(a); c.B = (double)rdL(b); c.dlo = rdL(l); c.dhi = rdL(h); CC[f] = c; }
      else if (w == "endjob") JOBS.push_back(cur);
      else throw Unsupported{"job line " + ln};
    }
    if (std::string(argv[3]) != "-") { SO = dlopen(argv[3], RTLD_NOW); if (!SO) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 2; } }
    SEED = strtoull(argv[4], 0, 10); int nt = atoi(argv[5]);
    T0 = now();
    for (size_t k = 0; k < JOBS.size(); k++) {
      RES.emplace_back(new JobRes()); Job &j = JOBS[k];
      if (!FIDX.count(j.func)) throw Unsupported{"function " + j.func + " not found"};
      if (SO && !j.sym.empty() && !dlsym(SO, j.sym.c_str())) throw Unsupported{"symbol " + j.sym};
      for (auto &p : j.dom) {
        // one initial box per binade
        int sh = j.prec == 53 ? 52 : 23; int64_t lo = p.lo;
        while (lo <= p.hi) {
          int64_t hi = lo >= 0 ? ((((lo >> sh) + 1) << sh) - 1) : -((((-(lo + 1)) >> sh) << sh) + 1);
          if (hi > p.hi) hi = p.hi;
          if (lo <= 0 && hi >= 0 && false) hi = lo;
          STACK.push_back({(int)k, lo, hi, 0, 0, 0}); lo = hi + 1; if (hi == INT64_MAX) break;
        }
      }
      for (auto &p : j.rdom) STACK.push_back({(int)k, 0, 0, p.first, p.second, 0});
    }
    std::shuffle(STACK.begin(), STACK.end(), std::mt19937_64(SEED));
    std::vector<std::thread> th; for (int i = 0; i < nt; i++) th.emplace_back(worker, i);
    for (auto &t : th) t.join();
    // undecided obligations: look for a concrete failing input of the compiled code
    for (size_t k = 0; k < JOBS.size(); k++) {
      JobRes &R = *RES[k]; const Job &j = JOBS[k];
      if (!(R.ucount > 0 && R.fcount == 0 && SO)) continue;
      if (j.ratio) { // pairs of special magnitudes (constants of the program, small integers, powers of two) and random ones
        static std::vector<double> sp;
        if (sp.empty()) {
          for (int i = 1; i <= 16; i++) sp.push_back(i);
          for (auto &f : FNS) for (auto &b : f.b) for (auto &i : b) for (auto &o : i.a) if (o.k == Op::CONST) { Val v = constVal(o.g); if (v.k == Val::F && isPt(*v.f) && std::isfinite(v.f->pv) && v.f->pv != 0) sp.push_back(fabs(v.f->pv)); }
        }
        std::mt19937_64 rng(SEED + 77 * k); int eM = j.prec == 53 ? 1023 : 127, em = j.prec == 53 ? -1074 : -149;
        auto mag = [&]() -> double {
          double v; uint64_t r = rng();
          if (r % 3 == 0) v = sp[(r >> 8) % sp.size()]; else v = ldexp(r % 3 == 1 ? 1.0 : 1 + (rng() >> 12) * 0x1p-52, em + (int)((r >> 8) % (eM - em + 1)));
          if (j.prec == 24) v = (float)v;
          int st = (int)((r >> 40) % 5); if (st < 2) v = j.prec == 53 ? nextafter(v, st ? 0.0 : INFINITY) : (double)nextafterf((float)v, st ? 0.0f : INFINITY);
          return v; };
        for (long t = 0; t < 400000; t++) {
          double a = mag(), b = (rng() & 3) ? mag() : a * (1 + (rng() >> 12) * 0x1p-52);
          if (j.prec == 24) b = (float)b;
          if (!std::isfinite(a) || !std::isfinite(b) || a == 0 || b == 0) continue;
          double big = std::max(a, b), small = std::min(a, b);
          if (j.maxIsY && big == small) continue;
          double ym = j.maxIsY ? big : small, xm = j.maxIsY ? small : big;
          if (j.zero == 1) ym = 0; if (j.zero == 2) xm = 0; if (j.zero == 3) ym = xm = 0;
          double ret = 0, rr = 0; std::string msg; R.samples++;
          if (concrete(j, 0, j.sy_ * ym, j.sx_ * xm, ret, msg, rr, true)) { R.fcount++; R.fails.push_back("concrete " + msg); break; }
        }
        continue;
      }
      std::mt19937_64 rng(SEED + 77 * k); std::vector<Piece> ps; for (auto &b : R.ubox) ps.push_back({b.lo, b.hi});
      for (auto &b : R.ubox) { int64_t w = (b.hi - b.lo) + 1000; ps.push_back({b.lo - w, b.hi + w}); }
      for (auto &d : j.dom) ps.push_back(d);
      for (size_t q = 0; q < ps.size() && R.fcount == 0; q++) {
        bool whole = q >= 2 * R.ubox.size(); long n = whole ? 400000 : 5000;
        for (long t = 0; t < n; t++) {
          int64_t lo = ps[q].lo, hi = ps[q].hi; uint64_t w = (uint64_t)(hi - lo);
          int64_t o = w == ~0ull ? (int64_t)rng() : lo + (int64_t)(rng() % (w + 1)); bool in = false;
          for (auto &d : j.dom) if (o >= d.lo && o <= d.hi) in = true;
          if (!in) continue;
          double ret = 0, rr = 0; std::string msg; R.samples++;
          if (concrete(j, x_of(j, o), 0, 0, ret, msg, rr, true)) { R.fcount++; R.fails.push_back("concrete " + msg); break; }
        }
      }
    }
  } catch (Unsupported &e) { printf("{\"error\":\"%s\"}\n", jesc(e.m).c_str()); return 2; }
  printf("{\"wall\":%.3f,\"jobs\":[", now() - T0);
  for (size_t k = 0; k < JOBS.size(); k++) {
    JobRes &r = *RES[k]; Job &j = JOBS[k];
    printf("%s\n{\"name\":\"%s\",\"func\":\"%s\",\"boxes\":%ld,\"leaves\":%ld,\"points\":%ld,\"splits\":%ld,\"paths\":%ld,\"checks\":%ld,\"worst\":%.6g,\"worstAt\":\"%s\",\"samples\":%ld,\"contained\":%ld,\"sworst\":%.6g,\"sworstAt\":\"%s\",\"cpu\":%.3f,\"fails\":%s,\"fcount\":%ld,\"unres\":%s,\"ucount\":%ld,\"unsupported\":%s,\"uncontained\":%s,\"examples\":%s}", k ? "," : "", j.name.c_str(), j.func.c_str(), r.boxes, r.leaves, r.points, r.splits, r.paths, r.clauseChecks, r.worst, r.worstAt.c_str(), r.samples, r.contained, r.sworst, r.sworstAt.c_str(), r.cputime, jarr(r.fails).c_str(), r.fcount, jarr(r.unres).c_str(), r.ucount, jarr(r.unsupported).c_str(), jarr(r.uncontained).c_str(), jarr(r.samplesOut).c_str());
  }
  printf("\n]}\n");
  return 0;
}
