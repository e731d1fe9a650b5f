// Library contracts: stand-ins for the parts of the C++ standard library the diagnostics use.
// Containers of numbers are unbounded arrays, strings are opaque values, streams are sequences of tokens.
#ifndef VTSTD_H
#define VTSTD_H
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <limits>
#include <type_traits>
#include <utility>
#include <tuple>
#include <new>
#include <initializer_list>
#include <bits/stl_algobase.h>
#include <bits/stl_iterator.h>
#include <functional>

extern "C" {
void* vt_array(uint64_t elem_size);                              // fresh unbounded array
void* vt_cells(uint64_t bytes);                                  // fresh object of known size
void* vt_copy(const void* src, uint64_t n, uint64_t elem_size);  // fresh array with the same first n elements
uint64_t vt_unknown();                                           // arbitrary value
void vt_assert(bool);                                            // precondition of a library function
uint64_t vs_lit(const char*);                                    // string handles
uint64_t vs_sub(uint64_t, uint64_t pos, uint64_t n);
uint64_t vs_cat(uint64_t, uint64_t);
uint64_t vs_char(uint64_t);
bool vs_eq(uint64_t, uint64_t);
bool vs_lt(uint64_t, uint64_t);
uint64_t vs_find(uint64_t, uint64_t, uint64_t from);
uint64_t vs_rfind(uint64_t, uint64_t);
uint64_t vs_len(uint64_t);
uint64_t vs_at(uint64_t, uint64_t);
uint64_t vs_newlines(uint64_t);                                  // line ends in a constant string; 0 for an opaque one
uint64_t vs_endsnl(uint64_t);
long double vt_draw_ld(uint64_t seed, uint64_t index, long double lo, long double hi);
double vt_draw_d(uint64_t seed, uint64_t index, double lo, double hi);
float vt_draw_f(uint64_t seed, uint64_t index, float lo, float hi);
uint64_t vt_draw_u(uint64_t seed, uint64_t index);
}

namespace std {

// ------------------------------------------------------------------ string
class string {
  uint64_t h;
public:
  uint64_t vt_k, vt_v, vt_e;      // text that is a single number: kind of the token, value, and whether blanks follow; kind 0 otherwise
  struct vt_raw { uint64_t h; };
  static const size_t npos = (size_t)-1;
  string() : h(vs_lit("")), vt_k(0), vt_v(0), vt_e(0) {}
  string(vt_raw r) : h(r.h), vt_k(0), vt_v(0), vt_e(0) {}
  string(const char* s) : h(vs_lit(s)), vt_k(0), vt_v(0), vt_e(0) {}
  string(const string& o) : h(o.h), vt_k(o.vt_k), vt_v(o.vt_v), vt_e(o.vt_e) {}
  string(const string& o, size_t p, size_t n = npos) : h(vs_sub(o.h, p, n)), vt_k(0), vt_v(0), vt_e(0) {}
  string& operator=(const string& o) { h = o.h; vt_k = o.vt_k; vt_v = o.vt_v; vt_e = o.vt_e; return *this; }
  string& operator=(const char* s) { h = vs_lit(s); vt_k = 0; return *this; }
  uint64_t vt_h() const { return h; }
  static string vt_of(uint64_t x) { vt_raw r = {x}; return string(r); }
  string substr(size_t p = 0, size_t n = npos) const { return vt_of(vs_sub(h, p, n)); }
  size_t find(char c, size_t from = 0) const { return vs_find(h, vs_char((unsigned char)c), from); }
  size_t find(const char* s, size_t from = 0) const { return vs_find(h, vs_lit(s), from); }
  size_t find(const string& s, size_t from = 0) const { return vs_find(h, s.h, from); }
  size_t find_first_of(char c, size_t from = 0) const { return find(c, from); }
  size_t find_first_of(const char* c, size_t from = 0) const { vt_assert(c[0] && !c[1]); return find(c, from); }
  size_t rfind(char c) const { return vs_rfind(h, vs_char((unsigned char)c)); }
  size_t find_last_of(char c) const { return rfind(c); }
  size_t size() const { return vs_len(h); }
  size_t length() const { return vs_len(h); }
  bool empty() const { return vs_eq(h, vs_lit("")); }
  char operator[](size_t i) const { return (char)vs_at(h, i); }
  int compare(const string& o) const { return vs_eq(h, o.h) ? 0 : vs_lt(h, o.h) ? -1 : 1; }
  int compare(size_t p, size_t n, const string& o) const { return substr(p, n).compare(o); }
  string& operator+=(const string& o) { h = vs_cat(h, o.h); vt_k = 0; return *this; }
  string& operator+=(char c) { h = vs_cat(h, vs_char((unsigned char)c)); if (vt_k && c == ' ') vt_e = 1; else vt_k = 0; return *this; }
  string& append(const string& o) { return *this += o; }
  string& assign(const string& o) { return *this = o; }
  void clear() { h = vs_lit(""); vt_k = 0; }
  void swap(string& o) { string t(o); o = *this; *this = t; }
};
inline string operator+(const string& a, const string& b) { return string::vt_of(vs_cat(a.vt_h(), b.vt_h())); }
inline string operator+(const string& a, char b) { return string::vt_of(vs_cat(a.vt_h(), vs_char((unsigned char)b))); }
inline bool operator==(const string& a, const string& b) { return vs_eq(a.vt_h(), b.vt_h()); }
inline bool operator!=(const string& a, const string& b) { return !vs_eq(a.vt_h(), b.vt_h()); }
inline bool operator<(const string& a, const string& b) { return vs_lt(a.vt_h(), b.vt_h()); }

// ------------------------------------------------------------------ vector
enum { vt_room = 96 };
template<class T, bool num = is_arithmetic<T>::value> struct vt_store;
template<class T> struct vt_store<T, true> {
  static T* fresh() { return (T*)vt_array(sizeof(T)); }
  static T* copy(const T* p, size_t n) { return (T*)vt_copy(p, n, sizeof(T)); }
  static void put(T* at, const T& v) { *at = v; }
};
template<class T> struct vt_store<T, false> {
  static T* fresh() { return (T*)vt_cells(sizeof(T) * vt_room); }
  static T* copy(const T* p, size_t n) { T* r = fresh(); for (size_t i = 0; i < n; ++i) ::new ((void*)(r + i)) T(p[i]); return r; }
  template<class U> static void put(T* at, U&& v) { ::new ((void*)at) T(static_cast<U&&>(v)); }
};

template<class T> class vector {
  T* b;
  size_t n;
  typedef vt_store<T> st;
  template<class It> void take(It f, It l, true_type) { b = st::copy(f, l - f); n = l - f; }
  template<class It> void take(It f, It l, false_type) { b = st::fresh(); insert(end(), f, l); }
public:
  typedef T value_type; typedef T& reference; typedef const T& const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type;
  typedef T* iterator; typedef const T* const_iterator; typedef T* pointer; typedef const T* const_pointer;
  typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  struct vt_raw { T* p; size_t n; };
  vector() : b(st::fresh()), n(0) {}
  vector(vt_raw r) : b(r.p), n(r.n) {}
  explicit vector(size_t m) : b(st::fresh()), n(0) { resize(m); }
  vector(size_t m, const T& v) : b(st::fresh()), n(0) { resize(m, v); }
  template<class It, class = typename enable_if<!is_arithmetic<It>::value>::type> vector(It f, It l) : b(0), n(0) { take(f, l, integral_constant<bool, is_arithmetic<T>::value && (is_same<It, T*>::value || is_same<It, const T*>::value)>()); }
  vector(initializer_list<T> l) : b(st::fresh()), n(0) { for (const T* p = l.begin(); p != l.end(); ++p) push_back(*p); }
  vector(const vector& o) : b(st::copy(o.b, o.n)), n(o.n) {}
  vector(vector&& o) : b(o.b), n(o.n) { o.b = st::fresh(); o.n = 0; }
  vector& operator=(const vector& o) { if (this != &o) { b = st::copy(o.b, o.n); n = o.n; } return *this; }
  vector& operator=(vector&& o) { if (this != &o) { b = o.b; n = o.n; o.b = st::fresh(); o.n = 0; } return *this; }
  ~vector() {}
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  size_t capacity() const { return n + vt_unknown() % 4096; }
  size_t max_size() const { return (size_t)-1 / sizeof(T) / 2; }
  void reserve(size_t m) { vt_assert(m <= max_size()); }
  void shrink_to_fit() {}
  void clear() { n = 0; }
  void push_back(const T& v) { st::put(b + n, v); ++n; }
  template<class... A> void emplace_back(A&&... a) { st::put(b + n, T(static_cast<A&&>(a)...)); ++n; }
  void pop_back() { vt_assert(n > 0); --n; }
  void resize(size_t m) { while (n < m) push_back(T()); n = m; }
  void resize(size_t m, const T& v) { while (n < m) push_back(v); n = m; }
  void assign(size_t m, const T& v) { clear(); resize(m, v); }
  template<class It, class = typename enable_if<!is_arithmetic<It>::value>::type> void assign(It f, It l) { b = st::fresh(); n = 0; insert(end(), f, l); }
  template<class It> void insert(const T* at, It f, It l) { vt_assert(at == b + n); for (; f != l; ++f) push_back(*f); }
  void swap(vector& o) { T* p = b; b = o.b; o.b = p; size_t m = n; n = o.n; o.n = m; }
  T& operator[](size_t i) { return b[i]; }
  const T& operator[](size_t i) const { return b[i]; }
  T& at(size_t i) { vt_assert(i < n); return b[i]; }
  const T& at(size_t i) const { vt_assert(i < n); return b[i]; }
  T& front() { return b[0]; }
  const T& front() const { return b[0]; }
  T& back() { return b[n - 1]; }
  const T& back() const { return b[n - 1]; }
  T* data() { return b; }
  const T* data() const { return b; }
  iterator begin() { return b; }
  iterator end() { return b + n; }
  const_iterator begin() const { return b; }
  const_iterator end() const { return b + n; }
  const_iterator cbegin() const { return b; }
  const_iterator cend() const { return b + n; }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
};

// ------------------------------------------------------------------ map: association list of known size
template<class K, class V> class map {
public:
  typedef std::pair<const K, V> value_type; typedef value_type* iterator; typedef const value_type* const_iterator;
  typedef K key_type; typedef V mapped_type; typedef size_t size_type;
private:
  value_type* b;
  size_t n;
public:
  map() : b((value_type*)vt_cells(sizeof(value_type) * vt_room)), n(0) {}
  map(const map& o) : b((value_type*)vt_cells(sizeof(value_type) * vt_room)), n(0) { for (size_t i = 0; i < o.n; ++i) insert(o.b[i]); }
  iterator begin() { return b; }
  iterator end() { return b + n; }
  const_iterator begin() const { return b; }
  const_iterator end() const { return b + n; }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  void clear() { n = 0; }
  iterator find(const K& k) { for (size_t i = 0; i < n; ++i) if (b[i].first == k) return b + i; return b + n; }
  const_iterator find(const K& k) const { for (size_t i = 0; i < n; ++i) if (b[i].first == k) return b + i; return b + n; }
  size_t count(const K& k) const { return find(k) != end(); }
  V& operator[](const K& k) { iterator i = find(k); if (i != end()) return i->second; return insert(value_type(k, V())).first->second; }
  V& at(const K& k) { iterator i = find(k); vt_assert(i != end()); return i->second; }
  template<class P> std::pair<iterator, bool> insert(const P& p) {
    iterator i = find(p.first); if (i != end()) return std::pair<iterator, bool>(i, false);
    ::new ((void*)(b + n)) value_type(p.first, p.second); ++n; return std::pair<iterator, bool>(b + n - 1, true); }
  template<class... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(value_type(static_cast<A&&>(a)...)); }
};
template<class K, class V> using unordered_map = map<K, V>;

// ------------------------------------------------------------------ streams
// A token is a maximal piece of text without white space.
enum { vt_none = 0, vt_text = 1, vt_hex = 2, vt_hex0x = 3, vt_dec = 4, vt_fp64 = 5, vt_fp32 = 6, vt_broken = 7 };
struct vt_file {               // what a file contains: header lines, leading tokens, then records of ncol tokens
  uint64_t lines, hdr, pre, ncol, nrec;     // ncol 99: what follows the leading tokens is not recorded
  uint64_t ipre, rec, col, late;
  uint64_t prev[8], prek[8];
  uint64_t* colv[8];
  unsigned char* kinds[8];
  uint64_t bad;
};

class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef unsigned seekdir;
  static const fmtflags dec = 1, hex = 2, oct = 4, basefield = 7, fixed = 8, scientific = 16, floatfield = 24, left = 32, right = 64,
    internal = 128, adjustfield = 224, showbase = 256, boolalpha = 512, showpoint = 1024, showpos = 2048, skipws = 4096, uppercase = 8192, unitbuf = 16384;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode in = 1, out = 2, app = 4, trunc = 8, binary = 16, ate = 32;
  fmtflags vt_fl; iostate vt_st; long vt_prec, vt_w; unsigned char vt_fillc;
  ios_base() : vt_fl(dec | skipws), vt_st(0), vt_prec(6), vt_w(0), vt_fillc(' ') {}
  fmtflags flags() const { return vt_fl; }
  fmtflags flags(fmtflags f) { fmtflags o = vt_fl; vt_fl = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = vt_fl; vt_fl |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = vt_fl; vt_fl = (vt_fl & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { vt_fl &= ~f; }
  long precision() const { return vt_prec; }
  long precision(long p) { long o = vt_prec; vt_prec = p; return o; }
  long width() const { return vt_w; }
  long width(long p) { long o = vt_w; vt_w = p; return o; }
  char fill() const { return vt_fillc; }
  char fill(char c) { char o = vt_fillc; vt_fillc = c; return o; }
  bool good() const { return vt_st == 0; }
  bool eof() const { return vt_st & eofbit; }
  bool fail() const { return vt_st & (failbit | badbit); }
  bool bad() const { return vt_st & badbit; }
  iostate rdstate() const { return vt_st; }
  void clear(iostate s = goodbit) { vt_st = s; }
  void setstate(iostate s) { vt_st |= s; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  static bool sync_with_stdio(bool = true) { return true; }
};
typedef ios_base ios;
typedef long streamsize; typedef long streamoff;
struct streambuf { vt_file* f; };

inline ios_base& hex(ios_base& s) { s.setf(ios_base::hex, ios_base::basefield); return s; }
inline ios_base& dec(ios_base& s) { s.setf(ios_base::dec, ios_base::basefield); return s; }
inline ios_base& oct(ios_base& s) { s.setf(ios_base::oct, ios_base::basefield); return s; }
inline ios_base& fixed(ios_base& s) { s.setf(ios_base::fixed, ios_base::floatfield); return s; }
inline ios_base& scientific(ios_base& s) { s.setf(ios_base::scientific, ios_base::floatfield); return s; }
inline ios_base& left(ios_base& s) { s.setf(ios_base::left, ios_base::adjustfield); return s; }
inline ios_base& right(ios_base& s) { s.setf(ios_base::right, ios_base::adjustfield); return s; }
inline ios_base& internal(ios_base& s) { s.setf(ios_base::internal, ios_base::adjustfield); return s; }
inline ios_base& showbase(ios_base& s) { s.setf(ios_base::showbase); return s; }
inline ios_base& noshowbase(ios_base& s) { s.unsetf(ios_base::showbase); return s; }
inline ios_base& boolalpha(ios_base& s) { s.setf(ios_base::boolalpha); return s; }

// one file per program run: the one named in the harness
struct vt_disk { static vt_file* file; };
extern "C" vt_file* vt_thefile();

class ostream : public ios_base {
public:
  vt_file* vt_f;                  // null: console, nothing is recorded
  uint64_t vt_pk, vt_pv, vt_ps;   // pending token: kind, value, prefix state (0 nothing, 1 "0", 2 "0x", 3 anything else)
  uint64_t vt_mem;                // text kept in memory: 1 nothing or one token so far, 2 blanks follow, 3 more than that
  ostream(vt_file* f = 0) : vt_f(f), vt_pk(0), vt_pv(0), vt_ps(0), vt_mem(0) {}
  bool vt_off() { if (vt_mem == 2) vt_mem = 3; return !vt_f && !vt_mem; }
  void vt_flush() {
    if (vt_mem) { if (vt_mem == 1 && (vt_pk || vt_ps)) vt_mem = 2; else if (vt_mem == 1) vt_mem = 3; return; }
    if (!vt_f || (vt_pk == vt_none && vt_ps == 0)) { vt_ps = 0; return; }
    uint64_t k = vt_pk ? vt_pk : (uint64_t)vt_text, v = vt_pv;
    vt_pk = 0; vt_pv = 0; vt_ps = 0;
    vt_file* f = vt_f;
    if (f->lines < f->hdr) return;
    if (f->ipre < f->pre) { f->prek[f->ipre] = k; f->prev[f->ipre] = v; if (++f->ipre == f->pre && f->ncol == 99) vt_f = 0; return; }
    if (f->ncol == 0) { ++f->late; return; }
    f->colv[f->col][f->rec] = v; f->kinds[f->col][f->rec] = (unsigned char)k;
    if (++f->col == f->ncol) { f->col = 0; ++f->rec; }
  }
  void vt_c(char c) {
    if (c == ' ' || c == '\t') { vt_flush(); return; }
    if (vt_off()) return;
    if (c == '\n') { vt_flush(); if (vt_f && vt_f->lines < vt_f->hdr) ++vt_f->lines; return; }
    if (vt_pk != vt_none) { vt_pk = vt_broken; return; }
    if (vt_ps == 0 && c == '0') vt_ps = 1;
    else if (vt_ps == 1 && (c == 'x' || c == 'X')) vt_ps = 2;
    else vt_ps = 3;
  }
  void vt_str(const char* s) { if (vt_f || vt_mem) for (; *s; ++s) vt_c(*s); vt_w = 0; }
  void vt_num(uint64_t v, uint64_t k) {
    if (vt_off()) { vt_w = 0; return; }
    if (vt_w > 0 && vt_fillc == '0' && ((vt_fl & adjustfield) == left || (k == vt_hex && (vt_fl & showbase) && (vt_fl & adjustfield) != internal))) { vt_pk = vt_broken; vt_w = 0; return; }
    if (k == vt_hex && (vt_fl & showbase)) k = vt_hex + (uint64_t)(v != 0);      // the library writes no prefix for zero
    if (vt_w > 0 && vt_fillc != '0') { if (vt_ps != 0 || vt_pk != 0) { vt_pk = vt_broken; vt_w = 0; return; } }
    if (vt_w > 0 && vt_fillc == '0' && k != vt_hex && k != vt_dec) { vt_pk = vt_broken; vt_w = 0; return; }
    vt_w = 0;
    vt_tok(v, k);
  }
  void vt_tok(uint64_t v, uint64_t k) {
    if (vt_pk != vt_none) { vt_pk = vt_broken; return; }
    if (vt_ps == 0) vt_pk = k;
    else if (vt_ps == 2 && k == vt_hex) vt_pk = vt_hex0x;
    else { vt_pk = vt_broken; return; }
    vt_pv = v; vt_ps = 0;
  }
  // unsigned reading of a value of w bits, as printed in the current base
  void vt_int(uint64_t bits, uint64_t sext) {
    if ((vt_fl & basefield) == hex) vt_num(bits, vt_hex);
    else if ((vt_fl & basefield) == oct) vt_num(vt_unknown(), vt_broken);
    else vt_num(sext, vt_dec);
  }
  ostream& operator<<(bool v) { vt_int(v, v); return *this; }
  ostream& operator<<(short v) { vt_int((uint16_t)v, (uint64_t)(int64_t)v); return *this; }
  ostream& operator<<(unsigned short v) { vt_int(v, v); return *this; }
  ostream& operator<<(int v) { vt_int((uint32_t)v, (uint64_t)(int64_t)v); return *this; }
  ostream& operator<<(unsigned v) { vt_int(v, v); return *this; }
  ostream& operator<<(long v) { vt_int((uint64_t)v, (uint64_t)v); return *this; }
  ostream& operator<<(unsigned long v) { vt_int(v, v); return *this; }
  ostream& operator<<(long long v) { vt_int((uint64_t)v, (uint64_t)v); return *this; }
  ostream& operator<<(unsigned long long v) { vt_int(v, v); return *this; }
  ostream& operator<<(double v) { uint64_t b; __builtin_memcpy(&b, &v, 8); vt_num(b, vt_fp64); return *this; }
  ostream& operator<<(float v) { uint32_t b; __builtin_memcpy(&b, &v, 4); vt_num(b, vt_fp32); return *this; }
  ostream& operator<<(long double) { vt_num(vt_unknown(), vt_broken); return *this; }
  ostream& operator<<(const void*) { vt_num(vt_unknown(), vt_broken); return *this; }
  ostream& operator<<(streambuf*) { return *this; }
  ostream& operator<<(ostream& (*m)(ostream&)) { return m(*this); }
  ostream& operator<<(ios_base& (*m)(ios_base&)) { m(*this); return *this; }
  ostream& put(char c) { vt_c(c); return *this; }
  ostream& write(const char* s, long k) { for (long i = 0; i < k; ++i) vt_c(s[i]); return *this; }
  ostream& flush() { return *this; }
  streambuf* rdbuf() { return 0; }
};
inline ostream& operator<<(ostream& o, const char* s) { o.vt_str(s); return o; }
inline ostream& operator<<(ostream& o, char c) { o.vt_w = 0; o.vt_c(c); return o; }
inline ostream& operator<<(ostream& o, signed char c) { o.vt_w = 0; o.vt_c((char)c); return o; }
inline ostream& operator<<(ostream& o, unsigned char c) { o.vt_w = 0; o.vt_c((char)c); return o; }
inline ostream& operator<<(ostream& o, const string& s) {   // strings only occur in header lines
  if (s.vt_k) { if (!o.vt_off()) { if (o.vt_w > 0 && (o.vt_ps || o.vt_pk || o.vt_fillc != ' ')) o.vt_pk = vt_broken; o.vt_tok(s.vt_v, s.vt_k); } o.vt_w = 0; if (s.vt_e) o.vt_c(' '); return o; }
  o.vt_w = 0;
  if (o.vt_off()) return o;
  if (o.vt_mem) { o.vt_mem = 3; return o; }
  uint64_t n = vs_newlines(s.vt_h());
  if (n) { o.vt_flush(); if (o.vt_f && o.vt_f->lines < o.vt_f->hdr) o.vt_f->lines += n; if (!vs_endsnl(s.vt_h())) o.vt_ps = 3; }
  else o.vt_ps = 3;
  return o;
}
inline ostream& endl(ostream& o) { o.vt_c('\n'); return o; }
inline ostream& flush(ostream& o) { return o; }
inline ostream& ends(ostream& o) { return o; }

class istream : public ios_base {
public:
  vt_file* vt_f;
  uint64_t vt_l, vt_ip, vt_r, vt_cl;
  streambuf vt_sb;
  istream(vt_file* f = 0) : vt_f(f), vt_l(0), vt_ip(0), vt_r(0), vt_cl(0) {}
  uint64_t vt_kind, vt_val;
  bool vt_next() {                // next token into vt_kind, vt_val
    if (fail()) { setstate(failbit); return false; }
    vt_file* f = vt_f;
    if (!f || vt_l != f->hdr) { vt_kind = vt_broken; vt_val = vt_unknown(); return true; }
    if (vt_ip < f->pre) { vt_kind = f->prek[vt_ip]; vt_val = f->prev[vt_ip]; ++vt_ip; return true; }
    if (vt_r >= f->nrec) { setstate(eofbit | failbit); return false; }
    vt_kind = f->kinds[vt_cl][vt_r]; vt_val = f->colv[vt_cl][vt_r];
    if (++vt_cl == f->ncol) { vt_cl = 0; ++vt_r; }
    return true;
  }
  // integer of w bits
  bool vt_rd(uint64_t& v, unsigned w, bool sgn) {
    if (!vt_next()) return false;
    bool h = (vt_fl & basefield) == hex, d = (vt_fl & basefield) == dec;
    if ((h && (vt_kind == vt_hex || vt_kind == vt_hex0x)) || (d && vt_kind == vt_dec)) {
      uint64_t t = vt_val;
      bool fits = true;
      if (d && sgn) fits = (int64_t)t >= -(INT64_C(1) << (w - 1)) && (int64_t)t <= (INT64_C(1) << (w - 1)) - 1;
      else if (w < 64 || sgn) fits = t <= (sgn ? (UINT64_C(1) << (w - 1)) - 1 : (UINT64_C(1) << (w & 63)) - 1);
      if (!fits) { v = vt_unknown(); setstate(failbit); return true; }
      v = t; return true;
    }
    v = vt_unknown(); if (vt_unknown() & 1) setstate(failbit);
    vt_cl = vt_unknown() % 2; return true;     // text read under a different interpretation: nothing is known afterwards
  }
  istream& operator>>(unsigned short& v) { uint64_t t; if (vt_rd(t, 16, false)) v = (unsigned short)t; return *this; }
  istream& operator>>(short& v) { uint64_t t; if (vt_rd(t, 16, true)) v = (short)t; return *this; }
  istream& operator>>(unsigned& v) { uint64_t t; if (vt_rd(t, 32, false)) v = (unsigned)t; return *this; }
  istream& operator>>(int& v) { uint64_t t; if (vt_rd(t, 32, true)) v = (int)t; return *this; }
  istream& operator>>(unsigned long& v) { uint64_t t; if (vt_rd(t, 64, false)) v = t; return *this; }
  istream& operator>>(long& v) { uint64_t t; if (vt_rd(t, 64, true)) v = (long)t; return *this; }
  istream& operator>>(unsigned long long& v) { uint64_t t; if (vt_rd(t, 64, false)) v = t; return *this; }
  istream& operator>>(long long& v) { uint64_t t; if (vt_rd(t, 64, true)) v = (long long)t; return *this; }
  // decimal text of a floating-point value: infinities and NaN are not accepted, and the value is only approximately the written one
  bool vt_rdfp() {
    if (!vt_next()) return false;
    bool fin = vt_kind == vt_fp64 ? ((vt_val >> 52) & 0x7ff) != 0x7ff : vt_kind == vt_fp32 ? ((vt_val >> 23) & 0xff) != 0xff : vt_kind == vt_dec;
    if (!fin) setstate(failbit);
    return true;
  }
  istream& operator>>(double& v) { if (vt_rdfp()) { uint64_t t = vt_unknown(); __builtin_memcpy(&v, &t, 8); } return *this; }
  istream& operator>>(float& v) { if (vt_rdfp()) { uint32_t t = (uint32_t)vt_unknown(); __builtin_memcpy(&v, &t, 4); } return *this; }
  istream& operator>>(string& s) { if (vt_next()) s = string::vt_of(vt_unknown()); return *this; }
  istream& operator>>(ios_base& (*m)(ios_base&)) { m(*this); return *this; }
  streambuf* rdbuf() { return &vt_sb; }
  istream& ignore(long = 1, int = -1) { vt_l = vt_unknown(); return *this; }
};
inline istream& getline(istream& i, string& s) {
  if (i.fail()) return i;
  s = string::vt_of(vt_unknown());
  if (i.vt_ip || i.vt_r || i.vt_cl) i.vt_l = vt_unknown();
  else ++i.vt_l;
  return i;
}

struct vt_setbase { int b; };
inline vt_setbase setbase(int b) { vt_setbase r = {b}; return r; }
inline void vt_sb(ios_base& s, int b) { s.setf(b == 16 ? ios_base::hex : b == 8 ? ios_base::oct : b == 10 ? ios_base::dec : 0u, ios_base::basefield); }
inline ostream& operator<<(ostream& o, vt_setbase m) { vt_sb(o, m.b); return o; }
inline istream& operator>>(istream& o, vt_setbase m) { vt_sb(o, m.b); return o; }
struct vt_setw { long n; };
inline vt_setw setw(int n) { vt_setw r = {n}; return r; }
inline ostream& operator<<(ostream& o, vt_setw m) { o.vt_w = m.n; return o; }
inline istream& operator>>(istream& o, vt_setw) { return o; }
struct vt_setp { long n; };
inline vt_setp setprecision(int n) { vt_setp r = {n}; return r; }
inline ostream& operator<<(ostream& o, vt_setp m) { o.vt_prec = m.n; return o; }
struct vt_setfill { char c; };
inline vt_setfill setfill(char c) { vt_setfill r = {c}; return r; }
inline ostream& operator<<(ostream& o, vt_setfill m) { o.vt_fillc = m.c; return o; }
struct vt_flags { unsigned f, on; };
inline vt_flags setiosflags(unsigned f) { vt_flags r = {f, 1}; return r; }
inline vt_flags resetiosflags(unsigned f) { vt_flags r = {f, 0}; return r; }
inline ostream& operator<<(ostream& o, vt_flags m) { if (m.on) o.vt_fl |= m.f; else o.vt_fl &= ~m.f; return o; }
inline istream& operator>>(istream& o, vt_flags m) { if (m.on) o.vt_fl |= m.f; else o.vt_fl &= ~m.f; return o; }

class ofstream : public ostream {
public:
  ofstream() : ostream(0) {}
  explicit ofstream(const string&, openmode = out) : ostream(vt_thefile()) {}
  explicit ofstream(const char*, openmode = out) : ostream(vt_thefile()) {}
  ~ofstream() { vt_flush(); }
  void open(const string&, openmode = out) { vt_f = vt_thefile(); }
  void close() { vt_flush(); }
  bool is_open() const { return vt_f != 0; }
};
class ifstream : public istream {
public:
  ifstream() : istream(0) {}
  explicit ifstream(const string&, openmode = in) : istream(vt_thefile()) {}
  explicit ifstream(const char*, openmode = in) : istream(vt_thefile()) {}
  void open(const string&, openmode = in) { vt_f = vt_thefile(); }
  void close() {}
  bool is_open() const { return vt_f != 0; }
};
class ostringstream : public ostream {
public:
  ostringstream() : ostream(0) { vt_mem = 1; }
  string str() const { string r = string::vt_of(vt_unknown()); if (vt_mem < 3 && vt_ps == 0) { r.vt_k = vt_pk; r.vt_v = vt_pv; r.vt_e = vt_mem == 2; } return r; }
};
static ostream cout(0), cerr(0), clog(0);

// ------------------------------------------------------------------ random numbers: library contract of the distribution
template<class U> struct vt_engine {
  typedef U result_type;
  uint64_t seed_, index;
  explicit vt_engine(uint64_t s = 5489u) : seed_((U)s), index(0) {}
  void seed(uint64_t s) { seed_ = (U)s; index = 0; }
  U operator()() { return (U)vt_draw_u(seed_, index++); }
  static constexpr U min() { return 0; }
  static constexpr U max() { return (U)-1; }
  void discard(unsigned long long n) { index += n; }
};
typedef vt_engine<uint_fast64_t> mt19937_64;
typedef vt_engine<uint32_t> mt19937;
typedef mt19937_64 default_random_engine;
struct random_device { typedef unsigned result_type; unsigned operator()() { return (unsigned)vt_unknown(); } };
inline long double vt_draw(uint64_t s, uint64_t i, long double a, long double b) { return vt_draw_ld(s, i, a, b); }
inline double vt_draw(uint64_t s, uint64_t i, double a, double b) { return vt_draw_d(s, i, a, b); }
inline float vt_draw(uint64_t s, uint64_t i, float a, float b) { return vt_draw_f(s, i, a, b); }
template<class R = double> class uniform_real_distribution {
  R lo, hi;
public:
  typedef R result_type;
  explicit uniform_real_distribution(R a = 0, R b = 1) : lo(a), hi(b) {}
  template<class E> R operator()(E& e) { return vt_draw(e.seed_, e.index++, lo, hi); }
  R a() const { return lo; }
  R b() const { return hi; }
  R min() const { return lo; }
  R max() const { return hi; }
  void reset() {}
};

// ------------------------------------------------------------------ bitset (only printed by the diagnostics)
template<size_t N> struct bitset { uint64_t v; bitset(uint64_t x = 0) : v(x) {} string to_string() const { return string::vt_of(vt_unknown()); } };

}
#endif
