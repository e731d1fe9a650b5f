// Library contracts for texts of a known number of characters: a string is its characters, a string stream the text written so far.
#ifndef VTTEXT_H
#define VTTEXT_H
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <limits>
#include <type_traits>
#include <utility>
#include <new>
#include <initializer_list>
#include <bits/stl_algobase.h>
#include <bits/stl_iterator.h>
#include <functional>

extern "C" void vt_assert(bool);        // precondition of a library function

namespace std {

class string {
  enum { CAP = 160 };
  char d[CAP];
  size_t n;
  void vt_put(char c) { vt_assert(n < CAP); d[n++] = c; }
public:
  typedef char* iterator;
  typedef const char* const_iterator;
  typedef size_t size_type;
  typedef char value_type;
  static const size_t npos = (size_t)-1;
  string() : n(0) {}
  string(const char* s) : n(0) { append(s); }
  string(const char* s, size_t k) : n(0) { for (size_t i = 0; i < k; ++i) vt_put(s[i]); }
  string(size_t k, char c) : n(0) { append(k, c); }
  string(const string& o) : n(0) { append(o); }
  string(const string& o, size_t p, size_t k = npos) : n(0) { append(o, p, k); }
  string(const char* a, const char* b) : n(0) { for (; a != b; ++a) vt_put(*a); }
  string& operator=(const string& o) { if (this != &o) { n = 0; append(o); } return *this; }
  string& operator=(const char* s) { n = 0; return append(s); }
  string& assign(const string& o) { return *this = o; }
  string& append(const char* s) { for (; *s; ++s) vt_put(*s); return *this; }
  string& append(const char* s, size_t k) { for (size_t i = 0; i < k; ++i) vt_put(s[i]); return *this; }
  string& append(const string& o) { for (size_t i = 0, k = o.n; i < k; ++i) vt_put(o.d[i]); return *this; }
  string& append(const string& o, size_t p, size_t k = npos) { vt_assert(p <= o.n); for (size_t i = p; i < o.n && i - p < k; ++i) vt_put(o.d[i]); return *this; }
  string& append(size_t k, char c) { for (size_t i = 0; i < k; ++i) vt_put(c); return *this; }
  string& append(const char* a, const char* b) { for (; a != b; ++a) vt_put(*a); return *this; }
  string& insert(size_t p, const string& o) { vt_assert(p <= n); string t(*this, p); n = p; append(o); append(t); return *this; }
  string& insert(size_t p, const char* s) { return insert(p, string(s)); }
  string& insert(size_t p, size_t k, char c) { return insert(p, string(k, c)); }
  string& erase(size_t p = 0, size_t k = npos) { vt_assert(p <= n); string t; if (k < n - p) t.append(*this, p + k); n = p; append(t); return *this; }
  void push_back(char c) { vt_put(c); }
  void clear() { n = 0; }
  void reserve(size_t = 0) {}
  void resize(size_t k, char c = 0) { while (n < k) vt_put(c); n = k; }
  string& operator+=(const string& o) { return append(o); }
  string& operator+=(const char* s) { return append(s); }
  string& operator+=(char c) { vt_put(c); return *this; }
  string substr(size_t p = 0, size_t k = npos) const { return string(*this, p, k); }
  size_t size() const { return n; }
  size_t length() const { return n; }
  bool empty() const { return n == 0; }
  char& operator[](size_t i) { vt_assert(i < n); return d[i]; }
  const char& operator[](size_t i) const { vt_assert(i < n); return d[i]; }
  char& at(size_t i) { vt_assert(i < n); return d[i]; }
  const char& at(size_t i) const { vt_assert(i < n); return d[i]; }
  const char* data() const { return d; }
  const char* c_str() const { return d; }
  iterator begin() { return d; }
  iterator end() { return d + n; }
  const_iterator begin() const { return d; }
  const_iterator end() const { return d + n; }
  const_iterator cbegin() const { return d; }
  const_iterator cend() const { return d + n; }
};
inline string operator+(const string& a, const string& b) { string r(a); return r.append(b); }
inline string operator+(const string& a, const char* b) { string r(a); return r.append(b); }
inline string operator+(const char* a, const string& b) { string r(a); return r.append(b); }
inline string operator+(const string& a, char b) { string r(a); r.push_back(b); return r; }
inline string operator+(char a, const string& b) { string r(1, a); return r.append(b); }

template<size_t N> class bitset {
  static_assert(N <= 64, "bitset");
  uint64_t v;
public:
  bitset(unsigned long long x = 0) : v(N < 64 ? x & ((1ull << (N & 63)) - 1) : x) {}
  bool test(size_t i) const { vt_assert(i < N); return v >> i & 1; }
  bool operator[](size_t i) const { vt_assert(i < N); return v >> i & 1; }
  size_t size() const { return N; }
  unsigned long long to_ullong() const { return v; }
  unsigned long to_ulong() const { return v; }
  string to_string(char zero = '0', char one = '1') const { string s; for (size_t i = N; i-- > 0;) s.push_back((char)(zero ^ ((zero ^ one) & -(int)(v >> i & 1)))); return s; }
};

struct vt_manip {};
class ostream;
class ostream {
public:
  string vt_s;
  ostream& vt_digit(unsigned long v) { vt_assert(v < 10); vt_s.push_back((char)('0' + v)); return *this; }
  ostream& operator<<(char c) { vt_s.push_back(c); return *this; }
  ostream& operator<<(const char* s) { vt_s.append(s); return *this; }
  ostream& operator<<(const string& s) { vt_s.append(s); return *this; }
  ostream& operator<<(bool v) { return vt_digit(v); }
  ostream& operator<<(int v) { return vt_digit((unsigned long)v); }
  ostream& operator<<(unsigned v) { return vt_digit(v); }
  ostream& operator<<(long v) { return vt_digit((unsigned long)v); }
  ostream& operator<<(unsigned long v) { return vt_digit(v); }
  ostream& operator<<(unsigned long long v) { return vt_digit(v); }
  template<size_t N> ostream& operator<<(const bitset<N>& b) { vt_s.append(b.to_string()); return *this; }
  ostream& operator<<(ostream& (*f)(ostream&)) { return f(*this); }
  ostream& operator<<(vt_manip) { return *this; }
  ostream& operator<<(double) { vt_assert(false); return *this; }
  ostream& put(char c) { return *this << c; }
  ostream& write(const char* s, size_t k) { vt_s.append(s, k); return *this; }
  int precision(int) { return 6; }
  ostream& flush() { return *this; }
};
inline ostream& endl(ostream& o) { return o << '\n'; }
inline ostream& flush(ostream& o) { return o; }
inline vt_manip setprecision(int) { return vt_manip(); }
class ostringstream : public ostream {
public:
  ostringstream() {}
  ostringstream(const string& s) { (void)s; }
  string str() const { return vt_s; }
  void str(const string& s) { vt_s = s; }
};
typedef ostringstream stringstream;
extern ostream cout, cerr;

}
#endif
