// Stand-in for boost::multiprecision::int1024_t in the symbolic build of rational.cc: a machine integer. The checks bound
// the operands so that no value leaves 64 bits; replay and witness runs use the real boost type.
#pragma once
#include <string>
#include <vector>
#include <ostream>
#include <type_traits>
extern "C" long long sx_gcd(long long, long long);
extern "C" { bool sx_known(long long); int sx_int(const char *, int, int); void sx_assume(bool); }
namespace boost { namespace multiprecision {
inline std::vector<std::pair<long long, std::string>> &sx_decimals() { static std::vector<std::pair<long long, std::string>> v; return v; }
struct int1024_t {
  long long v;
  int1024_t() : v(0) {}
  template <class T, class = std::enable_if_t<std::is_integral_v<T>>> int1024_t(T x) : v((long long)x) {}
  explicit int1024_t(const char *s) : v(0) { bool n = *s == '-'; if (n) s++; while (*s) v = v * 10 + (*s++ - '0'); if (n) v = -v; }
  explicit int1024_t(const std::string &s) : int1024_t(s.c_str()) {}
  int1024_t &operator+=(const int1024_t &o) { v += o.v; return *this; }
  int1024_t &operator-=(const int1024_t &o) { v -= o.v; return *this; }
  int1024_t &operator*=(const int1024_t &o) { v *= o.v; return *this; }
  int1024_t &operator/=(const int1024_t &o) { v /= o.v; return *this; }
  int1024_t &operator%=(const int1024_t &o) { v %= o.v; return *this; }
  int1024_t operator-() const { int1024_t r; r.v = -v; return r; }
  int1024_t operator+() const { return *this; }
  explicit operator double() const { return (double)v; }
  explicit operator bool() const { return v != 0; }
  template <class T, class = std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>, class = void> explicit operator T() const { return (T)v; }
  template <class T> T convert_to() const { return (T)v; }
  int sign() const { return (v > 0) - (v < 0); }
  std::string str() const {
    if (sx_known(v)) return std::to_string(v);
    for (auto &d : sx_decimals()) { bool e = d.first == v; if (sx_known(e) && e) return d.second; } // built from its digits by the harness
    // a symbolic integer: one path per sign and number of digits; the digits are the unique d_i in 0..9 with |v| = sum d_i 10^i
    static int serial = 0; bool neg = v < 0; unsigned long long a = neg ? -(unsigned long long)v : v, p = 1; int n = 1;
    while (n < 19 && a >= p * 10) { p *= 10; n++; }
    std::string s(neg ? "-" : ""); unsigned long long h = 0; serial++;
    for (int i = 0; i < n; i++) { int d = sx_int(("digit" + std::to_string(serial) + "." + std::to_string(i)).c_str(), 0, 9); h = h * 10 + d; s.push_back((char)('0' + d)); }
    sx_assume(h == a);
    return s;
  }
};
#define SXB(op) inline int1024_t operator op(int1024_t a, const int1024_t &b) { a op##= b; return a; }
SXB(+) SXB(-) SXB(*) SXB(/) SXB(%)
#undef SXB
#define SXC(op) inline bool operator op(const int1024_t &a, const int1024_t &b) { return a.v op b.v; }
SXC(==) SXC(!=) SXC(<) SXC(>) SXC(<=) SXC(>=)
#undef SXC
inline int1024_t abs(const int1024_t &a) { return a.v < 0 ? -a : a; }
inline int1024_t gcd(const int1024_t &a, const int1024_t &b) { return int1024_t(sx_gcd(a.v, b.v)); }
inline int1024_t lcm(const int1024_t &a, const int1024_t &b) { return a.v == 0 || b.v == 0 ? int1024_t(0) : abs(a / gcd(a, b) * b); }
inline int sign(const int1024_t &a) { return a.sign(); }
inline std::ostream &operator<<(std::ostream &o, const int1024_t &a) { return o << a.v; }
typedef int1024_t cpp_int;
} }
