// Symbolic reals: a `rational` object whose numerator is 2^900+id stands for expression id (a polynomial
// over the symbolic inputs). Compiled natively; nrational is the repository's own class under another name
// (it does the exact arithmetic of the polynomial coefficients).
#define rational nrational
#define make_rational_from_str n_make_rational_from_str
#define use_boost_1024_int n_use_boost_1024_int
#include "helpers/rational.h"
#undef rational
#undef make_rational_from_str
#undef use_boost_1024_int
#include <boost/multiprecision/cpp_int.hpp>
#include "rt.h"
bool sx_narrow = false;
#include <cstring>
#include <map>
typedef nrational R;
typedef boost::multiprecision::cpp_rational Q;
typedef std::vector<u32> Mono; // sorted variable expression ids
typedef std::map<Mono, Q> Poly;
static std::vector<Poly> *P;
static const rational_t &magic() { static rational_t m = rational_t(1) << 900; return m; }
static bool qzero(const Q &q) { return q == 0; }
static Q toQ(const R &r) { return Q(boost::multiprecision::cpp_int(r.numerator()), boost::multiprecision::cpp_int(r.denominator())); }
static long handle(const R &q) {
  rational_t n = q.numerator();
  if (n < magic()) return -1;
  rational_t d = n - magic();
  if (d >= rational_t(1) << 60) return -1;
  return d.convert_to<long>();
}
static Poly get(const void *p) {
  const R &q = *(const R *)p; long h = handle(q);
  if (h >= 0) return (*P)[h];
  Poly r; if (q.numerator() != 0) r[{}] = toQ(q); return r;
}
static void put(void *p, const Poly &v) {
  __sx_clear(p, sizeof(R));
  if (v.empty()) { *(R *)p = R(0); return; }
  if (v.size() == 1 && v.begin()->first.empty()) { const Q &q = v.begin()->second; *(R *)p = R(rational_t(numerator(q)), rational_t(denominator(q))); return; }
  P->push_back(v);
  *(R *)p = R(magic() + (long)(P->size() - 1));
}
static std::string qs(const Q &q) { return q.str(); }
static u32 expr(const Poly &p) {
  u32 r = 0;
  for (auto &[m, c] : p) {
    u32 t = 0;
    for (u32 v : m) t = t ? erop(O_RMUL, t, v) : v;
    bool one = c == 1;
    if (!t) t = ereal(qs(c), W_REAL); else if (!one) t = erop(O_RMUL, ereal(qs(c), W_REAL), t);
    r = r ? erop(O_RADD, r, t) : t;
  }
  return r ? r : ereal("0", W_REAL);
}
static u32 eqzero(Poly p) { // expression of p == 0
  if (p.empty()) return ec(1, 1);
  if (p.size() == 1 && p.begin()->first.empty()) return ec(0, 1);
  Q lead = p.begin()->second; for (auto &[m, c] : p) c /= lead; // canonical scale
  if (p.size() == 1) { // a monomial is zero iff one of its variables is
    u32 r = ec(0, 1); u32 z = ereal("0", W_REAL); u32 last = 0;
    for (u32 v : p.begin()->first) if (v != last) { r = ebin(O_OR, r, erop(O_REQ, v, z)); last = v; }
    return r;
  }
  return erop(O_REQ, expr(p), ereal("0", W_REAL));
}
static Poly sub(const Poly &a, const Poly &b, bool add = false) {
  Poly r = a;
  for (auto &[m, c] : b) { auto it = r.find(m); if (it == r.end()) r[m] = add ? c : Q(-c); else { if (add) it->second += c; else it->second -= c; if (qzero(it->second)) r.erase(it); } }
  return r;
}
static Poly mul(const Poly &a, const Poly &b) {
  Poly r;
  for (auto &[m, c] : a) for (auto &[n, d] : b) {
    Mono k = m; k.insert(k.end(), n.begin(), n.end()); std::sort(k.begin(), k.end());
    Q e = c; e *= d;
    auto it = r.find(k); if (it == r.end()) r[k] = e; else { it->second += e; if (qzero(it->second)) r.erase(it); }
  }
  return r;
}
extern "C" {
void sx_extrange(u64, u64);
u32 sxr_is(const void *a, const void *b) {
  if (!P || P->empty()) return 0;
  __sx_retfn = nullptr;
  long ha = handle(*(const R *)a), hb = handle(*(const R *)b);
  if (ha < 0 && hb < 0) return 0;
  if (ha < 0) sx_extrange((u64)a, sizeof(R));
  if (hb < 0) sx_extrange((u64)b, sizeof(R));
  return 1;
}
void sxr_cmpd(u32 op, void *a, const void *b) {
  Poly x = get(a), y = get(b), r;
  switch (op) {
  case 0: r = sub(x, y, true); break;
  case 1: r = sub(x, y); break;
  case 2: r = mul(x, y); break;
  default:
    if (y.size() == 1 && y.begin()->first.empty()) { Q q = y.begin()->second; r = x; for (auto &[m, c] : r) c /= q; }
    else {
      if (y.empty() || sx_decide_expr(eqzero(y))) { // the real code computes with a zero denominator: outside the claim
        sh->approx++; sx_leave(); }
      Poly d = sub(x, y); if (d.empty()) { r[{}] = Q(1); break; }
      u32 v = sx_newvar("quotient", W_REAL); Poly pv; pv[{v}] = Q(1);
      sx_assume_expr(eqzero(sub(mul(pv, y), x)));
      r = pv;
    }
  }
  put(a, r);
}
bool sx_req(const void *a, const void *b) { // shadow-returning
  u32 e = eqzero(sub(get(a), get(b)));
  __sx_ret[0] = e; __sx_retfn = (void *)sx_req; __sx_target = nullptr; return false;
}
bool sx_rne(const void *a, const void *b) {
  u32 e = enot(eqzero(sub(get(a), get(b))));
  __sx_ret[0] = e; __sx_retfn = (void *)sx_rne; __sx_target = nullptr; return false;
}
void sxr_neg(void *ret, const void *a) { Poly p = get(a); for (auto &[m, c] : p) c = -c; put(ret, p); }
void sxr_numerator(void *ret, const void *a) { // only its sign is meaningful: 0 or +-2^900
  Poly p = get(a); u32 e = expr(p), z = ereal("0", W_REAL);
  __sx_clear(ret, sizeof(rational_t));
  new (ret) rational_t(0);
  sh->approx++;
  if (sx_decide_expr(eqzero(p))) return;
  if (sx_decide_expr(erop(O_RLT, e, z))) *(rational_t *)ret = -magic(); else *(rational_t *)ret = magic();
}
void sxr_unsupported(const void *) { sh->approx++; sh->incomplete++; sx_leave(); }
void sxr_make(void *r, const char *name) {
  if (!P) P = new std::vector<Poly>();
  u32 v = sx_newvar(name, W_REAL); Poly p; p[{v}] = Q(1); put(r, p);
}
void sxr_note(const char *) {}
}
