// C16: text forms read back. INDEX/TENSOR: any string is accepted exactly when it is in the grammar, with the denoted
// object as the result. PRINT: what is printed for an index, tensor, term or expression is read as an equal object.
#include "common.h"
#include "algebra/term.h"
#include "algebra/expression.h"
#include <stdexcept>
#ifndef LO
#define LO 0
#define HI 0
#endif
#ifndef LEN
#define LEN 4
#endif
#ifndef SPACES
#define SPACES "ovb"
#endif
#ifndef HOLE
#define HOLE 3
#endif
#ifndef NL
#define NL 2
#endif
#ifndef NP
#define NP 2
#endif
#ifndef ND
#define ND 2
#endif
#ifndef NT
#define NT 2
#endif
#ifndef MAXT
#define MAXT 1
#endif
#ifndef MAXO
#define MAXO 1
#endif
#ifndef MAXI
#define MAXI 1
#endif
#ifndef MAXN
#define MAXN 15
#endif
static int NS() { return orbital_subspaces->num_spaces(); }
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool same(const Index &a, const Index &b) { return a.space() == b.space() && a.pos() == b.pos(); }
static bool space_of(char c, int &s) { for (s = 0; s < NS(); s++) if (std::string(SPACES)[s] == c) return true; return false; }
// letter, optional underscore, digits
static bool p_index(const std::string &s, size_t i, size_t e, Index &r) {
  int sp; if (i >= e || !space_of(s[i], sp)) return false;
  i++; if (i < e && s[i] == '_') i++;
  if (i >= e) return false;
  int v = 0; for (; i < e; i++) { if (!dig(s[i])) return false; v = v * 10 + (s[i] - '0'); }
  r = Index(sp, v); return true;
}
// comma separated, blanks around each; a trailing comma is ignored
static bool p_indices(const std::string &s, size_t i, size_t e, std::vector<Index> &r) {
  if (i == e) return true;
  while (true) {
    size_t j = i; while (j < e && s[j] != ',') j++;
    size_t a = i, b = j; while (a < b && blank(s[a])) a++; while (b > a && blank(s[b - 1])) b--;
    Index x; if (!p_index(s, a, b, x)) return false;
    r.push_back(x);
    if (j >= e || j + 1 == e) return true;
    i = j + 1;
  }
}
static std::string bytes(const char *n, int len) { std::string s; for (int i = 0; i < len; i++) s += (char)sx_byte((n + std::to_string(i)).c_str()); return s; }
static void t_index() {
  std::string s = bytes("c", sx_pick("len", 0, LEN)); Index want, got; bool ok = p_index(s, 0, s.size(), want), acc = true;
  try { got = make_index_from_str(s); } catch (const std::exception &) { acc = false; }
  sx_assert(acc == ok, ok ? "index rejected" : "text that is no index accepted");
  if (ok) sx_assert(same(got, want), "index misread");
  sx_reach(ok ? "index accepted" : "index rejected");
}
static void t_tensor() {
  // label ^{ upper }_{ lower } with arbitrary bytes in the holes; one byte of the fixed text may be replaced too
  std::string lab = bytes("l", sx_pick("nl", 0, 1)), up = bytes("u", sx_pick("nu", 0, HOLE)), lo = bytes("w", sx_pick("nw", 0, HOLE - (int)up.size()));
  bool ok = true; std::vector<Index> U, L;
  for (char c : up) sx_assume(c != '}' && c != '{'); for (char c : lo) sx_assume(c != '}' && c != '{'); // keep the text unambiguous
  if (lab.empty()) ok = false; for (char c : lab) { if (c == '^') sx_stop_path(); if (!alpha(c) && !dig(c)) ok = false; }
  std::string f[3] = {"^{", "}_{", "}"}; int k = sx_pick("broken", -1, 5);
  if (k >= 0) { int a = k < 2 ? 0 : k < 5 ? 1 : 2, b = k - (a == 0 ? 0 : a == 1 ? 2 : 5); char c = sx_byte("x"), o = f[a][b]; sx_assume(c != o); f[a][b] = c; if (ok || true) ok = false; }
  if (k < 0) { if (ok) ok = p_indices(up, 0, up.size(), U); if (ok) ok = p_indices(lo, 0, lo.size(), L); }
  std::string s = lab + f[0] + up + f[1] + lo + f[2]; bool acc = true;
  SymmetryType sym = sx_bool("sym") ? SymmetryType::Symmetric : SymmetryType::Antisymmetric;
  Tensor t("", {}, {}, sym);
  try { t = make_tensor_from_str(s, sym); } catch (const std::exception &) { acc = false; }
  sx_assert(acc == ok, ok ? "tensor rejected" : "text that is no tensor accepted");
  if (ok) {
    sx_assert(t.label() == lab, "tensor label misread"); sx_assert(t.symmetry() == sym, "symmetry changed");
    auto u = t.upper(), l = t.lower(); sx_assert(u.size() == U.size() && l.size() == L.size(), "wrong number of indices read");
    for (size_t i = 0; i < u.size(); i++) sx_assert(same(u[i], U[i]), "upper index misread"); for (size_t i = 0; i < l.size(); i++) sx_assert(same(l[i], L[i]), "lower index misread");
    sx_reach(U.empty() && L.empty() ? "scalar tensor accepted" : "tensor accepted");
  } else sx_reach("tensor rejected");
}
static Index idx(const std::string &n) {
#ifdef WIDE
  return Index(sx_pick(n + "s", 0, NS() - 1), sx_int(n + "p", 0, WIDE));
#else
  static const int P[] = {0, 1, 7, 10, 123}; return Index(sx_pick(n + "s", 0, NS() - 1), P[sx_pick(n + "p", 0, NP - 1)]);
#endif
}
static void t_index_rt() { Index a = idx("i"); sx_assert(same(make_index_from_str(a.str()), a), "printed index is read as another one"); sx_reach("index round trip"); }
static Tensor ten(const std::string &n, int maxi, bool sym = false) {
  static const char *L[] = {"T", "lambda2", "H1b", "a"}; std::vector<Index> lo, up; int l = sx_pick(n + "nl", 0, maxi), u = sx_pick(n + "nu", 0, maxi);
  for (int i = 0; i < l; i++) lo.push_back(idx(n + "l" + std::to_string(i)));
  for (int i = 0; i < u; i++) up.push_back(idx(n + "u" + std::to_string(i)));
  return Tensor(L[sx_pick(n + "L", 0, NL - 1)], lo, up, sym && sx_bool((n + "sym").c_str()) ? SymmetryType::Symmetric : SymmetryType::Antisymmetric);
}
static void t_tensor_rt() {
  Tensor t = ten("t", 2, true), r = make_tensor_from_str(t.str(), t.symmetry());
  sx_assert(r == t && r.symmetry() == t.symmetry(), "printed tensor is read as another one"); sx_reach("tensor round trip");
}
static SQOperator op(const std::string &n) { return SQOperator(sx_bool((n + "t").c_str()) ? SQOperatorType::Creation : SQOperatorType::Annihilation, idx(n)); }
static SymbolicTerm term(const std::string &n, int maxt, int maxo, int maxi) {
  std::vector<Tensor> t; std::vector<SQOperator> o; int nt = sx_pick(n + "nt", 0, maxt), no = sx_pick(n + "no", 0, maxo);
  for (int i = 0; i < nt; i++) t.push_back(ten(n + "t" + std::to_string(i), maxi));
  for (int i = 0; i < no; i++) o.push_back(op(n + "o" + std::to_string(i)));
  return SymbolicTerm(no > 0 && sx_bool((n + "no?").c_str()), o, t);
}
static rational coeff(const std::string &n) {
  static const int D[] = {1, 2, 3, 12}; int k = sx_pick(n + "d", 0, ND - 1);
#ifdef COEFDIG // an integer of up to COEFDIG digits, each symbolic
  long long v = 0; int w = sx_pick(n + "digits", 1, COEFDIG); bool neg = sx_bool((n + "neg").c_str()); std::string t;
  for (int i = 0; i < w; i++) { int c = sx_int(n + "c" + std::to_string(i), i == 0, 9); v = v * 10 + c; t.push_back((char)('0' + c)); }
  if (neg) { v = -v; t = "-" + t; }
#ifdef SX_SHIM
  boost::multiprecision::sx_decimals().push_back({v, t}); // the decimal form of v is known
#endif
  long long d = k == 0 ? 1 : k == 1 ? 7 : 2; if (d != 1) sx_assume(v % d != 0);
  return rational(rational_t(v), rational_t(d));
#elif defined COEFS
  static const int C[] = {1, -1, 2, -12, 7, 10, -3}; return rational(C[sx_pick(n + "n", 0, COEFS - 1)], D[k]);
#else
  return rational(sx_int(n + "n", -MAXN, MAXN), D[k]);
#endif
}
static bool fields(const SymbolicTerm &a, const SymbolicTerm &b) {
  auto at = a.tensors(), bt = b.tensors(); auto ao = a.ops(), bo = b.ops();
  if (at.size() != bt.size() || ao.size() != bo.size() || a.normal_ordered() != b.normal_ordered()) return false;
  for (size_t i = 0; i < at.size(); i++) if (!(at[i] == bt[i])) return false;
  for (size_t i = 0; i < ao.size(); i++) if (ao[i].is_creation() != bo[i].is_creation() || !same(ao[i].index(), bo[i].index())) return false;
  return true;
}
static void t_term_rt() {
  SymbolicTerm s = term("t", MAXT, MAXO, MAXI); rational c = coeff("c"); sx_assume(c != rational(0));
  Term t(c, s); std::string p = t.str(); sxr_note(p.c_str());
  Expression e = make_expression(p, SymmetryType::Antisymmetric);
  sx_assert(e.size() == 1, "printed term is not read as one term");
  const auto &[r, f] = *e.terms().begin();
  sx_assert(fields(r, s), "printed term is read as another term"); sx_assert(f == c, "printed term is read with another coefficient");
  sx_reach(s.normal_ordered() ? "normal-ordered term round trip" : "term round trip");
}
static void t_expr_rt() {
  Expression e; int n = sx_pick("terms", 0, NT);
  for (int i = 0; i < n; i++) { std::string k = "t" + std::to_string(i); rational c = coeff(k + "c"); sx_assume(c != rational(0)); e.add(term(k, MAXT, MAXO, MAXI), c); }
  std::string p = e.str(); sxr_note(p.c_str());
  Expression r; size_t i = 0;
  while (i < p.size()) { size_t j = p.find('\n', i); if (j == std::string::npos) j = p.size(); r += make_expression(p.substr(i, j - i), SymmetryType::Antisymmetric); i = j + 1; }
  sx_assert(r.size() == e.size(), "printed expression is read with another number of terms");
  for (const auto &[t, c] : e.terms()) { auto it = r.terms().find(t); bool f = it != r.terms().end(); sx_assert(f, "a printed term is not read back"); sx_assert(fields(it->first, t), "a printed term is read as another term"); sx_assert(it->second == c, "a printed coefficient is read as another one"); }
  sx_reach(n == 0 ? "zero round trip" : e.size() > 1 ? "sum round trip" : "single round trip");
}
static void t_blank() { // blank text is the empty sum, and blanks around a term change nothing
  std::string a, b; int n = sx_pick("n", 0, 2), m = sx_pick("m", 0, 1); static const char B[] = {' ', '\t', '\n', '\v', '\f', '\r'};
  for (int i = 0; i < n; i++) a += B[sx_pick("a" + std::to_string(i), 0, 5)];
  for (int i = 0; i < m; i++) b += B[sx_pick("b" + std::to_string(i), 0, 5)];
  if (sx_bool("nothing else")) { Expression e = make_expression(a + b, SymmetryType::Antisymmetric); sx_assert(e.size() == 0, "blank text is read as a term"); sx_reach("blank"); return; }
  Expression e = make_expression(a + "-3/2 T^{o0}_{v0}" + b, SymmetryType::Antisymmetric); sx_assert(e.size() == 1 && e.terms().begin()->second == rational(-3, 2), "blanks around a term change it"); sx_reach("blank around");
}
int sx_main() {
  setup_spaces(SPACES);
  switch (sx_pick("what", LO, HI)) { case 0: t_index(); break; case 1: t_tensor(); break; case 2: t_index_rt(); break; case 3: t_tensor_rt(); break; case 4: t_term_rt(); break; case 6: t_blank(); break; default: t_expr_rt(); }
  return 0;
}
