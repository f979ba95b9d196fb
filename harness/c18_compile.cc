// C18: compiled einsum/ambit code denotes the contraction of the equation.
#include "common.h"
#include <cstring>
#include <cstdlib>
#include "algebra/term.h"
#include "algebra/expression.h"
#include "algebra/equation.h"
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI 0
#endif
#ifndef MAXT
#define MAXT 2
#endif
#ifndef MAXL
#define MAXL 1
#endif
#ifndef MAXI
#define MAXI 1
#endif
#ifndef MAXP
#define MAXP 3
#endif
#ifndef NAMES
#define NAMES 4
#endif
#ifndef TOT
#define TOT 3
#endif
#ifndef OCC
#define OCC 3
#endif
static std::string labels; static int left = 100, maxp = 1;
static void registry(int k) {
  typedef std::vector<std::string> V; orbital_subspaces->reset();
  V o, v;
  switch (k) {
    case 0: o = {"i", "j"}; v = {"a", "b"}; break;
    case 1: o = {"b", "a"}; v = {"c"}; break;              // clash with the first free letters
    case 2: o = {"v_{1}", "xx"}; v = {"o_{2}"}; break;     // names that look like other indices
    case 3: o = {}; v = {"1", "o_{0}", "Z"}; break;
  }
  orbital_subspaces->add_space('o', FieldType::Fermion, SpaceType::Occupied, o);
  orbital_subspaces->add_space('v', FieldType::Fermion, SpaceType::Unoccupied, v); labels = "ov";
}
static std::vector<std::string> split_at(const std::string &s, char c) { std::vector<std::string> r(1); for (char x : s) if (x == c) r.push_back(""); else r.back() += x; return r; }
static std::string trim(std::string s) { while (s.size() && s[0] == ' ') s.erase(0, 1); while (s.size() && s.back() == ' ') s.pop_back(); return s; }
static std::string block(const Tensor &t) { std::string r; for (const Index &i : t.upper()) r += labels[i.space()]; for (const Index &i : t.lower()) r += labels[i.space()]; return r; }
static std::vector<Index> all(const Tensor &t) { std::vector<Index> r = t.upper(); for (const Index &i : t.lower()) r.push_back(i); return r; }
static Index idx(const std::string &n) {
  static const int W[] = {2, 12, 102, 112, 1002}; if (maxp < 0) return Index(sx_pick(n + "s", 0, 1), W[sx_pick(n + "p", 0, 4)]); // numbers whose digits overlap
  return Index(sx_int(n + "s", 0, 1), sx_int(n + "p", 0, maxp)); }
static Tensor tensor(const std::string &n, const std::string &label, int maxi) {
  std::vector<Index> up, lo;
  if (left < maxi) maxi = left; int nu = sx_pick(n + "up", 0, maxi); left -= nu; if (left < maxi) maxi = left; int nl = sx_pick(n + "lo", 0, maxi); left -= nl;
  for (int j = nu; j > 0; j--) up.push_back(idx(n + "u" + std::to_string(j)));
  for (int j = nl; j > 0; j--) lo.push_back(idx(n + "l" + std::to_string(j)));
  return Tensor(label, lo, up, SymmetryType::Antisymmetric);
}
static rational coef() {
  static const int n[] = {1, -1, 1, 1, -3, 1, 1000000007}, d[] = {1, 2, 3, 7, 16, 40320, 998244353};
  int k = sx_pick("factor", 0, 6); return rational(n[k], d[k]);
}
static void check_factor(const std::string &s, const rational &f) {
  char *end; double v = strtod(s.c_str(), &end);
  sx_assert(s.size() && *end == 0, "factor is not a number"); sx_assert(v == f.to_double(), "wrong factor");
}
// occurrences in order with the text chosen for them: equal text iff equal index
static void check_names(const std::vector<Index> &ix, const std::vector<std::string> &tx) {
  sx_assert(ix.size() == tx.size(), "wrong number of indices");
  for (size_t i = 0; i < ix.size(); i++) for (size_t j = 0; j < i; j++) {
    bool same = ix[i] == ix[j];
    if (same) sx_assert(tx[i] == tx[j], "one index has two names"); else sx_assert(tx[i] != tx[j], "two indices share a name");
  }
}
static void einsum(const Equation &q, const std::string &s) {
  auto lts = q.lhs().tensors(), rts = q.rhs().tensors(); const Tensor &l = lts[0];
  size_t p = s.find("+="), m = s.find("np.einsum("); sx_assert(p != std::string::npos && m != std::string::npos && p < m, "no assignment of np.einsum");
  sx_assert(trim(s.substr(0, p)) == l.label() + block(l), "wrong left-hand side");
  std::string f = trim(s.substr(p + 2, m - p - 2)); sx_assert(f.size() && f.back() == '*', "no factor"); f.pop_back(); check_factor(trim(f), q.rhs_factor());
  std::string a = s.substr(m + 10); size_t e = a.find('"', 1); sx_assert(a[0] == '"' && e != std::string::npos, "no subscripts");
  std::string sub = a.substr(1, e - 1); size_t g = sub.find("->"); sx_assert(g != std::string::npos, "no output subscripts");
  auto in = split_at(sub.substr(0, g), ','); std::string out = sub.substr(g + 2);
  if (rts.empty()) sx_assert(in.size() == 1 && in[0].empty(), "subscripts without tensors"); else sx_assert(in.size() == rts.size(), "wrong number of operands");
  std::vector<Index> ix; std::vector<std::string> tx; std::string rest = a.substr(e + 1);
  for (size_t k = 0; k < rts.size(); k++) {
    auto i = all(rts[k]); sx_assert(in[k].size() == i.size(), "wrong number of subscripts");
    for (size_t j = 0; j < i.size(); j++) { ix.push_back(i[j]); tx.push_back(std::string(1, in[k][j])); }
    std::string w = "," + rts[k].label() + "[\"" + block(rts[k]) + "\"]";
    sx_assert(rest.compare(0, w.size(), w) == 0, "wrong operand"); rest = rest.substr(w.size());
  }
  sx_assert(rest.compare(0, 10, ",optimize=") == 0 && rest.back() == ')', "wrong end of the call");
  auto i = all(l); sx_assert(out.size() == i.size(), "wrong number of output subscripts");
  for (size_t j = 0; j < i.size(); j++) { ix.push_back(i[j]); tx.push_back(std::string(1, out[j])); }
  check_names(ix, tx);
  for (auto &t : tx) sx_assert((t[0] >= 'a' && t[0] <= 'z') || (t[0] >= 'A' && t[0] <= 'Z'), "a subscript is no letter");
}
static void ambit_tensor(const std::string &s, const Tensor &t, std::vector<Index> &ix, std::vector<std::string> &tx) {
  auto i = all(t); std::string w = t.label();
  if (i.empty()) { sx_assert(s == w, "wrong scalar"); return; }
  sx_assert(s.size() > w.size() + 2 && s.compare(0, w.size() + 1, w + "[") == 0 && s.back() == ']', "wrong tensor");
  auto v = split_at(s.substr(w.size() + 1, s.size() - w.size() - 2), ','); sx_assert(v.size() == i.size(), "wrong number of indices");
  for (size_t j = 0; j < i.size(); j++) { ix.push_back(i[j]); tx.push_back(v[j]); sx_assert(v[j].size() > 1 && v[j][0] == labels[i[j].space()], "index of the wrong space"); }
}
static void ambit(const Equation &q, const std::string &s) {
  auto lts = q.lhs().tensors(), rts = q.rhs().tensors();
  size_t p = s.find(" += "); sx_assert(p != std::string::npos && s.back() == ';', "no assignment");
  std::vector<Index> ix; std::vector<std::string> tx; ambit_tensor(s.substr(0, p), lts[0], ix, tx);
  std::vector<std::string> v; std::string r = s.substr(p + 4, s.size() - p - 5); size_t k;
  while ((k = r.find(" * ")) != std::string::npos) { v.push_back(r.substr(0, k)); r = r.substr(k + 3); } v.push_back(r);
  if (rts.empty() && v.size() == 2 && trim(v[1]).empty()) v.pop_back();
  sx_assert(v.size() == rts.size() + 1, "wrong number of factors"); check_factor(v[0], q.rhs_factor());
  for (size_t i = 0; i < rts.size(); i++) ambit_tensor(v[i + 1], rts[i], ix, tx);
  check_names(ix, tx);
}
int sx_main() {
  switch (sx_pick("test", LO, HI)) {
  case 0: { // all shapes
    bool ein = sx_pick("format", 0, 1); registry(0); left = TOT; maxp = 0;
    SymbolicTerm l, r; l.add(tensor("L", "R", 2)); static const char *tl[] = {"T2", "f", "T2"};
    for (int k = 0, n = sx_pick("tensors", 0, MAXT); k < n; k++) r.add(tensor("T" + std::to_string(k), tl[k], 2));
    Equation q(l, r, rational(1, 3));
    if (ein) einsum(q, q.compile("einsum")); else ambit(q, q.compile("ambit"));
    sx_reach(ein ? "einsum" : "ambit"); break;
  }
  case 1: { // all ways to share indices
    bool ein = sx_pick("format", 0, 1); registry(ein && MAXP >= 0 ? sx_pick("names", 0, NAMES - 1) : 0); maxp = MAXP;
    SymbolicTerm l, r; std::vector<Index> v; for (int i = 0; i < OCC; i++) v.push_back(idx("i" + std::to_string(i)));
    l.add(Tensor("R", {v[0]}, {}, SymmetryType::Antisymmetric)); r.add(Tensor("T", {v[1]}, {v[2]}, SymmetryType::Antisymmetric));
    if (OCC > 3) r.add(Tensor("V", std::vector<Index>(v.begin() + 3, v.end()), {}, SymmetryType::Antisymmetric));
    Equation q(l, r, rational(1, 3));
    if (ein) einsum(q, q.compile("einsum")); else ambit(q, q.compile("ambit"));
    sx_reach(ein ? "einsum" : "ambit"); break;
  }
  case 2: { // factors
    registry(0); SymbolicTerm l, r; l.add(tensor("L", "R", 0)); r.add(tensor("T", "T", 0)); Equation q(l, r, coef());
    if (sx_pick("format", 0, 1)) einsum(q, q.compile("einsum")); else ambit(q, q.compile("ambit"));
    sx_reach("factor"); break;
  }
  case 3: { // unknown formats
    registry(0); SymbolicTerm l, r; l.add(tensor("L", "R", 0)); r.add(tensor("T", "T", 0)); Equation q(l, r, rational(1));
    int len = sx_pick("length", 0, 7); std::string f; for (int i = 0; i < len; i++) f += (char)sx_byte(("format" + std::to_string(i)).c_str()); bool thrown = false;
    try { q.compile(f); } catch (const std::exception &) { thrown = true; }
    sx_assert(thrown == !(f == "ambit" || f == "einsum"), thrown ? "known format rejected" : "unknown format accepted");
    sx_reach(thrown ? "format rejected" : "format accepted"); break;
  }
  case 4: { // equations that cannot be expressed
    left = 2; maxp = 1;
    registry(0); SymbolicTerm l, r; int nl = sx_pick("lhs tensors", 0, 2); bool lo = sx_pick("lhs operator", 0, 1), ro = sx_pick("rhs operator", 0, 1), ein = sx_pick("format", 0, 1);
    for (int i = 0; i < nl; i++) l.add(tensor("L" + std::to_string(i), "R", 1)); r.add(tensor("T", "T", 1));
    auto kind = sx_bool("creation") ? SQOperatorType::Creation : SQOperatorType::Annihilation;
    if (lo) l.add(SQOperator(kind, idx("o"))); if (ro) r.add(SQOperator(kind, idx("q")));
    Equation q(l, r, rational(1)); bool thrown = false;
    try { q.compile(ein ? "einsum" : "ambit"); } catch (const std::exception &) { thrown = true; }
    if (lo || ro || (ein && nl != 1)) sx_assert(thrown, "an equation that cannot be expressed was compiled");
    else if (nl == 1) sx_assert(!thrown, "a valid equation was refused");
    sx_reach(thrown ? "refused" : "compiled"); break;
  }
  case 5: { // many indices
    registry(sx_pick("names", 0, NAMES - 1)); int n = sx_pick("indices", 50, 54), base = sx_pick("first", 0, 2); bool rep = sx_pick("repeated", 0, 1);
    std::vector<Index> a, b; for (int i = 0; i < n; i++) (i & 1 ? a : b).push_back(Index(i % 3 == 0, base + i));
    if (rep) b.push_back(b[sx_pick("which", 0, 3)]);
    SymbolicTerm l, r; l.add(Tensor("R", {a[0]}, {}, SymmetryType::Antisymmetric)); r.add(Tensor("T", a, b, SymmetryType::Antisymmetric));
    Equation q(l, r, rational(1)); bool thrown = false; std::string s;
    try { s = q.compile("einsum"); } catch (const std::exception &) { thrown = true; }
    if (n > 52) sx_assert(thrown, "more indices than letters"); else { sx_assert(!thrown, "refused although there are letters enough"); einsum(q, s); }
    sx_reach(thrown ? "too many" : "enough letters"); break;
  }
  }
  return 0;
}
