// C09: sorting indices applies exactly the permutation sign; relabelling is simultaneous and touches nothing else.
// Symbolic: space and number of every index, symmetry, direction, the map.
#include "common.h"
#include "net.h"
#ifndef N
#define N 4
#endif
#ifndef SPC
#define SPC false
#endif
#ifndef LO
#define LO 0
#define HI 3
#endif
static std::vector<Index> fresh(int n, const char *nm, bool spaces = true) {
  std::vector<Index> v;
  for (int i = 0; i < n; i++) { std::string k = nm + std::to_string(i); v.push_back(Index(spaces ? sx_int(k + "s", 0, 1) : 0, sx_int(k + "p", 0, 1000))); }
  return v;
}
static bool same(const Index &a, const Index &b) { return a.space() == b.space() && a.pos() == b.pos(); }
static bool less(const Index &a, const Index &b) { return a.space() < b.space() || (a.space() == b.space() && a.pos() < b.pos()); }
static bool same(const std::vector<Index> &a, const std::vector<Index> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
// result is the sorted rearrangement of v; returns the parity (0 when an index is repeated)
static int check_sorted(const std::vector<Index> &v, const std::vector<Index> &r, bool rev, const char *what) {
  sx_assert(v.size() == r.size(), std::string(what) + ": number of indices changed");
  for (size_t i = 0; i + 1 < r.size(); i++) sx_assert(!(rev ? less(r[i], r[i + 1]) : less(r[i + 1], r[i])), std::string(what) + ": not sorted");
  int par = 1; bool rep = false;
  for (size_t i = 0; i < v.size(); i++) {
    int c = 0, d = 0; for (size_t j = 0; j < v.size(); j++) { c += same(v[i], v[j]); d += same(v[i], r[j]); }
    sx_assert(c == d, std::string(what) + ": not a rearrangement");
    if (c > 1) rep = true;
    for (size_t j = i + 1; j < v.size(); j++) if (rev ? less(v[i], v[j]) : less(v[j], v[i])) par = -par;
  }
  return rep ? 0 : par;
}
static void t_list() {
  std::vector<Index> v = fresh(sx_pick("n", 0, N), "i"), r = v; bool rev = sx_bool("reversed");
  scalar_t s = canonicalize_indices(r, rev);
  int p = check_sorted(v, r, rev, "list");
  sx_assert(s == scalar_t(1) || s == scalar_t(-1), "sign is not a sign");
  if (p) sx_assert(s == scalar_t(p), "sign of sorting a list of indices");
  sx_reach(p < 0 ? "odd" : p > 0 ? "even" : "repeated");
}
static void t_tensor() {
#ifndef UNEVEN
  int nu = sx_pick("nu", 0, N - 1), nl = sx_pick("nl", 0, N - 1 - (nu > 2));
#else
  int nu, nl;
#endif
#ifdef UNEVEN
  static const int NN[][2] = {{2, 4}, {4, 2}, {1, 5}, {5, 1}, {3, 3}, {0, 5}, {5, 0}}; int w = sx_pick("shape", 0, 5); nu = NN[w][0]; nl = NN[w][1];
#endif
  std::vector<Index> u = fresh(nu, "u", false), l = fresh(nl, "l", false);
#ifdef UNEVEN
  int k = 0; // positions differ within a list (repeated ones are covered with <=3 indices)
  for (auto *v : {&u, &l}) for (size_t i = 0; i < v->size(); i++) for (size_t j = 0; j < i; j++) sx_assume((*v)[i].pos() != (*v)[j].pos());
#else
  int k = sx_pick("symmetry", 0, 2);
#endif
  SymmetryType st = k == 0 ? SymmetryType::Antisymmetric : k == 1 ? SymmetryType::Symmetric : SymmetryType::Nonsymmetric;
  Tensor t("T", l, u, st); bool thrown = false; scalar_t s(7);
  try { s = t.canonicalize(); } catch (std::exception &) { thrown = true; }
  sx_assert(thrown == (k == 2), "exactly nonsymmetric tensors are refused");
  sx_assert(t.label() == "T" && t.symmetry() == st, "label or symmetry changed");
  if (thrown) { sx_assert(same(t.upper(), u) && same(t.lower(), l), "a refused tensor was changed"); sx_reach("refused"); return; }
  int pu = check_sorted(u, t.upper(), false, "upper"), pl = check_sorted(l, t.lower(), false, "lower");
  if (k == 1) sx_assert(s == scalar_t(1), "a symmetric tensor gets no sign");
  else if (pu * pl) sx_assert(s == scalar_t(pu * pl), "sign of an antisymmetric tensor");
  else sx_assert(s == scalar_t(1) || s == scalar_t(-1), "sign is not a sign");
  sx_reach(k == 1 ? "symmetric" : "antisymmetric");
}
static std::vector<std::pair<Index, Index>> mp; static index_map_t map_() {
  index_map_t m; int n = sx_pick("entries", 0, 2); mp.clear();
  std::vector<Index> k = fresh(n, "k", SPC), w = fresh(n, "w", SPC);
  if (n == 2) sx_assume(!same(k[0], k[1]));
  for (int i = 0; i < n; i++) { m[k[i]] = w[i]; mp.push_back({k[i], w[i]}); }
  return m;
}
static Index img(const Index &i) { for (auto &e : mp) if (same(e.first, i)) return e.second; return i; }
static std::vector<Index> img(std::vector<Index> v) { for (auto &i : v) i = img(i); return v; }
static void t_reindex() {
  int nu = sx_pick("nu", 0, 2), nl = sx_pick("nl", 0, 1), no = sx_pick("no", 0, 1);
  std::vector<Index> u = fresh(nu, "u", SPC), l = fresh(nl, "l", SPC), o = fresh(no, "o", SPC);
  index_map_t m = map_();
  SymbolicTerm t; t.set_normal_ordered(sx_bool("no_flag")); bool cr = sx_bool("creation"), fl = t.normal_ordered();
  t.add(Tensor("T", l, u, SymmetryType::Antisymmetric)); for (auto &i : o) t.add(SQOperator(cr ? SQOperatorType::Creation : SQOperatorType::Annihilation, i));
  t.reindex(m);
  sx_assert(t.tensors().size() == 1 && t.nops() == no && t.normal_ordered() == fl, "the term changed shape");
  const Tensor &x = t.tensors()[0];
  sx_assert(x.label() == "T" && x.symmetry() == SymmetryType::Antisymmetric && same(x.upper(), img(u)) && same(x.lower(), img(l)), "tensor indices are not replaced by their images");
  for (int i = 0; i < no; i++) sx_assert(same(t.ops()[i].index(), img(o[i])) && t.ops()[i].is_creation() == cr, "operator indices are not replaced by their images");
  sx_reach("reindexed");
}
static void t_expr() { // an expression: every term is relabelled and equal ones are merged
  scalar_t c0 = sx_real("c0"), c1 = sx_real("c1");
  std::vector<Index> a = fresh(2, "a", false), b = fresh(2, "b", false); int n = sx_pick("entries", 0, 2); mp.clear(); index_map_t m;
  std::vector<Index> k = fresh(n, "k", false), w = fresh(n, "w", false);
  if (n == 2) sx_assume(!same(k[0], k[1]));
  for (int i = 0; i < n; i++) { m[k[i]] = w[i]; mp.push_back({k[i], w[i]}); }
  auto mk = [](const std::vector<Index> &v) { SymbolicTerm t; t.add(Tensor("T", {v[0]}, {}, SymmetryType::Antisymmetric)); t.add(SQOperator(SQOperatorType::Creation, v[1])); return t; };
  Expression e; e.add(mk(a), c0); e.add(mk(b), c1);
  Expression &r = e.reindex(m);
  sx_assert(&r == &e, "reindex returns another object");
  std::vector<Index> ia = img(a), ib = img(b); bool merge = same(ia, ib);
  scalar_t wa = merge ? c0 + c1 : c0, wb = merge ? c0 + c1 : c1, ga(0), gb(0); size_t nz = 0;
  for (const auto &[t, c] : e.terms()) {
    std::vector<Index> v{t.tensors()[0].lower()[0], t.ops()[0].index()}; bool hit = false;
    if (same(v, ia)) { ga += c; hit = true; } if (same(v, ib)) { gb += c; hit = true; }
    sx_assert(hit, "a term of the relabelled expression is no image of a term"); nz++;
  }
  sx_assert(ga == wa, "coefficient of the first relabelled term"); sx_assert(gb == wb, "coefficient of the second relabelled term");
  sx_reach(merge ? "terms merge" : "terms stay apart");
}
int sx_main() {
  setup_spaces("ov");
  switch (sx_pick("what", LO, HI)) { case 0: t_list(); break; case 1: t_tensor(); break; case 2: t_reindex(); break; default: t_expr(); }
  return 0;
}
