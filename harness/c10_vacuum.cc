// C10: vacuum normal ordering preserves the operator. Oracle: action on Fock states (fermions: occupation bits, bosons:
// monomials, b+ multiplies by x and b differentiates) for every assignment of orbitals to the labels (one per way in which
// labels can coincide); Kronecker deltas are evaluated under the assignment.
#include "common.h"
#include <map>
#include <functional>
#include "algebra/term.h"
#include "algebra/expression.h"
#ifndef SPACES
#define SPACES "ov"
#endif
#ifndef NOPS
#define NOPS 3
#endif
#ifndef NTERMS
#define NTERMS 1
#endif
#ifndef BIG
#define BIG 1000000000
#endif
#ifndef MAXT
#define MAXT 0
#endif
typedef std::vector<int> State; // occupation per orbital
struct Lab { int space, pos; };
static std::vector<Lab> labels; // distinct labels of this path
static int lab(const Index &i) {
  for (size_t k = 0; k < labels.size(); k++) if (labels[k].space == i.space() && labels[k].pos == i.pos()) return k;
  labels.push_back({i.space(), i.pos()}); return labels.size() - 1;
}
static bool boson(int space) { return std::string(SPACES)[space] == 'b'; }
struct COp { bool cre; int lab; };
// act with ops (rightmost first) on st; returns the integer factor (0: vanishes)
static long act(const std::vector<COp> &ops, const std::vector<int> &orb, State &st, const std::vector<bool> &bos) {
  long f = 1;
  for (size_t k = ops.size(); k-- > 0;) {
    int o = orb[ops[k].lab];
    if (bos[o]) { if (ops[k].cre) st[o]++; else { if (st[o] == 0) return 0; f *= st[o]; st[o]--; } }
    else {
      int n = 0; for (int q = 0; q < o; q++) if (!bos[q]) n += st[q];
      if (ops[k].cre == (st[o] == 1)) return 0;
      st[o] = ops[k].cre; if (n & 1) f = -f;
    }
  }
  return f;
}
struct RTerm { std::vector<COp> ops; std::vector<std::pair<int, int>> deltas; std::vector<Tensor> rest; rational c; };
static bool same_t(const Tensor &a, const Tensor &b) { return a.label() == b.label() && a.lower() == b.lower() && a.upper() == b.upper() && a.symmetry() == b.symmetry(); }
int sx_main() {
  setup_spaces(SPACES);
  int ns = orbital_subspaces->num_spaces(); bool same = sx_pick("same index mode", 0, 1);
  Expression e; struct In { std::vector<COp> ops; rational c; std::vector<Tensor> t; SymbolicTerm s; }; std::vector<In> in; bool labeled = false;
  for (int k = 0; k < NTERMS; k++) {
    std::string n = "t" + std::to_string(k); std::vector<SQOperator> v; std::vector<Tensor> t; In x;
    int no = sx_pick(n + "ops", k ? 1 : 0, NOPS);
    for (int i = 0; i < no; i++) {
      std::string m = n + "o" + std::to_string(i);
      v.push_back(SQOperator(sx_bool((m + "cre").c_str()) ? SQOperatorType::Creation : SQOperatorType::Annihilation, Index(ns == 1 ? 0 : sx_int(m + "s", 0, ns - 1), sx_int(m + "p", 0, BIG))));
    }
    for (int i = sx_pick(n + "nt", 0, MAXT); i > 0; i--) t.push_back(Tensor(i == 1 ? "delta" : "T", {v.size() ? v[0].index() : Index(0, 5)}, {Index(0, i)}, SymmetryType::Nonsymmetric));
#ifdef LABELED
    bool no_ = sx_bool((n + "labeled").c_str());
#else
    bool no_ = false;
#endif
    SymbolicTerm s(no_, v, t); x.c = sx_real(n + "c"); sx_assume(x.c != rational(0)); x.s = s; x.t = t;
    if (NTERMS > 1 && k > 0 && in[0].s == s) sx_stop_path();
    labeled = labeled || no_; e.add(s, x.c); in.push_back(x);
  }
  bool thrown = false; Expression r;
  try { r = e.vacuum_normal_ordered(same); } catch (const std::exception &) { thrown = true; }
  sx_assert(thrown == labeled, labeled ? "labeled normal-ordered input accepted" : "input refused");
  if (thrown) { sx_reach("refused"); return 0; }
  for (auto &x : in) for (const SQOperator &o : x.s.ops()) x.ops.push_back({o.is_creation(), lab(o.index())});
  // structure of the result
  auto canonical = [](const SymbolicTerm &t) {
    auto o = t.ops();
    for (size_t i = 0; i + 1 < o.size(); i++) {
      if (o[i].is_creation() != o[i + 1].is_creation()) { if (!o[i].is_creation()) return false; continue; }
      Index a = o[i].index(), b = o[i + 1].index(); if (!o[i].is_creation()) std::swap(a, b);
      if (b.space() < a.space() || (b.space() == a.space() && b.pos() < a.pos())) return false;
    }
    return true;
  };
  bool inc = true; for (auto &x : in) inc = inc && canonical(x.s);
  sx_assert(e.is_vacuum_normal_ordered() == inc, "wrong answer whether the input is normal ordered");
  sx_assert(r.is_vacuum_normal_ordered(), "result is not reported as normal ordered");
  std::vector<RTerm> out;
  for (const auto &[t, c] : r.terms()) {
    sx_assert(canonical(t), "operators of the result are not in canonical order");
    sx_assert(c != rational(0), "a term with coefficient zero is kept");
    RTerm x; x.c = c; auto ts = t.tensors(); size_t keep = ts.size();
    for (const SQOperator &o : t.ops()) x.ops.push_back({o.is_creation(), lab(o.index())});
    size_t nt = in[0].t.size(); sx_assert(nt <= ts.size(), "a tensor disappeared");
    for (size_t i = 0; i < nt; i++) sx_assert(same_t(ts[i], in[0].t[i]), "a tensor changed");
    for (size_t i = nt; i < ts.size(); i++) {
      sx_assert(ts[i].label() == "delta" && ts[i].lower().size() == 1 && ts[i].upper().size() == 1, "a tensor appeared that is no delta");
      x.deltas.push_back({lab(ts[i].lower()[0]), lab(ts[i].upper()[0])});
      sx_assert(!same, "a delta of different labels in same-index mode");
    }
    out.push_back(x);
  }
  sx_reach(out.empty() ? "vanishes" : out.size() > 1 ? "several terms" : "one term");
  // every assignment of orbitals to labels
  int nl = labels.size(); std::vector<int> orb(nl), osp; long checked = 0;
  std::function<void(int)> assign = [&](int k) {
    if (k < nl) {
      for (int o = 0; o < (int)osp.size(); o++) if (osp[o] == labels[k].space) { if (same) continue; orb[k] = o; assign(k + 1); }
      osp.push_back(labels[k].space); orb[k] = osp.size() - 1; assign(k + 1); osp.pop_back();
      return;
    }
    int no = osp.size(); std::vector<bool> bos(no); for (int o = 0; o < no; o++) bos[o] = boson(osp[o]);
    State st(no, 0);
    while (true) {
      std::map<State, rational> res, want;
      for (auto &x : in) { State s = st; long f = act(x.ops, orb, s, bos); if (f) { auto it = want.find(s); if (it == want.end()) want.emplace(s, x.c * rational((int)f)); else it->second += x.c * rational((int)f); } }
      for (auto &x : out) { bool d = true; for (auto &[a, b] : x.deltas) d = d && orb[a] == orb[b]; if (!d) continue;
        State s = st; long f = act(x.ops, orb, s, bos); if (f) { auto it = res.find(s); if (it == res.end()) res.emplace(s, x.c * rational((int)f)); else it->second += x.c * rational((int)f); } }
      for (auto &[s, v] : want) { auto it = res.find(s); sx_assert((it == res.end() ? rational(0) : it->second) == v, "the result acts differently on a state"); }
      for (auto &[s, v] : res) if (!want.count(s)) sx_assert(v == rational(0), "the result acts differently on a state");
      checked++;
      int o = 0; while (o < no) { if (++st[o] <= (bos[o] ? NOPS : 1)) break; st[o++] = 0; }
      if (o == no) break;
    }
  };
  assign(0);
  return 0;
}
