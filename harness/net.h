// Independent oracle machinery: canonical keys of tensor networks.
// A term (product of tensors and second-quantized operators over summed indices) is turned into a
// canonical string and a sign such that two terms denote the same object for every value of the tensor
// entries iff keys and signs agree; networks that vanish identically have sign 0. Nothing here uses the
// repository's canonicalization.
#pragma once
#include <algorithm>
#include <map>
#include <string>
#include <vector>
#include "wicked-def.h"
#include "helpers/orbital_space.h"
#include "algebra/expression.h"
#include "algebra/index.h"
#include "algebra/sqoperator.h"
#include "algebra/symbolic_term.h"
#include "algebra/tensor.h"
#include "algebra/term.h"
#include "helpers/product.hpp"

struct NTensor { std::string label; std::vector<int> up, lo; char sym; }; // sym: 'a' antisymmetric 's' symmetric 'n' none
struct NOp { bool cre; int idx; };
struct Net {
  std::vector<NTensor> t;
  std::vector<NOp> ops;
  std::map<int, int> space;      // index id -> space
  std::map<int, bool> boson;     // index id -> bosonic
  std::map<int, std::string> freeix; // indices that are not summed, with their name
};

inline int perm_parity(const std::vector<int> &v) { // sign of sorting distinct values, 0 if repeated
  int inv = 0;
  for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) { if (v[i] == v[j]) return 0; if (v[i] > v[j]) inv++; }
  return inv % 2 ? -1 : 1;
}
inline std::string num2(int n) { char b[3] = {char('0' + n / 10), char('0' + n % 10), 0}; return b; }

// normal=true: the operators form a normal-ordered product (they anticommute / commute freely)
inline std::pair<std::string, int> canon_net(const Net &n, bool normal) {
  // endpoint classes of each index for a given order of the tensors
  std::vector<int> ord;
  for (size_t i = 0; i < n.t.size(); i++) ord.push_back(i);
  auto sig = [&](int i) {
    const NTensor &x = n.t[i];
    auto ss = [&](const std::vector<int> &v) { std::vector<int> s; for (int k : v) s.push_back(n.space.at(k)); if (x.sym != 'n') std::sort(s.begin(), s.end()); std::string r; for (int k : s) r += char('A' + k); return r; };
    return x.label + "|" + x.sym + "|" + ss(x.up) + "|" + ss(x.lo);
  };
  std::vector<std::string> sg; for (size_t i = 0; i < n.t.size(); i++) sg.push_back(sig(i));
  std::sort(ord.begin(), ord.end(), [&](int a, int b) { return sg[a] != sg[b] ? sg[a] < sg[b] : a < b; });
  std::string head; for (int i : ord) head += sg[i] + ";";
  std::string best; int bestsign = 0; bool have = false, zero = false;
  std::vector<int> perm = ord;
  while (true) {
    // slot classes: list of (class name, ordered indices, antisymmetric?)
    struct Cl { std::string nm; std::vector<int> ix; bool anti; };
    std::vector<Cl> cls;
    for (size_t p = 0; p < perm.size(); p++) {
      const NTensor &x = n.t[perm[p]];
      for (int ul = 0; ul < 2; ul++) {
        const std::vector<int> &v = ul ? x.lo : x.up;
        std::string base = num2(p) + (ul ? "l" : "u");
        if (x.sym == 'n') for (size_t k = 0; k < v.size(); k++) cls.push_back({base + num2(k), {v[k]}, false});
        else if (!v.empty()) cls.push_back({base, v, x.sym == 'a'});
      }
    }
    if (normal) {
      std::vector<int> f, ids; // fermionic operators in order: one antisymmetric class; creation and annihilation kept apart by id
      Cl fc{"F", {}, true}, bc{"Bc", {}, false}, ba{"Ba", {}, false};
      for (auto &o : n.ops) {
        if (n.boson.count(o.idx) && n.boson.at(o.idx)) (o.cre ? bc : ba).ix.push_back(o.idx);
        else fc.ix.push_back(o.cre ? 2 * o.idx : 2 * o.idx + 1);
      }
      if (!fc.ix.empty()) cls.push_back(fc);
      if (!bc.ix.empty()) cls.push_back(bc);
      if (!ba.ix.empty()) cls.push_back(ba);
    } else for (size_t k = 0; k < n.ops.size(); k++) cls.push_back({"O" + num2(k) + (n.ops[k].cre ? "c" : "a"), {n.ops[k].idx}, false});
    // index -> sorted endpoint list
    std::map<int, std::vector<std::string>> ep;
    for (auto &c : cls) for (int i : c.ix) { if (c.nm == "F") ep[i / 2].push_back(i % 2 ? "Fa" : "Fc"); else ep[i].push_back(c.nm); }
    std::vector<std::pair<std::string, int>> keys;
    for (auto &[i, v] : ep) {
      std::sort(v.begin(), v.end());
      std::string k(1, char('A' + n.space.at(i)));
      for (auto &e : v) k += "." + e;
      auto fi = n.freeix.find(i); if (fi != n.freeix.end()) k += "!" + fi->second;
      keys.push_back({k, i});
    }
    std::sort(keys.begin(), keys.end());
    std::map<int, int> number; std::string key;
    for (size_t k = 0; k < keys.size(); k++) { number[keys[k].second] = k; key += keys[k].first + ","; }
    // exchanging two identical indices must not change the sign, or the network vanishes
    for (size_t k = 0; k + 1 < keys.size(); k++) if (keys[k].first == keys[k + 1].first && keys[k].first.find('!') == std::string::npos) {
      int anti = 0; for (auto &c : cls) if (c.anti) for (int i : c.ix) if ((c.nm == "F" ? i / 2 : i) == keys[k].second) anti++;
      if (anti % 2) zero = true;
    }
    int s = 1;
    for (auto &c : cls) if (c.anti) {
      std::vector<int> v;
      for (int i : c.ix) v.push_back(c.nm == "F" ? (i % 2 ? 1000 - number[i / 2] : number[i / 2]) : number[i]);
      s *= perm_parity(v);
    }
    if (s == 0) zero = true;
    if (zero) return {head, 0};
    if (!have || key < best) { best = key; bestsign = s; have = true; }
    else if (key == best && s != bestsign) return {head + best, 0};
    // next arrangement: permute inside groups of equal signature (odometer over the groups)
    bool more = false;
    for (size_t i = 0; i < perm.size() && !more;) {
      size_t j = i; while (j < perm.size() && sg[perm[j]] == sg[perm[i]]) j++;
      more = std::next_permutation(perm.begin() + i, perm.begin() + j); // wraps to sorted when exhausted
      i = j;
    }
    if (!more) break;
  }
  return {head + best, bestsign};
}

inline Net net_of(const SymbolicTerm &st) {
  Net n; std::map<std::pair<int, int>, int> id;
  auto ix = [&](const Index &i) {
    auto k = std::make_pair(i.space(), i.pos());
    auto it = id.find(k); if (it != id.end()) return it->second;
    int v = id.size(); id[k] = v; n.space[v] = i.space(); n.boson[v] = orbital_subspaces->field_type(i.space()) == FieldType::Boson; return v;
  };
  for (const auto &t : st.tensors()) {
    NTensor x; x.label = t.label();
    x.sym = t.symmetry() == SymmetryType::Antisymmetric ? 'a' : t.symmetry() == SymmetryType::Symmetric ? 's' : 'n';
    for (const auto &i : t.upper()) x.up.push_back(ix(i));
    for (const auto &i : t.lower()) x.lo.push_back(ix(i));
    n.t.push_back(x);
  }
  for (const auto &o : st.ops()) n.ops.push_back({o.is_creation(), ix(o.index())});
  return n;
}
typedef std::map<std::string, scalar_t> NSum;
inline void nadd(NSum &s, const Net &n, const scalar_t &c, bool normal) {
  auto [k, sg] = canon_net(n, normal);
  if (sg == 0) return;
  auto it = s.find(k);
  scalar_t v = sg > 0 ? c : -c;
  if (it == s.end()) s.emplace(k, v); else it->second += v;
}
inline NSum nsum(const Expression &e, bool normal) {
  NSum r;
  for (const auto &[t, c] : e.terms()) nadd(r, net_of(t), c, normal);
  return r;
}
// asserts equality of two sums of networks for every value of the symbolic coefficients
inline void assert_equal(const NSum &a, const NSum &b, const std::string &msg) {
  for (const auto &[k, c] : a) { auto it = b.find(k); sx_assert(c == (it == b.end() ? scalar_t(0) : it->second), msg + " [" + k + "]"); }
  for (const auto &[k, c] : b) if (!a.count(k)) sx_assert(c == scalar_t(0), msg + " [" + k + "] missing");
}
