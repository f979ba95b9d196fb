// C19: the orbital-space registry against a model, under arbitrary request sequences.
#include "common.h"
#include "diagrams/graph_matrix.h"
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI 0
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef MAXI
#define MAXI 1
#endif
#ifndef MAXE
#define MAXE 1
#endif
#ifndef TYPES
#define TYPES 1
#endif
#ifndef LEN
#define LEN 1
#endif
struct Sp { char label; FieldType f; SpaceType t; std::vector<std::string> ix; };
static std::string bytes(const std::string &n, int len) { std::string s; for (int i = 0; i < len; i++) s += (char)sx_byte((n + std::to_string(i)).c_str()); return s; }
static const FieldType F[] = {FieldType::Fermion, FieldType::Boson};
static const SpaceType T[] = {SpaceType::Occupied, SpaceType::Unoccupied, SpaceType::General};
static void same(OrbitalSpaceInfo &o, const std::vector<Sp> &m, const std::string &when) {
  sx_assert(o.num_spaces() == (int)m.size(), "wrong number of spaces after " + when);
  for (size_t i = 0; i < m.size(); i++) {
    sx_assert(o.label(i) == m[i].label, "label changed after " + when);
    sx_assert(o.field_type(i) == m[i].f, "field type changed after " + when);
    sx_assert(o.space_type(i) == m[i].t, "space type changed after " + when);
    sx_assert(o.indices(i) == m[i].ix, "index names changed after " + when);
    sx_assert(o.label_to_space(m[i].label) == (int)i, "label lookup is not the inverse after " + when);
  }
}
int sx_main() {
  switch (sx_pick("test", LO, HI)) {
  case 0: {
    OrbitalSpaceInfo o; std::vector<Sp> m; bool after_reject = false;
    for (int k = 0; k < STEPS; k++) {
      std::string n = "s" + std::to_string(k);
      if (k > 0 && sx_pick(n + "reset", 0, 1)) { o.reset(); m.clear(); same(o, m, "reset"); sx_reach("reset"); continue; }
      Sp s; s.label = (char)sx_byte((n + "label").c_str()); s.f = F[sx_pick(n + "field", 0, k == 0 && TYPES)]; s.t = T[sx_pick(n + "type", 0, k == 0 && TYPES ? 2 : 0)];
      for (int i = sx_pick(n + "names", 0, MAXI); i > 0; i--) s.ix.push_back(bytes(n + "i" + std::to_string(i), k == 0 ? sx_pick(n + "length", 1, LEN) : LEN));
      std::vector<char> el; for (int i = sx_pick(n + "elementary", 0, MAXE); i > 0; i--) el.push_back((char)sx_byte((n + "e" + std::to_string(i)).c_str()));
      bool ok = true;
      for (auto &x : m) { ok = ok && x.label != s.label; for (auto &a : x.ix) for (auto &b : s.ix) ok = ok && a != b; }
      for (size_t i = 0; i < s.ix.size(); i++) for (size_t j = 0; j < i; j++) ok = ok && s.ix[i] != s.ix[j];
      for (char e : el) { bool f = false; for (auto &x : m) f = f || x.label == e; if (e == s.label) sx_stop_path(); ok = ok && f; }
      bool thrown = false; try { o.add_space(s.label, s.f, s.t, s.ix, el); } catch (const std::exception &) { thrown = true; }
      sx_assert(thrown == !ok, ok ? "a valid space was rejected" : "an invalid space was accepted");
      if (ok) m.push_back(s);
      same(o, m, ok ? "registration" : "rejection");
      sx_reach(ok ? (after_reject ? "accepted after a rejection" : m.size() > 1 ? "second accepted" : "accepted") : "rejected");
      after_reject = after_reject || !ok;
    }
    char c = (char)sx_byte("lookup"); bool known = false, thrown = false; for (auto &x : m) known = known || x.label == c;
    try { o.label_to_space(c); } catch (const std::exception &) { thrown = true; }
    sx_assert(thrown == !known, "lookup of an unknown label");
    break;
  }
  case 1: { // more spaces than the engine can represent
    orbital_subspaces->reset(); int n = sx_pick("spaces", 1, 10), ok = 0;
    for (int i = 0; i < n; i++) { try { orbital_subspaces->add_space('a' + i, FieldType::Fermion, T[i % 3], {}); ok++; } catch (const std::exception &) { sx_assert(i >= 8, "fewer than eight spaces"); } }
    sx_assert(orbital_subspaces->num_spaces() == ok, "wrong number of spaces");
    std::vector<int> c(ok), a(ok); for (int i = 0; i < ok; i++) { c[i] = sx_int("c" + std::to_string(i), 0, 1000); a[i] = sx_int("a" + std::to_string(i), 0, 1000); }
    std::vector<GraphMatrix> v(3); GraphMatrix z = v[0]; v[1] = GraphMatrix(c, a); std::vector<int> c2(ok, 7), a2(ok, 9);
    for (int i = 0; i < ok; i++) sx_assert(v[1].cre(i) == c[i] && v[1].ann(i) == a[i], "an operator count was lost");
    sx_assert(v[0] == z && v[2] == z, "another object was overwritten");
    sx_reach(ok < n ? "refused" : "all spaces represented"); break;
  }
  case 2: { // names of types
    int len = sx_pick("length", 0, 10); std::string s = bytes("b", len); bool f = sx_pick("field", 0, 1), ok, thrown = false;
    bool right = true;
    try { if (f) { auto t = string_to_field_type(s); right = s == (t == FieldType::Fermion ? "fermion" : "boson"); } else { auto t = string_to_space_type(s); right = s == (t == SpaceType::Occupied ? "occupied" : t == SpaceType::Unoccupied ? "unoccupied" : "general"); } } catch (const std::exception &) { thrown = true; }
    ok = f ? s == "fermion" || s == "boson" : s == "occupied" || s == "unoccupied" || s == "general";
    sx_assert(thrown == !ok, ok ? "a valid type was rejected" : "an invalid type was accepted"); sx_assert(right, "wrong type");
    sx_reach(ok ? "type accepted" : "type rejected"); break;
  }
  case 3: { // index names
    OrbitalSpaceInfo o; o.add_space('o', FieldType::Fermion, SpaceType::Occupied, {"i", "j"}); o.add_space('v', FieldType::Boson, SpaceType::Unoccupied, {"a"});
    int s = sx_pick("space", 0, 1), i = sx_int("index", 0, 999); std::string r = o.index_label(s, i);
    if (s == 0 && i < 2) sx_assert(r == (i ? "j" : "i"), "wrong index name"); else if (s == 1 && i < 1) sx_assert(r == "a", "wrong index name");
    else { std::string w = s ? "v_{" : "o_{"; sx_assert(r.size() > 4 && r.compare(0, 3, w) == 0 && r.back() == '}', "wrong generated name"); int v = 0; for (size_t k = 3; k + 1 < r.size(); k++) { sx_assert(r[k] >= '0' && r[k] <= '9', "no number"); v = v * 10 + (r[k] - '0'); } sx_assert(v == i, "wrong number in a generated name"); }
    auto d = o.to_dict(); sx_assert(d.size() == 2 && d["o"] == o.indices(0) && d["v"] == o.indices(1), "wrong dictionary");
    sx_reach("names"); break;
  }
  }
  return 0;
}
