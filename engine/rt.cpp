#include <execinfo.h>
// Runtime of the symbolic executor: expression DAG, shadow memory, Z3 queries, forking exploration.
#include "rt.h"
#include <sys/single_threaded.h>
bool sx_logging = false; u16 sx_tid = 0; std::vector<SxAcc, MAlloc<SxAcc>> sx_log; static u64 taskSP = 0, tlsLo = 0, tlsN = 0;
static inline void logacc(u64 a, u32 n, u8 kind, void *pcv) { if (a < taskSP && a >= taskSP - (64ull << 20)) return; /* the task's own stack */ if (a - tlsLo < tlsN) return; /* thread-local */ sx_log.push_back({a, n, kind, sx_tid, pcv}); }
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <semaphore.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <z3.h>

extern "C" {
u32 __sx_args[64];
void *__sx_target;
u32 __sx_ret[16];
void *__sx_retfn;
void *__sx_byval[64];
}

// ------------------------------------------------------------------ arena (operator new)
static const u64 ARENA = 0x200000000000ull, ARENA_SZ = 16ull << 30;
static u8 *stmap; // valid bytes per 16-byte granule
static u64 bump = ARENA + 16;
static std::vector<void *> *freel; // by size class (16-byte units up to 64 KiB)
static bool arena_ok = false;
struct Hdr { u64 size; u64 magic; };
static const u64 HMAGIC = 0x5A5A1234C0FFEE11ull;
static struct { void *head[4097]; } FL;
static void arena_init() {
  if (arena_ok) return;
  mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  stmap = (u8 *)mmap(nullptr, ARENA_SZ / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  arena_ok = true;
}
static inline bool in_arena(u64 a) { return a - ARENA < ARENA_SZ; }
static void violation(const char *kind, const std::string &msg);
static void setstate(u64 a, u64 n, bool live) {
  u64 g = (a - ARENA) / 16;
  for (u64 k = 0; k * 16 < n; k++) stmap[g + k] = live ? (u8)std::min<u64>(16, n - k * 16) : 0;
}
static void *arena_alloc(u64 n) {
  arena_init();
  if (n == 0) n = 1;
  u64 units = (n + 15) / 16;
  u64 p;
  if (units <= 4096 && FL.head[units]) { p = (u64)FL.head[units]; FL.head[units] = *(void **)p; }
  else {
    p = bump + 16; bump = p + units * 16 + 16;
    if (bump >= ARENA + ARENA_SZ) { fprintf(stderr, "arena exhausted\n"); abort(); }
  }
  Hdr *h = (Hdr *)(p - 16); h->size = n; h->magic = HMAGIC;
  setstate(p, n, true);
  if (u32 *sp = nullptr; true) (void)sp, __sx_clear((void *)p, n);
  return (void *)p;
}
static void arena_free(void *q) {
  if (!q) return;
  u64 p = (u64)q;
  if (!in_arena(p)) { free(q); return; }
  Hdr *h = (Hdr *)(p - 16);
  if (h->magic != HMAGIC) { violation("memory", "invalid or double delete"); _exit(0); }
  u64 n = h->size, units = (n + 15) / 16;
  if (sx_logging) logacc(p, n, 1, __builtin_return_address(0));
  h->magic = 0; setstate(p, n, false); __sx_clear(q, n);
  if (units <= 4096 && !sx_logging) { *(void **)p = FL.head[units]; FL.head[units] = q; }
}
void *operator new(size_t n) { return arena_alloc(n); }
void *operator new[](size_t n) { return arena_alloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return arena_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return arena_alloc(n); }
void operator delete(void *p) noexcept { arena_free(p); }
void operator delete[](void *p) noexcept { arena_free(p); }
void operator delete(void *p, size_t) noexcept { arena_free(p); }
void operator delete[](void *p, size_t) noexcept { arena_free(p); }
u64 sx_objsize(void *p) { // bytes from p to the end of its heap object (0 if unknown)
  u64 a = (u64)p; if (!in_arena(a)) return 0;
  u64 n = 0; u64 g = (a - ARENA) / 16, off = a & 15;
  while (true) { u8 v = stmap[g]; if (v <= off) break; n += v - off; if (v < 16) break; off = 0; g++; if (n > 65536) break; }
  return n;
}

// The engine's own containers must not live in the arena (its use would be mixed with the program's);
// that is harmless for correctness: the arena is only an allocator.

// ------------------------------------------------------------------ shared state
Shared *sh;
static std::string outdir;
static bool replaced_token = false;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void disarm() { if (!sh || !sh->hang_ms) return; itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr); }
static void arm() {
  if (!sh || !sh->hang_ms) return;
  itimerval it; it.it_interval = {0, 0}; it.it_value.tv_sec = sh->hang_ms / 1000; it.it_value.tv_usec = (sh->hang_ms % 1000) * 1000; setitimer(ITIMER_PROF, &it, nullptr);
}

// ------------------------------------------------------------------ expressions
struct Node { u8 op, w; u32 a, b, c; u64 k; u64 sl, shi; bool real; };
static std::vector<Node> N;
static std::vector<std::string> RC;
struct KeyH { size_t operator()(const Node &n) const { u64 h = n.op * 1000003ull + n.w; h = h * 0x9E3779B97F4A7C15ull + n.a; h = h * 0x9E3779B97F4A7C15ull + n.b; h = h * 0x9E3779B97F4A7C15ull + n.c; h = h * 0x9E3779B97F4A7C15ull + n.k; return h ^ (h >> 29); } };
struct KeyE { bool operator()(const Node &x, const Node &y) const { return x.op == y.op && x.w == y.w && x.a == y.a && x.b == y.b && x.c == y.c && x.k == y.k; } };
static std::unordered_map<Node, u32, KeyH, KeyE> HC;
struct Var { std::string name; u8 kind; u8 w; u64 val; bool fixed; u32 id; int64_t lo = 0, hi = -1; };
static std::vector<Var> vars;
static u64 fixl = 0, fixh = 0;
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sext(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static void badw(u8 op, u8 w, u32 a, u32 b) { fprintf(stderr, "engine: operands of different width: op %d w %d: op %d w %d, op %d w %d\n", op, w, N[a].op, N[a].w, N[b].op, N[b].w); abort(); }
static u32 mk(u8 op, u8 w, u32 a = 0, u32 b = 0, u32 c = 0, u64 k = 0) {
  if (N.empty()) N.push_back(Node{});
  if (a && b && op >= O_ADD && op <= O_SLE && N[a].w != N[b].w) badw(op, w, a, b);
  if (op == O_ITE && N[b].w != N[c].w) badw(op, w, b, c);
  Node n{op, w, a, b, c, k, 0, 0, false};
  auto it = HC.find(n);
  if (it != HC.end()) return it->second;
  if (op == O_VAR) { if (k < 64) n.sl = 1ull << k; else if (k < 127) n.shi = 1ull << (k - 64); else n.shi = 1ull << 63; }
  else if (op != O_CONST && op != O_RCONST) for (u32 x : {a, b, c}) if (x) { n.sl |= N[x].sl; n.shi |= N[x].shi; n.real |= N[x].real; }
  if (w == W_REAL || w == W_INT) n.real = true;
  u32 id = N.size(); N.push_back(n); HC[n] = id;
  if (id >= (1u << 29) - 2) { fprintf(stderr, "too many expressions\n"); abort(); }
  return id;
}
u32 ec(u64 v, unsigned w) { return mk(O_CONST, w, 0, 0, 0, v & mask(w)); }
static inline bool isc(u32 e) { return N[e].op == O_CONST; }
bool sx_isconst(u32 e, u64 *v) { if (!isc(e)) return false; *v = N[e].k; return true; }
u32 enot(u32 e) {
  Node n = N[e];
  if (n.op == O_CONST) return ec(!n.k, 1);
  if (n.op == O_NOT) return n.a;
  if (n.op == O_ULT) return mk(O_ULE, 1, n.b, n.a);
  if (n.op == O_ULE) return mk(O_ULT, 1, n.b, n.a);
  if (n.op == O_SLT) return mk(O_SLE, 1, n.b, n.a);
  if (n.op == O_SLE) return mk(O_SLT, 1, n.b, n.a);
  return mk(O_NOT, 1, e);
}
static u64 fold(u8 op, unsigned w, u64 x, u64 y) {
  u64 m = mask(w);
  switch (op) {
  case O_ADD: return (x + y) & m; case O_SUB: return (x - y) & m; case O_MUL: return (x * y) & m;
  case O_UDIV: return y ? (x / y) & m : m; case O_UREM: return y ? x % y : x;
  case O_SDIV: { int64_t a = sext(x, w), b = sext(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (u64)(0 - (u64)a) & m; return (u64)(a / b) & m; }
  case O_SREM: { int64_t a = sext(x, w), b = sext(y, w); if (!b) return x; if (b == -1) return 0; return (u64)(a % b) & m; }
  case O_SHL: return y >= w ? 0 : (x << y) & m; case O_LSHR: return y >= w ? 0 : x >> y;
  case O_ASHR: return (u64)(sext(x, w) >> std::min<u64>(y, w - 1)) & m;
  case O_AND: return x & y; case O_OR: return x | y; case O_XOR: return x ^ y;
  case O_EQ: return x == y; case O_ULT: return x < y; case O_ULE: return x <= y;
  case O_SLT: return sext(x, w) < sext(y, w); case O_SLE: return sext(x, w) <= sext(y, w);
  }
  return 0;
}
static u32 eite(u32 c, u32 a, u32 b);
// ---- bounded arithmetic (builds with the integer stand-in): values known to lie in a small interval are computed at
// the width of that interval and sign-extended
extern bool sx_narrow;
typedef std::pair<__int128, __int128> Iv;
static Iv srange(u32 e); 
static Iv fullS(unsigned w) { __int128 h = (__int128)1 << (w - 1); return {-h, h - 1}; }
static Iv urange(u32 e) {
  const Node &n = N[e]; if (n.op == O_CONST) return {n.k, n.k};
  if (n.op == O_VAR && n.w <= 64) { Var &v = vars[n.k]; if (v.hi >= v.lo && v.lo >= 0) return {v.lo, v.hi}; }
  if (n.op == O_ZEXT) return urange(n.a);
  Iv s = srange(e); if (s.first >= 0) return s;
  return {0, ((__int128)1 << n.w) - 1};
}
static std::unordered_map<u32, Iv> rmemo;
static Iv srange(u32 e) {
  Node n = N[e]; if (n.w > 64) return {0, -1};
  if (n.op == O_CONST) { int64_t v = sext(n.k, n.w); return {v, v}; }
  auto it = rmemo.find(e); if (it != rmemo.end()) return it->second;
  Iv f = fullS(n.w), r = f;
  auto fit = [&](Iv x) { return x.first >= f.first && x.second <= f.second; };
  switch (n.op) {
  case O_VAR: { Var &v = vars[n.k]; if (v.hi >= v.lo && fit({v.lo, v.hi})) r = {v.lo, v.hi}; break; }
  case O_ZEXT: r = urange(n.a); break;
  case O_SEXT: r = srange(n.a); break;
  case O_ITE: { Iv x = srange(n.b), y = srange(n.c); r = {std::min(x.first, y.first), std::max(x.second, y.second)}; break; }
  case O_ADD: case O_SUB: case O_MUL: {
    Iv x = srange(n.a), y = srange(n.b), z;
    if (n.op == O_ADD) z = {x.first + y.first, x.second + y.second};
    else if (n.op == O_SUB) z = {x.first - y.second, x.second - y.first};
    else { __int128 p[4] = {x.first * y.first, x.first * y.second, x.second * y.first, x.second * y.second}; z = {*std::min_element(p, p + 4), *std::max_element(p, p + 4)};
      __int128 lim = (__int128)1 << 62; if (x.first < -lim || y.first < -lim || x.second > lim || y.second > lim) z = {f.first - 1, 0}; }
    if (fit(z)) r = z; break; }
  case O_SDIV: case O_SREM: { Iv x = srange(n.a); __int128 m = std::max<__int128>({x.second, -x.first, 1}); bool nn = x.first >= 0; if (n.op == O_SREM) r = {nn ? 0 : -m, m}; else { Iv y = srange(n.b); r = {nn && y.first > 0 ? 0 : -m, m}; } if (!fit(r)) r = f; break; }
  case O_UREM: { Iv x = srange(n.a); if (x.first >= 0) r = {0, x.second}; break; }
  }
  rmemo[e] = r; return r;
}
static unsigned bitsFor(Iv x) { unsigned k = 1; while (k < 64 && (x.first < -((__int128)1 << (k - 1)) || x.second > ((__int128)1 << (k - 1)) - 1)) k++; return k < 2 ? 2 : k; }
u32 eextract(u32 e, unsigned lo, unsigned w);
u32 ezext(u32 e, unsigned w), esext(u32 e, unsigned w);
static u32 ebin0(u8 op, u32 a, u32 b);
static u32 narrowTo(u32 e, unsigned k) { const Node n = N[e]; if (n.op == O_SEXT && N[n.a].w <= k) return esext(n.a, k); if (n.op == O_ZEXT && N[n.a].w < k) return ezext(n.a, k); return eextract(e, 0, k); }
u32 ebin(u8 op, u32 a, u32 b) {
  unsigned w = N[a].w;
  if (!sx_narrow || w < 16 || w > 64 || (isc(a) && isc(b))) return ebin0(op, a, b);
  Iv x = srange(a), y = srange(b); unsigned ka = bitsFor(x), kb = bitsFor(y), k = 0;
  bool nn = x.first >= 0 && y.first >= 0;
  switch (op) {
  case O_ADD: case O_SUB: k = std::max(ka, kb) + 1; break;
  case O_MUL: k = ka + kb; break;
  case O_SDIV: case O_SREM: k = std::max(ka, kb) + 1; break;
  case O_UDIV: case O_UREM: if (nn && y.first > 0) { k = std::max(ka, kb) + 1; } break;
  case O_EQ: case O_SLT: case O_SLE: k = std::max(ka, kb); if (op == O_EQ && (x.second < y.first || y.second < x.first)) return ec(0, 1); if (op != O_EQ && x.second < y.first) return ec(1, 1); if (op == O_SLT && x.first >= y.second) return ec(0, 1); if (op == O_SLE && x.first > y.second) return ec(0, 1); break;
  case O_ULT: case O_ULE: if (nn) k = std::max(ka, kb); break;
  }
  if (!k || k + 4 > w) return ebin0(op, a, b);
  u32 r = ebin0(op, narrowTo(a, k), narrowTo(b, k));
  if (op >= O_EQ && op <= O_SLE) return r;
  unsigned kr = bitsFor(srange(r)); if (kr < k) r = narrowTo(r, kr);
  return esext(r, w);
}
static u32 ebin0(u8 op, u32 a, u32 b) {
  unsigned w = N[a].w; bool cmp = op >= O_EQ && op <= O_SLE; unsigned rw = cmp ? 1 : w;
  if (isc(a) && isc(b)) return ec(fold(op, w, N[a].k, N[b].k), rw);
  if (isc(a) && (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ)) std::swap(a, b);
  Node na = N[a], nb = N[b];
  if (nb.op == O_CONST) {
    u64 k = nb.k;
    if (k == 0 && (op == O_ADD || op == O_SUB || op == O_OR || op == O_XOR || op == O_SHL || op == O_LSHR || op == O_ASHR)) return a;
    if (k == 0 && (op == O_MUL || op == O_AND)) return ec(0, w);
    if (k == 1 && (op == O_MUL || op == O_UDIV || op == O_SDIV)) return a;
    if (k == mask(w) && op == O_AND) return a;
    if (op == O_SUB) return ebin(O_ADD, a, ec(0 - k, w));
    if (op == O_ADD && na.op == O_ADD && isc(na.b)) return ebin(O_ADD, na.a, ec(N[na.b].k + k, w));
    if (w == 1) {
      if (op == O_XOR) return enot(a);
      if (op == O_EQ) return k ? a : enot(a);
      if (op == O_OR) return ec(1, 1);
    }
    if (op == O_ULT && k == 0) return ec(0, 1);
    if (op == O_ULT && k == 1) return ebin(O_EQ, a, ec(0, w));
    if (op == O_SHL && na.op == O_ZEXT && 0) {}
    if (op == O_AND && na.op == O_ZEXT && (k & mask(N[na.a].w)) == mask(N[na.a].w)) return a;
    if ((op == O_LSHR) && na.op == O_ZEXT && k >= N[na.a].w) return ec(0, w);
    if (op == O_EQ) {
      if (na.op == O_ZEXT) { unsigned iw = N[na.a].w; if (k > mask(iw)) return ec(0, 1); return ebin(O_EQ, na.a, ec(k, iw)); }
      if (na.op == O_SEXT) { unsigned iw = N[na.a].w; if ((u64)(sext(k & mask(iw), iw)) != (u64)sext(k, w)) return ec(0, 1); return ebin(O_EQ, na.a, ec(k, iw)); }
      if (na.op == O_ADD && isc(na.b)) return ebin(O_EQ, na.a, ec(k - N[na.b].k, w));
      if (na.op == O_XOR && isc(na.b)) return ebin(O_EQ, na.a, ec(k ^ N[na.b].k, w));
    }
    if ((op == O_ULT || op == O_ULE || op == O_SLT || op == O_SLE) && na.op == O_ZEXT) {
      unsigned iw = N[na.a].w;
      if ((op == O_SLT || op == O_SLE) && (k >> (w - 1))) return ec(0, 1);
      u8 uop = (op == O_ULT || op == O_SLT) ? O_ULT : O_ULE;
      if (k > mask(iw)) return ec(1, 1);
      return ebin(uop, na.a, ec(k, iw));
    }
    if ((cmp || op == O_AND || op == O_ADD || op == O_XOR || op == O_LSHR || op == O_SHL || op == O_MUL || op == O_SUB || op == O_OR) && na.op == O_ITE && isc(na.b) && isc(na.c)) {
      u32 x = ebin(op, na.b, b), y = ebin(op, na.c, b); return eite(na.a, x, y);
    }
  }
  if (na.op == O_CONST && cmp && nb.op == O_ITE && isc(nb.b) && isc(nb.c)) return eite(nb.a, ebin(op, a, nb.b), ebin(op, a, nb.c));
  if (na.op == O_CONST && nb.op == O_ZEXT && (op == O_ULT || op == O_ULE || op == O_SLT || op == O_SLE)) {
    unsigned iw = N[nb.a].w; u64 k = na.k;
    if ((op == O_SLT || op == O_SLE) && (k >> (w - 1))) return ec(1, 1);
    if (k > mask(iw)) return ec(0, 1);
    return ebin((op == O_ULT || op == O_SLT) ? O_ULT : O_ULE, ec(k, iw), nb.a);
  }
  if (a == b) {
    if (op == O_SUB || op == O_XOR) return ec(0, w);
    if (op == O_AND || op == O_OR) return a;
    if (op == O_EQ || op == O_ULE || op == O_SLE) return ec(1, 1);
    if (op == O_ULT || op == O_SLT) return ec(0, 1);
  }
  if (cmp && na.op == O_ZEXT && nb.op == O_ZEXT && N[na.a].w == N[nb.a].w) { u8 uop = op == O_SLT ? O_ULT : op == O_SLE ? O_ULE : op; return ebin(uop, na.a, nb.a); }
  if (cmp && na.op == O_SEXT && nb.op == O_SEXT && N[na.a].w == N[nb.a].w && (op == O_EQ || op == O_SLT || op == O_SLE)) return ebin(op, na.a, nb.a);
  if (w == 1 && op == O_XOR && 0) {}
  if ((op == O_EQ || op == O_AND || op == O_OR || op == O_XOR || op == O_ADD || op == O_MUL) && a > b && !isc(b)) std::swap(a, b);
  if (w == 1 && op == O_MUL) op = O_AND;
  if (w == 1 && (op == O_ADD || op == O_SUB)) op = O_XOR;
  return mk(op, rw, a, b);
}
static u32 eite(u32 c, u32 a, u32 b) {
  if (isc(c)) return N[c].k ? a : b;
  if (a == b) return a;
  if (N[c].op == O_NOT) return eite(N[c].a, b, a);
  if (N[a].w == 1) {
    if (isc(a) && isc(b)) return N[a].k ? c : enot(c);
    if (isc(a)) return N[a].k ? ebin(O_OR, c, b) : ebin(O_AND, enot(c), b);
    if (isc(b)) return N[b].k ? ebin(O_OR, enot(c), a) : ebin(O_AND, c, a);
  }
  if (sx_narrow && N[a].w >= 16 && N[a].w <= 64 && !(isc(a) && isc(b))) { unsigned w = N[a].w, k = std::max(bitsFor(srange(a)), bitsFor(srange(b))); if (k + 4 <= w) return esext(mk(O_ITE, k, c, narrowTo(a, k), narrowTo(b, k)), w); }
  return mk(O_ITE, N[a].w, c, a, b);
}
u32 eite_pub(u32 c, u32 a, u32 b) { return eite(c, a, b); }
u32 eextract(u32 e, unsigned lo, unsigned w) {
  Node n = N[e];
  if (lo == 0 && w == n.w) return e;
  if (n.op == O_CONST) return ec(n.k >> lo, w);
  if (n.op == O_EXTRACT) return eextract(n.a, lo + n.k, w);
  if (n.op == O_ZEXT || n.op == O_SEXT) {
    unsigned iw = N[n.a].w;
    if (lo + w <= iw) return eextract(n.a, lo, w);
    if (n.op == O_ZEXT && lo >= iw) return ec(0, w);
    if (lo == 0) return n.op == O_ZEXT ? ezext(n.a, w) : esext(n.a, w);
  }
  if (n.op == O_CONCAT) { unsigned lw = N[n.b].w; if (lo + w <= lw) return eextract(n.b, lo, w); if (lo >= lw) return eextract(n.a, lo - lw, w); }
  if (n.op == O_ITE && isc(n.b) && isc(n.c)) return eite(n.a, eextract(n.b, lo, w), eextract(n.c, lo, w));
  if (lo == 0 && (n.op == O_ADD || n.op == O_AND || n.op == O_OR || n.op == O_XOR || n.op == O_MUL || n.op == O_SUB) && (isc(n.b))) return ebin(n.op, eextract(n.a, 0, w), eextract(n.b, 0, w));
  if ((n.op == O_LSHR) && isc(n.b) && lo + N[n.b].k + w <= n.w) return eextract(n.a, lo + N[n.b].k, w);
  return mk(O_EXTRACT, w, e, 0, 0, lo);
}
u32 ezext(u32 e, unsigned w) { if (N[e].w == w) return e; if (isc(e)) return ec(N[e].k, w); if (N[e].op == O_ZEXT) return ezext(N[e].a, w); if (N[e].op == O_ITE && isc(N[e].b) && isc(N[e].c)) { Node n = N[e]; return eite(n.a, ezext(n.b, w), ezext(n.c, w)); } return mk(O_ZEXT, w, e); }
u32 esext(u32 e, unsigned w) { if (N[e].w == w) return e; if (isc(e)) return ec((u64)sext(N[e].k, N[e].w), w); if (N[e].op == O_ZEXT) return ezext(N[e].a, w); if (N[e].op == O_SEXT) return esext(N[e].a, w); if (N[e].op == O_ITE && isc(N[e].b) && isc(N[e].c)) { Node n = N[e]; return eite(n.a, esext(n.b, w), esext(n.c, w)); } return mk(O_SEXT, w, e); }
static u32 econcat(u32 hi, u32 lo) {
  Node h = N[hi], l = N[lo]; unsigned w = h.w + l.w;
  if (isc(hi) && isc(lo)) return ec((h.k << l.w) | l.k, w);
  if (isc(hi) && h.k == 0) return ezext(lo, w);
  if (h.op == O_EXTRACT && l.op == O_EXTRACT && h.a == l.a && h.k == l.k + l.w) return eextract(h.a, l.k, w);
  return mk(O_CONCAT, w, hi, lo);
}
u32 toe(u32 s, u64 v, unsigned w) { return s ? s : ec(v, w); }
// ---- reals / ints
u32 ereal(const std::string &s, u8 w) { for (size_t i = 0; i < RC.size(); i++) if (RC[i] == s) return mk(O_RCONST, w, 0, 0, 0, i); RC.push_back(s); return mk(O_RCONST, w, 0, 0, 0, RC.size() - 1); }
bool sx_rcstr(u32 e, std::string *s) { if (N[e].op != O_RCONST) return false; *s = RC[N[e].k]; return true; }
u32 erop(u8 op, u32 a, u32 b) { bool cmp = op == O_REQ || op == O_RLT || op == O_RLE; if (cmp && a == b) return ec(op != O_RLT, 1); return mk(op, cmp ? 1 : N[a].w, a, b); }
u32 eufgcd(u32 a, u32 b) { return mk(O_GCD, W_INT, a, b); }
u8 sx_width(u32 e) { return N[e].w; }

// ------------------------------------------------------------------ evaluation under the current model
static std::vector<u64> EV; static std::vector<u32> EG; static u32 egen = 1;
static Z3_context ctx; static Z3_solver sol; static Z3_model curm = nullptr;
static Z3_ast lower(u32 e);
static u64 eval(u32 e) {
  Node &n = N[e];
  if (n.op == O_CONST) return n.k;
  if (EG.size() < N.size()) { EG.resize(N.size() * 2, 0); EV.resize(N.size() * 2); }
  if (EG[e] == egen) return EV[e];
  u64 r = 0;
  if (n.op == O_VAR && n.w <= 64) r = vars[n.k].val;
  else if (n.real && (n.op == O_REQ || n.op == O_RLT || n.op == O_RLE)) {
    Z3_ast v; bool ok = curm && Z3_model_eval(ctx, curm, lower(e), true, &v);
    if (ok) { auto lb = Z3_get_bool_value(ctx, v); r = lb == Z3_L_TRUE; if (lb == Z3_L_UNDEF) { Z3_ast sv = Z3_simplify(ctx, v); r = Z3_get_bool_value(ctx, sv) == Z3_L_TRUE; } }
  } else switch (n.op) {
    case O_NOT: r = !eval(n.a); break;
    case O_ITE: { u64 c = eval(n.a); r = eval(c ? N[e].b : N[e].c); break; }
    case O_ZEXT: r = eval(n.a); break;
    case O_SEXT: { unsigned iw = N[n.a].w; r = (u64)sext(eval(n.a), iw) & mask(N[e].w); break; }
    case O_EXTRACT: { u64 k = n.k; unsigned w = n.w; r = (eval(n.a) >> k) & mask(w); break; }
    case O_CONCAT: { u32 a = n.a, b = n.b; unsigned lw = N[b].w; u64 x = eval(a); r = (x << lw) | eval(b); break; }
    default: { u8 op = n.op; u32 a = n.a, b = n.b; unsigned w = N[a].w; u64 x = eval(a), y = eval(b); r = fold(op, w, x, y); }
  }
  if (EG.size() < N.size()) { EG.resize(N.size() * 2, 0); EV.resize(N.size() * 2); }
  EG[e] = egen; EV[e] = r; return r;
}
static bool allFixed(u32 e) { const Node &n = N[e]; if (n.real) return false; if (n.shi >> 63) return false; return !(n.sl & ~fixl) && !(n.shi & ~fixh); }

// ------------------------------------------------------------------ Z3
static std::vector<Z3_ast> LOW;
static Z3_sort realS, intS, bvS[65]; static Z3_func_decl gcdF;
static Z3_sort sortOf(u8 w) { if (w == W_REAL) return realS; if (w == W_INT) return intS; if (!bvS[w]) { bvS[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bvS[w])); } return bvS[w]; }
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void z3init() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context_rc(cfg); Z3_set_error_handler(ctx, z3err);
  sol = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, sol);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 40000000);
  Z3_solver_set_params(ctx, sol, p);
  realS = Z3_mk_real_sort(ctx); intS = Z3_mk_int_sort(ctx);
  Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, realS)); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, intS));
  Z3_sort dom[2] = {intS, intS};
  gcdF = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, "gcd"), 2, dom, intS); Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, gcdF));
}
// 1-bit values are lowered as booleans; other widths as bit-vectors
// (the context counts references: a result lives only until the next call unless it is held)
static Z3_ast hold(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast num(u64 v, unsigned w) { return hold(Z3_mk_unsigned_int64(ctx, v, sortOf(w))); }
static Z3_ast bv1(Z3_ast b) { Z3_ast o = num(1, 1), z = num(0, 1); return hold(Z3_mk_ite(ctx, b, o, z)); }
static Z3_ast asbv(u32 e) { Z3_ast l = lower(e); return N[e].w == 1 ? bv1(l) : l; }
static Z3_ast lower(u32 e) {
  if (LOW.size() <= e) LOW.resize(std::max<size_t>(N.size(), e + 1) * 2, nullptr);
  if (LOW[e]) return LOW[e];
  Node n = N[e]; Z3_ast r = nullptr; Z3_ast a2[3];
  auto L = [&](u32 x) { return lower(x); };
  unsigned wa = n.a ? N[n.a].w : 0;
  switch (n.op) {
  case O_CONST: r = n.w == 1 ? (n.k ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, n.k, sortOf(n.w)); break;
  case O_VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, vars[n.k].name.c_str()), n.w == 1 ? Z3_mk_bool_sort(ctx) : sortOf(n.w)); break;
  case O_NOT: r = Z3_mk_not(ctx, L(n.a)); break;
  case O_ITE: { Z3_ast c = L(n.a), x = L(n.b), y = L(n.c); r = Z3_mk_ite(ctx, c, x, y); break; }
  case O_ZEXT: if (wa == 1) r = Z3_mk_ite(ctx, L(n.a), num(1, n.w), num(0, n.w)); else r = Z3_mk_zero_ext(ctx, n.w - wa, L(n.a)); break;
  case O_SEXT: if (wa == 1) r = Z3_mk_ite(ctx, L(n.a), num(mask(n.w), n.w), num(0, n.w)); else r = Z3_mk_sign_ext(ctx, n.w - wa, L(n.a)); break;
  case O_EXTRACT: r = Z3_mk_extract(ctx, n.k + n.w - 1, n.k, asbv(n.a)); if (n.w == 1) { hold(r); r = Z3_mk_eq(ctx, r, num(1, 1)); }; break;
  case O_CONCAT: { Z3_ast x = asbv(n.a), y = asbv(n.b); r = Z3_mk_concat(ctx, x, y); break; }
  case O_RCONST: r = Z3_mk_numeral(ctx, RC[n.k].c_str(), sortOf(n.w)); break;
  case O_RADD: a2[0] = L(n.a); a2[1] = L(n.b); r = Z3_mk_add(ctx, 2, a2); break;
  case O_RSUB: a2[0] = L(n.a); a2[1] = L(n.b); r = Z3_mk_sub(ctx, 2, a2); break;
  case O_RMUL: a2[0] = L(n.a); a2[1] = L(n.b); r = Z3_mk_mul(ctx, 2, a2); break;
  case O_RDIV: { Z3_ast x = L(n.a), y = L(n.b); r = Z3_mk_div(ctx, x, y); break; }
  case O_RMOD: { Z3_ast x = L(n.a), y = L(n.b); r = Z3_mk_mod(ctx, x, y); break; }
  case O_REQ: { Z3_ast x = L(n.a), y = L(n.b); r = Z3_mk_eq(ctx, x, y); break; }
  case O_RLT: { Z3_ast x = L(n.a), y = L(n.b); r = Z3_mk_lt(ctx, x, y); break; }
  case O_RLE: { Z3_ast x = L(n.a), y = L(n.b); r = Z3_mk_le(ctx, x, y); break; }
  case O_GCD: a2[0] = L(n.a); a2[1] = L(n.b); r = Z3_mk_app(ctx, gcdF, 2, a2); break;
  case O_B2I: r = Z3_mk_bv2int(ctx, L(n.a), n.k); break;
  default: {
    if (wa == 1) { // boolean versions
      Z3_ast x = L(n.a), y = L(n.b); a2[0] = x; a2[1] = y;
      switch (n.op) {
      case O_AND: r = Z3_mk_and(ctx, 2, a2); break; case O_OR: r = Z3_mk_or(ctx, 2, a2); break;
      case O_XOR: r = Z3_mk_xor(ctx, x, y); break; case O_EQ: r = Z3_mk_iff(ctx, x, y); break;
      case O_ULT: r = Z3_mk_not(ctx, hold(Z3_mk_implies(ctx, y, x))); break; case O_ULE: r = Z3_mk_implies(ctx, x, y); break;
      case O_SLT: r = Z3_mk_not(ctx, hold(Z3_mk_implies(ctx, x, y))); break; case O_SLE: r = Z3_mk_implies(ctx, y, x); break;
      case O_SHL: case O_LSHR: a2[1] = hold(Z3_mk_not(ctx, y)); r = Z3_mk_and(ctx, 2, a2); break; case O_ASHR: r = x; break;
      default: r = x;
      }
    } else {
      Z3_ast x = L(n.a), y = L(n.b);
      switch (n.op) {
      case O_ADD: r = Z3_mk_bvadd(ctx, x, y); break; case O_SUB: r = Z3_mk_bvsub(ctx, x, y); break; case O_MUL: r = Z3_mk_bvmul(ctx, x, y); break;
      case O_UDIV: r = Z3_mk_bvudiv(ctx, x, y); break; case O_SDIV: r = Z3_mk_bvsdiv(ctx, x, y); break; case O_UREM: r = Z3_mk_bvurem(ctx, x, y); break; case O_SREM: r = Z3_mk_bvsrem(ctx, x, y); break;
      case O_SHL: r = Z3_mk_bvshl(ctx, x, y); break; case O_LSHR: r = Z3_mk_bvlshr(ctx, x, y); break; case O_ASHR: r = Z3_mk_bvashr(ctx, x, y); break;
      case O_AND: r = Z3_mk_bvand(ctx, x, y); break; case O_OR: r = Z3_mk_bvor(ctx, x, y); break; case O_XOR: r = Z3_mk_bvxor(ctx, x, y); break;
      case O_EQ: r = Z3_mk_eq(ctx, x, y); break; case O_ULT: r = Z3_mk_bvult(ctx, x, y); break; case O_ULE: r = Z3_mk_bvule(ctx, x, y); break; case O_SLT: r = Z3_mk_bvslt(ctx, x, y); break; case O_SLE: r = Z3_mk_bvsle(ctx, x, y); break;
      default: fprintf(stderr, "lower: op %d\n", n.op); abort();
      }
    } }
  }
  Z3_inc_ref(ctx, r);
  if (LOW.size() <= e) LOW.resize(N.size() * 2, nullptr);
  LOW[e] = r; return r;
}
static std::vector<u32> pc;
struct Model { std::vector<u64> v; Z3_model m; };
static Model newm;
static void takeModel(Z3_model m) {
  Z3_model_inc_ref(ctx, m);
  newm.m = m; newm.v.clear();
  for (auto &x : vars) {
    u64 val = 0;
    if (x.w <= 64) {
      Z3_ast r; if (Z3_model_eval(ctx, m, lower(x.id), true, &r)) {
        if (x.w == 1) val = Z3_get_bool_value(ctx, r) == Z3_L_TRUE; else { uint64_t q = 0; Z3_get_numeral_uint64(ctx, r, &q); val = q; }
      }
    }
    newm.v.push_back(val);
  }
}
static void adopt() { for (size_t i = 0; i < newm.v.size(); i++) vars[i].val = newm.v[i]; curm = newm.m; egen++; }
static bool hasReal = false;
static void dumpQuery(u32 extra);
static void limits();
// 1 sat, 0 unsat, -1 unknown
static void dumpQuery(u32 x);
static int check(u32 extra) {
  limits();
  double t0 = now(); disarm();
  int r;
  Z3_solver_push(ctx, sol); Z3_solver_assert(ctx, sol, lower(extra));
  Z3_lbool b = Z3_solver_check(ctx, sol);
  if (b == Z3_L_TRUE) { takeModel(Z3_solver_get_model(ctx, sol)); r = 1; }
  else if (b == Z3_L_FALSE) r = 0;
  else r = -1;
  Z3_solver_pop(ctx, sol, 1);
  if (r == -1) { // second opinion: fresh default solver (nlsat etc.)
    Z3_solver s2 = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s2);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 60000000); Z3_solver_set_params(ctx, s2, p);
    for (u32 c : pc) Z3_solver_assert(ctx, s2, lower(c));
    Z3_solver_assert(ctx, s2, lower(extra));
    b = Z3_solver_check(ctx, s2);
    if (b == Z3_L_TRUE) { takeModel(Z3_solver_get_model(ctx, s2)); r = 1; } else if (b == Z3_L_FALSE) r = 0;
    Z3_solver_dec_ref(ctx, s2);
  }
  if (r == 1 && !N[extra].real && newm.v.size() == vars.size()) { // the solver's model must satisfy the formula as this engine evaluates it
    std::vector<u64> old(vars.size()); for (size_t i = 0; i < vars.size(); i++) { old[i] = vars[i].val; vars[i].val = newm.v[i]; }
    egen++; bool ok = eval(extra); for (size_t i = 0; i < vars.size(); i++) vars[i].val = old[i]; egen++;
    if (!ok) { fprintf(stderr, "engine: a model does not satisfy its query\n"); abort(); }
  }
  arm();
  sh->queries++; if (r == 1) sh->q_sat++; else if (r == 0) sh->q_unsat++; else sh->q_unknown++;
  sh->solver_us += (long)((now() - t0) * 1e6);
  if (now() - t0 > 3 && getenv("SX_SLOW")) { static int n = 0; if (n++ < 3) { dumpQuery(r == 1 ? extra | 0x80000000u : extra); fprintf(stderr, "slow query %g s r=%d\n", now() - t0, r); void *b[30]; int m = backtrace(b, 30); backtrace_symbols_fd(b, m, 2); } }
  if (sh->dump_every && r >= 0 && (sh->queries % sh->dump_every) == 0 && sh->dumped < sh->dump_max) { sh->dumped++; dumpQuery(r == 1 ? extra | 0x80000000u : extra); }
  return r;
}
static void dumpQuery(u32 x) {
  bool sat = x >> 31; x &= 0x7fffffff;
  Z3_solver s2 = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s2);
  for (u32 c : pc) Z3_solver_assert(ctx, s2, lower(c));
  Z3_solver_assert(ctx, s2, lower(x));
  static int seq = 0;
  std::string f = outdir + "/q-" + std::to_string(getpid()) + "-" + std::to_string(seq++) + (sat ? "-sat" : "-unsat") + ".smt2";
  FILE *o = fopen(f.c_str(), "w"); if (o) { fprintf(o, "(set-logic ALL)\n%s\n(check-sat)\n", Z3_solver_to_string(ctx, s2)); fclose(o); }
  Z3_solver_dec_ref(ctx, s2);
}
static u32 stripVar(u32 e) { while (N[e].op == O_ZEXT || N[e].op == O_SEXT) e = N[e].a; return N[e].op == O_VAR ? e : 0; }
static void fixVar(u32 e, u64 v) { u64 k = N[e].k; if (k >= 127) return; vars[k].fixed = true; if (k < 64) fixl |= 1ull << k; else fixh |= 1ull << (k - 64); (void)v; }
static std::unordered_map<u32, u8> known; // facts implied by the path condition
static void addpc(u32 e) {
  if (isc(e)) return;
  pc.push_back(e); Z3_solver_assert(ctx, sol, lower(e)); known[e] = 1;
  Node n = N[e];
  if (n.op == O_EQ && isc(n.b)) { u32 v = stripVar(n.a); if (v) fixVar(v, N[n.b].k); }
  if (n.op == O_VAR) fixVar(e, 1);
  if (n.op == O_NOT && N[n.a].op == O_VAR) fixVar(n.a, 0);
  if (n.op == O_AND && N[e].w == 1) { known[n.a] = 1; known[n.b] = 1; }
}

// ------------------------------------------------------------------ process tree
static bool haveToken = true;
static void record(const char *file, const std::string &line) {
  std::string p = outdir + "/" + file; int fd = open(p.c_str(), O_CREAT | O_APPEND | O_WRONLY, 0644);
  if (fd >= 0) { std::string l = line + "\n"; (void)!write(fd, l.data(), l.size()); close(fd); }
}
static std::string modelStr() {
  std::string s;
  for (auto &v : vars) {
    s += v.name; s += '=';
    if (v.w <= 64) s += std::to_string((v.w == 32) ? (long long)(int)v.val : (long long)v.val);
    else { Z3_ast r; std::string q = "0"; if (curm && Z3_model_eval(ctx, curm, lower(v.id), true, &r)) { q = Z3_get_numeral_string(ctx, r); } s += q; }
    s += ' ';
  }
  return s;
}
static std::string clean(std::string s) { for (auto &c : s) if (c == '|' || c == '\n') c = '/'; return s; }
static void flushFns();
static std::vector<std::string> reached;
[[noreturn]] static void leave(int code) {
  flushFns();
  if (haveToken) sem_post(&sh->tokens);
  _exit(code);
}
static bool stopping() { return sh->stop || (sh->deadline > 0 && now() > sh->deadline); }
// fork; returns true in the child
static bool sxfork() {
  if (stopping()) { sh->stop = 1; sh->incomplete++; leave(0); }
  bool got = sem_trywait(&sh->tokens) == 0;
  sh->forks++;
  fflush(stdout);
  pid_t p;
  while ((p = fork()) < 0) { usleep(20000); }
  if (p == 0) { haveToken = got; sh->procs++; arm(); return true; }
  if (!got) {
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { sh->lost++; record("lost.txt", std::to_string(WTERMSIG(st))); }
  }
  arm();
  return false;
}
static void violation(const char *kind, const std::string &msg) {
  sh->violations++;
  if (sh->violations <= 200) record("viol.txt", std::string(kind) + "|" + clean(msg) + "|" + modelStr());
}
static void limits() { // a path that never ends: reported as a hang (confirmed natively) or as incomplete
  if (stopping()) { sh->stop = 1; sh->incomplete++; leave(0); }
  static unsigned n = 0; if (++n & 7) return;
  timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  if (t.tv_sec > sh->path_s || N.size() > 12000000) { violation("hang", "path limit exceeded"); sh->incomplete++; leave(0); }
}
static bool decide(u32 e) {
  if (isc(e)) return N[e].k;
  if (allFixed(e)) return eval(e);
  auto k = known.find(e); if (k != known.end()) return k->second;
  u32 ne = enot(e);
  k = known.find(ne); if (k != known.end()) return !k->second;
  bool v = eval(e);
  u32 other = v ? ne : e, same = v ? e : ne;
  sh->branches++;
  int r = check(other);
  if (r == 0) { known[e] = v; return v; }
  if (r < 0) sh->unknown_branch++;
  if (sxfork()) {
    addpc(other);
    if (r == 1) adopt();
    else { // unknown: keep going without a valid model
      egen++; }
    return !v;
  }
  addpc(same);
  return v;
}
static std::unordered_map<u32, u64> concd;
static u64 concretize(u32 e) {
  unsigned guard = 0;
  while (true) {
    if (isc(e)) return N[e].k;
    if (allFixed(e)) return eval(e);
    auto it = concd.find(e); if (it != concd.end()) return it->second;
    u64 v = eval(e); u32 eq = ebin(O_EQ, e, ec(v, N[e].w)), ne = enot(eq);
    sh->branches++; sh->concretizations++;

    int r = check(ne);
    if (r == 0) { concd[e] = v; u32 q = stripVar(e); if (q) fixVar(q, v); return v; }
    if (sxfork()) { addpc(eq); concd[e] = v; return v; }
    addpc(ne); if (r == 1) adopt();
    if (++guard > 4096) { record("warn.txt", "concretization limit"); sh->incomplete++; leave(0); }
  }
}
extern "C" int sx_decide_expr(u32 e) { return decide(e); }

// ------------------------------------------------------------------ shadow memory
static u32 **top1[1 << 17]; // addr>>30
static inline u32 *page(u64 a, bool make) {
  u32 **&t = top1[(a >> 30) & 0x1ffff];
  if (!t) { if (!make) return nullptr; t = (u32 **)mmap(nullptr, (1 << 18) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  u32 *&p = t[(a >> 12) & 0x3ffff];
  if (!p) { if (!make) return nullptr; p = (u32 *)mmap(nullptr, 4096 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  return p;
}
static inline u32 getb(u64 a) { u32 *p = page(a, false); return p ? p[a & 4095] : 0; }
static inline void setb(u64 a, u32 v) { u32 *p = page(a, v != 0); if (p) p[a & 4095] = v; }
static void memfault(u64 a, unsigned n, bool wr) { violation("memory", std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes outside a live heap object"); leave(0); }
static inline void chk(u64 a, u64 n, bool wr) {
  if (!in_arena(a)) return;
  u64 e = a + n - 1;
  for (u64 g = a & ~15ull; g <= e; g += 16) { u8 v = stmap[(g - ARENA) / 16]; u64 last = std::min(e, g + 15) - g; if (v <= last) memfault(a, n, wr); }
}
extern "C" {
static u32 pend;
u32 __sx_load(void *p, u32 n) {
  if (pend) { u32 r = pend; pend = 0; return r; }
  u64 a = (u64)p; chk(a, n, false); if (sx_logging) logacc(a, n, 0, __builtin_return_address(0));
  u32 *pg = page(a, false);
  if ((a & 4095) + n <= 4096) {
    if (!pg) return 0;
    u32 *s = pg + (a & 4095); u32 any = 0; for (u32 i = 0; i < n; i++) any |= s[i];
    if (!any) return 0;
    u32 id = s[0] >> 3; bool same = (s[0] & 7) == 0 && id && N[id].w == n * 8;
    if (id && (s[0] & 7) == 0 && n == 1 && N[id].w == 1) return ezext(id, 8);
    for (u32 i = 1; same && i < n; i++) if (s[i] != ((id << 3) | i)) same = false;
    if (same) return id;
  } else { u32 any = 0; for (u32 i = 0; i < n; i++) any |= getb(a + i); if (!any) return 0; }
  u32 r = 0;
  for (u32 i = 0; i < n; i++) {
    u32 b = getb(a + i); u32 e;
    if (!b) e = ec(((u8 *)p)[i], 8);
    else { u32 id = b >> 3, off = b & 7; e = N[id].w == 1 ? ezext(id, 8) : eextract(id, off * 8, 8); }
    r = i == 0 ? e : econcat(e, r);
  }
  return r; // may be a constant expression: the shadow, not the native bytes, carries the value
}
void __sx_store(void *p, u32 n, u32 s) {
  u64 a = (u64)p; chk(a, n, true); if (sx_logging) logacc(a, n, 1, __builtin_return_address(0));
  if (!s) { u32 *pg = page(a, false); if ((a & 4095) + n <= 4096) { if (pg) for (u32 i = 0; i < n; i++) pg[(a & 4095) + i] = 0; } else for (u32 i = 0; i < n; i++) setb(a + i, 0); return; }
  if (N[s].w != n * 8) s = ezext(s, n * 8);
  for (u32 i = 0; i < n; i++) setb(a + i, (s << 3) | i);
}
void __sx_clear(void *p, u64 n) {
  u64 a = (u64)p, e = a + n;
  while (a < e) { u64 k = std::min(e - a, 4096 - (a & 4095)); u32 *pg = page(a, false); if (pg) memset(pg + (a & 4095), 0, k * 4); a += k; }
}
void __sx_loadchk(void *p, u32 n) {
  chk((u64)p, n, false); if (sx_logging) logacc((u64)p, n, 0, __builtin_return_address(0));
  for (u32 i = 0; i < n; i++) if (getb((u64)p + i)) { u64 a = (u64)p + i; u32 b = getb(a); u64 v = concretize(eextract(ezext(b >> 3, N[b >> 3].w == 1 ? 8 : N[b >> 3].w), (b & 7) * 8, 8)); *(u8 *)a = v; setb(a, 0); }
}
void __sx_copy(void *d, void *s, u64 n) {
  u64 a = (u64)d, b = (u64)s; if (!n || !s) return;
  chk(a, n, true); chk(b, n, false);
  if (sx_logging) { logacc(b, n, 0, __builtin_return_address(0)); logacc(a, n, 1, __builtin_return_address(0)); }
  if (a < b || a >= b + n) {
    for (u64 i = 0; i < n;) {
      u32 *ps = page(b + i, false), *pd = page(a + i, false);
      u64 k = std::min({n - i, 4096 - ((a + i) & 4095), 4096 - ((b + i) & 4095)});
      if (!ps) { if (pd) memset(pd + ((a + i) & 4095), 0, k * 4); }
      else { for (u64 j = 0; j < k; j++) setb(a + i + j, ps[((b + i) & 4095) + j]); }
      i += k;
    }
  } else for (u64 i = n; i-- > 0;) setb(a + i, getb(b + i));
}
void __sx_set(void *d, u32 s, u8 v, u64 n) {
  chk((u64)d, n ? n : 1, true); if (sx_logging) logacc((u64)d, n, 1, __builtin_return_address(0));
  if (!s) { __sx_clear(d, n); return; }
  u32 b = N[s].w == 8 ? s : eextract(s, 0, 8);
  for (u64 i = 0; i < n; i++) setb((u64)d + i, b << 3);
}
static u32 res(u32 e, unsigned w) { return e; }
// constants produced by simplification stay expressions (the native value is garbage): the compiler-side
// shadow is an id, constants included.
u32 __sx_bin(u32 op, u32 w, u32 sa, u64 a, u32 sb, u64 b) {
  static const u8 m[64] = {};
  (void)m;
  u32 x = toe(sa, a, w), y = toe(sb, b, w);
  u8 o;
  switch (op) { // llvm::Instruction opcodes (LLVM 18)
  case 13: o = O_ADD; break; case 15: o = O_SUB; break; case 17: o = O_MUL; break; case 19: o = O_UDIV; break; case 20: o = O_SDIV; break;
  case 22: o = O_UREM; break; case 23: o = O_SREM; break; case 25: o = O_SHL; break; case 26: o = O_LSHR; break; case 27: o = O_ASHR; break;
  case 28: o = O_AND; break; case 29: o = O_OR; break; case 30: o = O_XOR; break;
  default: fprintf(stderr, "binop %u\n", op); abort();
  }
  return ebin(o, x, y);
}
static u32 cmpx(u32 pred, u32 w, u32 sa, u64 a, u32 sb, u64 b) {
  u32 x = toe(sa, a, w), y = toe(sb, b, w);
  switch (pred) { // CmpInst::Predicate
  case 32: return ebin(O_EQ, x, y); case 33: return enot(ebin(O_EQ, x, y));
  case 34: return ebin(O_ULT, y, x); case 35: return ebin(O_ULE, y, x); case 36: return ebin(O_ULT, x, y); case 37: return ebin(O_ULE, x, y);
  case 38: return ebin(O_SLT, y, x); case 39: return ebin(O_SLE, y, x); case 40: return ebin(O_SLT, x, y); case 41: return ebin(O_SLE, x, y);
  }
  abort();
}
u32 __sx_cmp(u32 pred, u32 w, u32 sa, u64 a, u32 sb, u64 b) {
  u32 e = cmpx(pred, w, sa, a, sb, b);
  if (isc(e) || known.empty()) return e;
  auto k = known.find(e); if (k != known.end()) return ec(k->second, 1); // decided by the path condition
  k = known.find(enot(e)); if (k != known.end()) return ec(!k->second, 1);
  return e;
}
u32 __sx_cast(u32 sx, u32 wf, u32 wt, u32 s) { if (wt < wf) return eextract(s, 0, wt); return sx ? esext(s, wt) : ezext(s, wt); }
u32 __sx_ite(u32 w, u32 c, u32 sa, u64 a, u32 sb, u64 b) { return eite(c, toe(sa, a, w), toe(sb, b, w)); }
bool __sx_br(u32 s, bool c) { if (!s) return c; return decide(s); }
u64 __sx_conc(u32 s, u64 v) { if (!s) return v; return concretize(s); }
static inline bool ownText(void *f) { extern char __executable_start, etext; return f >= &__executable_start && f < &etext; }
u64 __sx_icarg(void *f, u32 s, u64 v) { if (!s || ownText(f)) return v; return concretize(s); }
void __sx_extmem(void *p);
void __sx_icmem(void *f, void *p) { if (!ownText(f)) __sx_extmem(p); }
// Load through a symbolic address: the solver enumerates the feasible addresses; up to LDMAX of them become an
// if-then-else over the cells read (no path split); more are split into paths.
static std::unordered_map<u32, std::vector<u64>> ldmemo;
void *__sx_ldaddr(u32 s, void *p, u32 n) {
  const unsigned LDMAX = 64;
  if (!s) return p;
  if (isc(s)) return (void *)N[s].k;
  if (allFixed(s)) return (void *)eval(s);
  auto it = concd.find(s); if (it != concd.end()) return (void *)it->second;
  auto &vals = ldmemo[s];
  if (vals.empty()) {
    u64 v = eval(s); auto sv = vars; auto sm = curm;
    u32 ne = ec(1, 1);
    while (true) {
      vals.push_back(v);
      if (vals.size() > LDMAX) break;
      ne = ebin(O_AND, ne, enot(ebin(O_EQ, s, ec(v, 64))));
      int r = isc(ne) && !N[ne].k ? 0 : check(ne);
      if (r == 0) break;
      if (r < 0) { vals.assign(LDMAX + 1, 0); break; }
      auto sv2 = vars; auto sm2 = curm; adopt(); v = eval(s); vars = sv2; curm = sm2; egen++;
    }
    vars = sv; curm = sm; egen++;
  }
  if (vals.size() > LDMAX) return (void *)concretize(s);
  for (u64 a : vals) { if (a < 65536) { memfault(a, n, false); } chk(a, n, false); }
  u32 r = 0;
  for (u64 a : vals) { // stale values (made infeasible later) are harmless
    u32 c = __sx_load((void *)a, n); if (!c) { u64 k = 0; memcpy(&k, (void *)a, n); c = ec(k, n * 8); }
    r = r ? eite(ebin(O_EQ, s, ec(a, 64)), c, r) : c;
  }
  pend = r; return (void *)vals[0];
}
void *__sx_addr(u32 s, void *p) { if (!s) return p; return (void *)concretize(s); }
u64 __sx_switch(u32 s, u64 v, u32 w, u32 n, const u64 *cs) {
  if (!s) return v;
  for (u32 i = 0; i < n; i++) if (decide(ebin(O_EQ, s, ec(cs[i], w)))) return cs[i];
  for (u64 k = 0;; k++) { bool hit = false; for (u32 i = 0; i < n; i++) if ((cs[i] & mask(w)) == (k & mask(w))) hit = true; if (!hit) return k; if (k > n + 2) return k; }
}
void __sx_divchk(u32 s, u64 v, u32 w) {
  if (!s) { if ((v & mask(w)) == 0) { violation("arithmetic", "integer division by zero"); leave(0); } return; }
  if (decide(ebin(O_EQ, s, ec(0, w)))) { violation("arithmetic", "integer division by zero"); leave(0); }
}
u32 __sx_gep(u32 sa, u64 av, u32 si, u64 iv, u32 iw, u64 scale) {
  u32 a = toe(sa, av, 64);
  u32 i = si ? (N[si].w < 64 ? esext(si, 64) : si) : ec(iv, 64);
  return ebin(O_ADD, a, ebin(O_MUL, i, ec(scale, 64)));
}
u32 __sx_intr(u32 code, u32 w, u32 sa, u64 a, u32 sb, u64 b, u32 sc, u64 c) {
  u32 x = toe(sa, a, w), y = code == 5 || code == 6 || (code >= 9 && code <= 11) ? 0 : toe(sb, b, w);
  switch (code) {
  case 1: return eite(ebin(O_SLT, x, y), y, x); case 2: return eite(ebin(O_SLT, x, y), x, y);
  case 3: return eite(ebin(O_ULT, x, y), y, x); case 4: return eite(ebin(O_ULT, x, y), x, y);
  case 5: return eite(ebin(O_SLT, x, ec(0, w)), ebin(O_SUB, ec(0, w), x), x);
  case 6: { u32 r = 0; for (unsigned i = 0; i < w / 8; i++) { u32 by = eextract(x, i * 8, 8); r = i == 0 ? by : econcat(r, by); } return r; }
  case 7: return eite(ebin(O_ULT, x, y), ec(0, w), ebin(O_SUB, x, y));
  case 8: { u32 s = ebin(O_ADD, x, y); return eite(ebin(O_ULT, s, x), ec(mask(w), w), s); }
  case 9: { u32 r = ec(0, w); for (unsigned i = 0; i < w; i++) r = ebin(O_ADD, r, ezext(eextract(x, i, 1), w)); return r; }
  case 10: { u32 r = ec(w, w); for (int i = w - 1; i >= 0; i--) r = eite(eextract(x, i, 1), ec(i, w), r); return r; }
  case 11: { u32 r = ec(w, w); for (unsigned i = 0; i < w; i++) r = eite(eextract(x, i, 1), ec(w - 1 - i, w), r); return r; }
  case 12: case 13: { u64 k; u32 z = toe(sc, c, w); if (!isc(z)) k = concretize(z); else k = N[z].k; k %= w; if (!k) return code == 12 ? x : y; if (code == 13) k = w - k; return ebin(O_OR, ebin(O_SHL, x, ec(k, w)), ebin(O_LSHR, y, ec(w - k, w))); }
  }
  u32 base = code & ~1u; bool ov = code & 1; u32 r;
  u8 op = base == 20 || base == 22 ? O_ADD : base == 24 || base == 26 ? O_SUB : O_MUL;
  r = ebin(op, x, y);
  if (!ov) return r;
  if (base == 20) return ebin(O_ULT, r, x);
  if (base == 24) return ebin(O_ULT, x, y);
  if (w <= 32) { unsigned W = w * 2; bool sg = base == 22 || base == 26 || base == 30; u32 X = sg ? esext(x, W) : ezext(x, W), Y = sg ? esext(y, W) : ezext(y, W); u32 R = ebin(op, X, Y); return enot(ebin(O_EQ, R, sg ? esext(eextract(R, 0, w), W) : ezext(eextract(R, 0, w), W))); }
  if (base == 28) { // umul overflow 64
    u32 q = ebin(O_UDIV, ec(mask(w), w), y); return eite(ebin(O_EQ, y, ec(0, w)), ec(0, 1), ebin(O_ULT, q, x)); }
  if (base == 22) { u32 sx = ebin(O_SLT, x, ec(0, w)), sy = ebin(O_SLT, y, ec(0, w)), sr = ebin(O_SLT, r, ec(0, w)); return ebin(O_AND, ebin(O_EQ, sx, sy), enot(ebin(O_EQ, sx, sr))); }
  if (base == 26) { u32 sx = ebin(O_SLT, x, ec(0, w)), sy = ebin(O_SLT, y, ec(0, w)), sr = ebin(O_SLT, r, ec(0, w)); return ebin(O_AND, enot(ebin(O_EQ, sx, sy)), enot(ebin(O_EQ, sx, sr))); }
  // smul overflow, 64 bit: via magnitude division
  { u32 z = ec(0, w); u32 q = ebin(O_SDIV, r, y); u32 mn = ec(1ull << (w - 1), w);
    u32 bad = ebin(O_AND, ebin(O_EQ, y, ec(mask(w), w)), ebin(O_EQ, x, mn));
    return eite(ebin(O_EQ, y, z), ec(0, 1), ebin(O_OR, bad, enot(ebin(O_EQ, q, x)))); }
}
void sx_extrange(u64 a, u64 n) { // make the symbolic bytes of [a, a+n) concrete (every value is explored)
  for (u64 i = 0; i < n; i++) { u32 *pg = page(a + i, false); if (!pg) { i = ((a + i) | 4095) - a; continue; }
    u32 b = pg[(a + i) & 4095]; if (!b) continue;
    sh->extmem++;
    if (getenv("SX_EXTDBG")) { void *b[8]; int m = backtrace(b, 8); backtrace_symbols_fd(b, m, 2); write(2, "--\n", 3); }
    u32 id = b >> 3; u32 e = N[id].w == 1 ? ezext(id, 8) : eextract(id, (b & 7) * 8, 8);
    u64 v = isc(e) ? N[e].k : concretize(e); *(u8 *)(a + i) = v; setb(a + i, 0); }
}
void __sx_extmem(void *p) {
  u64 a = (u64)p; if (a < 4096) return;
  u64 n = sx_objsize(p); if (!n) { if (in_arena(a)) return; n = 128; }
  sx_extrange(a, n > 65536 ? 65536 : n);
}
void __sx_atomic(void *p, u32 n, u32 kind) { __sx_loadchk(p, n); if (sx_logging) { sx_log.pop_back(); sx_log.push_back({(u64)p, n, (u8)(2 + (kind != 0)), sx_tid, __builtin_return_address(0)}); } if (kind) __sx_clear(p, n); }
static struct { const char **n; u8 **f; u32 k; u32 base; } fns[512]; static int nfns; static u32 fnbase;
void __sx_regfns(const char **n, u8 **f, u32 k) { if (nfns < 512) { fns[nfns++] = {n, f, k, fnbase}; fnbase += k; } }
}
static void flushFns() { for (int i = 0; i < nfns; i++) for (u32 j = 0; j < fns[i].k; j++) if (*fns[i].f[j] && fns[i].base + j < sizeof sh->fn) sh->fn[fns[i].base + j] = 1; }

// ------------------------------------------------------------------ harness API
static u32 newvar(const std::string &nm, u8 w) {
  std::string name = nm; int k = 1;
  bool dup = true; while (dup) { dup = false; for (auto &v : vars) if (v.name == name) { name = nm + "#" + std::to_string(k++); dup = true; break; } }
  vars.push_back({name, 0, w, 0, false, 0}); u32 id = mk(O_VAR, w, 0, 0, 0, vars.size() - 1); vars.back().id = id;
  if (vars.size() > sh->nvars) sh->nvars = vars.size();
  if (w > 64) { hasReal = true; if (!curm) { check(ec(1, 1)); adopt(); } }
  return id;
}
u32 sx_newvar(const std::string &nm, u8 w) { return newvar(nm, w); }
static void seti(u32 id, u64 v) { for (auto &x : vars) if (x.id == id) x.val = v; egen++; }
static void assumeE(u32 e) {
  if (isc(e)) { if (!N[e].k) { sh->assumed_out++; leave(0); } return; }
  if (eval(e) && !N[e].real) { addpc(e); return; }
  int r = check(e);
  if (r == 0) { sh->assumed_out++; leave(0); }
  addpc(e); if (r == 1) adopt();
}
void sx_assume_expr(u32 e) { assumeE(e); }
// SX_DUMP=file: evaluate the expression of a failing assertion node by node (debugging aid)
static std::unordered_map<u32,int> pseen;
static void pe(u32 e, FILE *o) { if (!e || pseen[e]++) return; Node n = N[e]; if (n.op != O_CONST && n.op != O_VAR) { if (n.a) pe(n.a, o); if (n.b) pe(n.b, o); if (n.c) pe(n.c, o); }
  Z3_ast r; Z3_model_eval(ctx, curm, lower(e), true, &r); fprintf(o, "%u: op %d w %d (%u %u %u k=%llu) = %llu z3 %s\n", e, n.op, n.w, n.a, n.b, n.c, (unsigned long long)n.k, (unsigned long long)eval(e), Z3_ast_to_string(ctx, r)); }
static void assertE(u32 e, const char *msg) {
  sh->asserts++;
  if (isc(e)) { if (!N[e].k) { violation("assert", msg); leave(0); } return; }
  sh->asserts_sym++;
  if (allFixed(e)) { if (!eval(e)) { violation("assert", msg); leave(0); } return; }
  auto k = known.find(e); if (k != known.end() && k->second) return;
  int r = check(enot(e));
  if (r == 0) { known[e] = 1; return; }
  if (r < 0) { sh->unknown_assert++; record("unknown.txt", msg); addpc(e); return; }
  auto savev = vars; auto sm = curm; adopt(); violation("assert", msg); if (getenv("SX_DUMP")) { FILE *o = fopen(getenv("SX_DUMP"), "w"); pe(e, o); fclose(o); } vars = savev; curm = sm; egen++;
  // continue with the values that satisfy it, if any
  assumeE(e);
}
void sx_assert_expr(u32 e, const char *msg) { assertE(e, msg); }
// ------------------------------------------------------------------ threads and data races
// Tasks run to completion where they are started; the log of their accesses and synchronisation is then turned into
// an SMT problem over the times of events (program order, start/join, mutual exclusion): a conflicting pair that can
// happen at the same time is a race in some schedule.
#define RETS0(fn, val) do { __sx_ret[0] = 0; __sx_retfn = (void *)fn; __sx_target = nullptr; return (val); } while (0)
static bool raceMode = false, logPaused = false; static int ntasks = 0; static std::vector<std::pair<u16, u64>> tstack; static int pauses = 0;
extern "C" {
void sxr_race_mode() { __sx_target = nullptr; raceMode = true; }
int sxr_task_begin() {
  __sx_target = nullptr; int k = ++ntasks;
  if (raceMode) { sx_log.push_back({(u64)k, 0, 5, sx_tid, nullptr}); tstack.push_back({sx_tid, taskSP}); sx_tid = k; taskSP = (u64)__builtin_frame_address(0); sx_logging = pauses == 0; }
  RETS0(sxr_task_begin, k);
}
void sxr_task_end() { __sx_target = nullptr; if (raceMode) { sx_tid = tstack.back().first; taskSP = tstack.back().second; tstack.pop_back(); } }
void sxr_sync(int kind, unsigned long what) { __sx_target = nullptr; if (raceMode && sx_logging) sx_log.push_back({what, 0, (u8)kind, sx_tid, nullptr}); }
void sxr_log_pause(int d) { __sx_target = nullptr; pauses += d; if (raceMode && ntasks) sx_logging = pauses == 0; }
}
static std::string pcname(void *pc) {
  char cmd[300]; snprintf(cmd, sizeof cmd, "addr2line -f -C -e /proc/%d/exe %p 2>/dev/null", getpid(), (void *)((u64)pc - 1));
  FILE *f = popen(cmd, "r"); char b[400] = ""; if (f) { if (!fgets(b, sizeof b, f)) b[0] = 0; pclose(f); } b[strcspn(b, "\n")] = 0; return std::string(b).substr(0, 120);
}
static void races() {
  sx_logging = false; raceMode = false;
  struct Ev { int id; u8 kind; u64 what; u32 seg; };
  std::vector<std::vector<Ev>> sync(ntasks + 1); std::vector<u32> seg(ntasks + 1, 0);
  struct G { u16 tid; bool multi, wr; };
  std::unordered_map<u64, G> gs;
  for (auto &a : sx_log) if (a.kind <= 3 && a.n) for (u64 g = a.addr >> 3; g <= (a.addr + a.n - 1) >> 3; g++) {
    auto it = gs.find(g); if (it == gs.end()) gs[g] = {a.tid, false, (a.kind & 1) != 0}; else { if (it->second.tid != a.tid) it->second.multi = true; if (a.kind & 1) it->second.wr = true; } }
  struct Cl { u16 tid; u32 seg; u8 kind; void *pc; u8 lo, hi; };
  std::unordered_map<u64, std::vector<Cl>> cls; int nid = 0;
  for (auto &a : sx_log) {
    if (a.kind > 3) { sync[a.tid].push_back({nid++, a.kind, a.addr, seg[a.tid]}); seg[a.tid]++; continue; }
    if (a.n) for (u64 g = a.addr >> 3; g <= (a.addr + a.n - 1) >> 3; g++) {
      auto &q = gs[g]; if (!q.multi || !q.wr) continue;
      u8 lo = a.addr > g * 8 ? a.addr - g * 8 : 0, hi = std::min<u64>(7, a.addr + a.n - 1 - g * 8);
      auto &v = cls[g]; bool dup = false; for (auto &c : v) if (c.tid == a.tid && c.seg == seg[a.tid] && c.kind == a.kind && c.lo == lo && c.hi == hi && (c.pc == a.pc)) { dup = true; break; }
      if (!dup && v.size() < 4000) v.push_back({a.tid, seg[a.tid], a.kind, a.pc, lo, hi}); } }
  // the schedule constraints
  std::string base; std::vector<std::pair<int, int>> endOf(ntasks + 1);
  for (int k = 0; k < nid; k++) base += "(declare-const s" + std::to_string(k) + " Int)";
  for (int k = 0; k <= ntasks; k++) base += "(declare-const b" + std::to_string(k) + " Int)(declare-const e" + std::to_string(k) + " Int)(assert (< b" + std::to_string(k) + " e" + std::to_string(k) + "))";
  struct CS { int l, u; bool rd; u16 tid; }; std::map<u64, std::vector<CS>> cs;
  for (int k = 0; k <= ntasks; k++) {
    std::string prev = "b" + std::to_string(k); std::map<u64, std::pair<int, bool>> held;
    for (auto &e : sync[k]) {
      std::string me = "s" + std::to_string(e.id); base += "(assert (< " + prev + " " + me + "))"; prev = me;
      if (e.kind == 5) base += "(assert (< " + me + " b" + std::to_string(e.what) + "))";
      if (e.kind == 6 && e.what <= (u64)ntasks) base += "(assert (< e" + std::to_string(e.what) + " " + me + "))";
      if (e.kind == 7 || e.kind == 9) held[e.what] = {e.id, e.kind == 9};
      if (e.kind == 8 && held.count(e.what)) { cs[e.what].push_back({held[e.what].first, e.id, held[e.what].second, (u16)k}); held.erase(e.what); }
    }
    base += "(assert (< " + prev + " e" + std::to_string(k) + "))";
  }
  std::map<std::tuple<u16, u32, u16, u32>, int> memo; std::map<std::pair<void *, void *>, int> rep;
  auto segTime = [&](u16 t, u32 sg, const char *v) { std::string r; std::string nm = v; // event v lies in segment sg of task t
    r += sg == 0 ? "(assert (< b" + std::to_string(t) + " " + nm + "))" : "(assert (< s" + std::to_string(sync[t][sg - 1].id) + " " + nm + "))";
    r += sg >= sync[t].size() ? "(assert (< " + nm + " e" + std::to_string(t) + "))" : "(assert (< " + nm + " s" + std::to_string(sync[t][sg].id) + "))"; return r; };
  auto holding = [&](u16 t, u32 sg) { std::map<u64, int> h; for (u32 i = 0; i < sg && i < sync[t].size(); i++) { auto &e = sync[t][i]; if (e.kind == 7 || e.kind == 9) h[e.what] = i; else if (e.kind == 8) h.erase(e.what); } return h; };
  long nq = 0, shared = 0;
  for (auto &[g, v] : cls) { shared++; for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) {
    auto &a = v[i], &b = v[j];
    if (a.tid == b.tid || !((a.kind | b.kind) & 1) || (a.kind >= 2 && b.kind >= 2) || a.lo > b.hi || b.lo > a.hi) continue;
    auto pk = std::make_pair(std::min(a.pc, b.pc), std::max(a.pc, b.pc)); if (rep.count(pk)) continue;
    auto key = std::make_tuple(a.tid, a.seg, b.tid, b.seg); auto it = memo.find(key); int r;
    if (it != memo.end()) r = it->second;
    else {
      std::string q = base + "(declare-const xa Int)(declare-const xb Int)" + segTime(a.tid, a.seg, "xa") + segTime(b.tid, b.seg, "xb");
      auto ha = holding(a.tid, a.seg), hb = holding(b.tid, b.seg);
      for (auto &[m, p] : ha) if (hb.count(m)) { auto &L = cs[m]; // both hold m: order their critical sections
        for (auto &x : L) for (auto &y : L) if (x.tid == a.tid && y.tid == b.tid && x.l == sync[a.tid][p].id && y.l == sync[b.tid][hb[m]].id && !(x.rd && y.rd))
          q += "(assert (or (< s" + std::to_string(x.u) + " s" + std::to_string(y.l) + ") (< s" + std::to_string(y.u) + " s" + std::to_string(x.l) + ")))"; }
      q += "(assert (= xa xb))";
      r = sx_check_fresh(q); memo[key] = r; nq++;
    }
    sh->asserts++; sh->asserts_sym++;
    if (r == 1) { rep[pk] = 1; violation("race", "two tasks access the same memory without ordering: " + pcname(a.pc) + (a.kind & 1 ? " (write)" : " (read)") + " and " + pcname(b.pc) + (b.kind & 1 ? " (write)" : " (read)")); if (rep.size() > 3) return; }
    else if (r < 0) { sh->unknown_assert++; rep[pk] = 0; }
    if (nq > 20000) { sh->incomplete++; return; }
  } }
}
extern "C" void sxr_races() { __sx_target = nullptr; races(); sx_log.clear(); }
extern "C" int sxr_ntasks() { RETS0(sxr_ntasks, ntasks); }
#define RETS(id, fn, val) do { __sx_ret[0] = (id); __sx_retfn = (void *)fn; __sx_target = nullptr; return (val); } while (0)
extern "C" {
int sx_int(const char *name, int lo, int hi) {
  if (lo > hi) { sh->assumed_out++; leave(0); }
  if (lo == hi) { u32 id = newvar(name, 32); seti(id, (u32)lo); addpc(ebin(O_EQ, id, ec((u32)lo, 32))); RETS(0, sx_int, lo); }
  if (lo >= 0 && hi < 32768) { // narrow variable, zero-extended: cheaper queries
    unsigned k = 2; while ((1 << k) <= hi) k++;
    u32 id = newvar(name, k); seti(id, (u64)lo); vars.back().lo = lo; vars.back().hi = hi;
    if (lo > 0) addpc(ebin(O_ULE, ec(lo, k), id));
    if ((u64)hi < mask(k)) addpc(ebin(O_ULE, id, ec(hi, k)));
    u32 z = ezext(id, 32); RETS(z, sx_int, lo);
  }
  u32 id = newvar(name, 32);
  seti(id, (u64)(u32)lo); vars.back().lo = lo; vars.back().hi = hi;
  addpc(mk(O_SLE, 1, ec((u32)lo, 32), id)); addpc(mk(O_SLE, 1, id, ec((u32)hi, 32)));
  RETS(id, sx_int, lo);
}
bool sx_bool(const char *name) { u32 id = newvar(name, 1); seti(id, 0); RETS(id, sx_bool, false); }
u64 sx_u64(const char *name) { u32 id = newvar(name, 64); seti(id, 0); RETS(id, sx_u64, 0); }
unsigned char sx_byte(const char *name) { u32 id = newvar(name, 8); seti(id, 'a'); RETS(id, sx_byte, 0); }
void sx_assume(bool c) { u32 s = __sx_args[0]; __sx_target = nullptr; assumeE(s ? s : ec(c, 1)); }
void sx_assert(bool c, const char *msg) { u32 s = __sx_args[0]; __sx_target = nullptr; assertE(s ? s : ec(c, 1), msg); }
void sx_fail(const char *msg) { violation("assert", msg); leave(0); }
void sx_stop_path() { sh->paths++; leave(0); }
int sx_conc_int(int v) { u32 s = __sx_args[0]; __sx_target = nullptr; if (s) v = (int)concretize(s); return v; }
bool sx_is_symbolic_build() { return true; }
bool sx_known(long long v) { u32 s = __sx_args[0]; u64 k; bool r = !s || sx_isconst(s, &k); RETS0(sx_known, r); }
void sx_reach(const char *label) {
  if (!label) return;
  for (int i = 0; i < 64; i++) { if (!sh->reach[i][0]) { strncpy(sh->reach[i], label, 47); } if (!strncmp(sh->reach[i], label, 47)) { sh->reachn[i]++; return; } }
}
bool sx_logical_or(bool a, bool b) { u32 x = toe(__sx_args[0], a, 1), y = toe(__sx_args[1], b, 1); u32 r = ebin(O_OR, x, y); RETS(r, sx_logical_or, false); }
bool sx_logical_and(bool a, bool b) { u32 x = toe(__sx_args[0], a, 1), y = toe(__sx_args[1], b, 1); u32 r = ebin(O_AND, x, y); RETS(r, sx_logical_and, false); }
}
// gcd of two bounded values as a formula: the largest d that divides both
extern "C" long long sx_gcd(long long a, long long b) {
  u32 sa = __sx_args[0], sb = __sx_args[1]; __sx_target = nullptr;
  u32 x = toe(sa, (u64)a, 64), y = toe(sb, (u64)b, 64);
  u64 ka, kb; bool ca = sx_isconst(x, &ka), cb = sx_isconst(y, &kb);
  if (ca && cb) { long long p = llabs((long long)ka), q = llabs((long long)kb); while (q) { long long t = p % q; p = q; q = t; } RETS0(sx_gcd, p); }
  u32 z = ec(0, 64);
  auto ab = [&](u32 e) { return eite(ebin(O_SLT, e, z), ebin(O_SUB, z, e), e); };
  u32 ax = ab(x), ay = ab(y);
  Iv p = srange(x), q = srange(y); __int128 mx = std::max(p.second, -p.first), my = std::max(q.second, -q.first);
  if (mx > 100000 && my > 100000) { fprintf(stderr, "gcd of unbounded values\n"); sh->approx++; sh->incomplete++; leave(0); }
  long max = (long)std::min(mx, my);
  unsigned w = std::min(64u, bitsFor({0, std::max(mx, my)}) + 1);
  u32 nx = narrowTo(ax, w), ny = narrowTo(ay, w), r = ec(1, w); // gcd(x, 0) = |x|, gcd(0, 0) = 0
  u32 zw = ec(0, w);
  for (long d = 2; d <= max; d++) {
    if (ca && ka && llabs((long long)ka) % d) continue; if (cb && kb && llabs((long long)kb) % d) continue;
    u32 div = ebin(O_AND, ebin(O_EQ, ebin(O_UREM, nx, ec(d, w)), zw), ebin(O_EQ, ebin(O_UREM, ny, ec(d, w)), zw)); r = eite(div, ec(d, w), r); }
  r = esext(r, 64);
  r = eite(ebin(O_EQ, ax, z), ay, eite(ebin(O_EQ, ay, z), ax, r));
  if (!isc(r)) { u64 v = concretize(r); RETS0(sx_gcd, (long long)v); } // one path per value of the divisor
  RETS(r, sx_gcd, 1);
}
const char *sx_msg_model() { static std::string s; s = modelStr(); return s.c_str(); }
void sx_violation(const char *kind, const std::string &m) { violation(kind, m); }
void sx_leave() { leave(0); }
int sx_check_fresh(const std::string &smt2) { // decide a self-contained SMT-LIB query (schedules); 1 sat 0 unsat -1 unknown
  double t0 = now(); disarm();
  Z3_solver s2 = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s2); Z3_solver_from_string(ctx, s2, smt2.c_str());
  Z3_lbool b = Z3_solver_check(ctx, s2); Z3_solver_dec_ref(ctx, s2); arm();
  sh->queries++; sh->solver_us += (long)((now() - t0) * 1e6);
  if (b == Z3_L_TRUE) { sh->q_sat++; return 1; } if (b == Z3_L_FALSE) { sh->q_unsat++; return 0; } sh->q_unknown++; return -1;
}
static void crash(int sig) {
  static volatile int in = 0; if (in) _exit(9); in = 1;
  if (sig == SIGPROF) violation("hang", "no progress within the CPU-time limit of a path");
  else { if (getenv("SX_VERBOSE")) { void *b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); } violation("crash", std::string("signal ") + strsignal(sig)); }
  leave(0);
}
extern int sx_main();
int main(int argc, char **argv) {
  outdir = argc > 1 ? argv[1] : "/tmp/sxout";
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto env = [](const char *n, long d) { const char *s = getenv(n); return s ? atol(s) : d; };
  long jobs = env("SX_JOBS", 8), secs = env("SX_SECONDS", 600);
  sem_init(&sh->tokens, 1, jobs - 1);
  sh->deadline = now() + secs; sh->hang_ms = env("SX_HANG_MS", 30000); sh->wit_max = env("SX_WIT", 200); sh->dump_every = env("SX_DUMP_EVERY", 0); sh->dump_max = env("SX_DUMP_MAX", 200);
  sh->path_s = env("SX_PATH_SECONDS", 60); sh->wit_every = env("SX_WIT_EVERY", 1);
  N.reserve(1 << 16); if (N.empty()) N.push_back(Node{});
  __libc_single_threaded = 0;
  tlsLo = (u64)__builtin_thread_pointer() - 16384; tlsN = 16384 + 2048;
  arena_init();
  z3init();
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  double t0 = now();
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    sh->procs++;
    stack_t ss; ss.ss_sp = mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = crash; a.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &a, nullptr); }
    arm();
    check(ec(1, 1)); adopt();
    if (!getenv("SX_VERBOSE")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
    sx_main();
    long k = sh->paths++;
    if (k % sh->wit_every == 0 && sh->wits < sh->wit_max) { sh->wits++; record("wit.txt", modelStr()); }
    leave(0);
  }
  // root: wait for the whole tree
  while (true) {
    int st; pid_t q = waitpid(-1, &st, 0);
    if (q < 0) { if (errno == EINTR) continue; break; }
    if (WIFSIGNALED(st)) { sh->lost++; }
  }
  std::string s = "{";
  auto put = [&](const char *k, long v) { if (s.size() > 1) s += ","; s += std::string("\"") + k + "\":" + std::to_string(v); };
  put("paths", sh->paths); put("processes", sh->procs); put("branches", sh->branches); put("forks", sh->forks); put("queries", sh->queries); put("sat", sh->q_sat); put("unsat", sh->q_unsat); put("unknown", sh->q_unknown);
  put("solver_ms", sh->solver_us / 1000); put("asserts", sh->asserts); put("asserts_symbolic", sh->asserts_sym); put("violations", sh->violations); put("unknown_asserts", sh->unknown_assert); put("unknown_branches", sh->unknown_branch);
  put("incomplete", sh->incomplete); put("lost", sh->lost); put("assumed_out", sh->assumed_out); put("concretizations", sh->concretizations); put("extmem", sh->extmem); put("symbolic_inputs_max", sh->nvars); put("wall_ms", (long)((now() - t0) * 1000)); put("approx", sh->approx);
  s += ",\"reach\":{"; bool f = true;
  for (int i = 0; i < 64 && sh->reach[i][0]; i++) { if (!f) s += ","; f = false; s += std::string("\"") + sh->reach[i] + "\":" + std::to_string(sh->reachn[i]); }
  s += "},\"functions\":["; f = true;
  for (int i = 0; i < nfns; i++) for (u32 j = 0; j < fns[i].k; j++) if (fns[i].base + j < sizeof sh->fn && sh->fn[fns[i].base + j]) { if (!f) s += ","; f = false; s += std::string("\"") + fns[i].n[j] + "\""; }
  s += "]}";
  record("summary.json", s);
  return 0;
}
