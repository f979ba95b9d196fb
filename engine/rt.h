#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <semaphore.h>
#include <string>
#include <vector>
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
enum { W_REAL = 100, W_INT = 101 };
enum : u8 { O_CONST = 1, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_NOT, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
  O_RCONST, O_RADD, O_RSUB, O_RMUL, O_RDIV, O_RMOD, O_REQ, O_RLT, O_RLE, O_GCD, O_B2I };
struct Shared {
  sem_t tokens;
  double deadline; long hang_ms, path_s, wit_max, wit_every, dump_every, dump_max;
  std::atomic<int> stop;
  std::atomic<long> procs, paths, branches, forks, queries, q_sat, q_unsat, q_unknown, solver_us, asserts, asserts_sym, violations,
      unknown_assert, unknown_branch, incomplete, lost, assumed_out, concretizations, extmem, wits, dumped, approx;
  std::atomic<long> nvars;
  char reach[64][48]; std::atomic<long> reachn[64];
  u8 fn[65536];
};
extern Shared *sh;
extern "C" {
extern u32 __sx_args[64]; extern void *__sx_target; extern u32 __sx_ret[16]; extern void *__sx_retfn; extern void *__sx_byval[64];
u32 __sx_load(void *p, u32 n); void __sx_store(void *p, u32 n, u32 s); void __sx_clear(void *p, u64 n); void __sx_copy(void *d, void *s, u64 n);
int sx_decide_expr(u32 e);
}
u32 ec(u64 v, unsigned w); u32 enot(u32 e); u32 ebin(u8 op, u32 a, u32 b); u32 eite_pub(u32 c, u32 a, u32 b); u32 ezext(u32 e, unsigned w); u32 esext(u32 e, unsigned w); u32 eextract(u32 e, unsigned lo, unsigned w);
u32 toe(u32 s, u64 v, unsigned w); u32 ereal(const std::string &s, u8 w); u32 erop(u8 op, u32 a, u32 b); u32 eufgcd(u32 a, u32 b);
bool sx_isconst(u32 e, u64 *v); bool sx_rcstr(u32 e, std::string *s); u8 sx_width(u32 e);
u32 sx_newvar(const std::string &nm, u8 w);
void sx_assume_expr(u32 e); void sx_assert_expr(u32 e, const char *msg);
void sx_violation(const char *kind, const std::string &m); void sx_leave();
int sx_check_fresh(const std::string &smt2);
struct SxAcc { u64 addr; u32 n; u8 kind; u16 tid; void *pc; };
template <class T> struct MAlloc { using value_type = T; MAlloc() {} template <class U> MAlloc(const MAlloc<U> &) {} T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); } void deallocate(T *p, size_t) { free(p); } bool operator==(const MAlloc &) const { return true; } };
extern bool sx_logging; extern u16 sx_tid; extern std::vector<SxAcc, MAlloc<SxAcc>> sx_log;
