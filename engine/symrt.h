// Harness API.  The same harness source is linked either with symrt.cpp
// (symbolic exploration) or with symreplay.cpp (plain concrete re-execution of
// one counterexample, no instrumentation).
#pragma once
#include <cstdint>
#include <cstddef>
#include <type_traits>

extern "C" {
// n bytes at p become a fresh symbolic input called name
void symrt_make(void *p, uint64_t n, const char *name);
// *p becomes a fresh symbolic boolean
void symrt_bool(void *p, const char *name);
void symrt_assume(bool c);                  // restrict the explored inputs
void symrt_check(bool c, const char *id);   // the property
void symrt_cover(const char *label);        // reachability witness
uint64_t symrt_conc(uint64_t v);            // fork on every feasible value
void symrt_end(void);                       // end this path
uint64_t symrt_live(void);                  // live heap blocks
void symrt_note(const char *key, uint64_t v); // recorded with violations
int symrt_symbolic(void);                   // 1 under the engine
}

using SymGoalFn = void (*)();
struct SymGoalReg {
  const char *Name;
  SymGoalFn Fn;
  SymGoalReg *Next;
  static SymGoalReg *&head();
  SymGoalReg(const char *N, SymGoalFn F);
};
#define SYM_GOAL(NAME)                                                         \
  static void symgoal_##NAME();                                                \
  static SymGoalReg symgoalreg_##NAME(#NAME, symgoal_##NAME);                  \
  static void symgoal_##NAME()

template <class T> inline T sym_any(const char *Name) {
  static_assert(std::is_trivially_copyable_v<T>);
  T V{};
  symrt_make(&V, sizeof(T), Name);
  return V;
}
inline bool sym_bool(const char *Name) {
  unsigned char V = 0;
  symrt_bool(&V, Name);
  return V & 1;
}
// symbolic value in [Lo, Hi]
template <class T> inline T sym_range(const char *Name, T Lo, T Hi) {
  T V = sym_any<T>(Name);
  symrt_assume((V >= Lo) & (V <= Hi));
  return V;
}
// small-domain value: the solver enumerates every feasible value, each is
// explored on its own paths
template <class T = unsigned> inline T sym_pick(const char *Name, T Lo, T Hi) {
  T V = sym_range<T>(Name, Lo, Hi);
  return static_cast<T>(symrt_conc(static_cast<uint64_t>(V)));
}
inline bool sym_pickbool(const char *Name) {
  return symrt_conc(sym_bool(Name)) & 1;
}
#define SYM_CHECK(C, ID) symrt_check((C), (ID))
