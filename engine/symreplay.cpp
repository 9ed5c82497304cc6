// Concrete re-execution of one counterexample against the un-instrumented
// build of the same harness and the same /repo sources.
// exit 0: the property held; 1: symrt_check failed; anything else: crash.
#include "symrt.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/resource.h>
#include <unistd.h>
#include <vector>

static std::vector<uint64_t> *In;
static size_t Pos;
static uint64_t next(unsigned Bits, const char *Name) {
  uint64_t V = Pos < In->size() ? (*In)[Pos] : 0;
  ++Pos;
  if (Bits < 64)
    V &= (1ull << Bits) - 1;
  printf("input %s = %llu (0x%llx)\n", Name, (unsigned long long)V,
         (unsigned long long)V);
  return V;
}
extern "C" {
void symrt_make(void *P, uint64_t N, const char *Name) {
  uint64_t I = 0;
  while (I < N) {
    unsigned K = N - I >= 8 ? 8 : N - I >= 4 ? 4 : N - I >= 2 ? 2 : 1;
    if (N != 1 && N != 2 && N != 4 && N % 8)
      K = 1;
    uint64_t V = next(8 * K, Name);
    memcpy((char *)P + I, &V, K);
    I += K;
  }
}
void symrt_bool(void *P, const char *Name) {
  *(unsigned char *)P = (unsigned char)next(1, Name);
}
void symrt_assume(bool C) {
  if (!C) {
    printf("assumption not met by the replayed input\n");
    fflush(stdout);
    _exit(0);
  }
}
void symrt_check(bool C, const char *Id) {
  if (!C) {
    printf("CHECK FAILED %s\n", Id);
    fflush(stdout);
    _exit(1);
  }
}
void symrt_cover(const char *) {}
uint64_t symrt_conc(uint64_t V) { return V; }
void symrt_end(void) {
  fflush(stdout);
  _exit(0);
}
static long Live;
uint64_t symrt_live(void) { return Live; }
void symrt_note(const char *K, uint64_t V) {
  printf("note %s = %llu\n", K, (unsigned long long)V);
}
int symrt_symbolic(void) { return 0; }
}
#ifdef SYM_COUNT_NEW
void *operator new(size_t N) {
  ++Live;
  return malloc(N);
}
void *operator new[](size_t N) {
  ++Live;
  return malloc(N);
}
void operator delete(void *P) noexcept {
  if (P)
    --Live;
  free(P);
}
void operator delete[](void *P) noexcept {
  if (P)
    --Live;
  free(P);
}
void operator delete(void *P, size_t) noexcept {
  if (P)
    --Live;
  free(P);
}
void operator delete[](void *P, size_t) noexcept {
  if (P)
    --Live;
  free(P);
}
#endif
SymGoalReg *&SymGoalReg::head() {
  static SymGoalReg *H;
  return H;
}
SymGoalReg::SymGoalReg(const char *N, SymGoalFn F)
    : Name(N), Fn(F), Next(head()) {
  head() = this;
}
int main(int argc, char **argv) {
  rlimit RC{0, 0};
  setrlimit(RLIMIT_CORE, &RC);
  rlimit RL{64 << 20, 64 << 20};
  setrlimit(RLIMIT_STACK, &RL);
  if (argc < 3)
    return 90;
  In = new std::vector<uint64_t>;
  if (FILE *F = fopen(argv[2], "r")) {
    unsigned long long V;
    while (fscanf(F, "%llu", &V) == 1)
      In->push_back(V);
    fclose(F);
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (auto *G = SymGoalReg::head(); G; G = G->Next)
    if (!strcmp(G->Name, argv[1])) {
      G->Fn();
      printf("goal finished, property held\n");
      fflush(stdout);
      _exit(0);
    }
  return 91;
}
