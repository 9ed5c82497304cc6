// Instrumented, branch-light replacements for libc calls on possibly symbolic
// bytes (the pass redirects calls from instrumented code to these).
#include <cstddef>
#include <cstdint>
extern "C" {
__attribute__((noinline)) int symlibc_memcmp(const void *A, const void *B, size_t N) {
  const unsigned char *X = (const unsigned char *)A, *Y = (const unsigned char *)B;
  int R = 0;
  for (size_t I = N; I-- > 0;) {
    int D = (int)X[I] - (int)Y[I];
    R = D ? D : R;
  }
  return R;
}
__attribute__((noinline)) int symlibc_bcmp(const void *A, const void *B, size_t N) {
  const unsigned char *X = (const unsigned char *)A, *Y = (const unsigned char *)B;
  unsigned R = 0;
  for (size_t I = 0; I < N; ++I)
    R |= (unsigned)(X[I] ^ Y[I]);
  return (int)R;
}
__attribute__((noinline)) size_t symlibc_strlen(const char *A) {
  size_t N = 0;
  while (*(volatile const char *)(A + N))
    ++N;
  return N;
}
__attribute__((noinline)) int symlibc_strcmp(const char *A, const char *B) {
  size_t I = 0;
  for (;; ++I) {
    unsigned char X = *(volatile const unsigned char *)(A + I);
    unsigned char Y = *(volatile const unsigned char *)(B + I);
    if (X != Y)
      return X < Y ? -1 : 1;
    if (!X)
      return 0;
  }
}
__attribute__((noinline)) void *symlibc_memchr(const void *A, int C, size_t N) {
  const volatile unsigned char *X = (const volatile unsigned char *)A;
  for (size_t I = 0; I < N; ++I)
    if (X[I] == (unsigned char)C)
      return (void *)(X + I);
  return nullptr;
}
// decimal only (all uses in phasar pass base 10); saturation not modelled
__attribute__((noinline)) long symlibc_strtol(const char *A, char **End, int Base) {
  const volatile char *P = A;
  while (*P == ' ' || (*P >= '\t' && *P <= '\r'))
    ++P;
  bool Neg = false;
  if (*P == '-' || *P == '+') {
    Neg = *P == '-';
    ++P;
  }
  if (Base != 10)
    __builtin_trap();
  unsigned long V = 0;
  bool Any = false;
  while ((unsigned char)(*P - '0') < 10) {
    V = V * 10 + (unsigned long)(*P - '0');
    Any = true;
    ++P;
  }
  if (End)
    *End = (char *)(Any ? (const char *)P : A);
  return Neg ? -(long)V : (long)V;
}
}
