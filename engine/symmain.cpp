#include "symrt.h"
extern "C" int symrt_main(int, char **, void *, void *, SymGoalReg *);
extern "C" char __start_symreg[] __attribute__((weak));
extern "C" char __stop_symreg[] __attribute__((weak));
SymGoalReg *&SymGoalReg::head() {
  static SymGoalReg *H;
  return H;
}
SymGoalReg::SymGoalReg(const char *N, SymGoalFn F)
    : Name(N), Fn(F), Next(head()) {
  head() = this;
}
int main(int argc, char **argv) {
  return symrt_main(argc, argv, __start_symreg, __stop_symreg,
                    SymGoalReg::head());
}
