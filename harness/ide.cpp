// IDE: values are the join over all valid paths of the composed edge functions
#include "minilattice.h"
using namespace psr;

struct Opts {
  std::set<F> Summarised;
  size_t Depth = 4;
  bool UseIdentity = true;
};

template <class Res>
static void compare(const MiniCFG &G, const Flows &Fl, const RefIDE &Ref, const Res &Results,
                    const std::set<N> &DontCare) {
  for (N I = 1; I < G.S.size(); ++I) {
    if (DontCare.count(I))
      continue;
    const auto &Row = Results.resultsAt(I);
    auto Stripped = Results.resultsAt(I, true);
    size_t Cnt = 0;
    for (D X = 0; X < Fl.NF; ++X) {
      symrt_note("statement", I);
      symrt_note("fact", X);
      bool Want = Ref.reached(I, X);
      auto It = Row.find(X);
      symrt_check((It != Row.end()) == Want, "a value is reported exactly for reachable facts");
      if (!Want)
        continue;
      ++Cnt;
      uint8_t V = It->second.V, W = Ref.value(I, X);
      symrt_note("got", V);
      symrt_note("want", W);
      symrt_check((V & W) == W, "the value covers every valid path");
      symrt_check((V & W) == V, "the value covers only valid paths");
      symrt_check(Results.resultAt(I, X).V == V, "single and row lookups agree");
      symrt_check(Stripped.count(X) == (X != 0), "only zero is stripped");
      if (X)
        symrt_check(Stripped[X].V == V, "stripping keeps values");
    }
    symrt_check(Row.size() == Cnt, "no other facts");
  }
  size_t Cells = 0;
  for (auto &C : Results.getAllResultEntries()) {
    ++Cells;
    symrt_check(Results.resultAt(C.getRowKey(), C.getColumnKey()).V == C.getValue().V,
                "listing agrees with lookup");
  }
  size_t Sum = 0;
  for (N I = 1; I < G.S.size(); ++I)
    Sum += Results.resultsAt(I).size();
  symrt_check(Cells == Sum, "listing is complete");
}

static void run(MiniCFG &G, Flows &Fl, EdgeFns &EFs, std::map<N, std::map<D, uint8_t>> Seeds,
                Opts O = {}) {
  G.finish();
  MiniIDE P(&G, &Fl, &EFs);
  P.Summarised = O.Summarised;
  P.UseIdentity = O.UseIdentity;
  for (auto &[I, Xs] : Seeds)
    for (auto &[X, V] : Xs)
      P.SeedMap[I][X] = V;
  P.getIFDSIDESolverConfig().setFollowReturnsPastSeeds(false);
  P.getIFDSIDESolverConfig().setAutoAddZero(true);
  IDESolver<IdeDom> Solver(P, &G);
  Solver.solve();
  RefIDE Ref(G, Fl, EFs);
  Ref.MaxDepth = O.Depth;
  Ref.Summarised = O.Summarised;
  Ref.run(Seeds);
  symrt_cover("solved");
  std::set<N> DontCare;
  for (F Fun : O.Summarised)
    DontCare.insert(Fun->Starts.begin(), Fun->Starts.end());
  compare(G, Fl, Ref, Solver.getSolverResults(), DontCare);
  auto Owned = Solver.consumeSolverResults();
  compare(G, Fl, Ref, Owned, DontCare);
}
static FlowKey normal(N A, N B) { return {Normal, A, B, nullptr, 0}; }
static FlowKey callK(N C, F Fun) { return {Call, C, 0, Fun, 0}; }
static FlowKey retK(N C, F Fun, N E, N R) { return {Ret, E, R, Fun, C}; }
static FlowKey ctrK(N C, N R) { return {CallToRet, C, R, nullptr, 0}; }
static uint8_t val(const char *Nm) { return (sym_any<uint8_t>(Nm) & 3) | 0x80; }

// branch and loop in one function
SYM_GOAL(loop) {
  MiniCFG G;
  Fn *M = G.fn("main");
  N A = G.add(M), B = G.add(M), C = G.add(M), E = G.add(M);
  G.edge(A, B);
  G.edge(B, C);
  G.edge(C, B);
  G.edge(B, E);
  G.exit(E);
  Flows Fl;
  EdgeFns EFs;
  EFs.Free = {normal(A, B), normal(B, C), normal(C, B)};
  if (sym_pickbool("gen")) // fact 1 is only generated, on the way into the loop
    Fl.Fixed[normal(A, B)] = {{0, 1}, {}};
  run(G, Fl, EFs, {{A, {{1, val("seed")}}}});
}
// two facts exchanging values around the loop
SYM_GOAL(loop_facts) {
  MiniCFG G;
  Fn *M = G.fn("main");
  N A = G.add(M), B = G.add(M), E = G.add(M);
  G.edge(A, B);
  G.edge(B, B);
  G.edge(B, E);
  G.exit(E);
  Flows Fl;
  Fl.NF = 3;
  EdgeFns EFs;
  EFs.Bits = 1;
  Fl.Fixed[normal(B, B)] = {{0}, {1, 2}, {1, 2}};
  EFs.Free = {normal(B, B), normal(A, B)};
  run(G, Fl, EFs, {{A, {{1, val("seed")}, {2, val("seed")}}}});
}
static void twoCalls(MiniCFG &G, N &A) {
  Fn *M = G.fn("main"), *Fun = G.fn("f");
  A = G.add(M);
  N C1 = G.add(M), C2 = G.add(M), E = G.add(M);
  N S = G.add(Fun), X = G.add(Fun);
  G.edge(A, C1);
  G.edge(C1, C2);
  G.edge(C2, E);
  G.edge(S, X);
  G.call(C1, {Fun});
  G.call(C2, {Fun});
  G.exit(E);
  G.exit(X);
}
// two calls of one function: call, callee, return and bypass functions
SYM_GOAL(two_calls) {
  MiniCFG G;
  N A;
  twoCalls(G, A);
  N C1 = A + 1, C2 = A + 2, E = A + 3, S = A + 4, X = A + 5;
  F Fun = G.Funs[1].get();
  Flows Fl;
  EdgeFns EFs;
  if (sym_pickbool("bypass"))
    EFs.Free = {callK(C1, Fun), retK(C1, Fun, X, C2), ctrK(C1, C2), ctrK(C2, E), callK(C2, Fun)};
  else {
    Fl.Fixed[ctrK(C1, C2)] = Fl.Fixed[ctrK(C2, E)] = {{0}, {}};
    EFs.Free = {callK(C1, Fun), callK(C2, Fun), normal(S, X), retK(C1, Fun, X, C2), retK(C2, Fun, X, E)};
  }
  run(G, Fl, EFs, {{A, {{1, val("seed")}}}});
}
// one fact in, another one back
SYM_GOAL(two_calls_facts) {
  MiniCFG G;
  N A;
  twoCalls(G, A);
  N C1 = A + 1, C2 = A + 2, E = A + 3, S = A + 4, X = A + 5;
  F Fun = G.Funs[1].get();
  Flows Fl;
  Fl.NF = 3;
  Fl.Fixed[callK(C1, Fun)] = {{0}, {1}, {}};
  Fl.Fixed[callK(C2, Fun)] = {{0}, {1}, {1}};
  Fl.Fixed[normal(S, X)] = {{0}, {1, 2}, {}};
  Fl.Fixed[ctrK(C1, C2)] = Fl.Fixed[ctrK(C2, E)] = {{0}, {1}, {}};
  EdgeFns EFs;
  EFs.Free = {callK(C2, Fun), normal(S, X), retK(C1, Fun, X, C2)};
  run(G, Fl, EFs, {{A, {{1, val("seed")}, {2, val("seed")}}}});
}
static void recursive(MiniCFG &G, N &C) {
  Fn *M = G.fn("main"), *Fun = G.fn("f");
  C = G.add(M);
  N E = G.add(M);
  N S = G.add(Fun), RC = G.add(Fun), X = G.add(Fun);
  G.edge(C, E);
  G.edge(S, RC);
  G.edge(S, X);
  G.edge(RC, X);
  G.call(C, {Fun});
  G.call(RC, {Fun});
  G.exit(E);
  G.exit(X);
}
SYM_GOAL(recursion) {
  MiniCFG G;
  N C;
  recursive(G, C);
  N E = C + 1, S = C + 2, RC = C + 3, X = C + 4;
  F Fun = G.Funs[1].get();
  Flows Fl;
  EdgeFns EFs;
  Fl.Fixed[ctrK(C, E)] = Fl.Fixed[ctrK(RC, X)] = {{0}, {}};
  EFs.Free = {callK(RC, Fun), retK(RC, Fun, X, X), normal(S, X), callK(C, Fun)};
  run(G, Fl, EFs, {{C, {{1, val("seed")}}}});
}
// indirect call: two callees, one with two exits, plus a declaration
SYM_GOAL(indirect) {
  MiniCFG G;
  Fn *M = G.fn("main"), *Fun = G.fn("f"), *Decl = G.fn("decl"), *H = G.fn("g");
  N C = G.add(M), E = G.add(M);
  N X = G.add(Fun);
  N T = G.add(H), Y1 = G.add(H), Y2 = G.add(H);
  G.edge(C, E);
  G.edge(T, Y1);
  G.edge(T, Y2);
  G.call(C, {Fun, Decl, H});
  G.exit(E);
  G.exit(X);
  G.exit(Y1);
  G.exit(Y2);
  Flows Fl;
  EdgeFns EFs;
  EFs.Bits = 1;
  if (sym_pickbool("kill"))
    Fl.Fixed[ctrK(C, E)] = {{0}, {}};
  EFs.Free = {callK(C, Fun), callK(C, H),          normal(T, Y1),        normal(T, Y2),
              ctrK(C, E),    retK(C, Fun, X, E), retK(C, H, Y1, E), retK(C, H, Y2, E)};
  run(G, Fl, EFs, {{C, {{1, val("seed")}}}});
}
// special summaries next to an ordinary callee, two return sites
SYM_GOAL(summary) {
  MiniCFG G;
  Fn *M = G.fn("main"), *Fun = G.fn("f"), *H = G.fn("g");
  N A = G.add(M), C = G.add(M), R1 = G.add(M), R2 = G.add(M), E = G.add(M);
  N X = G.add(Fun);
  N Y = G.add(H);
  G.edge(A, C);
  G.edge(C, R1);
  G.edge(C, R2);
  G.edge(R1, E);
  G.edge(R2, E);
  G.call(C, {Fun, H});
  G.exit(E);
  G.exit(X);
  G.exit(Y);
  Flows Fl;
  EdgeFns EFs;
  Opts O;
  O.Summarised.insert(H);
  Fl.Fixed[ctrK(C, R1)] = {{0}, {}};
  EFs.Free = {{Summary, C, R1, nullptr, 0}, {Summary, C, R2, nullptr, 0}, callK(C, Fun), ctrK(C, R2),
              retK(C, Fun, X, R1)};
  run(G, Fl, EFs, {{A, {{1, val("seed")}}}}, O);
}
// a call in a loop whose callee summary keeps changing
SYM_GOAL(call_in_loop) {
  MiniCFG G;
  Fn *M = G.fn("main"), *Fun = G.fn("f");
  N A = G.add(M), C = G.add(M), R = G.add(M), E = G.add(M);
  N S = G.add(Fun), Q = G.add(Fun), X = G.add(Fun);
  G.edge(A, C);
  G.edge(C, R);
  G.edge(R, C);
  G.edge(R, E);
  G.edge(S, Q);
  G.edge(Q, Q);
  G.edge(Q, X);
  G.call(C, {Fun});
  G.exit(E);
  G.exit(X);
  Flows Fl;
  EdgeFns EFs;
  Fl.Fixed[ctrK(C, R)] = {{0}, {}};
  EFs.Free = {callK(C, Fun), normal(S, Q), normal(Q, Q), normal(R, C), retK(C, Fun, X, R)};
  run(G, Fl, EFs, {{A, {{1, val("seed")}}}}, Opts{{}, 2, true});
}
// without the identity shortcut everything goes through user functions
SYM_GOAL(no_identity) {
  MiniCFG G;
  N A;
  twoCalls(G, A);
  N C1 = A + 1, C2 = A + 2;
  F Fun = G.Funs[1].get();
  Flows Fl;
  EdgeFns EFs;
  EFs.Free = {callK(C1, Fun), ctrK(C1, C2)};
  run(G, Fl, EFs, {{A, {{1, val("seed")}}}}, Opts{{}, 4, false});
}
static std::set<FlowKey> allKeys(const MiniCFG &G) {
  std::set<FlowKey> R;
  for (N I = 1; I < G.S.size(); ++I) {
    const Stmt &S = G.S[I];
    if (S.Call) {
      for (F C : S.Callees)
        R.insert(callK(I, C));
      for (N T : S.Succs)
        R.insert(ctrK(I, T));
      continue;
    }
    if (S.Exit)
      for (N C = 1; C < G.S.size(); ++C)
        for (F Callee : G.S[C].Callees)
          if (Callee == S.Fun)
            for (N T : G.S[C].Succs)
              R.insert(retK(C, S.Fun, I, T));
    for (N T : S.Succs)
      R.insert(normal(I, T));
  }
  return R;
}
// which facts flow where is free, and all edge functions are
static void twoCallsFree(bool ZeroGen) {
  MiniCFG G;
  N A;
  twoCalls(G, A);
  N C1 = A + 1, C2 = A + 2, E = A + 3, X = A + 5;
  F Fun = G.Funs[1].get();
  Flows Fl;
  EdgeFns EFs;
  EFs.Bits = 1;
  EFs.Free = allKeys(G);
  for (auto &K : {callK(C1, Fun), callK(C2, Fun), ctrK(C1, C2), ctrK(C2, E)})
    Fl.Free[K] = 1;
  for (auto &K : {retK(C1, Fun, X, C2), retK(C2, Fun, X, E)})
    Fl.Free[K] = 1;
  Fl.ZeroGen = ZeroGen;
  run(G, Fl, EFs, {{A, {{1, val("seed")}}}});
}
SYM_GOAL(two_calls_free) { twoCallsFree(false); }
SYM_GOAL(two_calls_gen) { twoCallsFree(true); }
static void recursionFree(bool ZeroGen) {
  MiniCFG G;
  N C;
  recursive(G, C);
  N X = C + 4, RC = C + 3, S = C + 2;
  F Fun = G.Funs[1].get();
  Flows Fl;
  Fl.NF = 2;
  EdgeFns EFs;
  EFs.Bits = 1;
  EFs.Free = allKeys(G);
  for (auto &K : {callK(RC, Fun), ctrK(RC, X), retK(RC, Fun, X, X), normal(S, X)})
    Fl.Free[K] = 1;
  Fl.ZeroGen = ZeroGen;
  run(G, Fl, EFs, {{C, {{1, val("seed")}}}});
}
SYM_GOAL(recursion_free) { recursionFree(false); }
SYM_GOAL(recursion_gen) { recursionFree(true); }
SYM_GOAL(mutual) {
  MiniCFG G;
  Fn *M = G.fn("main"), *Fun = G.fn("f"), *H = G.fn("g");
  N C = G.add(M), E = G.add(M);
  N S = G.add(Fun), RC = G.add(Fun), X = G.add(Fun);
  N T = G.add(H), TC = G.add(H), Y = G.add(H);
  G.edge(C, E);
  G.edge(S, RC);
  G.edge(S, X);
  G.edge(RC, X);
  G.edge(T, TC);
  G.edge(T, Y);
  G.edge(TC, Y);
  G.call(C, {Fun});
  G.call(RC, {H});
  G.call(TC, {Fun});
  G.exit(E);
  G.exit(X);
  G.exit(Y);
  Flows Fl;
  EdgeFns EFs;
  EFs.Bits = 1;
  EFs.Free = {callK(C, Fun), callK(RC, H), callK(TC, Fun), normal(S, X), normal(T, Y),
              retK(RC, H, Y, X), retK(TC, Fun, X, Y)};
  Fl.Fixed[ctrK(RC, X)] = Fl.Fixed[ctrK(TC, Y)] = Fl.Fixed[ctrK(C, E)] = {{0}, {}};
  run(G, Fl, EFs, {{C, {{1, val("seed")}}}}, Opts{{}, 7, true});
}
// a fact that comes from the parameter on one path and from nothing on others
SYM_GOAL(generated) {
  MiniCFG G;
  Fn *M = G.fn("main"), *Fun = G.fn("f");
  N C = G.add(M), E = G.add(M);
  N S = G.add(Fun), L = G.add(Fun), R = G.add(Fun), X = G.add(Fun);
  G.edge(C, E);
  G.edge(S, L);
  G.edge(S, R);
  G.edge(L, X);
  G.edge(R, X);
  G.call(C, {Fun});
  G.exit(E);
  G.exit(X);
  Flows Fl;
  Fl.NF = 3;
  EdgeFns EFs;
  EFs.Bits = 1;
  bool Same = sym_pickbool("same fact");
  D Other = Same ? 1 : 2;
  Fl.Fixed[normal(L, X)] = sym_pickbool("left from parameter") ? std::vector<std::vector<D>>{{0}, {1, Other}, {2}} : std::vector<std::vector<D>>{{0}, {Other}, {}};
  Fl.Fixed[normal(R, X)] = {{0, Other}, {1}, {}};
  Fl.Fixed[ctrK(C, E)] = {{0}, {}, {}};
  Fl.Fixed[callK(C, Fun)] = sym_pickbool("pass generated") ? std::vector<std::vector<D>>{{0, 1}, {1}, {2}} : std::vector<std::vector<D>>{{0}, {1}, {2}};
  EFs.Free = {callK(C, Fun), normal(L, X), normal(R, X), retK(C, Fun, X, E)};
  std::map<D, uint8_t> Seed;
  unsigned K = sym_pick<unsigned>("seeds", 1, 3);
  Seed[0] = 0xff;
  if (K & 1)
    Seed[1] = sym_pickbool("bottom") ? 0xff : val("seed");
  if (K & 2)
    Seed[2] = sym_pickbool("bottom") ? 0xff : val("seed");
  run(G, Fl, EFs, {{C, Seed}});
}
// several seeded functions, seeds with arbitrary values, also where calls arrive
SYM_GOAL(seeds) {
  MiniCFG G;
  N A;
  twoCalls(G, A);
  N C1 = A + 1, C2 = A + 2, E = A + 3, S = A + 4, X = A + 5;
  F Fun = G.Funs[1].get();
  Flows Fl;
  Fl.NF = 3;
  EdgeFns EFs;
  EFs.Free = {callK(C1, Fun), callK(C2, Fun), normal(S, X), retK(C2, Fun, X, E)};
  std::map<N, std::map<D, uint8_t>> Seeds;
  Seeds[A][1] = val("seed");
  if (sym_pickbool("zero"))
    Seeds[A][0] = 0xff;
  if (sym_pickbool("callee1"))
    Seeds[S][1] = val("seed");
  if (sym_pickbool("callee2"))
    Seeds[S][2] = val("seed");
  if (sym_pickbool("gen"))
    Fl.Fixed[ctrK(C1, C2)] = {{0, 1}, {2}, {1}};
  run(G, Fl, EFs, Seeds);
}
