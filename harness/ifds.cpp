// IFDS: exactly the facts reachable over call/return-matched paths.
#include "minisolver.h"
using namespace psr;

static void freeAll(Flows &Fl, const MiniCFG &G, const std::set<N> &Only = {}) {
  for (N I = 1; I < G.S.size(); ++I) {
    const Stmt &S = G.S[I];
    if (!Only.empty() && !Only.count(I))
      continue;
    if (S.Call) {
      for (F C : S.Callees)
        Fl.Free[{Call, I, 0, C, 0}] = Fl.Free[{Summary, I, 0, C, 0}] = 1;
      for (N R : S.Succs)
        Fl.Free[{CallToRet, I, R, nullptr, 0}] = 1;
    } else {
      if (S.Exit)
        for (N C = 1; C < G.S.size(); ++C)
          for (F Callee : G.S[C].Callees)
            if (Callee == S.Fun)
              for (N R : G.S[C].Succs)
                Fl.Free[{Ret, I, R, S.Fun, C}] = 1;
      for (N J : S.Succs)
        Fl.Free[{Normal, I, J, nullptr, 0}] = 1;
    }
  }
}

template <class Res>
static void compare(const MiniCFG &G, const Flows &Fl, const RefIFDS &Ref, Res Results,
                    const std::set<N> &DontCare) {
  for (N I = 1; I < G.S.size(); ++I) {
    std::set<D> Got = Results.ifdsResultsAt(I);
    for (D X = 0; X < Fl.NF; ++X) {
      bool Want = Ref.Holds.count({I, X});
      if (DontCare.count(I))
        continue;
      symrt_note("statement", I);
      symrt_note("fact", X);
      symrt_check(!Got.count(X) || Want, "only facts that hold on some valid path are reported");
      symrt_check(Got.count(X) || !Want, "every fact that holds on some valid path is reported");
    }
    symrt_check(Got.size() <= Fl.NF, "no other facts");
  }
}

struct Opts {
  std::set<F> Summarised;
  bool Unbalanced = false;
  size_t Depth = 6;
  bool Steps = false;
};

static void run(MiniCFG &G, Flows &Fl, std::map<N, std::set<D>> Seeds, Opts O = {}) {
  G.finish();
  MiniIFDS P(&G, &Fl);
  P.Summarised = O.Summarised;
  for (auto &[I, Xs] : Seeds)
    for (D X : Xs)
      P.SeedMap[I][X] = BinaryDomain::BOTTOM;
  P.getIFDSIDESolverConfig().setFollowReturnsPastSeeds(O.Unbalanced);
  P.getIFDSIDESolverConfig().setAutoAddZero(true);
  IFDSSolver<IfdsDom> Solver(P, &G);
  Solver.solve();
  RefIFDS Ref(G, Fl, O.Depth);
  Ref.Summarised = O.Summarised;
  Ref.Unbalanced = O.Unbalanced;
  Ref.run(Seeds);
  symrt_cover("solved");
  // facts passed to a callee that a summary stands for: its body is not analysed
  std::set<N> DontCare;
  for (F Fun : O.Summarised)
    DontCare.insert(Fun->Starts.begin(), Fun->Starts.end());
  compare(G, Fl, Ref, Solver.getSolverResults(), DontCare);
  for (N I = 1; I < G.S.size(); ++I)
    symrt_check(Solver.ifdsResultsAt(I) == Solver.getSolverResults().ifdsResultsAt(I),
                "solver and result view agree");
}

// loop with a branch in one function
SYM_GOAL(loop) {
  MiniCFG G;
  Fn *M = G.fn("main");
  N A = G.add(M), B = G.add(M), C = G.add(M), E = G.add(M);
  G.edge(A, B);
  G.edge(B, C);
  G.edge(C, B);
  G.edge(B, E);
  G.exit(E);
  Flows Fl;
  Fl.NF = 3;
  unsigned Which = sym_pick<unsigned>("free", 0, 1);
  freeAll(Fl, G, Which ? std::set<N>{A, C} : std::set<N>{B});
  run(G, Fl, {{A, {0}}});
}

// two call sites of the same function
static N twoCalls(MiniCFG &G) {
  Fn *M = G.fn("main"), *Fun = G.fn("f");
  N A = G.add(M), C1 = G.add(M), C2 = G.add(M), E = G.add(M);
  N S = G.add(Fun), X = G.add(Fun);
  G.edge(A, C1);
  G.edge(C1, C2);
  G.edge(C2, E);
  G.edge(S, X);
  G.call(C1, {Fun});
  G.call(C2, {Fun});
  G.exit(E);
  G.exit(X);
  return A;
}
SYM_GOAL(two_calls) {
  MiniCFG G;
  N A = twoCalls(G);
  Flows Fl;
  freeAll(Fl, G);
  run(G, Fl, {{A, {0}}});
}
// facts 1 and 2, flows into and out of the callee free
SYM_GOAL(two_calls_facts) {
  MiniCFG G;
  N A = twoCalls(G);
  Flows Fl;
  Fl.NF = 3;
  F Fun = G.Funs[1].get();
  Fl.Free[{Call, A + 1, 0, Fun, 0}] = Fl.Free[{Call, A + 2, 0, Fun, 0}] = 1;
  bool CtR = sym_pickbool("ctr");
  if (!CtR) { // only through the callee
    Fl.Fixed[{CallToRet, A + 1, A + 2, nullptr, 0}] = {{}, {}, {}};
    Fl.Fixed[{CallToRet, A + 2, A + 3, nullptr, 0}] = {{}, {}, {}};
  }
  run(G, Fl, {{A, {1, 2}}});
}

// direct recursion: f calls itself on one branch
static void recursion(bool ZeroGen) {
  MiniCFG G;
  Fn *M = G.fn("main"), *Fun = G.fn("f");
  N C = G.add(M), E = G.add(M);
  N S = G.add(Fun), RC = G.add(Fun), X = G.add(Fun);
  G.edge(C, E);
  G.edge(S, RC);
  G.edge(S, X);
  G.edge(RC, X);
  G.call(C, {Fun});
  G.call(RC, {Fun});
  G.exit(E);
  G.exit(X);
  Flows Fl;
  Fl.ZeroGen = ZeroGen;
  freeAll(Fl, G);
  run(G, Fl, {{C, {1}}});
}
SYM_GOAL(recursion) { recursion(false); }
SYM_GOAL(recursion_gen) { recursion(true); }

// mutual recursion f <-> g, two facts, free inside the cycle
SYM_GOAL(mutual) {
  MiniCFG G;
  Fn *M = G.fn("main"), *Fun = G.fn("f"), *H = G.fn("g");
  N C = G.add(M), E = G.add(M);
  N S = G.add(Fun), RC = G.add(Fun), X = G.add(Fun);
  N T = G.add(H), TC = G.add(H), Y = G.add(H);
  G.edge(C, E);
  G.edge(S, RC);
  G.edge(S, X);
  G.edge(RC, X);
  G.edge(T, TC);
  G.edge(T, Y);
  G.edge(TC, Y);
  G.call(C, {Fun});
  G.call(RC, {H});
  G.call(TC, {Fun});
  G.exit(E);
  G.exit(X);
  G.exit(Y);
  Flows Fl;
  freeAll(Fl, G, {RC, TC, Y});
  Fl.Fixed[{CallToRet, RC, X, nullptr, 0}] = {{}, {}};
  Fl.Fixed[{CallToRet, TC, Y, nullptr, 0}] = {{}, {}};
  run(G, Fl, {{C, {1}}}, Opts{{}, false, 7});
}

// several callees, one of them only declared, one with two exits
SYM_GOAL(indirect) {
  MiniCFG G;
  Fn *M = G.fn("main"), *Fun = G.fn("f"), *Decl = G.fn("decl"), *H = G.fn("g");
  N A = G.add(M), C = G.add(M), E = G.add(M);
  N X = G.add(Fun);
  N T = G.add(H), Y1 = G.add(H), Y2 = G.add(H);
  G.edge(A, C);
  G.edge(C, E);
  G.edge(T, Y1);
  G.edge(T, Y2);
  G.call(C, {Fun, Decl, H});
  G.exit(E);
  G.exit(X);
  G.exit(Y1);
  G.exit(Y2);
  Flows Fl;
  if (sym_pickbool("where"))
    freeAll(Fl, G, {C});
  else
    freeAll(Fl, G, {X, Y1, Y2, T});
  run(G, Fl, {{A, {1}}});
}

// a call with two return sites (normal and exceptional) and a summary
SYM_GOAL(return_sites_summary) {
  MiniCFG G;
  Fn *M = G.fn("main"), *Fun = G.fn("f"), *H = G.fn("g");
  N A = G.add(M), C = G.add(M), R1 = G.add(M), R2 = G.add(M), E = G.add(M);
  N X = G.add(Fun);
  N Y = G.add(H);
  G.edge(A, C);
  G.edge(C, R1);
  G.edge(C, R2);
  G.edge(R1, E);
  G.edge(R2, E);
  G.call(C, {Fun, H});
  G.exit(E);
  G.exit(X);
  G.exit(Y);
  Flows Fl;
  Fl.ZeroGen = false;
  freeAll(Fl, G, {C, X, Y});
  Opts O;
  if (sym_pickbool("summary"))
    O.Summarised.insert(H);
  run(G, Fl, {{A, {1}}}, O);
}

// call in a loop; summaries queried before and after they exist
SYM_GOAL(call_in_loop) {
  MiniCFG G;
  Fn *M = G.fn("main"), *Fun = G.fn("f");
  N A = G.add(M), C = G.add(M), R = G.add(M), E = G.add(M);
  N S = G.add(Fun), X = G.add(Fun);
  G.edge(A, C);
  G.edge(C, R);
  G.edge(R, C);
  G.edge(R, E);
  G.edge(S, X);
  G.call(C, {Fun});
  G.exit(E);
  G.exit(X);
  Flows Fl;
  Fl.NF = 3;
  Fl.ZeroGen = false;
  unsigned W = sym_pick<unsigned>("free", 0, 2);
  if (W == 0)
    freeAll(Fl, G, {C});
  else if (W == 1)
    freeAll(Fl, G, {X, R});
  else
    freeAll(Fl, G, {S, X});
  run(G, Fl, {{A, {0, 1}}});
}

// seeds at several statements, also in the middle of a function
static void seeds(bool ZeroGen) {
  MiniCFG G;
  N A = twoCalls(G);
  Flows Fl;
  Fl.ZeroGen = ZeroGen;
  freeAll(Fl, G, {A + 1, A + 5});
  std::map<N, std::set<D>> Seeds;
  for (N I = A; I <= A + 3; ++I) {
    unsigned K = sym_pick<unsigned>("seed", 0, 2);
    if (K)
      Seeds[I] = K == 1 ? std::set<D>{0} : std::set<D>{1};
  }
  run(G, Fl, Seeds);
}
SYM_GOAL(seeds) { seeds(false); }
SYM_GOAL(seeds_gen) { seeds(true); }

// functions that are entry points and called as well, whichever is looked at
// first
SYM_GOAL(called_entry) {
  MiniCFG G;
  Fn *M = nullptr, *Fun = nullptr;
  N A, C, E, S, X;
  auto main = [&] {
    M = G.fn("main");
    A = G.add(M), C = G.add(M), E = G.add(M);
  };
  auto callee = [&] {
    Fun = G.fn("f");
    S = G.add(Fun), X = G.add(Fun);
  };
  bool First = sym_pickbool("callee first");
  if (First)
    callee(), main();
  else
    main(), callee();
  G.edge(A, C);
  G.edge(C, E);
  G.edge(S, X);
  G.call(C, {Fun});
  G.exit(E);
  G.exit(X);
  Flows Fl;
  Fl.ZeroGen = sym_pickbool("zero generates");
  freeAll(Fl, G, {C, X});
  std::map<N, std::set<D>> Seeds;
  unsigned K = sym_pick<unsigned>("seed", 1, 3), L = sym_pick<unsigned>("callee seed", 1, 3);
  for (D B = 0; B < 2; ++B) {
    if (K >> B & 1)
      Seeds[A].insert(B);
    if (L >> B & 1)
      Seeds[S].insert(B);
  }
  run(G, Fl, Seeds);
}

// seeds in a callee that nobody seeds: returns past them reach every caller
SYM_GOAL(past_seeds) {
  MiniCFG G;
  Fn *M = G.fn("main"), *Fun = G.fn("f"), *H = G.fn("g"), *K = G.fn("k");
  N A = G.add(M), C = G.add(M), R = G.add(M), C2 = G.add(M), E = G.add(M);
  N S = G.add(Fun), X = G.add(Fun);
  N T = G.add(H), TC = G.add(H), Y = G.add(H);
  N Z0 = G.add(K), Z = G.add(K);
  G.edge(A, C);
  G.edge(C, R);
  G.edge(R, C2);
  G.edge(C2, E);
  G.edge(S, X);
  G.edge(T, TC);
  G.edge(TC, Y);
  G.edge(Z0, Z);
  G.call(C, {Fun});
  G.call(TC, {Fun});
  G.call(C2, {K});
  G.exit(E);
  G.exit(X);
  G.exit(Y);
  G.exit(Z);
  Flows Fl;
  freeAll(Fl, G, {X, R, C2});
  run(G, Fl, {{S, {1}}}, Opts{{}, sym_pickbool("follow"), 6});
}
