// Flow-function combinators against their defining equations.
#include "symrt.h"
#include "phasar/DataFlow/IfdsIde/FlowFunctions.h"
#include <set>
#include <vector>
using namespace psr;

using D = int;
using S = std::set<D>;
struct FF : FlowFunctionTemplates<D, S> {};

// membership as a branch-free predicate over an arbitrary probe
static bool in(const S &X, D P) {
  bool R = false;
  for (D E : X)
    R |= (E == P);
  return R;
}
// X == { p | Spec(p) } for the probes that matter: Spec is given as a list of
// (element, condition)
struct Want {
  D El[12];
  bool C[12];
  unsigned N = 0;
  void add(D E, bool Cond = true) { El[N] = E, C[N] = Cond, ++N; }
};
static void same(const S &X, const Want &W, const char *Id) {
  bool Ok = true;
  for (D E : X) {
    bool H = false;
    for (unsigned I = 0; I < W.N; ++I)
      H |= W.C[I] & (W.El[I] == E);
    Ok &= H;
  }
  for (unsigned I = 0; I < W.N; ++I)
    Ok &= !W.C[I] | in(X, W.El[I]);
  symrt_check(Ok, Id);
}
static D fact(const char *N) { return sym_any<D>(N); }

SYM_GOAL(gen) {
  D X = fact("x"), V = fact("v"), W = fact("w");
  bool P = sym_bool("p");
  {
    Want E;
    E.add(X);
    same(FF::identityFlow()->computeTargets(X), E, "identityFlow");
    E.add(V, X == W);
    same(FF::generateFlow(V, W)->computeTargets(X), E, "generateFlow");
    auto F = FF::generateFlow(V, W);
    (void)F->computeTargets(X);
    same(F->computeTargets(X), E, "generateFlow applied twice");
  }
  {
    Want E;
    E.add(X);
    E.add(V, P);
    same(FF::generateFlowIf(V, [P](D) { return P; })->computeTargets(X), E,
         "generateFlowIf");
  }
  {
    Want E;
    E.add(X);
    E.add(V, X > W);
    same(FF::generateFlowIf(V, [W](D Y) { return Y > W; })->computeTargets(X),
         E, "generateFlowIf sees the source");
  }
}
SYM_GOAL(gen_many) {
  D X = fact("x"), V1 = fact("v1"), V2 = fact("v2"), W = fact("w");
  {
    auto F = FF::generateManyFlows(S{V1, V2}, W);
    Want E;
    E.add(X);
    E.add(V1, X == W), E.add(V2, X == W);
    same(F->computeTargets(X), E, "generateManyFlows");
    D Y = fact("y");
    Want E2;
    E2.add(Y);
    E2.add(V1, Y == W), E2.add(V2, Y == W);
    same(F->computeTargets(Y), E2, "generateManyFlows is stateless");
  }
}
SYM_GOAL(gen_many_kill) {
  D X = fact("x"), V1 = fact("v1"), V2 = fact("v2"), W = fact("w");
  auto F = FF::generateManyFlowsAndKillAllOthers(std::vector<D>{V1, V2}, W);
  Want E;
  E.add(X, X == W), E.add(V1, X == W), E.add(V2, X == W);
  same(F->computeTargets(X), E, "generateManyFlowsAndKillAllOthers");
  same(F->computeTargets(X), E, "generateManyFlowsAndKillAllOthers again");
  Want E1;
  E1.add(X, X == W), E1.add(V1, X == W);
  same(FF::generateFlowAndKillAllOthers(V1, W)->computeTargets(X), E1,
       "generateFlowAndKillAllOthers");
}
SYM_GOAL(kill) {
  D X = fact("x"), V = fact("v"), V2 = fact("v2");
  bool P = sym_bool("p");
  Want E;
  E.add(X, X != V);
  same(FF::killFlow(V)->computeTargets(X), E, "killFlow");
  Want E1;
  E1.add(X, !P);
  same(FF::killFlowIf([P](D) { return P; })->computeTargets(X), E1,
       "killFlowIf");
  Want E1b;
  E1b.add(X, !(X < V));
  same(FF::killFlowIf([V](D Y) { return Y < V; })->computeTargets(X), E1b,
       "killFlowIf sees the source");
  Want E2;
  E2.add(X, (X != V) & (X != V2));
  same(FF::killManyFlows(S{V, V2})->computeTargets(X), E2, "killManyFlows");
  symrt_check(FF::killAllFlows()->computeTargets(X).empty(), "killAllFlows");
}
SYM_GOAL(transfer) {
  D X = fact("x"), V = fact("v"), W = fact("w");
  Want E;
  E.add(X, (X == W) | (X != V));
  E.add(V, X == W);
  same(FF::transferFlow(V, W)->computeTargets(X), E, "transferFlow");
}
SYM_GOAL(union_) {
  D X = fact("x"), V = fact("v"), W = fact("w"), K = fact("k");
  using Base = FlowFunction<D, S>;
  FF T;
  auto Un = T.unionFlows<Base, Base>(FF::generateFlowAndKillAllOthers(V, W),
                                     FF::killFlow(K));
  Want E;
  E.add(X, (X == W) | (X != K));
  E.add(V, X == W);
  same(Un->computeTargets(X), E, "unionFlows");
  auto Nu = T.unionFlows<Base, Base>(FF::killFlow(K),
                                     FF::generateFlowAndKillAllOthers(V, W));
  same(Nu->computeTargets(X), E, "unionFlows commutes");
}
// any two of the building blocks, joined or run one after the other
static FlowFunctionPtrType<D> block(unsigned K, D V, D V2, D V3, D W, const D &X, Want &E) {
  switch (K) {
  case 0:
    E.add(X);
    return Identity<D>::getInstance();
  case 1:
    E.add(X), E.add(V, X == W);
    return FF::generateFlow(V, W);
  case 2:
    E.add(X), E.add(V, X == W), E.add(V2, X == W);
    return FF::generateManyFlows(S{V, V2}, W);
  case 3:
    E.add(X), E.add(V, X == W), E.add(V2, X == W), E.add(V3, X == W);
    return FF::generateManyFlows(S{V, V2, V3}, W);
  case 4:
    E.add(X, X == W), E.add(V, X == W), E.add(V2, X == W), E.add(V3, X == W);
    return FF::generateManyFlowsAndKillAllOthers(S{V, V2, V3}, W);
  case 5:
    return FF::killAllFlows();
  case 6:
    E.add(X, X != V);
    return FF::killFlow(V);
  case 7:
    E.add(V);
    return FF::lambdaFlow([V](D) { return S{V}; });
  default:
    E.add(X, (X == W) | (X != V)), E.add(V, X == W);
    return FF::transferFlow(V, W);
  }
}
SYM_GOAL(union_blocks) {
  D X = fact("x"), W = fact("w"), V = fact("v"), V2 = 2, V3 = 3, U = 6, U2 = 4, U3 = 5;
  unsigned A = sym_pick<unsigned>("one", 0, 8), B = sym_pick<unsigned>("other", 0, 8);
  Want E;
  auto F = block(A, V, V2, V3, W, X, E), G = block(B, U, U2, U3, W, X, E);
  using Base = FlowFunction<D, S>;
  FF T;
  same(T.unionFlows<Base, Base>(F, G)->computeTargets(X), E, "unionFlows of two flow functions");
  same(Union<D>(std::vector<FlowFunctionPtrType<D>>{F, G}).computeTargets(X), E, "Union of two flow functions");
}
SYM_GOAL(zeroed) {
  D X = fact("x"), Z = fact("zero"), V = fact("v"), W = fact("w");
  unsigned K = sym_pick<unsigned>("delegate", 0, 3);
  FlowFunctionPtrType<D> Del;
  Want E;
  E.add(X, X == Z);
  switch (K) {
  case 0:
    Del = FF::killAllFlows();
    break;
  case 1:
    Del = FF::killFlow(V);
    E.add(X, X != V);
    break;
  case 2:
    Del = FF::generateFlowAndKillAllOthers(V, W);
    E.add(X, X == W), E.add(V, X == W);
    break;
  default:
    Del = FF::transferFlow(V, W);
    E.add(X, (X == W) | (X != V)), E.add(V, X == W);
  }
  ZeroedFlowFunction<D> F(Del, Z);
  same(F.computeTargets(X), E, "auto-added zero");
}
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
SYM_GOAL(classes_gen) {
  D X = fact("x"), V = fact("v"), W = fact("w");
  bool P = sym_bool("p");
  {
    Want E;
    E.add(X);
    same(Identity<D>::getInstance()->computeTargets(X), E, "Identity");
    same(makeLambdaFlow<D>([](D Y) { return S{Y}; })->computeTargets(X), E,
         "makeLambdaFlow");
    E.add(V, X == W);
    Gen<D> G(V, W);
    same(G.computeTargets(X), E, "Gen");
  }
  {
    Want E;
    E.add(X);
    E.add(V, P), E.add(W, P);
    GenIf<D> G(S{V, W}, [P](D) { return P; });
    same(G.computeTargets(X), E, "GenIf");
  }
}
SYM_GOAL(classes_genall) {
  D X = fact("x"), V = fact("v"), V2 = fact("v2"), W = fact("w");
  if (sym_pickbool("killothers")) {
    Want E;
    E.add(X, X == W), E.add(V, X == W), E.add(V2, X == W);
    GenAllAndKillAllOthers<D> G(S{V, V2}, W);
    same(G.computeTargets(X), E, "GenAllAndKillAllOthers");
    Want E1;
    E1.add(X, X == W), E1.add(V, X == W);
    GenAndKillAllOthers<D> G1(V, W);
    same(G1.computeTargets(X), E1, "GenAndKillAllOthers");
  } else {
    Want E;
    E.add(X), E.add(V, X == W), E.add(V2, X == W);
    GenAll<D> G(S{V, V2}, W);
    same(G.computeTargets(X), E, "GenAll");
    same(G.computeTargets(X), E, "GenAll again");
  }
}
SYM_GOAL(classes_kill) {
  D X = fact("x"), V = fact("v"), V2 = fact("v2");
  bool P = sym_bool("p");
  Want E;
  E.add(X, X != V);
  same(Kill<D>(V).computeTargets(X), E, "Kill");
  Want E1;
  E1.add(X, !P);
  same(KillIf<D>([P](D) { return P; }).computeTargets(X), E1, "KillIf");
  Want E2;
  E2.add(X, (X != V) & (X != V2));
  same(KillMultiple<D>(S{V, V2}).computeTargets(X), E2, "KillMultiple");
  symrt_check(KillAll<D>::getInstance()->computeTargets(X).empty(), "KillAll");
  Want E3;
  E3.add(X, (X == V2) | (X != V));
  E3.add(V, X == V2);
  same(Transfer<D>(V, V2).computeTargets(X), E3, "Transfer");
}
SYM_GOAL(compose_union_classes) {
  D X = fact("x"), V = fact("v"), W = fact("w"), K = fact("k");
  using P = FlowFunctionPtrType<D>;
  P G = FF::generateFlow(V, W), Kl = FF::killFlow(K);
  P Id = Identity<D>::getInstance();
  unsigned Sh = sym_pick<unsigned>("shape", 0, 5);
  Want E;
  P F;
  switch (Sh) {
  case 0: // gen then kill
    F = Compose<D>::compose({G, Kl});
    E.add(X, X != K), E.add(V, (X == W) & (V != K));
    break;
  case 1: // kill then gen
    F = Compose<D>::compose({Kl, Id, G});
    E.add(X, X != K), E.add(V, (X == W) & (X != K));
    break;
  case 2:
    F = Compose<D>::compose({Id, Kl});
    E.add(X, X != K);
    break;
  case 3:
    F = sym_pickbool("none") ? Compose<D>::compose({})
                             : Compose<D>::compose({Id, Id});
    E.add(X);
    break;
  case 4:
    F = std::make_shared<Union<D>>(std::vector<P>{Kl, G});
    E.add(X), E.add(V, X == W);
    break;
  default:
    F = std::make_shared<Union<D>>(std::vector<P>{});
    E.add(X);
  }
  same(F->computeTargets(X), E, "Compose/Union");
}
