// Tables, adjacency lists, counting iterators and the set utilities against
// their mathematical definitions.
#include "symrt.h"
#include "phasar/Utils/AdjacencyList.h"
#include "phasar/Utils/GraphTraits.h"
#include "phasar/Utils/IotaIterator.h"
#include "phasar/Utils/RepeatIterator.h"
#include "phasar/Utils/Table.h"
#include "phasar/Utils/Utilities.h"
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
using namespace psr;

// ---------------------------------------------------------------- table
struct RefTab {
  bool Has[3][3] = {};
  int V[3][3] = {};
};
static void sameTable(const Table<int, int, int> &T, const RefTab &R) {
  bool AnyCell = false;
  unsigned NCells = 0, NRows = 0;
  bool Ok = true;
  for (int I = 0; I < 3; ++I) {
    bool Row = false;
    for (int J = 0; J < 3; ++J) {
      symrt_check(T.contains(I, J) == R.Has[I][J], "contains");
      Ok &= T.get(I, J) == (R.Has[I][J] ? R.V[I][J] : 0);
      Row |= R.Has[I][J];
      NCells += R.Has[I][J];
    }
    symrt_check(T.containsRow(I) == Row, "containsRow");
    symrt_check(T.containsColumn(I) == (R.Has[0][I] | R.Has[1][I] | R.Has[2][I]), "containsColumn");
    NRows += Row;
    AnyCell |= Row;
    unsigned NR = 0;
    for (auto [C, V] : T.row(I)) {
      Ok &= C >= 0 && C < 3 && R.Has[I][C] && V == R.V[I][C];
      ++NR;
    }
    symrt_check(NR == (unsigned)R.Has[I][0] + R.Has[I][1] + R.Has[I][2], "row has exactly the row's cells");
    auto Col = T.column(I);
    symrt_check(Col.size() == (unsigned)R.Has[0][I] + R.Has[1][I] + R.Has[2][I],
                "column has exactly the column's cells");
    for (auto [Rw, V] : Col)
      Ok &= R.Has[Rw][I] && V == R.V[Rw][I];
  }
  symrt_check(Ok, "values");
  symrt_check(T.empty() == !AnyCell && T.size() == NRows, "empty/size");
  unsigned N = 0;
  T.foreachCell([&](int I, int J, int V) {
    ++N;
    Ok &= R.Has[I][J] && V == R.V[I][J];
  });
  symrt_check(N == NCells && Ok, "foreachCell");
  symrt_check(T.cellVec().size() == NCells, "cellVec");
  auto CS = T.cellSet();
  symrt_check(CS.size() == NCells, "cellSet");
  for (const auto &C : CS)
    Ok &= R.Has[C.getRowKey()][C.getColumnKey()] && C.getValue() == R.V[C.getRowKey()][C.getColumnKey()];
  symrt_check(Ok, "cellSet values");
}
static void table(unsigned Steps) {
  Table<int, int, int> T;
  RefTab R;
  for (unsigned S = 0; S < Steps; ++S) {
    int I = sym_pick<int>("row", 0, 1), J = sym_pick<int>("col", 0, 2);
    switch (sym_pick<unsigned>("op", 0, 5)) {
    case 0: {
      int V = sym_any<int>("v");
      T.insert(I, J, V);
      R.Has[I][J] = true, R.V[I][J] = V;
      break;
    }
    case 1: {
      int V = T.remove(I, J);
      symrt_check(V == (R.Has[I][J] ? R.V[I][J] : 0), "remove returns the old value");
      R.Has[I][J] = false, R.V[I][J] = 0;
      break;
    }
    case 2:
      T.remove(I);
      for (int K = 0; K < 3; ++K)
        R.Has[I][K] = false, R.V[I][K] = 0;
      break;
    case 3: {
      int V = sym_any<int>("w");
      T.get(I, J) = V;
      R.Has[I][J] = true, R.V[I][J] = V;
      break;
    }
    case 4: {
      Table<int, int, int> U(T);
      symrt_check(U == T, "copies are equal");
      U.insert(2, 2, 1);
      symrt_check(!(U == T), "tables with different cells differ");
      break;
    }
    case 5:
      T.clear(), R = {};
      break;
    }
    sameTable(T, R);
  }
}
SYM_GOAL(table2) { table(2); }
SYM_GOAL(table3) { table(3); }

// ---------------------------------------------------------------- graph
using G = AdjacencyList<int>;
using GT = GraphTraits<G>;
static unsigned edges(const G &X, unsigned A, unsigned B) {
  unsigned N = 0;
  for (auto E : GT::outEdges(X, A))
    N += GT::target(E) == B;
  return N;
}
SYM_GOAL(graph) {
  G X;
  int Tag[3];
  for (unsigned I = 0; I < 3; ++I) {
    Tag[I] = sym_any<int>("tag");
    symrt_check(GT::addNode(X, Tag[I]) == I, "vertices are numbered densely");
  }
  unsigned C[3][3] = {};
  for (unsigned E = 0; E < 3; ++E) {
    unsigned A = sym_pick<unsigned>("a", 0, 2), B = sym_range<unsigned>("b", 0, 2);
    GT::addEdge(X, A, B);
    for (unsigned K = 0; K < 3; ++K)
      C[A][K] += B == K;
  }
  auto Same = [&] {
    bool Ok = GT::size(X) == 3;
    for (unsigned I = 0; I < 3; ++I) {
      Ok &= GT::node(X, I) == Tag[I] && GT::nodes(X)[I] == Tag[I];
      for (unsigned J = 0; J < 3; ++J)
        Ok &= edges(X, I, J) == C[I][J];
      Ok &= GT::outDegree(X, I) == C[I][0] + C[I][1] + C[I][2];
    }
    return Ok;
  };
  symrt_check(Same(), "edges are a multiset");
  switch (sym_pick<unsigned>("op", 0, 3)) {
  case 0: {
    auto Rev = reverseGraph(X);
    bool Ok = GT::size(Rev) == 3;
    unsigned NR = 0;
    for (unsigned I = 0; I < 3; ++I) {
      Ok &= GT::node(Rev, I) == Tag[I];
      for (unsigned J = 0; J < 3; ++J)
        Ok &= edges(Rev, J, I) == C[I][J];
      bool Root = false;
      for (auto Rt : GT::roots(Rev))
        Root |= Rt == I;
      bool Leaf = (C[I][0] + C[I][1] + C[I][2]) == 0;
      Ok &= Root == Leaf;
      NR += Leaf;
    }
    symrt_check(Ok, "reverseGraph reverses every edge");
    symrt_check(GT::roots_size(Rev) == NR, "roots of the reverse graph are the leaves");
    break;
  }
  case 1: {
    unsigned A = sym_pick<unsigned>("dedup", 0, 2);
    GT::dedupOutEdges(X, A);
    for (auto &K : C[A])
      K = K ? 1 : 0;
    symrt_check(Same(), "dedupOutEdges leaves one edge per target");
    break;
  }
  case 2: {
    unsigned A = sym_pick<unsigned>("src", 0, 2);
    unsigned N = GT::outDegree(X, A);
    if (!N)
      break;
    unsigned K = sym_pick<unsigned>("k", 0, N - 1);
    auto It = GT::outEdges(X, A).begin() + K;
    unsigned B = *It;
    auto Nx = GT::removeEdge(X, A, It);
    for (unsigned J = 0; J < 3; ++J)
      C[A][J] -= B == J;
    symrt_check(Same(), "removeEdge removes exactly the designated edge");
    symrt_check(Nx - GT::outEdges(X, A).begin() == (int)K, "removeEdge continues at the next edge");
    // continuing the iteration sees every edge exactly once
    symrt_check(GT::outEdges(X, A).size() == N - 1, "one edge less");
    break;
  }
  case 3: {
    unsigned V = sym_pick<unsigned>("pop", 0, 3);
    bool Ok = GT::pop(X, V);
    symrt_check(Ok == (V == 2) && GT::size(X) == (Ok ? 2u : 3u), "pop removes only the last vertex");
    for (unsigned I = 0; I < 2; ++I)
      symrt_check(GT::node(X, I) == Tag[I], "pop keeps the others");
    break;
  }
  }
  symrt_cover("graph");
}
SYM_GOAL(graph_roots) {
  G X;
  for (int I = 0; I < 3; ++I)
    GT::addNode(X, I);
  bool R[3];
  std::vector<unsigned> L;
  for (unsigned I = 0; I < 3; ++I)
    if ((R[I] = sym_pickbool("root")))
      GT::addRoot(X, I), L.push_back(I);
  symrt_check(GT::roots_size(X) == L.size(), "roots_size");
  if (!L.empty()) {
    unsigned K = sym_pick<unsigned>("k", 0, L.size() - 1);
    (void)GT::removeRoot(X, GT::roots(X).begin() + K);
    R[L[K]] = false;
  }
  unsigned N = 0;
  for (auto V : GT::roots(X)) {
    symrt_check(R[V], "only registered roots");
    ++N;
  }
  symrt_check(N == (unsigned)R[0] + R[1] + R[2], "every registered root once");
  unsigned NV = 0;
  for (auto V : GT::vertices(X))
    symrt_check(V == NV++, "vertices enumerates all");
  symrt_check(NV == 3, "vertices enumerates all vertices");
}
SYM_GOAL(iterators) {
  int A = sym_any<int>("from");
  unsigned N = sym_pick<unsigned>("n", 0, 5);
  symrt_assume(A <= 0x7fffffff - 8);
  unsigned K = 0;
  for (int V : psr::iota(A, A + (int)N))
    symrt_check(V == A + (int)K++, "iota counts up");
  symrt_check(K == N, "iota yields To-From values");
  unsigned M = 0;
  for (int V : psr::repeat(A, N)) {
    symrt_check(V == A, "repeat yields the value");
    ++M;
  }
  symrt_check(M == N, "repeat yields Num values");
}

// ---------------------------------------------------------------- utilities
template <class Cont> static void removeIdx() {
  unsigned N = sym_pick<unsigned>("n", 1, 5);
  Cont V;
  std::vector<int> X;
  for (unsigned I = 0; I < N; ++I) {
    int E = sym_any<int>("e");
    X.push_back(E), V.push_back(E);
  }
  std::vector<unsigned> Idx;
  std::vector<int> Want;
  for (unsigned I = 0; I < N; ++I) {
    if (sym_pickbool("remove"))
      Idx.push_back(I);
    else
      Want.push_back(X[I]);
  }
  auto End = remove_by_index(V, Idx);
  unsigned K = 0;
  bool Ok = true;
  for (auto It = V.begin(); It != End; ++It, ++K)
    Ok &= K < Want.size() && *It == Want[K];
  symrt_check(K == Want.size(), "remove_by_index removes exactly as many elements as indices");
  symrt_check(Ok, "remove_by_index keeps the other elements in order");
}
SYM_GOAL(remove_index_vector) { removeIdx<std::vector<int>>(); }
SYM_GOAL(remove_index_list) { removeIdx<std::list<int>>(); }
SYM_GOAL(powerset) {
  unsigned N = sym_pick<unsigned>("n", 0, 3);
  std::set<int> S;
  int E[3];
  for (unsigned I = 0; I < N; ++I) {
    E[I] = sym_any<int>("e");
    S.insert(E[I]);
  }
  auto P = computePowerSet(S);
  symrt_check(P.size() == (1u << S.size()), "a power set has 2^n elements");
  for (const auto &T : P)
    for (int X : T) {
      bool In = false;
      for (unsigned I = 0; I < N; ++I)
        In |= E[I] == X;
      symrt_check(In, "its elements are subsets");
    }
}
template <class Cont> static void inter(bool Sym) {
  int A[2], B[3];
  Cont X, Y;
  for (int &V : A)
    X.insert(V = Sym ? sym_any<int>("a") : sym_pick<int>("a", 0, 3));
  for (int &V : B)
    Y.insert(V = Sym ? sym_any<int>("b") : sym_pick<int>("b", 0, 3));
  intersectWith(X, Y);
  bool Ok = true;
  for (int V : X) {
    bool InA = false, InB = false;
    for (int W : A)
      InA |= V == W;
    for (int W : B)
      InB |= V == W;
    Ok &= InA & InB;
  }
  for (int V : A) {
    bool InB = false, InX = false;
    for (int W : B)
      InB |= V == W;
    for (int W : X)
      InX |= V == W;
    Ok &= !InB | InX;
  }
  symrt_check(Ok, "intersectWith computes the intersection");
}
SYM_GOAL(intersect_set) { inter<std::set<int>>(true); }
SYM_GOAL(intersect_unordered) { inter<std::unordered_set<int>>(false); }
// ids: numbers order numerically, everything else as strings, numbers first
static std::string ident(unsigned Len, const char *N) {
  std::string S;
  for (unsigned I = 0; I < Len; ++I) {
    char C = sym_any<char>(N);
    symrt_assume((C == 'a') | (C == 'b') | (C == '.') | (C == '0') | (C == '1') | (C == '-'));
    S.push_back(C);
  }
  return S;
}
static int numeric(const std::string &S) { // starts with a number
  unsigned I = S[0] == '-' && S.size() > 1;
  return S[I] == '0' || S[I] == '1';
}
SYM_GOAL(string_id_order) {
  std::string A = ident(2, "a"), B = ident(2, "b"), C = ident(1, "c");
  StringIDLess L;
  bool AB = L(A, B), BA = L(B, A), BC = L(B, C), AC = L(A, C), CB = L(C, B), CA = L(C, A);
  symrt_check(!L(A, A), "irreflexive");
  symrt_check(!(AB && BA), "asymmetric");
  symrt_check(!(AB && BC) || AC, "transitive");
  symrt_check(!(!AB && !BA && !BC && !CB) || (!AC && !CA), "equivalence is transitive");
  if (!numeric(A) && !numeric(B) && A != B)
    symrt_check(AB || BA, "different names are told apart");
  if (numeric(A) && !numeric(C))
    symrt_check(AC, "numbers come first");
}
