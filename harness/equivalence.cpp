// EquivalenceClassMap against the partition induced by the values.
#include "symrt.h"
#include "phasar/Utils/EquivalenceClassMap.h"
#include <utility>
#include <vector>
using namespace psr;
using M = EquivalenceClassMap<int, long>;

static void check(const M &X, const int *K, const long *V, unsigned N) {
  // expected number of classes = distinct values
  unsigned Classes = 0;
  for (unsigned I = 0; I < N; ++I) {
    bool New = true;
    for (unsigned J = 0; J < I; ++J)
      New &= V[J] != V[I];
    Classes += New;
  }
  symrt_check(X.numEquivalenceClasses() == Classes && X.size() == Classes, "one class per value");
  int P = sym_any<int>("probe");
  bool In = false;
  long PV = 0;
  for (unsigned I = 0; I < N; ++I) {
    bool H = K[I] == P;
    In |= H;
    PV = H ? V[I] : PV;
  }
  symrt_check((X.count(P) == 1) == In && X.count(P) <= 1, "count");
  auto It = X.find(P);
  symrt_check((It != X.end()) == In, "find");
  auto FV = X.findValue(P);
  symrt_check(FV.has_value() == In && (!FV || *FV == PV), "findValue yields the value the key was inserted with");
  unsigned Members = 0, Distinct = 0;
  for (unsigned I = 0; I < N; ++I) {
    bool New = true;
    for (unsigned J = 0; J < I; ++J)
      New &= K[J] != K[I];
    Distinct += New;
  }
  bool Ok = true;
  for (const auto &C : X.equivalenceClasses())
    for (int E : C.first) {
      ++Members;
      bool H = false;
      for (unsigned I = 0; I < N; ++I)
        H |= (K[I] == E) & (V[I] == C.second);
      Ok &= H;
    }
  symrt_check(Ok, "classes hold exactly the keys of their value");
  symrt_check(Members == Distinct, "every key is in exactly one class");
}
template <unsigned N> static void insert() {
  int K[N];
  long V[N];
  M X(sym_pick<unsigned>("reserve", 0, 1) * 4);
  unsigned How = sym_pick<unsigned>("how", 0, 2);
  for (unsigned I = 0; I < N; ++I) {
    K[I] = sym_any<int>("k"), V[I] = sym_any<long>("v");
    for (unsigned J = 0; J < I; ++J)
      symrt_assume((K[J] != K[I]) | (V[J] == V[I])); // a key keeps its value
    bool New = true;
    for (unsigned J = 0; J < I; ++J)
      New &= K[J] != K[I];
    std::pair<M::insert_return_type::first_type, bool> R;
    switch (N == 2 ? (How + I) % 3 : How) {
    case 0:
      R = X.insert(K[I], V[I]);
      break;
    case 1:
      R = X.insert(std::make_pair(K[I], V[I]));
      break;
    default:
      R = X.try_emplace((const int &)K[I], V[I]);
    }
    symrt_check(R.second == New, "insertion reports whether the key is new");
    symrt_check(*R.first == K[I], "insertion returns the key");
  }
  check(X, K, V, N);
  X.clear();
  symrt_check(X.size() == 0 && X.count(K[0]) == 0, "clear");
}
SYM_GOAL(insert2) { insert<2>(); }
SYM_GOAL(insert3) { insert<3>(); }
SYM_GOAL(ranges) {
  std::vector<std::pair<int, long>> L;
  int K[3];
  long V[3];
  for (unsigned I = 0; I < 3; ++I) {
    K[I] = sym_any<int>("k"), V[I] = sym_any<long>("v");
    for (unsigned J = 0; J < I; ++J)
      symrt_assume((K[J] != K[I]) | (V[J] == V[I]));
    L.emplace_back(K[I], V[I]);
  }
  M X(L.begin(), L.end());
  check(X, K, V, 3);
}
// many classes, then a key with an arbitrary value
SYM_GOAL(many) {
  unsigned N = sym_pick<unsigned>("classes", 3, 12);
  M X;
  for (unsigned I = 0; I < N; ++I)
    X.insert(int(I * 7), long(I + 100));
  long V = sym_any<long>("v");
  const int Key = 1000;
  unsigned How = sym_pick<unsigned>("how", 0, 4);
  auto R = How == 0   ? X.insert(1000, V)
           : How == 1 ? X.insert(Key, V)
           : How == 2 ? X.insert(std::make_pair(1000, V))
           : How == 3 ? X.insert((const std::pair<int, long> &)std::make_pair(1000, V))
                      : X.try_emplace(Key, V);
  symrt_check(R.second && *R.first == 1000, "insertion reports that the key is new");
  bool New = true;
  for (unsigned I = 0; I < N; ++I)
    New &= V != long(I + 100);
  symrt_check(X.numEquivalenceClasses() == N + New, "one class per value");
  auto FV = X.findValue(1000);
  symrt_check(FV && *FV == V, "findValue yields the value the key was inserted with");
  for (unsigned I = 0; I < N; ++I) {
    auto It = X.find(int(I * 7));
    symrt_check(It != X.end() && X.findValue(int(I * 7)) == long(I + 100), "earlier keys keep their value");
  }
  for (auto &C : X.equivalenceClasses())
    symrt_check(C.first.count(1000) == (C.second == V), "classes hold exactly the keys of their value");
}
