// Solving in steps, cancelled and resumed anywhere, gives the results of an
// uninterrupted run.
#include "symrt.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
static int64_t Now = 0;
static bool FreeClock = false;
static int64_t FixedStep = 0;
// the clock the solver reads
namespace std::chrono {
struct test_clock : steady_clock {
  using steady_clock::time_point;
  static time_point now() noexcept {
    static const int64_t Steps[] = {0, 1, 1000000, 20000000000ll};
    Now += FreeClock ? Steps[sym_pick<unsigned>("clock", 0, 3)] : FixedStep;
    return time_point(duration(Now));
  }
};
} // namespace std::chrono
#define steady_clock test_clock
#include "minilattice.h"
using namespace psr;

static unsigned Applied = 0; // flow functions requested so far: progress
static std::atomic_bool Cancel{false};
static unsigned CancelAt = ~0u;
struct Problem : MiniIDE {
  using MiniIDE::MiniIDE;
  void tick() {
    if (++Applied == CancelAt)
      Cancel = true;
  }
  MEF getNormalEdgeFunction(N A, D X, N B, D Y) override {
    tick();
    return MiniIDE::getNormalEdgeFunction(A, X, B, Y);
  }
  MEF getCallToRetEdgeFunction(N C, D X, N R, D Y, llvm::ArrayRef<F> Fs) override {
    tick();
    return MiniIDE::getCallToRetEdgeFunction(C, X, R, Y, Fs);
  }
};
using Solver = IDESolver<IdeDom>;

struct World {
  MiniCFG G;
  Flows Fl;
  EdgeFns EFs;
  std::map<N, std::map<D, Mask>> Seeds;
  void config(Problem &P) {
    P.SeedMap = Seeds;
    P.getIFDSIDESolverConfig().setFollowReturnsPastSeeds(false);
    P.getIFDSIDESolverConfig().setAutoAddZero(true);
  }
};
static void build(World &W, bool Small, bool FreeFns = true) {
  auto &G = W.G;
  Fn *M = G.fn("main"), *Fun = G.fn("f");
  N A = G.add(M), C = G.add(M), E = G.add(M);
  N S = G.add(Fun), X = G.add(Fun);
  G.edge(A, C);
  G.edge(C, E);
  if (!Small)
    G.edge(E, A + 1);
  G.edge(S, X);
  G.call(C, {Fun});
  G.exit(E);
  G.exit(X);
  G.finish();
  W.EFs.Bits = 1;
  if (FreeFns)
    W.EFs.Free = {{Normal, A, C, nullptr, 0}, {Normal, S, X, nullptr, 0}, {Normal, E, C, nullptr, 0}};
  W.Seeds[A][1] = uint8_t((sym_any<uint8_t>("seed") & 1) | 0x80);
}
using Res = SolverResults<N, D, Mask>;
static void put(std::optional<Res> &R, std::optional<Res> X) {
  R.reset();
  if (X)
    R.emplace(*X);
}
template <class R1, class R2> static void same(const World &W, const R1 &A, const R2 &B) {
  for (N I = 1; I < W.G.S.size(); ++I) {
    const auto &X = A.resultsAt(I), &Y = B.resultsAt(I);
    symrt_note("statement", I);
    symrt_check(X.size() == Y.size(), "same facts");
    for (auto &[Fact, V] : X) {
      auto It = Y.find(Fact);
      symrt_check(It != Y.end(), "same facts");
      symrt_check(It->second.V == V.V, "same values");
    }
  }
}

SYM_GOAL(steps) {
  World W;
  build(W, false);
  Problem P(&W.G, &W.Fl, &W.EFs), Q(&W.G, &W.Fl, &W.EFs);
  W.config(P), W.config(Q);
  Solver Whole(P, &W.G), Part(Q, &W.G);
  auto Ref = Whole.solve();
  bool More = Part.initialize();
  symrt_check(More, "seeds give work");
  unsigned Chunks = 0;
  while (More && Chunks++ < 3)
    More = Part.nextN(sym_pick<unsigned>("n", 1, 4));
  if (sym_pickbool("continue")) {
    if (More) {
      auto R = Part.continueSolving();
      same(W, Ref, R);
      symrt_cover("continued");
    }
    return;
  }
  while (More)
    More = Part.next();
  if (sym_pickbool("own")) {
    auto R = std::move(Part).finalize();
    same(W, Ref, R);
    symrt_cover("owning");
  } else {
    same(W, Ref, Part.finalize());
    symrt_cover("finalized");
  }
}

SYM_GOAL(async_cancel) {
  World W;
  build(W, sym_pickbool("small"));
  Problem P(&W.G, &W.Fl, &W.EFs), Q(&W.G, &W.Fl, &W.EFs);
  W.config(P), W.config(Q);
  Solver Whole(P, &W.G), Part(Q, &W.G);
  auto Ref = Whole.solve();
  Cancel = sym_pickbool("early");
  bool Early = Cancel;
  unsigned At = sym_pick<unsigned>("at", 1, 12);
  CancelAt = Applied + At;
  bool Own = sym_pickbool("own");
  auto Done = [&](auto &R) {
    symrt_check(R.has_value() != Cancel.load(), "a result unless cancelled");
    if (R) {
      same(W, Ref, *R);
      symrt_cover("done");
      return true;
    }
    return false;
  };
  if (Own) {
    auto R = std::move(Part).solveWithAsyncCancellation(Cancel);
    symrt_check(!Early || !R, "an early request is seen");
    if (Done(R))
      return;
  } else {
    auto R = Part.solveWithAsyncCancellation(Cancel);
    symrt_check(!Early || !R, "an early request is seen");
    if (Done(R))
      return;
  }
  Cancel = false;
  CancelAt = ~0u;
  unsigned How = sym_pick<unsigned>("how", 0, 3);
  if (How == 0) {
    same(W, Ref, Part.continueSolving());
  } else if (How == 1) {
    auto R = std::move(Part).continueSolving();
    same(W, Ref, R);
  } else if (How == 2) {
    auto R = Part.continueWithAsyncCancellation(Cancel);
    symrt_check(R.has_value(), "a resumed run finishes");
    same(W, Ref, *R);
  } else {
    auto R = std::move(Part).continueUntil([] { return false; }, std::chrono::milliseconds(1));
    symrt_check(R.has_value(), "a resumed run finishes");
    same(W, Ref, *R);
  }
  symrt_cover("resumed");
}

// a cancellation predicate that may ask for cancellation at each poll; clocks
// and intervals arbitrary
SYM_GOAL(poll_cancel) {
  World W;
  build(W, true, false);
  Problem P(&W.G, &W.Fl, &W.EFs), Q(&W.G, &W.Fl, &W.EFs);
  W.config(P), W.config(Q);
  Solver Whole(P, &W.G), Part(Q, &W.G);
  auto Ref = Whole.solve();
  FreeClock = true;
  unsigned Polls = 0;
  bool Asked = false;
  auto Poll = [&] {
    symrt_check(Polls < 60, "solving makes progress between polls");
    if (++Polls > 3)
      return false;
    FreeClock = Polls < 2;
    bool B = sym_pickbool("cancel");
    Asked |= B;
    return B;
  };
  auto Interval = std::chrono::milliseconds(sym_pick<unsigned>("interval", 0, 1));
  bool WithTime = sym_pickbool("timed");
  auto R = WithTime ? Part.solveUntil([&](std::chrono::steady_clock::time_point) { return Poll(); }, Interval)
                    : Part.solveUntil(Poll, Interval);
  symrt_check(R.has_value() == !Asked, "a result unless cancelled");
  while (!R) {
    Asked = false;
    put(R, Part.continueUntil(Poll, Interval));
    symrt_check(R.has_value() == !Asked, "a result unless cancelled");
    symrt_cover("resumed");
  }
  same(W, Ref, *R);
}

// enough work for several rounds between polls, on machines of any speed
SYM_GOAL(rounds) {
  World W;
  auto &G = W.G;
  Fn *M = G.fn("main");
  N Prev = 0, First = 0;
  for (unsigned I = 0; I < 30; ++I) {
    N S = G.add(M);
    if (Prev)
      G.edge(Prev, S);
    else
      First = S;
    Prev = S;
  }
  G.exit(Prev);
  G.finish();
  W.Fl.NF = 30;
  for (D X = 1; X < 30; ++X)
    W.Seeds[First][X] = uint8_t(0x81);
  Problem P(&W.G, &W.Fl, &W.EFs), Q(&W.G, &W.Fl, &W.EFs);
  W.config(P), W.config(Q);
  Solver Whole(P, &W.G), Part(Q, &W.G);
  auto Ref = Whole.solve();
  static const int64_t Speeds[] = {0, 1, 1000, 1000000, 10000000, 60000000000ll};
  FixedStep = Speeds[sym_pick<unsigned>("speed", 0, 5)];
  unsigned Polls = 0;
  auto Interval = std::chrono::milliseconds(sym_pick<unsigned>("interval", 0, 1));
  unsigned CancelPoll = sym_pick<unsigned>("cancel at poll", 0, 4);
  auto Poll = [&] {
    symrt_check(Polls < 3000, "solving makes progress between polls");
    return ++Polls == CancelPoll;
  };
  auto R = Part.solveUntil(Poll, Interval);
  if (!R) {
    if (sym_pickbool("all"))
      put(R, Part.continueSolving());
    else
      put(R, Part.continueUntil(Poll, Interval));
    symrt_cover("resumed");
  }
  symrt_check(R.has_value(), "finishes when not cancelled again");
  same(W, Ref, *R);
}
SYM_GOAL(timeout) {
  World W;
  build(W, true);
  Problem P(&W.G, &W.Fl, &W.EFs), Q(&W.G, &W.Fl, &W.EFs);
  W.config(P), W.config(Q);
  Solver Whole(P, &W.G), Part(Q, &W.G);
  auto Ref = Whole.solve();
  static const int64_t Speeds[] = {1000, 1000000, 10000000};
  FixedStep = Speeds[sym_pick<unsigned>("speed", 0, 2)];
  int64_t Start = Now;
  auto Limit = std::chrono::milliseconds(sym_pick<unsigned>("limit", 0, 30));
  auto R = Part.solveWithTimeout(Limit, std::chrono::milliseconds(1));
  // three clock readings happen after the start
  symrt_check(R || Now - Start >= Limit.count() * 1000000, "gives up only after the timeout");
  symrt_check(!R || Now - Start - FixedStep < Limit.count() * 1000000, "a result only within the timeout");
  if (!R) {
    if (sym_pickbool("all"))
      put(R, Part.continueSolving());
    else
      put(R, Part.continueWithTimeout(std::chrono::hours(1), std::chrono::milliseconds(1)));
    symrt_cover("resumed");
  }
  same(W, Ref, *R);
}
// options that only record or print do not change the results
SYM_GOAL(options) {
  World W;
  build(W, false);
  Problem P(&W.G, &W.Fl, &W.EFs), Q(&W.G, &W.Fl, &W.EFs);
  W.config(P), W.config(Q);
  Q.getIFDSIDESolverConfig().setRecordEdges(sym_pickbool("record"));
  Q.getIFDSIDESolverConfig().setAutoAddZero(sym_pickbool("zero"));
  Q.getIFDSIDESolverConfig().setFollowReturnsPastSeeds(sym_pickbool("follow"));
  Q.UseIdentity = sym_pickbool("identity");
  Solver A(P, &W.G);
  auto Ref = A.solve();
  if (sym_pickbool("convenience")) {
    auto R = solveIDEProblem(Q, W.G);
    same(W, Ref, R);
    return;
  }
  Solver B(Q, &W.G);
  same(W, Ref, B.solve());
  for (N I = 1; I < W.G.S.size(); ++I)
    for (D X = 0; X < 2; ++X) {
      auto Row = Ref.resultsAt(I);
      if (Row.count(X))
        symrt_check(B.resultAt(I, X).V == Row[X].V, "per-fact lookup");
    }
}
