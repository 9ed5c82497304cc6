// Optional ownership: every owned object is destroyed exactly once, a borrowed
// one never; boxed pointers follow their target.
#include "symrt.h"
#include "phasar/Utils/BoxedPointer.h"
#include "phasar/Utils/MaybeUniquePtr.h"
#include "phasar/Pointer/AliasSetOwner.h"
#include <memory>
#include <utility>
#include <vector>
using namespace psr;

static const int MaxObj = 8;
static bool Alive[MaxObj];
static int Next;
struct alignas(8) Obj {
  int Id;
  Obj() : Id(Next++) { Alive[Id] = true; }
  virtual ~Obj() {
    symrt_check(Alive[Id], "destroyed at most once");
    Alive[Id] = false;
  }
};
struct Sub : Obj {
  int Pad[4] = {};
};
struct Byte { // alignment 1: no spare pointer bits
  char C = 1;
  static int N;
  Byte() { ++N; }
  ~Byte() { --N; }
};
int Byte::N = 0;

struct RefH {
  Obj *P = nullptr;
  bool Owns = false;
};
using UP = MaybeUniquePtr<Obj>;
using UPA = MaybeUniquePtr<Obj, true>;

template <class H> static void history(unsigned Steps) {
  Next = 0;
  for (bool &A : Alive)
    A = false;
  uint64_t L0 = symrt_live();
  {
    Obj Borrowed[2];
    std::unique_ptr<Obj> Released;
    {
      H A[2];
      RefH R[2];
      auto Drop = [&](unsigned I) { R[I] = {}; };
      for (unsigned S = 0; S < Steps; ++S) {
        unsigned I = sym_pick<unsigned>("handle", 0, 1), J = 1 - I;
        switch (sym_pick<unsigned>("op", 0, 9)) {
        case 0: { // own a new object
          auto P = std::make_unique<Obj>();
          auto *Raw = P.get();
          A[I] = std::move(P);
          R[I] = {Raw, true};
          break;
        }
        case 1: { // own a derived object
          auto P = std::make_unique<Sub>();
          auto *Raw = P.get();
          A[I] = std::move(P);
          R[I] = {Raw, true};
          break;
        }
        case 2: { // borrow
          H B(&Borrowed[I]);
          symrt_check(!B.owns(), "raw pointers are not owned by default");
          A[I].swap(B);
          R[I] = {&Borrowed[I], false};
          break;
        }
        case 3: // exchange the handles
          swap(A[I], A[J]);
          std::swap(R[I], R[J]);
          break;
        case 4: { // move through a temporary
          H B(std::move(A[I]));
          symrt_check(!A[I] && !A[I].owns(), "a moved-from handle is empty");
          symrt_check(B.get() == R[I].P && B.owns() == R[I].Owns, "moving keeps target and ownership");
          A[I] = std::move(B);
          break;
        }
        case 5:
          A[I].reset();
          Drop(I);
          break;
        case 6: { // release
          Obj *P = A[I].release();
          symrt_check(P == R[I].P, "release returns the target");
          symrt_check(!A[I].owns(), "release gives up ownership");
          if (R[I].Owns)
            Released.reset(P);
          R[I].Owns = false;
          A[I].reset();
          Drop(I);
          break;
        }
        case 7: // an empty owner
          A[I] = std::unique_ptr<Obj>();
          Drop(I);
          break;
        case 8: { // owning raw pointer
          Obj *P = new Obj();
          H B(P, true);
          A[I].swap(B);
          R[I] = {P, true};
          break;
        }
        case 9: {
          H B(nullptr, true);
          symrt_check(!B.owns(), "null is never owned");
          A[I].swap(B);
          Drop(I);
          break;
        }
        }
        unsigned NAlive = 0;
        for (unsigned K = 0; K < 2; ++K) {
          symrt_check(A[K].get() == R[K].P, "target");
          symrt_check(A[K].owns() == R[K].Owns, "ownership");
          symrt_check(bool(A[K]) == (R[K].P != nullptr), "emptiness");
          if (R[K].P)
            symrt_check(Alive[A[K]->Id], "the target is alive");
          NAlive += R[K].Owns;
        }
        symrt_check((A[0] == A[1]) == (R[0].P == R[1].P), "equality compares targets");
        unsigned N = 0;
        for (bool X : Alive)
          N += X;
        symrt_check(N == 2 + NAlive + (Released ? 1 : 0), "owned objects die with their owner, no other does");
      }
    }
    symrt_check(Alive[0] && Alive[1], "borrowed objects survive");
  }
  symrt_check(symrt_live() == L0, "nothing leaks");
  symrt_cover("history");
}
SYM_GOAL(history3) { history<UP>(3); }
SYM_GOAL(history_aligned2) { history<UPA>(2); }
SYM_GOAL(byte) {
  uint64_t L0 = symrt_live();
  {
    Byte Local;
    bool Own = sym_pickbool("own"), Mv = sym_pickbool("move");
    MaybeUniquePtr<Byte> P = Own ? MaybeUniquePtr<Byte>(std::make_unique<Byte>()) : MaybeUniquePtr<Byte>(&Local);
    symrt_check(P.owns() == Own && Byte::N == 1 + Own, "ownership without spare pointer bits");
    if (Mv) {
      MaybeUniquePtr<Byte> Q(std::move(P));
      symrt_check(Q.owns() == Own && !P.owns() && !P, "moved");
      P = std::move(Q);
    }
    symrt_check(P.owns() == Own, "still");
    P.reset();
    symrt_check(Byte::N == 1, "reset destroys an owned object only");
  }
  symrt_check(Byte::N == 0 && symrt_live() == L0, "all gone");
}
SYM_GOAL(boxed) {
  int X = 1, Y = 2;
  int *P = sym_pickbool("p") ? &X : nullptr, *Q = sym_pickbool("q") ? &Y : nullptr;
  BoxedPtr<int> A(&P), B(sym_pickbool("same") ? &P : &Q), N;
  BoxedConstPtr<int> CA(A), CB(B), CN(nullptr);
  symrt_check(bool(A) == (P != nullptr) && !N && bool(CA) == bool(A) && !CN, "null-ness follows the target");
  symrt_check((A == B) == (A.value() == B.value()) && (CA == CB) == (A == B), "identity of the box");
  symrt_check(!(A == B) || std::hash<BoxedPtr<int>>{}(A) == std::hash<BoxedPtr<int>>{}(B), "hash");
  symrt_check((A < B) + (B < A) + (A == B) == 1 && (A <= B) == !(B < A) && (CA < CB) == (A < B), "order");
  P = &Y;
  symrt_check(A.get() == &Y && *A == 2 && CA.get() == &Y, "a box follows its target");
  *A = 5;
  symrt_check(Y == 5 && *CA == 5, "and gives access to it");
}

// ---------------------------------------------------------------- AliasSetOwner
using Set = llvm::DenseSet<const llvm::Value *>;
namespace psr {
template class AliasSetOwner<Set>;
}
SYM_GOAL(alias_set_owner) {
  uint64_t L0 = symrt_live();
  {
    AliasSetOwner<Set>::memory_resource_type MR;
    AliasSetOwner<Set> O(&MR);
    std::vector<BoxedPtr<Set>> Box;
    std::vector<bool> Owned;
    std::vector<unsigned> Tag;
    if (sym_pickbool("reserve"))
      O.reserve(4);
    for (unsigned S = 0; S < 5; ++S) {
      if (Box.empty() || sym_pickbool("acquire")) {
        auto B = O.acquire();
        symrt_check(B && B->empty(), "a new alias set is empty");
        B->insert((const llvm::Value *)(uintptr_t)(64 * (S + 1)));
        Box.push_back(B), Owned.push_back(true), Tag.push_back(S);
      } else {
        unsigned K = sym_pick<unsigned>("k", 0, Box.size() - 1);
        if (Owned[K]) {
          // redirect the box to a live set first, as merging does
          Set *Old = Box[K].get();
          for (unsigned M = 0; M < Box.size(); ++M)
            if (M != K && Owned[M]) {
              for (unsigned L = 0; L < Box.size(); ++L)
                if (!Owned[L] && Box[L].get() == Old)
                  *Box[L].value() = Box[M].get(), Tag[L] = Tag[M];
              *Box[K].value() = Box[M].get(), Tag[K] = Tag[M];
              O.release(Old);
              Owned[K] = false;
              break;
            }
        }
      }
      unsigned N = 0;
      for (unsigned K = 0; K < Box.size(); ++K) {
        N += Owned[K];
        symrt_check(Box[K]->size() == 1 && Box[K]->count((const llvm::Value *)(uintptr_t)(64 * (Tag[K] + 1))),
                    "every box still reaches its set");
      }
      unsigned All = 0;
      for (auto *P : O.getAllAliasSets()) {
        bool Known = false;
        for (unsigned K = 0; K < Box.size(); ++K)
          Known |= Owned[K] && Box[K].get() == P;
        symrt_check(Known, "only live sets are listed");
        ++All;
      }
      symrt_check(All == N, "every live set is listed once");
    }
    if (sym_pickbool("move")) {
      AliasSetOwner<Set> P(std::move(O));
      for (unsigned K = 0; K < Box.size(); ++K)
        symrt_check(Box[K]->size() == 1, "boxes survive moving the owner");
    }
  }
  symrt_check(symrt_live() == L0, "nothing leaks");
}
