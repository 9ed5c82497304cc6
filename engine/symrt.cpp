// Runtime of the dynamic symbolic execution engine.
//
// One process per goal.  The goal runs natively up to its first symbolic
// input; there the process becomes the master and forks one child per path.
// A child runs the real code on one concrete input vector while maintaining
// symbolic expressions; at every decision whose condition depends on a
// symbolic input it asks Z3 whether the other outcome is feasible under the
// path condition and hands the model back to the master as a new work item.
// The exploration is finished when no item is left: then every feasible path
// within the harness' bounds was executed and every symrt_check was decided by
// the solver for all inputs of its path.
#include "symrt.h"
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <new>
#include <poll.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <z3.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_realloc(void *, size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_memalign(size_t, size_t);
}

static int g_rt = 0; // >0: inside the runtime (its allocations are kept apart)
struct RT {
  RT() { ++g_rt; }
  ~RT() { --g_rt; }
};

// ---------------------------------------------------------------- expressions
enum Kind : u8 {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_SHL, K_LSHR, K_ASHR, K_AND, K_OR, K_XOR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_NOT,
  K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT
};
struct Expr {
  u8 kind, width;
  u8 known;      // path knowledge for width 1: 1 = asserted true, 2 = false
  u8 mark;
  u32 id;
  u64 cval;      // value under the current concrete input
  u64 k;         // constant / extract low bit / var index
  Expr *a, *b, *c;
  Expr *next;    // hash chain
  Z3_ast z;
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(u64 v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  u64 m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

static char *ar_p, *ar_e; // expression arena
static void *xalloc(size_t n) {
  n = (n + 15) & ~15ull;
  if (ar_p + n > ar_e) {
    size_t s = 64 << 20;
    ar_p = (char *)mmap(nullptr, s, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (ar_p == MAP_FAILED) _exit(97);
    ar_e = ar_p + s;
  }
  void *r = ar_p;
  ar_p += n;
  return r;
}
static const u32 HB = 1 << 18;
static Expr **g_tab;
static u32 g_nexpr;

static u64 cevalx(u8 k, unsigned w, Expr *a, Expr *b, Expr *c, u64 kk) {
  u64 m = maskw(w), x = a ? a->cval : 0, y = b ? b->cval : 0;
  unsigned aw = a ? a->width : 0;
  switch (k) {
  case K_ADD: return (x + y) & m;
  case K_SUB: return (x - y) & m;
  case K_MUL: return (x * y) & m;
  case K_UDIV: return y ? (x / y) & m : m;
  case K_UREM: return y ? (x % y) & m : x;
  case K_SDIV: {
    int64_t p = sx(x, w), q = sx(y, w);
    if (!q) return (p < 0 ? 1 : m) & m;
    if (q == -1) return (0 - (u64)p) & m;
    return (u64)(p / q) & m;
  }
  case K_SREM: {
    int64_t p = sx(x, w), q = sx(y, w);
    if (!q) return x;
    if (q == -1) return 0;
    return (u64)(p % q) & m;
  }
  case K_SHL: return y >= w ? 0 : (x << y) & m;
  case K_LSHR: return y >= w ? 0 : (x >> y) & m;
  case K_ASHR: return (u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & m;
  case K_AND: return x & y;
  case K_OR: return x | y;
  case K_XOR: return x ^ y;
  case K_EQ: return x == y;
  case K_ULT: return x < y;
  case K_ULE: return x <= y;
  case K_SLT: return sx(x, aw) < sx(y, aw);
  case K_SLE: return sx(x, aw) <= sx(y, aw);
  case K_NOT: return !x;
  case K_ITE: return x ? b->cval : c->cval;
  case K_ZEXT: return x;
  case K_SEXT: return (u64)sx(x, aw) & m;
  case K_EXTRACT: return (x >> kk) & m;
  case K_CONCAT: return ((x << b->width) | y) & m;
  }
  return 0;
}
static Expr *raw(u8 kind, unsigned w, Expr *a, Expr *b, Expr *c, u64 k) {
  u64 h = kind * 0x9E3779B97F4A7C15ull + w;
  h = (h ^ (u64)a) * 0xff51afd7ed558ccdull;
  h = (h ^ (u64)b ^ (h >> 29)) * 0xc4ceb9fe1a85ec53ull;
  h = (h ^ (u64)c ^ (h >> 31)) * 0xff51afd7ed558ccdull;
  h = (h ^ k ^ (h >> 30)) * 0x9E3779B97F4A7C15ull;
  u32 i = (h >> 40) & (HB - 1);
  for (Expr *e = g_tab[i]; e; e = e->next)
    if (e->kind == kind && e->width == w && e->a == a && e->b == b &&
        e->c == c && e->k == k)
      return e;
  Expr *e = (Expr *)xalloc(sizeof(Expr));
  e->kind = kind; e->width = w; e->known = 0; e->mark = 0;
  e->id = ++g_nexpr;
  e->a = a; e->b = b; e->c = c; e->k = k; e->z = nullptr;
  e->cval = kind == K_CONST ? k : kind == K_VAR ? 0 : cevalx(kind, w, a, b, c, k);
  e->next = g_tab[i];
  g_tab[i] = e;
  return e;
}
static Expr *cst(u64 v, unsigned w) { return raw(K_CONST, w, 0, 0, 0, v & maskw(w)); }
static inline bool isc(Expr *e) { return e->kind == K_CONST; }
static inline bool isc(Expr *e, u64 v) { return e->kind == K_CONST && e->k == (v & maskw(e->width)); }
static Expr *mk(u8 kind, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u64 k = 0);
static Expr *mnot(Expr *a) {
  if (isc(a)) return cst(!a->k, 1);
  if (a->kind == K_NOT) return a->a;
  return raw(K_NOT, 1, a, 0, 0, 0);
}
static Expr *zext(Expr *a, unsigned w) { return a->width == w ? a : mk(K_ZEXT, w, a); }
static Expr *extract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && a->width == w) return a;
  return mk(K_EXTRACT, w, a, 0, 0, lo);
}
static Expr *mk(u8 kind, unsigned w, Expr *a, Expr *b, Expr *c, u64 k) {
  bool allc = isc(a) && (!b || isc(b)) && (!c || isc(c));
  if (allc) return cst(cevalx(kind, w, a, b, c, k), w);
  switch (kind) {
  case K_ADD: case K_MUL: case K_AND: case K_OR: case K_XOR: case K_EQ:
    if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b); // const right
    break;
  }
  switch (kind) {
  case K_ADD:
    if (isc(b, 0)) return a;
    if (isc(b) && a->kind == K_ADD && isc(a->b)) return mk(K_ADD, w, a->a, cst(a->b->k + b->k, w));
    break;
  case K_SUB:
    if (isc(b, 0)) return a;
    if (a == b) return cst(0, w);
    if (isc(b)) return mk(K_ADD, w, a, cst(0 - b->k, w));
    break;
  case K_MUL:
    if (isc(b, 0)) return b;
    if (isc(b, 1)) return a;
    break;
  case K_AND:
    if (isc(b, 0)) return b;
    if (isc(b, ~0ull)) return a;
    if (a == b) return a;
    if (a->kind == K_ZEXT && isc(b)) {
      u64 in = b->k & maskw(a->a->width);
      if (in == maskw(a->a->width)) return a;
      if (!in) return cst(0, w);
    }
    if (isc(b) && a->kind == K_AND && isc(a->b)) return mk(K_AND, w, a->a, cst(a->b->k & b->k, w));
    if (w == 1 && ((b->kind == K_NOT && b->a == a) || (a->kind == K_NOT && a->a == b))) return cst(0, 1);
    break;
  case K_OR:
    if (isc(b, 0)) return a;
    if (isc(b, ~0ull)) return b;
    if (a == b) return a;
    if (w == 1 && ((b->kind == K_NOT && b->a == a) || (a->kind == K_NOT && a->a == b))) return cst(1, 1);
    break;
  case K_XOR:
    if (isc(b, 0)) return a;
    if (a == b) return cst(0, w);
    if (w == 1 && isc(b, 1)) return mnot(a);
    break;
  case K_SHL: case K_LSHR: case K_ASHR:
    if (isc(b, 0)) return a;
    if (isc(b) && b->k >= w && kind != K_ASHR) return cst(0, w);
    if (kind == K_LSHR && isc(b) && a->kind == K_ZEXT && b->k >= a->a->width) return cst(0, w);
    break;
  case K_EQ: {
    if (a == b) return cst(1, 1);
    if (a->width == 1 && isc(b)) return b->k ? a : mnot(a);
    if (isc(b)) {
      if (a->kind == K_ZEXT) {
        if (b->k & ~maskw(a->a->width)) return cst(0, 1);
        return mk(K_EQ, 1, a->a, cst(b->k, a->a->width));
      }
      if (a->kind == K_SEXT) {
        u64 n = b->k & maskw(a->a->width);
        if (((u64)sx(n, a->a->width) & maskw(a->width)) != b->k) return cst(0, 1);
        return mk(K_EQ, 1, a->a, cst(n, a->a->width));
      }
      if (a->kind == K_ADD && isc(a->b)) return mk(K_EQ, 1, a->a, cst(b->k - a->b->k, b->width));
      if (a->kind == K_ITE && isc(a->b) && isc(a->c)) {
        bool x = a->b->k == b->k, y = a->c->k == b->k;
        if (x && y) return cst(1, 1);
        if (x) return a->a;
        if (y) return mnot(a->a);
        return cst(0, 1);
      }
      if (a->kind == K_XOR && isc(a->b)) return mk(K_EQ, 1, a->a, cst(a->b->k ^ b->k, b->width));
      if (a->kind == K_AND && a->a->kind == K_ZEXT && isc(a->b) && a->a->a->width == 1) {
        // (zext bool) & odd
        if (a->b->k & 1) return mk(K_EQ, 1, a->a, b);
      }
    }
    if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width)
      return mk(K_EQ, 1, a->a, b->a);
    break;
  }
  case K_ULT:
    if (a == b || isc(b, 0)) return cst(0, 1);
    if (isc(b, 1)) return mk(K_EQ, 1, a, cst(0, a->width));
    if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mk(K_ULT, 1, a->a, b->a);
    break;
  case K_ULE:
    if (a == b || isc(a, 0)) return cst(1, 1);
    if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mk(K_ULE, 1, a->a, b->a);
    break;
  case K_SLT: if (a == b) return cst(0, 1); break;
  case K_SLE: if (a == b) return cst(1, 1); break;
  case K_ITE:
    if (isc(a)) return a->k ? b : c;
    if (b == c) return b;
    if (a->kind == K_NOT) return mk(K_ITE, w, a->a, c, b);
    if (w == 1) {
      if (isc(b)) return b->k ? mk(K_OR, 1, a, c) : mk(K_AND, 1, mnot(a), c);
      if (isc(c)) return c->k ? mk(K_OR, 1, mnot(a), b) : mk(K_AND, 1, a, b);
    }
    if (isc(b, 1) && isc(c, 0)) return zext(a, w);
    if (isc(b, 0) && isc(c, 1)) return zext(mnot(a), w);
    break;
  case K_ZEXT:
    if (a->width == w) return a;
    if (a->kind == K_ZEXT) return mk(K_ZEXT, w, a->a);
    break;
  case K_SEXT:
    if (a->width == w) return a;
    if (a->kind == K_ZEXT) return mk(K_ZEXT, w, a->a);
    break;
  case K_EXTRACT: {
    unsigned lo = (unsigned)k;
    if (lo == 0 && w == a->width) return a;
    if (a->kind == K_EXTRACT) return extract(a->a, lo + (unsigned)a->k, w);
    if (a->kind == K_ZEXT) {
      unsigned iw = a->a->width;
      if (lo >= iw) return cst(0, w);
      if (lo + w <= iw) return extract(a->a, lo, w);
      return zext(extract(a->a, lo, iw - lo), w);
    }
    if (a->kind == K_CONCAT) {
      unsigned bw = a->b->width;
      if (lo + w <= bw) return extract(a->b, lo, w);
      if (lo >= bw) return extract(a->a, lo - bw, w);
    }
    if (a->kind == K_AND || a->kind == K_OR || a->kind == K_XOR)
      if (isc(a->b))
        return mk(a->kind, w, extract(a->a, lo, w), cst(a->b->k >> lo, w));
    if (a->kind == K_ITE && (isc(a->b) || isc(a->c)))
      return mk(K_ITE, w, a->a, extract(a->b, lo, w), extract(a->c, lo, w));
    if (lo == 0 && (a->kind == K_ADD) && isc(a->b))
      return mk(K_ADD, w, extract(a->a, 0, w), cst(a->b->k, w));
    break;
  }
  case K_CONCAT:
    if (isc(a, 0)) return zext(b, w);
    if (a->kind == K_EXTRACT && b->kind == K_EXTRACT && a->a == b->a &&
        a->k == b->k + b->width)
      return extract(a->a, (unsigned)b->k, w);
    break;
  }
  return raw(kind, w, a, b, c, k);
}
static void shadow_mismatch(Expr *e, u64 v, unsigned w, u64 pc);
// operand: its expression must evaluate to the value the program really has
__attribute__((always_inline)) static inline Expr *ex(void *e, u64 v, unsigned w) {
  if (!e) return cst(v, w);
  Expr *x = (Expr *)e;
  if (x->cval != (v & maskw(w)) || x->width != w) shadow_mismatch(x, v, w, (u64)__builtin_return_address(0));
  return x;
}
static inline Expr *out(Expr *e) { return isc(e) ? nullptr : e; }

// ------------------------------------------------------------------ shared
struct Why { char name[96]; u64 n; };
struct Shared {
  u64 paths, decisions, queries, sat, unsat, unknown, solver_us, checks_sym,
      checks_conc, assume_pruned, crashes, divergences, conc_points, conc_vals,
      conc_overflow, prefix_checks, truncated, lost_ret, maxdec, maxexpr,
      emitted, steps, maxsteps, mismatches;
  Why why[256]; u32 nwhy;
  Why cover[256]; u32 ncover;
  Why checks[256]; u32 nchecks; // per check id: number of times decided
  u32 nhits;
  u8 hits[1 << 20];
};
static Shared *S;
static void bump(Why *t, u32 &n, const char *name) {
  for (u32 i = 0; i < n && i < 256; ++i)
    if (!strncmp(t[i].name, name, 95)) { __sync_fetch_and_add(&t[i].n, 1); return; }
  u32 i = __sync_fetch_and_add(&n, 1);
  if (i >= 256) { n = 256; return; }
  strncpy(t[i].name, name, 95);
  __sync_fetch_and_add(&t[i].n, 1);
}
#define INC(f, v) __sync_fetch_and_add(&S->f, (u64)(v))

// ------------------------------------------------------------------- state
struct Var { u64 val; const char *name; u32 off; Expr *e; };
struct Item { std::vector<u64> in; u32 bound; u64 hash; };

static int g_mode = 0; // 0 = before snapshot, 1 = child
static Var *g_vars; static u32 g_nvars;
static const u32 MAXVARS = 1 << 16;
static const u64 *g_in; static u32 g_nin; // inputs of this path
static u32 g_bound; static u64 g_hash_expect;
static u32 g_ndec; static u64 g_hash;
static int g_pipe = -1;
static Z3_context Z; static Z3_solver ZS;
static Expr **g_pend; static u32 g_npend, g_ncons;
static u64 g_steps, g_maxsteps = 400000000ull;
static u32 g_maxdec = 200000;
struct Note { const char *k; u64 v; };
static Note g_notes[64]; static u32 g_nnotes;
static const char *g_goal = "";

struct Opt {
  int jobs = 8; double time = 600; double path_time = 30; u64 max_paths = 0;
  unsigned z3_rlimit = 200000000; const char *out = nullptr; int maxviol = 40; int verbose = 0;
  u64 stop_on_viol = 0;
} O;

// -------------------------------------------------------------- Z3 encoding
static Z3_sort zsort(unsigned w) { return w == 1 ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, w); }
static Z3_ast zone(Expr *e) {
  auto A = [&](Expr *x) { return x->z; };
  unsigned w = e->width;
  switch (e->kind) {
  case K_CONST:
    if (w == 1) return e->k ? Z3_mk_true(Z) : Z3_mk_false(Z);
    return Z3_mk_unsigned_int64(Z, e->k, zsort(w));
  case K_VAR: {
    char b[24]; snprintf(b, sizeof b, "v%u", (u32)e->k);
    return Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), zsort(w));
  }
  case K_ADD: return Z3_mk_bvadd(Z, A(e->a), A(e->b));
  case K_SUB: return Z3_mk_bvsub(Z, A(e->a), A(e->b));
  case K_MUL: return Z3_mk_bvmul(Z, A(e->a), A(e->b));
  case K_UDIV: return Z3_mk_bvudiv(Z, A(e->a), A(e->b));
  case K_SDIV: return Z3_mk_bvsdiv(Z, A(e->a), A(e->b));
  case K_UREM: return Z3_mk_bvurem(Z, A(e->a), A(e->b));
  case K_SREM: return Z3_mk_bvsrem(Z, A(e->a), A(e->b));
  case K_SHL: return Z3_mk_bvshl(Z, A(e->a), A(e->b));
  case K_LSHR: return Z3_mk_bvlshr(Z, A(e->a), A(e->b));
  case K_ASHR: return Z3_mk_bvashr(Z, A(e->a), A(e->b));
  case K_AND: {
    if (w != 1) return Z3_mk_bvand(Z, A(e->a), A(e->b));
    Z3_ast x[2] = {A(e->a), A(e->b)}; return Z3_mk_and(Z, 2, x);
  }
  case K_OR: {
    if (w != 1) return Z3_mk_bvor(Z, A(e->a), A(e->b));
    Z3_ast x[2] = {A(e->a), A(e->b)}; return Z3_mk_or(Z, 2, x);
  }
  case K_XOR:
    if (w != 1) return Z3_mk_bvxor(Z, A(e->a), A(e->b));
    return Z3_mk_xor(Z, A(e->a), A(e->b));
  case K_EQ: return Z3_mk_eq(Z, A(e->a), A(e->b));
  case K_ULT: return Z3_mk_bvult(Z, A(e->a), A(e->b));
  case K_ULE: return Z3_mk_bvule(Z, A(e->a), A(e->b));
  case K_SLT: return Z3_mk_bvslt(Z, A(e->a), A(e->b));
  case K_SLE: return Z3_mk_bvsle(Z, A(e->a), A(e->b));
  case K_NOT: return Z3_mk_not(Z, A(e->a));
  case K_ITE: return Z3_mk_ite(Z, A(e->a), A(e->b), A(e->c));
  case K_ZEXT:
    if (e->a->width == 1)
      return Z3_mk_ite(Z, A(e->a), Z3_mk_unsigned_int64(Z, 1, zsort(w)), Z3_mk_unsigned_int64(Z, 0, zsort(w)));
    return Z3_mk_zero_ext(Z, w - e->a->width, A(e->a));
  case K_SEXT:
    if (e->a->width == 1)
      return Z3_mk_ite(Z, A(e->a), Z3_mk_unsigned_int64(Z, maskw(w), zsort(w)), Z3_mk_unsigned_int64(Z, 0, zsort(w)));
    return Z3_mk_sign_ext(Z, w - e->a->width, A(e->a));
  case K_EXTRACT: {
    if (w == 1) {
      Z3_ast x = Z3_mk_extract(Z, e->k, e->k, A(e->a));
      return Z3_mk_eq(Z, x, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
    }
    return Z3_mk_extract(Z, e->k + w - 1, e->k, A(e->a));
  }
  case K_CONCAT: {
    auto B = [&](Expr *x) {
      if (x->width != 1) return A(x);
      auto s1 = Z3_mk_bv_sort(Z, 1);
      return Z3_mk_ite(Z, A(x), Z3_mk_unsigned_int64(Z, 1, s1), Z3_mk_unsigned_int64(Z, 0, s1));
    };
    return Z3_mk_concat(Z, B(e->a), B(e->b));
  }
  }
  return nullptr;
}
static Z3_ast zof(Expr *e) {
  if (e->z) return e->z;
  static std::vector<Expr *> st;
  st.clear();
  st.push_back(e);
  while (!st.empty()) {
    Expr *x = st.back();
    if (x->z) { st.pop_back(); continue; }
    bool r = true;
    for (Expr *y : {x->a, x->b, x->c})
      if (y && !y->z) { st.push_back(y); r = false; }
    if (!r) continue;
    x->z = zone(x);
    st.pop_back();
  }
  return e->z;
}
static u64 now_us() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return (u64)t.tv_sec * 1000000 + t.tv_nsec / 1000;
}
// value of e under the variable assignment m
static u64 evalm(Expr *e, const std::vector<u64> &m, std::map<Expr *, u64> &val) {
  std::vector<Expr *> st{e};
  while (!st.empty()) {
    Expr *x = st.back();
    if (val.count(x)) { st.pop_back(); continue; }
    bool rdy = true;
    for (Expr *y : {x->a, x->b, x->c}) if (y && !val.count(y)) { st.push_back(y); rdy = false; }
    if (!rdy) continue;
    st.pop_back();
    if (x->kind == K_CONST) val[x] = x->k;
    else if (x->kind == K_VAR) val[x] = x->k < m.size() ? m[x->k] : x->cval;
    else {
      Expr ta, tb, tc;
      if (x->a) { ta = *x->a; ta.cval = val[x->a]; }
      if (x->b) { tb = *x->b; tb.cval = val[x->b]; }
      if (x->c) { tc = *x->c; tc.cval = val[x->c]; }
      val[x] = cevalx(x->kind, x->width, x->a ? &ta : 0, x->b ? &tb : 0, x->c ? &tc : 0, x->k);
    }
  }
  return val[e];
}
static bool g_debug = false;
static std::vector<Expr *> *g_all;
static void flush_pend() {
  if (g_debug) {
    if (!g_all) g_all = new std::vector<Expr *>;
    for (u32 i = 0; i < g_npend; ++i) g_all->push_back(g_pend[i]);
  }
  for (u32 i = 0; i < g_npend; ++i) Z3_solver_assert(Z, ZS, zof(g_pend[i]));
  g_ncons += g_npend;
  g_npend = 0;
}
// is PC /\ e satisfiable?  fills model
static int query(Expr *const *es, u32 n, std::vector<u64> *model) {
  RT g;
  flush_pend();
  u64 t0 = now_us();
  std::vector<Z3_ast> lits;
  Z3_solver_push(Z, ZS);
  for (u32 i = 0; i < n; ++i) Z3_solver_assert(Z, ZS, zof(es[i]));
  Z3_lbool r = Z3_solver_check(Z, ZS);
  if (r == Z3_L_TRUE && model) {
    Z3_model m = Z3_solver_get_model(Z, ZS);
    Z3_model_inc_ref(Z, m);
    model->resize(g_nvars);
    for (u32 i = 0; i < g_nvars; ++i) {
      u64 v = g_vars[i].val;
      if (g_vars[i].e && g_vars[i].e->z) {
        Z3_ast I = Z3_model_get_const_interp(Z, m, Z3_get_app_decl(Z, Z3_to_app(Z, g_vars[i].e->z)));
        if (I) {
          if (g_vars[i].e->width == 1)
            v = Z3_get_bool_value(Z, I) == Z3_L_TRUE;
          else
            Z3_get_numeral_uint64(Z, I, (uint64_t *)&v);
        }
      }
      (*model)[i] = v;
    }
    Z3_model_dec_ref(Z, m);
    if (g_debug) {
      std::map<Expr *, u64> val;
      std::vector<Expr *> all = g_all ? *g_all : std::vector<Expr *>();
      for (u32 i = 0; i < n; ++i) all.push_back(es[i]);
      for (Expr *e : all)
        if (!(evalm(e, *model, val) & 1)) {
          fprintf(stderr, "BAD MODEL: constraint %u kind %d false under the model\n%s\n", e->id, e->kind,
                  Z3_ast_to_string(Z, zof(e)));
          for (u32 i = 0; i < g_nvars; ++i) fprintf(stderr, " v%u=%lx", i, (*model)[i]);
          fprintf(stderr, "\n");
        }
    }
  }
  Z3_solver_pop(Z, ZS, 1);
  INC(queries, 1);
  INC(solver_us, now_us() - t0);
  if (r == Z3_L_TRUE) { INC(sat, 1); return 1; }
  if (r == Z3_L_FALSE) { INC(unsat, 1); return 0; }
  INC(unknown, 1);
  return -1;
}

// --------------------------------------------------------- child -> master
static void wr(const void *p, size_t n) {
  const char *c = (const char *)p;
  while (n) {
    ssize_t k = write(g_pipe, c, n);
    if (k < 0) { if (errno == EINTR) continue; _exit(96); }
    c += k; n -= k;
  }
}
static void send_msg(u8 type, const std::string &pl) {
  u32 n = pl.size();
  std::string b;
  b.push_back((char)type);
  b.append((char *)&n, 4);
  b += pl;
  wr(b.data(), b.size());
}
static void put(std::string &s, u64 v) { s.append((char *)&v, 8); }
static FILE *g_trace;
static void emit(const std::vector<u64> &in, u32 bound, u64 hash) {
  std::string s;
  put(s, bound); put(s, hash); put(s, in.size());
  for (u64 v : in) put(s, v);
  send_msg('I', s);
  if (g_debug && g_trace) {
    fprintf(g_trace, "   emit bound %u:", bound);
    for (u64 v : in) fprintf(g_trace, " %lx", v);
    fprintf(g_trace, "\n");
    fflush(g_trace);
  }
  INC(emitted, 1);
}
static std::string inputs_desc(const std::vector<u64> &vals) {
  // name \0 off width val
  std::string s;
  put(s, g_nvars);
  for (u32 i = 0; i < g_nvars; ++i) {
    put(s, strlen(g_vars[i].name));
    s += g_vars[i].name;
    put(s, g_vars[i].off);
    put(s, g_vars[i].e ? g_vars[i].e->width : 0);
    put(s, i < vals.size() ? vals[i] : g_vars[i].val);
  }
  put(s, g_nnotes);
  for (u32 i = 0; i < g_nnotes; ++i) {
    put(s, strlen(g_notes[i].k)); s += g_notes[i].k; put(s, g_notes[i].v);
  }
  return s;
}
static void send_violation(const char *id, const char *kind, const std::string &msg,
                           const std::vector<u64> &model) {
  std::string s;
  put(s, strlen(id)); s += id;
  put(s, strlen(kind)); s += kind;
  put(s, msg.size()); s += msg;
  s += inputs_desc(model);
  send_msg('V', s);
}
static std::vector<u64> cur_inputs() {
  std::vector<u64> v(g_nvars);
  for (u32 i = 0; i < g_nvars; ++i) v[i] = g_vars[i].val;
  return v;
}
static u64 g_t0;
static void scan_hits();
static void finish_path(bool sample) {
  RT g;
  scan_hits();
  INC(paths, 1);
  INC(decisions, g_ndec);
  INC(steps, g_steps);
  if (g_ndec > S->maxdec) S->maxdec = g_ndec;
  if (g_steps > S->maxsteps) S->maxsteps = g_steps;
  if (g_nexpr > S->maxexpr) S->maxexpr = g_nexpr;
  if (sample) send_msg('S', inputs_desc(cur_inputs()));
  send_msg('E', "");
  _exit(0);
}
static void fatal(const char *id, const std::string &msg) {
  RT g;
  send_violation(id, "fatal", msg, cur_inputs());
  finish_path(false);
}

// ------------------------------------------------------------------ decide
static inline u64 mix(u64 h, u64 a, u64 b) {
  h ^= a * 0x9E3779B97F4A7C15ull; h = (h ^ (h >> 31)) * 0xff51afd7ed558ccdull;
  h ^= b + 0x7F4A7C15; h = (h ^ (h >> 29)) * 0xc4ceb9fe1a85ec53ull;
  return h;
}
static void setknown(Expr *c, bool v) { // c has value v on this path
  if (isc(c) || c->known) return;
  c->known = v ? 1 : 2;
  if (c->kind == K_NOT) setknown(c->a, !v);
  else if (c->kind == K_AND && v) { setknown(c->a, true); setknown(c->b, true); }
  else if (c->kind == K_OR && !v) { setknown(c->a, false); setknown(c->b, false); }
}
// variables whose value the path condition has fixed; an expression over fixed
// variables only is a constant on this path and needs no query
static u8 g_fixed[1 << 16];
static void notefixed(Expr *c, bool v) {
  if (c->kind == K_NOT) notefixed(c->a, !v);
  else if (c->kind == K_VAR) g_fixed[c->k] = 1;
  else if (c->kind == K_AND && c->width == 1 && v) { notefixed(c->a, true); notefixed(c->b, true); }
  else if (c->kind == K_OR && c->width == 1 && !v) { notefixed(c->a, false); notefixed(c->b, false); }
  else if (c->kind == K_EQ && v && isc(c->b) && c->a->kind == K_VAR) g_fixed[c->a->k] = 1;
}
static bool determined(Expr *e, int &budget) {
  if (e->mark || isc(e)) return true;
  if (e->kind == K_VAR) { if (g_fixed[e->k]) { e->mark = 1; return true; } return false; }
  if (--budget < 0) return false;
  if (e->a && !determined(e->a, budget)) return false;
  if (e->b && !determined(e->b, budget)) return false;
  if (e->c && !determined(e->c, budget)) return false;
  e->mark = 1;
  return true;
}
static inline bool det(Expr *e) { int b = 2000; return determined(e, b); }
static void assert_lit(Expr *c) { // c true on this path
  notefixed(c, true);
  g_pend[g_npend++] = c;
  if (g_npend >= 60000) { RT g; flush_pend(); }
  setknown(c, true);
}
static inline int known(Expr *c) { // 1 true 2 false 0 ?
  if (c->known) return c->known;
  if (c->kind == K_NOT && c->a->known) return 3 - c->a->known;
  return 0;
}
static void divergence(const char *where) {
  INC(divergences, 1);
  fprintf(stderr, "DIVERGENCE at %s dec %u\n", where, g_ndec);
  if (g_debug) fprintf(stderr, "DIVERGENCE pid %d\n", getpid());
  finish_path(false);
}
static void trace(const char *what, Expr *c, u64 v, u64 site) {
  if (!g_debug) return;
  RT g;
  if (!g_trace) {
    char b[64]; snprintf(b, sizeof b, "/tmp/symtrace/%d", getpid());
    g_trace = fopen(b, "w");
    if (!g_trace) { g_debug = false; return; }
    for (u32 i = 0; i < g_nin; ++i) fprintf(g_trace, "%lx ", g_in[i]);
    fprintf(g_trace, "\n");
  }
  fprintf(g_trace, "%u%s %s %lx site %lx: %s\n", g_ndec, g_ndec < g_bound ? "p" : "", what, v, site, Z3_ast_to_string(Z, zof(c)));
  fflush(g_trace);
}
static bool in_prefix(u64 a, u64 b) {
  // returns true if this decision belongs to the prefix of the work item
  u32 idx = g_ndec++;
  g_hash = mix(g_hash, a, b);
  if (g_ndec > g_maxdec) { INC(truncated, 1); finish_path(false); }
  if (idx >= g_bound) return false;
  if (idx == g_bound - 1) {
    INC(prefix_checks, 1);
    if (g_hash != g_hash_expect) divergence("prefix");
  }
  return true;
}
static void decide(Expr *c, bool outcome, u64 site) {
  if (isc(c)) return;
  if (known(c) || det(c)) return;
  if ((c->cval & 1) != (u64)outcome) { // encoding disagrees with real run
    fprintf(stderr, "MISMATCH: decision expr disagrees with execution\n");
    divergence("value");
  }
  while (c->kind == K_NOT) { c = c->a; outcome = !outcome; }
  u64 before = g_hash;
  trace("decide", c, outcome, site);
  Expr *lit = outcome ? c : mnot(c);
  if (!in_prefix(site, outcome)) {
    std::vector<u64> m;
    Expr *neg = outcome ? mnot(c) : c;
    int r = query(&neg, 1, &m);
    if (r == 1) { RT g; emit(m, g_ndec, mix(before, site, !outcome)); }
    if (r == 0) { notefixed(lit, true); setknown(lit, true); setknown(c, outcome); return; }
  }
  assert_lit(lit);
  setknown(c, outcome);
}
// fix e to its current value, exploring every other feasible value elsewhere
static const u32 MAXCONC = 4096;
static void concretize(Expr *e, u64 v, const char *why) {
  if (isc(e)) return;
  unsigned w = e->width;
  v &= maskw(w);
  if (w == 1) { decide(e, v & 1, 0xC0C0); bump(S->why, S->nwhy, why); return; }
  if (e->cval != v) { fprintf(stderr, "MISMATCH: conc %s: expr %lx real %lx\n", why, e->cval, v); divergence("conc-value"); }
  Expr *eq = mk(K_EQ, 1, e, cst(v, w));
  if (isc(eq) || known(eq) == 1 || det(e)) return;
  { RT g; bump(S->why, S->nwhy, why); }
  INC(conc_points, 1);
  u64 before = g_hash;
  trace(why, e, v, 0);
  if (!in_prefix(0xC0C1, v)) {
    RT g;
    std::vector<Expr *> ne{mnot(eq)};
    u32 cnt = 0;
    for (;;) {
      std::vector<u64> m;
      int r = query(ne.data(), ne.size(), &m);
      if (r != 1) break;
      if (++cnt > MAXCONC) { INC(conc_overflow, 1); break; }
      std::map<Expr *, u64> val;
      u64 nv = evalm(e, m, val);
      INC(conc_vals, 1);
      emit(m, g_ndec, mix(before, 0xC0C1, nv));
      Expr *q = mk(K_EQ, 1, e, cst(nv, w));
      ne.push_back(mnot(q));
    }
  }
  assert_lit(eq);
}

// -------------------------------------------------------------- shadow memory
typedef u64 Ent; // (off << 56) | Expr*
struct Page { u64 num; Ent *e; };
static const u32 NP = 1 << 16;
static Page *g_pages;
static u8 *g_filter; // by page number hash
static inline u32 fh(u64 pn) { return (pn ^ (pn >> 16)) & 0xffff; }
static Ent *page(u64 pn, bool create) {
  u32 i = (pn * 0x9E3779B1u) & (NP - 1);
  for (;; i = (i + 1) & (NP - 1)) {
    if (g_pages[i].e == nullptr) {
      if (!create) return nullptr;
      g_pages[i].num = pn;
      g_pages[i].e = (Ent *)xalloc(4096 * sizeof(Ent));
      memset(g_pages[i].e, 0, 4096 * sizeof(Ent));
      g_filter[fh(pn)] = 1;
      return g_pages[i].e;
    }
    if (g_pages[i].num == pn) return g_pages[i].e;
  }
}
static inline bool maybe(u64 a, u64 n) {
  if (!g_filter) return false;
  if (!n) return false;
  u64 p = a >> 12, q = (a + n - 1) >> 12;
  for (; p <= q; ++p)
    if (g_filter[fh(p)] && page(p, false)) return true;
  return false;
}
static inline Ent getent(u64 a) {
  u64 p = a >> 12;
  if (!g_filter[fh(p)]) return 0;
  Ent *e = page(p, false);
  return e ? e[a & 4095] : 0;
}
static inline void setent(u64 a, Ent v) {
  u64 p = a >> 12;
  Ent *e = page(p, v != 0);
  if (e) e[a & 4095] = v;
}
static inline Expr *eex(Ent v) { return (Expr *)(v & 0x00ffffffffffffffull); }
static inline unsigned eof_(Ent v) { return v >> 56; }
// validated entry (drops entries the native code has overwritten)
static Ent vent(u64 a) {
  Ent v = getent(a);
  if (!v) return 0;
  Expr *e = eex(v);
  u8 want = (u8)(e->cval >> (8 * eof_(v)));
  if (e->width < 8) want = (u8)(e->cval);
  if (want != *(u8 *)a) { setent(a, 0); return 0; }
  return v;
}
static Expr *byteof(Ent v) {
  Expr *e = eex(v);
  unsigned o = eof_(v) * 8;
  if (e->width == 8 && !o) return e;
  if (e->width < 8) return zext(e, 8);
  unsigned w = std::min(8u, e->width - o);
  return zext(extract(e, o, w), 8);
}
static void clear_range(u64 a, u64 n) {
  if (!g_filter || !n) return;
  u64 end = a + n;
  while (a < end) {
    u64 pe = std::min(end, ((a >> 12) + 1) << 12);
    if (g_filter[fh(a >> 12)])
      if (Ent *e = page(a >> 12, false))
        memset(e + (a & 4095), 0, (pe - a) * sizeof(Ent));
    a = pe;
  }
}
static void copy_range(u64 d, u64 s, u64 n) {
  if (!g_filter || !n || d == s) return;
  bool ms = maybe(s, n), md = maybe(d, n);
  if (!ms && !md) return;
  if (!ms) { clear_range(d, n); return; }
  if (d < s || d >= s + n)
    for (u64 i = 0; i < n; ++i) setent(d + i, vent(s + i));
  else
    for (u64 i = n; i-- > 0;) setent(d + i, vent(s + i));
}
static void conc_range(u64 a, u64 n, const char *why) {
  if (!maybe(a, n)) return;
  for (u64 i = 0; i < n; ++i) {
    Ent v = vent(a + i);
    if (!v) continue;
    Expr *e = eex(v);
    // whole expression at once if it is stored contiguously
    unsigned nb = (e->width + 7) / 8;
    if (eof_(v) == 0) {
      bool whole = true;
      for (unsigned j = 1; j < nb; ++j) {
        Ent w = vent(a + i + j);
        if (eex(w) != e || eof_(w) != j) whole = false;
      }
      if (whole) {
        concretize(e, e->cval, why);
        for (unsigned j = 0; j < nb; ++j) setent(a + i + j, 0);
        i += nb - 1;
        continue;
      }
    }
    Expr *b = byteof(v);
    if (!isc(b)) concretize(b, *(u8 *)(a + i), why);
    setent(a + i, 0);
  }
}

// ---------------------------------------------------------------- heap arena
static char *const HBASE = (char *)0x100000000000ull;
static const u64 HSIZE = 8ull << 30;
static u8 *g_valid; // valid bytes per 16-byte granule
static char *g_hp;  // bump pointer
static u64 g_live, g_hused;
struct Hdr { u64 size; u32 cap16; u32 state; }; // state: 0x600D live, 0xDEAD freed
static void *g_free[4096];
static bool g_noreuse;
static u64 g_hlimit = 3ull << 30;
static void heap_init() {
  g_debug = getenv("SYM_DEBUG") != nullptr;
  if (g_hp) return;
  void *r = mmap(HBASE, HSIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != (void *)HBASE) _exit(95);
  g_valid = (u8 *)mmap(nullptr, HSIZE >> 4, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_valid == MAP_FAILED) _exit(95);
  g_hp = HBASE;
}
static inline bool inheap(const void *p) { return (u64)p - (u64)HBASE < HSIZE; }
static void setvalid(char *p, u64 n, bool v) {
  u64 g = (u64)(p - HBASE) >> 4;
  u64 full = n >> 4;
  memset(g_valid + g, v ? 16 : 0, full);
  if (n & 15) g_valid[g + full] = v ? (n & 15) : 0;
}
static void *halloc(u64 n, u64 align) {
  heap_init();
  if (align <= 16) {
    u64 cap = (std::max<u64>(n, 1) + 15) >> 4; // 16-byte units
    char *p = nullptr;
    if (cap < 4096 && g_free[cap] && !g_noreuse) {
      p = (char *)g_free[cap];
      g_free[cap] = *(void **)p;
    } else {
      p = g_hp + 32; // 16 redzone + 16 header
      g_hp = p + (cap << 4);
      if (g_hp - HBASE > (int64_t)g_hlimit) {
        if (g_mode == 1) fatal("out-of-memory", "heap limit exceeded");
        _exit(94);
      }
    }
    Hdr *h = (Hdr *)(p - 16);
    h->size = n; h->cap16 = cap; h->state = 0x600D;
    setvalid(p, std::max<u64>(n, 1), true);
    ++g_live;
    return p;
  }
  u64 cap = (std::max<u64>(n, 1) + 15) >> 4;
  char *p = (char *)(((u64)g_hp + 32 + align - 1) & ~(align - 1));
  g_hp = p + (cap << 4);
  if (g_hp - HBASE > (int64_t)g_hlimit) _exit(94);
  Hdr *h = (Hdr *)(p - 16);
  h->size = n; h->cap16 = cap; h->state = 0x600D;
  setvalid(p, std::max<u64>(n, 1), true);
  ++g_live;
  return p;
}
static void hfree(void *q) {
  char *p = (char *)q;
  Hdr *h = (Hdr *)(p - 16);
  if (h->state != 0x600D) {
    if (g_mode == 1)
      fatal("mem:invalid-free", h->state == 0xDEAD ? "double free" : "free of a non-heap-block pointer");
    abort();
  }
  h->state = 0xDEAD;
  --g_live;
  setvalid(p, std::max<u64>(h->size, 1), false);
  clear_range((u64)p, h->size);
  if (g_mode == 1) {
    u64 n = std::min<u64>(h->size, 4096);
    for (u64 i = 0; i < n; ++i) p[i] = (char)0xDB;
  }
  if (!g_noreuse && h->cap16 < 4096) {
    *(void **)p = g_free[h->cap16];
    g_free[h->cap16] = p;
  }
}
extern "C" {
void *malloc(size_t n) { return g_rt ? __libc_malloc(n) : halloc(n, 16); }
void free(void *p) {
  if (!p) return;
  if (inheap(p)) hfree(p); else __libc_free(p);
}
void *calloc(size_t a, size_t b) {
  if (g_rt) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void *p = halloc(n, 16);
  __builtin_memset_inline:;
  for (size_t i = 0; i < n; ++i) ((volatile char *)p)[i] = 0;
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (!inheap(p)) return __libc_realloc(p, n);
  Hdr *h = (Hdr *)((char *)p - 16);
  void *q = halloc(n, 16);
  memcpy(q, p, std::min<u64>(h->size, n));
  hfree(p);
  return q;
}
void *memalign(size_t a, size_t n) { return g_rt ? __libc_memalign(a, n) : halloc(n, a); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { *r = memalign(a, n); return 0; }
size_t malloc_usable_size(void *p) { return inheap(p) ? ((Hdr *)((char *)p - 16))->size : 0; }
}
void *operator new(size_t n) { return malloc(n); }
void *operator new[](size_t n) { return malloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void *operator new(size_t n, std::align_val_t a) { return memalign((size_t)a, n); }
void *operator new[](size_t n, std::align_val_t a) { return memalign((size_t)a, n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }

static const char *fname(u64 pc);
static void memerr(u64 a, u32 n, bool store, u64 pc) {
  RT g;
  char b[400];
  // freed or out of bounds?
  const char *k = "outside any live block";
  snprintf(b, sizeof b, "%s of %u bytes at heap address %s in %s", store ? "store" : "load", n, k, fname(pc));
  fatal("mem:invalid-access", b);
}
static inline void memcheck(u64 a, u64 n, bool store, u64 pc) {
  u64 o = a - (u64)HBASE;
  if (o >= HSIZE || g_mode != 1) return;
  for (u64 x = a; x < a + n;) {
    u64 g = (x - (u64)HBASE) >> 4;
    u64 ge = ((x >> 4) + 1) << 4;
    u64 need = std::min(ge, a + n) - (x & ~15ull);
    if (g_valid[g] < need) { memerr(a, n, store, pc); return; }
    x = ge;
  }
}

// -------------------------------------------------- memory function wrappers
static inline void rep_movsb(void *d, const void *s, size_t n) {
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
// an overlapping move whose shadow __sym_memcpy has already moved: the wrapper
// must not move it a second time
static u64 g_moved[3];
extern "C" {
void *memcpy(void *d, const void *s, size_t n) {
  if (g_mode == 1 && !g_rt) copy_range((u64)d, (u64)s, n);
  rep_movsb(d, s, n);
  return d;
}
void *memmove(void *d, const void *s, size_t n) {
  if (g_mode == 1 && !g_rt) {
    if (g_moved[0] == (u64)d && g_moved[1] == (u64)s && g_moved[2] == n) g_moved[2] = 0;
    else copy_range((u64)d, (u64)s, n);
  }
  if ((u64)d - (u64)s >= n) rep_movsb(d, s, n);
  else {
    char *dd = (char *)d + n; const char *ss = (const char *)s + n;
    while (n--) *(volatile char *)--dd = *--ss;
  }
  return d;
}
void *__memcpy_chk(void *d, const void *s, size_t n, size_t) { return memcpy(d, s, n); }
void *__memmove_chk(void *d, const void *s, size_t n, size_t) { return memmove(d, s, n); }
void *__memset_chk(void *d, int v, size_t n, size_t) { return memset(d, v, n); }
void *memset(void *d, int v, size_t n) {
  if (g_mode == 1 && !g_rt && g_filter) clear_range((u64)d, n);
  void *r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}
int memcmp(const void *a, const void *b, size_t n) {
  if (g_mode == 1 && !g_rt) {
    conc_range((u64)a, n, "native-memcmp");
    conc_range((u64)b, n, "native-memcmp");
  }
  const volatile u8 *x = (const u8 *)a, *y = (const u8 *)b;
  for (size_t i = 0; i < n; ++i)
    if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
}

// ------------------------------------------------------------------ registry
struct Reg { void *fn; const char *name; u8 *hit; };
static Reg *__start_symreg, *__stop_symreg;
static void **g_regset; static u32 g_regcap;
static Reg **g_sorted; static u32 g_nreg;
static inline bool registered(void *f) {
  u32 i = ((u64)f * 0x9E3779B97F4A7C15ull >> 32) & (g_regcap - 1);
  for (; g_regset[i]; i = (i + 1) & (g_regcap - 1))
    if (g_regset[i] == f) return true;
  return false;
}
static void reg_add(void *f) {
  if (!f || registered(f)) return;
  u32 i = ((u64)f * 0x9E3779B97F4A7C15ull >> 32) & (g_regcap - 1);
  while (g_regset[i]) i = (i + 1) & (g_regcap - 1);
  g_regset[i] = f;
}
static void reg_init() {
  g_nreg = __stop_symreg - __start_symreg;
  g_regcap = 1024;
  while (g_regcap < 3 * (g_nreg + 64)) g_regcap *= 2;
  g_regset = (void **)mmap(nullptr, g_regcap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (Reg *r = __start_symreg; r < __stop_symreg; ++r) reg_add(r->fn);
  for (void *f : {(void *)symrt_make, (void *)symrt_bool, (void *)symrt_assume, (void *)symrt_check,
                  (void *)symrt_cover, (void *)symrt_conc, (void *)symrt_end, (void *)symrt_live,
                  (void *)symrt_note, (void *)symrt_symbolic})
    reg_add(f);
  g_sorted = (Reg **)__libc_malloc(sizeof(Reg *) * (g_nreg + 1));
  u32 n = 0;
  for (Reg *r = __start_symreg; r < __stop_symreg; ++r) if (r->fn) g_sorted[n++] = r;
  g_nreg = n;
  std::sort(g_sorted, g_sorted + n, [](Reg *a, Reg *b) { return a->fn < b->fn; });
}
static void shadow_mismatch(Expr *e, u64 v, unsigned w, u64 pc) {
  if (g_mode != 1) return;
  INC(mismatches, 1);
  if (getenv("SYM_DEBUG"))
    fprintf(stderr, "SHADOW MISMATCH expr kind %d width %u cval %" PRIx64 " real %" PRIx64 "/%u in %s\n", e->kind,
            e->width, e->cval, v & maskw(w), w, fname(pc)), fprintf(stderr, "  pc %" PRIx64 "\n", pc);
}
static const char *fname(u64 pc) {
  auto *e = std::upper_bound(g_sorted, g_sorted + g_nreg, (void *)pc, [](void *p, Reg *r) { return p < r->fn; });
  return e == g_sorted ? "?" : e[-1]->name;
}
static u8 *g_prehit;
static void scan_hits() {
  u32 i = 0;
  for (Reg *r = __start_symreg; r < __stop_symreg && i < sizeof(S->hits); ++r, ++i)
    if (*r->hit && !S->hits[i]) S->hits[i] = 1;
}

// ------------------------------------------------------------ pass interface
extern "C" {
void *__sym_args[64];
void *__sym_ret[16];
void *__sym_ret_tag;
static void *g_pending; static u32 g_npending;
static void *g_zero[64];
static void *g_argbuf[64];
static void *g_retbuf[16];
struct Byval { void *callee; u32 arg; u64 size; Ent *ents; };
static Byval g_byval[8]; static u32 g_nbyval;

void **__sym_enter(void *fn) {
  if (g_pending == nullptr) return g_zero;
  void *p = g_pending;
  g_pending = nullptr;
  if (p != fn) return g_zero;
  for (u32 i = 0; i < 64; ++i) g_argbuf[i] = i < g_npending ? __sym_args[i] : nullptr;
  return g_argbuf;
}
void __sym_call(void *callee, u32 n) {
  bool any = false;
  for (u32 i = 0; i < n; ++i) if (__sym_args[i]) any = true;
  if (!any) { g_pending = nullptr; return; }
  if (registered(callee)) { g_pending = callee; g_npending = n; return; }
  g_pending = nullptr;
  for (u32 i = 0; i < n; ++i)
    if (Expr *e = (Expr *)__sym_args[i]) concretize(e, e->cval, "ext-arg");
}
void __sym_ext(void *callee, const char *why, u32 n, ...) {
  if (!g_filter || registered(callee)) return;
  va_list ap;
  va_start(ap, n);
  for (u32 i = 0; i < n; ++i) {
    u64 p = va_arg(ap, u64), sz = va_arg(ap, u64);
    if (!p) continue;
    u64 w = sz ? sz : 64;
    if (inheap((void *)p) && !sz) {
      // up to the end of the block (bounded)
      u64 g = (p - (u64)HBASE) >> 4, c = 0;
      while (c < 256 && g_valid[g + c]) ++c;
      w = c << 4;
    }
    if (w > 4096) w = 4096;
    conc_range(p, w, why);
  }
  va_end(ap);
}
void **__sym_ret_get(void *callee) {
  if (__sym_ret_tag == callee && callee) {
    __sym_ret_tag = nullptr;
    for (int i = 0; i < 16; ++i) { g_retbuf[i] = __sym_ret[i]; __sym_ret[i] = nullptr; }
    return g_retbuf;
  }
  if (__sym_ret_tag) {
    if (g_mode == 1) INC(lost_ret, 1);
    __sym_ret_tag = nullptr;
  }
  return g_zero;
}
void __sym_ret_set(void *fn, u32 n) {
  for (u32 i = 0; i < n; ++i)
    if (__sym_ret[i]) {
      __sym_ret_tag = fn;
      for (u32 j = n; j < 16; ++j) __sym_ret[j] = nullptr;
      return;
    }
  __sym_ret_tag = nullptr;
}
// LLVM opcodes (14): Add 13 Sub 15 Mul 17 UDiv 19 SDiv 20 URem 22 SRem 23
// Shl 25 LShr 26 AShr 27 And 28 Or 29 Xor 30; Trunc 38 ZExt 39 SExt 40
void *__sym_bin(u32 op, void *a, u64 av, void *b, u64 bv, u32 w) {
  if (!a && !b) return nullptr;
  Expr *x = ex(a, av, w), *y = ex(b, bv, w);
  if (w == 1) {
    switch (op) {
    case 13: case 15: case 30: return out(mk(K_XOR, 1, x, y));
    case 17: case 28: return out(mk(K_AND, 1, x, y));
    case 29: return out(mk(K_OR, 1, x, y));
    default:
      concretize(x, x->cval, "bool-op"); concretize(y, y->cval, "bool-op");
      return nullptr;
    }
  }
  u8 k;
  switch (op) {
  case 13: k = K_ADD; break;
  case 15: k = K_SUB; break;
  case 17: k = K_MUL; break;
  case 19: k = K_UDIV; break;
  case 20: k = K_SDIV; break;
  case 22: k = K_UREM; break;
  case 23: k = K_SREM; break;
  case 25: k = K_SHL; break;
  case 26: k = K_LSHR; break;
  case 27: k = K_ASHR; break;
  case 28: k = K_AND; break;
  case 29: k = K_OR; break;
  case 30: k = K_XOR; break;
  default: concretize(x, x->cval, "bin?"); concretize(y, y->cval, "bin?"); return nullptr;
  }
  return out(mk(k, w, x, y));
}
static Expr *icmp(u32 pred, Expr *x, Expr *y) {
  if (x->width == 1) {
    // order on bools: false < true unsigned; signed: true(-1) < false
    switch (pred) {
    case 32: return mnot(mk(K_XOR, 1, x, y));
    case 33: return mk(K_XOR, 1, x, y);
    case 34: case 40: break;
    }
    Expr *X = x, *Y = y;
    bool sgn = pred >= 38;
    u32 p = sgn ? pred - 4 : pred; // ugt34 uge35 ult36 ule37
    if (sgn) std::swap(X, Y);
    switch (p) {
    case 34: return mk(K_AND, 1, X, mnot(Y));
    case 35: return mk(K_OR, 1, X, mnot(Y));
    case 36: return mk(K_AND, 1, mnot(X), Y);
    default: return mk(K_OR, 1, mnot(X), Y);
    }
  }
  switch (pred) {
  case 32: return mk(K_EQ, 1, x, y);
  case 33: return mnot(mk(K_EQ, 1, x, y));
  case 34: return mk(K_ULT, 1, y, x);
  case 35: return mk(K_ULE, 1, y, x);
  case 36: return mk(K_ULT, 1, x, y);
  case 37: return mk(K_ULE, 1, x, y);
  case 38: return mk(K_SLT, 1, y, x);
  case 39: return mk(K_SLE, 1, y, x);
  case 40: return mk(K_SLT, 1, x, y);
  default: return mk(K_SLE, 1, x, y);
  }
}
void *__sym_icmp(u32 pred, void *a, u64 av, void *b, u64 bv, u32 w) {
  if (!a && !b) return nullptr;
  return out(icmp(pred, ex(a, av, w), ex(b, bv, w)));
}
void *__sym_cast(u32 op, void *e, u64 v, u32 wf, u32 wt) {
  if (!e) return nullptr;
  Expr *x = ex(e, v, wf);
  if (op == 38) return out(extract(x, 0, wt));
  if (op == 39) return out(zext(x, wt));
  return out(x->width == wt ? x : mk(K_SEXT, wt, x));
}
void *__sym_select(void *c, u32 cv, void *a, u64 av, void *b, u64 bv, u32 w) {
  if (!c) return (cv & 1) ? a : b;
  // Only the chosen arm is self-checked: later passes may feed the other arm
  // any value that agrees where it matters.
  Expr *C = ex(c, cv & 1, 1);
  Expr *A = !a ? cst(av, w) : (cv & 1) ? ex(a, av, w) : (Expr *)a;
  Expr *B = !b ? cst(bv, w) : (cv & 1) ? (Expr *)b : ex(b, bv, w);
  return out(mk(K_ITE, w, C, A, B));
}
void *__sym_load(u64 a, void *ae, u32 n, u32 w) {
  if (++g_steps > g_maxsteps && g_mode == 1) fatal("hang", "step limit exceeded");
  if (ae) concretize((Expr *)ae, a, "load-addr");
  memcheck(a, n, false, (u64)__builtin_return_address(0));
  u64 p = a >> 12;
  if (!g_filter || (!g_filter[fh(p)] && !g_filter[fh((a + n - 1) >> 12)])) return nullptr;
  Ent v0 = vent(a);
  // fast path: one whole expression
  if (v0 && eof_(v0) == 0) {
    Expr *e = eex(v0);
    if ((e->width + 7) / 8 == n) {
      bool ok = true;
      for (u32 i = 1; i < n; ++i)
        if (vent(a + i) != (v0 | ((u64)i << 56))) { ok = false; break; }
      if (ok) {
        if (e->width == w) return e;
        if (e->width > w) return out(extract(e, 0, w));
        return out(zext(e, w));
      }
    }
  }
  Expr *r = nullptr;
  bool any = false;
  for (u32 i = 0; i < n && i < 8; ++i) {
    Ent v = i ? vent(a + i) : v0;
    Expr *b = v ? byteof(v) : cst(*(u8 *)(a + i), 8);
    if (v) any = true;
    r = i ? mk(K_CONCAT, 8 * (i + 1), b, r) : b;
  }
  if (!any) return nullptr;
  if (r->width > w) r = extract(r, 0, w);
  return out(r);
}
void __sym_store(u64 a, void *ae, void *ve, u32 n, u32 w) {
  if (ae) concretize((Expr *)ae, a, "store-addr");
  memcheck(a, n, true, (u64)__builtin_return_address(0));
  if (!g_filter) return;
  if (!ve) {
    u64 p = a >> 12, q = (a + n - 1) >> 12;
    if (!g_filter[fh(p)] && !g_filter[fh(q)]) return;
    for (u32 i = 0; i < n; ++i) setent(a + i, 0);
    return;
  }
  Expr *e = (Expr *)ve;
  if (e->width < 8 * n && n <= 8) e = zext(e, 8 * n);
  for (u32 i = 0; i < n; ++i) setent(a + i, (u64)e | ((u64)i << 56));
}
void *__sym_gep(void *be, u64 bv, void *ie, u64 iv, u64 scale) {
  if (!be && !ie) return nullptr;
  Expr *i = ex(ie, iv, 64);
  Expr *o = mk(K_MUL, 64, i, cst(scale, 64));
  return out(mk(K_ADD, 64, ex(be, bv, 64), o));
}
void __sym_branch(void *c, u32 cv) {
  if (!c) return;
  decide(ex(c, cv & 1, 1), cv & 1, (u64)__builtin_return_address(0));
}
void __sym_switch(void *c, u64 cv, u32 w, const u64 *t, u32 ng) {
  if (!c) return;
  Expr *e = (Expr *)c;
  cv &= maskw(w);
  for (u32 g = 0; g < ng; ++g) {
    u64 n = *t++;
    Expr *d = cst(0, 1);
    bool hit = false;
    for (u64 i = 0; i < n; ++i) {
      u64 v = *t++ & maskw(w);
      d = mk(K_OR, 1, d, mk(K_EQ, 1, e, cst(v, w)));
      hit |= v == cv;
    }
    decide(d, hit, (u64)__builtin_return_address(0) + g);
    if (hit) return;
  }
}
void __sym_conc(void *e, u64 v, const char *why) {
  if (e) concretize((Expr *)e, v, why);
}
void __sym_conc_mem(u64 a, void *ae, u64 n, const char *why) {
  if (ae) concretize((Expr *)ae, a, "addr");
  memcheck(a, n, false, (u64)__builtin_return_address(0));
  if (g_filter) conc_range(a, n, why);
}
void __sym_clear(u64 a, u64 n) {
  if (g_filter) clear_range(a, n);
}
void __sym_memcpy(u64 d, void *de, u64 s, void *se, u64 n, void *ne) {
  if (de) concretize((Expr *)de, d, "memcpy-dst");
  if (se) concretize((Expr *)se, s, "memcpy-src");
  if (ne) concretize((Expr *)ne, n, "memcpy-len");
  if (n && n < (1ull << 32)) {
    memcheck(s, n, false, (u64)__builtin_return_address(0));
    memcheck(d, n, true, (u64)__builtin_return_address(0));
  }
  copy_range(d, s, n);
  bool overlap = d != s && d - s + n < 2 * n;
  g_moved[0] = d, g_moved[1] = s, g_moved[2] = overlap ? n : 0;
}
void __sym_memset(u64 d, void *de, u8 v, void *ve, u64 n, void *ne) {
  if (de) concretize((Expr *)de, d, "memset-dst");
  if (ne) concretize((Expr *)ne, n, "memset-len");
  if (n && n < (1ull << 32)) memcheck(d, n, true, (u64)__builtin_return_address(0));
  if (!g_filter) return;
  if (!ve) { clear_range(d, n); return; }
  // the native memset that follows clears the shadow through the wrapper; keep
  // the symbolic value by fixing it instead
  concretize((Expr *)ve, v, "memset-val");
  clear_range(d, n);
}
void *__sym_intr(u32 k, void *x, u64 xv, void *y, u64 yv, u32 w) {
  if (!x && !y) return nullptr;
  Expr *a = ex(x, xv, w), *b = ex(y, yv, w);
  switch (k) {
  case 0: return out(mk(K_ITE, w, mk(K_ULT, 1, a, b), a, b));
  case 1: return out(mk(K_ITE, w, mk(K_ULT, 1, b, a), a, b));
  case 2: return out(mk(K_ITE, w, mk(K_SLT, 1, a, b), a, b));
  case 3: return out(mk(K_ITE, w, mk(K_SLT, 1, b, a), a, b));
  case 4: return out(mk(K_ITE, w, mk(K_SLT, 1, a, cst(0, w)), mk(K_SUB, w, cst(0, w), a), a));
  case 5: {
    Expr *r = cst(0, w);
    for (u32 i = 0; i < w; ++i) r = mk(K_ADD, w, r, zext(extract(a, i, 1), w));
    return out(r);
  }
  case 6: { // ctlz
    Expr *r = cst(w, w);
    for (u32 i = 0; i < w; ++i) r = mk(K_ITE, w, extract(a, i, 1), cst(w - 1 - i, w), r);
    return out(r);
  }
  case 7: { // cttz
    Expr *r = cst(w, w);
    for (u32 i = w; i-- > 0;) r = mk(K_ITE, w, extract(a, i, 1), cst(i, w), r);
    return out(r);
  }
  case 8: {
    Expr *r = nullptr;
    for (u32 i = 0; i < w / 8; ++i) {
      Expr *bt = extract(a, 8 * i, 8);
      r = r ? mk(K_CONCAT, r->width + 8, r, bt) : bt;
    }
    return out(r);
  }
  case 9: return out(mk(K_ITE, w, mk(K_ULT, 1, a, b), cst(0, w), mk(K_SUB, w, a, b)));
  }
  return nullptr;
}
void *__sym_ovf(u32 k, void *x, u64 xv, void *y, u64 yv, u32 w) {
  if (!x && !y) return nullptr;
  Expr *a = ex(x, xv, w), *b = ex(y, yv, w), *z = cst(0, w);
  auto lt0 = [&](Expr *e) { return mk(K_SLT, 1, e, z); };
  switch (k) {
  case 0: { // sadd
    Expr *s = mk(K_ADD, w, a, b);
    Expr *same = mnot(mk(K_XOR, 1, lt0(a), lt0(b)));
    return out(mk(K_AND, 1, same, mk(K_XOR, 1, lt0(a), lt0(s))));
  }
  case 1: return out(mk(K_ULT, 1, mk(K_ADD, w, a, b), a));
  case 2: {
    Expr *s = mk(K_SUB, w, a, b);
    return out(mk(K_AND, 1, mk(K_XOR, 1, lt0(a), lt0(b)), mk(K_XOR, 1, lt0(a), lt0(s))));
  }
  case 3: return out(mk(K_ULT, 1, a, b));
  default:
    if (w <= 32) {
      u32 W = 2 * w;
      bool sg = k == 4;
      auto X = [&](Expr *e) { return sg ? (e->width == W ? e : mk(K_SEXT, W, e)) : zext(e, W); };
      Expr *p = mk(K_MUL, W, X(a), X(b));
      Expr *t = extract(p, 0, w);
      return out(mnot(mk(K_EQ, 1, X(t), p)));
    }
    {
      // 64-bit: no overflow iff a==0 or (a*b)/a == b (and not MIN * -1)
      Expr *p = mk(K_MUL, w, a, b);
      Expr *az = mk(K_EQ, 1, a, z);
      if (k == 5) return out(mk(K_AND, 1, mnot(az), mnot(mk(K_EQ, 1, mk(K_UDIV, w, p, a), b))));
      Expr *m1 = mk(K_AND, 1, mk(K_EQ, 1, a, cst(~0ull, w)), mk(K_EQ, 1, b, cst(1ull << (w - 1), w)));
      return out(mk(K_AND, 1, mnot(az), mk(K_OR, 1, m1, mnot(mk(K_EQ, 1, mk(K_SDIV, w, p, a), b)))));
    }
  }
}
void __sym_byval_set(void *callee, u32 arg, u64 p, u64 n) {
  if (!maybe(p, n) || g_nbyval >= 8) return;
  RT g;
  Byval &b = g_byval[g_nbyval++];
  b.callee = callee; b.arg = arg; b.size = n;
  b.ents = (Ent *)xalloc(n * 8);
  for (u64 i = 0; i < n; ++i) b.ents[i] = vent(p + i);
}
void __sym_byval_get(void *fn, u32 arg, u64 p, u64 n) {
  clear_range(p, n);
  for (u32 i = 0; i < g_nbyval; ++i)
    if (g_byval[i].callee == fn && g_byval[i].arg == arg) {
      for (u64 j = 0; j < n && j < g_byval[i].size; ++j) setent(p + j, g_byval[i].ents[j]);
      g_byval[i] = g_byval[--g_nbyval];
      return;
    }
}
} // extern C

// -------------------------------------------------------------- harness API
static void snapshot();
static Expr *arg(void *fn, int i) {
  Expr *r = nullptr;
  if (g_pending == fn) r = (Expr *)__sym_args[i];
  g_pending = nullptr;
  __sym_ret_tag = nullptr;
  return r;
}
static Expr *newvar(const char *name, u32 off, unsigned w) {
  if (g_nvars >= MAXVARS) { fprintf(stderr, "too many vars\n"); _exit(93); }
  u32 i = g_nvars++;
  Var &v = g_vars[i];
  v.name = name; v.off = off;
  v.val = i < g_nin ? g_in[i] & maskw(w) : 0;
  v.e = raw(K_VAR, w, 0, 0, 0, i);
  v.e->cval = v.val;
  return v.e;
}
extern "C" {
void symrt_make(void *p, u64 n, const char *name) {
  arg((void *)symrt_make, 0);
  if (g_mode == 0) snapshot();
  u64 a = (u64)p;
  clear_range(a, n);
  u64 i = 0;
  while (i < n) {
    unsigned k = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1;
    if (n != 1 && n != 2 && n != 4 && n % 8) k = 1;
    Expr *e = newvar(name, i, 8 * k);
    rep_movsb((void *)(a + i), &e->cval, k);
    __sym_store(a + i, nullptr, e, k, 8 * k);
    i += k;
  }
}
void symrt_bool(void *p, const char *name) {
  arg((void *)symrt_bool, 0);
  if (g_mode == 0) snapshot();
  Expr *e = newvar(name, 0, 1);
  *(u8 *)p = (u8)e->cval;
  __sym_store((u64)p, nullptr, e, 1, 1);
}
void symrt_assume(bool c) {
  Expr *e = arg((void *)symrt_assume, 0);
  if (g_mode == 0) { if (!c) { fprintf(stderr, "assume(false) before any input\n"); _exit(92); } return; }
  if (!e) { if (!c) { INC(assume_pruned, 1); finish_path(false); } return; }
  e = extract(e, 0, 1);
  if (isc(e)) { if (!e->k) { INC(assume_pruned, 1); finish_path(false); } return; }
  if (known(e) || det(e)) { if (!c) { INC(assume_pruned, 1); finish_path(false); } return; }
  if ((e->cval & 1) != (u64)c) { fprintf(stderr, "MISMATCH: assume\n"); divergence("assume-value"); }
  u64 before = g_hash;
  trace("assume", e, c, 0);
  bool pre = in_prefix(0xA55, 1); // the recorded outcome is always "true"
  if (!c) {
    if (pre) divergence("assume");
    std::vector<u64> m;
    int r = query(&e, 1, &m);
    if (r == 1) { RT g; emit(m, g_ndec, mix(before, 0xA55, 1)); }
    INC(assume_pruned, 1);
    finish_path(false);
  }
  assert_lit(e);
}
void symrt_check(bool c, const char *id) {
  Expr *e = arg((void *)symrt_check, 0);
  { RT g; bump(S->checks, S->nchecks, id); }
  if (g_mode == 0) snapshot();
  if (e) e = extract(e, 0, 1);
  if (!e || isc(e)) {
    INC(checks_conc, 1);
    if (!c) { RT g; send_violation(id, "check", "property violated on every input of this path", cur_inputs()); finish_path(false); }
    return;
  }
  INC(checks_sym, 1);
  if ((e->cval & 1) != (u64)c) { fprintf(stderr, "MISMATCH: check\n"); divergence("check-value"); }
  trace(id, e, c, 0);
  if (c && (known(e) == 1 || det(e))) return;
  if (g_ndec < g_bound) { // decided by the path this one was split from
    if (!c) { RT g; send_violation(id, "check", "property violated", cur_inputs()); finish_path(false); }
    assert_lit(e);
    return;
  }
  if (!c) { RT g; send_violation(id, "check", "property violated", cur_inputs()); finish_path(false); }
  std::vector<u64> m;
  Expr *ne = mnot(e);
  int r = query(&ne, 1, &m);
  if (r == 1) { RT g; send_violation(id, "check", "solver model violates the property", m); }
  if (r == 0) { notefixed(e, true); setknown(e, true); return; }
  assert_lit(e);
}
void symrt_cover(const char *label) {
  g_pending = nullptr; __sym_ret_tag = nullptr;
  RT g; bump(S->cover, S->ncover, label);
}
u64 symrt_conc(u64 v) {
  Expr *e = arg((void *)symrt_conc, 0);
  if (e) concretize(e, v, "harness-pick");
  return v;
}
void symrt_end(void) {
  g_pending = nullptr;
  if (g_mode == 0) snapshot();
  finish_path(false);
}
u64 symrt_live(void) { g_pending = nullptr; __sym_ret_tag = nullptr; return g_live; }
void symrt_note(const char *k, u64 v) {
  Expr *e = arg((void *)symrt_note, 1);
  (void)e;
  if (g_nnotes < 64) g_notes[g_nnotes++] = {k, v};
}
int symrt_symbolic(void) { g_pending = nullptr; __sym_ret_tag = nullptr; return 1; }
}

// ------------------------------------------------------------------- master
struct In { std::string name; u64 off, width, val; };
struct Viol { std::string id, kind, msg; std::vector<In> in; std::vector<std::pair<std::string, u64>> notes; u64 count; };
struct Slot { pid_t pid = 0; int fd = -1, efd = -1; std::string buf; Item item; u64 t0; bool done; };
static u64 rd(const std::string &s, size_t &p) { u64 v; memcpy(&v, s.data() + p, 8); p += 8; return v; }
static std::string rds(const std::string &s, size_t &p) { u64 n = rd(s, p); std::string r = s.substr(p, n); p += n; return r; }
static void rd_in(const std::string &s, size_t &p, std::vector<In> &in, std::vector<std::pair<std::string, u64>> &nt) {
  u64 n = rd(s, p);
  for (u64 i = 0; i < n; ++i) { In x; x.name = rds(s, p); x.off = rd(s, p); x.width = rd(s, p); x.val = rd(s, p); in.push_back(x); }
  n = rd(s, p);
  for (u64 i = 0; i < n; ++i) { auto k = rds(s, p); u64 v = rd(s, p); nt.emplace_back(k, v); }
}
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string jin(const std::vector<In> &in) {
  std::string r = "[";
  for (auto &x : in) {
    char b[96]; snprintf(b, sizeof b, ",%" PRIu64 ",%" PRIu64 ",%" PRIu64 "]", x.off, x.width, x.val);
    if (r.size() > 1) r += ",";
    r += "[" + js(x.name) + b;
  }
  return r + "]";
}
static void snapshot() {
  ++g_rt;
  signal(SIGPIPE, SIG_IGN);
  // solver, created once; children inherit it
  {
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context(cfg);
    Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) {
      fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(91); });
    ZS = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FD"));
    Z3_solver_inc_ref(Z, ZS);
    Z3_params ps = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, ps);
    Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "rlimit"), O.z3_rlimit);
    Z3_solver_set_params(Z, ZS, ps);
    // warm up
    Z3_solver_push(Z, ZS);
    Z3_ast x = Z3_mk_const(Z, Z3_mk_string_symbol(Z, "warm"), Z3_mk_bv_sort(Z, 8));
    Z3_solver_assert(Z, ZS, Z3_mk_bvult(Z, x, Z3_mk_unsigned_int64(Z, 5, Z3_mk_bv_sort(Z, 8))));
    Z3_solver_check(Z, ZS);
    Z3_solver_pop(Z, ZS, 1);
  }
  g_tab = (Expr **)mmap(nullptr, HB * 8ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_pages = (Page *)mmap(nullptr, NP * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_vars = (Var *)mmap(nullptr, MAXVARS * sizeof(Var), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_pend = (Expr **)mmap(nullptr, 65536 * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  u8 *filt = (u8 *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);

  auto &work = *new std::deque<Item>;
  work.push_back({{}, 0, 0});
  auto &viols = *new std::vector<Viol>;
  auto &samples = *new std::vector<std::vector<In>>;
  auto &sl = *new std::vector<Slot>(O.jobs);
  u64 start = now_us(), launched = 0, hangs = 0;
  bool out_of_time = false, stopped = false;
  u32 running = 0;
  auto &errs = *new std::set<std::string>;
  auto addv = [&](Viol v) {
    for (auto &x : viols) if (x.id == v.id && x.msg == v.msg) { if (++x.count > 3) return; }
    v.count = 1;
    if (viols.size() < 200) viols.push_back(v);
  };
  auto readerr = [&](Slot &s) {
    char b[2048]; ssize_t n = pread(s.efd, b, sizeof b - 1, 0);
    return std::string(b, n > 0 ? n : 0);
  };
  while (running || (!work.empty() && !out_of_time && !stopped)) {
    if (now_us() - start > O.time * 1e6) out_of_time = true;
    if (O.max_paths && launched >= O.max_paths) out_of_time = !work.empty();
    if ((int)viols.size() >= O.maxviol) stopped = true;
    for (auto &s : sl) {
      if (s.pid || work.empty() || out_of_time || stopped) continue;
      // depth-first keeps the work list small
      s.item = std::move(work.back()); work.pop_back();
      int pf[2]; if (pipe(pf)) _exit(90);
      if (s.efd < 0) s.efd = memfd_create("err", 0);
      if (ftruncate(s.efd, 0)) {}
      s.buf.clear(); s.done = false; s.t0 = now_us();
      ++launched;
      pid_t p = fork();
      if (p < 0) _exit(89);
      if (p == 0) {
        close(pf[0]);
        g_pipe = pf[1];
        lseek(s.efd, 0, SEEK_SET);
        dup2(s.efd, 2); 
        int dn = open("/dev/null", O_RDWR); dup2(dn, 1);
        g_in = s.item.in.data(); g_nin = s.item.in.size();
        g_bound = s.item.bound; g_hash_expect = s.item.hash;
        g_filter = filt;
        g_mode = 1; g_noreuse = true; g_t0 = now_us();
        if (HB && false) {}
        --g_rt;
        return;
      }
      close(pf[1]);
      fcntl(pf[0], F_SETFL, O_NONBLOCK);
      s.pid = p; s.fd = pf[0]; ++running;
    }
    std::vector<pollfd> pfd; std::vector<Slot *> ps;
    for (auto &s : sl) if (s.pid) { pfd.push_back({s.fd, POLLIN, 0}); ps.push_back(&s); }
    if (pfd.empty()) continue;
    poll(pfd.data(), pfd.size(), 200);
    for (size_t i = 0; i < pfd.size(); ++i) {
      Slot &s = *ps[i];
      bool eof = false;
      if (pfd[i].revents) {
        char b[65536];
        for (;;) {
          ssize_t k = read(s.fd, b, sizeof b);
          if (k > 0) { s.buf.append(b, k); continue; }
          if (k == 0) eof = true;
          break;
        }
      }
      size_t p = 0;
      while (s.buf.size() - p >= 5) {
        u32 n; memcpy(&n, s.buf.data() + p + 1, 4);
        if (s.buf.size() - p < 5 + (size_t)n) break;
        char ty = s.buf[p];
        std::string pl = s.buf.substr(p + 5, n);
        p += 5 + n;
        size_t q = 0;
        if (ty == 'I') {
          Item it; it.bound = rd(pl, q); it.hash = rd(pl, q); u64 c = rd(pl, q);
          it.in.resize(c); for (auto &v : it.in) v = rd(pl, q);
          work.push_back(std::move(it));
        } else if (ty == 'V') {
          Viol v; v.id = rds(pl, q); v.kind = rds(pl, q); v.msg = rds(pl, q);
          rd_in(pl, q, v.in, v.notes);
          addv(v);
        } else if (ty == 'S') {
          if (samples.size() < 12 || (launched % 97 == 0 && samples.size() < 24)) {
            std::vector<In> in; std::vector<std::pair<std::string, u64>> nt; rd_in(pl, q, in, nt); samples.push_back(in);
          }
        } else if (ty == 'E') s.done = true;
      }
      s.buf.erase(0, p);
      bool late = now_us() - s.t0 > O.path_time * 1e6;
      if (late && !eof) kill(s.pid, SIGKILL);
      if (eof || late) {
        int st = 0; waitpid(s.pid, &st, 0);
        close(s.fd); s.pid = 0; --running;
        if (O.verbose) { auto e = readerr(s); if (!e.empty()) fprintf(stderr, "%s", e.c_str()); }
        auto e = readerr(s);
        if (e.find("MISMATCH") != std::string::npos || e.find("DIVERGENCE") != std::string::npos) errs.insert(e.substr(0, 300));
        if (!s.done) {
          Viol v; v.kind = "crash";
          if (late) { v.id = "hang"; v.msg = "path exceeded its wall-clock limit"; ++hangs; }
          else if (WIFSIGNALED(st)) {
            v.id = std::string("crash:") + strsignal(WTERMSIG(st)); v.msg = e.substr(0, 600); ++S->crashes;
          } else { v.id = "exit"; v.msg = "child exited " + std::to_string(WEXITSTATUS(st)) + " " + e.substr(0, 600); ++S->crashes; }
          for (size_t j = 0; j < s.item.in.size(); ++j) v.in.push_back({"?", j, 64, s.item.in[j]});
          addv(v);
        }
      }
    }
  }
  bool complete = work.empty() && !out_of_time && !stopped && !S->unknown && !S->divergences && !S->mismatches &&
                  !S->conc_overflow && !S->truncated && !hangs;
  FILE *f = O.out ? fopen(O.out, "w") : stdout;
  fprintf(f, "{\"goal\":%s,\"complete\":%s,\"open_items\":%zu,\"wall_s\":%.3f,\"launched\":%" PRIu64 ",", js(g_goal).c_str(),
          complete ? "true" : "false", work.size(), (now_us() - start) / 1e6, launched);
#define P(x) fprintf(f, "\"" #x "\":%" PRIu64 ",", S->x);
  P(paths) P(decisions) P(queries) P(sat) P(unsat) P(unknown) P(solver_us) P(checks_sym) P(checks_conc)
  P(assume_pruned) P(crashes) P(divergences) P(mismatches) P(conc_points) P(conc_vals) P(conc_overflow) P(prefix_checks)
  P(truncated) P(lost_ret) P(maxdec) P(maxexpr) P(emitted) P(steps) P(maxsteps)
  auto tab = [&](const char *n, Why *t, u32 c) {
    fprintf(f, "\"%s\":{", n);
    for (u32 i = 0; i < c && i < 256; ++i) fprintf(f, "%s%s:%" PRIu64, i ? "," : "", js(t[i].name).c_str(), t[i].n);
    fprintf(f, "},");
  };
  tab("concretised", S->why, S->nwhy); tab("cover", S->cover, S->ncover); tab("checks", S->checks, S->nchecks);
  fprintf(f, "\"errors\":[");
  { bool first = true; for (auto &e : errs) { fprintf(f, "%s%s", first ? "" : ",", js(e).c_str()); first = false; } }
  fprintf(f, "],\"violations\":[");
  for (size_t i = 0; i < viols.size(); ++i) {
    auto &v = viols[i];
    fprintf(f, "%s{\"id\":%s,\"kind\":%s,\"msg\":%s,\"count\":%" PRIu64 ",\"in\":%s,\"notes\":{", i ? "," : "", js(v.id).c_str(),
            js(v.kind).c_str(), js(v.msg).c_str(), v.count, jin(v.in).c_str());
    for (size_t j = 0; j < v.notes.size(); ++j) fprintf(f, "%s%s:%" PRIu64, j ? "," : "", js(v.notes[j].first).c_str(), v.notes[j].second);
    fprintf(f, "}}");
  }
  fprintf(f, "],\"samples\":[");
  for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jin(samples[i]).c_str());
  fprintf(f, "],\"functions\":[");
  {
    bool first = true; u32 i = 0; std::set<std::string> seen;
    for (Reg *r = __start_symreg; r < __stop_symreg && i < sizeof(S->hits); ++r, ++i)
      if (S->hits[i] && seen.insert(r->name).second) { fprintf(f, "%s%s", first ? "" : ",", js(r->name).c_str()); first = false; }
  }
  fprintf(f, "],\"registered\":%u}\n", g_nreg);
  if (O.out) fclose(f); else fflush(f);
  _exit(viols.empty() ? (complete ? 0 : 3) : 1);
}

extern "C" int symrt_main(int argc, char **argv, void *rb, void *re, SymGoalReg *goals) {
  __start_symreg = (Reg *)rb; __stop_symreg = (Reg *)re;
  // children inherit the address space, so ASLR does not matter within a goal;
  // switched off where permitted so that runs are reproducible
  if (!getenv("SYM_NOASLR")) {
    setenv("SYM_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  rlimit rl{64 << 20, 64 << 20};
  setrlimit(RLIMIT_STACK, &rl);
  rlimit rc{0, 0};
  setrlimit(RLIMIT_CORE, &rc);
  const char *goal = nullptr;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return argv[++i]; };
    if (a == "--goal") goal = nx();
    else if (a == "--out") O.out = nx();
    else if (a == "--jobs") O.jobs = atoi(nx());
    else if (a == "--time") O.time = atof(nx());
    else if (a == "--path-time") O.path_time = atof(nx());
    else if (a == "--max-paths") O.max_paths = strtoull(nx(), 0, 10);
    else if (a == "--max-steps") g_maxsteps = strtoull(nx(), 0, 10);
    else if (a == "--z3-rlimit") O.z3_rlimit = strtoul(nx(), 0, 10);
    else if (a == "-v") O.verbose = 1;
    else if (a == "--list") {
      for (auto *g = goals; g; g = g->Next) puts(g->Name);
      return 0;
    }
  }
  ++g_rt;
  reg_init();
  --g_rt;
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (auto *g = goals; g; g = g->Next)
    if (goal && !strcmp(goal, g->Name)) {
      g_goal = g->Name;
      g->Fn();
      if (g_mode == 0) { fprintf(stderr, "goal made no symbolic input and no check\n"); return 88; }
      finish_path(true);
    }
  fprintf(stderr, "no such goal\n");
  return 87;
}
