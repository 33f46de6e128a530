// pooled_fixedsize_stack over the contract of boost::pool (harness/pool): arbitrary histories of copies.
#include "os.h"
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <cstring>
#include <new>
namespace ctx = boost::context;
bool pool_may_fail;
int pools_made, pools_dead;
std::size_t pool_size, pool_next, pool_max;
#ifndef NK
#define NK 3
#endif
struct Tr {
  static std::size_t default_size() noexcept { return 131072; }
  static std::size_t page_size() noexcept { return 4096; }
  static std::size_t minimum_size() noexcept { return 2048; }
  static bool is_unbounded() noexcept { return true; }
  static std::size_t maximum_size() noexcept { return ~std::size_t(0); }
};
typedef ctx::basic_pooled_fixedsize_stack<Tr> S;
static char *base(ctx::stack_context const &c) { return static_cast<char *>(c.sp) - c.size; }
// ---- one pool, arbitrary sizes
extern "C" void unit_c12_sizes() {
  std::size_t n = __vc_u64("stack size"), next = __vc_u64("next size"), max = __vc_u64("max size");
  __vc_assume(n > 0 && n < (std::size_t(1) << 46) && next > 0);
  {
    S s(n, next, max);
    VC("C12", pools_made == 1 && pool_size == n && pool_next == next && pool_max == max, "pool: it is configured with the given sizes");
    S t(s);
    VC("C12", pools_made == 1, "pool: copies share one pool");
    pool_may_fail = true;
    bool threw = false;
    ctx::stack_context a, b;
    try { a = s.allocate(); } catch (std::bad_alloc const &) { threw = true; }
    if (threw) {
      VC("C12", true, "pool: std::bad_alloc is thrown if the pool cannot grow");
    } else {
      pool_may_fail = false;
      b = t.allocate();
      VC("C12", a.size == n && b.size == n, "pool: a stack has the configured size");
      VC("C12", __vc_region_base(base(a)) == base(a) && __vc_region_size(base(a)) == n, "pool: [sp-size, sp) is exactly a chunk");
      VC("C12", base(a) != base(b), "pool: every allocation returns another chunk");
      base(a)[0] = 1; base(a)[n - 1] = 2; base(b)[n - 1] = 3;
      ctx::stack_context c(a);
      t.deallocate(c);  // any copy gives the chunk back
      VC("C12", !__vc_live(base(a)) && __vc_live(base(b)) && base(b)[n - 1] == 3, "pool: exactly the chunk is given back");
      s.deallocate(b);
      VC("C12", !__vc_live(base(b)), "pool: exactly the chunk is given back");
    }
    VC("C12", pools_dead == 0, "pool: it lives as long as a copy");
  }
  VC("C12", pools_made == 1 && pools_dead == 1, "pool: it is destroyed exactly once, with the last copy");
  __vc_leakcheck("C12");
}
extern "C" void unit_c12_default() {
  {
    S s;
    VC("C12", pools_made == 1 && pool_size == 131072 && pool_next == 32 && pool_max == 0, "pool: default sizes");
  }
  VC("C12", pools_dead == 1, "pool: it is destroyed exactly once, with the last copy");
  __vc_leakcheck("C12");
}
extern "C" void unit_c12_fail() {  // an allocation that fails throws std::bad_alloc
  S s(1000);
  pool_may_fail = true;
  bool threw = false;
  ctx::stack_context a;
  try { a = s.allocate(); } catch (std::bad_alloc const &) { threw = true; }
  VC("C12", threw == (a.sp == nullptr), "pool: allocate() throws std::bad_alloc or returns a chunk");
  if (!threw) s.deallocate(a);
}
// ---- any number of copies
alignas(S) static char one[sizeof(S)], image[sizeof(S)];
extern "C" void vc_loop_copy(S *s, std::size_t n) {
  for (std::size_t i = 0; i < n; ++i) {
    new (one) S(static_cast<S const &>(*s));
    VC("C12", pools_made == 1 && pools_dead == 0, "pool: it lives as long as a copy");
  }
}
extern "C" void vc_loop_drop(std::size_t n) {
  for (std::size_t i = 0; i < n; ++i) {
    std::memcpy(one, image, sizeof(S));  // the next one of the copies
    reinterpret_cast<S *>(one)->~S();
    VC("C12", pools_made == 1 && pools_dead == 0, "pool: it lives as long as a copy");
  }
}
extern "C" void unit_c12_many() {
  std::size_t n = __vc_u64("copies");
  __vc_assume(n < (std::size_t(1) << 40));
  {
    S s(1000);
    {
      S t(s);
      std::memcpy(one, &t, sizeof(S));
      std::memcpy(image, &t, sizeof(S));
      __vc_loops("C12");
      vc_loop_copy(&s, n);
      vc_loop_drop(n);
    }
    VC("C12", pools_dead == 0, "pool: it lives as long as a copy");
  }
  VC("C12", pools_made == 1 && pools_dead == 1, "pool: it is destroyed exactly once, with the last copy");
}
// ---- arbitrary histories: NK variables, each empty or holding an allocator; the model knows which pool each one uses
alignas(S) static char mem[NK][sizeof(S)];
static int uses[NK];      // by pool index: number of variables
static int pool_of[NK];   // -1: none
static S &at(int i) { return *reinterpret_cast<S *>(mem[i]); }
static ctx::stack_context chunk;  // an outstanding stack
static int chunk_pool = -1;
static int pick_used(const char *w) {
  int n = 0, k[NK];
  for (int i = 0; i < NK; ++i)
    if (pool_of[i] >= 0) k[n++] = i;
  if (!n) __vc_assume(false);
  return k[__vc_choice(n, w)];
}
static void destroy(int i) {
  at(i).~S();
  __vc_havoc(mem[i], sizeof(S));
}
static int live_pools() {
  int n = 0;
  for (int i = 0; i < NK; ++i) n += uses[i] > 0;
  return n;
}
static void leave(int p) {  // variable stops using pool p
  if (p >= 0) --uses[p];
}
extern "C" void unit_c12_histories() {
  for (int i = 0; i < NK; ++i) pool_of[i] = -1;
  for (;;) {
    pools_made = pools_dead = 0;  // counted per operation
    pool_size = pool_next = pool_max = 0;
    __vc_loophead();
    int before = live_pools();
    int op = __vc_choice(9, "operation");
    int made = 0;
    switch (op) {
      case 0: {  // new allocator (its own pool)
        int i = 0;
        while (i < NK && pool_of[i] >= 0) ++i;
        if (i == NK) __vc_end();
        int p = 0;
        while (uses[p]) ++p;
        new (mem[i]) S(1000, 2, 3);
        made = 1;
        pool_of[i] = p;
        uses[p] = 1;
        break;
      }
      case 1: case 2: {  // copy / move construction
        int j = pick_used("source");
        int i = 0;
        while (i < NK && pool_of[i] >= 0) ++i;
        if (i == NK) __vc_end();
        if (op == 1) {
          new (mem[i]) S(static_cast<S const &>(at(j)));
        } else {
          new (mem[i]) S(std::move(at(j)));
        }
        pool_of[i] = pool_of[j];
        ++uses[pool_of[i]];
        if (op == 2) { destroy(j); leave(pool_of[j]); pool_of[j] = -1; }  // a moved-from allocator is only destroyed
        break;
      }
      case 3: case 4: {  // copy / move assignment, also to itself
        int j = pick_used("source"), i = pick_used("target");
        if (op == 4 && i == j) __vc_end();
        int old = pool_of[i], nw = pool_of[j];
        if (chunk_pool == old && old != nw && uses[old] == 1) __vc_end();  // the client gives its stacks back first
        if (op == 3) at(i) = static_cast<S const &>(at(j));
        else at(i) = std::move(at(j));
        if (i != j) { leave(old); ++uses[nw]; pool_of[i] = nw; }
        if (op == 4) { destroy(j); leave(nw); pool_of[j] = -1; }
        break;
      }
      case 5: {  // destruction
        int i = pick_used("target");
        if (chunk_pool == pool_of[i] && uses[pool_of[i]] == 1) __vc_end();
        destroy(i);
        leave(pool_of[i]);
        pool_of[i] = -1;
        break;
      }
      case 6: {
        int i = pick_used("target");
        if (chunk_pool >= 0) __vc_end();
        pool_may_fail = true;
        try {
          chunk = at(i).allocate();
          chunk_pool = pool_of[i];
          VC("C12", chunk.size == 1000, "pool: a stack has the configured size");
        } catch (std::bad_alloc const &) {}
        pool_may_fail = false;
        break;
      }
      case 7: {
        int i = pick_used("target");
        if (chunk_pool != pool_of[i]) __vc_end();
        char *b = base(chunk);
        at(i).deallocate(chunk);
        VC("C12", !__vc_live(b), "pool: exactly the chunk is given back");
        chunk = ctx::stack_context();
        chunk_pool = -1;
        break;
      }
      case 8: {  // swap by three moves
        int j = pick_used("first"), i = pick_used("second");
        if (i == j) __vc_end();
        std::swap(at(i), at(j));
        std::swap(pool_of[i], pool_of[j]);
        break;
      }
    }
    VC("C12", pools_made == made, "pool: copies share one pool");
    VC("C12", pools_dead == before + made - live_pools(), "pool: it is destroyed exactly when the last copy is gone");
    if (live_pools() == 0) __vc_leakcheck("C12");
  }
}
