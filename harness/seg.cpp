// segmented_stack over the contract of the split-stack runtime.
#include "vc.h"
#if defined(CONT)
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/segmented_stack.hpp>
#include <cstring>
namespace ctx = boost::context;
static bool may_fail, failed;
static int n_make, n_release, n_block;
static std::size_t asked, got;
static char *last;
static void *stk[4];  // what the runtime made
extern "C" {
void *__wrap___splitstack_makecontext(std::size_t n, void *c[10], std::size_t *size) {
  asked = n;
  if (may_fail && __vc_choice(2, "makecontext fails")) { failed = true; return nullptr; }
  got = __vc_u64("size made");  // the runtime decides the real size
  __vc_assume(got >= n && got >= 4096 && got < (std::size_t(1) << 46));
  char *p = static_cast<char *>(__vc_region(got, 16, "splitstack"));
  __vc_segments(c, p);
  stk[n_make++] = p;
  *size = got;
  return last = p;
}
static int which(void *c[10]) {
  for (int k = 0; k < n_make; ++k)
    if (c[0] == stk[k]) return k;
  VC("C13", false, "segments: the descriptor of a stack made by the runtime is passed");
  return 0;
}
void __wrap___splitstack_releasecontext(void *c[10]) {
  ++n_release;
  __vc_free(stk[which(c)], "splitstack", "C13");
}
void __wrap___splitstack_block_signals_context(void *c[10], int *nw, int *old) {
  ++n_block;
  VC("C13", which(c) == n_make - 1, "segments: signal blocking is configured for the new stack");
  VC("C13", nw && *nw == 0, "segments: signal blocking is disabled");
  if (old) *old = 1;
}
void __wrap___splitstack_resetcontext(void *[10]) {}
}
template <class S>
static void one(S &s, std::size_t n, S *d) {
  may_fail = true;
  bool threw = false;
  try {
    ctx::stack_context c = s.allocate();
    VC("C13", asked == n && n_make == 1, "segments: a stack of the requested size is made");
    VC("C13", c.size == got && static_cast<char *>(c.sp) == last + got, "segments: the descriptor is exactly the stack the runtime made");
    VC("C13", n_block == 1, "segments: signal blocking is disabled once");
    ctx::stack_context c2(c);
    d->deallocate(c2);
    VC("C13", n_release == 1 && !__vc_live(last), "segments: exactly that stack is released");
  } catch (std::bad_alloc const &) { threw = true; }
  VC("C13", threw == failed, "segments: std::bad_alloc is thrown exactly if no stack can be made");
  VC("C13", n_make == n_release, "segments: released once");
  __vc_leakcheck("C13");
}
extern "C" void unit_c13_any_size() {
  std::size_t n = __vc_u64("size");
  ctx::segmented_stack s(n);
  one(s, n, &s);
}
extern "C" void unit_c13_copy() {
  std::size_t n = __vc_u64("size");
  ctx::segmented_stack s(n);
  ctx::segmented_stack t(s);
  one(s, n, &t);
}
extern "C" void unit_c13_default() {
  ctx::segmented_stack s;
  one(s, 131072, &s);
}
extern "C" void unit_c13_two() {
  std::size_t n = __vc_u64("size");
  ctx::segmented_stack s(n), t(2 * 4096);
  ctx::stack_context a = s.allocate();
  char *la = last;
  ctx::stack_context b = t.allocate();
  char *lb = last;
  if (__vc_choice(2, "order")) {
    s.deallocate(a);
    VC("C13", !__vc_live(la) && __vc_live(lb), "segments: exactly that stack is released");
    t.deallocate(b);
  } else {
    t.deallocate(b);
    VC("C13", __vc_live(la) && !__vc_live(lb), "segments: exactly that stack is released");
    s.deallocate(a);
  }
  VC("C13", n_release == 2, "segments: released once");
  __vc_leakcheck("C13");
}
// contexts on the real allocator
#if defined(CONT)
typedef ctx::continuation H;
#define MAKE(s, f) ctx::callcc(std::allocator_arg, s, f)
#else
typedef ctx::fiber H;
#define MAKE(s, f) H(std::allocator_arg, s, f)
#endif
static int ran;
struct Fn {
  H operator()(H &&h) const {
    int local;
    VC("C13", __vc_runs_on(&local, stk[0]) || __vc_runs_on(&local, stk[1]), "segments: the function runs on the segmented stack");
    ++ran;
    h = std::move(h).resume();
    ++ran;
    return std::move(h);
  }
};
struct OT {
  H operator()(H &&h) const { ++ran; return std::move(h); }
};
struct Nest {
  H operator()(H &&h) const {
    H i = MAKE(ctx::segmented_stack(8192), Fn());
    i = std::move(i).resume();
    if (i) i = std::move(i).resume_with(OT());
    h = std::move(h).resume();
    if (i) i = std::move(i).resume();
    return std::move(h);
  }
};
static void finish(int n) {
  VC("C13", n_make == n && n_release == n, "segments: every stack is released once");
  __vc_run_tls_dtors();
  __vc_leakcheck("C13");
}
extern "C" void unit_c13_context() {
  {
    H h = MAKE(ctx::segmented_stack(8192), Fn());
    while (h) h = std::move(h).resume();
  }
  VC("C13", ran == 2, "segments: the function runs");
  finish(1);
}
extern "C" void unit_c13_default_stack() {
  {
#if defined(CONT)
    H h = ctx::callcc(Fn());
#else
    H h((Fn()));
#endif
    VC("C13", asked == 131072, "segments: default construction uses segmented stacks of the traits' default size");
    while (h) h = std::move(h).resume();
  }
  finish(1);
}
extern "C" void unit_c13_dropped() {
  { H h = MAKE(ctx::segmented_stack(8192), Fn()); h = std::move(h).resume(); }
  finish(1);
}
extern "C" void unit_c13_fresh_dropped() {
  { H h = MAKE(ctx::segmented_stack(8192), Fn()); }
  finish(1);
}
extern "C" void unit_c13_nested() {
  {
    H h = MAKE(ctx::segmented_stack(16384), Nest());
    if (h) h = std::move(h).resume_with(OT());
    if (h && __vc_choice(2, "drop")) h = H();
    while (h) h = std::move(h).resume();
  }
  finish(2);
}
