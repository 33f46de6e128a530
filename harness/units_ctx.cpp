// Contract units of the context classes: each unit calls the library with arbitrary (symbolic) arguments that
// satisfy the documented preconditions; the obligations are the postconditions.
#include "vc.h"
#include <cstdlib>
#include <exception>
#include <stdexcept>
#include <type_traits>
#if defined(CONT)
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/preallocated.hpp>
#include <boost/context/stack_context.hpp>
namespace ctx = boost::context;
#if defined(CONT)
typedef ctx::continuation H;
#else
typedef ctx::fiber H;
#endif
typedef unsigned long u64;
static u64 addr(const void *p) { return reinterpret_cast<u64>(p); }

// ---------------------------------------------------------------- allocators
static int al_live, al_owner, allocs, deallocs;
static char *blk;           // the block handed out last
static std::size_t blk_n;
static const void *al_at;   // where the captured allocator is
struct Al {  // stack of arbitrary size at an arbitrary address
  std::size_t n;
  bool owner;
  u64 cookie;
  explicit Al(std::size_t n_) : n(n_), owner(true), cookie(n_ ^ 0x5a5a) { ++al_live; ++al_owner; }
  Al(Al &&o) noexcept : n(o.n), owner(o.owner), cookie(o.cookie) { o.owner = false; ++al_live; al_at = this; }
  Al(Al const &o) noexcept : n(o.n), owner(true), cookie(o.cookie) { ++al_live; ++al_owner; al_at = this; }
  ~Al() { --al_live; if (owner) --al_owner; }
  ctx::stack_context allocate() {
    ctx::stack_context s;
    blk = static_cast<char *>(__vc_region(n, 1, "ctxstack"));
    blk_n = n;
    s.size = n;
    s.sp = blk + n;
#if defined(BOOST_USE_SEGMENTED_STACKS)
    __vc_segments(s.segments_ctx, blk);
#endif
    ++allocs;
    return s;
  }
  void deallocate(ctx::stack_context &s) noexcept {
    VC("C06", owner, "release: the stack goes back to the allocator object that was captured");
    VC("C06", cookie == (n ^ 0x5a5a), "release: the captured allocator is intact");
    VC("C06", __vc_region_base(&s) != blk, "release: the descriptor passed to deallocate() is not part of the released stack");
    VC("C06", s.sp == blk + blk_n && s.size == blk_n, "release: with the descriptor it was obtained with");
    ++deallocs;
    SAN_RELEASED(blk);
    __vc_free(static_cast<char *>(s.sp) - s.size, "ctxstack", "C06");
  }
};
static void *fixed_base;
struct Al64 {  // simple allocator of 64 KiB stacks, any number of them
  ctx::stack_context allocate() {
    ctx::stack_context s;
    s.size = 65536;
    fixed_base = __vc_region(65536, 4096, "ctxstack");
    s.sp = static_cast<char *>(fixed_base) + 65536;
#if defined(BOOST_USE_SEGMENTED_STACKS)
    __vc_segments(s.segments_ctx, fixed_base);
#endif
    return s;
  }
  void deallocate(ctx::stack_context &s) noexcept {
    char *b = static_cast<char *>(s.sp) - s.size;
    VC("C06", __vc_region_base(&s) != b, "release: the descriptor passed to deallocate() is not part of the released stack");
    SAN_RELEASED(b);
    __vc_free(b, "ctxstack", "C06");
  }
};
static void finish(const char *prop) {
  SAN_IDLE();
  __vc_run_tls_dtors();
  __vc_leakcheck(prop);
}

// ---------------------------------------------------------------- C04 placement
static int fn_live, fn_owner, ran;
static const void *fn_at;
template <std::size_t N, std::size_t A> struct alignas(A) Fn {
  bool owner;
  unsigned char pad[N];
  u64 tag;
  explicit Fn(u64 t) : owner(true), tag(t) { ++fn_live; ++fn_owner; pad[0] = 17; pad[N - 1] = 18; }
  Fn(Fn &&o) noexcept : owner(o.owner), tag(o.tag) { o.owner = false; ++fn_live; fn_at = this; pad[0] = o.pad[0]; pad[N - 1] = o.pad[N - 1]; }
  Fn(Fn const &o) noexcept : owner(true), tag(o.tag) { ++fn_live; ++fn_owner; fn_at = this; pad[0] = o.pad[0]; pad[N - 1] = o.pad[N - 1]; }
  ~Fn() { --fn_live; if (owner) --fn_owner; }
  H operator()(H &&h) const {
    int local;
    VC("C04", fn_at == this, "place: the captured callable is the one that runs");
    VC("C04", RUNS_ON(&local, blk), "place: the function runs on the allocated stack");
    VC("C05", tag == expected && pad[N - 1] == (N == 1 ? 18 : 18), "run: the captured callable is intact when it runs");
    ++ran;
    return std::move(h);
  }
  static u64 expected;
};
template <std::size_t N, std::size_t A> u64 Fn<N, A>::expected;
template <class F> static void check_place(const char *top, const char *low, const char *high, std::size_t fs) {
  // low: bottom of the stack; high: end of the space for the control structure
  u64 b = addr(low), e = addr(high), f = addr(fn_at), a = addr(al_at);
  (void)top; (void)fs;
  VC("C04", b <= f && f <= e && sizeof(F) <= e - f, "place: the captured callable lies inside the allocator's memory");
  VC("C04", f % alignof(F) == 0, "place: the captured callable is suitably aligned");
  VC("C04", b <= a && a <= e && sizeof(Al) <= e - a, "place: the captured allocator lies inside the allocator's memory");
  VC("C04", a % alignof(Al) == 0, "place: the captured allocator is suitably aligned");
  VC("C04", a + sizeof(Al) <= f || f + sizeof(F) <= a, "place: callable and allocator do not overlap");
#if !defined(BOOST_USE_WINFIB)  // the operating system provides the stack a fiber runs on
  u64 t = addr(__vc_ctx_top()), sz = __vc_ctx_size();
  VC("C04", t <= f && t <= a, "place: the initial stack lies below callable and allocator");
  VC("C04", t >= b && t <= e && sz <= t - b, "place: the reported stack size does not reach beyond the stack's bottom");
  VC("C04", sz == t - b, "place: the stack reaches down to the stack's bottom");
  VC("C04", t % 16 == 0, "place: the initial stack pointer is aligned");
#endif
}
template <class F> static void place(bool pre) {
  u64 n = __vc_u64("stack size");
  __vc_assume(n >= sizeof(F) + 8192 && n < 1048576);
  F::expected = __vc_u64("tag");
#if !defined(CONT)
  if (!pre) {
    Al a(n);
    H h(std::allocator_arg, std::move(a), F(F::expected));
    VC("C06", allocs == 1 && deallocs == 0, "capture: one stack is allocated");
    check_place<F>(0, blk, blk + n, 0);
    h = std::move(h).resume();
    VC("C05", ran == 1 && !h, "run: the function runs once and the context ends");
  } else {
    Al a(n);
    ctx::stack_context s = a.allocate();
    u64 k = __vc_u64("user space");
    __vc_assume(k < 8192 && n - k >= sizeof(F) + 8192);
    unsigned char *user = reinterpret_cast<unsigned char *>(s.sp) - k;
    if (k >= 8) for (int i = 0; i < 8; ++i) user[i] = 40 + i;
    ctx::preallocated p(user, n - k, s);
    H h(std::allocator_arg, p, std::move(a), F(F::expected));
    VC("C06", allocs == 1 && deallocs == 0, "capture: no further stack is allocated");
    check_place<F>(0, blk, reinterpret_cast<char *>(user), 0);
    if (k >= 8) for (int i = 0; i < 8; ++i) VC("C04", user[i] == 40 + i, "place: the user's space above the preallocated region is untouched");
    h = std::move(h).resume();
    VC("C05", ran == 1 && !h, "run: the function runs once and the context ends");
  }
#else
  if (!pre) {
    Al a(n);
    H h = ctx::callcc(std::allocator_arg, std::move(a), F(F::expected));
    VC("C05", ran == 1 && !h, "run: the function runs once and the context ends");
  } else {
    Al a(n);
    ctx::stack_context s = a.allocate();
    u64 k = __vc_u64("user space");
    __vc_assume(k < 8192 && n - k >= sizeof(F) + 8192);
    ctx::preallocated p(reinterpret_cast<char *>(s.sp) - k, n - k, s);
    H h = ctx::callcc(std::allocator_arg, p, std::move(a), F(F::expected));
    VC("C05", ran == 1 && !h, "run: the function runs once and the context ends");
  }
#endif
  VC("C06", deallocs == 1, "release: the stack is returned exactly once");
  VC("C06", al_live == 0 && al_owner == 0 && fn_live == 0 && fn_owner == 0, "release: captured objects are destroyed exactly once");
  finish("C06");
}
#if defined(CONT)
// the placement is observed from inside: the function suspends right away
template <std::size_t N, std::size_t A> struct alignas(A) CFn {
  unsigned char pad[N];
  CFn() {}
  CFn(CFn &&) noexcept { fn_at = this; }
  H operator()(H &&h) const { h = std::move(h).resume(); ++ran; return std::move(h); }
};
template <class F> static void cplace(bool pre) {
  u64 n = __vc_u64("stack size");
  __vc_assume(n >= sizeof(F) + 8192 && n < 1048576);
  Al a(n);
  u64 k = 0;
  unsigned char *user;
  H h;
  if (pre) {
    ctx::stack_context s = a.allocate();
    k = __vc_u64("user space");
    __vc_assume(k < 8192 && n - k >= sizeof(F) + 8192);
    user = reinterpret_cast<unsigned char *>(s.sp) - k;
    if (k >= 8) for (int i = 0; i < 8; ++i) user[i] = 40 + i;
    ctx::preallocated p(user, n - k, s);
    h = ctx::callcc(std::allocator_arg, p, std::move(a), F());
  } else
    h = ctx::callcc(std::allocator_arg, std::move(a), F());
  VC("C06", allocs == 1 && deallocs == 0, "capture: one stack is allocated");
  check_place<F>(0, blk, blk + n - k, 0);
  if (k >= 8) for (int i = 0; i < 8; ++i) VC("C04", user[i] == 40 + i, "place: the user's space above the preallocated region is untouched");
  h = std::move(h).resume();
  VC("C05", ran == 1 && !h, "run: the function runs once and the context ends");
}
extern "C" void unit_c04_in_small() { cplace<CFn<1, 1>>(false); finish("C06"); }
extern "C" void unit_c04_in_mid() { cplace<CFn<300, 16>>(false); finish("C06"); }
extern "C" void unit_c04_in_page() { cplace<CFn<4096, 64>>(false); finish("C06"); }
extern "C" void unit_c04_in_over() { cplace<CFn<8, 256>>(false); finish("C06"); }
extern "C" void unit_c04_in_pre_small() { cplace<CFn<1, 1>>(true); finish("C06"); }
extern "C" void unit_c04_in_pre_page() { cplace<CFn<4096, 64>>(true); finish("C06"); }
#endif
extern "C" void unit_c04_small() { place<Fn<1, 8>>(false); }
extern "C" void unit_c04_mid() { place<Fn<300, 16>>(false); }
extern "C" void unit_c04_page() { place<Fn<4096, 64>>(false); }
extern "C" void unit_c04_over() { place<Fn<8, 256>>(false); }
extern "C" void unit_c04_pre_small() { place<Fn<1, 8>>(true); }
extern "C" void unit_c04_pre_mid() { place<Fn<300, 16>>(true); }
extern "C" void unit_c04_pre_page() { place<Fn<4096, 64>>(true); }
extern "C" void unit_c04_pre_over() { place<Fn<8, 256>>(true); }

// ---------------------------------------------------------------- C05 kinds of callables
#if defined(CONT)
#define START(h, ...) H h = ctx::callcc(std::allocator_arg, __VA_ARGS__)
#define NOTYET(cond)
#define RUN(h)
#else
#define START(h, ...) H h(std::allocator_arg, __VA_ARGS__)
#define NOTYET(cond) VC("C05", cond, "run: creating a context starts nothing")
#define RUN(h) h = std::move(h).resume()
#endif
static void once(H &h, int n) {
  VC("C05", ran == n, "run: the function runs exactly once");
  VC("C05,C08", !h, "transfer: the handle of a finished context is empty");
  VC("C05,C08", !static_cast<bool>(h), "transfer: the handle of a finished context is empty");
}
static H plain(H &&h) {
  int local;
  ++ran;
  VC("C05", RUNS_ON(&local, fixed_base), "run: the function runs on the allocated stack");
  VC("C05", static_cast<bool>(h), "run: the function gets a valid handle");
  return std::move(h);
}
static H byvalue(H h) {
  ++ran;
  VC("C05", static_cast<bool>(h), "run: the function gets a valid handle");
  h = std::move(h).resume();
  ++ran;
  return h;
}
extern "C" void unit_c05_function() {
  { START(h, Al64(), plain); NOTYET(ran == 0); RUN(h); once(h, 1); }
  ran = 0;
  { START(h, Al64(), &plain); NOTYET(ran == 0); RUN(h); once(h, 1); }
  ran = 0;
  { H (*p)(H &&) = &plain; START(h, Al64(), p); RUN(h); once(h, 1); }
  finish("C06");
}
extern "C" void unit_c05_byvalue() {
  { START(h, Al64(), byvalue); NOTYET(ran == 0); RUN(h);
    VC("C05", ran == 1 && h, "transfer: the handle of the suspended context is delivered");
    h = std::move(h).resume(); once(h, 2); }
  finish("C06");
}
struct Lv {  // copyable functor with state; the context works on its own copy
  u64 a, b;
  int copies, runs;
  Lv(u64 x, u64 y) : a(x), b(y), copies(0), runs(0) {}
  Lv(Lv const &o) : a(o.a), b(o.b), copies(o.copies + 1), runs(o.runs) {}
  Lv(Lv &&o) noexcept : a(o.a), b(o.b), copies(o.copies), runs(o.runs) { o.a = o.b = 0; }
  H operator()(H &&h) {
    VC("C05", a == wa && b == wb, "run: the captured callable is intact when it runs");
    VC("C05", runs == 0, "run: the function runs exactly once");
    ++runs; ++ran;
    a = b = 0;
    h = std::move(h).resume();
    VC("C05", runs == 1, "run: the captured callable is kept while the context is suspended");
    return std::move(h);
  }
  H operator()(H &&h) const {
    VC("C05", false, "run: the captured callable is not made const");
    return std::move(h);
  }
  static u64 wa, wb;
};
u64 Lv::wa, Lv::wb;
extern "C" void unit_c05_lvalue() {
  Lv::wa = __vc_u64("a"); Lv::wb = __vc_u64("b");
  Lv f(Lv::wa, Lv::wb);
  {
    START(h, Al64(), f); NOTYET(ran == 0);
    VC("C05", f.a == Lv::wa && f.b == Lv::wb && f.runs == 0, "capture: the caller's callable is not changed");
    f.a = f.b = 1;  // the caller's object may change or die
    RUN(h);
    VC("C05", ran == 1 && h, "transfer: the handle of the suspended context is delivered");
    h = std::move(h).resume();
    once(h, 1);
  }
  finish("C06");
}
extern "C" void unit_c05_const_lvalue() {
  Lv::wa = __vc_u64("a"); Lv::wb = __vc_u64("b");
  Lv const f(Lv::wa, Lv::wb);
  {
    START(h, Al64(), f); NOTYET(ran == 0);
    RUN(h);
    VC("C05", ran == 1 && h, "transfer: the handle of the suspended context is delivered");
    h = std::move(h).resume();
    once(h, 1);
  }
  finish("C06");
}
extern "C" void unit_c05_rvalue_xvalue() {
  Lv::wa = __vc_u64("a"); Lv::wb = __vc_u64("b");
  Lv f(Lv::wa, Lv::wb);
  {
    START(h, Al64(), std::move(f)); NOTYET(ran == 0);
    VC("C05", f.a == 0 && f.copies == 0, "capture: an rvalue callable is moved");
    RUN(h);
    h = std::move(h).resume();
    once(h, 1);
  }
  finish("C06");
}
struct MoveOnly {
  bool owner;
  u64 v;
  explicit MoveOnly(u64 x) : owner(true), v(x) { ++fn_live; }
  MoveOnly(MoveOnly &&o) noexcept : owner(o.owner), v(o.v) { o.owner = false; ++fn_live; }
  MoveOnly(MoveOnly const &) = delete;
  ~MoveOnly() { --fn_live; }
  H operator()(H &&h) { VC("C05", owner && v == Lv::wa, "run: the captured callable is intact when it runs"); ++ran; return std::move(h); }
};
extern "C" void unit_c05_moveonly() {
  Lv::wa = __vc_u64("a");
  { START(h, Al64(), MoveOnly(Lv::wa)); NOTYET(ran == 0); RUN(h); once(h, 1); }
  VC("C06", fn_live == 0, "release: captured objects are destroyed exactly once");
  finish("C06");
}
// a function that returns a handle other than the one it got: control goes there, with an empty handle
static int at_b;
extern "C" void unit_c05_return_other() {
  {
    H b;
    H a;
    H own;
    START(x, Al64(), [&own](H &&m) {
      m = std::move(m).resume();  // resumed by y's return
      VC("C05", !m, "transfer: the handle of a finished context is empty");
      ++at_b;
      m = std::move(own);
      return std::move(m);
    });
    RUN(x);
    START(y, Al64(), [&x, &own](H &&m) {
      own = std::move(m);
      ++ran;
      return std::move(x);
    });
    RUN(y);
    VC("C05", ran == 1 && at_b == 1, "transfer: control goes to exactly the designated context");
    VC("C05", !y && !x, "transfer: the handle of a finished context is empty");
  }
  finish("C06");
}

// ---------------------------------------------------------------- C06 allocators and faults
struct AlThrow {
  bool owner;
  AlThrow() : owner(true) { ++al_live; }
  AlThrow(AlThrow const &o) : owner(o.owner) { ++al_live; }
  ~AlThrow() { --al_live; }
  ctx::stack_context allocate() { throw std::bad_alloc(); }
  void deallocate(ctx::stack_context &) noexcept { VC("C06", false, "release: nothing is deallocated that was not allocated"); }
};
extern "C" void unit_c06_throwing_allocator() {
  int got = 0;
  try {
    START(h, AlThrow(), Fn<24, 8>(1));
    VC("C06", false, "capture: a failing allocation is reported");
  } catch (std::bad_alloc const &) { ++got; }
  VC("C06", got == 1 && ran == 0, "capture: a failing allocation is reported");
  VC("C06", al_live == 0 && fn_live == 0 && fn_owner == 0, "release: captured objects are destroyed exactly once");
  finish("C06");
}
extern "C" void unit_c06_lvalue_allocator() {
  u64 n = __vc_u64("stack size");
  __vc_assume(n >= 8192 && n < 1048576);
  {
    Al a(n);
    {
      START(h, a, MoveOnly(Lv::wa));
      VC("C06", a.owner && al_owner >= 1, "capture: an lvalue allocator is copied");
      RUN(h);
      once(h, 1);
    }
    VC("C06", al_live == 1 && al_owner == 1 && a.owner, "release: captured objects are destroyed exactly once");
    VC("C06", allocs == 1 && deallocs == 1, "release: the stack is returned exactly once");
  }
  finish("C06");
}
extern "C" void unit_c06_const_allocator_dropped() {
  u64 n = __vc_u64("stack size");
  __vc_assume(n >= 8192 && n < 1048576);
#if !defined(CONT)
  {
    Al a(n);
    { START(h, a, MoveOnly(Lv::wa)); (void)h; }  // destroyed before the first resumption
    VC("C07", ran == 0, "unwind: a context that was never resumed is not executed");
    VC("C06", al_live == 1 && al_owner == 1 && a.owner, "release: captured objects are destroyed exactly once");
    VC("C06", allocs == 1 && deallocs == 1, "release: the stack is returned exactly once");
    VC("C06", fn_live == 0, "release: captured objects are destroyed exactly once");
  }
#endif
  finish("C06");
}
#if defined(BOOST_USE_UCONTEXT) || defined(BOOST_USE_WINFIB) || defined(SHADOW_STACK_SYSCALL)
#if defined(BOOST_USE_WINFIB)
#define CREATION "CreateFiber"
#elif defined(SHADOW_STACK_SYSCALL)
#define CREATION "map_shadow_stack"
#else
#define CREATION "getcontext"
#endif
static void create_may_fail(bool lv) {
  u64 n = __vc_u64("stack size");
  __vc_assume(n >= 16384 && n < 1048576);
  {
    Al a(n);
    { START(w, Al64(), plain); RUN(w); }  // the thread's own record exists
    ran = 0;
    __vc_fail(CREATION, 1);
    bool got = false, made = false;
    try {
      if (lv) { START(h, a, MoveOnly(Lv::wa)); made = true; __vc_fail(CREATION, 0); RUN(h); once(h, 1); }
      else { START(h, std::move(a), MoveOnly(Lv::wa)); made = true; __vc_fail(CREATION, 0); RUN(h); once(h, 1); }
    } catch (std::exception const &) { got = true; }
    __vc_fail(CREATION, 0);
    VC("C06", got != made, "capture: a failure is reported by an exception");
    VC("C06", ran == (made ? 1 : 0), "capture: a context that could not be created does not run");
    VC("C06", allocs == 1 && deallocs == 1, "release: the stack is returned exactly once");
    VC("C06", fn_live == 0, "release: captured objects are destroyed exactly once");
    VC("C06", al_live == 1, "release: captured objects are destroyed exactly once");
  }
  finish("C06");
}
extern "C" void unit_c06_getcontext_lvalue() { create_may_fail(true); }
extern "C" void unit_c06_getcontext_rvalue() { create_may_fail(false); }
#if !defined(CONT)
extern "C" void unit_c06_getcontext_preallocated() {
  {
    Al a(65536);
    ctx::stack_context s = a.allocate();
    { START(w, Al64(), plain); RUN(w); }
    ran = 0;
    __vc_fail(CREATION, 1);
    bool got = false, made = false;
    try {
      H h(std::allocator_arg, ctx::preallocated(s.sp, s.size, s), std::move(a), MoveOnly(Lv::wa));
      made = true;
      __vc_fail(CREATION, 0);
      RUN(h);
      once(h, 1);
    } catch (std::exception const &) { got = true; }
    __vc_fail(CREATION, 0);
    VC("C06", got != made && deallocs == 1, "release: the stack is returned exactly once");
    VC("C06", fn_live == 0 && al_live == 1, "release: captured objects are destroyed exactly once");
  }
  finish("C06");
}
#endif
#endif

// ---------------------------------------------------------------- C07 unwinding
static int dtor[8];
struct D {
  int i;
  explicit D(int k) : i(k) {}
  ~D() { ++dtor[i]; }
};
static H nested2(H &&h) {
  D d(2);
  h = std::move(h).resume();
  VC("C07", false, "unwind: a destroyed context does not continue");
  return std::move(h);
}
static H nested1(H &&h) {
  D d(1);
  START(in, Al64(), nested2);
  RUN(in);
  D e(3);
  h = std::move(h).resume();
  VC("C07", false, "unwind: a destroyed context does not continue");
  return std::move(h);
}
static H nested0(H &&h) {
  D d(0);
  START(in, Al64(), nested1);
  RUN(in);
  h = std::move(h).resume();
  VC("C07", false, "unwind: a destroyed context does not continue");
  return std::move(h);
}
extern "C" void unit_c07_nested() {
  {
    START(h, Al64(), nested0);
    RUN(h);
    VC("C07", dtor[0] + dtor[1] + dtor[2] + dtor[3] == 0, "unwind: nothing is destroyed early");
  }
  VC("C07", dtor[0] == 1 && dtor[1] == 1 && dtor[2] == 1 && dtor[3] == 1, "unwind: destructors of all objects on its stack run once");
  finish("C06");
}
static H rethrows(H &&h) {
  D d(0);
  try {
    D e(1);
    try { h = std::move(h).resume(); ++ran; }
    catch (std::exception const &) { VC("C07", false, "unwind: the forced unwind is not a std::exception"); }
  } catch (...) { D g(2); throw; }
  VC("C07", false, "unwind: a destroyed context does not continue");
  return std::move(h);
}
extern "C" void unit_c07_catch_rethrow() {
  { START(h, Al64(), rethrows); RUN(h); }
  VC("C07", dtor[0] == 1 && dtor[1] == 1 && dtor[2] == 1 && ran == 0, "unwind: destructors of all objects on its stack run once");
  finish("C06");
}
static H byref(H &&h) {
  D d(0);
  try { h = std::move(h).resume(); ++ran; }
  catch (ctx::detail::forced_unwind const &) { D g(2); throw; }
  return std::move(h);
}
extern "C" void unit_c07_catch_forced_unwind() {
  { START(h, Al64(), byref); RUN(h); }
  VC("C07", dtor[0] == 1 && dtor[2] == 1 && ran == 0, "unwind: destructors of all objects on its stack run once");
  finish("C06");
}
static H with_ot(H &&h) {
  D d(0);
  h = std::move(h).resume_with([](H &&c) { ++at_b; return std::move(c); });
  ++ran;
  return std::move(h);
}
extern "C" void unit_c07_in_resume_with() {
  { START(h, Al64(), with_ot); RUN(h); VC("C09", at_b == 1, "on-top: the function runs exactly once"); }
  VC("C07", dtor[0] == 1 && ran == 0 && at_b == 1, "unwind: destructors of all objects on its stack run once");
  finish("C06");
}
extern "C" void unit_c07_assign() {
  {
    START(h, Al64(), with_ot); RUN(h);
    at_b = 0;
    H e;
    h = std::move(e);  // overwriting unwinds
    VC("C07", dtor[0] == 1 && ran == 0 && !h && !e, "unwind: overwriting a handle unwinds its context");
    H g = std::move(h);
    VC("C07", !g && !h, "handle: an empty handle stays empty");
  }
  VC("C07", dtor[0] == 1, "unwind: destructors of all objects on its stack run once");
  finish("C06");
}
// the local handle of the unwound context designates a context that is resumed by a destructor during the unwinding
static H pong(H &&h) {
  D d(4);
  for (int i = 0; i < 2; ++i) { h = std::move(h).resume(); ++at_b; }
  return std::move(h);
}
struct Switcher {
  H h;
  ~Switcher() {
    h = std::move(h).resume();
    VC("C07", at_b == 1 && h, "unwind: a destructor may switch to another context");
    h = std::move(h).resume();
    VC("C07", at_b == 2 && !h, "unwind: a destructor may switch to another context");
  }
};
static H unw_switch(H &&h) {
  D d(0);
  START(in, Al64(), pong);
  RUN(in);
  Switcher s{std::move(in)};
  D e(1);
  h = std::move(h).resume();
  ++ran;
  return std::move(h);
}
extern "C" void unit_c07_destructor_switches() {
  { START(h, Al64(), unw_switch); RUN(h); }
  VC("C07", dtor[0] == 1 && dtor[1] == 1 && dtor[4] == 1 && ran == 0, "unwind: destructors of all objects on its stack run once");
  finish("C06");
}
#if !defined(CONT)
extern "C" void unit_c07_fresh() {
  { START(h, Al64(), plain); (void)h; }
  VC("C07", ran == 0, "unwind: a context that was never resumed is not executed");
  { START(h, Al64(), plain); H g = std::move(h); H k; k = std::move(g); }
  VC("C07", ran == 0, "unwind: a context that was never resumed is not executed");
  finish("C06");
}
#endif

// ---------------------------------------------------------------- C08 handles
static_assert(!std::is_copy_constructible<H>::value && !std::is_copy_assignable<H>::value, "move-only");
static_assert(std::is_nothrow_move_constructible<H>::value && std::is_nothrow_move_assignable<H>::value, "nothrow move");
static_assert(std::is_nothrow_default_constructible<H>::value, "nothrow default");
static_assert(!std::is_convertible<H, bool>::value, "explicit bool");
static H waits(H &&h) { h = std::move(h).resume(); return std::move(h); }
extern "C" void unit_c08_order() {
  {
    H e1, e2;
    START(a, Al64(), waits);
    START(b, Al64(), waits);
#if defined(CONT)
#endif
    VC("C08", !(a < a) && !(b < b) && !(e1 < e1), "order: irreflexive");
    VC("C08", !(e1 < e2) && !(e2 < e1), "order: empty handles are equivalent");
    VC("C08", (a < b) != (b < a), "order: handles of different contexts are ordered");
    VC("C08", (a < e1) != (e1 < a) && (b < e1) != (e1 < b), "order: an empty handle differs from a valid one");
    H *p[3] = {&a, &b, &e1};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k)
      if (*p[i] < *p[j] && *p[j] < *p[k]) VC("C08", *p[i] < *p[k], "order: transitive");
    bool ab = a < b;
    a.swap(b);
    VC("C08", (b < a) == ab, "order: follows the designated context");
    using std::swap;
    swap(a, b);
    VC("C08", (a < b) == ab, "order: follows the designated context");
    a.swap(e1);
    VC("C08", !a && e1 && b && (e1 < b) == ab, "order: follows the designated context");
    a.swap(a);
    VC("C08", !a, "handle: swapping with itself changes nothing");
    b.swap(b);
    VC("C08", static_cast<bool>(b), "handle: swapping with itself changes nothing");
  }
  finish("C06");
}
// handle operations allocate nothing and switch nothing
extern "C" void unit_c08_pure() {
  {
    START(w, Al64(), plain); RUN(w);
    START(a, Al64(), waits);
    __vc_fail("new", 2);  // an allocation here is a violation
    int r0 = ran;
    H b(std::move(a));
    VC("C08", !a && b, "handle: a moved-from handle is empty");
    H c;
    c = std::move(b);
    VC("C08", !b && c, "handle: a moved-from handle is empty");
    swap(a, c);
    VC("C08", a && !c, "handle: swap exchanges the contexts");
    H *al = &a;
    a = std::move(*al);
    VC("C08", static_cast<bool>(a), "handle: self-move changes nothing");
    bool x = !a, y = static_cast<bool>(a), z = a < c;
    (void)z;
    VC("C08", !x && y && ran == r0, "handle: operator! is the negation");
    __vc_fail("new", 0);
  }
  finish("C06");
}

// ---------------------------------------------------------------- C09 on-top functions
struct OtState { u64 a, b; int live, dead; };
static OtState ot;
template <std::size_t N> struct Ot {
  u64 a;
  unsigned char pad[N];
  u64 b;
  bool alive;
  Ot(u64 x, u64 y) : a(x), b(y), alive(true) { ++ot.live; }
  Ot(Ot const &o) : a(o.a), b(o.b), alive(true) { VC("C09", o.alive, "on-top: a destroyed callable is not accessed"); ++ot.live; }
  ~Ot() { alive = false; --ot.live; a = b = 0; }
  H operator()(H &&c) const {
    VC("C09", alive && a == ot.a && b == ot.b, "on-top: the callable is intact when it runs");
    VC("C09", static_cast<bool>(c), "on-top: the function receives a valid handle");
    ++at_b;
    return std::move(c);
  }
};
static int resumed;
static H ot_target(H &&h) {
  int local;
  for (int i = 0; i < 3; ++i) {
    h = std::move(h).resume();
    ++resumed;
    VC("C09", at_b == resumed, "on-top: the function runs exactly once, before anything else in the target");
    VC("C09", static_cast<bool>(h), "on-top: the handle returned by the function is what the target receives");
    VC("C05", RUNS_ON(&local, fixed_base), "run: the function runs on the allocated stack");
  }
  return std::move(h);
}
template <class F> static void ontop_kinds() {
  ot.a = __vc_u64("a"); ot.b = __vc_u64("b");
  {
    START(h, Al64(), ot_target); RUN(h);
    F f(ot.a, ot.b);
    h = std::move(h).resume_with(f);
    VC("C09", resumed == 1 && at_b == 1 && h, "on-top: the function runs exactly once");
    VC("C09", f.alive && f.a == ot.a && f.b == ot.b && ot.live == 1, "on-top: the caller's callable is kept");
    F const g(ot.a, ot.b);
    h = std::move(h).resume_with(g);
    VC("C09", resumed == 2 && at_b == 2 && h && ot.live == 2, "on-top: the function runs exactly once");
    h = std::move(h).resume_with(F(ot.a, ot.b));
    VC("C09", resumed == 3 && at_b == 3 && !h && ot.live == 2, "on-top: the function runs exactly once");
  }
  VC("C09", ot.live == 0, "on-top: all copies of the callable are destroyed");
  finish("C06");
}
extern "C" void unit_c09_small() { ontop_kinds<Ot<1> >(); }
extern "C" void unit_c09_large() { ontop_kinds<Ot<1000> >(); }
static H ot_fn(H &&c) { ++at_b; return std::move(c); }
static H ot_fn_val(H c) { ++at_b; return c; }
extern "C" void unit_c09_functions() {
  {
    START(h, Al64(), ot_target); RUN(h);
    h = std::move(h).resume_with(&ot_fn);
    VC("C09", resumed == 1 && at_b == 1 && h, "on-top: the function runs exactly once");
    h = std::move(h).resume_with(&ot_fn_val);
    VC("C09", resumed == 2 && at_b == 2 && h, "on-top: the function runs exactly once");
    H (*fp)(H &&) = &ot_fn;
    h = std::move(h).resume_with(fp);
    VC("C09", resumed == 3 && at_b == 3 && !h, "on-top: the function runs exactly once");
  }
  finish("C06");
}
// an on-top function that itself creates, resumes and destroys contexts
static H ot_nested(H &&c) {
  ++at_b;
  START(in, Al64(), waits); RUN(in);
  VC("C09", static_cast<bool>(in), "on-top: the function may switch");
  START(out, Al64(), plain); RUN(out);
  return std::move(c);
}
extern "C" void unit_c09_nested() {
  {
    START(h, Al64(), waits); RUN(h);
    h = std::move(h).resume_with(&ot_nested);
    VC("C09", at_b == 1 && !h, "on-top: the function runs exactly once");
  }
  finish("C06");
}
#if !defined(CONT)
// first resumption by resume_with: the function runs on the fresh context's stack, before its own function
static H first_fn(H &&h) {
  VC("C09", at_b == 1, "on-top: the function runs before the context function");
  VC("C09", static_cast<bool>(h), "on-top: the handle returned by the function is what the context function receives");
  ++ran;
  h = std::move(h).resume();
  VC("C09", at_b == 1, "on-top: the function runs exactly once");
  return std::move(h);
}
extern "C" void unit_c09_first() {
  {
    START(h, Al64(), first_fn);
    h = std::move(h).resume_with([](H &&c) {
      int local;
      VC("C09", RUNS_ON(&local, fixed_base) && ran == 0, "on-top: the function runs on the target's stack");
      ++at_b;
      return std::move(c);
    });
    VC("C09", ran == 1 && at_b == 1 && h, "on-top: the function runs exactly once");
    h = std::move(h).resume();
    once(h, 1);
  }
  finish("C06");
}
#endif
struct Ex { u64 v; Ex(u64 x) : v(x) {} Ex(Ex const &o) : v(o.v) { } };
static H *slot_h;
static H catcher(H &&h) {
  int n = 0;
  try { h = std::move(h).resume(); VC("C09", false, "on-top: an exception of the function is thrown in the target"); }
  catch (Ex const &e) { VC("C09", e.v == ot.a, "on-top: the exception is delivered intact"); ++n; }
  VC("C09", n == 1 && at_b == 1, "on-top: the exception is delivered once");
  h = std::move(*slot_h);
  VC("C09", static_cast<bool>(h), "on-top: the resumer is intact");
  h = std::move(h).resume();
  VC("C09", at_b == 1, "on-top: the exception is delivered once");
  ++resumed;
  h = std::move(h).resume();
  ++resumed;
  return std::move(h);
}
extern "C" void unit_c09_throws() {
  ot.a = __vc_u64("a");
  {
    H back;
    slot_h = &back;
    START(h, Al64(), catcher); RUN(h);
    h = std::move(h).resume_with([](H &&c) -> H { ++at_b; *slot_h = std::move(c); throw Ex(ot.a); });
    VC("C09", at_b == 1 && h, "on-top: the exception does not reach the resumer");
    h = std::move(h).resume();
    VC("C09", resumed == 1 && h, "on-top: the exception is delivered once");
    h = std::move(h).resume();
    VC("C09", resumed == 2 && !h, "on-top: the exception is delivered once");
  }
  finish("C06");
}
#if defined(BOOST_USE_UCONTEXT) || defined(BOOST_USE_WINFIB)
// the back-end copies the callable into the heap: a failing copy leaves everything as it was
extern "C" void unit_c09_capture_fails() {
  ot.a = __vc_u64("a"); ot.b = __vc_u64("b");
  {
    START(h, Al64(), ot_target); RUN(h);
    Ot<100> f(ot.a, ot.b);
    bool got = false;
    __vc_fail("new", 1);
    try { h = std::move(h).resume_with(f); __vc_fail("new", 0); }
    catch (std::bad_alloc const &) { got = true; }
    __vc_fail("new", 0);
    VC("C09", at_b == (got ? 0 : 1) && resumed == at_b, "on-top: nothing runs if the callable cannot be stored");
    VC("C09", static_cast<bool>(h), "on-top: the target stays suspended if the callable cannot be stored");
    VC("C09", f.alive && ot.live == 1, "on-top: the caller's callable is kept");
    if (!got) resumed = at_b = 1; else resumed = at_b = 0;
    ++at_b;
    h = std::move(h).resume();
    VC("C09", h && resumed == (got ? 1 : 2), "on-top: nothing is pending");
  }
  finish("C06");
}
#endif

// ---------------------------------------------------------------- C17 escaping exceptions
struct StdEx : std::exception { };
static int thrown_kind;
static H thrower(H &&h) {
  D d(0);
  int k = thrown_kind;
  if (k >= 4) { h = std::move(h).resume(); k -= 4; }
  __vc_expect_terminate("C17");
  switch (k) {
  case 0: throw 5;
  case 1: throw StdEx();
  case 2: throw "text";
  default: throw std::bad_alloc();
  }
}
extern "C" void vc_on_terminate() {
  VC("C17", resumed == 0, "terminate: no other context is resumed");
  VC("C17", allocs == 0 || deallocs == 0, "terminate: the stack is not released under the running exception");
}
extern "C" void unit_c17_kinds() {
  thrown_kind = __vc_choice(8, "kind");
  try {
    START(h, Al(65536), thrower); RUN(h);
    if (thrown_kind >= 4) {
      VC("C17", static_cast<bool>(h), "transfer: the handle of the suspended context is delivered");
      h = std::move(h).resume();
    }
    ++resumed;
    VC("C17", false, "terminate: an escaping exception terminates");
  } catch (...) { VC("C17", false, "terminate: the exception never crosses a context boundary"); }
  VC("C17", false, "terminate: an escaping exception terminates");
}
// exceptions that stay inside, on several contexts at the same time, do not terminate
static H inner(H &&h) {
  try { throw 1; }
  catch (int) { }
  try { throw Ex(2); }
  catch (Ex const &e) { VC("C17", e.v == 2, "exceptions: handled inside their context"); }
  ++ran;
  return std::move(h);
}
extern "C" void unit_c17_inside() {
  try { throw Ex(7); }
  catch (Ex const &e) { VC("C17", e.v == 7, "exceptions: handled inside their context"); }
  { START(h, Al64(), inner); RUN(h); once(h, 1); }
  finish("C06");
}
// the throwing context holds handles of suspended contexts: none of them may be resumed
static H holder(H &&h) {
  H local = std::move(h);
  D d(0);
  START(in, Al64(), waits); RUN(in);
  if (thrown_kind) { local = std::move(local).resume(); }
  __vc_expect_terminate("C17");
  throw Ex(3);
}
static H outer(H &&h) {
  D d(1);
  START(in, Al64(), holder); RUN(in);
  if (thrown_kind) in = std::move(in).resume();
  ++resumed;
  VC("C17", false, "terminate: no other context is resumed");
  return std::move(h);
}
extern "C" void unit_c17_holds_handles() {
  thrown_kind = __vc_choice(2, "resumed before");
  try {
    D d(2);
    START(h, Al64(), outer); RUN(h);
    ++resumed;
  } catch (...) { VC("C17", false, "terminate: the exception never crosses a context boundary"); }
  VC("C17", false, "terminate: an escaping exception terminates");
}

// ---------------------------------------------------------------- C18 the thread's own record
#if defined(CHECKCUR)
#if defined(CONT)
typedef ctx::detail::activation_record Rec;
#else
typedef ctx::detail::fiber_activation_record Rec;
#endif
static void cur_ok() {
  void *u = __vc_cur_ucontext();
  VC("C18", !u || static_cast<void *>(&Rec::current()->uctx) == u, "current: the running context is the one that executes");
}
static H cur_body(H &&h) {
  cur_ok();
  VC("C18", !Rec::current()->is_main_context(), "current: a created context is not the thread's initial one");
  h = std::move(h).resume();
  cur_ok();
  h = std::move(h).resume_with([](H &&c) { cur_ok(); ++at_b; return std::move(c); });
  cur_ok();
  { START(in, Al64(), waits); RUN(in); cur_ok(); }
  cur_ok();
  return std::move(h);
}
extern "C" void unit_c18_thread() {
  Rec *m = Rec::current();
  VC("C18", m && m->is_main_context() && Rec::current() == m, "current: the initial context is set up once, on first use");
  {
    START(h, Al64(), cur_body); RUN(h);
    VC("C18", Rec::current() == m, "current: the running context is the one that executes");
    h = std::move(h).resume();
    VC("C18", Rec::current() == m && at_b == 1, "current: the running context is the one that executes");
    h = std::move(h).resume_with([](H &&c) { cur_ok(); VC("C18", !Rec::current()->is_main_context(), "current: the running context is the one that executes"); return std::move(c); });
    VC("C18", Rec::current() == m && !h, "current: the running context is the one that executes");
  }
  finish("C18");
}
extern "C" void unit_c18_first_use_by_create() {
  { START(h, Al64(), waits); RUN(h); VC("C18", Rec::current()->is_main_context(), "current: the initial context is set up once, on first use"); }
  VC("C18", Rec::current()->is_main_context(), "current: the initial context is set up once, on first use");
  finish("C18");
}
#endif
