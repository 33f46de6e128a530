// Contracts of the stack allocators and stack_traits, over the ghost operating system.
#include "os.h"
#include <csignal>
#include <csignal>
#define MINSIGSTKSZ_VALUE static_cast<std::size_t>(MINSIGSTKSZ)  // the platform's definition
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/stack_traits.hpp>
namespace ctx = boost::context;
static const bool MAP =
#if defined(BOOST_CONTEXT_USE_MAP_STACK)
    true;
#else
    false;
#endif
static char *base(ctx::stack_context const &c) { return static_cast<char *>(c.sp) - c.size; }
static void touch(ctx::stack_context const &c, std::size_t low) {  // the ends of the stack are usable memory
  char *b = base(c);
  if (c.size > low) {
    b[low] = 1;
    b[c.size - 1] = 2;
    VC("", b[c.size - 1] == 2, "stack: holds what is written");
  }
}
static int gets() { return MAP ? n_mmap : n_malloc; }
static int puts_() { return MAP ? n_munmap : n_free; }
static void others() {
  if (MAP) VC("C10", n_malloc == 0 && n_free == 0, "stack: one kind of memory is used");
  else VC("C10", n_mmap == 0 && n_munmap == 0, "stack: one kind of memory is used");
}
// ---------------------------------------------------------------------------------------------- C10
template <class S>
static void one(S &s, std::size_t n, S *d) {
  bool threw = false;
  try {
    ctx::stack_context c = s.allocate();
    VC("C10", !os_failed && gets() == 1, "stack: exactly one block is obtained");
    VC("C10", c.size == n, "stack: the size is the requested size");
    VC("C10", base(c) == os_last && os_last_n == n, "stack: [sp-size, sp) is exactly the block");
    touch(c, 0);
    ctx::stack_context c2(c);  // the library works on copies of the descriptor
    d->deallocate(c2);
    VC("C10", puts_() == 1 && !__vc_live(os_last), "stack: deallocation releases exactly that block");
  } catch (std::bad_alloc const &) { threw = true; }
  VC("C10", threw == os_failed, "stack: std::bad_alloc is thrown exactly if no memory can be obtained");
  VC("C10", gets() == (MAP && os_failed ? 1 : n_malloc + n_mmap), "stack: one attempt");
  others();
  __vc_leakcheck("C10");
}
extern "C" void unit_c10_any_size() {
  std::size_t n = __vc_u64("size");
  os_fail = true;
  ctx::fixedsize_stack s(n);
  one(s, n, &s);
}
extern "C" void unit_c10_copy() {  // a copy of the allocator releases the stack
  std::size_t n = __vc_u64("size");
  os_fail = true;
  ctx::fixedsize_stack s(n);
  ctx::fixedsize_stack t(s);
  ctx::fixedsize_stack u(std::move(t));
  one(s, n, &u);
}
extern "C" void unit_c10_default() {
  os_fail = true;
  ctx::fixedsize_stack s;
  one(s, 131072, &s);
}
extern "C" void unit_c10_two() {  // stacks are distinct and released independently, in any order
  std::size_t n = __vc_u64("size"), m = __vc_u64("size 2");
  __vc_assume(n > 0 && m > 0 && n < OS_LIMIT && m < OS_LIMIT);
  ctx::fixedsize_stack s(n);
  ctx::stack_context a = s.allocate();
  ctx::fixedsize_stack t(m);
  ctx::stack_context b = t.allocate();
  s = t;
  VC("C10", base(a) != base(b) && a.size == n && b.size == m, "stack: every allocation returns a fresh block");
  base(a)[n - 1] = 11;
  base(b)[0] = 22;
  if (__vc_choice(2, "order")) {
    s.deallocate(a);
    VC("C10", !__vc_live(base(a)) && __vc_live(base(b)) && base(b)[0] == 22, "stack: deallocation touches nothing else");
    t.deallocate(b);
  } else {
    t.deallocate(b);
    VC("C10", !__vc_live(base(b)) && __vc_live(base(a)) && base(a)[n - 1] == 11, "stack: deallocation touches nothing else");
    s.deallocate(a);
  }
  VC("C10", gets() == 2 && puts_() == 2, "stack: deallocation releases exactly that block");
  __vc_leakcheck("C10");
}
extern "C" void unit_c10_traits() {  // any traits class
  struct Tr {
    static std::size_t default_size() noexcept { return 12345; }
    static std::size_t page_size() noexcept { return 4096; }
    static std::size_t minimum_size() noexcept { return 1; }
    static bool is_unbounded() noexcept { return true; }
    static std::size_t maximum_size() noexcept { return 0; }
  };
  os_fail = true;
  ctx::basic_fixedsize_stack<Tr> s;
  one(s, 12345, &s);
}
// ---------------------------------------------------------------------------------------------- C11
template <class S>
static void guarded(S &s, std::size_t n, S *d) {
  bool threw = false;
  try {
    ctx::stack_context c = s.allocate();
    VC("C11", !os_failed && n_mmap == 1 && n_munmap == 0, "guard: exactly one mapping is made");
    VC("C11", base(c) == os_last && c.size == os_last_n, "guard: the descriptor covers exactly the mapping");
    VC("C11", (c.size & (os_page - 1)) == 0, "guard: the mapping consists of whole pages");
    VC("C11", n_mprotect == 1 && os_last_guard, "guard: the lowest page is protected");
    VC("C11", c.size >= os_page && c.size - os_page >= n, "guard: the rest is at least as large as requested");
    VC("C11", c.size - os_page - n < os_page, "guard: no more than the rounding is added");
    touch(c, os_page);
    ctx::stack_context c2(c);
    d->deallocate(c2);
    VC("C11", n_munmap == 1 && !__vc_live(os_last), "guard: deallocation unmaps exactly that mapping");
  } catch (std::bad_alloc const &) { threw = true; }
  VC("C11", !(os_failed && !threw), "guard: a failing system call is reported");
  VC("C11", !(threw && !os_failed && n <= OS_LIMIT), "guard: std::bad_alloc is thrown only if no memory can be obtained");
  VC("C11", n_malloc == 0 && n_free == 0, "guard: one kind of memory is used");
  VC("C11", n_mmap - n_munmap == (os_failed && n_mprotect == 0 ? n_mmap : 0), "guard: nothing is left mapped");
  __vc_leakcheck("C11");
}
static void any_page() {
  static const unsigned long pages[] = {4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152};
  if (!os_booted) { os_page = pages[__vc_choice(10, "page size")]; os_booted = true; }
}
extern "C" void unit_c11_any_size() {
  std::size_t n = __vc_u64("size");
  any_page();
  os_fail = true;
  ctx::protected_fixedsize_stack s(n);
  guarded(s, n, &s);
}
extern "C" void unit_c11_copy() {
  std::size_t n = __vc_u64("size");
  os_fail = true;
  ctx::protected_fixedsize_stack s(n);
  ctx::protected_fixedsize_stack t(s);
  s = ctx::protected_fixedsize_stack(1);
  guarded(t, n, &s);
}
extern "C" void unit_c11_default() {
  any_page();
  os_fail = true;
  ctx::protected_fixedsize_stack s;
  guarded(s, 131072, &s);
}
extern "C" void unit_c11_two() {
  std::size_t n = __vc_u64("size"), m = __vc_u64("size 2");
  __vc_assume(n > 0 && m > 0 && n < OS_LIMIT / 2 && m < OS_LIMIT / 2);
  any_page();
  ctx::protected_fixedsize_stack s(n), t(m);
  ctx::stack_context a = s.allocate();
  ctx::stack_context b = t.allocate();
  VC("C11", base(a) != base(b), "guard: every allocation is a fresh mapping");
  base(a)[os_page] = 11;
  base(b)[b.size - 1] = 22;
  s.deallocate(a);
  VC("C11", n_munmap == 1 && __vc_live(base(b)) && base(b)[b.size - 1] == 22, "guard: deallocation unmaps exactly that mapping");
  t.deallocate(b);
  VC("C11", n_munmap == 2, "guard: deallocation unmaps exactly that mapping");
  __vc_leakcheck("C11");
}
// ---------------------------------------------------------------------------------------------- C14
static void any_limit(unsigned long &l) {
  l = __vc_choice(2, "limit is infinite") ? RLIM_INFINITY : __vc_u64("hard limit");
}
extern "C" void unit_c14_values() {
  any_page();
  any_limit(os_rlim_max);
  os_rlim_cur = __vc_u64("soft limit");
  __vc_assume(os_rlim_cur <= os_rlim_max);
  os_minsig = static_cast<long>(__vc_u64("minimal signal stack"));
  os_sig = static_cast<long>(__vc_u64("signal stack"));
  unsigned long hard = os_rlim_max, page = os_page;
  bool inf = hard == RLIM_INFINITY;
  int first = __vc_choice(3, "first call");
  if (first == 1) { unsigned long p = ctx::stack_traits::page_size(); VC("C14", p == page, "traits: page_size is the system page size"); }
  if (first == 2 && !inf) VC("C14", ctx::stack_traits::maximum_size() == hard, "traits: maximum_size is the hard limit");
  VC("C14", ctx::stack_traits::is_unbounded() == inf, "traits: is_unbounded is true exactly when the hard limit is infinite");
  if (!inf) VC("C14", ctx::stack_traits::maximum_size() == hard, "traits: maximum_size is the hard limit");
  VC("C14", ctx::stack_traits::page_size() == page, "traits: page_size is the system page size");
  VC("C14", ctx::stack_traits::default_size() == 131072, "traits: default_size is 128 KiB");
  VC("C14", ctx::stack_traits::minimum_size() == MINSIGSTKSZ_VALUE, "traits: minimum_size is the minimal signal stack size");
  // the system's answers change: the traits do not
  any_limit(os_rlim_max);
  os_rlim_cur = __vc_u64("soft limit 2");
  __vc_assume(os_rlim_cur <= os_rlim_max);
  any_page();
  for (int i = 0; i < 2; ++i) {
    VC("C14", ctx::stack_traits::is_unbounded() == inf, "traits: repeated calls agree");
    if (!inf) VC("C14", ctx::stack_traits::maximum_size() == hard, "traits: repeated calls agree");
    VC("C14", ctx::stack_traits::page_size() == page, "traits: repeated calls agree");
    VC("C14", ctx::stack_traits::default_size() == 131072, "traits: repeated calls agree");
    VC("C14", ctx::stack_traits::minimum_size() == MINSIGSTKSZ_VALUE, "traits: repeated calls agree");
  }
  VC("C14", noexcept(ctx::stack_traits::is_unbounded()) && noexcept(ctx::stack_traits::maximum_size()) &&
                noexcept(ctx::stack_traits::page_size()) && noexcept(ctx::stack_traits::default_size()) &&
                noexcept(ctx::stack_traits::minimum_size()), "traits: nothing throws");
}
extern "C" void unit_c14_mixed() {  // limits that change between the first call of one member and of another
  any_limit(os_rlim_max);
  os_rlim_cur = __vc_u64("soft limit");
  __vc_assume(os_rlim_cur <= os_rlim_max);
  unsigned long hard = os_rlim_max;
  bool inf = hard == RLIM_INFINITY;
  bool which = __vc_choice(2, "first call");
  if (which && inf) return;
  if (which) VC("C14", ctx::stack_traits::maximum_size() == hard, "traits: maximum_size is the hard limit");
  else VC("C14", ctx::stack_traits::is_unbounded() == inf, "traits: is_unbounded is true exactly when the hard limit is infinite");
  any_limit(os_rlim_max);
  os_rlim_cur = __vc_u64("soft limit 2");
  __vc_assume(os_rlim_cur <= os_rlim_max);
  VC("C14", ctx::stack_traits::is_unbounded() == inf, "traits: calls agree with each other");
  if (!inf) VC("C14", ctx::stack_traits::maximum_size() == hard, "traits: calls agree with each other");
}
