// Contexts created with the library's own allocators (default constructor, fixedsize, protected, pooled).
#include "os.h"
#if defined(CONT)
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
namespace ctx = boost::context;
#if defined(CONT)
typedef ctx::continuation H;
#define RUN(h)
#define SUSPENDED(h)
#else
typedef ctx::fiber H;
#define RUN(h) h = std::move(h).resume()
#endif
static int ran;
static H body(H &&h) {
  int local;
  VC("C05", __vc_runs_on(&local, os_last), "run: the function runs on the allocated stack");
  ++ran;
  h = std::move(h).resume();
  ++ran;
  return std::move(h);
}
static void go(H &h) {
  RUN(h);
  VC("C05", ran == 1 && h, "transfer: the handle of the suspended context is delivered");
  VC("C06", n_free == 0 && n_munmap == 0, "release: a stack in use is not returned");
  h = std::move(h).resume();
  VC("C05", ran == 2 && !h, "run: the function runs exactly once");
}
static void finish() {
  __vc_run_tls_dtors();
  __vc_leakcheck("C06");
}
#if !defined(BOOST_USE_SEGMENTED_STACKS)
extern "C" void unit_c05_default() {
  {
#if defined(CONT)
    H h = ctx::callcc(body);
#else
    H h(body);
    VC("C05", ran == 0, "run: creating a context starts nothing");
#endif
    VC("C10", n_malloc == 1 && os_last_n == 131072, "stack: default construction uses the traits' default size");
    go(h);
  }
  VC("C06", n_free == 1, "release: the stack is returned exactly once");
  finish();
}
extern "C" void unit_c06_default_dropped() {
  {
#if defined(CONT)
    H h = ctx::callcc(body);
#else
    H h(body);
#endif
    RUN(h);
    H g = std::move(h);
  }
  VC("C06", n_malloc == 1 && n_free == 1 && ran == 1, "release: the stack is returned exactly once");
  finish();
}
extern "C" void unit_c06_default_oom() {
  os_fail = true;
  bool got = false;
  try {
#if defined(CONT)
    H h = ctx::callcc(body);
#else
    H h(body);
#endif
    go(h);
  } catch (std::bad_alloc const &) { got = true; }
  VC("C06", got == os_failed, "capture: a failing allocation is reported");
  VC("C06", n_free == (got ? 0 : 1), "release: the stack is returned exactly once");
  finish();
}
#endif
extern "C" void unit_c06_fixedsize() {
  {
#if defined(CONT)
    H h = ctx::callcc(std::allocator_arg, ctx::fixedsize_stack(65536), body);
#else
    H h(std::allocator_arg, ctx::fixedsize_stack(65536), body);
#endif
    VC("C10", n_malloc == 1 && os_last_n == 65536, "stack: the full requested stack is obtained");
    go(h);
  }
  VC("C06", n_free == 1, "release: the stack is returned exactly once");
  finish();
}
extern "C" void unit_c06_protected() {
  os_fail = true;
  bool got = false;
  try {
#if defined(CONT)
    H h = ctx::callcc(std::allocator_arg, ctx::protected_fixedsize_stack(65536), body);
#else
    H h(std::allocator_arg, ctx::protected_fixedsize_stack(65536), body);
#endif
    VC("C11", os_last_n == 65536 + 4096 && os_last_guard, "guard: the stack of a context has a guard page");
    go(h);
  } catch (std::bad_alloc const &) { got = true; }
  VC("C06", got == os_failed, "capture: a failing allocation is reported");
  VC("C06", n_munmap == (n_mprotect ? 1 : 0), "release: the stack is returned exactly once");
  finish();
}
