// Contracts of the Windows stack allocator (protected_fixedsize_stack) and of the Windows stack_traits, over a ghost
// operating system: VirtualAlloc & co. and GetSystemInfo have their documented contracts below.
#include <windows.h>
#include "vc.h"
#include <new>
#include <utility>
#include <boost/context/windows/protected_fixedsize_stack.hpp>
#include <boost/context/stack_traits.hpp>
namespace ctx = boost::context;
#if defined(VC_NATIVE)   // survives when the other variables of the harness are reset
#define OS_KEEP __attribute__((section("hkeep")))
#else
#define OS_KEEP
#endif
#define OS_LIMIT (std::size_t(1) << 46)  // no larger block can be obtained
OS_KEEP static DWORD os_page = 4096;
OS_KEEP static bool os_booted = false;
static bool os_fail;
static int n_alloc, n_protect, n_release;
static char *os_last;
static std::size_t os_last_n;
static bool os_last_guard, os_failed;
static std::size_t up(std::size_t n) { return (n + (os_page - 1)) & ~(std::size_t(os_page) - 1); }
extern "C" {
// reserves and commits whole pages at an address that is a multiple of the allocation granularity
LPVOID __wrap_VirtualAlloc(LPVOID hint, SIZE_T n, DWORD type, DWORD prot) {
  ++n_alloc;
  VC("", hint == nullptr, "win: fresh pages are asked for");
  VC("", (type & MEM_COMMIT) && !(type & ~(MEM_COMMIT | MEM_RESERVE | MEM_TOP_DOWN)), "win: the pages are committed");
  VC("", prot == PAGE_READWRITE, "win: a stack is readable and writable");
  if (n == 0 || n >= OS_LIMIT || (os_fail && __vc_choice(2, "VirtualAlloc fails"))) { os_failed = true; return nullptr; }
  os_last_n = up(n);
  os_last_guard = false;
  return os_last = static_cast<char *>(__vc_region(os_last_n, os_page < 65536 ? 65536 : os_page, "mapping"));
}
BOOL __wrap_VirtualProtect(LPVOID p, SIZE_T n, DWORD prot, PDWORD old) {
  ++n_protect;
  VC("C23", __vc_live(p) && __vc_region_base(p) == p, "guard: the lowest page is protected");
  VC("C23", n > 0 && n <= os_page, "guard: exactly one page is protected");
  VC("C23", prot == PAGE_NOACCESS || (prot & PAGE_GUARD), "guard: an access of the guard page raises an exception");
  VC("C23", old != nullptr, "guard: the old protection is stored somewhere");
  if (os_fail && __vc_choice(2, "VirtualProtect fails")) { os_failed = true; return FALSE; }
  *old = PAGE_READWRITE;
  __vc_protect(p, os_page, 0);
  os_last_guard = true;
  return TRUE;
}
BOOL __wrap_VirtualFree(LPVOID p, SIZE_T n, DWORD type) {
  ++n_release;
  VC("C23", type == MEM_RELEASE && n == 0, "guard: the whole reservation is released");
  VC("C23", __vc_live(p) && __vc_region_base(p) == p, "guard: deallocation releases exactly that block");
  __vc_free(p, "mapping", "C23");
  return TRUE;
}
void __wrap_GetSystemInfo(LPSYSTEM_INFO si) {
  si->wProcessorArchitecture = 9;
  si->wReserved = 0;
  si->dwPageSize = os_page;
  si->lpMinimumApplicationAddress = reinterpret_cast<LPVOID>(0x10000);
  si->lpMaximumApplicationAddress = reinterpret_cast<LPVOID>(0x7ffffffeffff);
  si->dwActiveProcessorMask = 1;
  si->dwNumberOfProcessors = 1;
  si->dwProcessorType = 8664;
  si->dwAllocationGranularity = 65536;
  si->wProcessorLevel = si->wProcessorRevision = 0;
}
void __wrap_GetNativeSystemInfo(LPSYSTEM_INFO si) { __wrap_GetSystemInfo(si); }
}
static void any_page() {
  static const DWORD pages[] = {4096, 8192, 16384, 65536, 2097152};
  if (!os_booted) { os_page = pages[__vc_choice(5, "page size")]; os_booted = true; }
}
static char *base(ctx::stack_context const &c) { return static_cast<char *>(c.sp) - c.size; }
template <class S>
static void guarded(S &s, std::size_t n, S *d) {
  bool threw = false;
  try {
    ctx::stack_context c = s.allocate();
    VC("C23", !os_failed && n_alloc == 1 && n_release == 0, "guard: exactly one block is obtained");
    VC("C23", base(c) == os_last && c.size == os_last_n, "guard: the descriptor covers exactly the block");
    VC("C23", n_protect == 1 && os_last_guard, "guard: the lowest page is protected");
    VC("C23", c.size >= os_page && c.size - os_page >= n, "guard: the rest is at least as large as requested");
    VC("C23", c.size - os_page - n < os_page, "guard: no more than the rounding is added");
    char *b = base(c);
    if (c.size > os_page) {
      b[os_page] = 1;
      b[c.size - 1] = 2;
      VC("C23", b[c.size - 1] == 2, "guard: holds what is written");
    }
    ctx::stack_context c2(c);
    d->deallocate(c2);
    VC("C23", n_release == 1 && !__vc_live(os_last), "guard: deallocation releases exactly that block");
  } catch (std::bad_alloc const &) { threw = true; }
  VC("C23", !(os_failed && !threw), "guard: a failing system call is reported");
  VC("C23", !(threw && !os_failed && n <= OS_LIMIT), "guard: std::bad_alloc is thrown only if no memory can be obtained");
  __vc_leakcheck("C23");
}
extern "C" void unit_c23_any_size() {
  std::size_t n = __vc_u64("size");
  any_page();
  os_fail = true;
  ctx::protected_fixedsize_stack s(n);
  guarded(s, n, &s);
}
extern "C" void unit_c23_copy() {
  std::size_t n = __vc_u64("size");
  os_fail = true;
  ctx::protected_fixedsize_stack s(n);
  ctx::protected_fixedsize_stack t(s);
  s = ctx::protected_fixedsize_stack(1);
  guarded(t, n, &s);
}
extern "C" void unit_c23_default() {
  any_page();
  os_fail = true;
  ctx::protected_fixedsize_stack s;
  guarded(s, 131072, &s);
}
extern "C" void unit_c23_two() {
  std::size_t n = __vc_u64("size"), m = __vc_u64("size 2");
  __vc_assume(n > 0 && m > 0 && n < OS_LIMIT / 2 && m < OS_LIMIT / 2);
  any_page();
  ctx::protected_fixedsize_stack s(n), t(m);
  ctx::stack_context a = s.allocate();
  ctx::stack_context b = t.allocate();
  VC("C23", base(a) != base(b), "guard: every allocation is a fresh block");
  base(a)[os_page] = 11;
  base(b)[b.size - 1] = 22;
  s.deallocate(a);
  VC("C23", n_release == 1 && __vc_live(base(b)) && base(b)[b.size - 1] == 22, "guard: deallocation releases exactly that block");
  t.deallocate(b);
  VC("C23", n_release == 2, "guard: deallocation releases exactly that block");
  __vc_leakcheck("C23");
}
extern "C" void unit_c23_traits() {
  any_page();
  std::size_t page = os_page;
  int first = __vc_choice(3, "first call");
  if (first == 1) VC("C23", ctx::stack_traits::is_unbounded(), "traits: the stack size is not limited");
  if (first == 2) VC("C23", ctx::stack_traits::minimum_size() > 0, "traits: minimum_size is positive");
  std::size_t mini = ctx::stack_traits::minimum_size();
  for (int i = 0; i < 2; ++i) {
    VC("C23", ctx::stack_traits::is_unbounded(), "traits: the stack size is not limited");
    VC("C23", ctx::stack_traits::page_size() == page, "traits: page_size is the system page size");
    VC("C23", ctx::stack_traits::default_size() == 131072, "traits: default_size is 128 KiB");
    VC("C23", ctx::stack_traits::minimum_size() == 8192 && mini == 8192, "traits: minimum_size is 8 KiB");
    os_page = os_page * 2;   // the answer is asked for once
  }
  os_page = static_cast<DWORD>(page);
  VC("C23", noexcept(ctx::stack_traits::is_unbounded()) && noexcept(ctx::stack_traits::maximum_size()) &&
                noexcept(ctx::stack_traits::page_size()) && noexcept(ctx::stack_traits::default_size()) &&
                noexcept(ctx::stack_traits::minimum_size()), "traits: nothing throws");
}
