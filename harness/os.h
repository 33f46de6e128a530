// Ghost operating system: contracts of the C library functions that the stack allocators call.  The verified code
// calls malloc & co.; both the VC generator and (natively) the linker's --wrap direct the calls here.
#ifndef VC_OS_H
#define VC_OS_H
#include "vc.h"
#include <cerrno>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#define OS_LIMIT (std::size_t(1) << 46)  // no larger block can be obtained
#if defined(VC_NATIVE)   // survives when the other variables of the harness are reset
#define OS_KEEP __attribute__((section("hkeep")))
#else
#define OS_KEEP
#endif
static bool os_fail;                       // calls may fail
OS_KEEP static unsigned long os_page = 4096;
OS_KEEP static bool os_booted = false;     // the page size was chosen
static long os_minsig = 2048, os_sig = 8192;
static unsigned long os_rlim_max = RLIM_INFINITY, os_rlim_cur = RLIM_INFINITY;
static int n_malloc, n_free, n_mmap, n_munmap, n_mprotect, n_sysconf, n_getrlimit;
static char *os_last;                      // the block obtained last
static std::size_t os_last_n;
static bool os_last_guard;
static bool os_failed;                     // the last obtaining call failed
extern "C" {
void *__wrap_malloc(std::size_t n) {
  ++n_malloc;
  if (n >= OS_LIMIT || (os_fail && __vc_choice(2, "malloc fails"))) { os_failed = true; return nullptr; }
  os_last_n = n;
  return os_last = static_cast<char *>(__vc_region(n, 16, "malloc"));
}
void *__wrap_calloc(std::size_t a, std::size_t b) { return __wrap_malloc(a * b); }
void __wrap_free(void *p) {
  if (!p) return;
  ++n_free;
  __vc_free(p, "malloc", "");
}
int __wrap_posix_memalign(void **out, std::size_t al, std::size_t n) {
  ++n_malloc;
  VC("", al && (al & (al - 1)) == 0 && al % sizeof(void *) == 0, "os: the alignment is valid");
  if (n >= OS_LIMIT || (os_fail && __vc_choice(2, "posix_memalign fails"))) { os_failed = true; return ENOMEM; }
  os_last_n = n;
  *out = os_last = static_cast<char *>(__vc_region(n, al, "malloc"));
  return 0;
}
void *__wrap_mmap(void *hint, std::size_t n, int prot, int flags, int fd, off_t off) {
  ++n_mmap;
  VC("", flags & MAP_ANONYMOUS, "os: a stack is anonymous memory");
  VC("", flags & MAP_PRIVATE, "os: a stack is private memory");
  VC("", prot == (PROT_READ | PROT_WRITE), "os: a stack is readable and writable");
  bool fail = n == 0 || n >= OS_LIMIT || (os_fail && __vc_choice(2, "mmap fails"));
  if (flags & MAP_FIXED) {  // replaces whole pages of existing memory
    std::size_t len = (n + (os_page - 1)) & ~(os_page - 1);
    std::size_t off = static_cast<std::size_t>(static_cast<char *>(hint) - static_cast<char *>(__vc_region_base(hint)));
    VC("", __vc_live(hint), "os: no mapping is placed over foreign memory");
    VC("", (reinterpret_cast<unsigned long>(hint) & (os_page - 1)) == 0, "os: a mapping is placed at a page boundary");
    VC("", fail || (len <= __vc_region_size(hint) && off <= __vc_region_size(hint) - len), "os: no mapping is placed over foreign memory (end)");
    if (fail) { errno = ENOMEM; os_failed = true; return MAP_FAILED; }
    return hint;
  }
  if (fail) { errno = ENOMEM; os_failed = true; return MAP_FAILED; }
  os_last_n = n;
  os_last_guard = false;
  return os_last = static_cast<char *>(__vc_region(n, os_page, "mapping"));
}
int __wrap_munmap(void *p, std::size_t n) {
  ++n_munmap;
  VC("", __vc_region_base(p) == p && __vc_region_size(p) == n, "os: exactly the whole mapping is unmapped");
  __vc_free(p, "mapping", "");
  return 0;
}
int __wrap_mprotect(void *p, std::size_t n, int prot) {
  ++n_mprotect;
  VC("C11", (reinterpret_cast<unsigned long>(p) & (os_page - 1)) == 0, "guard: the protected range is page aligned");
  VC("C11", __vc_live(p) && __vc_region_base(p) == p, "guard: the lowest page of the mapping is protected");
  VC("C11", n == os_page && n <= __vc_region_size(p), "guard: exactly one page is protected");
  VC("C11", prot == PROT_NONE, "guard: the guard page is not accessible at all");
  if (os_fail && __vc_choice(2, "mprotect fails")) { errno = ENOMEM; os_failed = true; return -1; }
  __vc_protect(p, n, 0);
  os_last_guard = true;
  return 0;
}
long __wrap_sysconf(int name) {
  ++n_sysconf;
  if (name == _SC_PAGESIZE) return static_cast<long>(os_page);
#if defined(_SC_MINSIGSTKSZ)
  if (name == _SC_MINSIGSTKSZ) return os_minsig;
  if (name == _SC_SIGSTKSZ) return os_sig;
#endif
  return -1;
}
int __wrap_getpagesize() { return static_cast<int>(os_page); }
int __wrap_getrlimit(int what, struct rlimit *l) {
  ++n_getrlimit;
  VC("C14", what == RLIMIT_STACK, "traits: the stack limit is asked for");
  l->rlim_cur = os_rlim_cur;
  l->rlim_max = os_rlim_max;
  return 0;
}
}
#endif
