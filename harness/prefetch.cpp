// Contract of detail::prefetch_range().
#include "vc.h"
#if defined(VC_NATIVE)
extern "C" void vc_on_prefetch(const void *);
#define __builtin_prefetch(p, ...) vc_on_prefetch(p)
#endif
#include <boost/context/detail/prefetch.hpp>
namespace d = boost::context::detail;
typedef unsigned long u64;
static u64 first, last, expected;  // [first, last) is the range, expected the next address
static u64 count;
static const u64 STRIDE = static_cast<u64>(prefetch_stride);
extern "C" void vc_on_prefetch(const void *q) {
  u64 p = reinterpret_cast<u64>(q);
  VC("C19", p >= first && p < last, "prefetch: only addresses inside the range");
  VC("C19", p == expected, "prefetch: starts at the begin of the range and advances by the stride");
  expected += STRIDE;
  ++count;
}
static void range(void *a, u64 n) {
  first = expected = reinterpret_cast<u64>(a);
  last = first + n;
  __vc_loops("C19");
  d::prefetch_range(a, n);
  if (n == 0) VC("C19", count == 0, "prefetch: none for an empty range");
  VC("C19", expected >= last, "prefetch: every stride of the range is covered");
  VC("C19", n == 0 || count >= 1, "prefetch: every stride of the range is covered");
}
// any address and length of an object (the range ends at least one stride below the end of the address space)
extern "C" void unit_c19_any() {
  u64 a = __vc_u64("addr"), n = __vc_u64("len");
  __vc_assume(n < (1ul << 47) && a < (1ul << 62));
  range(reinterpret_cast<void *>(a), n);
}
extern "C" void unit_c19_empty() {
  u64 a = __vc_u64("addr");
  __vc_assume(a < (1ul << 62));
  range(reinterpret_cast<void *>(a), 0);
  VC("C19", count == 0, "prefetch: none for an empty range");
}
// the memory is not accessed: it could not be
extern "C" void unit_c19_no_access() {
  u64 n = __vc_u64("len");
  __vc_assume(n >= 4096 && n < (1ul << 20));
  char *p = static_cast<char *>(__vc_region(n, 4096, "mapping"));
  __vc_assume(reinterpret_cast<u64>(p) < (1ul << 62));
  __vc_protect(p, n, 0);
  u64 k = __vc_u64("offset"), l = __vc_u64("range");
  __vc_assume(k < n && l <= n - k);
  range(p + k, l);
  __vc_free(p, "mapping", "");
}
// the same for short ranges: the failing input, if there is one, is quick to replay
extern "C" void unit_c19_short() {
  u64 a = __vc_u64("addr"), n = __vc_u64("len");
  __vc_assume(n < 4096 && a < (1ul << 40));
  range(reinterpret_cast<void *>(a), n);
}
