// pooled_fixedsize_stack together with the real boost::pool over the ghost operating system (concrete sizes).
#include "os.h"
#include <boost/context/pooled_fixedsize_stack.hpp>
namespace ctx = boost::context;
typedef ctx::pooled_fixedsize_stack S;
static char *base(ctx::stack_context const &c) { return static_cast<char *>(c.sp) - c.size; }
static void run(std::size_t n, std::size_t next, std::size_t max) {
  os_fail = true;
  {
    S s(n, next, max);
    S t(s);
    ctx::stack_context c[5];
    for (int i = 0; i < 5; ++i) {
      int failed = os_failed;
      os_failed = false;
      try {
        c[i] = (i & 1 ? s : t).allocate();
      } catch (std::bad_alloc const &) {
        VC("C12", os_failed, "pool: std::bad_alloc is thrown only if the pool cannot grow");
        for (int k = 0; k < i; ++k) VC("C12", base(c[k])[n / 2] == k, "pool: chunks do not overlap");
        for (int k = 0; k < i; ++k) (k & 1 ? t : s).deallocate(c[k]);
        return;
      }
      (void)failed;
      VC("C12", c[i].size == n, "pool: a stack has the configured size");
      char *b = base(c[i]), *rb = static_cast<char *>(__vc_region_base(b));
      VC("C12", __vc_live(b) && std::size_t(b - rb) + n <= __vc_region_size(b), "pool: [sp-size, sp) lies inside the memory obtained");
      b[0] = i; b[n - 1] = i; b[n / 2] = i;
    }
    for (int i = 0; i < 5; ++i) VC("C12", base(c[i])[n / 2] == i && base(c[i])[0] == i && base(c[i])[n - 1] == i, "pool: chunks do not overlap");
    char *b2 = base(c[2]);
    s.deallocate(c[2]);
    VC("C12", __vc_live(b2), "pool: chunks are kept by the pool");
    ctx::stack_context d = t.allocate();
    VC("C12", base(d) == b2, "pool: a chunk given back is used again");
    t.deallocate(d);
    for (int i = 0; i < 5; ++i)
      if (i != 2) t.deallocate(c[i]);
  }
  VC("C12", n_malloc == n_free || os_fail, "pool: its memory is released with the last copy");
  __vc_leakcheck("C12");
}
extern "C" void unit_c12_real_page() { run(4096, 2, 0); }
extern "C" void unit_c12_real_odd() { run(1001, 3, 4); }
extern "C" void unit_c12_real_one() { run(8, 1, 1); }
#if defined(BOOST_CONTEXT_USE_MAP_STACK)
extern "C" void unit_c12_map_alloc() {  // the block allocator of this flavour, any size
  typedef ctx::detail::map_stack_allocator<ctx::stack_traits> A;
  os_fail = true;
  static const unsigned long pages[] = {4096, 8192, 16384, 65536};
  if (!os_booted) { os_page = pages[__vc_choice(4, "page size")]; os_booted = true; }
  std::size_t n = __vc_u64("bytes");
  __vc_assume(n > 0);
  char *p = A::malloc(n);
  VC("C12", (p == nullptr) == (os_failed || n > OS_LIMIT), "pool: a block is obtained unless the system refuses");
  if (p) {
    VC("C12", p == os_last && os_last_n >= n && n_malloc == 1, "pool: the block is large enough");
    p[0] = 1;
    p[n - 1] = 2;
    A::free(p);
    VC("C12", n_free == 1, "pool: the block is given back");
  }
  __vc_leakcheck("C12");
}
#endif
