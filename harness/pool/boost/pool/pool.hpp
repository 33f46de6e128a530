// Contract of boost::pool (a dependency, not verified here): what pooled_fixedsize_stack may assume and must respect.
#ifndef VC_POOL_HPP
#define VC_POOL_HPP
#include "vc.h"
#include <cstddef>
extern bool pool_may_fail;
extern int pools_made, pools_dead;
extern std::size_t pool_size, pool_next, pool_max;
namespace boost {
struct default_user_allocator_new_delete { typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; };
struct default_user_allocator_malloc_free { typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; };
template <class UA>
class pool {
  void *tag_;  // ghost: the block that stands for this pool
  std::size_t n_;
 public:
  typedef UA user_allocator;
  typedef typename UA::size_type size_type;
  typedef typename UA::difference_type difference_type;
  explicit pool(size_type n, size_type next = 32, size_type max = 0) : tag_(__vc_region(8, 8, "pool")), n_(n) {
    VC("", next > 0, "pool: precondition of boost::pool: the next size is positive");
    ++pools_made;
    pool_size = n;
    pool_next = next;
    pool_max = max;
  }
  pool(pool const &) = delete;
  pool &operator=(pool const &) = delete;
  ~pool() {
    VC("C12", __vc_live(tag_), "pool: it is destroyed only once");
    ++pools_dead;
    __vc_free(tag_, "pool", "C12");
  }
  void *malloc() {
    VC("C12", __vc_live(tag_), "pool: no use after its destruction");
    if (pool_may_fail && __vc_choice(2, "the pool cannot grow")) return nullptr;
    return __vc_region(n_, 1, "chunk");
  }
  void *ordered_malloc() { return malloc(); }
  void free(void *const p) {
    VC("C12", __vc_live(tag_), "pool: no use after its destruction");
    VC("C12", __vc_region_size(p) == n_, "pool: a chunk is given back to the pool it came from");
    __vc_free(p, "chunk", "C12");
  }
  void ordered_free(void *const p) { free(p); }
  size_type get_requested_size() const { return n_; }
};
}
#endif
