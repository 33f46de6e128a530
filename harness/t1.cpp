#include "vc.h"
#include <boost/context/fiber.hpp>
#include <boost/context/stack_context.hpp>
namespace ctx = boost::context;
struct A {
  ctx::stack_context allocate() { ctx::stack_context s; s.size = 65536; s.sp = (char*)__vc_region(65536,256,"ctxstack")+65536; return s; }
  void deallocate(ctx::stack_context& s) { __vc_free((char*)s.sp - s.size, "ctxstack", "C06"); }
};
static int runs;
extern "C" void unit_basic() {
  {
  ctx::fiber f(std::allocator_arg, A{}, [](ctx::fiber&& c){ runs++; c = std::move(c).resume(); runs++; return std::move(c); });
  VC("C05", runs==0, "not started");
  f = std::move(f).resume();
  VC("C05", runs==1, "started");
  if (__vc_choice(2,"x")) { f = std::move(f).resume();   VC("C05", runs==2 && !f, "fin"); }
  }
  __vc_leakcheck("C06");
  __vc_cover("end");
}
