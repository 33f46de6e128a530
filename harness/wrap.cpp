// The public entry points detail::jump_fcontext, ontop_fcontext and make_fcontext (src/fcontext.cpp) against a contract of
// the assembler primitives: each is called exactly once with exactly the given arguments, its result is returned unchanged,
// an exception thrown in the suspended context (an on-top function, an unwinding) passes through.
#include "vc.h"
#include <boost/context/detail/fcontext.hpp>
namespace d = boost::context::detail;
struct Thrown { int i; };
static int jumps, ontops, makes, throws;
// floating-point control settings: what the switching context uses, what the context it comes back to uses
static const unsigned long FP1 = 0x3f8000000c7ful, FP2 = 0x9f800000077ful;
static unsigned long fp_at, fp_back;
static void *a_to, *a_vp, *r_fctx, *r_data;
static std::size_t a_size;
static d::transfer_t (*a_fn)(d::transfer_t);
static void (*a_entry)(d::transfer_t);
extern "C" d::transfer_t jump_fcontext(d::fcontext_t const to, void *vp) {
  ++jumps;
  a_to = to;
  a_vp = vp;
  fp_at = __vc_fp();
  __vc_set_fp(fp_back);
  if (throws) throw Thrown{7};
  d::transfer_t t = {r_fctx, r_data};
  return t;
}
extern "C" d::transfer_t ontop_fcontext(d::fcontext_t const to, void *vp, d::transfer_t (*fn)(d::transfer_t)) {
  ++ontops;
  a_to = to;
  a_vp = vp;
  a_fn = fn;
  fp_at = __vc_fp();
  __vc_set_fp(fp_back);
  if (throws) throw Thrown{7};
  d::transfer_t t = {r_fctx, r_data};
  return t;
}
extern "C" d::fcontext_t make_fcontext(void *sp, std::size_t size, void (*fn)(d::transfer_t)) {
  ++makes;
  a_to = sp;
  a_size = size;
  a_entry = fn;
  fp_at = __vc_fp();
  return r_fctx;
}
static void *any(const char *n) { return reinterpret_cast<void *>(__vc_u64(n)); }
static d::transfer_t f1(d::transfer_t t) { return t; }
static d::transfer_t f2(d::transfer_t t) { t.data = 0; return t; }
static void e1(d::transfer_t) {}
static void e2(d::transfer_t t) { a_vp = t.data; }
static void setup() {
  jumps = ontops = makes = 0;
  a_to = a_vp = 0;
  a_fn = 0;
  a_entry = 0;
  a_size = 0;
  r_fctx = any("result handle");
  r_data = any("result data");
  fp_back = __vc_choice(2, "control settings") ? FP1 : FP2;
  __vc_set_fp(FP1);
  throws = __vc_choice(2, "the primitive is left by an exception");
}
extern "C" void unit_c02_jump() {
  setup();
  void *to = any("to"), *vp = any("data");
  try {
    d::transfer_t t = d::jump_fcontext(to, vp);
    VC("C01,C02", !throws, "jump_fcontext: an exception raised in the suspended context passes through");
    VC("C02", t.fctx == r_fctx, "jump_fcontext: the delivered handle is returned");
    VC("C02", t.data == r_data, "jump_fcontext: the delivered data is returned");
    __vc_cover("returns");
  } catch (Thrown const &e) {
    VC("C01,C02", throws && e.i == 7, "jump_fcontext: an exception raised in the suspended context passes through");
    __vc_cover("throws");
  }
  VC("C01,C02", jumps == 1 && ontops == 0 && makes == 0, "jump_fcontext: exactly one switch");
  VC("C02", a_to == to, "jump_fcontext: switches to the given context");
  VC("C02", a_vp == vp, "jump_fcontext: sends the given data");
  VC("C01", fp_at == FP1, "jump_fcontext: leaves the floating-point control settings of the suspended context alone");
  VC("C01", __vc_fp() == fp_back, "jump_fcontext: leaves the floating-point control settings of the resumed context alone");
}
extern "C" void unit_c02_ontop() {
  setup();
  void *to = any("to"), *vp = any("data");
  d::transfer_t (*fn)(d::transfer_t) = __vc_choice(2, "fn") ? f1 : f2;
  try {
    d::transfer_t t = d::ontop_fcontext(to, vp, fn);
    VC("C01,C02", !throws, "ontop_fcontext: an exception raised in the suspended context passes through");
    VC("C02", t.fctx == r_fctx, "ontop_fcontext: the delivered handle is returned");
    VC("C02", t.data == r_data, "ontop_fcontext: the delivered data is returned");
    __vc_cover("returns");
  } catch (Thrown const &e) {
    VC("C01,C02", throws && e.i == 7, "ontop_fcontext: an exception raised in the suspended context passes through");
    __vc_cover("throws");
  }
  VC("C01,C02", jumps == 0 && ontops == 1 && makes == 0, "ontop_fcontext: exactly one switch");
  VC("C02", a_to == to, "ontop_fcontext: switches to the given context");
  VC("C02", a_vp == vp, "ontop_fcontext: sends the given data");
  VC("C01", fp_at == FP1, "ontop_fcontext: leaves the floating-point control settings of the suspended context alone");
  VC("C01", __vc_fp() == fp_back, "ontop_fcontext: leaves the floating-point control settings of the resumed context alone");
  VC("C02", a_fn == fn, "ontop_fcontext: sends the given function");
}
extern "C" void unit_c02_make() {
  setup();
  void *sp = any("sp");
  std::size_t size = __vc_u64("size");
  void (*fn)(d::transfer_t) = __vc_choice(2, "fn") ? e1 : e2;
  d::fcontext_t h = d::make_fcontext(sp, size, fn);
  VC("C02,C03", jumps == 0 && ontops == 0 && makes == 1, "make_fcontext: makes exactly one context and switches to none");
  VC("C02,C03", h == r_fctx, "make_fcontext: the handle is returned");
  VC("C02,C03", a_to == sp && a_size == size, "make_fcontext: on exactly the given stack");
  VC("C01,C03", fp_at == FP1 && __vc_fp() == FP1, "make_fcontext: leaves the floating-point control settings alone");
  VC("C02,C03", a_entry == fn, "make_fcontext: with the given entry function");
  __vc_cover("returns");
}
