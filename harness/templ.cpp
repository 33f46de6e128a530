// detail::invoke, detail::apply, detail::exchange and the tuple views: observed calls, identities and values.
#include "vc.h"
#include <boost/context/detail/apply.hpp>
#include <boost/context/detail/exchange.hpp>
#include <boost/context/detail/invoke.hpp>
#include <boost/context/detail/tuple.hpp>
#include <array>
#include <functional>
#include <tuple>
#include <type_traits>
namespace d = boost::context::detail;
#define T15(c, n) VC("C15", c, n)
#define T16(c, n) VC("C16", c, n)
typedef unsigned long u64;
static int calls;
static const void *self, *arg[4];
static int cat[4], selfcat;   // 0 &, 1 const&, 2 &&, 3 const&&
static u64 val[4];
template <class A> struct catof;
template <class A> struct catof<A &> { enum { v = std::is_const<A>::value ? 1 : 0 }; };
template <class A> struct catof<A &&> { enum { v = std::is_const<A>::value ? 3 : 2 }; };
struct Arg {  // an argument whose copies and moves are counted
  u64 v;
  static int copies, moves;
  explicit Arg(u64 x) : v(x) {}
  Arg(Arg const &o) : v(o.v) { ++copies; }
  Arg(Arg &&o) : v(o.v) { o.v = 0; ++moves; }
  Arg &operator=(Arg const &o) { v = o.v; ++copies; return *this; }
  Arg &operator=(Arg &&o) { v = o.v; if (this != &o) o.v = 0; ++moves; return *this; }
  u64 mem(u64 k) & { ++calls; self = this; selfcat = 0; return v + k; }
  u64 mem(u64 k) const & { ++calls; self = this; selfcat = 1; return v + 2 * k; }
  u64 mem(u64 k) && { ++calls; self = this; selfcat = 2; return v + 3 * k; }
  u64 cm(u64 k) const { ++calls; self = this; return v + k; }
  u64 &ref(u64 &k) { ++calls; self = this; arg[0] = &k; return k; }
  void none() { ++calls; self = this; v = 77; }
  virtual u64 virt(u64 k) { ++calls; self = this; return v ^ k; }
  virtual ~Arg() {}
};
int Arg::copies, Arg::moves;
struct Derived : Arg {
  u64 pad;
  explicit Derived(u64 x) : Arg(x), pad(1) {}
  u64 virt(u64 k) override { ++calls; self = this; return v & k; }
};
struct Only {  // move-only
  u64 v;
  explicit Only(u64 x) : v(x) {}
  Only(Only &&o) : v(o.v) { o.v = 0; ++Arg::moves; }
  Only &operator=(Only &&o) { u64 t = o.v; o.v = 0; v = t; ++Arg::moves; return *this; }
};
template <int N> static void note() {}
template <int N, class A, class... R> static void note(A &&a, R &&...r) {
  arg[N] = &a;
  cat[N] = catof<A &&>::v;
  val[N] = a.v;
  note<N + 1>(std::forward<R>(r)...);
}
struct F {
  u64 k;
  template <class... A> u64 operator()(A &&...a) & { ++calls; self = this; selfcat = 0; note<0>(std::forward<A>(a)...); return k; }
  template <class... A> u64 operator()(A &&...a) const & { ++calls; self = this; selfcat = 1; note<0>(std::forward<A>(a)...); return k + 1; }
  template <class... A> u64 operator()(A &&...a) && { ++calls; self = this; selfcat = 2; note<0>(std::forward<A>(a)...); return k + 2; }
  template <class... A> u64 operator()(A &&...a) const && { ++calls; self = this; selfcat = 3; note<0>(std::forward<A>(a)...); return k + 3; }
};
static void reset() {
  calls = 0; self = nullptr; selfcat = -1; Arg::copies = Arg::moves = 0;
  for (int i = 0; i < 4; ++i) { arg[i] = nullptr; cat[i] = -1; val[i] = 0; }
}
static void once() { T15(calls == 1, "call: exactly once"); }
static void intact() { T15(Arg::copies == 0 && Arg::moves == 0, "call: arguments are passed on, not copied"); }
template <class... A> static void three(A const &...) {}
static void seen(int i, Arg const &a, int c, u64 v) {
  T15(arg[i] == &a, "call: exactly the given argument");
  T15(cat[i] == c, "call: the value category of the argument");
  T15(val[i] == v && a.v == v, "call: the value of the argument");
}
// ---------------------------------------------------------------------------------------------- invoke
extern "C" void unit_c15_invoke_object() {
  u64 x = __vc_u64("x"), y = __vc_u64("y"), z = __vc_u64("z"), k = __vc_u64("k");
  Arg a(x), b(y), c(z);
  Arg const cc(z);
  F f{k};
  F const cf{k};
  reset();
  T15(d::invoke(f, a, std::move(b), cc) == k, "call: its result is returned");
  once(); intact(); T15(self == &f && selfcat == 0, "call: identity and category of the callable");
  seen(0, a, 0, x); seen(1, b, 2, y); seen(2, cc, 1, z);
  reset();
  T15(d::invoke(cf, std::move(c), static_cast<Arg const &&>(a)) == k + 1, "call: its result is returned");
  once(); intact(); T15(self == &cf && selfcat == 1, "call: identity and category of the callable");
  seen(0, c, 2, z); seen(1, a, 3, x);
  reset();
  T15(d::invoke(std::move(f), b) == k + 2, "call: its result is returned");
  once(); intact(); T15(self == &f && selfcat == 2, "call: identity and category of the callable");
  seen(0, b, 0, y);
  reset();
  T15(d::invoke(std::move(cf)) == k + 3, "call: its result is returned");
  once(); T15(self == &cf && selfcat == 3, "call: identity and category of the callable");
}
static u64 fun(u64 a, u64 b) { ++calls; return a - b; }
static u64 &fref(u64 &a) { ++calls; arg[0] = &a; return a; }
static u64 const &fcref(u64 const &a) { ++calls; arg[0] = &a; return a; }
static u64 &&frv(u64 &&a) { ++calls; arg[0] = &a; return std::move(a); }
static void fvoid(u64 *p, u64 v) { ++calls; *p = v; }
static Only fonly(Only o) { ++calls; ++o.v; return o; }
static Only fonlyr(Only &&o) { ++calls; arg[0] = &o; return std::move(o); }
extern "C" void unit_c15_invoke_function() {
  u64 x = __vc_u64("x"), y = __vc_u64("y");
  u64 x0 = x;
  reset();
  T15(d::invoke(fun, x, y) == x - y, "call: its result is returned"); once();
  reset();
  u64 (*fp)(u64, u64) = fun;
  T15(d::invoke(fp, y, x) == y - x, "call: its result is returned"); once();
  reset();
  T15(&d::invoke(fref, x) == &x && arg[0] == &x, "call: a reference result stays a reference"); once();
  static_assert(std::is_same<decltype(d::invoke(fref, x)), u64 &>::value, "");
  reset();
  T15(&d::invoke(fcref, x) == &x && arg[0] == &x, "call: a reference result stays a reference"); once();
  static_assert(std::is_same<decltype(d::invoke(fcref, x)), u64 const &>::value, "");
  reset();
  u64 &&r = d::invoke(frv, std::move(x));
  T15(&r == &x, "call: a reference result stays a reference"); once();
  static_assert(std::is_same<decltype(d::invoke(frv, std::move(x))), u64 &&>::value, "");
  reset();
  u64 out = 0;
  d::invoke(fvoid, &out, y);
  T15(out == y, "call: a void function is called"); once();
  static_assert(std::is_same<decltype(d::invoke(fvoid, &out, y)), void>::value, "");
  reset();
  Only o(y);
  Only q = d::invoke(fonly, std::move(o));
  T15(q.v == y + 1 && o.v == 0, "call: a move-only argument is moved"); once();
  reset();
  Only p(x0);
  Only w = d::invoke(fonlyr, std::move(p));
  T15(w.v == x0 && arg[0] == &p, "call: exactly the given argument"); once();
  T15(x == x0, "call: nothing else changes");
}
extern "C" void unit_c15_invoke_member() {
  u64 x = __vc_u64("x"), k = __vc_u64("k");
  Arg a(x);
  Arg const ca(x);
  reset();
  T15(d::invoke(&Arg::cm, a, k) == x + k && self == &a, "call: a member function on an object"); once(); intact();
  reset();
  T15(d::invoke(&Arg::cm, ca, k) == x + k && self == &ca, "call: a member function on an object"); once(); intact();
  reset();
  T15(d::invoke(&Arg::cm, &a, k) == x + k && self == &a, "call: a member function through a pointer"); once(); intact();
  reset();
  T15(d::invoke(&Arg::cm, std::move(a), k) == x + k && self == &a, "call: a member function on an object"); once(); intact();
  reset();
  u64 (Arg::*m0)(u64) & = &Arg::mem;
  T15(d::invoke(m0, a, k) == x + k && self == &a && selfcat == 0, "call: value category of the object"); once(); intact();
  reset();
  u64 (Arg::*m1)(u64) const & = &Arg::mem;
  T15(d::invoke(m1, ca, k) == x + 2 * k && self == &ca && selfcat == 1, "call: value category of the object"); once(); intact();
  reset();
  u64 (Arg::*m2)(u64) && = &Arg::mem;
  T15(d::invoke(m2, std::move(a), k) == x + 3 * k && self == &a && selfcat == 2, "call: value category of the object"); once(); intact();
  reset();
  u64 t = k;
  T15(&d::invoke(&Arg::ref, a, t) == &t && arg[0] == &t, "call: a reference result stays a reference"); once(); intact();
  reset();
  u64 (Arg::*const m3)(u64) const = &Arg::cm;
  T15(d::invoke(m3, a, k) == x + k, "call: a const pointer to member"); once();
  reset();
  d::invoke(&Arg::none, a);
  T15(a.v == 77 && self == &a, "call: a void member function is called"); once(); intact();
}
extern "C" void unit_c15_invoke_virtual() {
  u64 x = __vc_u64("x"), k = __vc_u64("k");
  Derived e(x);
  Arg a(x);
  reset();
  T15(d::invoke(&Arg::virt, static_cast<Arg &>(e), k) == (x & k) && self == &e, "call: a virtual member function"); once(); intact();
  reset();
  T15(d::invoke(&Arg::virt, &a, k) == (x ^ k) && self == &a, "call: a virtual member function"); once(); intact();
  reset();
  T15(d::invoke(&Arg::cm, e, k) == x + k && self == &e, "call: a member function of a base class"); once(); intact();
}
extern "C" void unit_c15_invoke_data() {
  u64 x = __vc_u64("x"), y = __vc_u64("y");
  Arg a(x);
  Arg const ca(y);
  reset();
  T15(&d::invoke(&Arg::v, a) == &a.v, "call: a data member of an object");
  static_assert(std::is_same<decltype(d::invoke(&Arg::v, a)), u64 &>::value, "");
  T15(&d::invoke(&Arg::v, ca) == &ca.v, "call: a data member of an object");
  static_assert(std::is_same<decltype(d::invoke(&Arg::v, ca)), u64 const &>::value, "");
  T15(&d::invoke(&Arg::v, &a) == &a.v, "call: a data member through a pointer");
  u64 &&r = d::invoke(&Arg::v, std::move(a));
  T15(&r == &a.v, "call: a data member of an rvalue");
  static_assert(std::is_same<decltype(d::invoke(&Arg::v, std::move(a))), u64 &&>::value, "");
  d::invoke(&Arg::v, a) = y;
  T15(a.v == y, "call: a data member is assignable");
  intact();
}
struct Ex { u64 v; };
struct Thrower {
  u64 k;
  u64 operator()(Arg &a, Only o) { ++calls; a.v = k; throw Ex{k + o.v}; }
};
extern "C" void unit_c15_throw() {
  u64 x = __vc_u64("x"), k = __vc_u64("k");
  Arg a(x);
  Thrower t{k};
  for (int i = 0; i < 2; ++i) {
    reset();
    u64 got = 0;
    bool caught = false;
    try {
      if (i) d::apply(t, std::tuple<Arg &, Only>(a, Only(x)));
      else d::invoke(t, a, Only(x));
    } catch (Ex const &e) { caught = true; got = e.v; }
    T15(caught && got == k + x, "call: its exception is passed on");
    once();
    T15(a.v == k, "call: exactly the given argument");
  }
  __vc_leakcheck("C15");
}
// ---------------------------------------------------------------------------------------------- apply
extern "C" void unit_c15_apply_object() {
  u64 x = __vc_u64("x"), y = __vc_u64("y"), z = __vc_u64("z"), k = __vc_u64("k");
  F f{k};
  F const cf{k};
  std::tuple<Arg, Arg, Arg> t{Arg(x), Arg(y), Arg(z)};
  std::tuple<Arg, Arg, Arg> const ct{Arg(x), Arg(y), Arg(z)};
  Arg &a = std::get<0>(t), &b = std::get<1>(t), &c = std::get<2>(t);
  Arg const &ca = std::get<0>(ct), &cb = std::get<1>(ct), &cc = std::get<2>(ct);
  reset();
  T15(d::apply(f, t) == k, "call: its result is returned");
  once(); intact(); T15(self == &f && selfcat == 0, "call: identity and category of the callable");
  seen(0, a, 0, x); seen(1, b, 0, y); seen(2, c, 0, z);
  reset();
  T15(d::apply(cf, ct) == k + 1, "call: its result is returned");
  once(); intact(); T15(self == &cf && selfcat == 1, "call: identity and category of the callable");
  seen(0, ca, 1, x); seen(1, cb, 1, y); seen(2, cc, 1, z);
  reset();
  T15(d::apply(std::move(f), std::move(t)) == k + 2, "call: its result is returned");
  once(); intact(); T15(self == &f && selfcat == 2, "call: identity and category of the callable");
  seen(0, a, 2, x); seen(1, b, 2, y); seen(2, c, 2, z);
  reset();
  T15(d::apply(std::move(cf), std::tuple<>()) == k + 3, "call: an empty tuple");
  once(); T15(selfcat == 3, "call: identity and category of the callable");
}
extern "C" void unit_c15_apply_refs() {
  u64 x = __vc_u64("x"), y = __vc_u64("y"), z = __vc_u64("z"), k = __vc_u64("k");
  F f{k};
  Arg a(x), b(y);
  Arg const c(z);
  reset();
  T15(d::apply(f, std::tuple<Arg &, Arg &&, Arg const &>(a, std::move(b), c)) == k, "call: its result is returned");
  once(); intact();
  seen(0, a, 0, x); seen(1, b, 2, y); seen(2, c, 1, z);
  reset();
  T15(d::apply(f, std::forward_as_tuple(std::move(b), a)) == k, "call: its result is returned");
  once(); intact(); seen(0, b, 2, y); seen(1, a, 0, x);
  reset();
  std::pair<Arg, Arg> p{Arg(x), Arg(y)};
  Arg::copies = Arg::moves = 0;
  T15(d::apply(f, p) == k, "call: a pair");
  once(); intact(); seen(0, p.first, 0, x); seen(1, p.second, 0, y);
  reset();
  std::array<Arg, 2> ar{{Arg(z), Arg(x)}};
  Arg::copies = Arg::moves = 0;
  T15(d::apply(f, std::move(ar)) == k, "call: an array");
  once(); intact(); seen(0, ar[0], 2, z); seen(1, ar[1], 2, x);
}
static u64 four(u64 a, u64 b, u64 c, u64 e) { ++calls; return a + 3 * b + 5 * c + 7 * e; }
extern "C" void unit_c15_apply_function() {
  u64 x = __vc_u64("x"), y = __vc_u64("y"), z = __vc_u64("z"), w = __vc_u64("w");
  std::tuple<u64, u64, u64, u64> t(x, y, z, w);
  reset();
  T15(d::apply(four, t) == x + 3 * y + 5 * z + 7 * w, "call: the elements in order"); once();
  reset();
  T15(d::apply(&four, std::move(t)) == x + 3 * y + 5 * z + 7 * w, "call: the elements in order"); once();
  reset();
  T15(&d::apply(fref, std::tuple<u64 &>(x)) == &x, "call: a reference result stays a reference"); once();
  static_assert(std::is_same<decltype(d::apply(fref, std::tuple<u64 &>(x))), u64 &>::value, "");
  reset();
  Only r = d::apply(fonly, std::tuple<Only>(Only(y)));
  T15(r.v == y + 1, "call: a move-only element is moved"); once();
  reset();
  u64 out = 0;
  d::apply(fvoid, std::make_tuple(&out, z));
  T15(out == z, "call: a void function is called"); once();
  Arg a(x);
  reset();
  T15(d::apply(&Arg::cm, std::forward_as_tuple(a, y)) == x + y && self == &a, "call: a member function on an element"); once(); intact();
  reset();
  T15(d::apply(&Arg::cm, std::make_tuple(&a, y)) == x + y && self == &a, "call: a member function through a pointer element"); once(); intact();
  reset();
  T15(&d::apply(&Arg::v, std::tuple<Arg &>(a)) == &a.v, "call: a data member of an element");
}
// ---------------------------------------------------------------------------------------------- exchange
struct Conv { u64 v; };
struct Val {  // assignable from another type
  u64 v;
  explicit Val(u64 x) : v(x) {}
  Val(Val &&o) : v(o.v) { o.v = 0; ++Arg::moves; }
  Val &operator=(Val &&o) { v = o.v; ++Arg::moves; return *this; }
  Val &operator=(Conv const &c) { v = c.v + 1; ++calls; return *this; }
  Val &operator=(Conv &&c) { v = c.v + 2; c.v = 0; ++calls; return *this; }
};
extern "C" void unit_c15_exchange() {
  u64 x = __vc_u64("x"), y = __vc_u64("y");
  u64 a = x;
  T15(d::exchange(a, y) == x && a == y, "exchange: the old value is returned, the new one stored");
  u64 *p = &a, *q = &x;
  T15(d::exchange(p, q) == &a && p == &x, "exchange: the old value is returned, the new one stored");
  T15(d::exchange(p, nullptr) == &x && p == nullptr, "exchange: the old value is returned, the new one stored");
  T15(d::exchange(a, {}) == y && a == 0, "exchange: the default value");
  unsigned char small = static_cast<unsigned char>(x);
  T15(d::exchange(small, 300) == static_cast<unsigned char>(x) && small == 44, "exchange: the new value is converted");
  reset();
  Arg t(x), n(y);
  Arg o = d::exchange(t, n);
  T15(o.v == x && t.v == y && n.v == y, "exchange: an lvalue is copied");
  T15(Arg::copies == 1, "exchange: an lvalue is copied once");
  reset();
  Arg o2 = d::exchange(t, std::move(n));
  T15(o2.v == y && t.v == y && n.v == 0 && Arg::copies == 0, "exchange: an rvalue is moved");
  Only u(x);
  Only w = d::exchange(u, Only(y));
  T15(w.v == x && u.v == y, "exchange: move-only values");
  reset();
  Val v1(x);
  Conv c{y};
  Val v2 = d::exchange(v1, c);
  T15(v2.v == x && v1.v == y + 1 && c.v == y && calls == 1, "exchange: assigned once, from the given value");
  Val v3 = d::exchange(v1, std::move(c));
  T15(v3.v == y + 1 && v1.v == y + 2 && c.v == 0 && calls == 2, "exchange: assigned once, from the given value");
  static_assert(std::is_same<decltype(d::exchange(a, y)), u64>::value, "");
}
struct Xa {  // assignment throws
  u64 v;
  Xa(u64 x) : v(x) {}
  Xa(Xa &&o) : v(o.v) {}
  Xa &operator=(Xa &&) { throw Ex{v}; }
};
extern "C" void unit_c15_exchange_throws() {
  u64 x = __vc_u64("x");
  Xa a(x);
  bool caught = false;
  try { Xa b = d::exchange(a, Xa(1)); } catch (Ex const &e) { caught = e.v == x; }
  T15(caught && a.v == x, "exchange: an exception of the assignment is passed on");
  __vc_leakcheck("C15");
}
// ---------------------------------------------------------------------------------------------- head and tail
extern "C" void unit_c16_head() {
  u64 x = __vc_u64("x"), y = __vc_u64("y"), z = __vc_u64("z"), o = __vc_u64("o");
  std::tuple<Arg, Arg, Arg> s{Arg(x), Arg(y), Arg(z)};
  std::tuple<Arg, Arg> t{Arg(o), Arg(o)};
  int which = __vc_choice(4, "form");
  if (which == 0) d::head(t) = s;
  if (which == 1) d::head(t) = std::move(s);
  if (which == 2) d::tail(t) = s;
  if (which == 3) d::tail(t) = std::move(s);
  bool tl = which > 1, mv = which & 1;
  T16(std::get<0>(t).v == (tl ? y : x), "view: exactly the corresponding elements");
  T16(std::get<1>(t).v == (tl ? z : y), "view: exactly the corresponding elements");
  T16(std::get<0>(s).v == (mv && !tl ? 0 : x), "view: the source is only moved from where used");
  T16(std::get<1>(s).v == (mv ? 0 : y), "view: the source is only moved from where used");
  T16(std::get<2>(s).v == (mv && tl ? 0 : z), "view: the source is only moved from where used");
}
extern "C" void unit_c16_mixed() {
  u64 x = __vc_u64("x"), y = __vc_u64("y"), z = __vc_u64("z"), w = __vc_u64("w"), o = __vc_u64("o");
  std::tuple<unsigned, Only, u64, Only, u64> s(static_cast<unsigned>(x), Only(y), z, Only(w), o);
  std::tuple<u64, Only> h(0, Only(0));
  std::tuple<Only, u64> t(Only(0), 0);
  if (__vc_choice(2, "view")) {
    d::head(h) = std::move(s);
    T16(std::get<0>(h) == static_cast<unsigned>(x) && std::get<1>(h).v == y, "view: elements are converted");
    T16(std::get<1>(s).v == 0 && std::get<3>(s).v == w, "view: the source is only moved from where used");
  } else {
    d::tail(t) = std::move(s);
    T16(std::get<0>(t).v == w && std::get<1>(t) == o, "view: exactly the corresponding elements");
    T16(std::get<3>(s).v == 0 && std::get<1>(s).v == y, "view: the source is only moved from where used");
  }
  T16(std::get<0>(s) == static_cast<unsigned>(x) && std::get<2>(s) == z && std::get<4>(s) == o, "view: the rest is unchanged");
}
extern "C" void unit_c16_sizes() {
  u64 a = __vc_u64("a"), b = __vc_u64("b"), c = __vc_u64("c"), e = __vc_u64("d"), f = __vc_u64("e"), g = __vc_u64("f");
  std::tuple<u64, u64, u64, u64, u64, u64> s(a, b, c, e, f, g);
  std::tuple<u64> t1(0);
  std::tuple<u64, u64> t2(0, 0);
  std::tuple<u64, u64, u64> t3(0, 0, 0);
  std::tuple<u64, u64, u64, u64, u64, u64> t6(0, 0, 0, 0, 0, 0);
  std::tuple<> t0, e0;
  d::head(t1) = s;
  T16(std::get<0>(t1) == a, "view: exactly the corresponding elements");
  d::tail(t1) = s;
  T16(std::get<0>(t1) == g, "view: exactly the corresponding elements");
  d::head(t2) = s;
  T16(std::get<0>(t2) == a && std::get<1>(t2) == b, "view: exactly the corresponding elements");
  d::tail(t2) = s;
  T16(std::get<0>(t2) == f && std::get<1>(t2) == g, "view: exactly the corresponding elements");
  d::head(t3) = s;
  T16(std::get<0>(t3) == a && std::get<1>(t3) == b && std::get<2>(t3) == c, "view: exactly the corresponding elements");
  d::tail(t3) = s;
  T16(std::get<0>(t3) == e && std::get<1>(t3) == f && std::get<2>(t3) == g, "view: exactly the corresponding elements");
  d::head(t6) = s;
  T16(t6 == s, "view: exactly the corresponding elements");
  t6 = std::tuple<u64, u64, u64, u64, u64, u64>(0, 0, 0, 0, 0, 0);
  d::tail(t6) = std::move(s);
  T16(t6 == s, "view: exactly the corresponding elements");
  d::head(t0) = s;
  d::tail(t0) = e0;
  T16(std::get<0>(s) == a && std::get<1>(s) == b && std::get<2>(s) == c && std::get<3>(s) == e && std::get<4>(s) == f && std::get<5>(s) == g,
      "view: an lvalue source is not modified");
}
extern "C" void unit_c16_references() {
  u64 a = __vc_u64("a"), b = __vc_u64("b"), c = __vc_u64("c");
  u64 x = 1, y = 2, p = a, q = b, r = c;
  std::tuple<u64 &, u64 &> t(x, y);
  std::tuple<u64 &, u64 &, u64 &> s(p, q, r);
  if (__vc_choice(2, "view")) {
    d::head(t) = s;
    T16(x == a && y == b, "view: assigns through references");
  } else {
    d::tail(t) = s;
    T16(x == b && y == c, "view: assigns through references");
  }
  T16(&std::get<0>(t) == &x && &std::get<1>(t) == &y && p == a && q == b && r == c, "view: an lvalue source is not modified");
}
extern "C" void unit_c16_overlap() {  // source and destination are the same object
  u64 a = __vc_u64("a"), b = __vc_u64("b");
  std::tuple<u64, u64> t(a, b);
  if (__vc_choice(2, "view")) d::head(t) = t;
  else d::tail(t) = t;
  T16(std::get<0>(t) == a && std::get<1>(t) == b, "view: exactly the corresponding elements");
}
#if __cplusplus >= 201703L
// agreement with the standard library
template <class Fn, class... A> static void agree(Fn &&fn, A &&...a) {
  static_assert(std::is_same<decltype(d::invoke(std::forward<Fn>(fn), std::forward<A>(a)...)),
                             decltype(std::invoke(std::forward<Fn>(fn), std::forward<A>(a)...))>::value, "");
  reset();
  auto r1 = d::invoke(std::forward<Fn>(fn), std::forward<A>(a)...);
  int c1 = calls, k1 = selfcat, g1[4];
  const void *s1 = self, *a1[4];
  for (int i = 0; i < 4; ++i) { g1[i] = cat[i]; a1[i] = arg[i]; }
  reset();
  auto r2 = std::invoke(std::forward<Fn>(fn), std::forward<A>(a)...);
  T15(r1 == r2 && c1 == calls && s1 == self && k1 == selfcat, "call: agrees with std::invoke");
  for (int i = 0; i < 4; ++i) T15(g1[i] == cat[i] && a1[i] == arg[i], "call: agrees with std::invoke");
}
template <class Fn, class Tp> static void agree_apply(Fn &&fn, Tp &&t) {
  static_assert(std::is_same<decltype(d::apply(std::forward<Fn>(fn), std::forward<Tp>(t))),
                             decltype(std::apply(std::forward<Fn>(fn), std::forward<Tp>(t)))>::value, "");
  reset();
  auto r1 = d::apply(std::forward<Fn>(fn), std::forward<Tp>(t));
  int c1 = calls, k1 = selfcat, g1[4];
  const void *s1 = self, *a1[4];
  for (int i = 0; i < 4; ++i) { g1[i] = cat[i]; a1[i] = arg[i]; }
  reset();
  auto r2 = std::apply(std::forward<Fn>(fn), std::forward<Tp>(t));
  T15(r1 == r2 && c1 == calls && s1 == self && k1 == selfcat, "call: agrees with std::apply");
  for (int i = 0; i < 4; ++i) T15(g1[i] == cat[i] && a1[i] == arg[i], "call: agrees with std::apply");
}
extern "C" void unit_c15_agree() {
  u64 x = __vc_u64("x"), y = __vc_u64("y"), k = __vc_u64("k");
  F f{k};
  F const cf{k};
  Arg a(x), b(y);
  Arg const c(x);
  agree(f, a, std::move(b), c);
  agree(cf, std::move(b));
  agree(std::move(f), c, a);
  agree(std::move(cf));
  agree(fun, x, y);
  agree(&Arg::cm, a, k);
  agree(&Arg::cm, &c, k);
  agree(&Arg::cm, std::ref(a), k);
  agree(&Arg::v, a);
  agree(&Arg::v, std::move(b));
  agree(static_cast<u64 (Arg::*)(u64) &&>(&Arg::mem), std::move(a), k);
  agree_apply(f, std::forward_as_tuple(a, std::move(b), c));
  agree_apply(std::move(cf), std::tuple<>());
  agree_apply(four, std::make_tuple(x, y, k, x));
  agree_apply(&Arg::cm, std::forward_as_tuple(a, k));
}
#endif
