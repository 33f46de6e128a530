// Native search for a failing schedule: threads that use contexts of their own, at the same time.
#if defined(CONT)
#include <boost/context/continuation.hpp>
typedef boost::context::continuation H;
#else
#include <boost/context/fiber.hpp>
typedef boost::context::fiber H;
#endif
#include <boost/context/protected_fixedsize_stack.hpp>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
namespace ctx = boost::context;
static void fail(const char *what) { std::printf("OBLIGATION-FAILED C22 %s\n", what); std::fflush(stdout); std::_Exit(77); }
struct Count { long &n; explicit Count(long &k) : n(k) { ++n; } ~Count() { --n; } };
struct Ex { long v; };
template <class F> static H make(F &&f, int kind) {
#if defined(CONT)
  if (kind) return ctx::callcc(std::allocator_arg, ctx::protected_fixedsize_stack(), std::forward<F>(f));
  return ctx::callcc(std::forward<F>(f));
#else
  if (kind) return H(std::allocator_arg, ctx::protected_fixedsize_stack(), std::forward<F>(f));
  return H(std::forward<F>(f));
#endif
}
static void work(unsigned seed) {
  unsigned r = seed * 2654435761u + 1;
  for (int k = 0; k < 60; ++k) {
    long n = 0, live = 0;
    bool stop = false;
    H f = make([&](H &&m) {
      Count c(live);
      while (!stop) {
        ++n;
        try { m = std::move(m).resume(); }
        catch (Ex const &e) { if (e.v != n) fail("an exception of another thread arrives"); m = H(); std::abort(); }
      }
      return std::move(m);
    }, k % 2);
#if !defined(CONT)
    f = std::move(f).resume();
#endif
    long w = 1;
    for (int i = 0; i < 1500; ++i) {
      r = r * 1664525u + 1013904223u;
      if ((r >> 28) < 8) {
        f = std::move(f).resume();
        ++w;
      } else {
        long here = w;
        f = std::move(f).resume_with([&n, here](H &&m) { if (n != here) fail("an on-top function of another thread runs"); return std::move(m); });
        ++w;
      }
      if (!f || n != w || live != 1) fail("a context of another thread was resumed");
    }
    if (k % 3) { stop = true; f = std::move(f).resume(); if (f) fail("a finished context is valid"); }
    else f = H();
    if (live) fail("the stack was not unwound");
  }
}
int main() {
  std::vector<std::thread> t;
  for (unsigned i = 0; i < 6; ++i) t.emplace_back(work, i);
  for (auto &x : t) x.join();
  return 0;
}
