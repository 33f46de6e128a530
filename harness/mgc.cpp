// Most general client of the context API: contexts perform arbitrary sequences of the enabled operations on
// arbitrary handles.  Every obligation is about what the client observes.
#include "vc.h"
#if defined(CONT)
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/stack_context.hpp>
namespace ctx = boost::context;
#if defined(CONT)
typedef ctx::continuation H;
#else
typedef ctx::fiber H;
#endif
#ifndef MAXF
#define MAXF 2
#endif
#ifndef THREADS
#define THREADS 1
#endif
#define N (MAXF + THREADS)  // contexts 0..THREADS-1: the threads themselves
#define K N
enum Op { NEW = 1, RESUME = 2, FINISH = 4, DESTROY = 8, ONTOP = 16, GUARD = 32, MOVE = 64, THROW = 128, ONTOPX = 256, GUARDOT = 512,
  GUARDD = 1024 };  // a destructor destroys another context
static int alive;             // threads that did not end
static bool ended[THREADS];
enum { FIN = -1, EXC = -2, NOTHING = -3, NOBODY = -4 };
enum { L_NONE, L_FRESH, L_STARTED };
struct UserEx { int id; };
static unsigned ops;
static int landing = NOBODY, from = NOBODY, fin, running;
static bool unwinding;       // the pending transfer requests an unwinding
static bool ontop;           // an on-top function was sent and did not run yet
static bool swallow;
static int life[N];
static bool noexc[N];
static void *stack_base[N];
static int fn_objs[N], fn_own[N], al_objs[N], al_own[N], guards[N];
// the handle of context i, if the client has it, is kept in slot[i] (there is at most one)
// the contexts that the operation under way switches between; the one whose handle it looks at
extern "C" { void *vc_frame_a, *vc_frame_b, *vc_frame_c; }
static void frame(int a, int b, int c = -1) {
  vc_frame_a = a < 0 ? nullptr : stack_base[a];
  vc_frame_b = b < 0 ? nullptr : stack_base[b];
  vc_frame_c = c < 0 ? nullptr : stack_base[c];
}
struct Slot { H f; int who; };
static Slot slot[K];
static void put(H &&h, int who) {
  VC("C08", slot[who].who < 0, "handle: at most one handle designates a suspended context");
  slot[who].f = std::move(h);
  VC("C08", !h, "handle: a moved-from handle is empty");
  slot[who].who = who;
}
// every context has floating-point control settings of its own, a fresh one those of its creator
#if defined(FPCTL)
static unsigned long fp[N];
static unsigned long fp_of(int id) { return (0x1f80ul | (unsigned long)(id & 3) << 13) << 32 | 0x37f | (id & 3) << 10; }
static void check_fp(int id) { VC("C01", __vc_fp() == fp[id], "control settings: a context is resumed with those it was suspended (or made) with"); }
static void fp_start(int id) { fp[id] = fp_of(id); __vc_set_fp(fp[id]); }
static void fp_new(int self, int id) { fp[id] = fp[self]; }
#else
static void check_fp(int) {}
static void fp_start(int) {}
static void fp_new(int, int) {}
#endif
static int handles() {
  int n = 0;
  for (int i = 0; i < K; ++i) n += slot[i].who >= 0;
  return n;
}
static bool destroyable(int t) { return t >= THREADS && !noexc[t]; }
// the context a thread was started with is only resumed by that thread
static int bound[N];         // a context that switches while it is unwound returns to its destroyer's thread
static bool here(int who) {
  return THREADS == 1 || ((who >= THREADS || who == __vc_thread()) && (bound[who] < 0 || bound[who] == __vc_thread()));
}
static int pick(const char *what, bool go = true, bool end = false) {
  int n = 0, at[K];
  for (int i = 0; i < K; ++i)
    if (slot[i].who >= 0 && (!go || here(slot[i].who)) && (!end || destroyable(slot[i].who))) at[n++] = i;
  if (!n) __vc_assume(false);
  return at[__vc_choice(n, what)];
}
static bool valid(H const &h) {
  bool v = static_cast<bool>(h);
  VC("C08", !h == !v, "handle: operator! is the negation");
  return v;
}
static void check_handles() {
  for (int i = 0; i < K; ++i) {
    frame(slot[i].who, -1);
    VC("C08", static_cast<bool>(slot[i].f) == (slot[i].who >= 0), "handle: converts to true exactly when it designates a suspended context");
    VC("C08", !slot[i].f == (slot[i].who < 0), "handle: operator! is the negation");
  }
  frame(-1, -1);
}
#if defined(CHECKCUR)
#if defined(CONT)
typedef ctx::detail::activation_record Rec;
#else
typedef ctx::detail::fiber_activation_record Rec;
#endif
static void check_cur() {
  SAN_IDLE();
  void *u = __vc_cur_ucontext();
  if (u) VC("C18", (void *)&Rec::current()->uctx == u, "current: the running context is the one that executes");
}
#else
static void check_cur() { SAN_IDLE(); }
#endif
#if defined(CHECKCUR)  // what a switch leaves pending is observed by a later, unrelated one
#define PEND(p) "C18"
#else
#define PEND(p) p
#endif
static void gone(int id, const char *prop) {
  VC(prop, stack_base[id] == nullptr, "release: the stack of a context that ended was returned to its allocator");
  VC(prop, fn_own[id] == 0, "release: the captured function of a context that ended was destroyed exactly once");
  VC(prop, al_own[id] == 0, "release: the captured allocator of a context that ended was destroyed exactly once");
  VC("C07", guards[id] == 0, "unwind: all objects on the stack of a context that ended were destroyed");
  life[id] = L_NONE;
}
// control arrives in context `self`, its pending resume (or its start) yields r
static void arrive(int self, H &&r) {
  VC(unwinding ? "C05,C07" : ontop ? "C05,C09" : "C05", landing == self, "transfer: control goes to exactly the designated context");
  VC(PEND("C09"), !ontop, "on-top: the function runs before anything else in the target");
  VC("C07", !unwinding, "unwind: a destroyed context is unwound, it does not continue");
  landing = NOBODY;
  running = self;
  check_fp(self);
  check_cur();
  int f = from;
  from = NOBODY;
  VC("C09", f != EXC, "on-top: an exception of the function is thrown in the target");
  if (f == FIN) {
    VC("C05,C08", !valid(r), "transfer: the handle of a finished context is empty");
    { H d = std::move(r); }
    int e = fin;
    fin = 0;
    gone(e, "C06");
  } else if (f == NOTHING) {
    VC("C09", !valid(r), "on-top: the handle returned by the function is what the target receives");
  } else {
    VC("C05,C08", valid(r), "transfer: the handle of the suspended context is delivered");
    put(std::move(r), f);
  }
  check_handles();
}
static int ot_owner, ot_kind;
static void destroyed(int self, int t, const char *prop = "C07");
static void aim_destroy(int self, int t);
enum { OT_OWN, OT_THROW, OT_OTHER, OT_EMPTY, OT_KILL };
struct OT {  // on-top function
  int magic;
  OT() : magic(4711) {}
  OT(OT const &o) : magic(o.magic) { VC("C09", magic == 4711, "on-top: a destroyed callable is not accessed"); }
  ~OT() { magic = 0; }
  H operator()(H &&c) const {
    int owner = ot_owner, kind = ot_kind;
    ot_owner = ot_kind = 0;
    VC(PEND("C09"), ontop, "on-top: the function runs exactly once");
    ontop = false;
    int t = landing;
    int local;
    VC("C09", t < THREADS || RUNS_ON(&local, stack_base[t]), "on-top: the function runs on the target's stack");
    VC("C09", static_cast<bool>(c), "on-top: the function receives a valid handle");
    VC("C09", magic == 4711, "on-top: a destroyed callable is not accessed");
    running = t;
    check_fp(t);
    check_cur();
    if (kind == OT_OWN) return std::move(c);
    if (kind == OT_KILL) {  // the resumer is unwound while the function runs
      bool was = noexc[t];
      landing = NOBODY;
      aim_destroy(t, owner);
      noexc[t] = true;
      { H d = std::move(c); }
      noexc[t] = was;
      VC("C09", magic == 4711, "on-top: a destroyed callable is not accessed");
      destroyed(t, owner, "C09");
      check_handles();
      landing = t;
      __vc_cover("on-top function destroys the resumer");
      if (!handles()) {
        from = NOTHING;
        return H{};
      }
      int j = pick("on-top returns", false);
      from = slot[j].who;
      vc_frame_c = stack_base[from];
      slot[j].who = -1;
      return std::move(slot[j].f);
    }
    put(std::move(c), owner);
    if (kind == OT_THROW) {
      if (life[t] == L_FRESH) __vc_expect_terminate("C09");
      from = EXC;
      throw UserEx{t};
    }
    if (kind == OT_OTHER) {
      int j = pick("on-top returns", false);
      from = slot[j].who;
      vc_frame_c = stack_base[from];
      slot[j].who = -1;
      return std::move(slot[j].f);
    }
    from = NOTHING;
    return H{};
  }
};
static void destroyed(int self, int t, const char *prop) {
  VC(prop, landing == self, "unwind: control returns to the destroying context");
  VC(prop, from == FIN && fin == t, "unwind: the destroyed context has ended");
  landing = from = NOBODY;
  fin = 0;
  running = self;
  check_fp(self);
  frame(-1, -1);
  check_cur();
  gone(t, prop[3] ? "C06,C07,C08" : prop[2] == '9' ? "C06,C09" : "C06,C07");
}
static void aim_destroy(int self, int t) {
  frame(self, t);
  if (life[t] == L_FRESH) {
    landing = self;
    from = FIN;
    fin = t;
  } else {
    landing = t;
    from = self;
    unwinding = true;
  }
}
struct Al {
  int id;
  mutable bool owner;
  explicit Al(int i) : id(i), owner(true) { ++al_objs[id]; ++al_own[id]; }
  Al(Al &&o) noexcept : id(o.id), owner(o.owner) { o.owner = false; ++al_objs[id]; }
  Al(Al const &) = delete;
  ~Al() { --al_objs[id]; if (owner) --al_own[id]; }
  ctx::stack_context allocate() {
    ctx::stack_context s;
    s.size = 65536;
    vc_frame_b = stack_base[id] = __vc_region(65536, 4096, "ctxstack");
    s.sp = static_cast<char *>(stack_base[id]) + 65536;
#if defined(BOOST_USE_SEGMENTED_STACKS)
    __vc_segments(s.segments_ctx, stack_base[id]);
#endif
    return s;
  }
  void deallocate(ctx::stack_context &s) noexcept {
    VC("C06", owner, "release: the stack goes back to the allocator object that was captured");
    VC("C06", __vc_region_base(&s) != stack_base[id], "release: the descriptor passed to deallocate() is not part of the released stack");
    VC("C06", s.size == 65536 && static_cast<char *>(s.sp) - 65536 == stack_base[id], "release: with the descriptor it was obtained with");
    VC("C06", fn_own[id] == 0, "release: the captured function is destroyed before its stack is returned");
    SAN_RELEASED(stack_base[id]);
    stack_base[id] = nullptr;
    __vc_free(static_cast<char *>(s.sp) - s.size, "ctxstack", "C06");
  }
};
struct Guard {
  int id;
  bool normal;
  explicit Guard(int i) : id(i), normal(false) { ++guards[id]; }
  ~Guard();
};
static void fin_to(int self, int who) {
  frame(self, who);
  landing = who;
  from = FIN;
  fin = self;
}
static bool step(int self, bool inguard);
struct Body {
  int id;
  bool owner;
  explicit Body(int i) : id(i), owner(true) { ++fn_objs[id]; ++fn_own[id]; }
  Body(Body &&o) noexcept : id(o.id), owner(o.owner) { o.owner = false; ++fn_objs[id]; }
  Body(Body const &) = delete;
  ~Body() { --fn_objs[id]; if (owner) --fn_own[id]; }
  H operator()(H &&f) {
    int self = id;
    VC("C05", owner && life[self] == L_FRESH, "run: the captured function is started exactly once, on first resumption");
    life[self] = L_STARTED;
    int local;
    VC("C05", RUNS_ON(&local, stack_base[self]), "run: the function runs on the allocated stack");
    arrive(self, std::move(f));
    fp_start(self);
    Guard g(self);
    for (;;) {
      __vc_loophead();
      if (!step(self, false)) break;
    }
    g.normal = true;
    int j = pick("return");
    int t = slot[j].who;
    slot[j].who = -1;
    --guards[self];
    fin_to(self, t);
    return std::move(slot[j].f);
  }
};
static void do_resume(int self, int j) {
  int t = slot[j].who;
  slot[j].who = -1;
  H h = std::move(slot[j].f);
  landing = t;
  from = self;
  frame(self, t);
  H r = std::move(h).resume();
  VC("C08", !h, "handle: a resumed handle is empty");
  arrive(self, std::move(r));
}
static void do_resume_with(int self, int j, int kind) {
  int t = slot[j].who;
  slot[j].who = -1;
  H h = std::move(slot[j].f);
  landing = t;
  from = self;
  frame(self, t);
  ontop = true;
  ot_owner = self;
  ot_kind = kind;
  H r = std::move(h).resume_with(OT{});
  VC("C08", !h, "handle: a resumed handle is empty");
  arrive(self, std::move(r));
}
static int choose_op(int self, bool inguard) {
  int hs = 0, all = handles(), nf = 0, n = 0, en[11], busy = 0;
  for (int i = 0; i < K; ++i) hs += slot[i].who >= 0 && here(slot[i].who);
  for (int i = THREADS; i < N; ++i) { if (life[i] == L_NONE) nf = i; else ++busy; }
  if ((ops & NEW) && !inguard && nf) en[n++] = 0;
  if ((ops & RESUME) && hs) en[n++] = 1;
  if ((ops & ONTOP) && hs && !(inguard && !(ops & GUARDOT))) en[n++] = 2;
  if (all && (!inguard || (ops & GUARDD))) {
    bool d = false;
    for (int i = 0; i < K; ++i) d = d || (slot[i].who >= 0 && destroyable(slot[i].who));
    if ((ops & DESTROY) && d) en[n++] = 3;
  }
  if (!inguard && all) {
    if (ops & MOVE) { en[n++] = 4; en[n++] = 5; }
    if ((ops & FINISH) && self >= THREADS && hs) en[n++] = 6;
    if ((ops & THROW) && self >= THREADS) en[n++] = 7;
  }
  if (self == 0 && !busy && !inguard && alive == 1) en[n++] = 8;
#if THREADS > 1
  if (!inguard && alive > 1) en[n++] = 9;
  if (!inguard && self > 0 && self < THREADS) en[n++] = 10;
#endif
  if (!n) __vc_assume(false);
  return en[__vc_choice(n, "op")];
}
static int a_free() {
  for (int i = N - 1; i >= THREADS; --i) if (life[i] == L_NONE) return i;
  return 0;
}
// one arbitrary operation by context self; false: the context is to finish
static bool step(int self, bool inguard) {
  switch (choose_op(self, inguard)) {
  case 0: {  // create
    int id = a_free();
    life[id] = L_FRESH;
    fp_new(self, id);
#if defined(CONT)
    landing = id;
    from = self;
    frame(self, -1);
    try {
      H r = ctx::callcc(std::allocator_arg, Al{id}, Body{id});
      arrive(self, std::move(r));
    } catch (UserEx const &e) {
      VC(PEND("C09"), from == EXC && landing == self && e.id == self, "on-top: an exception is delivered once, to the target");
      from = landing = NOBODY; running = self; check_fp(self); frame(-1, -1);
      check_cur();
    }
#else
    {
      H h(std::allocator_arg, Al{id}, Body{id});
      VC("C05", running == self && landing == NOBODY && life[id] == L_FRESH, "run: creating a context starts nothing");
      VC("C06", fn_objs[id] == 1 && al_objs[id] == 1, "capture: exactly one function and one allocator object are kept");
      VC("C08", static_cast<bool>(h), "handle: a created context is valid");
      frame(-1, -1);
      put(std::move(h), id);
    }
    check_cur();
#endif
    __vc_cover("create");
    return true;
  }
  case 1: {  // resume
    int j = pick("resume");
    noexc[self] = inguard;
    if (inguard) { do_resume(self, j); noexc[self] = false; }
    else {
      try { do_resume(self, j); }
      catch (UserEx const &e) {
        VC(PEND("C09"), from == EXC && landing == self && e.id == self, "on-top: an exception is delivered once, to the target");
        from = landing = NOBODY; running = self; check_fp(self); frame(-1, -1);
        check_cur();
      }
    }
    __vc_cover("resume");
    return true;
  }
  case 2: {  // resume with an on-top function
    int j = pick("resume_with");
    int kind = 0;
    int kinds[5], nk = 0;
    kinds[nk++] = OT_OWN;
    kinds[nk++] = OT_OTHER;
    if (ops & ONTOPX) {
      kinds[nk++] = OT_EMPTY;
      if (!noexc[slot[j].who]) kinds[nk++] = OT_THROW;
    }
    if ((ops & ONTOPX) && (ops & DESTROY) && self >= THREADS && !inguard) kinds[nk++] = OT_KILL;
    kind = kinds[__vc_choice(nk, "kind")];
    noexc[self] = inguard;
    if (inguard) { do_resume_with(self, j, kind); noexc[self] = false; }
    else {
      try { do_resume_with(self, j, kind); }
      catch (UserEx const &e) {
        VC(PEND("C09"), from == EXC && landing == self && e.id == self, "on-top: an exception is delivered once, to the target");
        from = landing = NOBODY; running = self; check_fp(self); frame(-1, -1);
        check_cur();
      }
    }
    __vc_cover("resume_with");
    return true;
  }
  case 3: {  // destroy
    int j = pick("destroy", true, true);
    int t = slot[j].who;
    slot[j].who = -1;
    aim_destroy(self, t);
    noexc[self] = true;
    { H h = std::move(slot[j].f); }
    noexc[self] = false;
    destroyed(self, t);
    check_handles();
    __vc_cover("destroy");
    return true;
  }
  case 4: {  // move-construction, move-assignment over a suspended or empty handle, self-move
    int j = pick("move from", false);
    int w = slot[j].who;
    slot[j].who = -1;
    frame(w, -1);
    H src = std::move(slot[j].f);
    VC("C08", src && !slot[j].f, "handle: move construction transfers the context");
    int to[K + 2], nd = 0;
    for (int i = 0; i < K; ++i)
      if (slot[i].who >= 0 && destroyable(slot[i].who)) to[nd++] = i;
    to[nd++] = K;
    to[nd++] = K + 1;
    int d = to[__vc_choice(nd, "move to")];
    if (d == K) {
      H &alias = src;
      src = std::move(alias);
      VC("C08", static_cast<bool>(src), "handle: self-move changes nothing");
    } else if (d == K + 1) {
      H dst;
      VC("C08", !dst, "handle: a default-constructed handle is empty");
      dst = std::move(src);
      VC("C08", !src && dst, "handle: move-assignment transfers the context");
      src = std::move(dst);
    } else {
      int t = slot[d].who;
      H dst = std::move(slot[d].f);
      slot[d].who = -1;
      aim_destroy(self, t);
      vc_frame_c = stack_base[w];
      noexc[self] = true;
      dst = std::move(src);
      noexc[self] = false;
      destroyed(self, t, "C07,C08");
      frame(w, -1);
      VC("C08", !src && dst, "handle: move-assignment transfers the context");
      src = std::move(dst);
    }
    put(std::move(src), w);
    check_handles();
    __vc_cover("move-assign");
    return true;
  }
  case 5: {  // swap, ordering
    int x = __vc_choice(K, "swap a"), y = __vc_choice(x + 1, "swap b");
    H &a = slot[x].f, &b = slot[y].f;
    for (int k = 0; k < 2; ++k) {  // exchanged exactly once, then back
      if (k) { using std::swap; swap(b, a); } else a.swap(b);
      int w = slot[x].who; slot[x].who = slot[y].who; slot[y].who = w;
      check_handles();
    }
    __vc_cover("swap");
    return true;
  }
  case 6:  // finish
    __vc_cover("finish");
    return false;
  case 7:  // exit by an exception
    __vc_expect_terminate("C17");
    __vc_cover("throw");
    swallow = true;
    throw UserEx{99};
  case 8: {  // end of history
    for (int i = THREADS; i < N; ++i) if (life[i] != L_NONE) __vc_assume(false);
    VC("C08", handles() == 0, "handle: no handle is left when all contexts ended");
    __vc_run_tls_dtors();
    for (int i = THREADS; i < N; ++i) VC("C06", fn_objs[i] == 0 && al_objs[i] == 0, "release: all function and allocator objects were destroyed");
    __vc_leakcheck("C06");
    __vc_cover("end");
    __vc_next();
    return true;
  }
#if THREADS > 1
  case 9:  // another thread continues
    __vc_yield();
    running = self;
    VC("C22", __vc_thread() == self || self >= THREADS, "threads: a thread's own context runs on that thread");
    check_cur();
    check_handles();
    __vc_cover("yield");
    return true;
  case 10:  // this thread ends
    --alive;
    ended[self] = true;
    return true;
#endif
  }
  __vc_assume(false);
  return true;
}
Guard::~Guard() {
  if (normal) return;
  if (swallow) return;
  VC(PEND("C07"), landing == id && unwinding, "unwind: only a destroyed context is unwound");
  int unw = from;
  landing = from = NOBODY;
  unwinding = false;
  running = id;
  check_fp(id);
  frame(-1, -1);
  check_cur();
  if (ops & GUARD) {
    bound[id] = THREADS > 1 ? __vc_thread() : -1;
    if (__vc_choice(2, "destructor switches")) step(id, true);
    bound[id] = -1;
    __vc_cover("destructor");
  }
  --guards[id];
  fin_to(id, unw);
}
extern "C" void vc_on_terminate() {
  VC("C17", landing == NOBODY || ontop == false, "terminate: no other context is resumed");
}
static void client(unsigned o) {
  ops = o;
  landing = from = NOBODY;
  frame(-1, -1);
  fin = running = ot_owner = ot_kind = 0;
  unwinding = ontop = swallow = false;
  alive = THREADS;
#if THREADS > 1
  for (int i = 0; i < THREADS; ++i) ended[i] = false;
  __vc_threads(THREADS);
#endif
  for (int i = 0; i < K; ++i) {
    slot[i].who = -1;
    life[i] = L_NONE;
    noexc[i] = false;
    bound[i] = -1;
    stack_base[i] = nullptr;
    fn_objs[i] = fn_own[i] = al_objs[i] = al_own[i] = guards[i] = 0;
  }
  fp_start(0);
  for (;;) {
    __vc_loophead();
    step(0, false);
  }
}
#if THREADS > 1
extern "C" void vc_thread_main(int k) {
  running = k;
  while (!ended[k]) {
    __vc_loophead();
    step(k, false);
  }
  __vc_cover("thread ends");
}
#endif
#if !defined(OPS)
#define OPS (NEW | RESUME | FINISH)
#endif
extern "C" void unit_client() { client(OPS); }
