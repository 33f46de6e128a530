// Native meaning of the ghost vocabulary: runs a harness against the real library, either with the inputs of a
// counterexample (VC_INPUTS) or with pseudo-random ones (VC_SEED).  Exit status: 0 nothing wrong, 77 an obligation
// failed, death by a signal: the program broke.
#include <sys/mman.h>
#include <ucontext.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <csetjmp>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#if defined(THREADS) && THREADS > 1
#include <condition_variable>
#include <mutex>
#include <thread>
#define PER_THREAD thread_local
#else
#define PER_THREAD
#endif
#include "vc.h"
extern "C" void vc_on_terminate() __attribute__((weak));
extern "C" void VC_UNIT();
extern "C" void *__libc_malloc(std::size_t);
extern "C" void __libc_free(void *);
// not diverted by the --wrap options of a harness with a ghost operating system
static char *sys_map(std::size_t n) {
  return (char *)syscall(SYS_mmap, 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void sys_protect(void *p, std::size_t n, int prot) { syscall(SYS_mprotect, p, n, prot); }
namespace {
const int MAXI = 100000;
long long in_v[MAXI];
int in_n, in_p, rnd, steps, max_steps, long_run;
jmp_buf next_run;
char *main_frame;
char *gone[16][2];   // a long run gives released memory back to the system, after a while
int ngone;
unsigned long long rs;
const char *expect, *only;
struct Reg { char *p, *m; std::size_t n, map; char kind[16]; bool live; };
Reg regs[200000];
int nregs;
int fail_new, fail_get;
PER_THREAD void *cur_uc;
void *last_top;
std::size_t last_size;
long heap_live;
bool counting;
unsigned long long rnd64() {
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  return rs;
}
void out(const char *s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
[[noreturn]] void violated(const char *prop, const char *name) {
  if (only && prop && *prop && !strstr(prop, only)) { _exit(78); }
  out("OBLIGATION-FAILED "); out(prop && *prop ? prop : "-"); out(" "); out(name); out("\n");
  _exit(77);
}
unsigned long long next(unsigned long long n, bool &have) {
  have = true;
  if (rnd) return n ? rnd64() % n : rnd64();
  if (in_p < in_n) return (unsigned long long)in_v[in_p++];
  have = false;
  return 0;
}
Reg *find(const void *q) {
  for (int i = nregs - 1; i >= 0; --i)
    if ((const char *)q >= regs[i].p && (const char *)q <= regs[i].p + regs[i].n) return &regs[i];
  return 0;
}
void on_terminate() {
  if (!expect) violated("", "control: std::terminate is called only where required");
  if (vc_on_terminate) vc_on_terminate();
  _exit(90);
}
}
extern "C" {
void __vc_assert(bool c, const char *prop, const char *name) {
  if (!c && !(only && prop && *prop && !strstr(prop, only))) violated(prop, name);
}
void __vc_assume(bool c) {
  if (c) return;
  char here;
  if (long_run && main_frame > &here && main_frame - &here < (1 << 20)) longjmp(next_run, 1);
  _exit(90);
}
unsigned long __vc_u64(const char *) {
  bool h; unsigned long long v = next(0, h);
  if (rnd) switch (rnd64() % 4) { case 0: v &= 0xff; break; case 1: v &= 0xfffff; break; case 2: v = ~(v & 0xfff); break; }
  return v;
}
unsigned int __vc_u32(const char *n) { return (unsigned)__vc_u64(n); }
int __vc_choice(int n, const char *what) {
  if (n == 1) return 0;
  if (rnd && ++steps > max_steps) _exit(90);
  if (long_run && steps / 8192 % 2 && *what == 'o' && !strcmp(what, "op") && rnd64() % 4) return 0;  // more and more contexts, for a while
  bool h; int v = (int)next(n, h);
  if (!h || v >= n) _exit(90);  // the counterexample ends here
  return v;
}
void __vc_cover(const char *) {}
void *__vc_region(std::size_t n, std::size_t al, const char *kind) {
  if (nregs >= 199999) _exit(90);
  if (n > (std::size_t(1) << 30)) _exit(90);
  std::size_t map = ((n + 4095) & ~std::size_t(4095)) + 8192 + (al > 4096 ? al : 0);
  char *m = sys_map(map);
  if (m == MAP_FAILED) _exit(90);
  char *p = m + 4096;
  if (al > 4096) p = (char *)(((std::size_t)p + al - 1) & ~(al - 1));
  sys_protect(m, 4096, PROT_NONE);
  if (n % 4096 == 0) sys_protect(p + n, 4096, PROT_NONE);
  memset(p, 0xa5, n > 4096 ? 64 : n);
  Reg &r = regs[nregs++];
  r.p = p; r.m = m; r.n = n; r.map = map; r.live = true;
  strncpy(r.kind, kind, 15);
  return p;
}
void __vc_free(void *b, const char *kind, const char *prop) {
  Reg *r = find(b);
  if (!r || r->p != b || strcmp(r->kind, kind)) violated(prop, "release: deallocation of exactly a block that was obtained");
  if (!r->live) violated(prop, "release: deallocation only once");
  int local;
  if ((char *)&local >= r->p && (char *)&local < r->p + r->n) violated(prop, "release: no code runs on a stack that is released");
  r->live = false;
  sys_protect(r->p, (r->n + 4095) & ~std::size_t(4095), PROT_NONE);  // never reused: any later access traps
  if (long_run) {
    char **g = gone[ngone++ % 16];
    if (g[0]) syscall(SYS_munmap, g[0], g[1] - g[0]);
    g[0] = r->m; g[1] = r->m + r->map;
    *r = regs[--nregs];
  }
}
bool __vc_live(const void *p) { Reg *r = find(p); return r && r->live; }
void *__vc_region_base(const void *p) { Reg *r = find(p); return r ? r->p : 0; }
std::size_t __vc_region_size(const void *p) { Reg *r = find(p); return r ? r->n : 0; }
void __vc_end() { _exit(90); }
void __vc_next() { if (!long_run || ++steps > max_steps) _exit(90); }
void __vc_expect_terminate(const char *p) { expect = p; }
void __vc_leakcheck(const char *prop) {
  for (int i = 0; i < nregs; ++i)
    if (regs[i].live && !strcmp(regs[i].kind, "ctxstack")) violated(prop, "release: no block is leaked");
}
bool __vc_runs_on(const void *l, const void *b) { Reg *r = find(b); return r && (const char *)l >= r->p && (const char *)l < r->p + r->n; }
void *__vc_ctx_top() { return last_top; }
std::size_t __vc_ctx_size() { return last_size; }
void *__vc_cur_ucontext() { return cur_uc; }
void __vc_protect(void *p, std::size_t n, int mode) { sys_protect(p, n, mode ? PROT_READ | PROT_WRITE : PROT_NONE); }
void __vc_run_tls_dtors() {}
#if defined(THREADS) && THREADS > 1
// one thread runs at a time
void vc_thread_main(int k);
static std::mutex *bm;
static std::condition_variable *bc;
static int turn;
static bool alive_thread[THREADS];
static thread_local int me_;
__attribute__((noinline)) int __vc_thread() { asm volatile(""); return me_; }
static void pass(int me, bool wait) {
  int n = 0, o[THREADS];
  for (int k = 0; k < THREADS; ++k) if (k != me && alive_thread[k]) o[n++] = k;
  if (!n) _exit(90);
  int to = o[__vc_choice(n, "thread")];
  std::unique_lock<std::mutex> l(*bm);
  turn = to;
  bc->notify_all();
  while (wait && turn != me) bc->wait(l);
}
struct Baton {  // the thread's first thread-local object: destroyed last
  int id;
  ~Baton() { if (id > 0) { alive_thread[id] = false; pass(id, false); } }
};
static thread_local Baton baton;
void __vc_yield() { pass(__vc_thread(), true); }
void __vc_threads(int n) {
  bm = new std::mutex;
  bc = new std::condition_variable;
  for (int k = 0; k < n; ++k) alive_thread[k] = true;
  for (int k = 1; k < n; ++k)
    std::thread([k] {
      baton.id = k;
      me_ = k;
      { std::unique_lock<std::mutex> l(*bm); while (turn != k) bc->wait(l); }
      vc_thread_main(k);
    }).detach();
}
#else
int __vc_thread() { return 0; }
#endif
void __vc_loops(const char *) {}
void __vc_loophead() { if (rnd && ++steps > max_steps) _exit(90); }
void __vc_fail(const char *w, int on) { if (!strcmp(w, "new")) fail_new = on; else fail_get = on; }  // fail_get: whatever else creation needs
void __vc_havoc(void *, std::size_t) {}
unsigned long __vc_fp() {
  unsigned short c;
  unsigned m;
  asm volatile("fnstcw %0" : "=m"(c));
  asm volatile("stmxcsr %0" : "=m"(m));
  return c | (unsigned long)(m & ~0x3fu) << 32;
}
void __vc_set_fp(unsigned long v) {
  unsigned short c = (unsigned short)v;
  unsigned m = (unsigned)(v >> 32);
  asm volatile("fldcw %0" : : "m"(c));
  asm volatile("ldmxcsr %0" : : "m"(m));
}
void __vc_print(const char *s) { out(s); out("\n"); }
#if defined(VC_SS)
struct Shadow { char *p; std::size_t n; char *owner; };
static Shadow shadow[100000];
static int nshadow;
long __real_syscall(long nr, ...);
int __real_munmap(void *p, std::size_t n);
long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  if (nr != 453) {
    if (nr == SYS_mmap || nr == SYS_mprotect || nr == SYS_munmap) return __real_syscall(nr, a, b, c, d, e, f);
    violated("C25", "shadow stack: the system call is map_shadow_stack");
  }
  if ((int)a) violated("C25", "shadow stack: the address is left to the system");
  if ((int)c != 1) violated("C25", "shadow stack: a restore token is requested");
  if (b & 7 || (std::size_t)b < 4096) violated("C25", "shadow stack: the size is a multiple of 8 and at least 4 KiB");
  if (fail_get) { bool h; if (next(2, h) && h) return -1; }
  if (nshadow == 100000) _exit(90);
  shadow[nshadow] = Shadow{sys_map(b), (std::size_t)b, nullptr};
  return (long)shadow[nshadow++].p;
}
int __wrap_munmap(void *p, std::size_t n) {
  for (int i = nshadow - 1; i >= 0; --i)
    if (shadow[i].p == p) {
      if ((n + 4095) / 4096 != (shadow[i].n + 4095) / 4096) violated("C25", "shadow stack: it is unmapped as a whole");
      char here;
      Reg *r = find(&here);
      if (shadow[i].owner && r && r->p == shadow[i].owner) violated("C25", "shadow stack: that of the running context is not unmapped");
      shadow[i] = shadow[--nshadow];
      return __real_munmap(p, n);
    }
  violated("C25", "shadow stack: what is unmapped is a mapped shadow stack");
}
static void ss_make(char *sp, Reg *r) {
  char *t = *(char **)(sp - 8);
  for (int i = nshadow - 1; i >= 0; --i)
    if (t >= shadow[i].p && t <= shadow[i].p + shadow[i].n) {
      if (t != shadow[i].p + shadow[i].n) violated("C25", "shadow stack: make is given the top of the shadow stack");
      if (shadow[i].owner) violated("C25", "shadow stack: every context has one of its own");
      shadow[i].owner = r->p;
      return;
    }
  violated("C25", "shadow stack: make is given a shadow stack");
}
bool __vc_san_idle() {
  for (int i = 0; i < nshadow; ++i) {
    Reg *r = shadow[i].owner ? find(shadow[i].owner) : 0;
    if (!r || !r->live) return false;
  }
  return true;
}
void __vc_san_released(const void *b) {
  for (int i = 0; i < nshadow; ++i)
    if (shadow[i].owner == b) violated("C25", "shadow stack: that of a context that ended is unmapped");
}
#endif
#if defined(VC_FC)
void *__real_make_fcontext(void *sp, std::size_t size, void (*fn)(void *));
void *__wrap_make_fcontext(void *sp, std::size_t size, void (*fn)(void *)) {
  last_top = sp; last_size = size;
  Reg *r = find(sp);
  if (!r || !r->live) violated("C04", "make: the context is made on a live stack of the allocator");
  if ((char *)sp - size < r->p) violated("C04", "make: the initial stack does not reach beyond the allocator's stack");
#if defined(VC_SS)
  ss_make((char *)sp, r);
#endif
  return __real_make_fcontext(sp, size, fn);
}
#elif !defined(VC_NONE) && !defined(VC_WIN)
#if defined(VC_SEG)
// split-stack runtime: the current state is a token; it changes while a context runs (its stack grows)
static unsigned long ss_id = 1, ss_cur = 1000, ss_run_id = 1, ss_run = 1000, ss_next = 100000;
static struct { const ucontext_t *uc; unsigned long id, cur; } ss_tab[100000];
static int ss_n;
static void ss_switch(const ucontext_t *o, const ucontext_t *u) {
  if (ss_n >= 99999) _exit(90);
  ss_tab[ss_n].uc = o; ss_tab[ss_n].id = ss_run_id; ss_tab[ss_n++].cur = ss_run;
  int i = ss_n - 1;
  while (i >= 0 && ss_tab[i].uc != u) --i;
  if (i < 0) {
    Reg *r = find((char *)u->uc_stack.ss_sp);
    if (!r || ss_id != (unsigned long)r->p) violated("C13", "switch: the split-stack state of the resumed context is installed");
  } else {
    if (ss_tab[i].id != ss_id || ss_tab[i].cur != ss_cur) violated("C13", "switch: the split-stack state of the resumed context is installed");
    ss_tab[i] = ss_tab[--ss_n];
  }
  ss_run_id = ss_id;
  ss_run = ss_cur = ss_next += 100;
}
#endif
#if defined(BOOST_USE_ASAN) || defined(BOOST_USE_TSAN)
// what the sanitizers are told about a context, by its machine-state record
struct San { const ucontext_t *uc; char *lo; std::size_t n; long tok; bool gone; void *tsan; };
static San san_tab[4096];
static int san_n;
static long san_tok;
static const ucontext_t *san_cur;
static San *san_of(const ucontext_t *u) {
  for (int i = san_n - 1; i >= 0; --i) if (san_tab[i].uc == u) return &san_tab[i];
  if (san_n == 4096) _exit(90);
  San &s = san_tab[san_n++];
  s = San{u, reinterpret_cast<char *>(0x7f0000000000), 8u << 20, 0, false, nullptr};
  return &s;
}
static void san_make(const ucontext_t *u) {
  san_of(u);
  for (int i = san_n - 1; i >= 0; --i) if (san_tab[i].uc == u) { san_tab[i] = San{u, (char *)u->uc_stack.ss_sp, u->uc_stack.ss_size, 0, false, nullptr}; return; }
}
static bool pend, arr;
static const char *pend_lo;
static std::size_t pend_n;
static long pend_tok;
static bool pend_gone;
static San *arr_from, san_main{nullptr, reinterpret_cast<char *>(0x7f0000000000), 8u << 20, 0, false, nullptr};
static const ucontext_t *main_uc;
static San *san_now() { return san_cur ? san_of(san_cur) : &san_main; }
static void *tsan_pend;
static char tsan_f[4096];      // 1: live
static int tsan_n;
#if defined(BOOST_USE_ASAN)
void __sanitizer_start_switch_fiber(void **save, const void *lo, std::size_t n) {
  if (pend || arr) violated("C24", "asan: the previous switch was completed");
  pend = true;
  pend_lo = (const char *)lo;
  pend_n = n;
  pend_gone = !save;
  pend_tok = save ? ++san_tok : 0;
  if (save) *save = (void *)pend_tok;
}
void __sanitizer_finish_switch_fiber(void *fake, const void **lo, std::size_t *n) {
  if (!arr) violated("C24", "asan: a switch is completed once");
  San *s = san_now();
  if ((long)fake != s->tok) violated("C24", "asan: the fake stack saved by the resumed context is restored");
  s->tok = 0;
  if (lo) *lo = arr_from->lo;
  if (n) *n = arr_from->n;
  arr = false;
}
#endif
#if defined(BOOST_USE_TSAN)
static void *tsan_new() { if (tsan_n == 4096) _exit(90); tsan_f[tsan_n] = 1; return &tsan_f[tsan_n++]; }
static bool tsan_live(void *p) { return p >= tsan_f && p < tsan_f + 4096 && *(char *)p; }
void *__tsan_get_current_fiber() { San *s = san_now(); if (!s->tsan) s->tsan = tsan_new(); return s->tsan; }
void *__tsan_create_fiber(unsigned) { return tsan_new(); }
void __tsan_destroy_fiber(void *p) {
  if (!tsan_live(p)) violated("C24", "tsan: destruction of a live fiber");
  if (p == san_now()->tsan) violated("C24", "tsan: the running fiber is not destroyed");
  *(char *)p = 0;
}
void __tsan_switch_to_fiber(void *p, unsigned) {
  if (!tsan_live(p)) violated("C24", "tsan: switch to the fiber of a live fiber");
  if (tsan_pend) violated("C24", "tsan: a switch is announced once");
  tsan_pend = p;
}
#endif
static void san_switch(const ucontext_t *o, const ucontext_t *u) {
  if (!san_cur) { San m = san_main; san_cur = o; *san_of(o) = San{o, m.lo, m.n, m.tok, m.gone, m.tsan}; }
  San *c = san_of(o);
  San *t = san_of(u);
#if defined(BOOST_USE_ASAN)
  if (!pend) violated("C24", "asan: every switch is announced");
  c->tok = pend_tok;
  c->gone = pend_gone;
  if (pend_lo != t->lo || pend_n != t->n) violated("C24", "asan: the announced stack is that of the resumed context");
  if (t->gone) violated("C24", "asan: a context that gave up its fake stack is not resumed");
  pend = false;
  arr = true;
  arr_from = c;
#endif
#if defined(BOOST_USE_TSAN)
  if (!tsan_pend) violated("C24", "tsan: every switch is announced");
  if (!t->tsan) {
    for (int i = 0; i < san_n; ++i) if (san_tab[i].tsan == tsan_pend) violated("C24", "tsan: the announced fiber is that of the resumed context");
    t->tsan = tsan_pend;
  }
  if (t->tsan != tsan_pend) violated("C24", "tsan: the announced fiber is that of the resumed context");
  tsan_pend = nullptr;
#endif
  san_cur = u;
}
bool __vc_san_idle() { return !pend && !arr && !tsan_pend; }
void __vc_san_released(const void *base) {
  Reg *r = find(const_cast<void *>(base));
  for (int i = 0; r && i < san_n; ++i)
    if (san_tab[i].lo >= r->p && san_tab[i].lo < r->p + r->n) {
      if (san_tab[i].tok) violated("C24", "asan: the fake stack of a context that ended is given up");
#if defined(BOOST_USE_TSAN)
      if (san_tab[i].tsan && *(char *)san_tab[i].tsan) violated("C24", "tsan: the fiber of a context that ended is destroyed");
#endif
    }
}
#endif
int __real_swapcontext(ucontext_t *o, const ucontext_t *u);
int __wrap_swapcontext(ucontext_t *o, const ucontext_t *u) {
  if (cur_uc && cur_uc != o) violated("C18", "switch: the machine state of the suspended context is stored in its own record");
  cur_uc = const_cast<ucontext_t *>(u);
#if defined(VC_SEG)
  ss_switch(o, u);
#endif
#if defined(BOOST_USE_ASAN) || defined(BOOST_USE_TSAN)
  san_switch(o, u);
#endif
  return __real_swapcontext(o, u);
}
int __real_getcontext(ucontext_t *u);
int __wrap_getcontext(ucontext_t *u) {
  if (fail_get) { bool h; if (next(2, h) && h) return -1; }
  return __real_getcontext(u);
}
void __real_makecontext(ucontext_t *u, void (*fn)(), int n, ...);
void __wrap_makecontext(ucontext_t *u, void (*fn)(), int n, ...) {
  va_list ap; va_start(ap, n);
  void *a = va_arg(ap, void *);
  va_end(ap);
  last_size = u->uc_stack.ss_size;
  last_top = (char *)u->uc_stack.ss_sp + last_size;
  Reg *r = find(u->uc_stack.ss_sp);
  if (!r || !r->live) violated("C04", "make: the context is made on a live stack of the allocator");
  if ((char *)last_top > r->p + r->n) violated("C04", "make: the initial stack does not reach beyond the allocator's stack");
  if (u->uc_link) violated("C05", "make: no implicit successor context is set");
#if defined(BOOST_USE_ASAN) || defined(BOOST_USE_TSAN)
  san_make(u);
#endif
#if defined(VC_SEG)
  for (int i = ss_n - 1; i >= 0; --i) if (ss_tab[i].uc == u) ss_tab[i] = ss_tab[--ss_n];
#endif
  __real_makecontext(u, fn, n, a);
}
#endif
#if defined(VC_WIN)
// Win32 fibers over ucontext
struct WinFiber { ucontext_t uc; void (*fn)(void *); void *data; char *stack; bool live, running; };
static WinFiber *wf_cur;
static bool wf_asked;
static unsigned wf_err;
static WinFiber *wf_main() {
  WinFiber *f = static_cast<WinFiber *>(__libc_malloc(sizeof(WinFiber)));
  memset(f, 0, sizeof *f);
  f->live = f->running = true;
  return f;
}
static void wf_ask() {
  if (wf_asked) return;
  wf_asked = true;
  bool h;
  if (next(2, h) && h) wf_cur = wf_main();
}
static void wf_entry(unsigned a, unsigned b) {
  WinFiber *f = reinterpret_cast<WinFiber *>((unsigned long)a << 32 | b);
  f->fn(f->data);
  violated("C05", "control: a finished context hands over control instead of returning off its stack");
}
int IsThreadAFiber() { wf_ask(); return wf_cur != 0; }
void *GetCurrentFiber() { if (!wf_cur) violated("C21", "fiber: GetCurrentFiber() is used only in a fiber"); return wf_cur; }
void *ConvertThreadToFiber(void *) {
  wf_ask();
  if (wf_cur) { wf_err = 1280; return 0; }
  return wf_cur = wf_main();
}
int ConvertFiberToThread() {
  if (!wf_cur || wf_cur->stack) violated("C21", "fiber: only the thread's own fiber is converted back");
  wf_cur->live = false;
  wf_cur = 0;
  return 1;
}
void *CreateFiber(unsigned long, void (*fn)(void *), void *data) {
  if (fail_get) { bool h; if (next(2, h) && h) { wf_err = 8; return 0; } }
  WinFiber *f = wf_main();
  f->running = false;
  f->fn = fn;
  f->data = data;
  f->stack = sys_map(262144);
  getcontext(&f->uc);
  f->uc.uc_stack.ss_sp = f->stack;
  f->uc.uc_stack.ss_size = 262144;
  f->uc.uc_link = 0;
  unsigned long v = reinterpret_cast<unsigned long>(f);
  makecontext(&f->uc, reinterpret_cast<void (*)()>(wf_entry), 2, (unsigned)(v >> 32), (unsigned)v);
  return f;
}
void SwitchToFiber(void *p) {
  WinFiber *f = static_cast<WinFiber *>(p), *c = wf_cur;
  if (!c) violated("C21", "fiber: a thread is converted before it switches");
  if (!f || !f->live) violated("C21", "fiber: SwitchToFiber() of a live fiber");
  if (f == c) violated("C21", "fiber: switch only to a suspended fiber");
  c->running = false;
  f->running = true;
  wf_cur = f;
  swapcontext(&c->uc, &f->uc);
}
void DeleteFiber(void *p) {
  WinFiber *f = static_cast<WinFiber *>(p);
  if (!f || !f->live) violated("C21", "fiber: DeleteFiber() of a live fiber");
  if (f == wf_cur || !f->stack) violated("C21", "fiber: the running fiber is not deleted (it would end the thread)");
  f->live = false;
  sys_protect(f->stack, 262144, PROT_NONE);
}
unsigned GetLastError() { return wf_err; }
#endif
#if defined(VC_SEG)
static void ss_store(void *c, unsigned long id, unsigned long v) { unsigned long *p = (unsigned long *)c; p[0] = id; for (int i = 1; i < 10; ++i) p[i] = v + i; }
void __vc_segments(void *c, const void *base) { ss_store(c, (unsigned long)base, ss_next += 100); }
void __splitstack_getcontext(void *c[10]) { ss_store(c, ss_id, ss_cur); }
void __splitstack_setcontext(void *c[10]) {
  unsigned long *p = (unsigned long *)c;
  ss_id = p[0];
  ss_cur = p[1] - 1;
  for (int i = 2; i < 10; ++i) if (p[i] != ss_cur + i) violated("C13", "switch: the installed split-stack descriptor is complete");
}
#else
void __vc_segments(void *, const void *) {}
#endif
}
void *operator new(std::size_t n) {
  if (fail_new == 2) violated("C08", "handle: an operation that needs no memory allocates none");
  if (fail_new) { bool h; if (next(2, h) && h) throw std::bad_alloc(); }
  void *p = __libc_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { __libc_free(p); }
void operator delete(void *p, std::size_t) noexcept { __libc_free(p); }
extern "C" char __start_hdata[] __attribute__((weak)), __stop_hdata[] __attribute__((weak)), __start_hbss[] __attribute__((weak)), __stop_hbss[] __attribute__((weak));
int main() {
  const char *e = getenv("VC_INPUTS");
  if (e) {
    char *q = const_cast<char *>(e);
    while (*q) { in_v[in_n++] = (long long)strtoull(q, &q, 10); while (*q == ',') ++q; }
  } else {
    rnd = 1;
    const char *s = getenv("VC_SEED");
    rs = 0x9e3779b97f4a7c15ull * (1 + (s ? strtoull(s, 0, 10) : 1));
    for (int i = 0; i < 8; ++i) rnd64();
    max_steps = 400;
    const char *l = getenv("VC_LONG");
    if (l) { long_run = 1; max_steps = atoi(l); }
  }
  only = getenv("VC_PROPS");
  std::set_terminate(on_terminate);
  const char *n = getenv("VC_RUNS");
  std::size_t d = __stop_hdata - __start_hdata, b = __stop_hbss - __start_hbss;
  char *keep = sys_map(d + b + 1);
  if (d) memcpy(keep, __start_hdata, d);
  if (b) memcpy(keep + d, __start_hbss, b);
  for (volatile int i = n ? atoi(n) : 1; i > 0; --i) {  // the variables of the harness start from scratch, those of the library do not
    char here;
    main_frame = &here;
    if (!long_run || !setjmp(next_run)) VC_UNIT();
    if (d) memcpy(__start_hdata, keep, d);
    if (b) memcpy(__start_hbss, keep + d, b);
  }
  _exit(90);
}
