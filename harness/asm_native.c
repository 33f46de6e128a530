/* Native driver for the x86-64 primitives: contexts switch among each other with random register contents and
   check what they get back.  Used to turn a failed obligation into a failing run.  argv: seed, number of switches */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
typedef struct { void *fctx; void *data; } transfer_t;
extern transfer_t jump_fcontext(void *to, void *vp);
extern void *make_fcontext(void *sp, size_t size, void (*fn)(transfer_t));
extern transfer_t ontop_fcontext(void *to, void *vp, transfer_t (*fn)(transfer_t));
typedef struct { uint64_t in[6], out[6], rax, rdx, rsp0, rsp1; } regs_t;
void probe(void *fn, void *a, void *b, void *c, regs_t *r);
__asm__(".text\n.globl probe\nprobe:\n"
        " push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n push %r8\n"
        " mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n"
        " mov 0(%r8),%rbx\n mov 8(%r8),%rbp\n mov 16(%r8),%r12\n mov 24(%r8),%r13\n mov 32(%r8),%r14\n mov 40(%r8),%r15\n"
        " mov %rsp,112(%r8)\n"
        " call *%rax\n"
        " mov (%rsp),%r8\n"
        " mov %rbx,48(%r8)\n mov %rbp,56(%r8)\n mov %r12,64(%r8)\n mov %r13,72(%r8)\n mov %r14,80(%r8)\n mov %r15,88(%r8)\n"
        " mov %rax,96(%r8)\n mov %rdx,104(%r8)\n mov %rsp,120(%r8)\n"
        " pop %r8\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static void bad(const char *p, const char *m) { printf("OBLIGATION-FAILED %s %s\n", p, m); fflush(stdout); _exit(77); }
#ifdef BOOST_CONTEXT_TLS_STACK_PROTECTOR
#define GUARD 1
#else
#define GUARD 0
#endif
#ifdef BOOST_USE_TSX
#define FP 0
#else
#define FP 1
#endif
static uint64_t guard(void) { uint64_t g; __asm__ volatile("mov %%fs:0x28,%0" : "=r"(g)); return g; }
static void setguard(uint64_t g) { __asm__ volatile("mov %0,%%fs:0x28" ::"r"(g)); }
static uint32_t mx(void) { uint32_t m; __asm__ volatile("stmxcsr %0" : "=m"(m)); return m; }
static void setmx(uint32_t m) { __asm__ volatile("ldmxcsr %0" ::"m"(m)); }
static uint16_t cw(void) { uint16_t m; __asm__ volatile("fnstcw %0" : "=m"(m)); return m; }
static void setcw(uint16_t m) { __asm__ volatile("fldcw %0" ::"m"(m)); }
#define N 4
static void *handle[N];
static char *stack_lo[N], *stack_hi[N];
static int entered[N] = {1};
static int cur, target, ontop_pending, left, made_by;
static uint32_t maker_mx; static uint16_t maker_cw; static uint64_t maker_guard, guard0;
static uint64_t pat_data;
static void *sent, *ret_data;
static transfer_t on_top(transfer_t t) {
  int l;
  if (!ontop_pending) bad("C02", "on-top function is called once");
  ontop_pending = 0;
  if (target && ((char *)&l < stack_lo[target] || (char *)&l >= stack_hi[target])) bad("C02", "on-top function runs on the target's stack");
  if (((uintptr_t)__builtin_frame_address(0) & 15) != 0) bad("C02", "stack is ABI-aligned at function entry");
  if (t.data != sent) bad("C02", "on-top function gets the data");
  handle[cur] = t.fctx;
  ret_data = (void *)rnd();
  t.data = ret_data;
  return t;
}
static void arrive(int self, void *fctx, void *data) {
  if (target != self) bad("C02", "the designated context is resumed");
  if (ontop_pending) bad("C02", "on-top function is called");
  if (data != ret_data) bad("C02", "receives the resumer's data");
  if (cur != self) {
    if (cur && ((char *)fctx < stack_lo[cur] || (char *)fctx >= stack_hi[cur])) bad("C02", "receives the resumer's handle");
    handle[cur] = fctx;
  }
  cur = self;
}
static void sw(int self, int t) {
  regs_t r;
  for (int i = 0; i < 6; ++i) r.in[i] = rnd();
  uint32_t m = 0x1f80 ^ ((rnd() & 3) << 13) ^ ((rnd() & 1) << 15);
  uint16_t c = 0x37f ^ ((rnd() & 3) << 10);
  uint64_t g0 = guard(), g = GUARD ? rnd() : g0;
  if (!FP) { m = mx(); c = cw(); }
  target = t;
  sent = (void *)rnd();
  int ot = (rnd() & 1) && entered[t]; /* documented: on-top only on a context that was entered before */
  entered[t] = 1;
  void *h = handle[t];
  handle[t] = 0;
  ontop_pending = ot;
  if (!ot) ret_data = sent;
  setguard(g); setmx(m); setcw(c);
  probe(ot ? (void *)ontop_fcontext : (void *)jump_fcontext, h, sent, (void *)on_top, &r);
  uint64_t g1 = guard(); uint32_t m1 = mx(); uint16_t c1 = cw();
  setguard(g0); setmx(0x1f80); setcw(0x37f);
  for (int i = 0; i < 6; ++i) if (r.in[i] != r.out[i]) bad("C01", "callee-saved register preserved");
  if (r.rsp0 != r.rsp1) bad("C01", "stack pointer restored");
  if (GUARD && g1 != g) bad("C01", "stack-protector guard restored");
  if (!GUARD && g1 != g) bad("C01", "thread-local guard left alone");
  if (FP && ((m1 & 0xffc0) != (m & 0xffc0) || c1 != c)) bad("C01", "floating point control state preserved");
  arrive(self, (void *)r.rax, (void *)r.rdx);
}
static void loop(int self) {
  while (left-- > 0) {
    int t = rnd() % N;
    if (t == self || !handle[t]) continue;
    sw(self, t);
  }
  _exit(0);
}
static void entry(transfer_t t) {
  int l;
  uint32_t m = mx(); uint16_t c = cw(); uint64_t g = guard();
  int self = target;
  if ((char *)&l < stack_lo[self] || (char *)&l >= stack_hi[self]) bad("C03", "entry function runs on the given stack");
  if (((uintptr_t)__builtin_frame_address(0) & 15) != 0) bad("C03", "stack is ABI-aligned at function entry");
  if (FP && ((m & 0xffc0) != (maker_mx & 0xffc0) || c != maker_cw)) bad("C03", "floating point control state inherited from the maker");
  if (GUARD && g != maker_guard) bad("C03", "stack-protector guard set to the maker's");
  setguard(guard0); setmx(0x1f80); setcw(0x37f);
  arrive(self, t.fctx, t.data);
  loop(self);
}
static void entry_ret(transfer_t t) { setguard(guard0); (void)t; }
static void *mk(int i, void (*f)(transfer_t)) {
  size_t sz = 65536 - (rnd() & 1023);
  char *m = mmap(0, 3 * 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memset(m, 0x5a, 3 * 65536);
  stack_lo[i] = m + 65536;
  stack_hi[i] = m + 65536 + sz;
  regs_t r;
  for (int k = 0; k < 6; ++k) r.in[k] = rnd();
  uint64_t g0 = guard(), g = maker_guard; uint32_t m0 = maker_mx; uint16_t c0 = maker_cw;
  setguard(g); setmx(m0); setcw(c0);
  probe((void *)make_fcontext, stack_hi[i], (void *)sz, (void *)f, &r);
  uint64_t g1 = guard(); uint32_t m1 = mx(); uint16_t c1 = cw();
  setguard(g0); setmx(0x1f80); setcw(0x37f);
  if (g1 != g || m1 != m0 || c1 != c0) bad("C03", "make: control state untouched");
  for (int k = 0; k < 6; ++k) if (r.in[k] != r.out[k]) bad("C03", "make: callee-saved register preserved");
  if (r.rsp0 != r.rsp1) bad("C03", "make: stack pointer restored");
  for (char *p = m; p < stack_lo[i]; ++p) if (*p != 0x5a) bad("C03", "make: writes only inside the given stack");
  for (char *p = stack_hi[i]; p < m + 3 * 65536; ++p) if (*p != 0x5a) bad("C03", "make: writes only inside the given stack");
  char *h = (char *)r.rax;
  if (h < stack_lo[i] || h + 8 > stack_hi[i]) bad("C03", "make: handle lies inside the given stack");
  return h;
}
int main(int c, char **v) {
  rs = 0x9e3779b97f4a7c15ull * (1 + (c > 1 ? strtoull(v[1], 0, 10) : 1));
  for (int i = 0; i < 8; ++i) rnd();
  left = c > 2 ? atoi(v[2]) : 400;
  guard0 = guard();
  maker_mx = FP ? 0x1f80 ^ ((rnd() & 3) << 13) : 0x1f80;
  maker_cw = FP ? 0x37f ^ ((rnd() & 3) << 10) : 0x37f;
  maker_guard = GUARD ? rnd() : guard0;
  for (int i = 1; i < N; ++i) handle[i] = mk(i, entry);
  pid_t p = fork();
  if (p < 0) return 0;
  if (p == 0) {
    void *h = mk(1, entry_ret);
    target = 1;
    jump_fcontext(h, 0);
    _exit(99);
  }
  int st;
  waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { printf("OBLIGATION-FAILED C03 make\n"); return 77; }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad("C03", "returning from the entry function exits the process with status 0");
  loop(0);
  return 0;
}
