// Ghost vocabulary of the contracts.  The VC generator (vc/engine.py) gives these symbols their meaning; the
// native replay (harness/vc_native.cpp) executes the same harness against the real library with the inputs of
// a counterexample.
#ifndef VC_H
#define VC_H
#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>
extern "C" {
void __vc_assert(bool cond, const char *prop, const char *name);  // obligation
void __vc_assume(bool cond);                                      // precondition of the harness
unsigned long __vc_u64(const char *name);                         // arbitrary value
unsigned int __vc_u32(const char *name);
int __vc_choice(int n, const char *name);                         // case split 0..n-1
void __vc_cover(const char *name);                                // must be reachable (vacuity guard)
void *__vc_region(std::size_t size, std::size_t align, const char *kind);  // fresh memory block
void __vc_free(void *base, const char *kind, const char *prop);   // obligation: base of a live block of that kind; kills it
bool __vc_live(const void *p);
void *__vc_region_base(const void *p);
std::size_t __vc_region_size(const void *p);
void __vc_end();                                                  // end of the history
void __vc_next();                                                 // end of the history; a native run may go on with another one
void __vc_expect_terminate(const char *prop);                     // from now on std::terminate is the required outcome
void __vc_leakcheck(const char *prop);                            // obligation: no heap/exception/ctx-stack block is live
bool __vc_runs_on(const void *local, const void *stack_base);     // local lives on the context stack with that base
void *__vc_ctx_top();                                             // initial stack pointer of the context made last
std::size_t __vc_ctx_size();                                      // its stack size
void *__vc_cur_ucontext();                                        // machine-state record of the running context
void __vc_protect(void *p, std::size_t n, int mode);              // 0: no access
void __vc_run_tls_dtors();
void __vc_loops(const char *prop);                                    // library loops: affine invariant, inferred and proved
void __vc_loophead();                                                // loop whose invariant is the set of states met here
void __vc_segments(void *segments_ctx, const void *stack_base);         // split-stack descriptor of a fresh context stack
void __vc_fail(const char *what, int on);                              // "new", "getcontext": may fail from now on
void __vc_threads(int n);                                             // the program has n threads; thread k runs vc_thread_main(k)
void __vc_yield();                                                    // another thread continues; this one later
int __vc_thread();                                                    // the thread that executes this
void __vc_havoc(void *p, std::size_t n);                             // forget the content
unsigned long __vc_fp();                                               // x87 control word, MXCSR << 32
void __vc_set_fp(unsigned long v);
void __vc_print(const char *s);
bool __vc_san_idle();                                                  // no switch announced to a sanitizer is under way
void __vc_san_released(const void *stack_base);                        // the stack is about to be released
#if defined(BOOST_USE_ASAN)
__attribute__((used, weak)) int vc_asan_on = 1;
#endif
#if defined(BOOST_USE_TSAN)
__attribute__((used, weak)) int vc_tsan_on = 1;
#endif
#if defined(SHADOW_STACK_SYSCALL)
__attribute__((used, weak)) int vc_shstk_on = 1;
#endif
}
#if defined(SHADOW_STACK_SYSCALL)
#define SAN_IDLE() __vc_assert(__vc_san_idle(), "C25", "shadow stack: only contexts that exist have one when the client runs")
#define SAN_RELEASED(b) __vc_san_released(b)
#elif defined(BOOST_USE_ASAN) || defined(BOOST_USE_TSAN)
#define SAN_IDLE() __vc_assert(__vc_san_idle(), "C24", "sanitizer: the switch was announced and completed when the client runs")
#define SAN_RELEASED(b) __vc_san_released(b)
#else
#define SAN_IDLE() ((void)0)
#define SAN_RELEASED(b) ((void)0)
#endif
#if defined(BOOST_USE_WINFIB)  // functions run on the stack of the operating-system fiber
#define RUNS_ON(l, b) true
#else
#define RUNS_ON(l, b) __vc_runs_on(l, b)
#endif
#define VC(prop, cond, name) __vc_assert(static_cast<bool>(cond), prop, name)
#endif
