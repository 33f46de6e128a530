From 2ed317077f1ce1f5ddf105b837f96ff9a6c71b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 01/26] fix: make_fcontext (x86_64 sysv elf) stores the stack
 guard into the new context, not the caller's frame

---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 7561c08..9336210 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -77,7 +77,7 @@ make_fcontext:
 #if defined(BOOST_CONTEXT_TLS_STACK_PROTECTOR)
     /* save stack guard */
     movq  %fs:0x28, %rcx    /* read stack guard from TLS record */
-    movq  %rcx, 0x8(%rsp)   /* save stack guard */
+    movq  %rcx, 0x8(%rax)   /* save stack guard */
 #endif
 
     /* compute abs address of label trampoline */
-- 
2.43.0


From 9a6b2acaceb162661c6a6e926d2cf943589ccaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 02/26] fix: ucontext/winfib on-top function is cleared before
 it runs, a throwing or switching one is not run again

---
 include/boost/context/continuation_ucontext.hpp | 10 ++++++++--
 include/boost/context/continuation_winfib.hpp   | 10 ++++++++--
 include/boost/context/fiber_ucontext.hpp        | 10 ++++++++--
 include/boost/context/fiber_winfib.hpp          | 10 ++++++++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 09fd311..f7a143c 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -436,8 +436,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function may throw or switch to another context,
+            // it must not be pending any longer while it is executed
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -459,8 +462,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function may throw or switch to another context,
+            // it must not be pending any longer while it is executed
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 856c868..2f2539d 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -347,8 +347,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function may throw or switch to another context,
+            // it must not be pending any longer while it is executed
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -370,8 +373,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function may throw or switch to another context,
+            // it must not be pending any longer while it is executed
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 927a139..d298109 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -490,8 +490,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function may throw or switch to another context,
+            // it must not be pending any longer while it is executed
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -509,8 +512,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function may throw or switch to another context,
+            // it must not be pending any longer while it is executed
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index cd496d1..4261b6a 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -354,8 +354,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function may throw or switch to another context,
+            // it must not be pending any longer while it is executed
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -373,8 +376,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function may throw or switch to another context,
+            // it must not be pending any longer while it is executed
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From 2385b819e8bcd230c3af0b2f28a57ee5f84b027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 03/26] fix: ucontext/winfib forced unwinding is requested
 once, destructors may switch contexts during it

---
 include/boost/context/continuation_ucontext.hpp | 4 ++++
 include/boost/context/continuation_winfib.hpp   | 4 ++++
 include/boost/context/fiber_ucontext.hpp        | 4 ++++
 include/boost/context/fiber_winfib.hpp          | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index f7a143c..bbfae29 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -434,6 +434,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // consumed, destructors running during the unwinding may switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function may throw or switch to another context,
@@ -460,6 +462,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // consumed, destructors running during the unwinding may switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function may throw or switch to another context,
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 2f2539d..7d1eaf3 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -345,6 +345,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // consumed, destructors running during the unwinding may switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function may throw or switch to another context,
@@ -371,6 +373,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // consumed, destructors running during the unwinding may switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function may throw or switch to another context,
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index d298109..3bb9b57 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -488,6 +488,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // consumed, destructors running during the unwinding may switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function may throw or switch to another context,
@@ -510,6 +512,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // consumed, destructors running during the unwinding may switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function may throw or switch to another context,
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 4261b6a..4f19ee1 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -352,6 +352,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // consumed, destructors running during the unwinding may switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function may throw or switch to another context,
@@ -374,6 +376,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // consumed, destructors running during the unwinding may switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function may throw or switch to another context,
-- 
2.43.0


From 2a8368cb662356d7ab9d43586487830c36b28fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 04/26] fix: ucontext/winfib fiber destroyed before its first
 resumption does not run its function

---
 include/boost/context/fiber_ucontext.hpp | 15 +++++++++------
 include/boost/context/fiber_winfib.hpp   | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 3bb9b57..5b50b40 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -283,15 +283,18 @@ public:
                                          & from->stack_size);
 #endif
         Ctx c{ from };
-        try {
-            // invoke context-function
+        // a context destroyed before its first resumption does not execute its function
+        if ( BOOST_LIKELY( ! force_unwind) ) {
+            try {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
+                c = std::invoke( fn_, std::move( c) );
 #endif  
-        } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            } catch ( forced_unwind const& ex) {
+                c = Ctx{ ex.from };
+            }
         }
         // this context has finished its task
 		from = nullptr;
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 4f19ee1..bb9aff9 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -220,15 +220,18 @@ public:
 
     void run() {
         Ctx c{ from };
-        try {
-            // invoke context-function
+        // a context destroyed before its first resumption does not execute its function
+        if ( BOOST_LIKELY( ! force_unwind) ) {
+            try {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
+                c = std::invoke( fn_, std::move( c) );
 #endif  
-        } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            } catch ( forced_unwind const& ex) {
+                c = Ctx{ ex.from };
+            }
         }
         // this context has finished its task
         from = nullptr;
-- 
2.43.0


From 482c54c6153ae1ebc49c147e495cf96653a48ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 05/26] fix: ucontext/winfib fiber runs the on-top function of
 its first resumption

---
 include/boost/context/fiber_ucontext.hpp | 14 ++++++++++++--
 include/boost/context/fiber_winfib.hpp   | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 5b50b40..211d430 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -282,10 +282,20 @@ public:
                                          (const void **) & from->stack_bottom,
                                          & from->stack_size);
 #endif
-        Ctx c{ from };
+        Ctx c{};
         // a context destroyed before its first resumption does not execute its function
-        if ( BOOST_LIKELY( ! force_unwind) ) {
+        if ( BOOST_UNLIKELY( force_unwind) ) {
+            c = Ctx{ from };
+        } else {
             try {
+                fiber_activation_record * ptr = from;
+                if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                    // first resumption by resume_with()
+                    auto fn = std::move( ontop);
+                    ontop = nullptr;
+                    ptr = fn( ptr);
+                }
+                c = Ctx{ ptr };
                 // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
                 c = boost::context::detail::invoke( fn_, std::move( c) );
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index bb9aff9..364551b 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -219,10 +219,20 @@ public:
     }
 
     void run() {
-        Ctx c{ from };
+        Ctx c{};
         // a context destroyed before its first resumption does not execute its function
-        if ( BOOST_LIKELY( ! force_unwind) ) {
+        if ( BOOST_UNLIKELY( force_unwind) ) {
+            c = Ctx{ from };
+        } else {
             try {
+                fiber_activation_record * ptr = from;
+                if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                    // first resumption by resume_with()
+                    auto fn = std::move( ontop);
+                    ontop = nullptr;
+                    ptr = fn( ptr);
+                }
+                c = Ctx{ ptr };
                 // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
                 c = boost::context::detail::invoke( fn_, std::move( c) );
-- 
2.43.0


From f04fad836494d91d3a9bee7efa490f38b090ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 06/26] fix: continuation::resume_with() with an lvalue
 function reads the stored copy with its real type

---
 include/boost/context/continuation_fcontext.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 0977e0f..9124672 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -338,7 +338,7 @@ public:
                     std::exchange( fctx_, nullptr),
 #endif
                     & p,
-                    detail::context_ontop< continuation, Fn >).fctx };
+                    detail::context_ontop< continuation, typename std::decay< Fn >::type >).fctx };
     }
 
     explicit operator bool() const noexcept {
-- 
2.43.0


From b1ae52cec88b722572fd2f2f853667e0adfd801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 07/26] fix: protected_fixedsize_stack rejects sizes whose
 rounding overflows

---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index cc77d7d..b5009b8 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -16,6 +16,7 @@ extern "C" {
 
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <new>
 
 #include <boost/assert.hpp>
@@ -50,6 +51,9 @@ public:
     }
 
     stack_context allocate() {
+        // size plus rounding plus guard-page must be representable
+        if ( size_ > (std::numeric_limits< std::size_t >::max)() - 2 * traits_type::page_size() ) throw std::bad_alloc();
+
         // calculate how many pages are required
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
-- 
2.43.0


From 7a66904c4a47688e5312498c8ab333c4a35c3e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 08/26] fix: protected_fixedsize_stack reports a failing
 mprotect() instead of returning a stack without guard page

---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index b5009b8..2e5c69a 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -69,9 +69,10 @@ public:
         if ( MAP_FAILED == vp) throw std::bad_alloc();
 
         // conforming to POSIX.1-2001
-        const int result( ::mprotect( vp, traits_type::page_size(), PROT_NONE) );
-        boost::ignore_unused(result);
-        BOOST_ASSERT( 0 == result);
+        if ( 0 != ::mprotect( vp, traits_type::page_size(), PROT_NONE) ) {
+            ::munmap( vp, size__);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From 4463183563181e7575db005d118b5068eb502aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 09/26] fix: a failing getcontext() releases the stack through
 the captured stack-allocator

---
 include/boost/context/continuation_ucontext.hpp | 10 ++++++----
 include/boost/context/fiber_ucontext.hpp        | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index bbfae29..08a5c5d 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -295,8 +295,9 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        // the stack-allocator might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
                 std::error_code( errno, std::system_category() ),
                 "getcontext() failed");
@@ -338,8 +339,9 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        // the stack-allocator might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
                 std::error_code( errno, std::system_category() ),
                 "getcontext() failed");
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 211d430..55a8626 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -333,8 +333,9 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        // the stack-allocator might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
                 std::error_code( errno, std::system_category() ),
                 "getcontext() failed");
@@ -384,8 +385,9 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        // the stack-allocator might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
                 std::error_code( errno, std::system_category() ),
                 "getcontext() failed");
-- 
2.43.0


From 65e30a6ccf51c46b3595a1f98a6cda7ee2b45f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 10/26] fix: ucontext/winfib resume_with() changes no state if
 capturing the function throws

---
 include/boost/context/continuation_ucontext.hpp | 15 ++++++++-------
 include/boost/context/continuation_winfib.hpp   | 15 ++++++++-------
 include/boost/context/fiber_ucontext.hpp        | 15 ++++++++-------
 include/boost/context/fiber_winfib.hpp          | 15 ++++++++-------
 4 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 08a5c5d..a171aca 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -150,13 +150,9 @@ struct BOOST_CONTEXT_DECL activation_record {
 
     template< typename Ctx, typename Fn >
     activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+        // capturing the function might throw, nothing has been changed yet in this case
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -172,7 +168,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -185,6 +181,11 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 7d1eaf3..58a611e 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -131,13 +131,9 @@ struct BOOST_CONTEXT_DECL activation_record {
 
     template< typename Ctx, typename Fn >
     activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+        // capturing the function might throw, nothing has been changed yet in this case
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -153,7 +149,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -166,6 +162,11 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 55a8626..c090797 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -172,13 +172,9 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     template< typename Ctx, typename Fn >
     fiber_activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+        // capturing the function might throw, nothing has been changed yet in this case
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -194,7 +190,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -207,6 +203,11 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 364551b..642d61b 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -130,13 +130,9 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     template< typename Ctx, typename Fn >
     fiber_activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+        // capturing the function might throw, nothing has been changed yet in this case
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -152,7 +148,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -165,6 +161,11 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-- 
2.43.0


From 3ea2825fc1b48a2e5477bb6d8f4e42cd93aaf33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 11/26] fix: ucontext/winfib resume_with() keeps the handle
 valid if capturing the function throws

---
 include/boost/context/continuation_ucontext.hpp | 13 ++++++++-----
 include/boost/context/continuation_winfib.hpp   | 13 ++++++++-----
 include/boost/context/fiber_ucontext.hpp        | 13 ++++++++-----
 include/boost/context/fiber_winfib.hpp          | 13 ++++++++-----
 4 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index a171aca..1b89d6f 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -149,7 +149,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
+    void set_ontop( Fn && fn) {
         // capturing the function might throw, nothing has been changed yet in this case
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         ontop = std::bind(
@@ -181,6 +181,9 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+    }
+
+    activation_record * resume_with() {
 		from = current();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
@@ -457,12 +460,12 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
+        // the handle remains valid if capturing the function throws
+        ptr_->template set_ontop< continuation >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+        detail::activation_record * ptr = detail::exchange( ptr_, nullptr)->resume_with();
 #else
-        detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+        detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // consumed, destructors running during the unwinding may switch contexts
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 58a611e..387e235 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -130,7 +130,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
+    void set_ontop( Fn && fn) {
         // capturing the function might throw, nothing has been changed yet in this case
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         ontop = std::bind(
@@ -162,6 +162,9 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+    }
+
+    activation_record * resume_with() {
         from = current();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
@@ -366,12 +369,12 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
+        // the handle remains valid if capturing the function throws
+        ptr_->template set_ontop< continuation >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+        detail::activation_record * ptr = detail::exchange( ptr_, nullptr)->resume_with();
 #else
-        detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+        detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // consumed, destructors running during the unwinding may switch contexts
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index c090797..5544447 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -171,7 +171,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
+    void set_ontop( Fn && fn) {
         // capturing the function might throw, nothing has been changed yet in this case
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         ontop = std::bind(
@@ -203,6 +203,9 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+    }
+
+    fiber_activation_record * resume_with() {
 		from = current();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
@@ -520,12 +523,12 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
+        // the handle remains valid if capturing the function throws
+        ptr_->template set_ontop< fiber >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+        detail::fiber_activation_record * ptr = detail::exchange( ptr_, nullptr)->resume_with();
 #else
-        detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+        detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // consumed, destructors running during the unwinding may switch contexts
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 642d61b..e7a731d 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -129,7 +129,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
+    void set_ontop( Fn && fn) {
         // capturing the function might throw, nothing has been changed yet in this case
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         ontop = std::bind(
@@ -161,6 +161,9 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+    }
+
+    fiber_activation_record * resume_with() {
         from = current();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
@@ -382,12 +385,12 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
+        // the handle remains valid if capturing the function throws
+        ptr_->template set_ontop< fiber >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+        detail::fiber_activation_record * ptr = detail::exchange( ptr_, nullptr)->resume_with();
 #else
-        detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+        detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // consumed, destructors running during the unwinding may switch contexts
-- 
2.43.0


From 4064a8cb1faeac089483696a13fb28bb8a1afd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 12/26] fix: an exception escaping a context-function
 terminates without unwinding other contexts

---
 include/boost/context/continuation_fcontext.hpp | 4 +++-
 include/boost/context/continuation_ucontext.hpp | 6 ++++--
 include/boost/context/fiber_fcontext.hpp        | 4 +++-
 include/boost/context/fiber_ucontext.hpp        | 6 ++++--
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 9124672..d5f492e 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -84,8 +84,10 @@ transfer_t context_exit( transfer_t t) noexcept {
     return { nullptr, nullptr };
 }
 
+// not noexcept: an escaping exception must not find a handler, std::terminate() is
+// called without unwinding (destroying handles of other contexts would resume them)
 template< typename Rec >
-void context_entry( transfer_t t) noexcept {
+void context_entry( transfer_t t) {
     // transfer control structure to the context-stack
     Rec * rec = static_cast< Rec * >( t.data);
     BOOST_ASSERT( nullptr != t.fctx);
diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 1b89d6f..931ca7e 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -61,14 +61,16 @@ namespace detail {
 // tampoline function
 // entered if the execution context
 // is resumed for the first time
+// not noexcept: an escaping exception must not find a handler, std::terminate() is
+// called without unwinding (destroying handles of other contexts would resume them)
 template <typename Record>
 #if BOOST_OS_MACOS
 static void entry_func(std::uint32_t data_high,
-                       std::uint32_t data_low) noexcept {
+                       std::uint32_t data_low) {
   auto data =
       reinterpret_cast<void *>(std::uint64_t(data_high) << 32 | data_low);
 #else
-static void entry_func(void *data) noexcept {
+static void entry_func(void *data) {
 #endif
   Record *record = static_cast<Record *>(data);
   BOOST_ASSERT(nullptr != record);
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index a2760cb..b329ebd 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -84,8 +84,10 @@ transfer_t fiber_exit( transfer_t t) noexcept {
     return { nullptr, nullptr };
 }
 
+// not noexcept: an escaping exception must not find a handler, std::terminate() is
+// called without unwinding (destroying handles of other contexts would resume them)
 template< typename Rec >
-void fiber_entry( transfer_t t) noexcept {
+void fiber_entry( transfer_t t) {
     // transfer control structure to the context-stack
     Rec * rec = static_cast< Rec * >( t.data);
     BOOST_ASSERT( nullptr != t.fctx);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 5544447..74f04ce 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -66,14 +66,16 @@ namespace detail {
 // tampoline function
 // entered if the execution context
 // is resumed for the first time
+// not noexcept: an escaping exception must not find a handler, std::terminate() is
+// called without unwinding (destroying handles of other contexts would resume them)
 template <typename Record>
 #if BOOST_OS_MACOS
 static void fiber_entry_func(std::uint32_t data_high,
-                             std::uint32_t data_low) noexcept {
+                             std::uint32_t data_low) {
   auto data =
       reinterpret_cast<void *>(std::uint64_t(data_high) << 32 | data_low);
 #else
-static void fiber_entry_func(void *data) noexcept {
+static void fiber_entry_func(void *data) {
 #endif
   Record *record = static_cast<Record *>(data);
   BOOST_ASSERT(nullptr != record);
-- 
2.43.0


From a694f5c61a9df69d5e6a5beca0c79dea395ad9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:45 +0000
Subject: [PATCH 13/26] fix: pooled_fixedsize_stack with mapped stacks maps
 over whole pages of its own block only

---
 include/boost/context/pooled_fixedsize_stack.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index c115c86..fb0dee9 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -47,11 +47,17 @@ struct map_stack_allocator {
     typedef std::ptrdiff_t difference_type;
 
     static char * malloc( const size_type bytes) {
+        // mmap() replaces whole pages, so the block has to consist of whole pages
+        const size_type page = traitsT::page_size();
+        const size_type size = ( bytes + page - 1) / page * page;
+        if ( size < bytes) {
+            return 0;
+        }
         void * block;
-        if ( ::posix_memalign( &block, traitsT::page_size(), bytes) != 0) {
+        if ( ::posix_memalign( &block, page, size) != 0) {
             return 0;
         }
-        if ( mmap( block, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
+        if ( mmap( block, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
             std::free( block);
             return 0;
         }
-- 
2.43.0


From 3942254c05d352567cc3324a797e7f0e1db190bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:39 +0000
Subject: [PATCH 14/26] fix: winfib reports a failing CreateFiber() instead of
 returning a context that cannot run

---
 include/boost/context/continuation_winfib.hpp | 18 +++++++++++++++++-
 include/boost/context/fiber_winfib.hpp        | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 387e235..f71dd96 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -102,7 +102,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     virtual ~activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -260,6 +260,14 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -277,6 +285,14 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index e7a731d..84d83a9 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -101,7 +101,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     virtual ~fiber_activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -272,6 +272,14 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -289,6 +297,14 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
-- 
2.43.0


From b325aaeecd1648d97e5d1e174b08408af31e5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:29 +0000
Subject: [PATCH 15/26] fix: mips64 n64: finish reloaded the global pointer
 from dead stack memory

After a context-function returned, finish read $gp from the consumed
context-data below $sp, which the context-function's own frames have
overwritten.  Keep it above the context-data (as the o32 port does).
---
 src/asm/make_mips64_n64_elf_gas.S | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/asm/make_mips64_n64_elf_gas.S b/src/asm/make_mips64_n64_elf_gas.S
index 40f29a5..fb6a65a 100644
--- a/src/asm/make_mips64_n64_elf_gas.S
+++ b/src/asm/make_mips64_n64_elf_gas.S
@@ -63,12 +63,14 @@ make_fcontext:
     and $v0, $v1, $a0
 
     # reserve space for context-data on context-stack
-    daddiu $v0, $v0, -160
+    #  and 16 bytes (including the global pointer) for label finish
+    daddiu $v0, $v0, -176
 
     # third arg of make_fcontext() == address of context-function
     sd  $a2, 152($v0)
-    # save global pointer in context-data
-    sd  $gp, 136($v0)
+    # save global pointer above the context-data, the context-data itself
+    #  is overwritten by the frames of the context-function
+    sd  $gp, 160($v0)
 
     # psudo instruction compute abs address of label finish based on GP
     dla  $t9, finish
@@ -81,12 +83,9 @@ make_fcontext:
 
 finish:
     # reload our gp register (needed for la)
-    daddiu $t0, $sp, -160
-    ld $gp, 136($t0)
+    ld $gp, 0($sp)
 
     # call _exit(0)
-    #  the previous function should have left the 16 bytes incoming argument
-    #  area on the stack which we reuse for calling _exit
     dla $t9, _exit
     move $a0, $zero
     jr $t9
-- 
2.43.0


From 3164b882127c9542e603d86e67b667fccd3c1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:29 +0000
Subject: [PATCH 16/26] fix: sparc64: make_fcontext did not clear the lowest
 address bit when aligning the stack

---
 src/asm/make_sparc64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_sparc64_sysv_elf_gas.S b/src/asm/make_sparc64_sysv_elf_gas.S
index 3e7ee80..8049779 100644
--- a/src/asm/make_sparc64_sysv_elf_gas.S
+++ b/src/asm/make_sparc64_sysv_elf_gas.S
@@ -23,7 +23,7 @@ make_fcontext:
 	save	%sp, -CC64FSZ, %sp
 
 	# shift address in %i0 (allocated stack) to lower 16 byte boundary
-	and	%i0, -0xf, %i0
+	and	%i0, -0x10, %i0
 
 	# reserve space for two frames on the stack
 	# the first frame is for the call the second one holds the data
-- 
2.43.0


From 1a6260e11e7e018597e2ee7139b0e74a70ae0f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:29 +0000
Subject: [PATCH 17/26] fix: i386 Mach-O: context-functions were entered with a
 stack misaligned by 8 bytes

The macOS IA-32 ABI requires a 16 byte aligned stack at calls; 0x34 is the
offset of the ELF port, whose context-data is 8 bytes larger.
---
 src/asm/make_i386_sysv_macho_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_i386_sysv_macho_gas.S b/src/asm/make_i386_sysv_macho_gas.S
index a5890d7..0457abc 100644
--- a/src/asm/make_i386_sysv_macho_gas.S
+++ b/src/asm/make_i386_sysv_macho_gas.S
@@ -40,7 +40,7 @@ _make_fcontext:
     andl  $-16, %eax
 
     /* reserve space for context-data on context-stack, and align the stack */
-    leal  -0x34(%eax), %eax
+    leal  -0x2c(%eax), %eax
 
     /* third arg of make_fcontext() == address of context-function */
     /* stored in EBX */
-- 
2.43.0


From 0431c47a69c5990023c99325be6af3c18e937264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 18/26] fix: ppc64 SysV ELF: non-volatile floating-point
 registers F14-F31 were lost across context switches

The ELFv1 and ELFv2 ABIs make F14-F31 callee-saved (the ppc32 port saves
them); jump_fcontext/ontop_fcontext neither saved nor restored them.
---
 src/asm/jump_ppc64_sysv_elf_gas.S  | 55 +++++++++++++++++++++++++-----
 src/asm/make_ppc64_sysv_elf_gas.S  | 19 ++++++-----
 src/asm/ontop_ppc64_sysv_elf_gas.S | 55 +++++++++++++++++++++++++-----
 3 files changed, 102 insertions(+), 27 deletions(-)

diff --git a/src/asm/jump_ppc64_sysv_elf_gas.S b/src/asm/jump_ppc64_sysv_elf_gas.S
index fc3c6d6..e1ee772 100644
--- a/src/asm/jump_ppc64_sysv_elf_gas.S
+++ b/src/asm/jump_ppc64_sysv_elf_gas.S
@@ -47,21 +47,22 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  |         192         |   ..   |       320      |  *
  *  -------------------------------------------------  *
- *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
+ *  |         F15         |   ..   |       F31      |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
  *  -------------------------------------------------  *
+ *  |    328    |    336    |    344    |    352    |  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | back-chain|  cr saved |  lr saved |  compiler |  *
  *  -------------------------------------------------  *
- *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    360    |    368    |    376    |    384    |  *
+ *  -------------------------------------------------  *
+ *  |   linker  | TOC saved |    FCTX   |    DATA   |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -98,7 +99,7 @@ jump_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -121,6 +122,24 @@ jump_fcontext:
     std  %r29, 128(%r1)  # save R29
     std  %r30, 136(%r1)  # save R30
     std  %r31, 144(%r1)  # save R31
+    stfd %f14, 184(%r1)  # save F14
+    stfd %f15, 192(%r1)  # save F15
+    stfd %f16, 200(%r1)  # save F16
+    stfd %f17, 208(%r1)  # save F17
+    stfd %f18, 216(%r1)  # save F18
+    stfd %f19, 224(%r1)  # save F19
+    stfd %f20, 232(%r1)  # save F20
+    stfd %f21, 240(%r1)  # save F21
+    stfd %f22, 248(%r1)  # save F22
+    stfd %f23, 256(%r1)  # save F23
+    stfd %f24, 264(%r1)  # save F24
+    stfd %f25, 272(%r1)  # save F25
+    stfd %f26, 280(%r1)  # save F26
+    stfd %f27, 288(%r1)  # save F27
+    stfd %f28, 296(%r1)  # save F28
+    stfd %f29, 304(%r1)  # save F29
+    stfd %f30, 312(%r1)  # save F30
+    stfd %f31, 320(%r1)  # save F31
 #if _CALL_ELF != 2
     std  %r3,  152(%r1)  # save hidden
 #endif
@@ -164,6 +183,24 @@ jump_fcontext:
     ld  %r29, 128(%r1)  # restore R29
     ld  %r30, 136(%r1)  # restore R30
     ld  %r31, 144(%r1)  # restore R31
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
 #if _CALL_ELF != 2
     ld  %r3,  152(%r1)  # restore hidden
 #endif
@@ -181,7 +218,7 @@ jump_fcontext:
     mtctr  %r12
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
 #if _CALL_ELF == 2
     # copy transfer_t into transfer_fn arg registers
diff --git a/src/asm/make_ppc64_sysv_elf_gas.S b/src/asm/make_ppc64_sysv_elf_gas.S
index f513d36..3656b18 100644
--- a/src/asm/make_ppc64_sysv_elf_gas.S
+++ b/src/asm/make_ppc64_sysv_elf_gas.S
@@ -47,21 +47,22 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  |         192         |   ..   |       320      |  *
  *  -------------------------------------------------  *
- *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
+ *  |         F15         |   ..   |       F31      |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
  *  -------------------------------------------------  *
+ *  |    328    |    336    |    344    |    352    |  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | back-chain|  cr saved |  lr saved |  compiler |  *
  *  -------------------------------------------------  *
- *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    360    |    368    |    376    |    384    |  *
+ *  -------------------------------------------------  *
+ *  |   linker  | TOC saved |    FCTX   |    DATA   |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -106,7 +107,7 @@ make_fcontext:
 
     # reserve space for context-data on context-stack
     # including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  %r3, %r3, 248
+    subi  %r3, %r3, 392
 
     # third arg of make_fcontext() == address of context-function
     # entry point (ELFv2) or descriptor (ELFv1)
@@ -124,7 +125,7 @@ make_fcontext:
 
     # set back-chain to zero
     li   %r0, 0
-    std  %r0, 184(%r3)
+    std  %r0, 328(%r3)
 
 #if _CALL_ELF != 2
     # zero in r3 indicates first jump to context-function
diff --git a/src/asm/ontop_ppc64_sysv_elf_gas.S b/src/asm/ontop_ppc64_sysv_elf_gas.S
index 46cf30d..a281e87 100644
--- a/src/asm/ontop_ppc64_sysv_elf_gas.S
+++ b/src/asm/ontop_ppc64_sysv_elf_gas.S
@@ -47,21 +47,22 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  |         192         |   ..   |       320      |  *
  *  -------------------------------------------------  *
- *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
+ *  |         F15         |   ..   |       F31      |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
  *  -------------------------------------------------  *
+ *  |    328    |    336    |    344    |    352    |  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | back-chain|  cr saved |  lr saved |  compiler |  *
  *  -------------------------------------------------  *
- *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    360    |    368    |    376    |    384    |  *
+ *  -------------------------------------------------  *
+ *  |   linker  | TOC saved |    FCTX   |    DATA   |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -98,7 +99,7 @@ ontop_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -121,6 +122,24 @@ ontop_fcontext:
     std  %r29, 128(%r1)  # save R29
     std  %r30, 136(%r1)  # save R30
     std  %r31, 144(%r1)  # save R31
+    stfd %f14, 184(%r1)  # save F14
+    stfd %f15, 192(%r1)  # save F15
+    stfd %f16, 200(%r1)  # save F16
+    stfd %f17, 208(%r1)  # save F17
+    stfd %f18, 216(%r1)  # save F18
+    stfd %f19, 224(%r1)  # save F19
+    stfd %f20, 232(%r1)  # save F20
+    stfd %f21, 240(%r1)  # save F21
+    stfd %f22, 248(%r1)  # save F22
+    stfd %f23, 256(%r1)  # save F23
+    stfd %f24, 264(%r1)  # save F24
+    stfd %f25, 272(%r1)  # save F25
+    stfd %f26, 280(%r1)  # save F26
+    stfd %f27, 288(%r1)  # save F27
+    stfd %f28, 296(%r1)  # save F28
+    stfd %f29, 304(%r1)  # save F29
+    stfd %f30, 312(%r1)  # save F30
+    stfd %f31, 320(%r1)  # save F31
 #if _CALL_ELF != 2
     std  %r3,  152(%r1)  # save hidden
 #endif
@@ -163,6 +182,24 @@ ontop_fcontext:
     ld  %r29, 128(%r1)  # restore R29
     ld  %r30, 136(%r1)  # restore R30
     ld  %r31, 144(%r1)  # restore R31
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
 #if _CALL_ELF != 2
     ld  %r3,  152(%r1)  # restore hidden
 #endif
@@ -204,7 +241,7 @@ return_to_ctx:
     mtlr  %r0
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
     # jump to context
     bctr
-- 
2.43.0


From 33895feb9724104556324e651cf833acf65a47c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:24 +0000
Subject: [PATCH 19/26] fix: protected_fixedsize_stack (Windows) rejects sizes
 whose rounding overflows

---
 include/boost/context/windows/protected_fixedsize_stack.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index 30f74c2..d057920 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -13,6 +13,7 @@ extern "C" {
 
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <new>
 
 #include <boost/assert.hpp>
@@ -43,6 +44,9 @@ public:
     }
 
     stack_context allocate() {
+        // size plus rounding plus guard-page must be representable
+        if ( size_ > (std::numeric_limits< std::size_t >::max)() - 2 * traits_type::page_size() ) throw std::bad_alloc();
+
         // calculate how many pages are required
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
-- 
2.43.0


From d110e8ce4f03639602e5b44b683cd38ca38a7cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:42 +0000
Subject: [PATCH 20/26] fix: protected_fixedsize_stack (Windows) reports a
 failing VirtualProtect() instead of returning a stack without guard page

---
 .../boost/context/windows/protected_fixedsize_stack.hpp  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index d057920..a1f0274 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -56,10 +56,11 @@ public:
         if ( ! vp) throw std::bad_alloc();
 
         DWORD old_options;
-        const BOOL result = ::VirtualProtect(
-            vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options);
-        boost::ignore_unused(result);
-        BOOST_ASSERT( FALSE != result);
+        if ( FALSE == ::VirtualProtect(
+                vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options) ) {
+            ::VirtualFree( vp, 0, MEM_RELEASE);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From cd9b133c25f22fe6766ef39f5e2349dc0a442707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:07 +0000
Subject: [PATCH 21/26] fix: ucontext: the ASan fake stack of a finished
 context is released

---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 931ca7e..b1847fd 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -130,7 +130,7 @@ struct BOOST_CONTEXT_DECL activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 74f04ce..e531162 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -149,7 +149,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
-- 
2.43.0


From ef1823a4a399e60ddaac669b498ca93f83e63a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:49 +0000
Subject: [PATCH 22/26] fix: ucontext: a failing getcontext() does not destroy
 a TSan fiber that was never created

---
 include/boost/context/fiber_ucontext.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index e531162..141da04 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -126,7 +126,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     virtual ~fiber_activation_record() {
 #if defined(BOOST_USE_TSAN)
-        if (destroy_tsan_fiber)
+        if (destroy_tsan_fiber && nullptr != tsan_fiber)
             __tsan_destroy_fiber(tsan_fiber);
 #endif
 	}
-- 
2.43.0


From 36d00be58140d21ee222232bb1a81e97f329a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:07 +0000
Subject: [PATCH 23/26] fix: x86_64 SysV ELF: with shadow stacks a returning
 context-function ends the process instead of being run again

---
 src/asm/make_x86_64_sysv_elf_gas.S | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 9336210..792f518 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -101,12 +101,12 @@ make_fcontext:
     rstorssp  -0x8(%r9)
     /* save the restore token on the original shadow stack */
     saveprevssp
-    /* push the address of "jmp trampoline" to the new shadow stack */
+    /* push the address of "jmp finish" to the new shadow stack */
     /* as well as the stack */
     call  1f
-    jmp  trampoline
+    jmp  finish
 1:
-    /* save address of "jmp trampoline" as return-address */
+    /* save address of "jmp finish" as return-address */
     /* for context-function */
     pop 0x38(%rax)
     /* Get the new SSP.  */
@@ -118,7 +118,7 @@ make_fcontext:
 
     /* now the new shadow stack looks like:
         base->  +------------------------------+
-                | address of "jmp  trampoline" |
+                | address of "jmp  finish"     |
         SSP->   +------------------------------+
                 |         restore token        |
                 +------------------------------+
-- 
2.43.0


From 6e2c03cade3fa8f820fd1739239e17243f4cda4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:07 +0000
Subject: [PATCH 24/26] fix: fcontext: map_shadow_stack is system call 453, not
 451

---
 doc/stack.qbk                                   | 2 +-
 include/boost/context/continuation_fcontext.hpp | 6 +++++-
 include/boost/context/fiber_fcontext.hpp        | 6 +++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/doc/stack.qbk b/doc/stack.qbk
index 171a796..816e0aa 100644
--- a/doc/stack.qbk
+++ b/doc/stack.qbk
@@ -375,7 +375,7 @@ Boost.Context headers if stack protection is enabled.
 [section:shadow_stack Support for shadow stack protection]
 
 Shadow stack is part of Intel's Control-Flow Enforcement Technology. Users must
-check if syscall 'map_shadow_stack' exists, which is no.451 and then define
+check if syscall 'map_shadow_stack' exists, which is no.453 and then define
 `SHADOW_STACK_SYSCALL` before including any Boost.Context headers
 if shadow stack protection is enabled.
 
diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index d5f492e..8ada521 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -47,9 +47,13 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <sys/syscall.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
-#  define __NR_map_shadow_stack 451
+#ifndef __NR_map_shadow_stack
+#  define __NR_map_shadow_stack 453
+#endif
 #ifndef SHADOW_STACK_SET_TOKEN
 #  define SHADOW_STACK_SET_TOKEN 0x1
 #endif
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index b329ebd..3e52c89 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -47,9 +47,13 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <sys/syscall.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
-#  define __NR_map_shadow_stack 451
+#ifndef __NR_map_shadow_stack
+#  define __NR_map_shadow_stack 453
+#endif
 #ifndef SHADOW_STACK_SET_TOKEN
 #  define SHADOW_STACK_SET_TOKEN 0x1
 #endif
-- 
2.43.0


From bb2b990185dfa5e950d96c6fde622ec33ed60542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:07 +0000
Subject: [PATCH 25/26] fix: fcontext: a failing map_shadow_stack() is reported
 and releases the stack

---
 include/boost/context/continuation_fcontext.hpp | 11 +++++++++--
 include/boost/context/fiber_fcontext.hpp        | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 8ada521..82c848c 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -49,6 +49,7 @@
 #  include <sys/mman.h>
 #  include <sys/syscall.h>
 #  include <unistd.h>
+#  include <new>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
 #ifndef __NR_map_shadow_stack
@@ -200,7 +201,10 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -241,7 +245,10 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 3e52c89..783fbf6 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -49,6 +49,7 @@
 #  include <sys/mman.h>
 #  include <sys/syscall.h>
 #  include <unistd.h>
+#  include <new>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
 #ifndef __NR_map_shadow_stack
@@ -197,7 +198,10 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -238,7 +242,10 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
-- 
2.43.0


From 5b9e8ec4c538180a60e98b752e0d03f8286b87c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:07 +0000
Subject: [PATCH 26/26] fix: fcontext: the size of a shadow stack is a multiple
 of 8

---
 include/boost/context/continuation_fcontext.hpp | 4 ++--
 include/boost/context/fiber_fcontext.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 82c848c..3e67a25 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -198,7 +198,7 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
@@ -242,7 +242,7 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 783fbf6..4c535f1 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -195,7 +195,7 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
@@ -239,7 +239,7 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
-- 
2.43.0

