From 1f2de893aa57bb9f5755f414ecb8a9a525c4d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 01/16] fix: move_wrapper: noexcept of the value constructor
 must depend on T's move

is_nothrow_constructible<T> asks about the default constructor, so a
throwing move of a nothrow default-constructible type ended in
std::terminate() (and move-only types without a default constructor
were never nothrow).
---
 include/embedded/move_wrapper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index d1cf836..184f29d 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -30,7 +30,8 @@ namespace embedded {
 template <typename T>
 class move_wrapper {
  public:
-  explicit move_wrapper(T&& t) noexcept(std::is_nothrow_constructible<T>::value)
+  explicit move_wrapper(T&& t) noexcept(
+      std::is_nothrow_constructible<T, T&&>::value)
       : val_{std::forward<T>(t)} {}
 
   move_wrapper(move_wrapper const& other) noexcept(
-- 
2.43.0


From 3646c8ace17c53589f60159bd97d95bed9d71df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 02/16] fix: SOS design: pair a real pole with a real pole

unit_circle_distance_real_less preferred complex poles (and compared
a.is_real() with itself), so a real pole could be put into a section
together with one pole of a complex pair, losing the imaginary parts.
---
 include/embedded/signal/detail/filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/detail/filter.h b/include/embedded/signal/detail/filter.h
index f28690b..9413eee 100644
--- a/include/embedded/signal/detail/filter.h
+++ b/include/embedded/signal/detail/filter.h
@@ -235,8 +235,8 @@ struct unit_circle_distance_real_less {
   template <typename F>
   constexpr bool operator()(cmath::complex<F> const& a,
                             cmath::complex<F> const& b) const noexcept {
-    return a.is_real() < b.is_real() ||
-           (a.is_real() == a.is_real() && unit_distance(a) < unit_distance(b));
+    return a.is_real() > b.is_real() ||
+           (a.is_real() == b.is_real() && unit_distance(a) < unit_distance(b));
   }
 };
 
-- 
2.43.0


From f9014bfe9e583fcb133c02ba443169c763ea24ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 03/16] fix: circular_buffer_adapter: make const_iterator
 usable

The converting constructor from the mutable iterator was the only copy
constructor, so const_iterators of a buffer of non-const elements could
not be copied (crbegin(), crend(), it++, it + n, ...), and moving or
raw_index() of one did not compile because it stored a pointer to const.
---
 include/embedded/detail/circular_buffer_adapter.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/embedded/detail/circular_buffer_adapter.h b/include/embedded/detail/circular_buffer_adapter.h
index 02b51b7..1e72ca1 100644
--- a/include/embedded/detail/circular_buffer_adapter.h
+++ b/include/embedded/detail/circular_buffer_adapter.h
@@ -67,10 +67,16 @@ class cba_iterator {
 
   cba_iterator() = default;
 
-  cba_iterator(cba_iterator<T, cba_mutable_iterator_traits<T>> const& other)
+  template <typename Tr,
+            typename std::enable_if<
+                std::is_same<Tr, cba_mutable_iterator_traits<T>>::value &&
+                    !std::is_same<Tr, Traits>::value,
+                bool>::type = true>
+  cba_iterator(cba_iterator<T, Tr> const& other)
       : adapter_{other.adapter_}
       , it_{other.it_} {}
 
+  cba_iterator(cba_iterator const&) = default;
   cba_iterator(cba_iterator&&) = default;
   cba_iterator& operator=(cba_iterator const&) = default;
   cba_iterator& operator=(cba_iterator&&) = default;
@@ -183,7 +189,7 @@ class cba_iterator {
   }
 
  private:
-  cba_iterator(circular_buffer_adapter<T> const* adapter, pointer it)
+  cba_iterator(circular_buffer_adapter<T> const* adapter, T* it)
       : adapter_{adapter}
       , it_{it} {}
 
@@ -191,10 +197,10 @@ class cba_iterator {
     return it_ ? adapter_->index(it_) : adapter_->size();
   }
 
-  pointer realiter() const { return it_ ? it_ : adapter_->last_; }
+  T* realiter() const { return it_ ? it_ : adapter_->last_; }
 
   circular_buffer_adapter<T> const* adapter_{nullptr};
-  pointer it_{nullptr};
+  T* it_{nullptr};
 };
 
 template <typename T, typename Traits>
-- 
2.43.0


From 3cdd11ffb75ba8cf0bc1bf2e1bd57b8f627a36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 04/16] fix: function: call the target of a const signature as
 const

function<R(Args...) const> checked that the target can be called as a
const object but then called it as a non-const one.
---
 include/embedded/function.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 81b06fb..6157d65 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -65,7 +65,7 @@ class vtbl<Return(Args...)> {
   template <typename T>
   explicit constexpr vtbl(wrap<T>) noexcept
       : call{&vt_call<T>}
-      , proc{&vt_proc<T>} {}
+      , proc{&vt_proc<typename std::remove_const<T>::type>} {}
 
  private:
   static Return empty_call(storage_t, Args&&...) {
@@ -128,6 +128,8 @@ template <typename Return, typename... Args>
 struct function_traits<Return(Args...)> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
+  template <typename T>
+  using target = T;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
@@ -141,6 +143,8 @@ template <typename Return, typename... Args>
 struct function_traits<Return(Args...) const> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
+  template <typename T>
+  using target = T const;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
@@ -204,7 +208,7 @@ class function final : private detail::function_traits<Signature> {
                 !detail::is_function<C>::value &&
                 traits::template is_invocable<C>::value>::type>
   function(T&& fun) noexcept
-      : vtbl_{&typed_vtbl<C>::value} {
+      : vtbl_{&typed_vtbl<typename traits::template target<C>>::value} {
     static_assert(
         std::is_nothrow_move_constructible<C>::value,
         "function<> can only be used with nothrow move-constructible types");
-- 
2.43.0


From 794c86b67e5e6e46d2e0dae984395727c341e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 05/16] fix: function: accept targets whose result a void
 signature discards

is_invocable_r<void, ...> accepts a target returning a value, but
returning that value from the void call function did not compile.
---
 include/embedded/function.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 6157d65..df137c6 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -80,7 +80,18 @@ class vtbl<Return(Args...)> {
 
   template <typename T>
   static Return vt_call(storage_t s, Args&&... args) {
-    return (*static_cast<T*>(s))(static_cast<Args&&>(args)...);
+    return do_call(std::is_void<Return>{}, *static_cast<T*>(s),
+                   static_cast<Args&&>(args)...);
+  }
+
+  template <typename T>
+  static Return do_call(std::false_type, T& fun, Args&&... args) {
+    return fun(static_cast<Args&&>(args)...);
+  }
+
+  template <typename T>
+  static void do_call(std::true_type, T& fun, Args&&... args) {
+    fun(static_cast<Args&&>(args)...);
   }
 
   template <typename T>
-- 
2.43.0


From 13d967abdaefc245888bf7184b3c66b8b2504a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 06/16] fix: ostream_ops.h: make the sos_section operator
 usable, include fpm

sos_section has no gain_, its operator<< was not found by argument
dependent lookup, and the header did not include what it uses.
---
 include/embedded/ostream_ops.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index da61cfa..1877469 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -28,6 +28,9 @@
 #include "constexpr_math/complex.h"
 #include "constexpr_math/vector.h"
 #include "signal/detail/filter.h"
+#include "signal/sos.h"
+
+#include <fpm/fixed.hpp>
 
 namespace fpm {
 
@@ -51,14 +54,14 @@ std::ostream& operator<<(std::ostream& os, zpk_value<Zn, Pn, F> const& zpk) {
   return os;
 }
 
+} // namespace detail
+
 template <typename T>
-std::ostream&
-operator<<(std::ostream& os, embedded::signal::sos_section<T> const& s) {
-  os << "{gain=" << s.gain_ << ", b=" << s.b() << ", a=" << s.a() << "}";
+std::ostream& operator<<(std::ostream& os, sos_section<T> const& s) {
+  os << "{b=" << s.b() << ", a=" << s.a() << "}";
   return os;
 }
 
-} // namespace detail
 } // namespace signal
 
 namespace cmath {
-- 
2.43.0


From aea783348d7201a311d00c4fd9e23f8541fa74a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 07/16] fix: function: call through the wrapper's own capacity
 and alignment

The call operator cast to function<Signature> with the default capacity and
alignment, so that a wrapper with a larger alignment passed the wrong storage
address to its target.
---
 include/embedded/function.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index df137c6..5f971c2 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -132,11 +132,11 @@ struct is_function : std::false_type {};
 template <typename S, size_t C, size_t A>
 struct is_function<function<S, C, A>> : std::true_type {};
 
-template <typename Signature>
+template <typename Signature, typename Function>
 struct function_traits;
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...)> {
+template <typename Function, typename Return, typename... Args>
+struct function_traits<Return(Args...), Function> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
   template <typename T>
@@ -144,14 +144,14 @@ struct function_traits<Return(Args...)> {
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
-    auto fn = static_cast<function<Return(Args...)>*>(this);
+    auto fn = static_cast<Function*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
 };
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...) const> {
+template <typename Function, typename Return, typename... Args>
+struct function_traits<Return(Args...) const, Function> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
   template <typename T>
@@ -159,7 +159,7 @@ struct function_traits<Return(Args...) const> {
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
-    auto fn = static_cast<function<Return(Args...) const> const*>(this);
+    auto fn = static_cast<Function const*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
@@ -190,9 +190,11 @@ struct function_traits<Return(Args...) const> {
  * https://github.com/WG21-SG14/SG14/blob/master/Docs/Proposals/NonAllocatingStandardFunction.pdf
  */
 template <typename Signature, size_t Capacity, size_t Alignment>
-class function final : private detail::function_traits<Signature> {
+class function final
+    : private detail::function_traits<
+          Signature, function<Signature, Capacity, Alignment>> {
  public:
-  using traits = detail::function_traits<Signature>;
+  using traits = detail::function_traits<Signature, function>;
   using signature = typename traits::signature;
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
-- 
2.43.0


From 4ba92f2bca9f84717f068b16e341bc7d7af88a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 08/16] fix: function: move-construct the target even if it has
 an initializer_list constructor

---
 include/embedded/function.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 5f971c2..101c19c 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -98,7 +98,7 @@ class vtbl<Return(Args...)> {
   static void vt_proc(oper op, storage_t src, storage_t dst) noexcept {
     switch (op) {
     case oper::move:
-      ::new (dst) T{std::move(*static_cast<T*>(src))};
+      ::new (dst) T(std::move(*static_cast<T*>(src)));
       // fallthrough
     case oper::destroy:
       static_cast<T*>(src)->~T();
@@ -230,7 +230,7 @@ class function final
     static_assert(Alignment % alignof(C) == 0,
                   "function<> alignment too small for this type");
 
-    ::new (std::addressof(storage_)) C{std::forward<T>(fun)};
+    ::new (std::addressof(storage_)) C(std::forward<T>(fun));
   }
 
   function(function&& other) noexcept
-- 
2.43.0


From dbf9cb0cc955a7f2d460c76a8003b022b5f261da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 09/16] fix: move_wrapper: move the value even if it has an
 initializer_list constructor

---
 include/embedded/move_wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index 184f29d..5a5a8b2 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -32,14 +32,14 @@ class move_wrapper {
  public:
   explicit move_wrapper(T&& t) noexcept(
       std::is_nothrow_constructible<T, T&&>::value)
-      : val_{std::forward<T>(t)} {}
+      : val_(std::forward<T>(t)) {}
 
   move_wrapper(move_wrapper const& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(const_cast<move_wrapper&>(other).val_)} {}
+      : val_(std::move(const_cast<move_wrapper&>(other).val_)) {}
   move_wrapper(move_wrapper&& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(other.val_)} {}
+      : val_(std::move(other.val_)) {}
 
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
-- 
2.43.0


From a21cced72fce270b54d689b3e0f76b947d007c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:50 +0000
Subject: [PATCH 10/16] fix: is_invocable_r: accept volatile void result types
 like the standard trait

---
 include/embedded/type_traits/is_invocable.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/embedded/type_traits/is_invocable.h b/include/embedded/type_traits/is_invocable.h
index a980500..3585391 100644
--- a/include/embedded/type_traits/is_invocable.h
+++ b/include/embedded/type_traits/is_invocable.h
@@ -52,6 +52,16 @@ struct is_invocable_helper<decltype(std::declval<Fn>()(std::declval<Args>()...),
                                     void()),
                            const void, Fn, Args...> : std::true_type {};
 
+template <class Fn, class... Args>
+struct is_invocable_helper<decltype(std::declval<Fn>()(std::declval<Args>()...),
+                                    void()),
+                           volatile void, Fn, Args...> : std::true_type {};
+
+template <class Fn, class... Args>
+struct is_invocable_helper<decltype(std::declval<Fn>()(std::declval<Args>()...),
+                                    void()),
+                           const volatile void, Fn, Args...> : std::true_type {};
+
 template <class R, class Fn, class... Args>
 struct is_invocable_helper<decltype(accept<R>(
                                std::declval<Fn>()(std::declval<Args>()...))),
-- 
2.43.0


From fe92d2755f7fa2cdca4889a42bdd96ec1bfb3a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 11/16] fix: vectors compare equal only if all elements do (not
 when they are merely unordered)

---
 include/embedded/constexpr_math/vector.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index 1c2da14..2e254bb 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -127,15 +127,15 @@ class prod_reducer {
 };
 
 template <typename T, std::size_t Size, std::size_t I = 0>
-struct compare {
-  constexpr int operator()(T const& a, T const& b) const noexcept {
-    return a[I] < b[I] ? -1 : a[I] > b[I] ? 1 : compare<T, Size, I + 1>()(a, b);
+struct equal {
+  constexpr bool operator()(T const& a, T const& b) const noexcept {
+    return a[I] == b[I] && equal<T, Size, I + 1>()(a, b);
   }
 };
 
 template <typename T, std::size_t Size>
-struct compare<T, Size, Size> {
-  constexpr int operator()(T const&, T const&) const noexcept { return 0; }
+struct equal<T, Size, Size> {
+  constexpr bool operator()(T const&, T const&) const noexcept { return true; }
 };
 
 template <typename T, std::size_t Size, typename Pred, std::size_t I = 0>
@@ -296,7 +296,7 @@ class vector {
   }
 
   constexpr bool operator==(vector const& other) const noexcept {
-    return detail::compare<vector, Size>()(*this, other) == 0;
+    return detail::equal<vector, Size>()(*this, other);
   }
 
   template <typename Pred>
-- 
2.43.0


From b23c3ef3a6054fc75d7627fd069a682acdcbd589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 12/16] fix: debug records: truncate long names as intended

sizeof(name) referred to the constructor's parameter instead of the member,
so names longer than the field did not compile and a name of exactly 119
characters lost its terminating NUL.
---
 include/embedded/signal/detail/debug_filter_coefs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/signal/detail/debug_filter_coefs.h b/include/embedded/signal/detail/debug_filter_coefs.h
index 21e9488..37066cb 100644
--- a/include/embedded/signal/detail/debug_filter_coefs.h
+++ b/include/embedded/signal/detail/debug_filter_coefs.h
@@ -66,7 +66,8 @@ struct filter_debug_header {
                                 char const (&name)[S]) noexcept
       : filter_debug_header(
             length, structure, valtype, name,
-            make_index_sequence<cmath::min(sizeof(name) - 1, S)>{}) {}
+            make_index_sequence<cmath::min(
+                sizeof(filter_debug_header::name) - 1, S)>{}) {}
 
   template <size_t S, std::size_t... Ints>
   constexpr filter_debug_header(uint16_t length_,
-- 
2.43.0


From 125096cd9003bcee174b45c05f4a462997f19905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 13/16] fix: functions.h: do not depend on headers included
 before it

---
 include/embedded/constexpr_math/functions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/embedded/constexpr_math/functions.h b/include/embedded/constexpr_math/functions.h
index 0164d46..d43ce79 100644
--- a/include/embedded/constexpr_math/functions.h
+++ b/include/embedded/constexpr_math/functions.h
@@ -22,6 +22,9 @@
 
 #pragma once
 
+// the check below depends on a macro that the standard library headers define
+#include <cstddef>
+
 // TODO: this is probably a poor check
 #if !defined(LIBEMB_DISABLE_GLIBCXX_CONSTEXPR) &&                              \
     !defined(__INTEL_COMPILER) && !defined(__clang__) && defined(__GNUG__) &&  \
-- 
2.43.0


From 5fe1d8a7c4f99cc703cb923502cd0df322b6ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 14/16] fix: vector.h: include functions.h, needed by
 exp(vector<double>)

---
 include/embedded/constexpr_math/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index 2e254bb..de33d95 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -27,6 +27,7 @@
 
 #include "../type_traits/conjunction.h"
 #include "../utility/integer_sequence.h"
+#include "functions.h"
 
 // clang-format off
 #ifdef __IAR_SYSTEMS_ICC__
-- 
2.43.0


From 247a60638cf560cb5a38a586d69a71e384064c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 15/16] fix: bessel: define the static tables (odr-used before
 C++17)

---
 include/embedded/signal/detail/bessel_poles.h | 204 ++++++++++++++++++
 1 file changed, 204 insertions(+)

diff --git a/include/embedded/signal/detail/bessel_poles.h b/include/embedded/signal/detail/bessel_poles.h
index b891f7c..2924014 100644
--- a/include/embedded/signal/detail/bessel_poles.h
+++ b/include/embedded/signal/detail/bessel_poles.h
@@ -5684,6 +5684,210 @@ struct bessel_poles<F, 100> {
   };
 };
 
+// Before C++17, static constexpr data members need a definition.
+#if __cplusplus < 201703L
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 1> bessel_poles<F, 1>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 2> bessel_poles<F, 2>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 3> bessel_poles<F, 3>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 4> bessel_poles<F, 4>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 5> bessel_poles<F, 5>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 6> bessel_poles<F, 6>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 7> bessel_poles<F, 7>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 8> bessel_poles<F, 8>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 9> bessel_poles<F, 9>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 10> bessel_poles<F, 10>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 11> bessel_poles<F, 11>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 12> bessel_poles<F, 12>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 13> bessel_poles<F, 13>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 14> bessel_poles<F, 14>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 15> bessel_poles<F, 15>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 16> bessel_poles<F, 16>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 17> bessel_poles<F, 17>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 18> bessel_poles<F, 18>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 19> bessel_poles<F, 19>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 20> bessel_poles<F, 20>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 21> bessel_poles<F, 21>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 22> bessel_poles<F, 22>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 23> bessel_poles<F, 23>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 24> bessel_poles<F, 24>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 25> bessel_poles<F, 25>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 26> bessel_poles<F, 26>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 27> bessel_poles<F, 27>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 28> bessel_poles<F, 28>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 29> bessel_poles<F, 29>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 30> bessel_poles<F, 30>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 31> bessel_poles<F, 31>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 32> bessel_poles<F, 32>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 33> bessel_poles<F, 33>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 34> bessel_poles<F, 34>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 35> bessel_poles<F, 35>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 36> bessel_poles<F, 36>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 37> bessel_poles<F, 37>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 38> bessel_poles<F, 38>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 39> bessel_poles<F, 39>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 40> bessel_poles<F, 40>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 41> bessel_poles<F, 41>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 42> bessel_poles<F, 42>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 43> bessel_poles<F, 43>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 44> bessel_poles<F, 44>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 45> bessel_poles<F, 45>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 46> bessel_poles<F, 46>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 47> bessel_poles<F, 47>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 48> bessel_poles<F, 48>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 49> bessel_poles<F, 49>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 50> bessel_poles<F, 50>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 51> bessel_poles<F, 51>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 52> bessel_poles<F, 52>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 53> bessel_poles<F, 53>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 54> bessel_poles<F, 54>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 55> bessel_poles<F, 55>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 56> bessel_poles<F, 56>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 57> bessel_poles<F, 57>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 58> bessel_poles<F, 58>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 59> bessel_poles<F, 59>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 60> bessel_poles<F, 60>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 61> bessel_poles<F, 61>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 62> bessel_poles<F, 62>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 63> bessel_poles<F, 63>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 64> bessel_poles<F, 64>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 65> bessel_poles<F, 65>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 66> bessel_poles<F, 66>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 67> bessel_poles<F, 67>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 68> bessel_poles<F, 68>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 69> bessel_poles<F, 69>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 70> bessel_poles<F, 70>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 71> bessel_poles<F, 71>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 72> bessel_poles<F, 72>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 73> bessel_poles<F, 73>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 74> bessel_poles<F, 74>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 75> bessel_poles<F, 75>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 76> bessel_poles<F, 76>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 77> bessel_poles<F, 77>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 78> bessel_poles<F, 78>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 79> bessel_poles<F, 79>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 80> bessel_poles<F, 80>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 81> bessel_poles<F, 81>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 82> bessel_poles<F, 82>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 83> bessel_poles<F, 83>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 84> bessel_poles<F, 84>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 85> bessel_poles<F, 85>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 86> bessel_poles<F, 86>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 87> bessel_poles<F, 87>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 88> bessel_poles<F, 88>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 89> bessel_poles<F, 89>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 90> bessel_poles<F, 90>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 91> bessel_poles<F, 91>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 92> bessel_poles<F, 92>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 93> bessel_poles<F, 93>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 94> bessel_poles<F, 94>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 95> bessel_poles<F, 95>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 96> bessel_poles<F, 96>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 97> bessel_poles<F, 97>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 98> bessel_poles<F, 98>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 99> bessel_poles<F, 99>::value;
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 100> bessel_poles<F, 100>::value;
+#endif
+
 } // namespace detail
 } // namespace signal
 } // namespace embedded
-- 
2.43.0


From 5323920b60dcde99ecdb1307f4051af810a4d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 16/16] fix: vector count: count elements, whatever the
 predicate's result type

---
 include/embedded/constexpr_math/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index de33d95..cc83ece 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -160,7 +160,7 @@ template <typename T, std::size_t Size, typename Pred, std::size_t I = 0>
 struct count {
   constexpr std::size_t
   operator()(T const& a, Pred const& pred) const noexcept {
-    return pred(a[I]) + count<T, Size, Pred, I + 1>()(a, pred);
+    return (pred(a[I]) ? 1 : 0) + count<T, Size, Pred, I + 1>()(a, pred);
   }
 };
 
-- 
2.43.0

