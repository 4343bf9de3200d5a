From 859da3d3d9b85af0afd1b13033dc1e884e670499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 01/13] fix: check for zero coefficients when symbol merging
 changes the coefficient type

The check was enabled when the coefficient types coincide, and disabled when
a conversion (which can produce zeroes) takes place.
---
 include/obake/series.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 6c3a890..fbb19e3 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -569,7 +569,7 @@ inline void series_sym_extender(To &to, From &&from, const symbol_idx_map<symbol
     // coincide (i.e., no cf conversion takes place),
     // otherwise the conversion might generate zeroes.
     constexpr auto check_zero
-        = static_cast<sat_check_zero>(::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
+        = static_cast<sat_check_zero>(!::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
 
     // Merge the terms, distinguishing the segmented vs non-segmented case.
     if (from_log2_size) {
-- 
2.43.0


From 218b51adaa48b2f1de8b20981e74f1607155b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 02/13] fix: avoid a deadlock in the cache of natural powers of
 series

A thread waiting for the parallel multiplication while holding the cache's
lock could steal a task attempting to lock the cache again.
---
 include/obake/series.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index fbb19e3..6a5ac0d 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -44,6 +44,7 @@
 #include <tbb/blocked_range.h>
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
+#include <tbb/task_arena.h>
 
 #include <mp++/integer.hpp>
 
@@ -1705,9 +1706,14 @@ inline Base series_pow_from_cache(const Base &base, unsigned n)
     }
 
     // Fill in the missing powers as needed.
-    while (v.size() <= n) {
-        v.emplace_back(::std::any_cast<const Base &>(v.back()) * b);
-    }
+    // NOTE: the multiplications may run in parallel. Isolate them, so that, while waiting
+    // for them to finish, the current thread (which is holding the lock) cannot pick up
+    // an unrelated task which may in turn try to access the cache.
+    ::tbb::this_task_arena::isolate([&v, &b, n]() {
+        while (v.size() <= n) {
+            v.emplace_back(::std::any_cast<const Base &>(v.back()) * b);
+        }
+    });
 
     // Return a copy of the desired power.
     // NOTE: returnability is guaranteed because
-- 
2.43.0


From 305df3b36acf375e4edd1ba987981bca2635bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 03/13] fix: implement the copy assignment of series via copy +
 move

Copy-assigning from a series with empty tables could corrupt the
destination (Boost 1.83), and an error left the destination half-assigned.
---
 include/obake/series.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 6a5ac0d..ce1c540 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -813,7 +813,17 @@ public:
             *this, m_s_table[0], K(m_symbol_set.get()), ::std::forward<T>(x));
     }
 
-    series &operator=(const series &) = default;
+    series &operator=(const series &other)
+    {
+        // NOTE: copy + move, so that *this is not touched if the copy fails, and so that the
+        // tables are never copy-assigned (the copy assignment of the hash tables from an
+        // empty table can corrupt them in some versions of Boost).
+        if (this != &other) {
+            *this = series(other);
+        }
+
+        return *this;
+    }
     series &operator=(series &&other) noexcept
     {
         // NOTE: assuming self-assignment is handled
-- 
2.43.0


From 8ae0c1ded6e3b6ac262a517ca86c35dc6676d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 04/13] fix: detect the overflow of the partial degree in
 truncated multiplications

The sum of the partial degrees of two terms was not checked: with exponents
of mixed sign it can overflow even if the total degree of the product does not.
---
 include/obake/polynomials/polynomial.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/obake/polynomials/polynomial.hpp b/include/obake/polynomials/polynomial.hpp
index 1a007f3..a7d0786 100644
--- a/include/obake/polynomials/polynomial.hpp
+++ b/include/obake/polynomials/polynomial.hpp
@@ -46,6 +46,7 @@
 #include <obake/detail/ignore.hpp>
 #include <obake/detail/it_diff_check.hpp>
 #include <obake/detail/make_array.hpp>
+#include <obake/detail/safe_integral_arith.hpp>
 #include <obake/detail/ss_func_forward.hpp>
 #include <obake/detail/to_string.hpp>
 #include <obake/detail/type_c.hpp>
@@ -459,6 +460,21 @@ struct poly_mul_impl_pair_transform {
     }
 };
 
+// Small helper to add the (partial) degrees of two terms
+// in a truncated multiplication. Integral degrees
+// are added via checked arithmetics: the overflow checks on the
+// exponents of the product do not prevent the overflow of the
+// partial degree, which can be larger than the total degree.
+template <typename T, typename U>
+inline auto poly_mul_add_degrees(const T &d1, const U &d2)
+{
+    if constexpr (is_integral_v<T> && is_integral_v<U>) {
+        return ::obake::detail::safe_int_add<decltype(d1 + d2)>(d1, d2);
+    } else {
+        return d1 + d2;
+    }
+}
+
 // This function will:
 // - estimate the size of the product of two input polynomials,
 // - compute the total number of term-by-term multiplications that will
@@ -606,7 +622,7 @@ inline auto poly_mul_estimate_product_size(const ::std::vector<T1> &x, const ::s
                                                                // NOTE: we require below
                                                                // comparability between const lvalue limit
                                                                // and rvalue of the sum of the degrees.
-                                                               return mdeg < d1 + d2;
+                                                               return mdeg < detail::poly_mul_add_degrees(d1, d2);
                                                            });
 
                         // Accumulate in cur how many terms in y would be multiplied
@@ -720,7 +736,7 @@ inline auto poly_mul_estimate_product_size(const ::std::vector<T1> &x, const ::s
                                                                    // NOTE: we require below
                                                                    // comparability between const lvalue limit
                                                                    // and rvalue of the sum of the degrees.
-                                                                   return mdeg < d1 + d2;
+                                                                   return mdeg < detail::poly_mul_add_degrees(d1, d2);
                                                                });
 
                             // We checked when constructing v2_deg that its iterator
@@ -1225,7 +1241,7 @@ inline void poly_mul_impl_mt_hm(Ret &retval, const T &x, const U &y, const Args
                                                            // NOTE: we require below
                                                            // comparability between const lvalue limit
                                                            // and rvalue of the sum of the degrees.
-                                                           return mdeg < d_i + d_j;
+                                                           return mdeg < detail::poly_mul_add_degrees(d_i, d_j);
                                                        });
 
                     // Turn the iterator into an index and return it.
@@ -1783,7 +1799,7 @@ inline void poly_mul_impl_simple(Ret &retval, const T &x, const U &y, const Args
                                                            // NOTE: we require below
                                                            // comparability between const lvalue limit
                                                            // and rvalue of the sum of the degrees.
-                                                           return mdeg < d_i + d_j;
+                                                           return mdeg < detail::poly_mul_add_degrees(d_i, d_j);
                                                        });
 
                     // Turn the iterator into an index and return it.
-- 
2.43.0


From 4d114453c59ea87ab3c092b8e5e90e5406532259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 05/13] fix: do not cache incomplete powers when the enclosing
 TBB task group is cancelled

---
 include/obake/detail/tbb_isolated.hpp | 37 +++++++++++++++++++++++++++
 include/obake/series.hpp              | 12 ++++++---
 2 files changed, 46 insertions(+), 3 deletions(-)
 create mode 100644 include/obake/detail/tbb_isolated.hpp

diff --git a/include/obake/detail/tbb_isolated.hpp b/include/obake/detail/tbb_isolated.hpp
new file mode 100644
index 0000000..25bfc1a
--- /dev/null
+++ b/include/obake/detail/tbb_isolated.hpp
@@ -0,0 +1,37 @@
+// Copyright 2019-2020 Francesco Biscani (bluescarni@gmail.com)
+//
+// This file is part of the obake library.
+//
+// This Source Code Form is subject to the terms of the Mozilla
+// Public License v. 2.0. If a copy of the MPL was not distributed
+// with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
+
+#ifndef OBAKE_DETAIL_TBB_ISOLATED_HPP
+#define OBAKE_DETAIL_TBB_ISOLATED_HPP
+
+#include <tbb/blocked_range.h>
+#include <tbb/parallel_for.h>
+#include <tbb/task_group.h>
+
+namespace obake::detail
+{
+
+// Invoke the functor f from within an isolated TBB task group context.
+// NOTE: when a TBB task group is cancelled (e.g., because one of its tasks
+// threw an exception), the parallel algorithms nested in the *other* tasks
+// of the group return early *without* raising any error, leaving behind
+// incomplete results. An isolated context cannot be cancelled from the outside,
+// and thus the parallel algorithms invoked by f will either run to completion
+// or throw.
+template <typename F>
+inline void tbb_run_isolated(const F &f)
+{
+    ::tbb::task_group_context ctx(::tbb::task_group_context::isolated);
+
+    ::tbb::parallel_for(
+        ::tbb::blocked_range<int>(0, 1), [&f](const auto &) { f(); }, ctx);
+}
+
+} // namespace obake::detail
+
+#endif
diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index ce1c540..896e01f 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -60,6 +60,7 @@
 #include <obake/detail/priority_tag.hpp>
 #include <obake/detail/safe_integral_arith.hpp>
 #include <obake/detail/ss_func_forward.hpp>
+#include <obake/detail/tbb_isolated.hpp>
 #include <obake/detail/to_string.hpp>
 #include <obake/detail/type_c.hpp>
 #include <obake/detail/visibility.hpp>
@@ -1719,10 +1720,15 @@ inline Base series_pow_from_cache(const Base &base, unsigned n)
     // NOTE: the multiplications may run in parallel. Isolate them, so that, while waiting
     // for them to finish, the current thread (which is holding the lock) cannot pick up
     // an unrelated task which may in turn try to access the cache.
+    // NOTE: run the multiplications also in an isolated context, so that, if the current
+    // thread is executing a task whose group is being cancelled, we never end up
+    // caching an incomplete product.
     ::tbb::this_task_arena::isolate([&v, &b, n]() {
-        while (v.size() <= n) {
-            v.emplace_back(::std::any_cast<const Base &>(v.back()) * b);
-        }
+        ::obake::detail::tbb_run_isolated([&v, &b, n]() {
+            while (v.size() <= n) {
+                v.emplace_back(::std::any_cast<const Base &>(v.back()) * b);
+            }
+        });
     });
 
     // Return a copy of the desired power.
-- 
2.43.0


From 78cdf76a06e0954acb07572df39a19d6ea4f77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 06/13] fix: prevent the cancellation of the parallel
 algorithms used in polynomial multiplication

---
 include/obake/detail/tbb_isolated.hpp    |  8 +++++++
 include/obake/polynomials/polynomial.hpp | 27 ++++++++++++++++--------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/obake/detail/tbb_isolated.hpp b/include/obake/detail/tbb_isolated.hpp
index 25bfc1a..8fb7293 100644
--- a/include/obake/detail/tbb_isolated.hpp
+++ b/include/obake/detail/tbb_isolated.hpp
@@ -32,6 +32,14 @@ inline void tbb_run_isolated(const F &f)
         ::tbb::blocked_range<int>(0, 1), [&f](const auto &) { f(); }, ctx);
 }
 
+// Transform f into a functor which, when invoked,
+// will run f in an isolated TBB task group context.
+template <typename F>
+inline auto tbb_make_isolated(F f)
+{
+    return [f]() { detail::tbb_run_isolated(f); };
+}
+
 } // namespace obake::detail
 
 #endif
diff --git a/include/obake/polynomials/polynomial.hpp b/include/obake/polynomials/polynomial.hpp
index a7d0786..b0a7896 100644
--- a/include/obake/polynomials/polynomial.hpp
+++ b/include/obake/polynomials/polynomial.hpp
@@ -48,6 +48,7 @@
 #include <obake/detail/make_array.hpp>
 #include <obake/detail/safe_integral_arith.hpp>
 #include <obake/detail/ss_func_forward.hpp>
+#include <obake/detail/tbb_isolated.hpp>
 #include <obake/detail/to_string.hpp>
 #include <obake/detail/type_c.hpp>
 #include <obake/detail/xoroshiro128_plus.hpp>
@@ -519,8 +520,10 @@ inline auto poly_mul_estimate_product_size(const ::std::vector<T1> &x, const ::s
     // Concurrently create the degree data for x and y, and fill
     // in the vidx1/vidx2 vectors. vidx2 and y's degree data
     // will also be sorted, if the multiplication is truncated.
+    // NOTE: the functors need to be isolated because, if one throws, the parallel
+    // algorithms running in the other one must not be silently interrupted.
     ::tbb::parallel_invoke(
-        [&vidx1, &x, &ss, &degree_data, &args...]() {
+        ::obake::detail::tbb_make_isolated([&vidx1, &x, &ss, &degree_data, &args...]() {
             if constexpr (sizeof...(args) == 1u) {
                 // Total degree truncation.
                 ::obake::detail::ignore(args...);
@@ -540,8 +543,8 @@ inline auto poly_mul_estimate_product_size(const ::std::vector<T1> &x, const ::s
             }
 
             vidx1 = detail::poly_mul_impl_par_make_idx_vector(x);
-        },
-        [&vidx2, &y, &ss, &degree_data, &args...]() {
+        }),
+        ::obake::detail::tbb_make_isolated([&vidx2, &y, &ss, &degree_data, &args...]() {
             if constexpr (sizeof...(args) == 1u) {
                 // Total degree truncation.
                 ::obake::detail::ignore(args...);
@@ -583,7 +586,7 @@ inline auto poly_mul_estimate_product_size(const ::std::vector<T1> &x, const ::s
                 // Verify the sorting in debug mode.
                 assert(::std::is_sorted(v2_deg.cbegin(), v2_deg.cend()));
             }
-        });
+        }));
 
     // Determine the total number of term-by-term multiplications
     // that will be performed in the poly multiplication.
@@ -1133,8 +1136,10 @@ inline void poly_mul_impl_mt_hm(Ret &retval, const T &x, const U &y, const Args
     // - compute the degrees of the terms and sort according
     //   to the degree within each segment (only for truncated
     //   multiplication).
+    // NOTE: the functors need to be isolated because, if one throws, the parallel
+    // algorithms running in the other one must not be silently interrupted.
     ::tbb::parallel_invoke(
-        [&v1, t_sorter, &vseg1, compute_vseg, &degree_data, seg_sorter]() {
+        ::obake::detail::tbb_make_isolated([&v1, t_sorter, &vseg1, compute_vseg, &degree_data, seg_sorter]() {
             ::tbb::parallel_sort(v1.begin(), v1.end(), t_sorter);
             vseg1 = compute_vseg(v1);
             if constexpr (sizeof...(Args) > 0u) {
@@ -1142,8 +1147,8 @@ inline void poly_mul_impl_mt_hm(Ret &retval, const T &x, const U &y, const Args
             } else {
                 ::obake::detail::ignore(degree_data, seg_sorter);
             }
-        },
-        [&v2, t_sorter, &vseg2, compute_vseg, &degree_data, seg_sorter]() {
+        }),
+        ::obake::detail::tbb_make_isolated([&v2, t_sorter, &vseg2, compute_vseg, &degree_data, seg_sorter]() {
             ::tbb::parallel_sort(v2.begin(), v2.end(), t_sorter);
             vseg2 = compute_vseg(v2);
             if constexpr (sizeof...(Args) > 0u) {
@@ -1151,7 +1156,7 @@ inline void poly_mul_impl_mt_hm(Ret &retval, const T &x, const U &y, const Args
             } else {
                 ::obake::detail::ignore(degree_data, seg_sorter);
             }
-        });
+        }));
 
 #if !defined(NDEBUG)
     {
@@ -1933,7 +1938,11 @@ inline auto poly_mul_impl_identical_ss(const T &x, const U &y, const Args &...ar
             detail::poly_mul_impl_simple(retval, x, y, args...);
         } else {
             // Otherwise, run the MT implementation.
-            detail::poly_mul_impl_mt_hm(retval, x, y, args...);
+            // NOTE: run it in an isolated context, so that the parallel algorithms
+            // in the implementation cannot be silently interrupted by the cancellation
+            // of the group of the current task.
+            ::obake::detail::tbb_run_isolated(
+                [&retval, &x, &y, &args...]() { detail::poly_mul_impl_mt_hm(retval, x, y, args...); });
         }
     } else {
         // The monomial does not have homomorphic hashing,
-- 
2.43.0


From a32983fc9206e530e6ea40830aff785469d487e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:10 +0000
Subject: [PATCH 07/13] fix: bracket the coefficients which print as sums
 although they have one term

In a series of rank 3 or more, a coefficient with a single term of unitary
key, whose own coefficient has several terms, was printed without brackets
(e.g. a+b*x instead of (a+b)*x).
---
 include/obake/series.hpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 896e01f..6007379 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -2096,6 +2096,33 @@ inline void tex_stream_insert(tex_stream_insert_t, ::std::ostream &os, const ser
 
 } // namespace customisation::internal
 
+namespace detail
+{
+
+// Establish if the series x must be bracketed when it is
+// printed as the coefficient of another series.
+template <typename T>
+inline bool series_cf_needs_brackets(const T &x)
+{
+    if (x.size() > 1u) {
+        // More than 1 term.
+        return true;
+    }
+
+    if constexpr (is_cvr_series_v<const series_cf_t<T> &>) {
+        // NOTE: in a single-term series with unitary key, the brackets
+        // around the coefficient are not printed. Thus, we need
+        // to look at the coefficient.
+        if (x.size() == 1u && ::obake::key_is_one(x.begin()->first, x.get_symbol_set())) {
+            return detail::series_cf_needs_brackets(x.begin()->second);
+        }
+    }
+
+    return false;
+}
+
+} // namespace detail
+
 // Customise obake::cf_stream_insert() for series types.
 namespace customisation::internal
 {
@@ -2104,8 +2131,8 @@ struct series_default_cf_stream_insert_impl {
     template <typename T>
     void operator()(::std::ostream &os, const T &x) const
     {
-        if (x.size() > 1u) {
-            // NOTE: if the series has more than 1 term, bracket it.
+        if (detail::series_cf_needs_brackets(x)) {
+            // NOTE: if the series prints as more than 1 term, bracket it.
             os << '(';
             detail::series_stream_terms_impl<false>(os, x);
             os << ')';
-- 
2.43.0


From 983f342dc9d6f6d4c5a1ee9934efa1fd9dca4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:39 +0000
Subject: [PATCH 08/13] fix: bracket the power series coefficients which print
 with a truncation

In tex mode, a power series with one term and a truncation was printed
without brackets when used as a coefficient (e.g.
{a} + \mathcal{O}\left( > 3 \right){x}).
---
 include/obake/power_series/power_series.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/obake/power_series/power_series.hpp b/include/obake/power_series/power_series.hpp
index 2883568..5ca3132 100644
--- a/include/obake/power_series/power_series.hpp
+++ b/include/obake/power_series/power_series.hpp
@@ -944,6 +944,22 @@ inline void tex_stream_insert(::std::ostream &os, const p_series<K, C> &ps)
         ::obake::get_truncation(ps));
 }
 
+// Specialisation of stream insertion in tex mode for power series
+// used as coefficients.
+template <typename K, typename C>
+inline void cf_tex_stream_insert(::std::ostream &os, const p_series<K, C> &ps)
+{
+    if (ps.size() > 1u || !::std::holds_alternative<detail::no_truncation>(::obake::get_truncation(ps))) {
+        // NOTE: if the series has more than 1 term, or it is followed
+        // by the truncation, bracket it.
+        os << "\\left(";
+        power_series::tex_stream_insert(os, ps);
+        os << "\\right)";
+    } else {
+        power_series::tex_stream_insert(os, ps);
+    }
+}
+
 namespace detail
 {
 
-- 
2.43.0


From 33225987bac1ef2c0422cfd5d2a0a9e086b1669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 09/13] fix: leave room for the frame which backtrace_full()
 adds to the skipped ones

---
 src/libbacktrace_stack_trace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libbacktrace_stack_trace.cpp b/src/libbacktrace_stack_trace.cpp
index 1018309..c8d5aaf 100644
--- a/src/libbacktrace_stack_trace.cpp
+++ b/src/libbacktrace_stack_trace.cpp
@@ -96,8 +96,9 @@ int backtrace_callback(void *data, ::std::uintptr_t, const char *filename, int l
 ::std::string stack_trace_impl(unsigned skip)
 {
     // Check the skip parameter.
+    // NOTE: we add 2 to skip below, and backtrace_full() internally adds 1.
     // LCOV_EXCL_START
-    if (obake_unlikely(skip > static_cast<unsigned>(::std::numeric_limits<int>::max()) - 2u)) {
+    if (obake_unlikely(skip > static_cast<unsigned>(::std::numeric_limits<int>::max()) - 3u)) {
         return "The stack trace could not be generated due to an overflow condition.";
     }
     // LCOV_EXCL_STOP
-- 
2.43.0


From c3f5367022262a6e0276f8e7344ab614eae41973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 10/13] fix: move the coefficients when extending the symbol
 set of an rvalue

In the non-segmented branch of series_sym_extender() the terms of the
original series were bound by const reference, thus the coefficients
were always copied, also when the original series is an rvalue.
---
 include/obake/series.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 6007379..7f99341 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -606,7 +606,12 @@ inline void series_sym_extender(To &to, From &&from, const symbol_idx_map<symbol
     } else {
         auto &to_table = to._get_s_table()[0];
 
-        for (const auto &[k, c] : from._get_s_table()[0]) {
+        for (auto &term : from._get_s_table()[0]) {
+            // NOTE: no structured bindings by const reference here,
+            // as they would prevent the move of the coefficients.
+            auto &k = term.first;
+            auto &c = term.second;
+
             // Compute the merged key.
             auto merged_key = ::obake::key_merge_symbols(k, ins_map, orig_ss);
 
-- 
2.43.0


From cf44ad260e678f5372c7404083f75f2d6aff8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:05 +0000
Subject: [PATCH 11/13] fix: do not use a thread_local object which may have
 been destroyed when merging symbols

---
 include/obake/polynomials/d_packed_monomial.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/obake/polynomials/d_packed_monomial.hpp b/include/obake/polynomials/d_packed_monomial.hpp
index b0e0c69..88a417c 100644
--- a/include/obake/polynomials/d_packed_monomial.hpp
+++ b/include/obake/polynomials/d_packed_monomial.hpp
@@ -487,8 +487,11 @@ inline d_packed_monomial<T, PSize> key_merge_symbols(const d_packed_monomial<T,
     T tmp;
     // NOTE: store the merged monomial in a temporary
     // vector and then pack it at the end.
-    thread_local ::std::vector<T> tmp_v;
-    tmp_v.clear();
+    // NOTE: a local object, rather than a thread_local one to be
+    // re-used, as the latter would be gone when this function is called
+    // by the destructors of static or thread_local objects, or by the
+    // functions registered with atexit().
+    ::std::vector<T> tmp_v;
     for (const auto &n : c) {
         kunpacker<T> ku(n, PSize);
 
-- 
2.43.0


From d92a5b910c9d31600c6a8850d1fd1161c49e7113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:05 +0000
Subject: [PATCH 12/13] fix: keep the cache of the powers of series until the
 very end of the program

---
 src/series.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/series.cpp b/src/series.cpp
index 4b053be..ade3ed1 100644
--- a/src/series.cpp
+++ b/src/series.cpp
@@ -64,8 +64,11 @@ namespace customisation::internal
 // objects used to implement the pow map.
 ::std::tuple<series_pow_map_t &, ::std::mutex &> get_series_pow_map()
 {
-    static series_pow_map_t retval;
-    static ::std::mutex mutex;
+    // NOTE: these objects are never destroyed, so that the cache can be
+    // used until the very end of the program (e.g., by the destructors
+    // of static objects, or by the functions registered with atexit()).
+    static auto &retval = *new series_pow_map_t;
+    static auto &mutex = *new ::std::mutex;
     return ::std::make_tuple(::std::ref(retval), ::std::ref(mutex));
 }
 
-- 
2.43.0


From fa5604c79edadb86fbcd236aa71ed3790718295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:13 +0000
Subject: [PATCH 13/13] fix: printing a series must not alter the names of the
 symbols

The simplification of "+-" into "-" was performed on the whole text of the
series, including the representations of the keys and of the coefficients:
a symbol whose name contains "+-" (any string is a valid name) was printed
as another one. Simplify instead only the sign between two terms.
---
 include/obake/series.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 7f99341..830b4ad 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -2053,8 +2053,16 @@ inline void series_stream_terms_impl(::std::ostream &os, const T &s)
         const auto str_key = oss.str();
 
         // Print the term.
+        const auto term_idx = ret.size();
         detail::series_stream_single_term(ret, str_cf, str_key, TexMode);
 
+        // If the coefficient begins with a minus sign, transform
+        // the "+-" between the previous term and this one into "-".
+        // NOTE: str_cf was updated to what was actually printed.
+        if (term_idx != 0u && !str_cf.empty() && str_cf.front() == '-') {
+            ret.erase(term_idx - 1u, 1);
+        }
+
         // Increase the counters.
         ++count;
         if (++it != end) {
@@ -2073,16 +2081,6 @@ inline void series_stream_terms_impl(::std::ostream &os, const T &s)
         }
     }
 
-    // Transform "+-" into "-".
-    ::std::string::size_type index = 0;
-    while (true) {
-        index = ret.find("+-", index);
-        if (index == ::std::string::npos) {
-            break;
-        }
-        ret.replace(index++, 2, 1, '-');
-    }
-
     os << ret;
 }
 
-- 
2.43.0

