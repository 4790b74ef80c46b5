From 002022817eac9538b71b4ef568a1d1e10a7a8629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:59 +0000
Subject: [PATCH 01/14] fix: match lookarounds nested inside a lookbehind in
 the right direction

(?<=(?=ab)a)b did not match "ab": the nested lookahead became a lookbehind on
the reversed input, but its content was then matched mirrored ("ba"). Captures
and backreferences inside such lookaheads did not work for the same reason.
---
 .../ast/predicates/lookaround_predicate.hpp     | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index 637a452..55f1b0a 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -1,6 +1,7 @@
 #ifndef MREGEX_PREDICATES_LOOKAROUND_PREDICATE_HPP
 #define MREGEX_PREDICATES_LOOKAROUND_PREDICATE_HPP
 
+#include <type_traits>
 #include <mregex/ast/inversion.hpp>
 #include <mregex/ast/traits.hpp>
 #include <mregex/utility/continuations.hpp>
@@ -13,7 +14,11 @@ namespace meta::ast::predicates
         template<std::forward_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
+            // Inside a lookbehind the input is reversed, so the AST must be inverted to match it
+            constexpr bool is_reversed = !std::is_same_v<Iter, typename Context::iterator>;
+            using ast_type = typename std::conditional_t<is_reversed, invert<Inner>, std::type_identity<Inner>>::type;
+
+            auto inner_match = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
             return inner_match.matched;
         }
 
@@ -42,6 +47,16 @@ namespace meta::ast::predicates
             return result.matched;
         }
 
+        template<std::bidirectional_iterator Iter, typename Context>
+        static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
+        requires (!is_trivially_matchable<Inner> && !std::is_same_v<Iter, typename Context::iterator>)
+        {
+            // Looking behind in an input that is already reversed means matching the original input
+            using iterator = typename Context::iterator;
+            auto result = Inner::match(end.base(), begin.base(), current.base(), ctx, continuations<iterator>::success);
+            return result.matched;
+        }
+
         template<std::bidirectional_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter /*end*/, Iter current, Context &ctx) noexcept
         requires is_trivially_matchable<Inner>
-- 
2.43.0


From f4bbe207e00ea3ad98cf12a7a50eb0061cca4587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:08 +0000
Subject: [PATCH 02/14] fix: swap begin and end anchors when inverting the AST
 for a lookbehind

(?<=^a)b did not match "ab" since ^ was tested against the reversed input.
---
 include/mregex/ast/inversion.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/mregex/ast/inversion.hpp b/include/mregex/ast/inversion.hpp
index 6e0c7e6..5f6053a 100644
--- a/include/mregex/ast/inversion.hpp
+++ b/include/mregex/ast/inversion.hpp
@@ -25,6 +25,30 @@ namespace meta::ast
     template<typename Node>
     using invert_t = typename invert<Node>::type;
 
+    template<>
+    struct invert<beginning_of_line>
+    {
+        using type = end_of_line;
+    };
+
+    template<>
+    struct invert<end_of_line>
+    {
+        using type = beginning_of_line;
+    };
+
+    template<>
+    struct invert<beginning_of_input>
+    {
+        using type = end_of_input;
+    };
+
+    template<>
+    struct invert<end_of_input>
+    {
+        using type = beginning_of_input;
+    };
+
     template<typename... Nodes>
     struct invert<sequence<Nodes ...>>
     {
-- 
2.43.0


From aa4fdffc761b5ea337073fecb794c1ec63fc9727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:08 +0000
Subject: [PATCH 03/14] fix: number captures in different alternation branches
 separately

(a)|(b) reported "b" as group 1 and left group 2 empty, and named captures in
different branches did not compile, because every branch of an alternation was
indexed with the same offset.
---
 include/mregex/ast/indexing.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mregex/ast/indexing.hpp b/include/mregex/ast/indexing.hpp
index 26b3b81..5bb595e 100644
--- a/include/mregex/ast/indexing.hpp
+++ b/include/mregex/ast/indexing.hpp
@@ -60,6 +60,15 @@ namespace meta::ast
                 }(inner_offsets{}));
             };
 
+            template<typename... Nodes>
+            struct index<alternation<Nodes ...>>
+            {
+                using inner_offsets = capture_index_offsets_t<Offset, capture_count<Nodes> ...>;
+                using type = decltype([]<std::size_t... Offsets>(std::index_sequence<Offsets ...>) {
+                    return alternation<typename capture_indexer<Offsets>::template index<Nodes>::type ...>{};
+                }(inner_offsets{}));
+            };
+
             template<typename Node>
             using index_t = typename index<Node>::type;
         };
-- 
2.43.0


From 9302623019229fc10fa5feb633a93af525f39c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:08 +0000
Subject: [PATCH 04/14] fix: do not decrement forward iterators for ^ in
 multiline mode

^ with the multiline flag called std::prev on iterators that are only forward,
which is undefined behavior and walked past the end of the input.
---
 .../ast/predicates/anchor_predicates.hpp       | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/predicates/anchor_predicates.hpp b/include/mregex/ast/predicates/anchor_predicates.hpp
index 7b58fa1..115c9df 100644
--- a/include/mregex/ast/predicates/anchor_predicates.hpp
+++ b/include/mregex/ast/predicates/anchor_predicates.hpp
@@ -16,11 +16,27 @@ namespace meta::ast::predicates
                 return true;
             if constexpr (Mode == line_mode::multiline && Context::flags::multiline)
             {
-                if (linebreak::match_one(*std::prev(current), ctx))
+                if (linebreak::match_one(*previous(begin, current), ctx))
                     return true;
             }
             return false;
         }
+
+    private:
+        template<std::forward_iterator Iter>
+        static constexpr auto previous(Iter begin, Iter current) noexcept -> Iter
+        {
+            // Iterators which cannot be decremented must be searched for from the beginning
+            while (std::next(begin) != current)
+                ++begin;
+            return begin;
+        }
+
+        template<std::bidirectional_iterator Iter>
+        static constexpr auto previous(Iter /*begin*/, Iter current) noexcept -> Iter
+        {
+            return std::prev(current);
+        }
     };
 
     template<line_mode Mode>
-- 
2.43.0


From 5368203ad42b84c49155ae4dbc1b8f8857205dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:08 +0000
Subject: [PATCH 05/14] fix: allow backreferences on forward iterators

Backreferences outside of lookbehinds do not need to be reversed, but required
bidirectional iterators and did not compile for forward-only inputs.
---
 include/mregex/ast/nodes/terminals/backref.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/nodes/terminals/backref.hpp b/include/mregex/ast/nodes/terminals/backref.hpp
index badc6f1..50152a1 100644
--- a/include/mregex/ast/nodes/terminals/backref.hpp
+++ b/include/mregex/ast/nodes/terminals/backref.hpp
@@ -59,7 +59,8 @@ namespace meta::ast
         }
 
     private:
-        template<bool Condition, std::ranges::bidirectional_range Range>
+        template<bool Condition, std::ranges::forward_range Range>
+        requires (!Condition || std::ranges::bidirectional_range<Range>)
         static constexpr auto reverse_if(Range &range) noexcept
         {
             if constexpr (Condition)
-- 
2.43.0


From 785e78ed62e6da581f317b6d21639089706048ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:08 +0000
Subject: [PATCH 06/14] fix: do not report content for a failed match

match and match_prefix filled in group 0 (length, begin, end) of a result even
when the pattern did not match, e.g. regex<"a">::match("ab") had length 1.
---
 include/mregex/regex_methods.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_methods.hpp b/include/mregex/regex_methods.hpp
index 7d80024..d54a38d 100644
--- a/include/mregex/regex_methods.hpp
+++ b/include/mregex/regex_methods.hpp
@@ -20,7 +20,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::equals(end));
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
@@ -38,7 +39,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
-- 
2.43.0


From db5df188a8ea32ecfe0fe43f72340bbd28863ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:08 +0000
Subject: [PATCH 07/14] fix: keep the last captured content when a further
 repetition fails

(a)+ on "aa" reported an empty group 1, because the failing third repetition
cleared the content captured by the second one.
---
 include/mregex/ast/nodes/capture.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/nodes/capture.hpp b/include/mregex/ast/nodes/capture.hpp
index e1e55df..ccd54f8 100644
--- a/include/mregex/ast/nodes/capture.hpp
+++ b/include/mregex/ast/nodes/capture.hpp
@@ -19,13 +19,14 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_capture = std::get<ID>(ctx.captures);
             auto continuation = [=, &ctx, &cont](Iter next) noexcept -> match_result<Iter> {
                 capture_matched_range(current, next, ctx);
                 return cont(next);
             };
             if (auto inner_match = Inner::match(begin, end, current, ctx, continuation))
                 return inner_match;
-            std::get<ID>(ctx.captures).clear();
+            std::get<ID>(ctx.captures) = previous_capture;
             return non_match(current);
         }
 
-- 
2.43.0


From 064496eda6308eeea1c322d78ef83603f7be43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:08 +0000
Subject: [PATCH 08/14] fix: undo captures when backtracking out of lookarounds
 and atomic groups

Captures set inside a lookaround, an atomic group or a possessive repetition
stayed visible after that path was abandoned: c\1|(?=(a))ab searched in "aca"
matched "ca" with a group 1 left over from an earlier position.
---
 include/mregex/ast/nodes/assertion.hpp             |  7 ++++++-
 .../ast/nodes/quantifiers/fixed_repetition.hpp     | 14 ++++++++++++--
 .../mregex/ast/nodes/quantifiers/repetition.hpp    |  6 +++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/mregex/ast/nodes/assertion.hpp b/include/mregex/ast/nodes/assertion.hpp
index 5d634d3..76dffb2 100644
--- a/include/mregex/ast/nodes/assertion.hpp
+++ b/include/mregex/ast/nodes/assertion.hpp
@@ -23,8 +23,13 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             if (Predicate::is_match(begin, end, current, ctx))
-                return cont(current);
+            {
+                if (auto rest_match = cont(current))
+                    return rest_match;
+            }
+            ctx.captures = previous_captures;
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
index e45f774..74fea32 100644
--- a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
@@ -29,8 +29,13 @@ namespace meta::ast
         static constexpr auto possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             if (auto result = backtracking_match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(result.end);
+            {
+                if (auto rest_match = cont(result.end))
+                    return rest_match;
+            }
+            ctx.captures = previous_captures;
             return non_match(current);
         }
 
@@ -142,8 +147,13 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             if (auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(inner_match.end);
+            {
+                if (auto rest_match = cont(inner_match.end))
+                    return rest_match;
+            }
+            ctx.captures = previous_captures;
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/repetition.hpp b/include/mregex/ast/nodes/quantifiers/repetition.hpp
index ff5a6c8..035b039 100644
--- a/include/mregex/ast/nodes/quantifiers/repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/repetition.hpp
@@ -51,6 +51,7 @@ namespace meta::ast
         static constexpr auto bounded_possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             for (std::size_t match_count = 0; !symbol::equals<Bound>(match_count); ++match_count)
             {
                 auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
@@ -58,7 +59,10 @@ namespace meta::ast
                     break;
                 current = inner_match.end;
             }
-            return cont(current);
+            if (auto rest_match = cont(current))
+                return rest_match;
+            ctx.captures = previous_captures;
+            return non_match(current);
         }
 
         template<symbol::quantifier Bound, std::forward_iterator Iter, typename Context, match_continuation<Iter> Cont>
-- 
2.43.0


From dcd8df67e1506aabfeef10e7f25c26d41e258706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:08 +0000
Subject: [PATCH 09/14] fix: let as_memory_owner propagate std::bad_alloc

Copying captures into strings may throw, but was done inside a noexcept lambda
which terminated the program instead.
---
 include/mregex/match_result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/match_result.hpp b/include/mregex/match_result.hpp
index f2e0b2a..3d65378 100644
--- a/include/mregex/match_result.hpp
+++ b/include/mregex/match_result.hpp
@@ -83,7 +83,7 @@ namespace meta
         [[nodiscard]] auto as_memory_owner() const
         requires is_view
         {
-            auto owned_captures = transform_groups([](auto const &capture) noexcept {
+            auto owned_captures = transform_groups([](auto const &capture) {
                 return regex_capture{capture};
             });
 
-- 
2.43.0


From 63239a8cb559319303a48093c2a47e0ea3f81d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:08 +0000
Subject: [PATCH 10/14] fix: let as_optional on const rvalues propagate
 std::bad_alloc

A const rvalue result is copied, which may throw for results that own memory,
but the helper was noexcept for every rvalue and terminated the program.
---
 include/mregex/match_result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/match_result.hpp b/include/mregex/match_result.hpp
index 3d65378..6a40921 100644
--- a/include/mregex/match_result.hpp
+++ b/include/mregex/match_result.hpp
@@ -275,7 +275,7 @@ namespace meta
     private:
         template<typename Self>
         static constexpr auto forward_self_as_optional(Self &&self)
-        noexcept(is_view || std::is_rvalue_reference_v<Self &&>)
+        noexcept(std::is_nothrow_constructible_v<std::remove_cvref_t<Self>, Self &&>)
         -> std::optional<std::remove_cvref_t<Self>>
         {
             if (!self.matched())
-- 
2.43.0


From e25282a66d83ec6ea9448ddfdaa652bd77b37902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:08 +0000
Subject: [PATCH 11/14] fix: make the post-increment of generator range
 iterators compile

The previous position was constructed from a pointer instead of a reference.
---
 include/mregex/utility/input_range_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/utility/input_range_adapter.hpp b/include/mregex/utility/input_range_adapter.hpp
index e85fbba..135b692 100644
--- a/include/mregex/utility/input_range_adapter.hpp
+++ b/include/mregex/utility/input_range_adapter.hpp
@@ -65,7 +65,7 @@ namespace meta
 
             constexpr iterator operator++(int) noexcept(is_nothrow_invocable)
             {
-                iterator old_iter{_target};
+                iterator old_iter{*this};
                 this->operator++();
                 return old_iter;
             }
-- 
2.43.0


From 5707871637584e2a474f9f0de7c237c0888981a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:16 +0000
Subject: [PATCH 12/14] fix: undo a capture as soon as what follows it fails

The inner node of a capture may have another alternative that references the
same capture; it saw the content of the abandoned one: (b|\1)b on "b".
---
 include/mregex/ast/nodes/capture.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/mregex/ast/nodes/capture.hpp b/include/mregex/ast/nodes/capture.hpp
index ccd54f8..075ec7c 100644
--- a/include/mregex/ast/nodes/capture.hpp
+++ b/include/mregex/ast/nodes/capture.hpp
@@ -22,12 +22,13 @@ namespace meta::ast
             auto const previous_capture = std::get<ID>(ctx.captures);
             auto continuation = [=, &ctx, &cont](Iter next) noexcept -> match_result<Iter> {
                 capture_matched_range(current, next, ctx);
-                return cont(next);
+                auto rest_match = cont(next);
+                // The inner node may try to match something else that references this capture
+                if (!rest_match)
+                    std::get<ID>(ctx.captures) = previous_capture;
+                return rest_match;
             };
-            if (auto inner_match = Inner::match(begin, end, current, ctx, continuation))
-                return inner_match;
-            std::get<ID>(ctx.captures) = previous_capture;
-            return non_match(current);
+            return Inner::match(begin, end, current, ctx, continuation);
         }
 
     private:
-- 
2.43.0


From cc428be66487a89de7ebed6aec7f16cdfe294764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:40 +0000
Subject: [PATCH 13/14] fix: copying or measuring an unmatched group of a
 std::list input crashed

An unmatched group holds value-initialized iterators. Measuring the distance
between them is undefined and dereferences a null node for std::list.
---
 include/mregex/regex_capture.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index d5ed574..d081be2 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -66,7 +66,8 @@ namespace meta
 
         constexpr auto length() const noexcept -> std::size_t
         {
-            return std::distance(_begin, _end);
+            // An unmatched group holds value-initialized iterators, which can only be compared
+            return is_empty() ? 0 : std::distance(_begin, _end);
         }
 
         constexpr auto begin() const noexcept
@@ -84,7 +85,7 @@ namespace meta
             if constexpr (is_contiguous_view)
                 return std::string_view{_begin, _end};
             else
-                return std::string{_begin, _end};
+                return _begin == _end ? std::string{} : std::string{_begin, _end};
         }
 
         constexpr auto &operator[](std::size_t index) noexcept
@@ -127,7 +128,7 @@ namespace meta
 
         template<std::forward_iterator Iter>
         explicit regex_capture(regex_capture_view<Iter, Name> const &capture_view)
-            : _capture{capture_view.begin(), capture_view.end()}
+            : _capture{capture_view.content()}
         {}
 
         bool is_empty() const noexcept
-- 
2.43.0


From cec71e05e794a639d679a5f37b865aed91a6353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:24 +0000
Subject: [PATCH 14/14] fix: content() of a constant expiring capture did not
 compile

---
 include/mregex/regex_capture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index d081be2..ddceabd 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -178,7 +178,7 @@ namespace meta
 
         auto const &&content() const && noexcept
         {
-            return _capture;
+            return std::move(_capture);
         }
 
         auto &operator[](std::size_t index) noexcept
-- 
2.43.0

