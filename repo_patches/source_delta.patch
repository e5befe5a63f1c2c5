From 5e4c14a72144f9de8ba4cb25dec22eafcd69f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 01/14] fix: \s consumes a character only when it matches

A failed \s moved the current position one character ahead.
---
 src/terminals/space_characters.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/terminals/space_characters.hpp b/src/terminals/space_characters.hpp
index 4ed983e..7b8ffbb 100644
--- a/src/terminals/space_characters.hpp
+++ b/src/terminals/space_characters.hpp
@@ -29,7 +29,10 @@ namespace e_regex::terminals
                                    *result.actual_iterator_end)
                          != matched.end();
 
-                result.actual_iterator_end++;
+                if (result)
+                {
+                    result.actual_iterator_end++;
+                }
 
                 return result;
             }
-- 
2.43.0


From 170c2b054c7576e6b0b3f1a096b5683a950b3e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 02/14] fix: negated terminals consume exactly one character

\D, \W, \S and \N did not compile (an rvalue was bound to auto&), and would not
have advanced over the matched character.
---
 src/terminals/common.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/terminals/common.hpp b/src/terminals/common.hpp
index 32bc961..bb2d457 100644
--- a/src/terminals/common.hpp
+++ b/src/terminals/common.hpp
@@ -41,6 +41,9 @@ namespace e_regex::terminals
         : public terminal_common<negated_terminal<terminal, admission_set>,
                                  admitted_set_complement_t<admission_set>>
     {
+            static constexpr auto expression
+                = "[^" + terminal::expression + "]";
+
             template<typename... injected_children>
             using optimize = negated_terminal;
 
@@ -48,9 +51,15 @@ namespace e_regex::terminals
             static constexpr __attribute__((always_inline)) auto
                 match_(auto& result) -> auto&
             {
-                result = terminal::match_(std::move(result));
+                const auto start = result.actual_iterator_end;
+
+                terminal::match_(result);
                 result = !result.accepted;
 
+                // Exactly one character is consumed, only on success
+                result.actual_iterator_end
+                    = result ? start + 1 : start;
+
                 return result;
             }
     };
-- 
2.43.0


From 39d09326f01738114e2243f351ea9c9a7db6eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 03/14] fix: multi-character terminals stay inside the query

An exact matcher of several characters read past the end of the query, and its
admission set contained characters that cannot be the first one (in an order that
the set operations do not support).
---
 src/terminals/exact_matcher.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index f9ec4e4..e030391 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -14,13 +14,13 @@ namespace e_regex::terminals
     struct exact_matcher<pack_string<identifier, identifiers...>>
         : public terminal_common<
               exact_matcher<pack_string<identifier, identifiers...>>,
-              admitted_set<char, identifier, identifiers...>>
+              admitted_set<char, identifier>>
     {
             static constexpr auto expression
                 = pack_string<identifier, identifiers...>::string;
 
             static constexpr auto meta
-                = e_regex::meta<admitted_set<char, identifier, identifiers...>> {
+                = e_regex::meta<admitted_set<char, identifier>> {
                     .policy_            = e_regex::policy::EXACT,
                     .minimum_match_size = sizeof...(identifiers) + 1,
                     .maximum_match_size = sizeof...(identifiers) + 1,
@@ -35,7 +35,8 @@ namespace e_regex::terminals
                 for (const auto c:
                      pack_string<identifier, identifiers...>::string.to_view())
                 {
-                    if (c != *result.actual_iterator_end)
+                    if (result.actual_iterator_end == result.query.end()
+                        || c != *result.actual_iterator_end)
                     {
                         result.actual_iterator_end = start;
                         result.accepted            = false;
-- 
2.43.0


From 6d76173797605f22895ee22f9063760a029d896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 04/14] fix: anchors hold at the line boundaries the README
 names

^ matches at the start of a line too and at the start of an empty input; $ does not
read the byte after the end of the query, and its admission set is the newline it
can consume instead of everything else.
---
 src/terminals/anchors/end.hpp   |  5 +++--
 src/terminals/anchors/start.hpp | 10 +++-------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index 4bfe158..af2e258 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -11,7 +11,7 @@ namespace e_regex::terminals::anchors
             static constexpr auto expression = static_string {"$"};
 
             static constexpr auto meta = e_regex::meta<
-                admitted_set_complement_t<admitted_set<char, '\n'>>> {
+                admitted_set<char, '\n'>> {
                 .policy_            = e_regex::policy::NONE,
                 .minimum_match_size = 0,
                 .maximum_match_size = 1,
@@ -34,7 +34,8 @@ namespace e_regex::terminals::anchors
                     = (result.actual_iterator_end == result.query.end())
                       || *result.actual_iterator_end == '\n';
 
-                if (*result.actual_iterator_end == '\n')
+                if (result.actual_iterator_end < result.query.end()
+                    && *result.actual_iterator_end == '\n')
                 {
                     result.actual_iterator_end++;
                 }
diff --git a/src/terminals/anchors/start.hpp b/src/terminals/anchors/start.hpp
index e58799b..58f5147 100644
--- a/src/terminals/anchors/start.hpp
+++ b/src/terminals/anchors/start.hpp
@@ -24,14 +24,10 @@ namespace e_regex::terminals::anchors
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                if (result.actual_iterator_end >= result.query.end())
-                {
-                    result.accepted = false;
-                    return result;
-                }
-
+                // Start of the input or of a line
                 result = (result.actual_iterator_end
-                          == result.query.begin());
+                          == result.query.begin())
+                         || *(result.actual_iterator_end - 1) == '\n';
 
                 return result;
             }
-- 
2.43.0


From f766fe24afac60a78c81aa23c2a437f5f2de541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 05/14] fix: a search tries every position once, from a clean
 state

After a failed attempt the search resumed one character after wherever that attempt
had stopped, skipping possible starts, and kept its captures; empty matches at the end
of the query were never found, an empty match was found again forever by next(), and
next() on an exhausted result started again.
---
 src/match_result.hpp | 64 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index fe5e0ba..1bfb5a2 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -54,11 +54,7 @@ namespace e_regex
                 data.actual_iterator_start = query.begin();
                 data.actual_iterator_end = data.actual_iterator_start;
 
-                data = matcher::match(data);
-                if (!data)
-                {
-                    next();
-                }
+                search();
             }
 
             constexpr __attribute__((always_inline)) auto
@@ -176,11 +172,55 @@ namespace e_regex
              */
             constexpr __attribute__((always_inline)) auto next() noexcept
             {
-                data.match_groups = {};
+                if (!data.accepted)
+                {
+                    return false;
+                }
+
+                const bool empty = data.actual_iterator_start
+                                   == data.actual_iterator_end;
+
                 data.actual_iterator_start = data.actual_iterator_end;
 
-                while (data.actual_iterator_start < data.query.end())
+                if (empty)
+                {
+                    // Go past an empty match, or it would be found again
+                    if (data.actual_iterator_start == data.query.end())
+                    {
+                        reject();
+                        return false;
+                    }
+
+                    ++data.actual_iterator_start;
+                }
+
+                return search();
+            }
+
+        private:
+            constexpr __attribute__((always_inline)) void reject() noexcept
+            {
+                data.match_groups          = {};
+                data.actual_iterator_start = data.query.end();
+                data.actual_iterator_end   = data.query.end();
+                data.accepted              = false;
+            }
+
+            /**
+             * @brief Find the first match that starts at
+             * actual_iterator_start or after it
+             *
+             * @return false if there is none
+             */
+            constexpr auto search() noexcept -> bool
+            {
+                for (auto start = data.actual_iterator_start;; ++start)
                 {
+                    data.match_groups          = {};
+                    data.actual_iterator_start = start;
+                    data.actual_iterator_end   = start;
+                    data.accepted              = true;
+
                     matcher::match(data);
 
                     if (data.accepted)
@@ -188,12 +228,12 @@ namespace e_regex
                         return true;
                     }
 
-                    data.actual_iterator_start
-                        = ++data.actual_iterator_end;
+                    if (start == data.query.end())
+                    {
+                        reject();
+                        return false;
+                    }
                 }
-
-                data.accepted = false;
-                return false;
             }
     };
 } // namespace e_regex
-- 
2.43.0


From 65ea412b6364f7727930c5f556818987ae2f43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 06/14] fix: the documented ways of reading a match result
 compile and agree

size(), operator=(bool), operator!= (so range-based for) and static_cast to
std::string_view did not compile when used; get<> and structured bindings did not
compile for patterns that are a single terminal.
---
 src/match_result.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 1bfb5a2..212e05a 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -60,7 +60,7 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto
                 operator=(bool accepted) noexcept -> match_result&
             {
-                this->accepted = accepted;
+                data.accepted = accepted;
 
                 return *this;
             }
@@ -73,7 +73,13 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto
                 operator!=(const match_result& other) const noexcept
             {
-                return data != other.data;
+                // Every exhausted result is equal
+                return data.accepted != other.data.accepted
+                       || (data.accepted
+                           && (data.actual_iterator_start
+                                   != other.data.actual_iterator_start
+                               || data.actual_iterator_end
+                                      != other.data.actual_iterator_end));
             }
 
             constexpr __attribute__((always_inline)) auto
@@ -114,7 +120,7 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto get() const noexcept
             {
                 static_assert(
-                    index <= matcher::groups,
+                    index <= groups_,
                     "Group index is greater than the number of groups.");
 
                 return get_group(index);
@@ -155,9 +161,15 @@ namespace e_regex
                 return to_view();
             }
 
+            constexpr __attribute__((always_inline)) explicit
+                operator std::string_view() const noexcept
+            {
+                return to_view();
+            }
+
             constexpr __attribute__((always_inline)) auto size() const noexcept
             {
-                return data.matches;
+                return groups_;
             }
 
             static __attribute__((always_inline)) constexpr auto groups() noexcept
@@ -244,7 +256,8 @@ namespace std
     template<typename matcher>
     struct tuple_size<e_regex::match_result<matcher>>
     {
-            static const unsigned value = matcher::groups + 1;
+            static const unsigned value
+                = e_regex::nodes::group_getter<matcher>::value + 1;
     };
 
     template<std::size_t N, typename matcher, typename Char_Type>
-- 
2.43.0


From b17665beef656121772eaa1f4662fa464928f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 07/14] fix: groups are numbered by their opening bracket

The index of the next group was the one after the last bracketed subexpression, so
nested groups, groups after square brackets or non-capturing groups and groups in
different branches shared indices.
---
 src/nodes/common.hpp              | 19 -------------------
 src/nodes/group.hpp               |  2 --
 src/operators/round_brackets.hpp  |  9 ++++++---
 src/operators/square_brackets.hpp |  7 +++----
 src/tree_builder/tree_builder.hpp |  4 +++-
 5 files changed, 12 insertions(+), 29 deletions(-)

diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 48ad323..6ef4c60 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -50,28 +50,9 @@ namespace e_regex::nodes
             static constexpr auto value = T::groups;
     };
 
-    template<typename T>
-    concept has_group_index = requires(T t) { t.next_group_index; };
-
-    template<typename T>
-    struct group_index_getter
-    {
-            static constexpr auto value = 0;
-    };
-
-    template<has_groups T>
-    struct group_index_getter<T>
-    {
-            static constexpr auto value = T::next_group_index;
-    };
-
     template<typename matcher, typename... children>
     struct base
     {
-            static constexpr auto next_group_index
-                = max(group_index_getter<matcher>::value,
-                      group_index_getter<children>::value...);
-
             static constexpr unsigned groups
                 = group_getter<matcher>::value
                   + sum(group_getter<children>::value...);
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 5fc7019..47009ac 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -25,8 +25,6 @@ namespace e_regex::nodes
                 .minimum_match_size = matcher::meta.minimum_match_size,
                 .maximum_match_size = matcher::meta.maximum_match_size};
 
-            static constexpr auto next_group_index = group_index + 1;
-
             template<typename... injected_children>
             using optimize
                 = group<typename matcher::template optimize<children..., injected_children...>,
diff --git a/src/operators/round_brackets.hpp b/src/operators/round_brackets.hpp
index 2d755f6..29185e3 100644
--- a/src/operators/round_brackets.hpp
+++ b/src/operators/round_brackets.hpp
@@ -21,7 +21,8 @@ namespace e_regex
             using tree =
                 typename branched<std::tuple<parsed..., subtree>,
                                   std::tuple<subregexes...>,
-                                  group_index>::tree;
+                                  group_index
+                                      + nodes::group_getter<subtree>::value>::tree;
     };
 
     template<typename... parsed, auto group_index>
@@ -47,7 +48,8 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<node,
                                              typename substring::remaining,
-                                             node::next_group_index>::tree;
+                                             group_index
+                                                 + nodes::group_getter<node>::value>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
@@ -70,7 +72,8 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             group_index
+                                                 + nodes::group_getter<subregex>::value>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/operators/square_brackets.hpp b/src/operators/square_brackets.hpp
index 4b9618e..85977a2 100644
--- a/src/operators/square_brackets.hpp
+++ b/src/operators/square_brackets.hpp
@@ -107,7 +107,7 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
@@ -127,13 +127,12 @@ namespace e_regex
                 typename substring::result,
                 group_index>::tree;
 
-            // if subregex_group_index is 0 the subregex does not
-            // contain any group
+            // Square brackets do not contain any group
 
             using new_node = typename tree_builder_helper<
                 nodes::simple<nodes::negated_node<subregex>>,
                 typename substring::remaining,
-                subregex::next_group_index>::tree;
+                group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/tree_builder/tree_builder.hpp b/src/tree_builder/tree_builder.hpp
index f327789..7ea8253 100644
--- a/src/tree_builder/tree_builder.hpp
+++ b/src/tree_builder/tree_builder.hpp
@@ -22,7 +22,9 @@ namespace e_regex
             using tree =
                 typename tree_builder_branches<std::tuple<parsed..., subtree>,
                                                std::tuple<subregexes...>,
-                                               subtree::next_group_index>::tree;
+                                               group_index
+                                                   + nodes::group_getter<
+                                                       subtree>::value>::tree;
     };
 
     template<typename... parsed, auto group_index>
-- 
2.43.0


From 3a65b7486ba89f5809b0dd334daa401c961d8d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 08/14] fix: choices are made and undone with what follows in
 sight

Alternatives, greedy, lazy and possessive nodes and groups lost what follows them (a
group passed only its direct children on), tried again from wherever the failed
attempt had stopped, kept its captures, and accepted a text that a given-back
repetition no longer matched. A node without children could not see what follows its
group, so optimizations judged it by nothing; minimum and maximum sizes ignored
children or overflowed; a lazy node at the end of a pattern became possessive; an
empty repetition was repeated forever.
---
 src/nodes/basic.hpp      |  33 +++++-----
 src/nodes/common.hpp     |  73 +++++++++++++++++++++-
 src/nodes/greedy.hpp     | 132 ++++++++++++++++++---------------------
 src/nodes/group.hpp      |  24 ++++---
 src/nodes/lazy.hpp       |  86 ++++++++++++++-----------
 src/nodes/negated.hpp    |   2 +-
 src/nodes/possessive.hpp |  48 +++++++-------
 src/nodes/repeated.hpp   |  21 ++++---
 src/utilities/math.hpp   |  15 +++++
 9 files changed, 268 insertions(+), 166 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index d299d6c..83d559b 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -52,17 +52,17 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(matcher::meta.minimum_match_size,
+                            min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size
-                  + max(children::meta.minimum_match_size...),
+                = add_sizes(matcher::meta.maximum_match_size,
+                            max(children::meta.maximum_match_size...)),
             };
 
             template<typename... injected_children>
             using optimize
-                = simple<typename matcher::template optimize<injected_children...>,
-                         typename children::template optimize<>...>;
+                = simple<typename matcher::template optimize<children..., injected_children...>,
+                         typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -70,7 +70,8 @@ namespace e_regex::nodes
             {
                 auto begin = res.actual_iterator_end;
 
-                matcher::match(res);
+                matcher::template match<children..., injected_children...>(
+                    res);
 
                 if (res)
                 {
@@ -88,28 +89,24 @@ namespace e_regex::nodes
     template<typename... children>
     struct simple<void, children...> : public base<void, children...>
     {
-            using child
-                = std::tuple_element_t<0, std::tuple<children...>>;
-
             static constexpr auto expression
                 = get_children_expression<children...>();
 
-            using admission_set = std::conditional_t<
-                child::meta.minimum_match_size == 0,
-                typename extract_admission_set<children...>::type,
-                typename extract_admission_set<child>::type>;
+            // Every branch can begin the match
+            using admission_set =
+                typename extract_admission_set<children...>::type;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
                 .minimum_match_size
                 = min(children::meta.minimum_match_size...),
                 .maximum_match_size
-                = max(children::meta.minimum_match_size...),
+                = max(children::meta.maximum_match_size...),
             };
 
             template<typename... injected_children>
             using optimize
-                = simple<void, typename children::template optimize<>...>;
+                = simple<void, typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -132,7 +129,7 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_            = policy::NONE,
                 .minimum_match_size = child::meta.minimum_match_size,
-                .maximum_match_size = child::meta.minimum_match_size,
+                .maximum_match_size = child::meta.maximum_match_size,
             };
 
             template<typename... injected_children>
@@ -169,7 +166,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                return matcher::match(res);
+                return matcher::template match<injected_children...>(res);
             }
     };
 
diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 6ef4c60..0eee1a1 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -83,6 +83,55 @@ namespace e_regex::nodes
                   std::tuple<others...>>
     {};
 
+    // Match nodes one after the other
+    template<typename nodes>
+    struct sequence;
+
+    template<>
+    struct sequence<std::tuple<>>
+    {
+            static constexpr __attribute__((always_inline)) auto
+                match(auto& res) -> auto&
+            {
+                return res;
+            }
+    };
+
+    template<typename node, typename... tail>
+    struct sequence<std::tuple<node, tail...>>
+    {
+            static constexpr __attribute__((always_inline)) auto
+                match(auto& res) -> auto&
+            {
+                if (node::template match<tail...>(res))
+                {
+                    sequence<std::tuple<tail...>>::match(res);
+                }
+
+                return res;
+            }
+    };
+
+    // Injected children are the nodes that follow, one after the other, a
+    // node and its children: a choice is good only if they can match after it
+    template<typename injected_children>
+    constexpr auto can_follow(auto match_result) noexcept -> bool
+    {
+        return sequence<injected_children>::match(match_result);
+    }
+
+    // Whatever branch is chosen, it ends in the same place
+    template<typename branches>
+    struct same_size;
+
+    template<typename... branches>
+    struct same_size<std::tuple<branches...>>
+    {
+            static constexpr auto value
+                = min(branches::meta.minimum_match_size...)
+                  == max(branches::meta.maximum_match_size...);
+    };
+
     template<typename children          = std::tuple<>,
              typename injected_children = std::tuple<>>
     constexpr __attribute__((always_inline)) auto
@@ -104,17 +153,35 @@ namespace e_regex::nodes
             }
             else
             {
+                const auto backup = match_result;
+
                 if (invoker::template match<typename _children::type>(
-                        match_result))
+                        match_result)
+                    && (same_size<children>::value
+                        || can_follow<injected_children>(match_result)))
                 {
                     return match_result;
                 }
 
-                match_result.accepted = true;
-                return dfs<typename _children::remaining>(match_result);
+                match_result = backup;
+                return dfs<typename _children::remaining, injected_children>(
+                    match_result);
             }
         }
     }
+
+    // A choice was made: match children, the injected ones must be able to follow
+    template<typename children, typename injected_children>
+    constexpr __attribute__((always_inline)) auto
+        dfs_choice(auto& match_result) noexcept -> auto&
+    {
+        if (dfs<children, injected_children>(match_result))
+        {
+            match_result = can_follow<injected_children>(match_result);
+        }
+
+        return match_result;
+    }
 } // namespace e_regex::nodes
 
 #endif /* E_REGEX_NODES_COMMON_HPP_*/
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 3dcb5f3..a22b029 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -26,23 +26,24 @@ namespace e_regex::nodes
             using self_admission_set =
                 typename decltype(matcher::meta)::admission_set;
 
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0) or
+            // can be empty, admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                repetitions_min == 0 || matcher::meta.minimum_match_size == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 self_admission_set>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::GREEDY,
-                .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                .minimum_match_size = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size, repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(multiply_sizes(matcher::meta.maximum_match_size,
+                                                 repetitions_max),
+                                  max(children::meta.maximum_match_size...)),
             };
 
             static constexpr unsigned groups
@@ -101,72 +102,58 @@ namespace e_regex::nodes
                 }
             }();
 
+            // An optional node chooses between the matches of its
+            // matcher too, unless they all have the same size
+            static constexpr auto has_choices
+                = repetitions_max == 1
+                  && matcher::meta.minimum_match_size
+                         != matcher::meta.maximum_match_size;
+
             // If this node has no intersections with its children,
             // backtracking is not needed
             template<typename... injected_children>
             using optimize = std::conditional_t<
-                admitted_sets_intersection_t<
+                !has_choices
+                    && admitted_sets_intersection_t<
                     self_admission_set,
                     typename extract_admission_set<children..., injected_children...>::type>::empty,
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
-                           typename children::template optimize<>...>,
-                greedy<typename matcher::template optimize<>,
+                           typename children::template optimize<injected_children...>...>,
+                greedy<typename matcher::template optimize<children..., injected_children...>,
                        repetitions_min,
                        repetitions_max,
-                       typename children::template optimize<>...>>;
-
-            template<typename... injected_children>
-            static constexpr auto __attribute__((always_inline))
-            backtrack(auto& result) -> auto&
-            {
-                if constexpr (sizeof...(children) > 0)
-                {
-                    return dfs<std::tuple<children...>>(result);
-                }
-                else
-                {
-                    auto bak = result.actual_iterator_end;
-
-                    dfs<std::tuple<injected_children...>>(result);
-                    result.actual_iterator_end = bak;
-
-                    return result;
-                }
-            }
+                       typename children::template optimize<injected_children...>...>>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
+                using next     = std::tuple<children...>;
+                using injected = std::tuple<injected_children...>;
+
                 if constexpr (std::is_same_v<matcher, void>)
                 {
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<next, injected>(result);
                 }
-                else if constexpr (repetitions_min == 0
-                                   && repetitions_max == 1
-                                   && matcher::meta.minimum_match_size
-                                          == matcher::meta.maximum_match_size)
+                else if constexpr (repetitions_min == 0 && repetitions_max == 1)
                 {
-                    // Optional node with a terminal matcher
-                    matcher::match(result);
+                    // Optional node
+                    const auto start = result;
 
-                    if (!backtrack<injected_children...>(result)
-                        && result.actual_iterator_end
-                               > result.actual_iterator_start)
+                    if (matcher::template match<children..., injected_children...>(
+                            result)
+                        && dfs_choice<next, injected>(result))
                     {
-                        result.actual_iterator_end
-                            -= matcher::meta.minimum_match_size;
-                        backtrack<injected_children...>(result);
+                        return result;
                     }
 
-                    return result;
+                    result = start;
+                    return dfs<next, injected>(result);
                 }
                 else
                 {
-                    const auto begin = result.actual_iterator_end;
-
                     if constexpr (repetitions_min > 0)
                     {
                         for (unsigned i = 0; i < repetitions_min; ++i)
@@ -180,14 +167,19 @@ namespace e_regex::nodes
 
                     // Iterate while this matcher accepts
                     auto       repetitions = repetitions_min;
-                    const auto start = result.actual_iterator_end;
+                    const auto start       = result;
 
                     while (repetitions < repetitions_max)
                     {
-                        if (!matcher::match(result))
+                        const auto last = result;
+
+                        if (!matcher::match(result)
+                            || result.actual_iterator_end
+                                   == last.actual_iterator_end)
                         {
-                            // Restore last good match
-                            result = true;
+                            // Restore last good match, an empty one
+                            // would be repeated forever
+                            result = last;
                             break;
                         }
 
@@ -197,36 +189,36 @@ namespace e_regex::nodes
                     // Now backtrack
                     while (repetitions > repetitions_min)
                     {
-                        if (backtrack<injected_children...>(result))
+                        const auto last = result;
+
+                        if (dfs_choice<next, injected>(result))
                         {
                             return result;
                         }
 
-                        for (auto iter = result.actual_iterator_end - 1;
-                             iter >= start;
-                             --iter)
+                        --repetitions;
+
+                        // Give the last repetition back
+                        if constexpr (group_getter<matcher>::value == 0
+                                      && matcher::meta.minimum_match_size
+                                             == matcher::meta.maximum_match_size)
+                        {
+                            result = last;
+                            result.actual_iterator_end
+                                -= matcher::meta.minimum_match_size;
+                        }
+                        else
                         {
-                            result.actual_iterator_end = iter;
+                            result = start;
 
-                            if (matcher::match(result))
+                            for (auto i = repetitions_min; i < repetitions; ++i)
                             {
-                                result.actual_iterator_end = iter;
-                                break;
+                                matcher::match(result);
                             }
                         }
-
-                        --repetitions;
-                    }
-
-                    result = repetitions >= repetitions_min;
-
-                    if (result)
-                    {
-                        return dfs<std::tuple<children...>>(result);
                     }
 
-                    result.actual_iterator_end = begin;
-                    return result;
+                    return dfs<next, injected>(result);
                 }
             }
     };
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 47009ac..933fc28 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -17,19 +17,25 @@ namespace e_regex::nodes
                 = '(' + matcher::expression + ')'
                   + get_children_expression<children...>();
 
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            using admission_set = std::conditional_t<
+                matcher::meta.minimum_match_size == 0,
+                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
-                .minimum_match_size = matcher::meta.minimum_match_size,
-                .maximum_match_size = matcher::meta.maximum_match_size};
+                .minimum_match_size
+                = add_sizes(matcher::meta.minimum_match_size,
+                            min(children::meta.minimum_match_size...)),
+                .maximum_match_size
+                = add_sizes(matcher::meta.maximum_match_size,
+                            max(children::meta.maximum_match_size...))};
 
             template<typename... injected_children>
             using optimize
                 = group<typename matcher::template optimize<children..., injected_children...>,
                         group_index,
-                        typename children::template optimize<>...>;
+                        typename children::template optimize<injected_children...>...>;
 
             static constexpr unsigned groups
                 = group_getter<matcher>::value
@@ -41,8 +47,10 @@ namespace e_regex::nodes
             {
                 auto begin = result.actual_iterator_end;
 
-                // This node's children matter in backtracking
-                matcher::template match<children...>(result);
+                // This node's children matter in backtracking, just
+                // like what follows them
+                matcher::template match<children..., injected_children...>(
+                    result);
 
                 if (result)
                 {
@@ -51,7 +59,7 @@ namespace e_regex::nodes
                             begin, result.actual_iterator_end};
 
                     return dfs<std::tuple<children...>,
-                               std::tuple<children..., injected_children...>>(
+                               std::tuple<injected_children...>>(
                         result);
                 }
 
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index aa309a2..cf3f1e5 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -17,23 +17,24 @@ namespace e_regex::nodes
              typename... children>
     struct lazy : public base<matcher, children...>
     {
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0) or
+            // can be empty, admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                repetitions_min == 0 || matcher::meta.minimum_match_size == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::LAZY,
-                .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                .minimum_match_size = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size, repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(multiply_sizes(matcher::meta.maximum_match_size,
+                                                 repetitions_max),
+                                  max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
@@ -88,31 +89,43 @@ namespace e_regex::nodes
                 }
             }();
 
+            // An optional node chooses between the matches of its
+            // matcher too, unless they all have the same size
+            static constexpr auto has_choices
+                = repetitions_max == 1
+                  && matcher::meta.minimum_match_size
+                         != matcher::meta.maximum_match_size;
+
             // If this node has no intersections with its children,
-            // backtracking is not needed
+            // backtracking is not needed, but if what follows can be
+            // empty nothing makes this node go on
             template<typename... injected_children>
             using optimize = std::conditional_t<
-                admitted_sets_intersection_t<
+                !has_choices
+                    && (min(children::meta.minimum_match_size...) > 0
+                        || (... || (injected_children::meta.minimum_match_size > 0)))
+                    && admitted_sets_intersection_t<
                     admission_set,
                     typename extract_admission_set<children..., injected_children...>::type>::empty,
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
-                           typename children::template optimize<>...>,
-                lazy<typename matcher::template optimize<>,
+                           typename children::template optimize<injected_children...>...>,
+                lazy<typename matcher::template optimize<children..., injected_children...>,
                      repetitions_min,
                      repetitions_max,
-                     typename children::template optimize<>...>>;
+                     typename children::template optimize<injected_children...>...>>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                auto start = result.actual_iterator_end;
+                using next     = std::tuple<children...>;
+                using injected = std::tuple<injected_children...>;
 
                 if constexpr (std::is_same_v<matcher, void>)
                 {
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<next, injected>(result);
                 }
                 else
                 {
@@ -129,43 +142,44 @@ namespace e_regex::nodes
 
                     unsigned matches = repetitions_min;
 
-                    while (result.actual_iterator_end < result.query.end()
-                           && matches < repetitions_max)
+                    while (matches < repetitions_max)
                     {
-                        if constexpr (sizeof...(children) > 0)
+                        const auto last = result;
+
+                        if (dfs_choice<next, injected>(result))
                         {
-                            dfs<std::tuple<children...>>(result);
+                            return result;
+                        }
 
-                            if (result)
-                            {
-                                return result;
-                            }
+                        result = last;
+
+                        if constexpr (repetitions_max == 1)
+                        {
+                            // The only repetition can see what follows
+                            matcher::template match<children..., injected_children...>(
+                                result);
                         }
                         else
                         {
-                            auto bak = result.actual_iterator_end;
-                            dfs<std::tuple<injected_children...>>(result);
-                            result.actual_iterator_end = bak;
+                            matcher::match(result);
                         }
 
                         if (!result)
                         {
-                            matcher::match(result);
-                            matches++;
-
-                            if (!result)
-                            {
-                                result.actual_iterator_end = start;
-                                return result;
-                            }
+                            return result;
                         }
-                        else
+
+                        matches++;
+
+                        if (result.actual_iterator_end
+                            == last.actual_iterator_end)
                         {
+                            // An empty match would be repeated forever
                             break;
                         }
                     }
 
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<next, injected>(result);
                 }
             }
     };
diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 601a9b9..abff25e 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -21,7 +21,7 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
                 .minimum_match_size = matcher::meta.minimum_match_size,
-                .maximum_match_size = matcher::meta.minimum_match_size,
+                .maximum_match_size = matcher::meta.maximum_match_size,
             };
 
             template<typename... injected_children>
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index a625909..f72dfe4 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -16,23 +16,24 @@ namespace e_regex::nodes
              typename... children>
     struct possessive : public base<matcher, children...>
     {
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0) or
+            // can be empty, admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                repetitions_min == 0 || matcher::meta.minimum_match_size == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::POSSESSIVE,
-                .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                .minimum_match_size = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size, repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(multiply_sizes(matcher::meta.maximum_match_size,
+                                                 repetitions_max),
+                                  max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
@@ -92,37 +93,40 @@ namespace e_regex::nodes
                 = possessive<typename matcher::template optimize<>,
                              repetitions_min,
                              repetitions_max,
-                             typename children::template optimize<>...>;
+                             typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-	      auto end = result.actual_iterator_end;
-
                 for (unsigned i = 0; i < repetitions_max; ++i)
                 {
-                    matcher::template match<injected_children...>(result);
+                    const auto last = result;
+
+                    matcher::match(result);
 
-                    if (!result)
+                    if (i < repetitions_min)
                     {
-                        if (i < repetitions_min)
+                        if (!result)
                         {
                             // Failed too early
                             return result;
                         }
-
-                        // Failed but repetitions_min was satisfied,
-                        // run dfs
-                        result.accepted = true;
-			result.actual_iterator_end = end;
+                    }
+                    else if (!result
+                             || result.actual_iterator_end
+                                    == last.actual_iterator_end)
+                    {
+                        // Failed (or empty, so it would be repeated
+                        // forever) but repetitions_min was
+                        // satisfied, run dfs from the last iteration
+                        result = last;
                         break;
                     }
-
-		  end = result.actual_iterator_end;
                 }
 
-                return dfs<std::tuple<children...>>(result);
+                return dfs<std::tuple<children...>,
+                           std::tuple<injected_children...>>(result);
             }
     };
 
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 2ee9821..880d8e0 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -12,15 +12,19 @@ namespace e_regex::nodes
     template<typename matcher, unsigned repetitions, typename... children>
     struct repeated : public base<matcher, children...>
     {
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            using admission_set = std::conditional_t<
+                repetitions == 0 || matcher::meta.minimum_match_size == 0,
+                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
-                .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions,
-                .maximum_match_size
-                = matcher::meta.maximum_match_size * repetitions,
+                .minimum_match_size = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size, repetitions),
+                    min(children::meta.minimum_match_size...)),
+                .maximum_match_size = add_sizes(
+                    multiply_sizes(matcher::meta.maximum_match_size, repetitions),
+                    max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
@@ -44,7 +48,7 @@ namespace e_regex::nodes
             using optimize
                 = repeated<typename matcher::template optimize<>,
                            repetitions,
-                           typename children::template optimize<>...>;
+                           typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -58,7 +62,8 @@ namespace e_regex::nodes
                     }
                 }
 
-                return dfs<std::tuple<children...>>(res);
+                return dfs<std::tuple<children...>,
+                           std::tuple<injected_children...>>(res);
             }
     };
 } // namespace e_regex::nodes
diff --git a/src/utilities/math.hpp b/src/utilities/math.hpp
index 1b9eab7..e7de705 100644
--- a/src/utilities/math.hpp
+++ b/src/utilities/math.hpp
@@ -2,6 +2,7 @@
 #define E_REGEX_UTILITIES_MATH_HPP_
 
 #include <algorithm>
+#include <limits>
 
 namespace e_regex
 {
@@ -45,6 +46,20 @@ namespace e_regex
         return max(std::max(n1, n2), tail...);
     }
 
+    // Sizes saturate: the greatest number stands for any number
+    consteval auto add_sizes(unsigned n1, unsigned n2) -> unsigned
+    {
+        return n1 > std::numeric_limits<unsigned>::max() - n2
+                   ? std::numeric_limits<unsigned>::max()
+                   : n1 + n2;
+    }
+
+    consteval auto multiply_sizes(unsigned n1, unsigned n2) -> unsigned
+    {
+        return n2 != 0 && n1 > std::numeric_limits<unsigned>::max() / n2
+                   ? std::numeric_limits<unsigned>::max()
+                   : n1 * n2;
+    }
 } // namespace e_regex
 
 #endif /* E_REGEX_UTILITIES_MATH_HPP_*/
-- 
2.43.0


From 9b59d47feff38751136939b97ab9c09137716ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 09/14] fix: admission sets cover every character value

Negated sets and . left out the characters above 0x7F, so patterns that contain such
characters were optimized wrongly; a range of one character did not compile.
---
 src/terminals/any.hpp          | 2 +-
 src/utilities/admitted_set.hpp | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/terminals/any.hpp b/src/terminals/any.hpp
index a3eec05..592eac8 100644
--- a/src/terminals/any.hpp
+++ b/src/terminals/any.hpp
@@ -9,7 +9,7 @@ namespace e_regex::terminals
     template<>
     struct terminal<pack_string<'.'>>
         : public terminal_common<terminal<pack_string<'.'>>,
-                                 admitted_set_range_t<char, '\0', '\x7F'>>
+                                 admitted_set_complement_t<admitted_set<char, '\n'>>>
     {
             static constexpr auto expression = static_string {"."};
 
diff --git a/src/utilities/admitted_set.hpp b/src/utilities/admitted_set.hpp
index 4d4353b..cd1d667 100644
--- a/src/utilities/admitted_set.hpp
+++ b/src/utilities/admitted_set.hpp
@@ -27,14 +27,14 @@ namespace e_regex
              Char start,
              Char end,
              typename seq = std::make_integer_sequence<unsigned, 1 + end - start>>
-        requires(end > start)
+        requires(end >= start)
     struct admitted_set_range;
 
     template<typename Char, Char start, Char end, auto... seq>
     struct admitted_set_range<Char, start, end, std::integer_sequence<unsigned, seq...>>
     {
             using type
-                = admitted_set<Char, (static_cast<Char>(seq) + start)...>;
+                = admitted_set<Char, static_cast<Char>(start + static_cast<int>(seq))...>;
     };
 
     template<typename Char, Char start, Char end>
@@ -194,7 +194,9 @@ namespace e_regex
     template<typename set, typename Char = typename set::Char_t>
     using admitted_set_complement_t = admitted_sets_difference_t<
         set,
-        admitted_set_range_t<Char, 0, std::numeric_limits<Char>::max()>>;
+        admitted_set_range_t<Char,
+                             std::numeric_limits<Char>::min(),
+                             std::numeric_limits<Char>::max()>>;
 
     // Intersection of two sets
     template<typename set1,
-- 
2.43.0


From 3c9d42153ccc5a5d57f44439da60e9396227b5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 10/14] fix: hexadecimal and octal escapes denote the bytes
 they spell

The digits A to F gave wrong values, lower case ones were not recognized, :;<=>?@
and the octal digit 8 were accepted as digits, the last nibble of an odd sequence was
dropped, and the documented \oNNN form was not recognized.
---
 src/operators/hex.hpp   | 18 ++++++++++++------
 src/operators/octal.hpp | 30 ++++++++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/operators/hex.hpp b/src/operators/hex.hpp
index 94eeee2..c35fb64 100644
--- a/src/operators/hex.hpp
+++ b/src/operators/hex.hpp
@@ -8,7 +8,13 @@
 namespace e_regex
 {
     template<char C>
-    concept hex = C >= '0' && C <= 'F';
+    concept hex = (C >= '0' && C <= '9') || (C >= 'A' && C <= 'F')
+                  || (C >= 'a' && C <= 'f');
+
+    consteval auto hex_value(char digit) -> char
+    {
+        return digit <= '9' ? digit - '0' : (digit & 0xF) + 9;
+    }
 
     template<char... digits>
     struct hex_to_bin;
@@ -20,7 +26,7 @@ namespace e_regex
                           "Hex characters must be included between 0 and F");
 
             static constexpr char current
-                = ((first - '0') << 4) | (second - '0');
+                = (hex_value(first) << 4) | hex_value(second);
 
             using result
                 = merge_pack_strings_t<pack_string<current>,
@@ -34,10 +40,10 @@ namespace e_regex
                           "Hex characters must be included between 0 and F");
 
             static constexpr char current
-                = ((first - '0') << (4)) | (second - '0');
-            static constexpr char current_second = (third - '0') << 4;
+                = (hex_value(first) << (4)) | hex_value(second);
+            static constexpr char current_second = hex_value(third) << 4;
 
-            using result = pack_string<current>;
+            using result = pack_string<current, current_second>;
     };
 
     template<char first>
@@ -46,7 +52,7 @@ namespace e_regex
             static_assert(hex<first>,
                           "Hex characters must be included between 0 and F");
 
-            static constexpr char current = first - '0';
+            static constexpr char current = hex_value(first);
 
             using result = pack_string<current>;
     };
diff --git a/src/operators/octal.hpp b/src/operators/octal.hpp
index 7cc26e0..bdd441b 100644
--- a/src/operators/octal.hpp
+++ b/src/operators/octal.hpp
@@ -7,7 +7,7 @@
 namespace e_regex
 {
     template<char C>
-    concept octal = C >= '0' && C <= '8';
+    concept octal = C >= '0' && C <= '7';
 
     template<char... digits>
     struct octal_to_bin;
@@ -16,7 +16,7 @@ namespace e_regex
     struct octal_to_bin<first, second, third, tail...>
     {
             static_assert(octal<first> && octal<second> && octal<third>,
-                          "Octal characters must be included between 0 and 8");
+                          "Octal characters must be included between 0 and 7");
 
             static constexpr char current = ((first - '0') << 6)
                                             | ((second - '0') << 3)
@@ -67,6 +67,32 @@ namespace e_regex
             using tree = add_child_t<last_node, new_node>;
     };
 
+    template<typename last_node,
+             char first_nibble,
+             char second_nibble,
+             char third_nibble,
+             typename... tail,
+             auto group_index>
+        requires octal<first_nibble> && octal<second_nibble>
+                 && octal<third_nibble>
+    struct tree_builder_helper<last_node,
+                               std::tuple<pack_string<'\\', 'o'>,
+                                          pack_string<first_nibble>,
+                                          pack_string<second_nibble>,
+                                          pack_string<third_nibble>,
+                                          tail...>,
+                               group_index>
+    {
+            using value =
+                typename octal_to_bin<first_nibble, second_nibble, third_nibble>::result;
+
+            using new_node = typename tree_builder_helper<
+                nodes::simple<terminals::exact_matcher<value>>,
+                std::tuple<tail...>,
+                group_index>::tree;
+            using tree = add_child_t<last_node, new_node>;
+    };
+
     template<typename last_node, typename... tail, auto group_index>
     struct tree_builder_helper<
         last_node,
-- 
2.43.0


From 20cbceb82bdbda76f423897ddc87e32465e23160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 11/14] fix: a token or separator is accepted only where the
 input has got to

Only the first branch of a definition was anchored, so another one was found further
on and the text before it was silently skipped.
---
 src/tokenization/iterator.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index fb16900..2d785c0 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -98,11 +98,23 @@ namespace e_regex::tokenization
             token_t               last_match;
             bool                  valid = true;
 
+            // A match is usable only at the beginning of current, ^
+            // binds only to the first branch of the regex and matches
+            // the beginning of a line too
+            [[nodiscard]] constexpr auto match_beginning(auto regex) const
+                -> std::string_view
+            {
+                const auto view = regex(current).to_view();
+
+                return view.data() == current.begin() ? view
+                                                      : std::string_view {};
+            }
+
             [[nodiscard]] constexpr auto match_separator() -> bool
             {
                 auto matches = std::apply(
                     [this](auto... regex) {
-                        return std::array {regex(current).to_view()...};
+                        return std::array {match_beginning(regex)...};
                     },
                     data::separators);
 
@@ -129,7 +141,7 @@ namespace e_regex::tokenization
                 auto matches = std::apply(
                     [this](auto... token) {
                         return std::array {token_t {
-                            .value = token.matcher(current).to_view(),
+                            .value = match_beginning(token.matcher),
                             .type  = token.type}...};
                     },
                     data::tokens);
-- 
2.43.0


From 3413f63026dc819200ce21e9ca6531b3fc2335b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 12/14] fix: the inspected expression describes the matcher it
 was taken from

Branches and sequences were not grouped when something followed or quantified them,
operator characters were not escaped, sets were written as branches inside [^ ], and
a minimum of 0 was written as nothing.
---
 src/nodes/basic.hpp                     |   7 +-
 src/nodes/get_expression.hpp            | 116 +++++++++++++++++++++++-
 src/nodes/greedy.hpp                    |   2 +-
 src/nodes/lazy.hpp                      |   2 +-
 src/nodes/negated.hpp                   |  27 +++++-
 src/nodes/possessive.hpp                |   2 +-
 src/nodes/repeated.hpp                  |   2 +-
 src/terminals/common.hpp                |   8 +-
 src/terminals/exact_matcher.hpp         |  22 ++++-
 src/terminals/range.hpp                 |   3 +
 src/utilities/number_to_pack_string.hpp |   4 +-
 11 files changed, 181 insertions(+), 14 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 83d559b..9f11946 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -33,12 +33,12 @@ namespace e_regex::nodes
             static constexpr auto expression = []() {
                 if constexpr (sizeof...(children) <= 1)
                 {
-                    return matcher::expression
+                    return get_matcher_expression<matcher, children...>()
                            + get_children_expression<children...>();
                 }
                 else
                 {
-                    return matcher::expression + "(?:"
+                    return get_matcher_expression<matcher, children...>() + "(?:"
                            + get_children_expression<children...>()
                            + ')';
                 }
@@ -120,8 +120,7 @@ namespace e_regex::nodes
     template<typename child>
     struct simple<void, child> : public base<void, child>
     {
-            static constexpr auto expression
-                = get_children_expression<child>();
+            static constexpr auto expression = child::expression;
 
             using admission_set =
                 typename extract_admission_set<child>::type;
diff --git a/src/nodes/get_expression.hpp b/src/nodes/get_expression.hpp
index aa4e3b9..d7607db 100644
--- a/src/nodes/get_expression.hpp
+++ b/src/nodes/get_expression.hpp
@@ -1,12 +1,126 @@
 #ifndef E_REGEX_NODES_GET_EXPRESSION_HPP_
 #define E_REGEX_NODES_GET_EXPRESSION_HPP_
 
+#include <string_view>
 #include <tuple>
 
 #include "utilities/pack_string.hpp"
 
 namespace e_regex::nodes
 {
+    // Length of the element (character, escape, brackets or group) that
+    // begins the given expression
+    constexpr auto element_size(std::string_view expression) -> std::size_t
+    {
+        unsigned depth = 0;
+
+        for (std::size_t i = 0; i < expression.size(); ++i)
+        {
+            const auto c = expression[i];
+
+            if (c == '\\')
+            {
+                ++i;
+            }
+            else if (c == '[')
+            {
+                for (++i; expression[i] != ']'; ++i)
+                {
+                    i += expression[i] == '\\' ? 1 : 0;
+                }
+            }
+            else if (c == '(')
+            {
+                ++depth;
+            }
+            else if (c == ')')
+            {
+                --depth;
+            }
+
+            if (depth == 0)
+            {
+                return i + 1;
+            }
+        }
+
+        return expression.size();
+    }
+
+    // An expression with branches
+    constexpr auto is_branched(std::string_view expression) -> bool
+    {
+        while (!expression.empty() && expression.front() != '|')
+        {
+            expression.remove_prefix(element_size(expression));
+        }
+
+        return !expression.empty();
+    }
+
+    constexpr auto ends_with_anchor(std::string_view expression) -> bool
+    {
+        while (expression.size() > 1)
+        {
+            expression.remove_prefix(element_size(expression));
+        }
+
+        return expression == "$";
+    }
+
+    // An expression that is a single element, so that it can be quantified
+    constexpr auto is_element(std::string_view expression) -> bool
+    {
+        return !expression.empty() && expression != "^" && expression != "$"
+               && element_size(expression) == expression.size();
+    }
+
+    // Expression of a quantified matcher
+    template<typename matcher>
+    constexpr __attribute__((always_inline)) auto get_element_expression()
+    {
+        if constexpr (is_element(matcher::expression.to_view()))
+        {
+            return matcher::expression;
+        }
+        else
+        {
+            return "(?:" + matcher::expression + ')';
+        }
+    }
+
+    // Expression of a matcher that children follow
+    template<typename matcher, typename... children>
+    constexpr __attribute__((always_inline)) auto get_matcher_expression()
+    {
+        constexpr auto expression = matcher::expression.to_view();
+
+        if constexpr (sizeof...(children) > 0
+                      && (is_branched(expression) || ends_with_anchor(expression)))
+        {
+            return "(?:" + matcher::expression + ')';
+        }
+        else
+        {
+            return matcher::expression;
+        }
+    }
+
+    template<typename child>
+    constexpr __attribute__((always_inline)) auto get_child_expression()
+    {
+        constexpr auto expression = child::expression.to_view();
+
+        if constexpr (is_branched(expression) || expression.starts_with('^'))
+        {
+            return "(?:" + child::expression + ')';
+        }
+        else
+        {
+            return child::expression;
+        }
+    }
+
     template<typename... children>
     constexpr __attribute__((always_inline)) auto get_children_expression()
     {
@@ -16,7 +130,7 @@ namespace e_regex::nodes
         }
         else if constexpr (sizeof...(children) == 1)
         {
-            return std::tuple_element_t<0, std::tuple<children...>>::expression;
+            return (get_child_expression<children>(), ...);
         }
         else
         {
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index a22b029..0d84e9b 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -87,7 +87,7 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_element_expression<matcher>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index cf3f1e5..6da4e8f 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -74,7 +74,7 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_element_expression<matcher>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index abff25e..402dc98 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -9,11 +9,36 @@
 
 namespace e_regex::nodes
 {
+    // Content of square brackets
+    template<typename terminal>
+    struct set_expression
+    {
+            static constexpr auto value = terminal::expression;
+    };
+
+    template<typename terminal>
+        requires requires { terminal::set_expression; }
+    struct set_expression<terminal>
+    {
+            static constexpr auto value = terminal::set_expression;
+    };
+
+    template<typename terminal>
+    struct set_expression<simple<terminal>> : public set_expression<terminal>
+    {};
+
+    template<typename... terminals>
+    struct set_expression<simple<void, terminals...>>
+    {
+            static constexpr auto value
+                = (... + set_expression<terminals>::value);
+    };
+
     template<typename matcher>
     struct negated_node : public base<matcher>
     {
             static constexpr auto expression
-                = "[^" + matcher::expression + "]";
+                = "[^" + set_expression<matcher>::value + "]";
 
             using admission_set = admitted_set_complement_t<
                 typename extract_admission_set<matcher>::type>;
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index f72dfe4..efa730a 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -73,7 +73,7 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_element_expression<matcher>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 880d8e0..b0747ba 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -28,7 +28,7 @@ namespace e_regex::nodes
             };
 
             static constexpr auto expression = []() {
-                auto self = matcher::expression + '{'
+                auto self = get_element_expression<matcher>() + '{'
                             + number_to_pack_string_t<repetitions>::string
                             + '}';
 
diff --git a/src/terminals/common.hpp b/src/terminals/common.hpp
index bb2d457..f3bad0f 100644
--- a/src/terminals/common.hpp
+++ b/src/terminals/common.hpp
@@ -41,8 +41,12 @@ namespace e_regex::terminals
         : public terminal_common<negated_terminal<terminal, admission_set>,
                                  admitted_set_complement_t<admission_set>>
     {
-            static constexpr auto expression
-                = "[^" + terminal::expression + "]";
+            // \d becomes \D
+            static constexpr auto expression = []() {
+                auto result = terminal::expression;
+                result.data[1] += 'A' - 'a';
+                return result;
+            }();
 
             template<typename... injected_children>
             using optimize = negated_terminal;
diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index e030391..95f07bf 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -7,6 +7,23 @@
 
 namespace e_regex::terminals
 {
+    // The given character, escaped if it would be an operator
+    template<char identifier, bool in_set = false>
+    constexpr auto escape()
+    {
+        constexpr std::string_view operators {"\\()[]{}*+?|.^$"};
+
+        if constexpr (operators.find(identifier) != std::string_view::npos
+                      || (in_set && identifier == '-'))
+        {
+            return static_string {'\\'} + static_string {identifier};
+        }
+        else
+        {
+            return static_string {identifier};
+        }
+    }
+
     template<typename identifier>
     struct exact_matcher;
 
@@ -17,7 +34,10 @@ namespace e_regex::terminals
               admitted_set<char, identifier>>
     {
             static constexpr auto expression
-                = pack_string<identifier, identifiers...>::string;
+                = (escape<identifier>() + ... + escape<identifiers>());
+
+            static constexpr auto set_expression
+                = escape<identifier, true>();
 
             static constexpr auto meta
                 = e_regex::meta<admitted_set<char, identifier>> {
diff --git a/src/terminals/range.hpp b/src/terminals/range.hpp
index 4314cde..355a65d 100644
--- a/src/terminals/range.hpp
+++ b/src/terminals/range.hpp
@@ -18,6 +18,9 @@ namespace e_regex::terminals
             static constexpr auto expression
                 = pack_string<'[', start, '-', end, ']'>::string;
 
+            static constexpr auto set_expression
+                = pack_string<start, '-', end>::string;
+
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match_(auto& result) -> auto&
diff --git a/src/utilities/number_to_pack_string.hpp b/src/utilities/number_to_pack_string.hpp
index 4c964b6..31784dd 100644
--- a/src/utilities/number_to_pack_string.hpp
+++ b/src/utilities/number_to_pack_string.hpp
@@ -20,7 +20,9 @@ namespace e_regex
         requires(!nonzero(number))
     struct number_to_pack_string<number, pack_string<current...>>
     {
-            using type = pack_string<current...>;
+            using type = std::conditional_t<sizeof...(current) == 0,
+                                            pack_string<'0'>,
+                                            pack_string<current...>>;
     };
 
     template<auto number, char... current>
-- 
2.43.0


From 74fe07756c35c7dd120f877f0d5b03c46afbf934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 13/14] fix: an attempt saves only what it can change

Undoing a choice copied the whole result at every step.
---
 src/match_result.hpp     | 16 ++++++++--------
 src/nodes/common.hpp     | 38 ++++++++++++++++++++++++++++++++++----
 src/nodes/greedy.hpp     | 20 ++++++++++----------
 src/nodes/lazy.hpp       |  8 ++++----
 src/nodes/possessive.hpp |  8 ++++----
 5 files changed, 60 insertions(+), 30 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 212e05a..f77fb6a 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -224,19 +224,19 @@ namespace e_regex
              *
              * @return false if there is none
              */
-            constexpr auto search() noexcept -> bool
+            constexpr __attribute__((always_inline)) auto search() noexcept
+                -> bool
             {
                 for (auto start = data.actual_iterator_start;; ++start)
                 {
-                    data.match_groups          = {};
-                    data.actual_iterator_start = start;
-                    data.actual_iterator_end   = start;
-                    data.accepted              = true;
+                    match_result_data<groups_, Char_Type> attempt {
+                        .query                 = data.query,
+                        .actual_iterator_start = start,
+                        .actual_iterator_end   = start};
 
-                    matcher::match(data);
-
-                    if (data.accepted)
+                    if (matcher::match(attempt))
                     {
+                        data = attempt;
                         return true;
                     }
 
diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 0eee1a1..ef887c8 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -83,6 +83,36 @@ namespace e_regex::nodes
                   std::tuple<others...>>
     {};
 
+    // What a failed attempt of a node may have to give back: groups are
+    // copied only if the node has any
+    template<typename node>
+    constexpr __attribute__((always_inline)) auto save(const auto& match_result)
+    {
+        if constexpr (group_getter<node>::value == 0)
+        {
+            return match_result.actual_iterator_end;
+        }
+        else
+        {
+            return match_result;
+        }
+    }
+
+    template<typename node>
+    constexpr __attribute__((always_inline)) void restore(auto& match_result,
+                                                          const auto& saved)
+    {
+        if constexpr (group_getter<node>::value == 0)
+        {
+            match_result.actual_iterator_end = saved;
+            match_result.accepted            = true;
+        }
+        else
+        {
+            match_result = saved;
+        }
+    }
+
     // Match nodes one after the other
     template<typename nodes>
     struct sequence;
@@ -153,17 +183,17 @@ namespace e_regex::nodes
             }
             else
             {
-                const auto backup = match_result;
+                using branch      = typename _children::type;
+                const auto backup = save<branch>(match_result);
 
-                if (invoker::template match<typename _children::type>(
-                        match_result)
+                if (invoker::template match<branch>(match_result)
                     && (same_size<children>::value
                         || can_follow<injected_children>(match_result)))
                 {
                     return match_result;
                 }
 
-                match_result = backup;
+                restore<branch>(match_result, backup);
                 return dfs<typename _children::remaining, injected_children>(
                     match_result);
             }
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 0d84e9b..df7fefd 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -140,7 +140,7 @@ namespace e_regex::nodes
                 else if constexpr (repetitions_min == 0 && repetitions_max == 1)
                 {
                     // Optional node
-                    const auto start = result;
+                    const auto start = save<greedy>(result);
 
                     if (matcher::template match<children..., injected_children...>(
                             result)
@@ -149,7 +149,7 @@ namespace e_regex::nodes
                         return result;
                     }
 
-                    result = start;
+                    restore<greedy>(result, start);
                     return dfs<next, injected>(result);
                 }
                 else
@@ -167,19 +167,19 @@ namespace e_regex::nodes
 
                     // Iterate while this matcher accepts
                     auto       repetitions = repetitions_min;
-                    const auto start       = result;
+                    const auto start       = save<greedy>(result);
 
                     while (repetitions < repetitions_max)
                     {
-                        const auto last = result;
+                        const auto last     = save<matcher>(result);
+                        const auto last_end = result.actual_iterator_end;
 
                         if (!matcher::match(result)
-                            || result.actual_iterator_end
-                                   == last.actual_iterator_end)
+                            || result.actual_iterator_end == last_end)
                         {
                             // Restore last good match, an empty one
                             // would be repeated forever
-                            result = last;
+                            restore<matcher>(result, last);
                             break;
                         }
 
@@ -189,7 +189,7 @@ namespace e_regex::nodes
                     // Now backtrack
                     while (repetitions > repetitions_min)
                     {
-                        const auto last = result;
+                        const auto last = save<greedy>(result);
 
                         if (dfs_choice<next, injected>(result))
                         {
@@ -203,13 +203,13 @@ namespace e_regex::nodes
                                       && matcher::meta.minimum_match_size
                                              == matcher::meta.maximum_match_size)
                         {
-                            result = last;
+                            restore<greedy>(result, last);
                             result.actual_iterator_end
                                 -= matcher::meta.minimum_match_size;
                         }
                         else
                         {
-                            result = start;
+                            restore<greedy>(result, start);
 
                             for (auto i = repetitions_min; i < repetitions; ++i)
                             {
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 6da4e8f..0ab41e4 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -144,14 +144,15 @@ namespace e_regex::nodes
 
                     while (matches < repetitions_max)
                     {
-                        const auto last = result;
+                        const auto last     = save<lazy>(result);
+                        const auto last_end = result.actual_iterator_end;
 
                         if (dfs_choice<next, injected>(result))
                         {
                             return result;
                         }
 
-                        result = last;
+                        restore<lazy>(result, last);
 
                         if constexpr (repetitions_max == 1)
                         {
@@ -171,8 +172,7 @@ namespace e_regex::nodes
 
                         matches++;
 
-                        if (result.actual_iterator_end
-                            == last.actual_iterator_end)
+                        if (result.actual_iterator_end == last_end)
                         {
                             // An empty match would be repeated forever
                             break;
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index efa730a..30be23e 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -101,7 +101,8 @@ namespace e_regex::nodes
             {
                 for (unsigned i = 0; i < repetitions_max; ++i)
                 {
-                    const auto last = result;
+                    const auto last     = save<matcher>(result);
+                    const auto last_end = result.actual_iterator_end;
 
                     matcher::match(result);
 
@@ -114,13 +115,12 @@ namespace e_regex::nodes
                         }
                     }
                     else if (!result
-                             || result.actual_iterator_end
-                                    == last.actual_iterator_end)
+                             || result.actual_iterator_end == last_end)
                     {
                         // Failed (or empty, so it would be repeated
                         // forever) but repetitions_min was
                         // satisfied, run dfs from the last iteration
-                        result = last;
+                        restore<matcher>(result, last);
                         break;
                     }
                 }
-- 
2.43.0


From 7ecd63f4b1fa7050d1d73d6c4adb1990629c3933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 14/14] fix: brackets inside square brackets stand for
 themselves

---
 src/operators/square_brackets.hpp |  7 +--
 src/tokenizer.hpp                 | 75 +++++++++++++++++++++++++++++++
 2 files changed, 79 insertions(+), 3 deletions(-)

diff --git a/src/operators/square_brackets.hpp b/src/operators/square_brackets.hpp
index 85977a2..3b2d8a0 100644
--- a/src/operators/square_brackets.hpp
+++ b/src/operators/square_brackets.hpp
@@ -74,17 +74,18 @@ namespace e_regex
                                                             group_index>::tree;
     };
 
-    template<typename last_node, typename start, typename end, typename... tail, auto group_index>
+    template<typename last_node, char start, char end, typename... tail, auto group_index>
     struct square_bracker_tree_builder_helper<
         last_node,
-        std::tuple<start, pack_string<'-'>, end, tail...>,
+        std::tuple<pack_string<start, '-', end>, tail...>,
         group_index>
     {
             // Range found
 
             using new_node = __private::add_branch_t<
                 last_node,
-                nodes::simple<terminals::range_terminal<start, end>>>;
+                nodes::simple<
+                    terminals::range_terminal<pack_string<start>, pack_string<end>>>>;
             using tree =
                 typename square_bracker_tree_builder_helper<new_node,
                                                             std::tuple<tail...>,
diff --git a/src/tokenizer.hpp b/src/tokenizer.hpp
index ee1b819..64c62c5 100644
--- a/src/tokenizer.hpp
+++ b/src/tokenizer.hpp
@@ -127,6 +127,81 @@ namespace e_regex
             using tokens = current;
     };
 
+    // Tokens of the content of square brackets: nothing is an operator there
+    template<typename current, typename string>
+    struct set_tokenizer;
+
+    template<typename current, char... tail>
+    struct tokenizer<current, pack_string<'[', tail...>>
+        : public set_tokenizer<tuple_cat_t<current, std::tuple<pack_string<'['>>>,
+                               pack_string<tail...>>
+    {
+            // Square brackets opened
+    };
+
+    template<typename current, char... tail>
+    struct tokenizer<current, pack_string<'[', '^', tail...>>
+        : public set_tokenizer<
+              tuple_cat_t<current, std::tuple<pack_string<'['>, pack_string<'^'>>>,
+              pack_string<tail...>>
+    {
+            // Negated square brackets opened
+    };
+
+    constexpr auto is_bracket(char c) -> bool
+    {
+        return c == '(' || c == ')' || c == '[' || c == '{' || c == '}';
+    }
+
+    template<typename current, char head, char... tail>
+    struct set_tokenizer<current, pack_string<head, tail...>>
+        : public set_tokenizer<tuple_cat_t<current, std::tuple<pack_string<head>>>,
+                               pack_string<tail...>>
+    {
+            // Simple iteration
+    };
+
+    template<typename current, char head, char... tail>
+        requires(is_bracket(head))
+    struct set_tokenizer<current, pack_string<head, tail...>>
+        : public set_tokenizer<tuple_cat_t<current, std::tuple<pack_string<'\\', head>>>,
+                               pack_string<tail...>>
+    {
+            // A bracket stands for itself, as if it was escaped
+    };
+
+    template<typename current, char head, char... tail>
+    struct set_tokenizer<current, pack_string<'\\', head, tail...>>
+        : public set_tokenizer<tuple_cat_t<current, std::tuple<pack_string<'\\', head>>>,
+                               pack_string<tail...>>
+    {
+            // Escaped character
+    };
+
+    template<typename current, char start, char end, char... tail>
+        requires(start != '\\' && start != ']' && end != '\\' && end != ']')
+    struct set_tokenizer<current, pack_string<start, '-', end, tail...>>
+        : public set_tokenizer<tuple_cat_t<current, std::tuple<pack_string<start, '-', end>>>,
+                               pack_string<tail...>>
+    {
+            // Range
+    };
+
+    template<typename current, char... tail>
+    struct set_tokenizer<current, pack_string<']', tail...>>
+        : public tokenizer<tuple_cat_t<current, std::tuple<pack_string<']'>>>,
+                           pack_string<tail...>>
+    {
+            // Square brackets closed
+    };
+
+    template<typename current>
+    struct set_tokenizer<current, pack_string<>>
+    {
+            // Malformed, square brackets not closed
+            using tokens = current;
+    };
+
     template<typename string>
     using tokenizer_t =
         typename tokenizer<std::tuple<>, string>::tokens;
-- 
2.43.0

