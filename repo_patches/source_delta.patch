From 102d783fb54b11a37b1d83ec66f2e094c6df52f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 01/55] fix: to_nd inverts to_1d for 3D and 4D shapes whose
 sides differ

---
 include/utils/utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 55350c9..cab6c37 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -216,19 +216,19 @@ namespace chdr {
                 const auto w2 = _index % w1;
 
                 result = {
-                    w2 % _sizes[1U],
-                    w2 / _sizes[1U],
+                    w2 % _sizes[0U],
+                    w2 / _sizes[0U],
                     _index / w1
                 };
             }
             else if constexpr (Kd == 4U) {
-                const auto w1 = _sizes[2U] * _sizes[1U];
-                const auto w2 = w1 * _sizes[0U];
+                const auto w1 = _sizes[0U] * _sizes[1U];
+                const auto w2 = w1 * _sizes[2U];
                 const auto w3 = _index % w2;
 
                 result = {
-                    (w3 % w1) % _sizes[2U],
-                    (w3 % w1) / _sizes[2U],
+                    (w3 % w1) % _sizes[0U],
+                    (w3 % w1) / _sizes[0U],
                      w3 / w1,
                     _index / w2,
                 };
-- 
2.43.0


From 62eee3e75751b6b9a44757727c2b06dff9c888fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 02/55] fix: rbacktrack_noreverse no longer prepends default
 coordinates to the path

---
 include/solvers/base/solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 0218432..49a04f9 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -647,7 +647,8 @@ namespace chdr::solvers {
             template<typename node_t, typename coord_t>
             static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, size_t _depth) {
 
-                std::vector<coord_t> result(_depth);
+                std::vector<coord_t> result{};
+                result.reserve(_depth);
 
                 for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
                     result.emplace_back(utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size));
-- 
2.43.0


From 98abb0d4d81811602cc8c5b7d5fad209cd7f2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 03/55] fix: size backtracked paths by their node count, not by
 their cost

---
 include/solvers/base/solver.hpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 49a04f9..e8bd625 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -602,13 +602,13 @@ namespace chdr::solvers {
              *          through its parent pointers, converting each node's index into a coordinate
              *          using the dimensions provided in `_size`. The resulting path is stored in reverse order,
              *          where the first element corresponds to the root node and the last element corresponds
-             *          to the provided `_node`. The depth of the path is static, provided using the `_depth` parameter.
+             *          to the provided `_node`. The depth of the path is measured during the traversal.
              *
              * @param [in] _node The node to begin backtracking from. This is assumed to be part of a structure
              *                   where nodes possess a parent pointer (`m_parent`) for traversal.
              * @param [in] _size The coordinate dimensions, used to convert an index to n-dimensional coordinates.
              *
-             * @param _depth The depth of the hierarchy, which determines the length of the resulting vector.
+             * @param _depth The cost of the path, as known to the caller. It does not determine the length of the resulting vector.
              *
              * @return A vector of n-dimensional coordinates representing the path from the root node
              *         to the provided `_node`.
@@ -616,15 +616,10 @@ namespace chdr::solvers {
             template<typename node_t, typename coord_t>
             static constexpr auto rbacktrack(const node_t& _node, const coord_t& _size, size_t _depth) {
 
-                std::vector<coord_t> result(_depth);
+                // Callers only know the cost of the path, which is not its node count unless every step costs one.
+                (void)_depth;
 
-                size_t i = 0U;
-                for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
-                    result[(result.size() - 1U) - i] = utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size);
-                    ++i;
-                }
-
-                return result;
+                return rbacktrack(_node, _size);
             }
 
             /**
@@ -633,13 +628,13 @@ namespace chdr::solvers {
              * @details This function iteratively backtracks from the specified node `_node` to its root
              *          through its parent pointers, converting each node's index into a coordinate
              *          using the dimensions provided in `_size`.
-             *          The depth of the path is static, provided using the `_depth` parameter.
+             *          The depth of the path is measured during the traversal.
              *
              * @param [in] _node The node to begin backtracking from. This is assumed to be part of a structure
              *                   where nodes possess a parent pointer (`m_parent`) for traversal.
              * @param [in] _size The coordinate dimensions, used to convert an index to n-dimensional coordinates.
             *
-             * @param _depth The depth of the hierarchy, which determines the length of the resulting vector.
+             * @param _depth The cost of the path, as known to the caller. It does not determine the length of the resulting vector.
              *
              * @return A vector of n-dimensional coordinates representing the path from the root node
              *         to the provided `_node`.
@@ -647,14 +642,9 @@ namespace chdr::solvers {
             template<typename node_t, typename coord_t>
             static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, size_t _depth) {
 
-                std::vector<coord_t> result{};
-                result.reserve(_depth);
-
-                for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
-                    result.emplace_back(utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size));
-                }
+                (void)_depth;
 
-                return result;
+                return rbacktrack_noreverse(_node, _size);
             }
 
             /**
-- 
2.43.0


From 7aea15a5097d166f98a2503c2d8b5e075152f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 04/55] fix: idbest_first keeps its root node when an iteration
 ends

---
 include/solvers/idbest_first.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/solvers/idbest_first.hpp b/include/solvers/idbest_first.hpp
index eb853d3..29850e1 100644
--- a/include/solvers/idbest_first.hpp
+++ b/include/solvers/idbest_first.hpp
@@ -172,13 +172,17 @@ namespace chdr::solvers {
                             }
                         }
                         else {
-                            _open.pop_back();
+                            if (_open.size() > 1U) {
+                                _open.pop_back();
+                            }
                             stack.pop();
                         }
                     }
                     else {
                         min = utils::min(min, curr.m_hScore);
-                        _open.pop_back();
+                        if (_open.size() > 1U) {
+                            _open.pop_back();
+                        }
                         stack.pop();
                     }
                 }
-- 
2.43.0


From 75918887b8393f2e77b5eb5acfa7ff66bb7e04a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 05/55] fix: iddfs and eiddfs no longer reset the pool their
 stack lives in between bounds

---
 include/solvers/eiddfs.hpp | 4 ----
 include/solvers/iddfs.hpp  | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 831296d..baba8a0 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -168,10 +168,6 @@ namespace chdr::solvers {
                         _closed.erase(curr.m_index);
                     }
                 }
-
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
-                    _params.monotonic_pmr->reset();
-                }
             }
 
             return std::vector<coord_t>{};
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index bbde518..9361619 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -164,10 +164,6 @@ namespace chdr::solvers {
                         stack.pop();
                     }
                 }
-
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
-                    _params.monotonic_pmr->reset();
-                }
             }
 
             return std::vector<coord_t>{};
-- 
2.43.0


From dfcb819392d8a99c81a9412f248661d5e31d8730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 06/55] fix: iddfs and eiddfs terminate when the search space
 is exhausted

---
 include/solvers/eiddfs.hpp | 9 ++++++++-
 include/solvers/iddfs.hpp  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index baba8a0..dd89fd5 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -129,7 +129,12 @@ namespace chdr::solvers {
 
             stack<state<neighbours_t>> stack(_params.monotonic_pmr);
 
-            for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
+            auto exhausted = false;
+
+            for (size_t bound = 0U; !exhausted && bound < std::numeric_limits<size_t>::max(); ++bound) {
+
+                // The search space is exhausted if no node lies beyond the current bound.
+                exhausted = true;
 
                 stack.emplace(_open.back(), _params);
 
@@ -161,6 +166,8 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        exhausted &= curr.m_depth <= bound;
+
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index 9361619..44e4c89 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -130,7 +130,12 @@ namespace chdr::solvers {
 
             stack<state<neighbours_t>> stack(_params.monotonic_pmr);
 
-            for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
+            auto exhausted = false;
+
+            for (size_t bound = 0U; !exhausted && bound < std::numeric_limits<size_t>::max(); ++bound) {
+
+                // The search space is exhausted if no node lies beyond the current bound.
+                exhausted = true;
 
                 stack.emplace(_open.back(), _params);
 
@@ -158,6 +163,8 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        exhausted &= curr.m_depth <= bound;
+
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
-- 
2.43.0


From 32f597f3d2b1bd9b80b926123b77374cdd1bad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 07/55] fix: eidbest_first no longer revisits its start node

---
 include/solvers/eidbest_first.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/eidbest_first.hpp b/include/solvers/eidbest_first.hpp
index 9a40b7f..e524f83 100644
--- a/include/solvers/eidbest_first.hpp
+++ b/include/solvers/eidbest_first.hpp
@@ -141,7 +141,7 @@ namespace chdr::solvers {
             do {
 
                 stack.emplace(_open.back(), _params);
-                transposition_table[_open.back().m_index] = bound;
+                transposition_table[_open.back().m_index] = _open.back().m_hScore;
 
                 auto min = std::numeric_limits<scalar_t>::max();
 
-- 
2.43.0


From d16173c02b6176dadacd0919c29c4e7fecfa0e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 08/55] fix: fringe keeps nodes on the fringe until all of
 their neighbours are visited

---
 include/solvers/fringe.hpp | 84 ++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 35 deletions(-)

diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index ee0cb5c..03107c8 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -116,6 +116,30 @@ namespace chdr::solvers {
             }
         };
 
+        template <typename open_set_t>
+        HOT static void insert(open_set_t& _set, node&& _node) {
+
+            if constexpr (params_t::lazy_sorting::value) {
+                _set.emplace_back(std::move(_node));
+            }
+            else {
+
+                /* SORTED INSERTION */
+                _set.insert(
+                    std::partition_point(
+                        _set.begin(),
+                        _set.end(),
+                        [&_node](const node& _other) ALWAYS_INLINE {
+                            return _node.m_fScore == _other.m_fScore ?
+                                   _node.m_gScore >  _other.m_gScore :
+                                   _node.m_fScore >  _other.m_fScore;
+                        }
+                    ),
+                    std::move(_node)
+                );
+            }
+        }
+
         template <typename open_set_t, typename closed_set_t>
         [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, open_set_t& _next, closed_set_t& _closed, size_t _capacity, const params_t& _params) {
             constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
@@ -135,6 +159,7 @@ namespace chdr::solvers {
             while (LIKELY(!_open.empty())) {
 
                 auto next_threshold = std::numeric_limits<scalar_t>::max();
+                auto expanded = false;
 
                 for (auto& curr : _open) {
 
@@ -142,51 +167,39 @@ namespace chdr::solvers {
 
                         node* RESTRICT curr_ptr(nullptr);
 
+                        auto deferred = false;
+
                         for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
-                            if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
+                            // Check if node is not already visited:
+                            if (const auto& n = solver_t::get_data(n_data, _params); n.active && !_closed.contains(n.index)) {
 
                                 const auto g = curr.m_gScore + n.distance;
                                 const auto f = g + (_params.h(n.coord, end) * _params.weight);
 
                                 if (f <= max_threshold) {
 
-                                    // Check if node is not already visited:
-                                    if (!_closed.contains(n.index)) {
-
-                                        solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
-
-                                        if (curr_ptr == nullptr) {
-                                            curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-                                        }
-
-                                        if constexpr (params_t::lazy_sorting::value) {
-                                            _next.emplace_back(n.index, g, f, curr_ptr);
-                                        }
-                                        else {
-
-                                            /* SORTED INSERTION */
-                                            _next.insert(
-                                                std::partition_point(
-                                                    _next.begin(),
-                                                    _next.end(),
-                                                    [&f, &g](const node& _other) ALWAYS_INLINE {
-                                                        return f == _other.m_fScore ?
-                                                               g >  _other.m_gScore :
-                                                               f >  _other.m_fScore;
-                                                    }
-                                                ),
-                                                node (n.index, g, f, curr_ptr)
-                                            );
-                                        }
+                                    solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
+
+                                    if (curr_ptr == nullptr) {
+                                        curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(curr.m_index, curr.m_gScore, curr.m_fScore, curr.m_parent);
                                     }
+
+                                    insert(_next, node(n.index, g, f, curr_ptr));
+
+                                    expanded = true;
                                 }
                                 else {
                                     next_threshold = utils::min(next_threshold, f);
-                                    break;
+                                    deferred = true;
                                 }
                             }
                         }
+
+                        // Keep the node on the fringe until all of its neighbours have been visited:
+                        if (deferred) {
+                            insert(_next, node(curr.m_index, curr.m_gScore, curr.m_fScore, curr.m_parent));
+                        }
                     }
                     else { // SOLUTION REACHED...
 
@@ -202,12 +215,13 @@ namespace chdr::solvers {
                     }
                 }
 
-                if (!_next.empty()) {
-                    std::swap(_open, _next);
-                    _next.clear();
-                }
+                std::swap(_open, _next);
+                _next.clear();
 
-                max_threshold = next_threshold;
+                // Raise the threshold only once the search space below it is exhausted:
+                if (!expanded) {
+                    max_threshold = next_threshold;
+                }
             }
 
             return std::vector<coord_t>{};
-- 
2.43.0


From eeee6a301ccb29f61dffd9559c778f5000b8613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 09/55] fix: gjps allocates its nodes from the pool that it
 releases them to

---
 include/solvers/gjps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index c9cceee..387a529 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -342,7 +342,7 @@ namespace chdr::solvers {
                                     solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
 
                                     if (curr_ptr == nullptr) {
-                                        curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
+                                        curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
 
                                     if constexpr (params_t::lazy_sorting::value) {
-- 
2.43.0


From 460f38726a56e896890635ecbfe553694314783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 10/55] fix: smastar and osmastar no longer drop unrelated open
 nodes of equal cost

---
 include/solvers/osmastar.hpp | 14 +++++++++++++-
 include/solvers/smastar.hpp  | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/solvers/osmastar.hpp b/include/solvers/osmastar.hpp
index d61b899..cd58099 100644
--- a/include/solvers/osmastar.hpp
+++ b/include/solvers/osmastar.hpp
@@ -137,6 +137,18 @@ namespace chdr::solvers {
                  _open.erase(worst_node);
         }
 
+        template<typename open_set_t>
+        HOT static void remove_one(open_set_t& _open, const node& _node) noexcept {
+
+            // Other nodes may compare equivalent to the given node, so search for it by its index.
+            for (auto [it, last] = _open.equal_range(_node); it != last; ++it) {
+                if (it->m_index == _node.m_index) {
+                    _open.erase(it);
+                    break;
+                }
+            }
+        }
+
         template <typename all_nodes_t>
         HOT static void backup_f_values(const node& _removed_node, all_nodes_t& _all_nodes, const params_t& _params) noexcept {
 
@@ -271,7 +283,7 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
+                                            remove_one(_open, search->second);
                                             _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
                                             complete = false;
diff --git a/include/solvers/smastar.hpp b/include/solvers/smastar.hpp
index 8bffa96..80a0abf 100644
--- a/include/solvers/smastar.hpp
+++ b/include/solvers/smastar.hpp
@@ -140,6 +140,18 @@ namespace chdr::solvers {
                  _open.erase(worst_node);
         }
 
+        template<typename open_set_t>
+        HOT static void remove_one(open_set_t& _open, const node& _node) noexcept {
+
+            // Other nodes may compare equivalent to the given node, so search for it by its index.
+            for (auto [it, last] = _open.equal_range(_node); it != last; ++it) {
+                if (it->m_index == _node.m_index) {
+                    _open.erase(it);
+                    break;
+                }
+            }
+        }
+
         template <typename all_nodes_t>
         HOT static void backup_f_values(const node& _removed_node, all_nodes_t& _all_nodes, const params_t& _params) noexcept {
 
@@ -272,7 +284,7 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
+                                            remove_one(_open, search->second);
                                             _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
                                             complete = false;
-- 
2.43.0


From bf4d1786ec5473207369d70a0373cddf4478593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 11/55] fix: smastar, osmastar and mgstar size their paths by
 node count, not by cost

---
 include/solvers/mgstar.hpp   | 26 --------------------------
 include/solvers/osmastar.hpp | 23 +++++++----------------
 include/solvers/smastar.hpp  | 23 +++++++----------------
 3 files changed, 14 insertions(+), 58 deletions(-)

diff --git a/include/solvers/mgstar.hpp b/include/solvers/mgstar.hpp
index 8eb3964..72603e5 100644
--- a/include/solvers/mgstar.hpp
+++ b/include/solvers/mgstar.hpp
@@ -124,32 +124,6 @@ namespace chdr::solvers {
             }
         };
 
-        static constexpr auto rbacktrack(const node& _node, const coord_t& _size, size_t _depth) {
-
-            std::vector<coord_t> result(_depth);
-
-            const auto* RESTRICT t = &_node;
-            for (size_t i = 0U; i != _depth; ++i) {
-                result[(result.size() - 1U) - i] = utils::to_nd(t->m_index, _size);
-                t = static_cast<const node*>(t->m_parent);
-            }
-
-            return result;
-        }
-
-        static constexpr auto rbacktrack_noreverse(const node& _node, const coord_t& _size, size_t _depth) {
-
-            std::vector<coord_t> result(_depth);
-
-            const auto* RESTRICT t = &_node;
-            for (size_t i = 0U; i != _depth; ++i) {
-                result[i] = utils::to_nd(t->m_index, _size);
-                t = static_cast<const node*>(t->m_parent);
-            }
-
-            return result;
-        }
-
         template <typename closed_set_t>
         HOT static void bitwise_regression(const managed_node<index_t, node>* _parent, closed_set_t& _closed) {
 
diff --git a/include/solvers/osmastar.hpp b/include/solvers/osmastar.hpp
index cd58099..f0103cf 100644
--- a/include/solvers/osmastar.hpp
+++ b/include/solvers/osmastar.hpp
@@ -198,27 +198,18 @@ namespace chdr::solvers {
 
             /*
              * Determine the size of the final path prior to backtracking.
-             * If the maze is a graph, then the size must be determined through recursion.
+             * The cost of a path is not its node count unless every step costs one.
              */
 
-            if constexpr (solver_t::solver_utils::template is_graph_v<decltype(_params.maze)>) { // GRAPH...
+            size_t depth = 0U;
+            for (auto p = _curr.m_parent; p != null_v; ++depth) {
 
-                // Solution depth calculated using recursion...
-                size_t depth = 0U;
-                for (auto p = _curr.m_parent; p != null_v; ++depth) {
-
-                    auto p_itr = _all_nodes.find(p);
-                    assert(p_itr != _all_nodes.end() && "Out of bounds access during SMA* path reconstruction.");
-                    p = p_itr->second.m_parent;
-                }
-
-                result.resize(depth);
+                auto p_itr = _all_nodes.find(p);
+                assert(p_itr != _all_nodes.end() && "Out of bounds access during SMA* path reconstruction.");
+                p = p_itr->second.m_parent;
             }
-            else { // GRID...
 
-                // Uniform space; solution depth obtained from g-score.
-                result.resize(static_cast<size_t>(_curr.m_gScore));
-            }
+            result.resize(depth);
 
             size_t i = 0U;
             for (auto p = _curr.m_parent; p != null_v; ++i) {
diff --git a/include/solvers/smastar.hpp b/include/solvers/smastar.hpp
index 80a0abf..5ceff3e 100644
--- a/include/solvers/smastar.hpp
+++ b/include/solvers/smastar.hpp
@@ -201,27 +201,18 @@ namespace chdr::solvers {
 
             /*
              * Determine the size of the final path prior to backtracking.
-             * If the maze is a graph, then the size must be determined through recursion.
+             * The cost of a path is not its node count unless every step costs one.
              */
 
-            if constexpr (solver_t::solver_utils::template is_graph_v<decltype(_params.maze)>) { // GRAPH...
+            size_t depth = 0U;
+            for (auto p = _curr.m_parent; p != null_v; ++depth) {
 
-                // Solution depth calculated using recursion...
-                size_t depth = 0U;
-                for (auto p = _curr.m_parent; p != null_v; ++depth) {
-
-                    auto p_itr = _all_nodes.find(p);
-                    assert(p_itr != _all_nodes.end() && "Out of bounds access during SMA* path reconstruction.");
-                    p = p_itr->second.m_parent;
-                }
-
-                result.resize(depth);
+                auto p_itr = _all_nodes.find(p);
+                assert(p_itr != _all_nodes.end() && "Out of bounds access during SMA* path reconstruction.");
+                p = p_itr->second.m_parent;
             }
-            else { // GRID...
 
-                // Uniform space; solution depth obtained from g-score.
-                result.resize(static_cast<size_t>(_curr.m_gScore));
-            }
+            result.resize(depth);
 
             size_t i = 0U;
             for (auto p = _curr.m_parent; p != null_v; ++i) {
-- 
2.43.0


From c87d5ad418f3210cabba06f2c240d7d2b1cc67ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 12/55] fix: monotonic_pool reports exhausted memory as
 bad_alloc

---
 include/types/pmr/monotonic_pool.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 5bc8286..9dcc883 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -142,8 +142,6 @@ namespace chdr {
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
 
@@ -239,7 +237,9 @@ namespace chdr {
                     }
 
                     // Update write position.
-                    m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    if (LIKELY(aligned_ptr != nullptr)) {
+                        m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    }
                 }
 
                 // ReSharper disable once CppDFAConstantConditions
-- 
2.43.0


From f1b0957aa0c05a62ce9a1d14510f468bad4079f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 13/55] fix: pools no longer serve over-aligned requests from
 their stack block

---
 include/types/pmr/heterogeneous_pool.hpp | 2 +-
 include/types/pmr/homogeneous_pool.hpp   | 2 +-
 include/types/pmr/monotonic_pool.hpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 94b075b..1dcad6e 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -257,7 +257,7 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size) {
+                if (_alignment <= alignof(max_align_t) && aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size) {
 
                     aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
                     m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index bbe3c76..9f5a8d4 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -224,7 +224,7 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (m_stack_write < StackSize) {
+                if (m_stack_write < StackSize && _alignment <= alignof(max_align_t)) {
 
                     if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
                         aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 9dcc883..adcc044 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -203,7 +203,7 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (m_stack_write < StackSize) {
+                if (m_stack_write < StackSize && _alignment <= alignof(max_align_t)) {
 
                     if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
                         aligned_bytes < MaxStackAllocationSize &&
-- 
2.43.0


From def0dfdc5b71ec19def46708ad487049d1a70051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 14/55] fix: heterogeneous_pool keeps its free regions aligned
 and inside their blocks

---
 include/types/pmr/heterogeneous_pool.hpp | 71 +++++++++++-------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 1dcad6e..7c14ea4 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <limits>
 #include <map>
+#include <memory>
 #include <new>
 #include <utility>
 #include <vector>
@@ -104,7 +105,7 @@ namespace chdr {
         size_t m_block_width;         // Size of the current block.
 
         std::vector<block> m_blocks;
-        std::map<size_t, block> m_free;
+        std::multimap<size_t, block> m_free;
 
         HOT uint8_t* expand(size_t _bytes, size_t _alignment) noexcept {
 
@@ -129,23 +130,7 @@ namespace chdr {
                     remaining_size != 0U
                 ) {
 
-                    /*
-                     * Attempt to insert new block into free list.
-                     * Repeat with a smaller key upon collision.
-                     * If insertion is impossible, throw.
-                     */
-                    bool success = false;
-                    for (size_t i = 0U; i < remaining_size; ++i) {
-
-                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + utils::max(_bytes, _alignment)).second) {
-                            success = true;
-                            break;
-                        }
-                    }
-
-                    if (UNLIKELY(!success)) {
-                        throw std::bad_alloc();
-                    }
+                    m_free.emplace(remaining_size, block(remaining_size, _alignment, result + _bytes));
                 }
 
                 m_block_width = utils::min((m_block_width * 3U) / 2U, s_max_heap_block_size);
@@ -156,42 +141,51 @@ namespace chdr {
 
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
+
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
             return result;
         }
 
-        HOT uint8_t* allocate_from_free(size_t _bytes) {
+        HOT uint8_t* allocate_from_free(size_t _bytes, size_t _alignment) {
 
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
 
             uint8_t* result = nullptr;
 
             // Find the smallest free block that fits:
-            auto it = m_free.lower_bound(_bytes);
+            for (auto it = m_free.lower_bound(_bytes); it != m_free.end(); ++it) {
+
+                void* data = it->second.data;
+                auto space = it->second.size;
 
-            if (it != m_free.end() && it->second.size >= _bytes) {
+                if (std::align(_alignment, _bytes, data, space) != nullptr) {
 
-                // Extract the matching block without performing a full tree rebalance:
-                typename std::map<size_t, block>::node_type node = m_free.extract(it);
+                    // Extract the matching block without performing a full tree rebalance:
+                    auto node = m_free.extract(it);
 
-                result = node.mapped().data;
+                    result = static_cast<uint8_t*>(data);
 
-                // Consume block or adjust the remaining size:
-                size_t remaining_size = node.mapped().size - _bytes;
-                if (remaining_size != 0U) {
+                    // Consume block or adjust the remaining size:
+                    const size_t remaining_size = space - _bytes;
+                    if (remaining_size != 0U) {
 
-                    // Update with adjusted size:
-                    node.key() = remaining_size;
-                    node.mapped().size = remaining_size;
-                    node.mapped().data += utils::max(_bytes, node.mapped().alignment);
+                        // Update with adjusted size:
+                        node.key() = remaining_size;
+                        node.mapped().size = remaining_size;
+                        node.mapped().data = result + _bytes;
 
-                    m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
+                        m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
+                    }
+
+                    break;
                 }
             }
 
@@ -266,9 +260,9 @@ namespace chdr {
                 if (aligned_ptr == nullptr) {
 
                     // Attempt to find a free block, or create one otherwise:
-                    aligned_ptr = allocate_from_free(aligned_bytes);
+                    aligned_ptr = allocate_from_free(aligned_bytes, _alignment);
                     if (UNLIKELY(aligned_ptr == nullptr)) {
-                        aligned_ptr = expand(_bytes, _alignment);
+                        aligned_ptr = expand(aligned_bytes, _alignment);
                     }
                 }
 
@@ -351,7 +345,7 @@ namespace chdr {
                         }
                     }
 
-                    m_free.try_emplace(_bytes, _bytes, _alignment, static_cast<uint8_t*>(_p));
+                    m_free.emplace(_bytes, block(_bytes, _alignment, static_cast<uint8_t*>(_p)));
                 }
 
 #if CHDR_DIAGNOSTICS == 1
@@ -493,8 +487,7 @@ namespace chdr {
                 }
             }
             catch (...) {
-                  m_free.clear();
-                m_blocks.clear();
+                m_free.clear();
             }
 
 #if CHDR_DIAGNOSTICS == 1
-- 
2.43.0


From afe9b0f7b49c8b2d9301f18e7ab7207226583d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 15/55] fix: homogeneous_pool keeps its chunks aligned when it
 is reset

---
 include/types/pmr/homogeneous_pool.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 9f5a8d4..a884a91 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -447,24 +447,27 @@ namespace chdr {
             try {
                 m_free.clear();
 
+                // Chunks must be wide enough for any allocation, and maintain the alignment of their block.
+                const auto alignment   = utils::max(m_alignment, static_cast<size_t>(1U));
+                const auto chunk_width = (m_block_width + alignment - 1U) & ~(alignment - 1U);
+
                 // Reuse memory from existing blocks to repopulate `free`:
                 for (auto& [size, data] : m_blocks) {
 
                     // Divide the block into chunks; all chunks are guaranteed aligned.
-                    const auto chunk_size = size / m_block_width;
+                    const auto chunk_size = utils::max(size / chunk_width, static_cast<size_t>(1U));
 
                     const auto current_size = m_free.size();
                     m_free.resize(current_size + chunk_size);
 
                     IVDEP
                     for (size_t j = 0U; j < chunk_size; ++j) {
-                        m_free[j + current_size] = data + j * m_block_width;
+                        m_free[j + current_size] = data + j * chunk_width;
                     }
                 }
             }
             catch (...) {
-                m_blocks.clear();
-                  m_free.clear();
+                m_free.clear();
             }
 
 #if CHDR_DIAGNOSTICS == 1
-- 
2.43.0


From 1262eeeb7125d31bf6db3edb99d5d92dfcd21787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 16/55] fix: homogeneous_pool keeps its other blocks when an
 expansion fails

---
 include/types/pmr/homogeneous_pool.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index a884a91..1a7726f 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -147,11 +147,14 @@ namespace chdr {
 
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
+
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
 
-- 
2.43.0


From 067f7ca8374e050d6b78f08a34ca08d0206e1a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 17/55] fix: queue and stack can be pushed to

---
 include/types/containers/queue.hpp | 4 ++--
 include/types/containers/stack.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/queue.hpp b/include/types/containers/queue.hpp
index fbfac29..61ead62 100644
--- a/include/types/containers/queue.hpp
+++ b/include/types/containers/queue.hpp
@@ -203,13 +203,13 @@ namespace chdr {
          * @brief Adds an element to the queue.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the queue, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the queue.
diff --git a/include/types/containers/stack.hpp b/include/types/containers/stack.hpp
index 6db33cb..e4df76e 100644
--- a/include/types/containers/stack.hpp
+++ b/include/types/containers/stack.hpp
@@ -213,13 +213,13 @@ namespace chdr {
          * @brief Adds an element to the stack.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the stack, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the stack.
-- 
2.43.0


From 6b8fdc32bcfbb46510939ebb278538d7adc0fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 18/55] fix: heap keeps its order when an element is erased

---
 include/types/containers/heap.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index a715c37..0b18f08 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -429,9 +429,9 @@ namespace chdr {
 
             assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
 
-            if (i < size()) {
+            if (i <= size()) { // Offset for super element.
 
-                if (i == size() - 1U) {
+                if (i == size()) {
                     c.pop_back(); // If the item to remove is the last item, just remove it.
                 }
                 else {
@@ -441,7 +441,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i], c[i / Kd])) {
+                        if (i > 1U && comp(c[i / Kd], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -872,7 +872,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start], c[distance_from_start / Kd])) {
+                        if (distance_from_start > 1U && comp(c[distance_from_start / Kd], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
-- 
2.43.0


From 96047e32f041fe940577028fc1ff2f2416cf4767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 19/55] fix: heap::back refers to the last element, and dequeue
 handles the last one

---
 include/types/containers/heap.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 0b18f08..495ba3b 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -302,10 +302,10 @@ namespace chdr {
             assert(!empty() && "Heap is empty");
 
             if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
+                return reinterpret_cast<T&>(std::prev(end()).base());
             }
             else {
-                return *end();
+                return *std::prev(end());
             }
         }
 
@@ -319,10 +319,10 @@ namespace chdr {
             assert(!empty() && "Heap is empty");
 
             if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
+                return reinterpret_cast<T&>(std::prev(end()).base());
             }
             else {
-                return *end();
+                return *std::prev(end());
             }
         }
 
@@ -475,7 +475,9 @@ namespace chdr {
             }
             c.pop_back();
 
-            sort_down(c[1U]);
+            if (size() > 1U) {
+                sort_down(c[1U]);
+            }
 
             return result;
         }
-- 
2.43.0


From 5f922160d092e51148477d1baeba8ab9a2d434d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 20/55] fix: heap of arity other than two orders all of its
 elements

---
 include/types/containers/heap.hpp | 32 ++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 495ba3b..4a4de28 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -74,6 +74,20 @@ namespace chdr {
             return static_cast<size_t>(&(_item) - &(c[0U]));
         }
 
+        /**
+         * @brief Retrieves the (one-based) position of the parent of the element at the given position.
+         */
+        [[nodiscard]] HOT static constexpr size_t parent_of(size_t _i) noexcept {
+            return _i > 1U ? ((_i - 2U) / Kd) + 1U : 0U;
+        }
+
+        /**
+         * @brief Retrieves the (one-based) position of the first child of the element at the given position.
+         */
+        [[nodiscard]] HOT static constexpr size_t first_child_of(size_t _i) noexcept {
+            return ((_i - 1U) * Kd) + 2U;
+        }
+
     public:
 
         /**
@@ -191,7 +205,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = parent_of(size()); i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -216,7 +230,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = parent_of(size()); i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -441,7 +455,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i / Kd], c[i])) {
+                        if (i > 1U && comp(c[parent_of(i)], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -540,7 +554,7 @@ namespace chdr {
                 auto value_to_insert = std::move(c[i]);
 
                 while (i > 1U) {
-                    const auto p = i / Kd;
+                    const auto p = parent_of(i);
 
                     if (comp(c[p], value_to_insert)) {
                         c[i] = std::move(c[p]);
@@ -575,8 +589,8 @@ namespace chdr {
 
                 while (true) {
 
-                    const size_t c0 = i * Kd;         // First child index
-                    const size_t cn = c0 + (Kd - 1U); // Last child index in range
+                    const size_t c0 = first_child_of(i); // First child index
+                    const size_t cn = c0 + (Kd - 1U);    // Last child index in range
 
                     if (c0 < c.size()) {
 
@@ -759,7 +773,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = first_child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -804,7 +818,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = first_child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -874,7 +888,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start / Kd], c[distance_from_start])) {
+                        if (distance_from_start > 1U && comp(c[parent_of(distance_from_start)], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
-- 
2.43.0


From 67c95aa7bb461e58a36a483bb133cbb401b41da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 21/55] fix: graph::prune preserves the distances between the
 nodes it keeps

---
 include/mazes/graph.hpp | 82 ++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 43 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index a9f83a0..da3b0c8 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -361,71 +361,67 @@ namespace chdr::mazes {
 
             // TODO: Extend support for pruning directed graphs.
 
-            std::vector<index_t> nodesToRemove;
-
             bool dirty = false;
+            bool pruned;
 
             do {
-                nodesToRemove.clear();
-
-                for (const auto& entry : m_entries) {
+                pruned = false;
 
-                    if (m_entries.size() > 2U) {
+                for (auto it = m_entries.begin(); it != m_entries.end() && m_entries.size() > 2U;) {
 
-                        if (auto& [node, neighbours] = entry; neighbours.size() == 2U) {
+                    const auto node = it->first;
 
-                            dirty = ConsolidateAfterPrune;
+                    if (it->second.size() == 2U) {
 
-                            auto it = neighbours.begin();
+                        // Note: Copies, as the edges are modified and the node is removed below.
+                        const auto [n1_id, n1_cost] = it->second.front();
+                        const auto [n2_id, n2_cost] = it->second.back();
 
-                            auto& [n1_id, n1_cost] = *it;
-                            auto& [n2_id, n2_cost] = *(++it);
+                        const auto s1 = m_entries.find(n1_id);
+                        const auto s2 = m_entries.find(n2_id);
 
-                            auto s1 = m_entries.find(n1_id);
-                            auto s2 = m_entries.find(n2_id);
+                        if (s1 != it && s2 != it && s1 != m_entries.end() && s2 != m_entries.end()) {
 
-                            // Merge the connections from the current node with its neighbours:
+                            auto& set1 = s1->second;
+                            auto& set2 = s2->second;
 
-                            if (s1 != m_entries.end() && n1_id != n2_id) {
-                                auto& set = s1->second;
-                                auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n1_cost));
+                            const auto e1 = std::find(set1.begin(), set1.end(), edge_t { node, n1_cost });
+                            const auto e2 = std::find(set2.begin(), set2.end(), edge_t { node, n2_cost });
 
-                                if (sn != set.end()) {
+                            if (e1 != set1.end() && e2 != set2.end()) {
 
-                                    if (neighbour_t new_vertex { n2_id, sn->second + n2_cost };
-                                        std::find(set.begin(), set.end(), new_vertex) == set.end()
-                                    ) {
-                                        set.emplace_back(new_vertex);
+                                const auto merge = [](neighbours_t& _set, const auto& _old, const edge_t& _new) {
+                                    _set.erase(_old);
+                                    if (std::find(_set.begin(), _set.end(), _new) == _set.end()) {
+                                        _set.emplace_back(_new);
                                     }
+                                };
+
+                                // Merge the connections from the current node with its neighbours:
+                                if (s1 != s2) {
+                                    merge(set1, e1, edge_t { n2_id, n1_cost + n2_cost });
+                                    merge(set2, e2, edge_t { n1_id, n1_cost + n2_cost });
+                                }
+                                else {
+                                    const auto is_node = [&node](const edge_t& _edge) { return _edge.first == node; };
+                                    set1.erase(std::remove_if(set1.begin(), set1.end(), is_node), set1.end());
                                 }
-                            }
 
-                            if (s2 != m_entries.end() && n1_id != n2_id) {
-                                auto& set = s2->second;
-                                auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n2_cost));
+                                // Remove the current node from the graph.
+                                it = m_entries.erase(it);
 
-                                if (sn != set.end()) {
-                                    neighbour_t new_vertex{n1_id, sn->second + n1_cost};
-                                    set.erase(sn);
-                                    if (std::find(set.begin(), set.end(), new_vertex) == set.end()) {
-                                        set.emplace_back(new_vertex);
-                                    }
-                                }
-                            }
+                                dirty  = ConsolidateAfterPrune;
+                                pruned = true;
 
-                            // Remove the current node from the graph.
-                            nodesToRemove.emplace_back(node);
+                                continue;
+                            }
                         }
                     }
-                    else {
-                        break;
-                    }
-                }
-                for (const auto& node : nodesToRemove) {
-                    m_entries.erase(node);
+
+                    ++it;
                 }
             }
-            while (!nodesToRemove.empty() && m_entries.size() > 2U);
+            while (pruned && m_entries.size() > 2U);
 
             if (dirty) {
                 chdr::malloc_consolidate();
-- 
2.43.0


From be2cc52b94784a4516bf983474f2dce522b0072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 22/55] fix: a graph made from a grid connects every junction
 along its corridors

---
 include/mazes/graph.hpp | 57 ++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 41 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index da3b0c8..7e2a477 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -169,21 +169,10 @@ namespace chdr::mazes {
 
                 const auto worker = [&](index_t _start, index_t _end) ALWAYS_INLINE {
 
-                    std::pmr::unsynchronized_pool_resource pool;
-                    stack<edge_t> stack(&pool);
-
-                    std::pmr::unordered_set<index_t> global_closed(&pool);
-                    std::pmr::unordered_set<index_t> local_closed(&pool);
-
-                    std::pmr::unordered_map<index_t, neighbours_t> thread_connections(&pool);
-
                     for (auto index = _start; index < _end; ++index) {
 
                         if (const auto& element = _grid[index]; element.is_active()) {
 
-                            global_closed.clear();
-                            global_closed.insert(index);
-
                             if (const auto& neighbours = _grid.get_neighbours(index); !_grid.is_transitory(neighbours)) {
 
                                 for (const auto& n1 : neighbours) {
@@ -192,46 +181,32 @@ namespace chdr::mazes {
 
                                         const auto nIdx1 = static_cast<index_t>(utils::to_1d(nCoord1, size));
 
-                                        local_closed.clear();
-                                        stack.emplace(std::make_pair(nIdx1, static_cast<scalar_t>(1)));
-
-                                        while (!stack.empty()) {
+                                        auto   prev = index;
+                                        auto   curr = nIdx1;
+                                        edge_t edge { curr, static_cast<scalar_t>(1) };
 
-                                            const auto [currIdx, currDistance] = std::move(stack.top());
-                                            stack.pop();
+                                        // Follow the corridor of transitory nodes until it ends, or loops back.
+                                        while (curr != index && _grid.is_transitory(curr)) {
 
-                                            if (local_closed.find(currIdx) == local_closed.end()) {
+                                            for (const auto& [nActive2, nCoord2] : _grid.get_neighbours(curr)) {
 
-                                                 local_closed.insert(currIdx);
-                                                global_closed.insert(currIdx);
+                                                if (nActive2) {
 
-                                                for (const auto& n3 : _grid.get_neighbours(currIdx)) {
-
-                                                    if (const auto& [sActive3, sCoord3] = n3; sActive3) {
-
-                                                        if (const auto s = static_cast<index_t>(utils::to_1d(sCoord3, size));
-                                                            global_closed.find(s) == global_closed.end()
-                                                        ) {
-
-                                                            const edge_t next = std::make_pair(s, currDistance + static_cast<scalar_t>(1));
-
-                                                            if (_grid.is_transitory(s)) {
-                                                                stack.emplace(std::move(next));
-                                                            }
-                                                            else {
-                                                                thread_connections[nIdx1].emplace_back(std::move(next));
-                                                                stack.clear();
-                                                                break;
-                                                            }
-                                                        }
+                                                    if (const auto nIdx2 = static_cast<index_t>(utils::to_1d(nCoord2, size)); nIdx2 != prev) {
+                                                        prev = curr;
+                                                        curr = nIdx2;
+                                                        break;
                                                     }
                                                 }
                                             }
+
+                                            edge.first   = curr;
+                                            edge.second += static_cast<scalar_t>(1);
                                         }
 
-                                        for (const auto& item : thread_connections[nIdx1]) {
+                                        if (curr != index) {
                                             const std::lock_guard lock(mtx);
-                                            add(index, item);
+                                            add(index, edge);
                                         }
                                     }
                                 }
-- 
2.43.0


From 04532ab0676a0962f143491ed7c89427318c8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 23/55] fix: a graph can be made from a grid without pruning it

---
 include/mazes/graph.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 7e2a477..e2bfdb3 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -146,20 +146,19 @@ namespace chdr::mazes {
 
             if constexpr (!Prune) {
 
-                index_t index {0};
-                for (auto& element : _grid) {
+                const auto count = static_cast<index_t>(_grid.count());
 
-                    if (element.is_active()) {
+                for (index_t index {0}; index < count; ++index) {
 
-                        for (auto& neighbour : _grid.get_neighbours(index)) {
+                    if (_grid[index].is_active()) {
 
-                            if (const auto& [nActive, nCoord] = neighbour; nActive) {
-                                add(index, std::make_pair(utils::to_1d(nCoord, size), static_cast<scalar_t>(1)));
+                        for (const auto& [nActive, nCoord] : _grid.get_neighbours(index)) {
+
+                            if (nActive) {
+                                add(index, edge_t { static_cast<index_t>(utils::to_1d(nCoord, size)), static_cast<scalar_t>(1) });
                             }
                         }
                     }
-
-                    ++index;
                 }
             }
             else {
-- 
2.43.0


From 7aacfff8484a24ff2f389c6cbfcd541936f0dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 24/55] fix: a graph made from an adjacency list contains its
 nodes that have no edges

---
 include/mazes/graph.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index e2bfdb3..cdfbf8b 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -109,6 +109,8 @@ namespace chdr::mazes {
 
             for (const auto& entry : _adjacency_list) {
 
+                add(index);
+
                 for (const auto& edge : entry) {
                     add(index, edge);
                 }
-- 
2.43.0


From c86e51970e43eca0ef455551c26edfe64e2377c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 25/55] fix: dijkstra queues a node again only if its cost
 improves, instead of once per route

---
 include/solvers/dijkstra.hpp | 38 +++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/solvers/dijkstra.hpp b/include/solvers/dijkstra.hpp
index a6e9610..102ee4c 100644
--- a/include/solvers/dijkstra.hpp
+++ b/include/solvers/dijkstra.hpp
@@ -162,45 +162,43 @@ namespace chdr::solvers {
 
             const auto e = utils::to_1d(_params.end, _params.size);
 
-            _open.emplace_nosort(e, static_cast<scalar_t>(0));
-
             multi_result result(_params.size, _params.capacity);
 
+            // Note: Nodes are recorded once generated, so that a node is only queued again if its cost improves.
+            _open.emplace_nosort(
+                result.m_data.try_emplace(static_cast<index_t>(e), static_cast<index_t>(e), static_cast<scalar_t>(0)).first->second
+            );
+
             // Main loop:
             while (LIKELY(!_open.empty())) {
 
-                auto _ = std::move(_open.top());
+                const auto top = std::move(_open.top());
                 _open.pop();
 
-                auto& curr = result.m_data.emplace(_.m_index, std::move(_)).first->second;
+                auto& curr = result.m_data.find(top.m_index)->second;
+
+                if (curr.m_gScore < top.m_gScore) {
+                    continue; // The node was queued again with a lower cost.
+                }
 
                 for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
                     if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
 
-                        auto g = curr.m_gScore + n.distance;
+                        const auto g = curr.m_gScore + n.distance;
 
-                        if (const auto search = result.m_data.find(n.index); search != result.m_data.end()) {
+                        const auto [search, inserted] = result.m_data.try_emplace(n.index, n.index, g, &curr);
 
-                            if (auto& child = search->second; g < child.m_gScore) {
+                        if (auto& child = search->second; inserted || g < child.m_gScore) {
 
-                                child.m_gScore = g;
-                                child.m_parent = &curr;
+                            child.m_gScore = g;
+                            child.m_parent = &curr;
 
-                                if constexpr (params_t::lazy_sorting::value) {
-                                    _open.emplace_nosort(child);
-                                }
-                                else {
-                                    _open.emplace(child);
-                                }
-                            }
-                        }
-                        else {
                             if constexpr (params_t::lazy_sorting::value) {
-                                _open.emplace_nosort(n.index, g, &curr);
+                                _open.emplace_nosort(child);
                             }
                             else {
-                                _open.emplace(n.index, g, &curr);
+                                _open.emplace(child);
                             }
                         }
                     }
-- 
2.43.0


From e9f567c0789a7ad362b07885fabfb6384cd25d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 26/55] fix: astar estimates the distance to the node that it
 searches for

---
 include/solvers/astar.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index 7c113bd..704ebf6 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -119,13 +119,12 @@ namespace chdr::solvers {
         template <typename open_set_t, typename closed_set_t>
         [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, closed_set_t& _closed, size_t _capacity, const params_t& _params) {
 
-            constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
+            // Note: The search always runs from the start to the end, and so must its heuristic.
+            const auto&   end = _params.end;
+            const auto& start = _params.start;
 
-            const auto&   end = do_reverse ? _params.start : _params.end;
-            const auto& start = do_reverse ? _params.end   : _params.start;
-
-            const auto s = utils::to_1d(_params.start, _params.size);
-            const auto e = utils::to_1d(_params.end,   _params.size);
+            const auto s = utils::to_1d(start, _params.size);
+            const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
             _closed.emplace(s);
-- 
2.43.0


From 955ce6cab7c3f009a24c145aec70619dfa7baa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 27/55] fix: octile_distance recognises straight lines along
 any axis

---
 include/utils/heuristics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index 9798c0c..a26cf11 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -102,7 +102,7 @@ namespace chdr {
             bool straight = false;
             for (size_t i = 0U; i < Kd; ++i) {
 
-                if (_a[0] == _b[0]) {
+                if (_a[i] == _b[i]) {
                     straight = true;
 
                     if constexpr (Kd > 4U) { break; }
-- 
2.43.0


From 60f455c44c657bedb6deb8fb123c714f80f1c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 28/55] fix: idastar accepts the goal only within its bound

---
 include/solvers/idastar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/idastar.hpp b/include/solvers/idastar.hpp
index 9432266..5db6286 100644
--- a/include/solvers/idastar.hpp
+++ b/include/solvers/idastar.hpp
@@ -167,7 +167,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
-- 
2.43.0


From 8db66a361f8077bb5b3e73c7eb0c9bd51db0e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 29/55] fix: astar and gstar close nodes when they are
 expanded, so that routes through them can still improve

---
 include/solvers/astar.hpp | 12 ++++++++----
 include/solvers/gstar.hpp | 13 +++++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index 704ebf6..b574459 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -126,8 +126,7 @@ namespace chdr::solvers {
             const auto s = utils::to_1d(start, _params.size);
             const auto e = utils::to_1d(end,   _params.size);
 
-              _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
+            _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -137,15 +136,20 @@ namespace chdr::solvers {
 
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                    // Skip nodes that were already expanded by way of a better route:
+                    if (_closed.contains(curr.m_index)) {
+                        continue;
+                    }
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     node* RESTRICT curr_ptr(nullptr);
 
                     for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
                         if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
 
-                            // Check if node is not already visited:
+                            // Check if node is not already expanded:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
diff --git a/include/solvers/gstar.hpp b/include/solvers/gstar.hpp
index cbdc538..343e802 100644
--- a/include/solvers/gstar.hpp
+++ b/include/solvers/gstar.hpp
@@ -125,8 +125,7 @@ namespace chdr::solvers {
             const auto s = utils::to_1d(start, _params.size);
             const auto e = utils::to_1d(end,   _params.size);
 
-              _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
+            _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -136,15 +135,21 @@ namespace chdr::solvers {
 
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                    // Skip nodes that were already expanded by way of a better route:
+                    if (_closed.contains(curr.m_index)) {
+                        curr.expunge(_params.homogeneous_pmr);
+                        continue;
+                    }
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     node* RESTRICT curr_ptr(nullptr);
 
                     for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
                         if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
 
-                            // Check if node is not already visited:
+                            // Check if node is not already expanded:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-- 
2.43.0


From bfe2a58eaecb3a81e729d6c88c0c7162fcaa58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 30/55] fix: mgstar does not route through the ancestors of a
 node that it reopened

---
 include/solvers/mgstar.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/solvers/mgstar.hpp b/include/solvers/mgstar.hpp
index 72603e5..3b8188c 100644
--- a/include/solvers/mgstar.hpp
+++ b/include/solvers/mgstar.hpp
@@ -134,6 +134,16 @@ namespace chdr::solvers {
             }
         }
 
+        [[nodiscard]] HOT static bool is_ancestor(const managed_node<index_t, node>& _node, index_t _index) noexcept {
+
+            bool result = false;
+            for (const auto* p = _node.m_parent; p != nullptr && !result; p = p->m_parent) {
+                result = p->m_index == _index;
+            }
+
+            return result;
+        }
+
         template <typename open_set_t, typename closed_set_t, typename expunct_set_t>
         [[nodiscard]] HOT static auto desaturate(open_set_t& _open, closed_set_t& _closed, expunct_set_t& _expunct, size_t& _dynamic_allocations, const params_t& _params) {
 
@@ -184,6 +194,9 @@ namespace chdr::solvers {
 
             std::optional<node> best_solution;
 
+            // Whether nodes have been reopened to reclaim memory. If so, a node may encounter its own ancestors.
+            bool saturated = false;
+
             // Main loop:
             while (LIKELY(!_open.empty())) {
 
@@ -200,11 +213,12 @@ namespace chdr::solvers {
                             if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
 
                                 // Check if node is not already visited:
-                                if (!_closed.contains(n.index)) {
+                                if (!_closed.contains(n.index) && !(saturated && is_ancestor(curr_ptr == nullptr ? curr : *curr_ptr, n.index))) {
 
                                     // Attempt to resolve the issue of memory saturation.
                                     bool full = memory_usage() >= _params.memory_limit;
                                     if (full) {
+                                        saturated = true;
                                         full = desaturate(_open, _closed, expunct, dynamic_allocations, _params);
                                     }
 
-- 
2.43.0


From 8ce6c256cbb08896a6ff756b4f074b136c2b61b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 31/55] fix: grid::contains(coord) can be instantiated

---
 include/mazes/grid.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index 7eba226..896a970 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -298,7 +298,12 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            for (size_t i = 0U; i < s_rank; ++i) {
+                if (static_cast<size_t>(_id[i]) >= static_cast<size_t>(m_size[i])) { return false; }
+            }
+
+            return true;
         }
 
         /**
@@ -759,7 +764,12 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            for (size_t i = 0U; i < s_rank; ++i) {
+                if (static_cast<size_t>(_id[i]) >= static_cast<size_t>(m_size[i])) { return false; }
+            }
+
+            return true;
         }
 
         /**
-- 
2.43.0


From 11e896fb6286a2aeeba96c2a6671ecf208e10c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 32/55] fix: octile neighbours of signed coordinates stop at
 the edge of the grid

---
 include/mazes/grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index 896a970..fd79049 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -275,7 +275,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (_direction[i] - 1U);
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
                     break;
                 }
@@ -485,7 +485,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (direction[i] - static_cast<typename coord_t::value_type>(1U));
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
 
                     if constexpr (s_rank > 4U) {
@@ -741,7 +741,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (_direction[i] - 1U);
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
                     break;
                 }
@@ -949,7 +949,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (direction[i] - static_cast<typename coord_t::value_type>(1U));
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
 
                     if constexpr (s_rank > 4U) {
-- 
2.43.0


From 2b790f6fcb0e2e9f2ce37cc1d3a38753048e0227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 33/55] fix: solve can be given its parameters as a list of
 arguments

---
 include/solvers/base/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index e8bd625..83eae5d 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -838,7 +838,7 @@ namespace chdr::solvers {
         constexpr
 #endif // __cplusplus >= 202003L
         static auto solve(Args&&... _args) {
-            return solve(std::forward<Args>(_args)...);
+            return solve(static_cast<const params_t&>(params_t { std::forward<Args>(_args)... }));
         }
 
         /**
-- 
2.43.0


From bd7ebc6ff58887ee24df22ee99f4bb6894eab898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 34/55] fix: a search whose start or end lies outside of the
 maze on any axis finds nothing

---
 include/solvers/base/solver.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 83eae5d..967d997 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -342,6 +342,26 @@ namespace chdr::solvers {
             template <typename T>
             static constexpr bool has_subscript_operator_v = has_subscript_operator<T>::value;
 
+            /**
+             * @brief Determines whether a coordinate lies within the given bounds on every axis.
+             *
+             * @details The index of a coordinate outside of the bounds may well be the index of another, which is inside of them.
+             *
+             * @param [in] _coord The coordinate to test.
+             * @param [in] _size The coordinate dimensions.
+             *
+             * @return `true` if every element of the coordinate is smaller than its corresponding dimension. Otherwise, `false`.
+             */
+            template <typename coord_t>
+            [[nodiscard]] static constexpr bool in_bounds(const coord_t& _coord, const coord_t& _size) noexcept {
+
+                for (size_t i = 0U; i < std::tuple_size_v<std::decay_t<coord_t>>; ++i) {
+                    if (static_cast<size_t>(_coord[i]) >= static_cast<size_t>(_size[i])) { return false; }
+                }
+
+                return true;
+            }
+
             /**
              * @brief Estimates the preallocation quota for a given solve.
              *
@@ -875,7 +895,9 @@ namespace chdr::solvers {
                 const auto s = static_cast<typename params_t::index_type>(utils::to_1d(_params.start, _params.size));
                 const auto e = static_cast<typename params_t::index_type>(utils::to_1d(_params.end,   _params.size));
 
-                if (_params.maze.contains(s) && _params.maze[s].is_active() &&
+                if (solver_utils::in_bounds(_params.start, _params.size) &&
+                    solver_utils::in_bounds(_params.end,   _params.size) &&
+                    _params.maze.contains(s) && _params.maze[s].is_active() &&
                     _params.maze.contains(e) && _params.maze[e].is_active()
                 ) {
                     result = s != e ?
-- 
2.43.0


From 637fbab987472187fb9e858d44ff02f381227e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 35/55] fix: homogeneous_pool does not throw when memory is
 returned to it

---
 include/types/pmr/homogeneous_pool.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 1a7726f..0ac2f4c 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -304,7 +304,11 @@ namespace chdr {
             }
             else {
 
-                m_free.push_back(static_cast<uint8_t*>(_p));
+                // Deallocation must not throw. If there is no room to remember the chunk, it is unavailable until the pool is reset.
+                try {
+                    m_free.push_back(static_cast<uint8_t*>(_p));
+                }
+                catch (...) {} // NOLINT(*-empty-catch)
 
 #if CHDR_DIAGNOSTICS == 1
 
-- 
2.43.0


From 7068c5e1c3aeafb4590fa5d38bfd4c9417de4d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 36/55] fix: pools do not hand out memory beyond the end of
 their stack block

---
 include/types/pmr/heterogeneous_pool.hpp | 6 ++++--
 include/types/pmr/homogeneous_pool.hpp   | 6 ++++--
 include/types/pmr/monotonic_pool.hpp     | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 7c14ea4..7fefa74 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -251,9 +251,11 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (_alignment <= alignof(max_align_t) && aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size) {
+                const size_t offset = (m_stack_write + _alignment - 1U) & ~(_alignment - 1U);
 
-                    aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
+                if (_alignment <= alignof(max_align_t) && aligned_bytes < MaxStackAllocationSize && offset <= s_stack_block_size && aligned_bytes <= s_stack_block_size - offset) {
+
+                    aligned_ptr = m_stack_block + offset;
                     m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
                 }
 
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 0ac2f4c..83c604b 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -229,10 +229,12 @@ namespace chdr {
                 // Attempt to allocate from the stack block:
                 if (m_stack_write < StackSize && _alignment <= alignof(max_align_t)) {
 
+                    const size_t offset = (m_stack_write + _alignment - 1U) & ~(_alignment - 1U);
+
                     if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size
+                        aligned_bytes < MaxStackAllocationSize && offset <= s_stack_block_size && aligned_bytes <= s_stack_block_size - offset
                     ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
+                        aligned_ptr = m_stack_block + offset;
                         m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
                     }
                 }
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index adcc044..3db40bc 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -205,11 +205,13 @@ namespace chdr {
                 // Attempt to allocate from the stack block:
                 if (m_stack_write < StackSize && _alignment <= alignof(max_align_t)) {
 
+                    const size_t offset = (m_stack_write + _alignment - 1U) & ~(_alignment - 1U);
+
                     if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
                         aligned_bytes < MaxStackAllocationSize &&
-                        m_stack_write + aligned_bytes <= s_stack_block_size
+                        offset <= s_stack_block_size && aligned_bytes <= s_stack_block_size - offset
                     ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
+                        aligned_ptr = m_stack_block + offset;
                         m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
                     }
                 }
-- 
2.43.0


From f5ecfd423ea18f5dd2617dade3f9ad23ea049be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 37/55] fix: pools throw bad_alloc for a size which cannot be
 rounded up to its alignment

---
 include/types/pmr/heterogeneous_pool.hpp | 5 +++++
 include/types/pmr/homogeneous_pool.hpp   | 5 +++++
 include/types/pmr/monotonic_pool.hpp     | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 7fefa74..cc17ee3 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -246,6 +246,11 @@ namespace chdr {
                 return nullptr; // No-op. (See C++17 standard.)
             }
             else {
+                // A size which cannot be rounded up to the alignment cannot be satisfied.
+                if (UNLIKELY(_bytes > std::numeric_limits<size_t>::max() - _alignment)) {
+                    throw std::bad_alloc();
+                }
+
                 const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
 
                 uint8_t* aligned_ptr { nullptr };
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 83c604b..135e407 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -224,6 +224,11 @@ namespace chdr {
                 return nullptr; // No-op. (See C++17 standard.)
             }
             else {
+                // A size which cannot be rounded up to the alignment cannot be satisfied.
+                if (UNLIKELY(_bytes > std::numeric_limits<size_t>::max() - _alignment)) {
+                    throw std::bad_alloc();
+                }
+
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 3db40bc..5a7ba7c 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -200,6 +200,11 @@ namespace chdr {
                 return nullptr; // No-op. (See C++17 standard.)
             }
             else {
+                // A size which cannot be rounded up to the alignment cannot be satisfied.
+                if (UNLIKELY(_bytes > std::numeric_limits<size_t>::max() - _alignment)) {
+                    throw std::bad_alloc();
+                }
+
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-- 
2.43.0


From c6d5efeaf3cefd67f9be203664d3771f19cd142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 38/55] fix: a moved homogeneous_pool leaves the chunks of its
 stack block behind

---
 include/types/pmr/homogeneous_pool.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 135e407..a97194f 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -161,6 +161,25 @@ namespace chdr {
             return result;
         }
 
+        /**
+         * @brief Forgets free chunks which lie within the stack block of another pool, whose free list was moved to this pool.
+         *
+         * @param [in] _other The pool whose stack block's chunks are to be removed from the free list.
+         */
+        void forget_stack_chunks(const homogeneous_pool& _other) noexcept {
+
+            const auto begin = reinterpret_cast<uintptr_t>(_other.m_stack_block);
+            const auto   end = begin + s_stack_block_size;
+
+            m_free.erase(
+                std::remove_if(m_free.begin(), m_free.end(), [begin, end](const uint8_t* _chunk) noexcept {
+                    const auto address = reinterpret_cast<uintptr_t>(_chunk);
+                    return address >= begin && address < end;
+                }),
+                m_free.end()
+            );
+        }
+
         /**
          * @brief Frees all memory blocks managed by the memory pool.
          *
@@ -405,6 +424,8 @@ namespace chdr {
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
+            forget_stack_chunks(_other);
+
             _other.m_stack_write = 0U;
             _other.m_blocks.clear();
             _other.m_free.clear();
@@ -426,6 +447,8 @@ namespace chdr {
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
+                forget_stack_chunks(_other);
+
                 _other.m_stack_write = 0U;
                 _other.m_blocks.clear();
                 _other.m_free.clear();
-- 
2.43.0


From 5185327b3e92e22ef2375dbc07ab96b3e2b6bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 39/55] fix: heap::insert(position) maintains the heap property

---
 include/types/containers/heap.hpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 4a4de28..85c1b99 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -543,11 +543,11 @@ namespace chdr {
          * @param _item [in] The item to be sorted upwards within the heap. The item's new position
          *                    will adhere to the heap's rules after execution.
          */
-        HOT constexpr void sort_up(const T& _item) noexcept {
+        HOT constexpr size_t sort_up(const T& _item) noexcept {
 
-            if (size() > 1U) {
+            auto i = index_of(_item);
 
-                auto i = index_of(_item);
+            if (size() > 1U) {
 
                 assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
 
@@ -567,6 +567,8 @@ namespace chdr {
 
                 c[i] = std::move(value_to_insert);
             }
+
+            return i;
         }
 
         /**
@@ -842,29 +844,25 @@ namespace chdr {
         /**
          * @brief Inserts an element into the heap while maintaining the heap property.
          *
-         * @param _position The iterator position where the element should be inserted.
+         * @param _position A hint for the position of the element (the heap property decides where it goes).
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
-        constexpr iterator_t insert(iterator_t _position, const T& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, _value);
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+        constexpr iterator_t insert([[maybe_unused]] iterator_t _position, const T& _value) {
+            c.push_back(_value);
+            return c.begin() + sort_up(c.back()); // Return iterator to inserted element
         }
 
         /**
          * @brief Moves an element into the heap while maintaining the heap property.
          *
-         * @param _position The iterator position where the element should be moved.
+         * @param _position A hint for the position of the element (the heap property decides where it goes).
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
-        constexpr iterator_t insert(iterator_t _position, T&& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, std::move(_value));
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+        constexpr iterator_t insert([[maybe_unused]] iterator_t _position, T&& _value) {
+            c.push_back(std::move(_value));
+            return c.begin() + sort_up(c.back()); // Return iterator to inserted element
         }
 
         /**
-- 
2.43.0


From a86e8af6a14a1a78e668a214723d6b6aaa06f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 40/55] fix: heap::erase(first, last) halts and keeps the rest

---
 include/types/containers/heap.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 85c1b99..a6fe77d 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -921,8 +921,11 @@ namespace chdr {
          * @param _last Iterator to the element past the last one to erase.
          */
         constexpr void erase(iterator_t _first, iterator_t _last) {
-            for (auto it = _first; it != _last;) {
-                it = erase(it); // Keep erasing until the last element is removed.
+            c.erase(_first, _last);
+
+            // Restore heap property:
+            for (size_t i = parent_of(size()); i >= 1U; --i) {
+                sort_down(c[i]);
             }
         }
 
-- 
2.43.0


From 2c56a485023efe0caab817933b976e38cea08ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 41/55] fix: heap's reverse iteration leaves out the super
 element

---
 include/types/containers/heap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index a6fe77d..f749f90 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -948,9 +948,9 @@ namespace chdr {
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rbegin() const noexcept { return c.rbegin();  }
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crbegin() const noexcept { return c.crbegin(); }
 
-        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend(); }
+        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend() - 1U;   }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend() - 1U;   }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend() - 1U; }
 
     };
 
-- 
2.43.0


From c61b59f50bdac7e2e997cd6aa95d6edf1c1634ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 42/55] fix: heaps of pointers compile

---
 include/types/containers/heap.hpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index f749f90..24f2c98 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -281,12 +281,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -298,12 +293,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -315,12 +305,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(std::prev(end()).base());
-            }
-            else {
-                return *std::prev(end());
-            }
+            return *std::prev(end());
         }
 
         /**
@@ -332,12 +317,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(std::prev(end()).base());
-            }
-            else {
-                return *std::prev(end());
-            }
+            return *std::prev(end());
         }
 
         /**
-- 
2.43.0


From c643cbec6a8e37e40986710c2b016da63dfd5cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 43/55] fix: existence_set can be iterated over

---
 include/types/containers/existence_set.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index eb4d009..447f95b 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -410,10 +410,10 @@ namespace chdr {
          */
         [[maybe_unused, nodiscard]] constexpr auto capacity() const noexcept { return c.capacity(); }
 
-        using iterator_t               = typename std::vector<width_t>::              iterator;
-        using const_iterator_t         = typename std::vector<width_t>::        const_iterator;
-        using reverse_iterator_t       = typename std::vector<width_t>::      reverse_iterator;
-        using const_reverse_iterator_t = typename std::vector<width_t>::const_reverse_iterator;
+        using iterator_t               = typename decltype(c)::              iterator;
+        using const_iterator_t         = typename decltype(c)::        const_iterator;
+        using reverse_iterator_t       = typename decltype(c)::      reverse_iterator;
+        using const_reverse_iterator_t = typename decltype(c)::const_reverse_iterator;
 
         [[maybe_unused, nodiscard]] constexpr       iterator_t  begin()       noexcept { return c.begin();  }
         [[maybe_unused, nodiscard]] constexpr const_iterator_t  begin() const noexcept { return c.begin();  }
-- 
2.43.0


From fc9de2394655d8528858cf8aea7dfffe09c960f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 44/55] fix: existence_set does not write out of bounds for the
 largest key

---
 include/types/containers/existence_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index 447f95b..709fb07 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -110,7 +110,7 @@ namespace chdr {
         constexpr void enable(size_t _hash) {
 
             if (_hash >= c.size()) {
-                resize(_hash + 1U);
+                resize(utils::max(_hash, _hash + 1U)); // (Does not wrap around.)
             }
 
             /*
-- 
2.43.0


From 6db823fb8774cc0be9023562feb6e8578478393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 45/55] fix: distances between cells more than 2^31 apart

The coordinates were converted to int before they were subtracted, so that far cells of a large grid appeared near, or equal (or the subtraction overflowed).
---
 include/utils/heuristics.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index a26cf11..b8a236e 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -41,6 +41,20 @@ namespace chdr {
          heuristics& operator=(const heuristics&&) = delete;
         ~heuristics()                              = delete;
 
+    private:
+
+        /**
+         * @brief Computes the distance between two positions along one axis.
+         * @details Unlike the difference of the positions, it is representable in their type regardless of which is larger.
+         * @param _a The first position.
+         * @param _b The second position.
+         * @return The distance between _a and _b.
+         */
+        template <typename scalar_t, typename T>
+        [[nodiscard]] HOT static constexpr scalar_t axis_distance(const T& _a, const T& _b) noexcept {
+            return static_cast<scalar_t>(_a < _b ? _b - _a : _a - _b);
+        }
+
     public:
 
         /**
@@ -77,7 +91,7 @@ namespace chdr {
 
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
-                const auto val = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                const auto val = axis_distance<scalar_t>(_a[i], _b[i]);
                 result += val * val;
             }
 
@@ -134,7 +148,7 @@ namespace chdr {
 
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
-                result += static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                result += axis_distance<scalar_t>(_a[i], _b[i]);
             }
 
             return result;
@@ -158,7 +172,7 @@ namespace chdr {
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
 
-                const auto val = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                const auto val = axis_distance<scalar_t>(_a[i], _b[i]);
                 if (val > result) {
                     result = val;
                 }
@@ -186,7 +200,7 @@ namespace chdr {
             for (size_t i = 0U; i < Kd; ++i) {
 
                 if (const auto denominator = static_cast<scalar_t>(utils::abs(_a[i]) + utils::abs(_b[i])); denominator != 0) {
-                    const auto   numerator = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                    const auto   numerator = axis_distance<scalar_t>(_a[i], _b[i]);
 
                     result += numerator / denominator;
                 }
-- 
2.43.0


From 46d7a86118c8bb6af81c23f0c59fe3d5968c1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 46/55] fix: powui of zero, and of results that fit although
 the next square does not

The assertions divided by zero for a base of zero, and required the square of the base to fit even where it was not needed.
---
 include/utils/utils.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index cab6c37..20fc721 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -385,12 +385,16 @@ namespace chdr {
 
             while (_exp > 0U) {
                 if (_exp % 2U == 1U) {
-                    assert(result <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
+                    assert((_base == 0U || result <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
                     result *= _base;
                 }
-                assert(_base <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
-                _base *= _base;
-                _exp  /= 2U;
+                _exp /= 2U;
+
+                // The base is only squared if there is a further use for it.
+                if (_exp > 0U) {
+                    assert((_base == 0U || _base <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
+                    _base *= _base;
+                }
             }
 
             return result;
-- 
2.43.0


From 23e5e080b994e3b42ab925ef8e1404e9cb6de576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 47/55] fix: to_string of durations below a nanosecond

The last unit was passed over, and whatever lies behind the units was printed.
---
 include/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 20fc721..9891a78 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -568,7 +568,7 @@ namespace chdr {
             constexpr std::array<const char* const, 4U> units { "s", "ms", "µs", "ns" };
 
             size_t i = 0U;
-            while (i < units.size() && abs(_duration) < 1.0L) {
+            while (i < units.size() - 1U && abs(_duration) < 1.0L) {
                 _duration *= 1000.0L;
                 ++i;
             }
-- 
2.43.0


From e75f04a7871d0ac8d6cd25c8c9732b66df17dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 48/55] fix: to_string with a scale of zero

Dividing by the scale made any duration print as nan, although zero is documented as a valid scale.
---
 include/utils/utils.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 9891a78..1a79d82 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -575,11 +575,12 @@ namespace chdr {
 
             _scale = clamp(_scale, 0.0L, 1.0L);
 
-            return trim_trailing_zeros(
-                std::to_string(
-                    std::floor((_duration / _scale) + 0.5L) * _scale
-                )
-            ) + units[i];
+            // A scale of zero asks for no rounding at all.
+            if (_scale > 0.0L) {
+                _duration = std::floor((_duration / _scale) + 0.5L) * _scale;
+            }
+
+            return trim_trailing_zeros(std::to_string(_duration)) + units[i];
         }
 
         /**
-- 
2.43.0


From 532663e51b27d196259d7a742e6b28a785fc658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 49/55] fix: trim_trailing_zeros keeps the zeros of whole
 numbers

100 became 1, and 0 became the empty string, whose last character was then read.
---
 include/utils/utils.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 1a79d82..9c08579 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -599,13 +599,17 @@ namespace chdr {
          */
         [[nodiscard]] static std::string trim_trailing_zeros(std::string _str) {
 
-            auto& trimmed = _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
+            // Zeros are only insignificant after a decimal point.
+            if (_str.find('.') != std::string::npos) {
 
-            if (trimmed.back() == '.') {
-                trimmed.pop_back();
+                _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
+
+                if (_str.back() == '.') {
+                    _str.pop_back();
+                }
             }
 
-            return trimmed;
+            return _str;
         }
     };
 
-- 
2.43.0


From 5aec6285bb7105bf2526eed316f41fbed959717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 50/55] fix: octile_distance takes as many diagonal steps as
 there are, not only those

It multiplied the whole distance by the length of a diagonal step as soon as no coordinate was shared, and overestimated all ways that are neither straight nor diagonal (and, in one dimension, all).
---
 include/utils/heuristics.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index b8a236e..b2dd583 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -113,19 +113,18 @@ namespace chdr {
 
             scalar_t result = chebyshev_distance<scalar_t, coord_t>(_a, _b);
 
-            bool straight = false;
-            for (size_t i = 0U; i < Kd; ++i) {
+            if constexpr (Kd > 1U) {
 
-                if (_a[i] == _b[i]) {
-                    straight = true;
+                // As many steps as the shortest side of the way are diagonal; the others are straight.
+                scalar_t diagonal = result;
 
-                    if constexpr (Kd > 4U) { break; }
+                IVDEP
+                for (size_t i = 0U; i < Kd; ++i) {
+                    diagonal = utils::min(diagonal, axis_distance<scalar_t>(_a[i], _b[i]));
                 }
-            }
 
-            if (!straight) {
                 constexpr auto sqrt2 = utils::sqrt<scalar_t>(2.0);
-                result *= sqrt2;
+                result = (result - diagonal) + (diagonal * sqrt2);
             }
 
             return result;
-- 
2.43.0


From 2482f8a3c15be93fdacebe3aeadf1612f29b5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 51/55] fix: the graph built from a grid does not depend on
 thread scheduling

The threads added edges in whatever order they came to them, and the order decides which nodes pruning keeps where it has a choice.
---
 include/mazes/graph.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index cdfbf8b..431d538 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -16,9 +16,9 @@
 #include <array>
 #include <cassert>
 #include <cstddef>
+#include <functional>
 #include <future>
 #include <initializer_list>
-#include <mutex>
 #include <thread>
 #include <unordered_map>
 #include <unordered_set>
@@ -166,9 +166,11 @@ namespace chdr::mazes {
             else {
 
                 // TODO: Add support for directed graphs.
-                std::mutex mtx;
 
-                const auto worker = [&](index_t _start, index_t _end) ALWAYS_INLINE {
+                // Each thread collects the edges it finds, so that they can be added in an order that does not depend on scheduling.
+                std::array<std::vector<std::pair<index_t, edge_t>>, 6U> edges;
+
+                const auto worker = [&](index_t _start, index_t _end, std::vector<std::pair<index_t, edge_t>>& _edges) ALWAYS_INLINE {
 
                     for (auto index = _start; index < _end; ++index) {
 
@@ -206,8 +208,7 @@ namespace chdr::mazes {
                                         }
 
                                         if (curr != index) {
-                                            const std::lock_guard lock(mtx);
-                                            add(index, edge);
+                                            _edges.emplace_back(index, edge);
                                         }
                                     }
                                 }
@@ -230,13 +231,17 @@ namespace chdr::mazes {
                     const index_t start = static_cast<index_t>(i) * chunkSize;
                     const index_t end   = utils::min(start + chunkSize, static_cast<index_t>(count));
 
-                    futures[i] = std::async(std::launch::async, worker, start, end);
+                    futures[i] = std::async(std::launch::async, worker, start, end, std::ref(edges[i]));
                 }
 
                 for (size_t i = 0U; i < numThreads; ++i) {
                     assert(i < numThreads && "Error: Index 'i' exceeds the number of initialised threads.");
 
                     futures[i].get();
+
+                    for (const auto& [index, edge] : edges[i]) {
+                        add(index, edge);
+                    }
                 }
 
                 // Finalise the pruning process on a single thread.
-- 
2.43.0


From 93da083aecfe5d60d5fbd7b575d08021f1488020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 52/55] fix: count the successors of a managed node in its
 index type

A node with more than 255 successors (a hub of a graph, a cell of a 6D
octile maze) overflowed its uint8_t count, and was released while its
successors still used it.
---
 include/solvers/base/managed_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/managed_node.hpp b/include/solvers/base/managed_node.hpp
index a1ccda5..4239697 100644
--- a/include/solvers/base/managed_node.hpp
+++ b/include/solvers/base/managed_node.hpp
@@ -48,7 +48,7 @@ namespace chdr::solvers {
     private:
 
         using  node_t = std::conditional_t<std::is_void_v<derived>, managed_node<index_t>, derived>;
-        using count_t = uint8_t;
+        using count_t = index_t;
 
     public:
 
-- 
2.43.0


From cd8591f61025b44c3a7861ca2c98cbb0e90e8c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 53/55] fix: compile fringe search with scalars narrower than
 int

The sum of two narrow scalars is an int, for which utils::min has no
overload together with the scalar type.
---
 include/solvers/fringe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index 03107c8..6ea53d9 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -190,7 +190,7 @@ namespace chdr::solvers {
                                     expanded = true;
                                 }
                                 else {
-                                    next_threshold = utils::min(next_threshold, f);
+                                    next_threshold = utils::min(next_threshold, static_cast<scalar_t>(f));
                                     deferred = true;
                                 }
                             }
-- 
2.43.0


From 1492fc1982ea81787aeaa99b472958832c929410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 54/55] fix: add the Canberra denominator in the scalar type

The sum of two coordinates was formed in the coordinate type, where it
wraps (or overflows) for cells far from the origin.
---
 include/utils/heuristics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index b2dd583..50bba36 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -198,7 +198,7 @@ namespace chdr {
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
 
-                if (const auto denominator = static_cast<scalar_t>(utils::abs(_a[i]) + utils::abs(_b[i])); denominator != 0) {
+                if (const auto denominator = static_cast<scalar_t>(utils::abs(_a[i])) + static_cast<scalar_t>(utils::abs(_b[i])); denominator != 0) {
                     const auto   numerator = axis_distance<scalar_t>(_a[i], _b[i]);
 
                     result += numerator / denominator;
-- 
2.43.0


From c142a7db9bd8375b342d5fd1ced22c39765519e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 55/55] fix: jump over long runs of open cells without
 recursing

jps and gjps called themselves once per cell passed over, which exhausted
the call stack in large open mazes (a corridor of 100000 cells).
---
 include/solvers/gjps.hpp | 29 ++++++++++++++++-------------
 include/solvers/jps.hpp  | 29 ++++++++++++++++-------------
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index 387a529..ff021ee 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -252,13 +252,12 @@ namespace chdr::solvers {
         template <typename maze_t>
         [[nodiscard]] static constexpr neighbour_t jump(const maze_t& _maze, const coord_t& _current, const direction_t& _direction, const coord_t& _end) {
 
-            if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
-                return { true, _current };
-            }
-            else { // SEARCH FOR SOLUTION...
+            const auto& map = s_lookup[static_cast<size_t>(_direction)];
 
-                const auto& neighbours = _maze.template get_neighbours<true>(_current);
-                const auto& map = s_lookup[static_cast<size_t>(_direction)];
+            auto current = _current;
+            while (current != _end) { // SEARCH FOR SOLUTION...
+
+                const auto& neighbours = _maze.template get_neighbours<true>(current);
 
                 const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
                     return neighbours[map[_a]].first && !neighbours[map[_b]].first;
@@ -267,36 +266,40 @@ namespace chdr::solvers {
                 if (is_straight(_direction)) { // STRAIGHT...
 
                     if (check_forced(TR, TM) || check_forced(BR, BM)) { // FORCED:
-                        return { true, _current };
+                        return { true, current };
                     }
                     else if (neighbours[map[MR]].first) { // NATURAL:
-                        return jump(_maze, neighbours[map[MR]].second, _direction, _end);
+                        current = neighbours[map[MR]].second;
+                        continue;
                     }
                 }
                 else if (neighbours[map[TM]].first || neighbours[map[ML]].first) { // DIAGONAL (if not blocked)...
 
                     if (check_forced(TR, TM) || check_forced(BL, ML)) { // FORCED:
-                        return { true, _current };
+                        return { true, current };
                     }
                     else { // NATURAL:
 
                         for (const auto& i : { MR, BM }) {
 
                             if (neighbours[map[i]].first) {
-                                if (jump(_maze, neighbours[map[i]].second, _current, _end).first) {
-                                    return { true, _current };
+                                if (jump(_maze, neighbours[map[i]].second, current, _end).first) {
+                                    return { true, current };
                                 }
                             }
                         }
 
                         if (neighbours[map[BR]].first) {
-                            return jump(_maze, neighbours[map[BR]].second, _direction, _end);
+                            current = neighbours[map[BR]].second;
+                            continue;
                         }
                     }
                 }
+
+                return { false, current };
             }
 
-            return { false, _current };
+            return { true, current }; // SOLUTION REACHED...
         }
 
         template <typename open_set_t, typename closed_set_t>
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index ec4f83a..46dfac3 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -272,13 +272,12 @@ namespace chdr::solvers {
         template <typename maze_t>
         [[nodiscard]] static constexpr neighbour_t jump(const maze_t& _maze, const coord_t& _current, const direction_t& _direction, const coord_t& _end) {
 
-            if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
-                return { true, _current };
-            }
-            else { // SEARCH FOR SOLUTION...
+            const auto& map = s_lookup[static_cast<size_t>(_direction)];
 
-                const auto& neighbours = _maze.template get_neighbours<true>(_current);
-                const auto& map = s_lookup[static_cast<size_t>(_direction)];
+            auto current = _current;
+            while (current != _end) { // SEARCH FOR SOLUTION...
+
+                const auto& neighbours = _maze.template get_neighbours<true>(current);
 
                 const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
                     return neighbours[map[_a]].first && !neighbours[map[_b]].first;
@@ -287,36 +286,40 @@ namespace chdr::solvers {
                 if (is_straight(_direction)) { // STRAIGHT...
 
                     if (check_forced(TR, TM) || check_forced(BR, BM)) { // FORCED:
-                        return { true, _current };
+                        return { true, current };
                     }
                     else if (neighbours[map[MR]].first) { // NATURAL:
-                        return jump(_maze, neighbours[map[MR]].second, _direction, _end);
+                        current = neighbours[map[MR]].second;
+                        continue;
                     }
                 }
                 else if (neighbours[map[TM]].first || neighbours[map[ML]].first) { // DIAGONAL (if not blocked)...
 
                     if (check_forced(TR, TM) || check_forced(BL, ML)) { // FORCED:
-                        return { true, _current };
+                        return { true, current };
                     }
                     else { // NATURAL:
 
                         for (const auto& i : { MR, BM }) {
 
                             if (neighbours[map[i]].first) {
-                                if (jump(_maze, neighbours[map[i]].second, _current, _end).first) {
-                                    return { true, _current };
+                                if (jump(_maze, neighbours[map[i]].second, current, _end).first) {
+                                    return { true, current };
                                 }
                             }
                         }
 
                         if (neighbours[map[BR]].first) {
-                            return jump(_maze, neighbours[map[BR]].second, _direction, _end);
+                            current = neighbours[map[BR]].second;
+                            continue;
                         }
                     }
                 }
+
+                return { false, current };
             }
 
-            return { false, _current };
+            return { true, current }; // SOLUTION REACHED...
         }
 
         template <typename open_set_t, typename closed_set_t>
-- 
2.43.0

