From 8c615e9c050ec8ab8b2ce58f9ba575a90584291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:14 +0000
Subject: [PATCH 01/44] fix: initialize the best weight of P-automaton states

The weight of an accepting initial state of the product automaton was read
uninitialized when finding the shortest path.
---
 src/include/pdaaal/internal/PAutomaton.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 1e765f1..df60573 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -175,7 +175,7 @@ namespace pdaaal::internal {
             // TODO: Move this out to sub-class IncrementalPAutomaton
             size_t _back_edge_state = std::numeric_limits<size_t>::max(); // Use the back_edge_state to check for existence of a back_edge.
             uint32_t _back_edge_label = std::numeric_limits<uint32_t>::max()-1; // The null value should not equal epsilon (defensive defaults)
-            weight_or_bool_t _best_weight;
+            weight_or_bool_t _best_weight{}; // Value-initialized, since initial states never get a back edge, but are reached with weight zero.
 
             state_t(bool accepting, size_t id) : _accepting(accepting), _id(id) {};
 
-- 
2.43.0


From b7b044caeb2c4c7ec03e36cf6eeed8c21fcef22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:29 +0000
Subject: [PATCH 02/44] fix: report acceptance when a shortest-trace search
 drains its workset

The shortest-trace searches answered 'not reachable' when the saturation finished
before the queue weight reached the weight of the accepting path. Also initialize the
product with back edges for shortest pre* and dual*, so the trace can be read back.
---
 src/include/pdaaal/Solver.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 8ab4ed5..c656f1e 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -83,7 +83,7 @@ namespace pdaaal {
 
         template <Trace_Type trace_type,typename pda_t, typename automaton_t, typename W>
         static bool dual_search_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            if (instance.template initialize_product<true>()) {
+            if (instance.template initialize_product<true,true,trace_type>()) {
                 return true;
             }
             // we could *probably* avoid some dupplication here if the pre/post* algorithms
@@ -105,8 +105,9 @@ namespace pdaaal {
                         auto w = internal::solver_weight<W,trace_type>::add(latest_poststar_queue_weight, latest_prestar_queue_weight);*/
                         return instance.template add_initial_edge<trace_type>(from, label, to, trace, /*std::move(w)*/ et_param);
                     }
-                );
-                return false;
+                )
+                // When one of the two saturations is complete, any accepting state is reached by a shortest path.
+                || instance.product_automaton().has_accepting_state();
             }
             else
             {
@@ -181,15 +182,17 @@ namespace pdaaal {
         template <Trace_Type trace_type, typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            return instance.initialize_product() ||
-                   pre_star<trace_type,W,true>(instance.automaton(), [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
+            if (instance.template initialize_product<false,true,trace_type>()) return true;
+            bool found = pre_star<trace_type,W,true>(instance.automaton(), [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         if constexpr (is_weighted<W> && trace_type == Trace_Type::Shortest)
                             return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
                         else
                             return instance.add_edge_product(from, label, to, trace);
 
                    });
-            }
+            // Once saturation is complete, any accepting state is reached by a shortest path.
+            return found || instance.product_automaton().has_accepting_state();
+        }
 
         template <Trace_Type trace_type, typename W, bool ET=false>
         static bool pre_star(internal::PAutomaton<W> &automaton,
@@ -221,7 +224,8 @@ namespace pdaaal {
                     [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
                     });
-                return saturation.run();
+                // Once saturation is complete, any accepting state is reached by a shortest path.
+                return saturation.run() || instance.product_automaton().has_accepting_state();
             } else if constexpr (trace_type == Trace_Type::Any ||
                                  trace_type == Trace_Type::None) { // TODO: Implement faster no-trace option.
                 internal::PostStarSaturation<W,true> saturation(instance.automaton(),
-- 
2.43.0


From cc8469ee8c7b9b97a53a2fcb7479ca2d389cb5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:29 +0000
Subject: [PATCH 03/44] fix: process edges in order of weight in shortest-trace
 pre*

The estimate used for the queue order was not a lower bound, so edges were dropped as
stale and early termination could stop before the minimum was found; improved edges
kept the trace of the heavier derivation, and weights were ignored without early
termination.
---
 src/include/pdaaal/internal/PdaSaturation.h | 34 +++++----------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 3c1c1a9..f6ae8fd 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -122,7 +122,6 @@ namespace pdaaal::internal {
         std::vector<std::vector<std::pair<size_t,uint32_t>>> _rel;
         std::vector<std::vector<std::pair<size_t, size_t>>> _delta_prime;
         bool _found = false;
-        std::vector<weight_t> _minpath;
         std::vector<bool> _popped;
 
         bool has_negative_weight() const {
@@ -157,19 +156,12 @@ namespace pdaaal::internal {
         }
 
         void initialize() {
-            if constexpr (SHORTEST && W::is_weight) {
-                _minpath.resize(_automaton.states().size());
-                std::fill(_minpath.begin(), _minpath.end(), solver_weight::max());
-            }
-
             // workset := ->_0  (line 1)
             for (const auto& from : _automaton.states()) {
                 for (const auto& [to, labels] : from->_edges) {
                     for (const auto& [label, _] : labels) {
                         if constexpr (W::is_weight && SHORTEST) {
                             // anything inside the automaton is reachable with weight zero.
-                            _minpath[from->_id] = solver_weight::zero();
-                            _minpath[to] = solver_weight::zero();
                             _workset.emplace(from->_id, label, to, solver_weight::zero(), trace_t());
                         } else if constexpr (!SHORTEST) {
                             _workset.emplace(from->_id, label, to);
@@ -184,18 +176,17 @@ namespace pdaaal::internal {
         void insert_edge(size_t from, uint32_t label, size_t to, trace_t trace, [[maybe_unused]] weight_t weight) {
 
             if constexpr (SHORTEST && W::is_weight) {
-                auto res = solver_weight::add(weight, _minpath[to]);
-                assert(res != solver_weight::max());
                 assert(weight != solver_weight::max());
 
+                // The workset is ordered by the weight of the edges, i.e. (Knuth's generalization of) Dijkstra.
                 auto [it, fresh] = _automaton.emplace_edge(from, label, to, std::make_pair(trace, weight));
                 if (fresh) { // New edge is not already in edges (rel U workset).
-                    if(solver_weight::less(res, _minpath[from])) _minpath[from] = res;
-                    _workset.emplace(from, label, to, std::move(res), trace);
+                    _workset.emplace(from, label, to, std::move(weight), trace);
                 } else {
                     if(solver_weight::less(weight, it->second.second)) {
-                        it->second.second = std::move(weight);
-                        _workset.emplace(from, label, to, std::move(res), trace);
+                        it->second.first = trace;
+                        it->second.second = weight;
+                        _workset.emplace(from, label, to, std::move(weight), trace);
                     }
                 }
             } else {
@@ -222,7 +213,7 @@ namespace pdaaal::internal {
 
         weight_t get_pautomata_edge_weight(auto from, auto label, auto to)
         {
-            if constexpr (ET && W::is_weight)
+            if constexpr (SHORTEST && W::is_weight)
                 return  _automaton.get_edge(from, label, to)->second;
             return weight_t{};
         }
@@ -239,10 +230,8 @@ namespace pdaaal::internal {
 
             if constexpr (SHORTEST && W::is_weight) {
                 assert(t._weight != solver_weight::max());
-                if(!_popped[t._from])
-                    _minpath[t._from] = t._weight;
-                if(solver_weight::less(solver_weight::add(w, _minpath[t._to]), t._weight))
-                    return;
+                if(solver_weight::less(w, t._weight))
+                    return; // Same edge with a smaller weight was (or will be) processed.
                 if constexpr (ET) {
                     _found = _early_termination(t._from, t._label, t._to, std::make_pair(t._trace, w), t._weight) || _found;
                 }
@@ -318,13 +307,6 @@ namespace pdaaal::internal {
                 }
             }
             _popped[t._from] = true;
-
-            if constexpr (ET && SHORTEST && W::is_weight)
-            {
-                // flush the solution in case we got a trace, but the intersection has no trace shorter than the "longest shortest trace" in the pautomata
-                if(workset_empty())
-                    _found = _early_termination(t._from, t._label, t._to, std::make_pair(t._trace, w), solver_weight::max());
-            }
         }
 
         [[nodiscard]] bool workset_empty() const {
-- 
2.43.0


From e3839bbce98b8ae9b4b842bfd1e3bfe1021cdd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:24 +0000
Subject: [PATCH 04/44] fix: accept the empty stack through an epsilon edge of
 post*

accepts() and accept_path() ignored the epsilon edges that post* adds for pop rules, so
reachable configurations with an empty stack were not found; the shortest accept_path()
returned paths that skip the control state when following such an edge; and get_trace()
on a configuration that is not accepted read past the end of an empty path.
---
 src/include/pdaaal/Solver.h              | 19 +++++++++++---
 src/include/pdaaal/internal/PAutomaton.h | 33 ++++++++++++++++--------
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index c656f1e..e2391e8 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -339,10 +339,10 @@ namespace pdaaal {
             auto stack_native = pda.encode_pre(stack);
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto [path, weight] = automaton.template accept_path<trace_type>(state, stack_native);
-                return std::make_pair(_get_trace(pda, automaton, AutomatonPath(path, stack_native)), weight);
+                return std::make_pair(_get_trace(pda, automaton, _make_path(path, stack_native)), weight);
             } else {
                 auto path = automaton.template accept_path<trace_type>(state, stack_native);
-                return _get_trace(pda, automaton, AutomatonPath(path, stack_native));
+                return _get_trace(pda, automaton, _make_path(path, stack_native));
             }
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename T, typename W, typename = std::enable_if_t<!std::is_same_v<T,uint32_t>>>
@@ -350,14 +350,25 @@ namespace pdaaal {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto [path, weight] = automaton.template accept_path<trace_type>(state, stack_native);
-                return std::make_pair(_get_trace(pda, automaton, AutomatonPath(path, stack_native)), weight);
+                return std::make_pair(_get_trace(pda, automaton, _make_path(path, stack_native)), weight);
             } else {
                 auto path = automaton.template accept_path<trace_type>(state, stack_native);
-                return _get_trace(pda, automaton, AutomatonPath(path, stack_native));
+                return _get_trace(pda, automaton, _make_path(path, stack_native));
             }
         }
 
     private:
+        // The path is empty, if the configuration is not accepted, and it starts with an epsilon-edge, if it has one more state than expected.
+        static AutomatonPath<> _make_path(const std::vector<size_t>& path, std::vector<uint32_t> stack) {
+            if (path.empty()) {
+                return AutomatonPath<>();
+            }
+            if (path.size() == stack.size() + 2) {
+                stack.insert(stack.begin(), internal::epsilon);
+            }
+            return AutomatonPath<>(path, stack);
+        }
+
         template <typename T, typename W, typename S, bool ssm>
         static typename PDA<T,W,fut::type::vector,S,ssm>::tracestate_t
         _decode_edges(const PDA<T,W,fut::type::vector,S,ssm> &pda, const AutomatonPath<>& path) {
diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index df60573..64c877c 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -508,8 +508,9 @@ namespace pdaaal::internal {
         [[nodiscard]] bool accepts(size_t state, const std::vector<uint32_t> &stack) const {
             //Equivalent to (but hopefully faster than): return !_accept_path(state, stack).empty();
 
-            if (stack.empty()) {
-                return _states[state]->_accepting;
+            if (stack.empty()) { // post* may add an epsilon-edge out of an initial state. It is merged with every labelled edge, so it only matters for the empty stack.
+                return _states[state]->_accepting || std::any_of(_states[state]->_edges.begin(), _states[state]->_edges.end(),
+                    [this](const auto& edge){ return edge.second.contains(epsilon) && _states[edge.first]->_accepting; });
             }
             // DFS search.
             std::stack<std::pair<size_t, size_t>> search_stack;
@@ -540,9 +541,15 @@ namespace pdaaal::internal {
                 if (stack.empty()) {
                     if (_states[state]->_accepting) {
                         return std::make_pair(std::vector<size_t>{state}, W::zero());
-                    } else {
-                        return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
                     }
+                    auto result = std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
+                    for (const auto& [to,labels] : _states[state]->_edges) { // An epsilon-edge from post* gives a path with one state more.
+                        auto eps_label = labels.get(epsilon);
+                        if (eps_label != nullptr && _states[to]->_accepting && solver_weight<W,trace_type>::less(eps_label->second, result.second)) {
+                            result = std::make_pair(std::vector<size_t>{state, to}, eps_label->second);
+                        }
+                    }
+                    return result;
                 }
                 // Dijkstra.
                 struct queue_elem {
@@ -577,11 +584,11 @@ namespace pdaaal::internal {
                     auto current = search_queue.top();
                     search_queue.pop();
                     if (current._stack_index == stack.size()) {
-                        std::vector<size_t> path(stack.size() + 1);
-                        path[current._stack_index] = current._state;
+                        std::vector<size_t> path{current._state};
                         for (auto p = current._back_pointer; p != nullptr; p = p->_back_pointer) {
-                            path[p->_stack_index] = p->_state;
+                            path.push_back(p->_state);
                         }
+                        std::reverse(path.begin(), path.end());
                         return std::make_pair(path, current._weight);
                     }
                     auto lb = std::lower_bound(visited.begin(), visited.end(), current);
@@ -605,8 +612,8 @@ namespace pdaaal::internal {
                             }
                         }
                         auto eps_label = labels.get(epsilon);
-                        if (eps_label != nullptr) {
-                            search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, eps_label->second), to, current._stack_index, pointer->_back_pointer);
+                        if (eps_label != nullptr) { // An epsilon-edge from post* gives a path with one state more.
+                            search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, eps_label->second), to, current._stack_index, pointer);
                         }
                     }
                 }
@@ -615,9 +622,13 @@ namespace pdaaal::internal {
                 if (stack.empty()) {
                     if (_states[state]->_accepting) {
                         return std::vector<size_t>{state};
-                    } else {
-                        return std::vector<size_t>();
                     }
+                    for (const auto& [to,labels] : _states[state]->_edges) { // An epsilon-edge from post* gives a path with one state more.
+                        if (labels.contains(epsilon) && _states[to]->_accepting) {
+                            return std::vector<size_t>{state, to};
+                        }
+                    }
+                    return std::vector<size_t>();
                 }
                 // DFS search.
                 std::vector<size_t> path(stack.size() + 1);
-- 
2.43.0


From 0403ab3b2030e09ce94be4a4de44611aaf9c3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:24 +0000
Subject: [PATCH 05/44] fix: rule traces without any rule applied

The rule trace of a configuration that is both initial and final read the first element
of an empty trace (dual*), or returned the two paths in the wrong order (post*).
---
 src/include/pdaaal/Solver.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index e2391e8..6a25cba 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -323,13 +323,13 @@ namespace pdaaal {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto[paths, weight] = instance.template find_path<trace_type, true>();
-                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths), weight);
+                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton()), weight);
             } else if constexpr(use_dual) {
                 auto paths = instance.template find_path<trace_type, true>();
                 return _get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths);
             } else {
                 auto paths = instance.template find_path<trace_type, true>();
-                return _get_rule_trace_and_paths(instance.automaton(), paths);
+                return _get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton());
             }
         }
 
@@ -414,7 +414,8 @@ namespace pdaaal {
                 std::vector<size_t>, // Path in initial PAutomaton (accepting initial stack)
                 std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
                 > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type>& automaton, // The PAutomaton that has been build up (either A_pre* or A_post*)
-                                            const AutomatonPath<true>& paths) {
+                                            const AutomatonPath<true>& paths,
+                                            bool post) { // Whether automaton is the initial automaton, i.e. post* was used. (The trace might be empty, so TraceBack cannot tell.)
             using rule_t = user_rule_t<W>;
 
             if (paths.is_null()) {
@@ -434,9 +435,9 @@ namespace pdaaal {
             // Get accepting path of initial stack (and the initial stack itself - for post*)
             auto [start_path, start_stack] = tb.path().get_path_and_stack();
 
-            if (tb.post()) { // post* was used
+            if (post) { // post* was used
                 std::reverse(trace.begin(), trace.end());
-                return std::make_tuple(trace[0].from(), std::move(trace),
+                return std::make_tuple(trace.empty() ? paths.front_state().first : trace[0].from(), std::move(trace),
                                        std::move(start_stack), std::move(goal_stack),
                                        std::move(start_path), std::move(goal_path));
             } else { // pre* was used
@@ -456,20 +457,20 @@ namespace pdaaal {
         std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
         > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type1>& initial_automaton,
                                     const internal::PAutomaton<W,trace_info_type2>& final_automaton,
-                                    const std::optional<AutomatonPath<true>>& paths) {
+                                    const AutomatonPath<true>& paths) {
             using rule_t = user_rule_t<W>;
 
-            if (!paths.has_value()) {
+            if (paths.is_null()) {
                 return std::make_tuple(std::numeric_limits<size_t>::max(), std::vector<rule_t>(), std::vector<uint32_t>(), std::vector<uint32_t>(), std::vector<size_t>(), std::vector<size_t>());
             }
             // The paths was retrieved from the product automaton. First number is the state in initial_automaton, second number is state in final_automaton.
-            auto [initial_automaton_path, final_automaton_path] = paths.value().split();
+            auto [initial_automaton_path, final_automaton_path] = paths.split();
             final_automaton_path.remove_epsilon(); // post* may add an epsilon-edge as first. this edge is not in pre* automaton (final_automaton), so remove it from f_path.
             auto [trace, initial_stack, initial_path] = _get_trace_stack_path(initial_automaton, std::move(initial_automaton_path));
             auto [trace2, final_stack, final_path] = _get_trace_stack_path(final_automaton, std::move(final_automaton_path));
             // Concat traces
             trace.insert(trace.end(), trace2.begin(), trace2.end());
-            return std::make_tuple(trace[0].from(), std::move(trace),
+            return std::make_tuple(trace.empty() ? paths.front_state().first : trace[0].from(), std::move(trace),
                                    std::move(initial_stack), std::move(final_stack),
                                    std::move(initial_path), std::move(final_path));
         }
-- 
2.43.0


From 0496b9e234ff018ac2d8e4457e4b423e7348b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:50 +0000
Subject: [PATCH 06/44] fix: complete the current round before stopping the
 fixed-point computation

The round limit was compared at the start of a round, so the last round was cut short
after its first element: remaining changes were taken for infinite weights, and new
transitions found after that violated an assertion.
---
 src/include/pdaaal/utils/workset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/workset.h b/src/include/pdaaal/utils/workset.h
index e694f3c..890f603 100644
--- a/src/include/pdaaal/utils/workset.h
+++ b/src/include/pdaaal/utils/workset.h
@@ -74,7 +74,7 @@ namespace pdaaal {
             }
         }
         [[nodiscard]] bool done() const {
-            return _done || _rounds == _round_limit;
+            return _done || (_workset.empty() && _rounds >= _round_limit); // Always complete the current round.
         }
         void run() {
             while(!done()) {
-- 
2.43.0


From 39623b1fb516772de379d752fa0805885a44a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:50 +0000
Subject: [PATCH 07/44] fix: allow epsilon edges in the paths of the
 fixed-point computation

The assertions rejected the epsilon edges that post* adds.
---
 src/include/pdaaal/internal/PAutomatonAlgorithms.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomatonAlgorithms.h b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
index 4fb2725..b13f229 100644
--- a/src/include/pdaaal/internal/PAutomatonAlgorithms.h
+++ b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
@@ -129,7 +129,6 @@ namespace pdaaal::internal {
             AutomatonPath path(state_map(_min_accepting_state));
             size_t state = _min_accepting_state;
             while (_states[state].predecessor != no_state) {
-                assert(_states[state].label != std::numeric_limits<uint32_t>::max());
                 path.emplace(state_map(_states[state].predecessor), _states[state].label);
                 state = _states[state].predecessor;
                 assert(path.edges_size() <= _states.size()); // There should be no loop here - covered elsewhere.
@@ -163,7 +162,6 @@ namespace pdaaal::internal {
                     _current_state = _states[_current_state].predecessor;
                 }
                 if (_current_state == no_state) return std::nullopt; // Done searching.
-                assert(label != std::numeric_limits<uint32_t>::max());
                 assert(_current_state != uninitialized_state);
                 _path.emplace(_state_map(_current_state), label);
                 return label;
-- 
2.43.0


From bc9ec1ebd385fd9cf68283d617fb3cbe7ff48f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:50 +0000
Subject: [PATCH 08/44] fix: propagate infinite weights through epsilon edges
 in fixed-point post*

When an edge out of an intermediate state became infinite, the edges merged from it were
updated with the finite weight, so they could stay finite.
---
 src/include/pdaaal/internal/PdaSaturation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index f6ae8fd..9a9015b 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1022,9 +1022,10 @@ namespace pdaaal::internal {
                             update_edge<change_is_bottom>(rule._to, rule._op_label, q_new, W::zero(), trace);
                             if (update_edge<change_is_bottom>(q_new, t._label, t._to, wb, trace)) {
                                 assert(q_new >= _n_Q);
+                                const auto w_new = _automaton.get_edge(q_new, t._label, t._to)->second; // This is wb, or bottom if change_is_bottom.
                                 for (auto f: _rel2[q_new - _n_Q]) {
                                     assert(_automaton.get_edge(f, epsilon, q_new) != nullptr);
-                                    update_edge<change_is_bottom>(f, t._label, t._to, solverW::add(wb, _automaton.get_edge(f, epsilon, q_new)->second), p_automaton_t::new_post_trace(q_new));
+                                    update_edge<change_is_bottom>(f, t._label, t._to, solverW::add(w_new, _automaton.get_edge(f, epsilon, q_new)->second), p_automaton_t::new_post_trace(q_new));
                                 }
                             }
                             break;
-- 
2.43.0


From 911e2b006c1f43be29cb431c7b8d082578d14204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:50 +0000
Subject: [PATCH 09/44] fix: find all rules into a state in pre* when weights
 are negative

The rule used as lower bound has weight zero, so a push rule with label 0 and a negative
weight came before it and was ignored.
---
 src/include/pdaaal/internal/PdaSaturation.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 9a9015b..1b072fd 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -57,6 +57,12 @@ namespace pdaaal::internal {
         }
     };
 
+    // Rules are sorted by _to first. (The default rule is not a lower bound, if the weight can be negative.)
+    template <typename Rules>
+    auto first_rule_to(const Rules& rules, size_t to) {
+        return std::lower_bound(rules.begin(), rules.end(), to, [](const auto& elem, size_t state){ return elem.first._to < state; });
+    }
+
     template <typename W>
     using early_termination_fn = std::function<bool(size_t,uint32_t,size_t,edge_annotation_t<W>)>;
     template <typename W>
@@ -138,7 +144,7 @@ namespace pdaaal::internal {
             if(_popped[state]) return;
             for (auto pre_state : _pda_states[state]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                auto lb = first_rule_to(rules, state);
                 while (lb != rules.end() && lb->first._to == state) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -255,7 +261,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = first_rule_to(rules, t._from);
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -782,7 +788,7 @@ namespace pdaaal::internal {
                 _added_pop[state] = true;
                 for (auto pre_state : _pda_states[state]._pre_states) {
                     const auto &rules = _pda_states[pre_state]._rules;
-                    auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                    auto lb = first_rule_to(rules, state);
                     while (lb != rules.end() && lb->first._to == state) {
                         const auto& [rule, labels] = *lb;
                         size_t rule_id = lb - rules.begin();
@@ -834,7 +840,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return true; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto &rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = first_rule_to(rules, t._from);
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto &[rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
-- 
2.43.0


From 63f85b5763011c437816b8ca636b0a779e0bf389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:14 +0000
Subject: [PATCH 10/44] fix: saturate weight addition instead of overflowing

Weights can double in every round of the fixed-point computations, so an infinite
(longest) weight wrapped around to an arbitrary finite one, and following its trace did
not terminate.
---
 src/include/pdaaal/Weight.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 668dfd6..c722e6c 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -136,6 +136,14 @@ namespace pdaaal {
                 if constexpr (bottom_val != 0) {
                     if (lhs == bottom_val || rhs == bottom_val) return bottom_val;
                 }
+                if constexpr (std::is_integral_v<type>) { // Saturate instead of overflowing (or hitting the special value max_val).
+                    constexpr type highest = maximize ? bottom_val : max_val - 1;
+                    if (rhs > 0 && lhs > highest - rhs) return highest;
+                    if constexpr (is_signed) {
+                        constexpr type lowest = maximize ? max_val + 1 : bottom_val;
+                        if (rhs < 0 && lhs < lowest - rhs) return lowest;
+                    }
+                }
                 return lhs + rhs;
             };
         };
-- 
2.43.0


From 09449e3490be4d7ea0f098a9e5350d2dbd3ca937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:14 +0000
Subject: [PATCH 11/44] fix: make max and bottom absorbing in addition of
 vector weights

Like for the other weight types. Otherwise an infinite weight is not recognized as such
after adding a vector weight to it.
---
 src/include/pdaaal/Weight.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index c722e6c..aaad108 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -197,6 +197,10 @@ namespace pdaaal {
                 }
             }
             static constexpr type add(const type& lhs, const type& rhs) {
+                if (lhs == max() || rhs == max()) return max();
+                if constexpr (maximize || is_signed) { // Otherwise bottom is zero.
+                    if (lhs == bottom() || rhs == bottom()) return bottom();
+                }
                 const auto& [small, large] = std::minmax(lhs, rhs, [](const type& l, const type& r){ return l.size() < r.size(); });
                 std::vector<Inner> result = large;
                 std::transform(small.begin(), small.end(), large.begin(),
-- 
2.43.0


From d759019895768a3ee10994ed0165e2cabe04dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:02 +0000
Subject: [PATCH 12/44] fix: comparison of vector weights of different length

The iterator of the shorter vector was advanced past its end.
---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index aaad108..e6042cf 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -186,7 +186,7 @@ namespace pdaaal {
                     auto l1 = lhs.end(), l2 = rhs.end();
                     bool exhaust1 = (f1 == l1);
                     bool exhaust2 = (f2 == l2);
-                    for (; !exhaust1 || !exhaust2; exhaust1 = (++f1 == l1), exhaust2 = (++f2 == l2)) {
+                    for (; !exhaust1 || !exhaust2; exhaust1 = exhaust1 || (++f1 == l1), exhaust2 = exhaust2 || (++f2 == l2)) {
                         auto v1 = exhaust1 ? weight<Inner>::zero() : *f1; // Missing elements are implicitly zero.
                         auto v2 = exhaust2 ? weight<Inner>::zero() : *f2;
                         if (weight_impl<Inner, maximize>::less(v1, v2)) return true;
-- 
2.43.0


From 0490e0b3b431d80f027e1125776abfba6e7d5d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:08 +0000
Subject: [PATCH 13/44] fix: pre_star_accepts_no_ET could not be instantiated

---
 src/include/pdaaal/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 6a25cba..0c16b67 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -252,7 +252,7 @@ namespace pdaaal {
         template <typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            pre_star<W,false>(instance.automaton());
+            pre_star<Trace_Type::Any,W,false>(instance.automaton());
             return instance.template initialize_product<false,false>();
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W>
-- 
2.43.0


From fd4bfca49ae670909838d40db2b58bd34d83cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:56 +0000
Subject: [PATCH 14/44] fix: intersect_edge_labels with several edges to the
 same state

The labels of an edge were appended to those of the edges before it, which
gave an unsorted range to set_union, and so duplicated or unsorted labels.
---
 src/include/pdaaal/NFA.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 3544662..ad20498 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -270,6 +270,7 @@ namespace pdaaal {
                     result.reserve(labels.size());
                     temp_union.reserve(labels.size());
                     temp.reserve(labels.size());
+                    temp.clear();
                     if (e._negated) {
                         std::set_difference(labels.begin(), labels.end(), e._symbols.begin(), e._symbols.end(), std::back_inserter(temp));
                     } else {
-- 
2.43.0


From fcbbcbd1647f6aaa4bf90fbfd56cbfebfd31ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:56 +0000
Subject: [PATCH 15/44] fix: copy-assignment of an NFA replaces the old content

The states of the other NFA were appended to the existing ones, whose links
were set to null, and self-assignment invalidated the range it iterates.
---
 src/include/pdaaal/NFA.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index ad20498..8ed1120 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -292,6 +292,10 @@ namespace pdaaal {
 
         
         NFA& operator=(const NFA& other) {
+            if (this == &other) return *this;
+            _states.clear();
+            _initial.clear();
+            _accepting.clear();
             std::unordered_map<state_t*, state_t*> indir;
             for(auto& s : other._states) {
                 _states.emplace_back(std::make_unique<state_t>(*s));
-- 
2.43.0


From 87716d445a91f1cdec4f022d1284fb824171ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:56 +0000
Subject: [PATCH 16/44] fix: option and star of an NFA whose initial states
 have incoming edges

The initial states were made accepting, which also accepts every word that
leads back to an initial state: (a* b)? and (a* b)* accepted 'a'. The option
of an NFA without states did not accept the empty word.
---
 src/include/pdaaal/NFA.h | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 8ed1120..664017a 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -335,14 +335,8 @@ namespace pdaaal {
         }
         
         void question_extend() {
-            for(auto s : _initial) {
-                if(!s->_accepting) {
-                    s->_accepting = true;
-                    _accepting.push_back(s);
-                }
-            }
+            question_extend(has_edge_to_initial());
         }
-        
         void plus_extend() {
             for(auto s : _accepting) {
                 for(auto si : _initial) {
@@ -361,8 +355,9 @@ namespace pdaaal {
         }
 
         void star_extend() {
+            auto fresh_initial = has_edge_to_initial(); // The edges added by plus_extend come from accepting states, so they do no harm.
             plus_extend();
-            question_extend();
+            question_extend(fresh_initial);
         }
 
         void and_extend(NFA&& other) {
@@ -433,6 +428,27 @@ namespace pdaaal {
         const std::vector<std::unique_ptr<state_t>>& states() { return _states; }
         
     private:
+        [[nodiscard]] bool has_edge_to_initial() const {
+            return std::any_of(_initial.begin(), _initial.end(), [](const state_t* s){ return !s->_backedges.empty(); });
+        }
+        void question_extend(bool fresh_initial) {
+            if (fresh_initial || _initial.empty()) {
+                // Making the initial states accepting would also accept the words that lead back to them.
+                _states.emplace_back(std::make_unique<state_t>(false));
+                auto initial = _states.back().get();
+                for(auto& i : _initial) {
+                    initial->add_epsilon_edge(i);
+                }
+                _initial = {initial};
+            }
+            for(auto s : _initial) {
+                if(!s->_accepting) {
+                    s->_accepting = true;
+                    _accepting.push_back(s);
+                }
+            }
+        }
+
         const static std::vector<state_t*> empty;
         std::vector<std::unique_ptr<state_t>> _states;
         std::vector<state_t*> _initial;
-- 
2.43.0


From 513df032ed8f3fcf7ea2c8fb4afabbf87951194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:56 +0000
Subject: [PATCH 17/44] fix: order of the labels in rules and in NFA edges

add_rule with a list of labels, and the P-automaton of an NFA with negated
label sets, need the ids of the labels in increasing order, but took them in the
order given (respectively the order of the labels), which is another one as soon
as labels are added incrementally.
---
 src/include/pdaaal/PAutomaton.h |  2 +-
 src/include/pdaaal/PDA.h        | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/PAutomaton.h b/src/include/pdaaal/PAutomaton.h
index f87dc8a..1074e59 100644
--- a/src/include/pdaaal/PAutomaton.h
+++ b/src/include/pdaaal/PAutomaton.h
@@ -52,7 +52,7 @@ namespace pdaaal {
         // Construct a PAutomaton that accepts a configuration <p,w> iff states contains p and nfa accepts w.
         PAutomaton(const pda_t& pda, const NFA<label_t>& nfa, const std::vector<size_t>& states)
         : parent_t(static_cast<const internal_pda_t&>(pda), states, nfa.empty_accept()), _pda(pda) {
-            this->template construct<label_t>(nfa, states, [&pda](const auto& e){ return pda.encode_pre(e._symbols); });
+            this->template construct<label_t>(nfa, states, [&pda](const auto& e){ return pda.encode_label_set(e._symbols); });
         }
         // Same, but where the NFA contains the symbols mapped to ids already.
         PAutomaton(const pda_t& pda, const NFA<uint32_t>& nfa, const std::vector<size_t>& states)
diff --git a/src/include/pdaaal/PDA.h b/src/include/pdaaal/PDA.h
index bcf8ed5..a249814 100644
--- a/src/include/pdaaal/PDA.h
+++ b/src/include/pdaaal/PDA.h
@@ -181,6 +181,13 @@ namespace pdaaal {
             }
             return tpre;
         }
+        // The ids of a set of labels, in increasing order. (The order of the labels need not be the order of their ids.)
+        std::vector<uint32_t> encode_label_set(const std::vector<label_t>& labels) const {
+            auto ids = encode_pre(labels);
+            std::sort(ids.begin(), ids.end());
+            ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
+            return ids;
+        }
 
         // Enable incremental construction of label (and state) set.
         std::pair<bool,size_t> exists_label(const label_t& label) const {
@@ -253,12 +260,12 @@ namespace pdaaal {
 
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels) {
-            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_label_set(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels, typename WT::type weight = WT::zero()) {
-            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_label_set(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
-- 
2.43.0


From dd22e82189fd42230a9d36d07f02c0a47595147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:07 +0000
Subject: [PATCH 18/44] fix: report an error for a regular expression with a
 missing operand of |

The | was taken back by the grammar, but not by the builder, which then reduced
an operator without operands.
---
 src/include/pdaaal/parsing/NfaParserGrammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/parsing/NfaParserGrammar.h b/src/include/pdaaal/parsing/NfaParserGrammar.h
index bdec27f..b606df8 100644
--- a/src/include/pdaaal/parsing/NfaParserGrammar.h
+++ b/src/include/pdaaal/parsing/NfaParserGrammar.h
@@ -55,7 +55,7 @@ namespace pdaaal {
     template<typename L, typename C>
     struct seq_expr : pegtl::seq<unary_expr<L, C>, pegtl::star<pegtl::seq<pegtl::star<ignored<C>>,unary_expr<L, C>>>> {};
     template<typename L, typename C>
-    struct nfa_expr : pegtl::list<seq_expr<L, C>, or_symbol, ignored < C>> {};
+    struct nfa_expr : pegtl::list_must<seq_expr<L, C>, or_symbol, ignored < C>> {};
     template<typename L, typename C>
     struct nfa_expr_or_empty : pegtl::opt<nfa_expr<L,C>> {};
 
-- 
2.43.0


From 1575ce0a66c1d91fe2a29e6c59d0265406dd0d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:07 +0000
Subject: [PATCH 19/44] fix: report an error for a quoted state that is not in
 the PDA

It was ignored, unlike a state that is not quoted.
---
 src/pdaaal-bin/parsing/PAutomatonParser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonParser.h b/src/pdaaal-bin/parsing/PAutomatonParser.h
index 624d53c..9f2f1bc 100644
--- a/src/pdaaal-bin/parsing/PAutomatonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonParser.h
@@ -84,7 +84,9 @@ namespace pdaaal::parsing {
             return found;
         }
         void accept_string(const std::string& s) {
-            add_state(s);
+            if (!add_state(s)) {
+                throw std::runtime_error("state \"" + s + "\" is not found in the PDA.");
+            }
         }
         [[nodiscard]] const std::function<uint32_t(const std::string&)>& get_label_map() const {
             return _label_mapping;
-- 
2.43.0


From 7ca47ed0dcbe98af0ba55b4498a5304ccca2fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:31 +0000
Subject: [PATCH 20/44] fix: evaluate linear weight functions in their own
 weight type

---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index e6042cf..a680f7b 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -234,7 +234,7 @@ namespace pdaaal {
             if (_function) {
                 return _function.value()(args...);
             }
-            return std::accumulate(_functions.begin(), _functions.end(), 0,
+            return std::accumulate(_functions.begin(), _functions.end(), static_cast<W>(0),
                     [&args...](const W& lhs, const std::pair<W, linear_weight_function<W, Args...>>& rhs) -> W {
                 return lhs + (rhs.first * rhs.second(args...));
             });
-- 
2.43.0


From 032e96376aab769dd5a5f8caec9b330ca49e0fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:37 +0000
Subject: [PATCH 21/44] fix: insert_or_assign of tuple-sets could not be
 instantiated

---
 src/include/pdaaal/utils/fut_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/fut_set.h b/src/include/pdaaal/utils/fut_set.h
index 37e2782..5000991 100644
--- a/src/include/pdaaal/utils/fut_set.h
+++ b/src/include/pdaaal/utils/fut_set.h
@@ -150,7 +150,7 @@ namespace pdaaal::fut {
 
             template <typename... Args>
             auto insert_or_assign(Args &&... args) { // In set_containers insert_or_assign is just emplace. Provide it here, to have consistent interface.
-                return emplace(std::forward<Args>(args)...);
+                return this->emplace(std::forward<Args>(args)...);
             }
         };
 
-- 
2.43.0


From 23184e81d77d7fbffe073d1d87e06d39ffd3bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:37 +0000
Subject: [PATCH 22/44] fix: priority_set returned an element again if it was
 added after being popped

---
 src/include/pdaaal/utils/more_algorithms.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/utils/more_algorithms.h b/src/include/pdaaal/utils/more_algorithms.h
index 53eeebf..560c59b 100644
--- a/src/include/pdaaal/utils/more_algorithms.h
+++ b/src/include/pdaaal/utils/more_algorithms.h
@@ -101,11 +101,15 @@ namespace pdaaal {
     public:
         template<typename... Args>
         void emplace(const Weight& weight, Args... args) {
-            _queue.emplace(weight, Elem(std::forward<Args>(args)...));
+            Elem elem(std::forward<Args>(args)...);
+            if (_seen.contains(elem)) return; // Never return an element twice.
+            _queue.emplace(weight, std::move(elem));
         }
         template<typename... Args>
         void emplace(Weight&& weight, Args... args) {
-            _queue.emplace(std::move(weight), Elem(std::forward<Args>(args)...));
+            Elem elem(std::forward<Args>(args)...);
+            if (_seen.contains(elem)) return;
+            _queue.emplace(std::move(weight), std::move(elem));
         }
         void pop() {
             assert(!_seen.contains(_queue.top().second)); // This should be the class invariant.
-- 
2.43.0


From f6850eb4333c223a4eb7e22dcb639abe86ecfae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:54 +0000
Subject: [PATCH 23/44] fix: reduction keeps a terminal state that has no rules
 of its own

---
 src/include/pdaaal/internal/Reducer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/Reducer.h b/src/include/pdaaal/internal/Reducer.h
index 662fcfb..9f56308 100644
--- a/src/include/pdaaal/internal/Reducer.h
+++ b/src/include/pdaaal/internal/Reducer.h
@@ -152,7 +152,7 @@ namespace pdaaal::internal {
                     }
                 }
                 state._rules.resize(br);
-                if (state._rules.empty()) {
+                if (state._rules.empty() && i != terminal_id) {
                     pda.clear_state(i);
                 }
             }
-- 
2.43.0


From 65e1d093b08e70a500c1d207cd6cd79da0af0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:54 +0000
Subject: [PATCH 24/44] fix: factories register initial and accepting states
 that no rule mentions

---
 src/include/pdaaal/PDAFactory.h   | 3 +++
 src/include/pdaaal/internal/PDA.h | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/PDAFactory.h b/src/include/pdaaal/PDAFactory.h
index bb13f7a..150685a 100644
--- a/src/include/pdaaal/PDAFactory.h
+++ b/src/include/pdaaal/PDAFactory.h
@@ -57,6 +57,9 @@ namespace pdaaal {
         // NFAs must be already compiled before passing them to this function.
         solver_instance_t compile(const NFA<label_t>& initial_headers, const NFA<label_t>& final_headers) {
             build_pda();
+            // States without any rules must also exist in the PDA.
+            for (size_t state : initial()) _temp_pda.add_state(state);
+            for (size_t state : accepting()) _temp_pda.add_state(state);
             return solver_instance_t{pda_t{std::move(_temp_pda)}, initial_headers, initial(), final_headers, accepting()};
         }
     protected:
diff --git a/src/include/pdaaal/internal/PDA.h b/src/include/pdaaal/internal/PDA.h
index 1f0f8c3..c201c66 100644
--- a/src/include/pdaaal/internal/PDA.h
+++ b/src/include/pdaaal/internal/PDA.h
@@ -287,14 +287,14 @@ namespace pdaaal::internal {
             add_untyped_rule_impl(rule._from, rule.to_impl_rule(), true, std::vector<uint32_t>());
         }
 
-    protected:
-        // Derived classes may want to add empty states.
+        // Adds empty states, e.g. states without any rules.
         void add_state(size_t s) {
             if (s >= _states.size()) {
                 _states.resize(s + 1);
             }
         }
 
+    protected:
         // Handle both weighted and unweighted rules appropriately.
         template <typename... Args>
         void add_untyped_rule(Args&&... args) {
-- 
2.43.0


From b76d6abe607e611e7c6be7df3314688b668b4afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:54 +0000
Subject: [PATCH 25/44] fix: abstraction of a negated label set excludes the
 classes it covers, not the ones it splits

---
 src/include/pdaaal/cegar/AbstractionPDA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/cegar/AbstractionPDA.h b/src/include/pdaaal/cegar/AbstractionPDA.h
index 5b9bd18..87c106b 100644
--- a/src/include/pdaaal/cegar/AbstractionPDA.h
+++ b/src/include/pdaaal/cegar/AbstractionPDA.h
@@ -65,7 +65,7 @@ namespace pdaaal {
                 abstract_labels.erase(std::remove_if(abstract_labels.begin(), abstract_labels.end(), [this, &labels](const auto& abstract_label){
                     auto concrete = _label_abstraction.get_concrete_values(abstract_label);
                     std::sort(concrete.begin(), concrete.end());
-                    return std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
+                    return !std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
                 }), abstract_labels.end());
             }
             return std::vector<uint32_t>(abstract_labels.begin(), abstract_labels.end()); // TODO: This is not optimal. Label type in PDA should be size_t instead of uint32_t. This is a change many places...
-- 
2.43.0


From 2677027f51235e5aaa8b21b516896dfd558a215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:43 +0000
Subject: [PATCH 26/44] fix: print the empty sets of states of a P-automaton

The parser requires the keys, also when the sets are empty.
---
 src/include/pdaaal/PAutomaton.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/PAutomaton.h b/src/include/pdaaal/PAutomaton.h
index 1074e59..66f6ea4 100644
--- a/src/include/pdaaal/PAutomaton.h
+++ b/src/include/pdaaal/PAutomaton.h
@@ -139,6 +139,10 @@ namespace pdaaal {
     void to_json_impl(json& j, const PAutomaton<label_t,W,state_t,skip_state_mapping,trace_info_type>& automaton) {
         j = json::object();
         size_t num_pda_states = automaton.pda().states().size();
+        if constexpr(with_initial) {
+            j["initial"] = json::array();
+        }
+        j["accepting"] = json::array();
         json j_edges = json::array();
         for (const auto& state : automaton.states()) {
             json j_from;
-- 
2.43.0


From f7a4c06cd9e6a3a5be4fe180643faa8c1af64b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:43 +0000
Subject: [PATCH 27/44] fix: keep numbered states without rules when parsing a
 PDA

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 80985c6..17ead64 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -326,6 +326,9 @@ namespace pdaaal::parsing {
             }
             switch (current_context_type()) {
                 case context_type::state_array:
+                    if constexpr (!use_state_names) {
+                        build_pda.insert_state(current_from_state); // Also when there are no rules for this state.
+                    }
                     push_context(state_context);
                     return true;
                 case context_type::rule_array:
-- 
2.43.0


From aefdcf084a8bbb4831f5e166a5d2865e8bba4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:43 +0000
Subject: [PATCH 28/44] fix: ignore additional properties whatever their value
 when parsing a PDA

Arrays and objects with several elements were rejected.
---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 17ead64..19f9297 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -165,6 +165,7 @@ namespace pdaaal::parsing {
         static constexpr bool expect_weight = W::is_weight;
 
         static constexpr context_t unknown_context = context_object<context_type::unknown, 0>();
+        static constexpr context_t unknown_array = context_array<context_type::unknown>();
         static constexpr context_t initial_context = context_object<context_type::initial, 1>();
         static constexpr context_t pda_context = context_object<context_type::pda, 1>();
         static constexpr context_t state_array = context_array<context_type::state_array>();
@@ -421,6 +422,7 @@ namespace pdaaal::parsing {
                     }
                     break;
                 case context_type::unknown:
+                    last_key = keys::unknown;
                     break;
                 default:
                     return error_unexpected_key(key);
@@ -454,7 +456,7 @@ namespace pdaaal::parsing {
                     return false; // Stop using this SAXHandler.
                 }
             }
-            return element_done();
+            return value_done();
         }
         bool start_array(std::size_t /*unused*/ = std::size_t(-1)) {
             if (no_context()) {
@@ -475,7 +477,7 @@ namespace pdaaal::parsing {
                     push_context(rule_array);
                     break;
                 case keys::unknown:
-                    push_context(unknown_context);
+                    push_context(unknown_array);
                     break;
                 case keys::weight:
                     if constexpr (expect_weight && W::is_vector) {
@@ -493,6 +495,14 @@ namespace pdaaal::parsing {
                 return false;
             }
             pop_context();
+            return value_done();
+        }
+
+    private:
+        bool value_done() {
+            if (!no_context() && current_context_type() == context_type::unknown) {
+                last_key = keys::unknown; // What follows in an array is still unknown.
+            }
             return element_done();
         }
     };
-- 
2.43.0


From f2ea54174c3e116aea7ee2aa43e34f829681e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:43 +0000
Subject: [PATCH 29/44] fix: reject nested arrays of states, rules and weights
 when parsing a PDA

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 19f9297..f8c6d7c 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -463,6 +463,9 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
+            if (current_context().is_array() && current_context_type() != context_type::unknown) {
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::states:
                     if constexpr (use_state_names) {
-- 
2.43.0


From d8eb56d6ed9379a5e0302327814b2f1570257796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:43 +0000
Subject: [PATCH 30/44] fix: reject a number as weight when weights are vectors

The rule was added without its weight.
---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index f8c6d7c..505cd8b 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -266,8 +266,10 @@ namespace pdaaal::parsing {
                             return false;
                         }
                         current_rule._weight = value;
+                        break;
+                    } else {
+                        return error_unexpected("unsigned", value);
                     }
-                    break;
                 case keys::unknown:
                     break;
                 default:
-- 
2.43.0


From 767b09e7fe1ffa328bf66a77a4d7f75cc2132411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:43 +0000
Subject: [PATCH 31/44] fix: report an error for a pop operation with a label

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 505cd8b..c63cea6 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -294,7 +294,9 @@ namespace pdaaal::parsing {
                         return false;
                     }
                 case keys::pop:
-                    assert(value.empty()); // TODO: Should this be error?
+                    if (!value.empty()) {
+                        return error_unexpected("string", value, "A pop operation has no label.");
+                    }
                     current_rule._operation = op_t::POP;
                     current_rule._op_label = std::numeric_limits<uint32_t>::max();
                     break;
-- 
2.43.0


From 7e0c3e41fa229e77329648baae917f61e85f4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:43 +0000
Subject: [PATCH 32/44] fix: report an error for a number where an object is
 expected

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 3 +++
 src/pdaaal-bin/parsing/PdaJsonParser.h        | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 14eb04f..0515c84 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -199,6 +199,9 @@ namespace pdaaal::parsing {
         bool boolean(bool value) { return error_unexpected("boolean", value); }
         bool number_integer(number_integer_t value) { return error_unexpected("integer", value); }
         bool number_unsigned(number_unsigned_t value) {
+            if (no_context()) {
+                return error_unexpected("unsigned", value);
+            }
             switch (current_context_type()) {
                 case context_type::initial_array:
                     if constexpr(std::is_same_v<pda_state_t,size_t>) {
diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index c63cea6..08fe53c 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -676,7 +676,7 @@ namespace pdaaal::parsing {
             return error_unexpected("integer", value);
         }
         bool number_unsigned(number_unsigned_t value) {
-            if (current_context_type() == context_type::weight_array) {
+            if (!no_context() && current_context_type() == context_type::weight_array) {
                 if (!handle_index<context_type::weight_array,1>(value)) return false;
                 weight_array_size.emplace(value);
                 return element_done();
-- 
2.43.0


From 5fb1478687e377b79a8af806fc438df7c4dee4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:43 +0000
Subject: [PATCH 33/44] fix: accept the number of components in a weight type

The index in the array was incremented twice per element.
---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 08fe53c..1b7f255 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -591,7 +591,6 @@ namespace pdaaal::parsing {
                 print_value(s, value) << "at index " << current_context().get_index() << " in " << type << " was expected to be at index " << index << "." << std::endl;
                 return false;
             }
-            current_context().increment_index();
             return true;
         }
 
-- 
2.43.0


From 9772b9b623056e48c2054b21356c96e59dd39db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:43 +0000
Subject: [PATCH 34/44] fix: reject nested arrays when parsing a P-automaton

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 0515c84..96bdb2e 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -357,6 +357,9 @@ namespace pdaaal::parsing {
                 current_label.clear();
                 return true;
             }
+            if (current_context().is_array()) {
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::initial:
                     push_context(initial_array);
-- 
2.43.0


From 781ddb62ab3bb429621ed0737743e0e489c3d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:43 +0000
Subject: [PATCH 35/44] fix: report an error for an incomplete edge of a
 P-automaton

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 96bdb2e..6c1fcf4 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -383,8 +383,10 @@ namespace pdaaal::parsing {
             }
             switch (current_context_type()) {
                 case context_type::edge_context:
-                    assert(current_from_state != std::numeric_limits<size_t>::max());
-                    assert(current_to_state != std::numeric_limits<size_t>::max());
+                    if (current_context().get_index() != 3) {
+                        errors() << "error: An edge should contain exactly three elements." << std::endl;
+                        return false;
+                    }
                     if (current_label.empty()) {
                         automaton.add_epsilon_edge(current_from_state, current_to_state);
                     } else {
-- 
2.43.0


From 3ff65381a914e9332b2395de5b2efddbf5669f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:43 +0000
Subject: [PATCH 36/44] fix: reject a nested instance array

---
 src/pdaaal-bin/parsing/SolverInstanceJsonParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h b/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h
index 58aab77..3a60826 100644
--- a/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h
+++ b/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h
@@ -213,7 +213,7 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
-            if (last_key == keys::instance) {
+            if (current_context_type() == context_type::initial && last_key == keys::instance) {
                 push_context(instance_context);
                 return false; // Trigger callback.
             }
-- 
2.43.0


From a876c6bd7c945a8dc469feecc3914d4e803ad8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:10 +0000
Subject: [PATCH 37/44] fix: report an error for an unknown weight type

The weights were expected to be absent instead.
---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 1b7f255..dc949f3 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -691,10 +691,16 @@ namespace pdaaal::parsing {
             }
             if (current_context_type() == context_type::weight_array) {
                 if (!handle_index<context_type::weight_array,0>(value)) return false;
+                if (value != "uint" && value != "int") {
+                    return error_unexpected("string", value, "Expected \"uint\" or \"int\".");
+                }
                 weight_str = value;
                 return element_done();
             }
             if (last_key == keys::weight_type) {
+                if (value != "none" && value != "uint" && value != "int") {
+                    return error_unexpected("string", value, "Expected \"none\", \"uint\" or \"int\".");
+                }
                 weight_str = value;
                 return element_done();
             }
@@ -742,7 +748,7 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
-            if (last_key == keys::weight_type) {
+            if (current_context_type() == context_type::initial && last_key == keys::weight_type) {
                 push_context(weight_array_context);
                 use_weight_array = true;
                 return true;
@@ -754,6 +760,9 @@ namespace pdaaal::parsing {
                 errors() << "error: Unexpected end of array." << std::endl;
                 return false;
             }
+            if (current_context().get_index() == 0) {
+                return error_unexpected("end of array");
+            }
             pop_context();
             return element_done();
         }
-- 
2.43.0


From 9be75ccaafe5a4b1d437f187b1a90b6319ba4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:10 +0000
Subject: [PATCH 38/44] fix: allow both numbered and named non-initial states
 in a P-automaton

Two of them could end up as the same state.
---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 6c1fcf4..8baa447 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -129,6 +129,7 @@ namespace pdaaal::parsing {
         automaton_t automaton;
 
         std::unordered_map<size_t,size_t> extra_state_map;
+        std::unordered_map<std::string,size_t> extra_name_map;
 
         std::string current_label;
         size_t current_from_state = 0;
@@ -170,14 +171,15 @@ namespace pdaaal::parsing {
         }
         std::optional<size_t> string_state(const string_t& state) {
             if constexpr(std::is_same_v<pda_state_t,std::string>) {
-                auto [exists, id] = automaton.exists_state(state);
-                if (!exists) {
-                    id = automaton.add_state(false, false); // accepting is set later.
-#ifndef NDEBUG
-                    auto id2 =
-#endif
-                            automaton.insert_state(state);
-                    assert(id == id2);
+                if (auto [exists, id] = pda.exists_state(state); exists) return id;
+                auto it = extra_name_map.find(state);
+                if (it != extra_name_map.end()) {
+                    return it->second;
+                }
+                auto id = automaton.add_state(false, false); // accepting is set later.
+                extra_name_map.emplace(state, id);
+                if (id == pda.states().size() + extra_name_map.size() - 1) { // The automaton can only record the name, if all non-initial states so far have names.
+                    automaton.insert_state(state);
                 }
                 return id;
             } else {
-- 
2.43.0


From 59db41cdda39ffcde74c41699c309f5a2fc171ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:11 +0000
Subject: [PATCH 39/44] fix: show infinite weights of epsilon edges in drawings
 of P-automata

---
 src/include/pdaaal/internal/PAutomaton.h | 61 ++++++++++++------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 64c877c..5be4667 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -315,31 +315,7 @@ namespace pdaaal::internal {
                                     out << ", ";
                                 first = false;
                                 label_printer(out, l);
-                                bool special_weight = false;
-                                if (tw.second == solver_weight<W,trace_type>::max()) {
-                                    out << "(-)";
-                                    special_weight = true;
-                                } else {
-                                    if constexpr(trace_type == Trace_Type::Longest) {
-                                        if (tw.second == solver_weight<W,trace_type>::bottom()) {
-                                            out << "(∞)";
-                                            special_weight = true;
-                                        }
-                                    }
-                                    if constexpr(W::is_signed && (trace_type == Trace_Type::Shortest || trace_type == Trace_Type::ShortestFixedPoint)) {
-                                        if (tw.second == solver_weight<W,trace_type>::bottom()) {
-                                            out << "(-∞)";
-                                            special_weight = true;
-                                        }
-                                    }
-                                }
-                                if (!special_weight) {
-                                    if constexpr(W::is_vector) {
-                                        out << "(" << vector_printer() << tw.second << ")";
-                                    } else {
-                                        out << "(" << tw.second << ")";
-                                    }
-                                }
+                                print_weight<trace_type>(out, tw.second);
                             }
                             out << "\\]";
                         }
@@ -363,11 +339,7 @@ namespace pdaaal::internal {
                         if (labels.size() > 1) out << " ";
                         out << "𝜀";
                         if constexpr(is_weighted<W>) {
-                            if constexpr(W::is_vector) {
-                                out << "(" << vector_printer() << labels.find(epsilon)->second.second << ")";
-                            } else {
-                                out << "(" << labels.find(epsilon)->second.second << ")";
-                            }
+                            print_weight<trace_type>(out, labels.find(epsilon)->second.second);
                         }
                     }
                     out << "\"];\n";
@@ -900,6 +872,35 @@ namespace pdaaal::internal {
             }
         }
     private:
+        template<Trace_Type trace_type, typename weight_t>
+        static void print_weight(std::ostream& out, const weight_t& w) {
+            bool special_weight = false;
+            if (w == solver_weight<W,trace_type>::max()) {
+                out << "(-)";
+                special_weight = true;
+            } else {
+                if constexpr(trace_type == Trace_Type::Longest) {
+                    if (w == solver_weight<W,trace_type>::bottom()) {
+                        out << "(∞)";
+                        special_weight = true;
+                    }
+                }
+                if constexpr(W::is_signed && (trace_type == Trace_Type::Shortest || trace_type == Trace_Type::ShortestFixedPoint)) {
+                    if (w == solver_weight<W,trace_type>::bottom()) {
+                        out << "(-∞)";
+                        special_weight = true;
+                    }
+                }
+            }
+            if (!special_weight) {
+                if constexpr(W::is_vector) {
+                    out << "(" << vector_printer() << w << ")";
+                } else {
+                    out << "(" << w << ")";
+                }
+            }
+        }
+
         std::vector<std::unique_ptr<state_t>> _states;
         std::vector<state_t *> _initial;
         std::vector<state_t *> _accepting;
-- 
2.43.0


From 9a1f9e3fe1ca6244d6aedddb4fd0010c88ff56bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:23 +0000
Subject: [PATCH 40/44] fix: escape the keys of the JSON output stream

---
 src/pdaaal-bin/utils/json_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/utils/json_stream.h b/src/pdaaal-bin/utils/json_stream.h
index 7bf3db6..d60050e 100644
--- a/src/pdaaal-bin/utils/json_stream.h
+++ b/src/pdaaal-bin/utils/json_stream.h
@@ -93,7 +93,7 @@ private:
         } else {
             _out << ',' << std::endl;
         }
-        return indent() << "\"" << key << "\" : ";
+        return indent() << json(key).dump() << " : ";
     }
 
     bool _started = false;
-- 
2.43.0


From 59b4ed886d4d5defabd9b6e967d99565284370ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:53 +0000
Subject: [PATCH 41/44] fix: weighted rules of a rule trace lacked from(), so
 rule traces of a weighted PDA did not compile

---
 src/include/pdaaal/internal/PDA.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/internal/PDA.h b/src/include/pdaaal/internal/PDA.h
index c201c66..a5abc61 100644
--- a/src/include/pdaaal/internal/PDA.h
+++ b/src/include/pdaaal/internal/PDA.h
@@ -199,6 +199,10 @@ namespace pdaaal {
         }
         bool operator!=(const user_rule_t<W>& other) const { return !(*this == other); }
 
+        [[nodiscard]] size_t from() const {
+            return _from;
+        }
+
         internal::pda_rule_t<W> to_impl_rule() const {
             return internal::pda_rule_t<W>{_to, _op, _weight, _op_label};
         }
-- 
2.43.0


From f3588df79d6a6359185e1ae9a94616a8fec1e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:53 +0000
Subject: [PATCH 42/44] fix: a push in a weighted post* rule trace took the
 rule of the shared first edge

---
 src/include/pdaaal/internal/PdaSaturation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 1b072fd..d8162be 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1141,7 +1141,8 @@ namespace pdaaal::internal {
                             break;
                     }
                     assert(from == rule._to);
-                    return rule_t(trace_label._state, trace_label._label, rule);
+                    // For PUSH, the edge into the new state is shared by all rules pushing the same label, so use the rule of the second edge.
+                    return rule_t(trace_label._state, trace_label._label, _automaton.pda().states()[trace_label._state]._rules[trace_label._rule_id].first);
                 }
             }
         }
-- 
2.43.0


From c5cf7d3172785744debfe2b5565d4a9211aa5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:53 +0000
Subject: [PATCH 43/44] fix: shortest rule traces ignored use_dual

---
 src/include/pdaaal/Solver.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 0c16b67..18245bd 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -323,7 +323,11 @@ namespace pdaaal {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto[paths, weight] = instance.template find_path<trace_type, true>();
-                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton()), weight);
+                if constexpr (use_dual) {
+                    return std::make_pair(_get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths), weight);
+                } else {
+                    return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton()), weight);
+                }
             } else if constexpr(use_dual) {
                 auto paths = instance.template find_path<trace_type, true>();
                 return _get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths);
-- 
2.43.0


From 5a0d3d516385592c0af1f0822fdb477e9be03ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:18 +0000
Subject: [PATCH 44/44] fix: saturations keep their early-termination function,
 not a reference to a temporary

---
 src/include/pdaaal/internal/PdaSaturation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index d8162be..7963d75 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -119,7 +119,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 42)
 
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        early_termination_fn2<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_automaton_states;
@@ -343,7 +343,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 48)
 
         p_automaton_t& _automaton;
-        const early_termination_fn<W>& _early_termination;
+        early_termination_fn<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
@@ -513,7 +513,7 @@ namespace pdaaal::internal {
 
     private:
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        early_termination_fn2<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
-- 
2.43.0

