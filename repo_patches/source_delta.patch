From baaa164286aa40a98f5b5e59b08df065051b8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:05 +0000
Subject: [PATCH 01/61] fix: RPFS/RandomWalk potency initialisation
 dereferenced a moved-from result for deadlock and trivial comparisons

---
 src/PetriEngine/PQL/PotencyVisitor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/PQL/PotencyVisitor.cpp b/src/PetriEngine/PQL/PotencyVisitor.cpp
index 4f8cb16..ff08f49 100644
--- a/src/PetriEngine/PQL/PotencyVisitor.cpp
+++ b/src/PetriEngine/PQL/PotencyVisitor.cpp
@@ -206,7 +206,7 @@ namespace PetriEngine { namespace PQL {
         if (!_context.potencyTimeout() && m1.canAnalyze() && m2.canAnalyze())
         {
             if ((m1.isZero() && m2.isZero()) || m1.substrationIsZero(m2))
-                return;
+                RETURN(RetvalPot())
             else
             {
                 int constant = m2.constant() - m1.constant();
@@ -242,7 +242,7 @@ namespace PetriEngine { namespace PQL {
         if (!_context.potencyTimeout() && m1.canAnalyze() && m2.canAnalyze())
         {
             if ((m1.isZero() && m2.isZero()) || m1.substrationIsZero(m2))
-                return;
+                RETURN(RetvalPot())
             else
             {
                 int constant = m2.constant() - m1.constant();
@@ -273,13 +273,13 @@ namespace PetriEngine { namespace PQL {
 
     void PotencyVisitor::_accept(const DeadlockCondition *element)
     {
-        return;
+        RETURN(RetvalPot())
     }
 
     void PotencyVisitor::_accept(const CompareConjunction *element)
     {
         if (_context.potencyTimeout())
-            return;
+            RETURN(RetvalPot())
 
         std::vector<AbstractProgramCollection_ptr> lpsv;
         auto neg = _context.negated() != element->isNegated();
-- 
2.43.0


From c3598a3384d537413c75b391045e35ff47226c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:19 +0000
Subject: [PATCH 02/61] fix: reachability queries over deadlock/true/false
 shared one invariant flag, so EF and AG queries in one run got wrong answers

---
 src/PetriEngine/PQL/PrepareForReachability.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/PrepareForReachability.cpp b/src/PetriEngine/PQL/PrepareForReachability.cpp
index ea60558..1298aea 100644
--- a/src/PetriEngine/PQL/PrepareForReachability.cpp
+++ b/src/PetriEngine/PQL/PrepareForReachability.cpp
@@ -47,8 +47,14 @@ namespace PetriEngine { namespace PQL {
     }
 
     void PrepareForReachabilityVisitor::_accept(const EFCondition *condition) {
-        condition->getCond()->setInvariant(_negated);
-        RETURN(condition->getCond());
+        Condition_ptr cond = condition->getCond();
+        // the constants are shared between queries, but the invariant-flag belongs to a single query
+        if (cond == DeadlockCondition::DEADLOCK)
+            cond = std::make_shared<DeadlockCondition>();
+        else if (cond == BooleanCondition::TRUE_CONSTANT || cond == BooleanCondition::FALSE_CONSTANT)
+            cond = std::make_shared<BooleanCondition>(cond == BooleanCondition::TRUE_CONSTANT);
+        cond->setInvariant(_negated);
+        RETURN(cond);
     }
 
     void PrepareForReachabilityVisitor::_accept(const AXCondition *condition) {
-- 
2.43.0


From d3a23e66fb340a16430824e82916f062398f6644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:25 +0000
Subject: [PATCH 03/61] fix: structural rule B merged several firings of a
 consumer with further inputs into one step

---
 src/PetriEngine/Reducer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index e52c2e9..910124e 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -479,6 +479,11 @@ namespace PetriEngine {
 
                 size_t multiplier = outArc->weight / inArc->weight;
 
+                // several firings of the consumer can only be merged into one step
+                // if the consumer needs nothing but p.
+                if(multiplier != 1 && in.pre.size() != 1)
+                    continue;
+
                 // B4. Do inhibitor check, neither In, out or place can be involved with any inhibitor
                 if(place.inhib || in.inhib || out.inhib)
                     continue;
-- 
2.43.0


From b531dc079e1c54fb6f3377da6bcb54d24e970886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:44 +0000
Subject: [PATCH 04/61] fix: fireability conditions were not marked satisfied,
 so stubborn sets could be empty for negated fireability

---
 src/PetriEngine/PQL/Evaluation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/PQL/Evaluation.cpp b/src/PetriEngine/PQL/Evaluation.cpp
index 014245f..b3467b1 100644
--- a/src/PetriEngine/PQL/Evaluation.cpp
+++ b/src/PetriEngine/PQL/Evaluation.cpp
@@ -457,6 +457,7 @@ namespace PetriEngine { namespace PQL {
 
     void EvaluateAndSetVisitor::_accept(ShallowCondition *element) {
         Visitor::visit(this, element->getCompiled());
+        element->setSatisfied(_return_value);
     }
 
     int64_t evaluate(Expr *element, const EvaluationContext &context) {
-- 
2.43.0


From 6a05828663f7b05e0ede757d2e118d472902d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:44 +0000
Subject: [PATCH 05/61] fix: structural rule C treated an inhibitor arc as a
 consumer that bounds the parallel place

---
 src/PetriEngine/Reducer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 910124e..c8f05d7 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -703,6 +703,12 @@ namespace PetriEngine {
                             const auto &p1Arc = getInArc(p1, tran);
                             const auto &p2Arc = getInArc(p2, tran);
 
+                            if (p1Arc->inhib) {
+                                // an inhibitor arc does not drain p1, so p1 does not bound this consumer of p2
+                                ok = false;
+                                break;
+                            }
+
                             maxDrainRatio = std::max(maxDrainRatio, (double)p2Arc->weight / (double)p1Arc->weight);
                         }
 
-- 
2.43.0


From ef15d222bccde8175d306f287917ef6f4c101540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:59 +0000
Subject: [PATCH 06/61] fix: LTL successor generation never left the stuttering
 step of a net reduced to no places

---
 include/LTL/SuccessorGeneration/ResumingSuccessorGenerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/LTL/SuccessorGeneration/ResumingSuccessorGenerator.h b/include/LTL/SuccessorGeneration/ResumingSuccessorGenerator.h
index 822ee97..259bcae 100644
--- a/include/LTL/SuccessorGeneration/ResumingSuccessorGenerator.h
+++ b/include/LTL/SuccessorGeneration/ResumingSuccessorGenerator.h
@@ -45,7 +45,7 @@ namespace LTL {
             }
 
             [[nodiscard]] bool fresh() const {
-                return _pcounter == NoPCounter && _tcounter == NoTCounter;
+                return _pcounter == NoPCounter && _tcounter == NoTCounter && _buchi_state == NoBuchiState;
             }
 
             static constexpr auto NoPCounter = 0;
-- 
2.43.0


From aecab24690d4984bcb37306cd579e0ae0746e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:14 +0000
Subject: [PATCH 07/61] fix: deadlock below until, globally or negation was
 treated as preserved by token-moving reductions

---
 include/PetriEngine/PQL/PredicateCheckers.h | 20 ++++++++++++++++
 src/PetriEngine/PQL/PredicateCheckers.cpp   | 26 +++++++++++++++++++--
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/include/PetriEngine/PQL/PredicateCheckers.h b/include/PetriEngine/PQL/PredicateCheckers.h
index 1935b10..4ea6e3d 100644
--- a/include/PetriEngine/PQL/PredicateCheckers.h
+++ b/include/PetriEngine/PQL/PredicateCheckers.h
@@ -32,6 +32,26 @@ namespace PetriEngine { namespace PQL {
     class NestedDeadlockVisitor : public AnyVisitor {
     private:
         bool _nested_in_logical_condition = false;
+        // a deadlock is only alone if it is the (un-negated) goal of a finally (or dually, negated below a globally)
+        bool _is_goal = false;
+
+        void acceptFinally(const SimpleQuantifierCondition* condition, bool globally);
+
+        void _accept(const EFCondition* condition) override { acceptFinally(condition, false); }
+
+        void _accept(const AFCondition* condition) override { acceptFinally(condition, false); }
+
+        void _accept(const FCondition* condition) override { acceptFinally(condition, false); }
+
+        void _accept(const EGCondition* condition) override { acceptFinally(condition, true); }
+
+        void _accept(const AGCondition* condition) override { acceptFinally(condition, true); }
+
+        void _accept(const GCondition* condition) override { acceptFinally(condition, true); }
+
+        void _accept(const NotCondition* condition) override;
+
+        void _accept(const UntilCondition* condition) override;
 
         void _accept(const LogicalCondition* condition) override;
 
diff --git a/src/PetriEngine/PQL/PredicateCheckers.cpp b/src/PetriEngine/PQL/PredicateCheckers.cpp
index 6531bad..d69c542 100644
--- a/src/PetriEngine/PQL/PredicateCheckers.cpp
+++ b/src/PetriEngine/PQL/PredicateCheckers.cpp
@@ -36,14 +36,36 @@ namespace PetriEngine { namespace PQL {
     }
 
     void NestedDeadlockVisitor::_accept(const LogicalCondition *condition) {
+        auto old = _nested_in_logical_condition;
         _nested_in_logical_condition = true;
         for (auto& c : condition->getOperands())
             Visitor::visit(this, c);
-        _nested_in_logical_condition = false;
+        _nested_in_logical_condition = old;
+    }
+
+    void NestedDeadlockVisitor::acceptFinally(const SimpleQuantifierCondition *condition, bool globally) {
+        auto old = _is_goal;
+        _is_goal = !globally;
+        Visitor::visit(this, condition->getCond());
+        _is_goal = old;
+    }
+
+    void NestedDeadlockVisitor::_accept(const NotCondition *condition) {
+        _is_goal = !_is_goal;
+        Visitor::visit(this, condition->getCond());
+        _is_goal = !_is_goal;
+    }
+
+    void NestedDeadlockVisitor::_accept(const UntilCondition *condition) {
+        auto old = _nested_in_logical_condition;
+        _nested_in_logical_condition = true;
+        Visitor::visit(this, condition->getCond1());
+        Visitor::visit(this, condition->getCond2());
+        _nested_in_logical_condition = old;
     }
 
     void NestedDeadlockVisitor::_accept(const DeadlockCondition *condition) {
-        if (_nested_in_logical_condition)
+        if (_nested_in_logical_condition || !_is_goal)
             setConditionFound();
     }
 
-- 
2.43.0


From cb2b94c8c14cb73350d08c4cd391995756bfd4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:39 +0000
Subject: [PATCH 08/61] fix: structural rule H merged places across a loop that
 passes through a place of the query

---
 include/PetriEngine/Reducer.h |  2 +-
 src/PetriEngine/Reducer.cpp   | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/PetriEngine/Reducer.h b/include/PetriEngine/Reducer.h
index 9ab38ea..393175c 100644
--- a/include/PetriEngine/Reducer.h
+++ b/include/PetriEngine/Reducer.h
@@ -161,7 +161,7 @@ namespace PetriEngine {
         bool ReducebyRuleF(uint32_t* placeInQuery);
         bool ReducebyRuleFNO(uint32_t* placeInQuery);
         bool ReducebyRuleG(uint32_t* placeInQuery, bool remove_loops, bool remove_consumers);
-        bool ReducebyRuleH(uint32_t* placeInQuery, bool all_ltl);
+        bool ReducebyRuleH(uint32_t* placeInQuery, bool all_reach, bool all_ltl);
         bool ReducebyRuleJ(uint32_t* placeInQuery);
         bool ReducebyRuleK(uint32_t* placeInQuery, bool remove_consumers);
         bool ReducebyRuleL(uint32_t* placeInQuery);
diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index c8f05d7..ec72c15 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -1324,7 +1324,7 @@ namespace PetriEngine {
         return continueReductions;
     }
 
-    bool Reducer::ReducebyRuleH(uint32_t* placeInQuery, bool all_ltl)
+    bool Reducer::ReducebyRuleH(uint32_t* placeInQuery, bool all_reach, bool all_ltl)
     {
         if(reconstructTrace)
             return false; // we don't know where in the loop the tokens are needed
@@ -1361,7 +1361,7 @@ namespace PetriEngine {
             return 1;
         };
 
-        auto removeLoop = [this,placeInQuery,all_ltl](std::vector<uint32_t>& loop) -> bool {
+        auto removeLoop = [this,placeInQuery,all_reach,all_ltl](std::vector<uint32_t>& loop) -> bool {
             size_t i = 0;
             for(; i < loop.size(); ++i)
                 if(loop[i] == loop.back())
@@ -1371,6 +1371,14 @@ namespace PetriEngine {
             if(i == loop.size() - 1)
                 return false;
 
+            if(!all_reach)
+            {
+                // moving a token around the loop must be invisible
+                for(size_t j = i; j < loop.size(); ++j)
+                    if(placeInQuery[parent->_transitions[loop[j]].pre[0].place] > 0)
+                        return false;
+            }
+
             auto p1 = parent->_transitions[loop[i]].pre[0].place;
             bool removed = false;
 
@@ -2864,7 +2872,7 @@ namespace PetriEngine {
                 {
                     while(ReducebyRuleA(context.getQueryPlaceCount())) changed = true;
                     while(ReducebyRuleD(context.getQueryPlaceCount(), all_reach, false)) changed = true;
-                    while(ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                    while(ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                 }
             }
         }
@@ -2901,7 +2909,7 @@ restart:
                 if(!contains_next && !changed)
                 {
                     // Only try RuleH last. It can reduce applicability of other rules.
-                    while (ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                    while (ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                     while (ReducebyRuleS(context.getQueryPlaceCount(), all_reach, remove_loops, all_reach, explosion_limiter)) changed = true;
                     if(all_ltl && !changed) // ruleR is a last resort
                         changed = ReducebyRuleR(context.getQueryPlaceCount(), explosion_limiter);
@@ -2975,7 +2983,7 @@ restart:
                             while(ReducebyRuleG(context.getQueryPlaceCount(), remove_loops, all_reach)) changed = true;
                             break;
                         case 7:
-                            while(ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                            while(ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                             break;
                         case 8:
                             while(ReducebyRuleI(context.getQueryPlaceCount(), all_reach)) changed = true;
-- 
2.43.0


From b20c10dfa41914309cb7c39b83ecf96151128497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:01 +0000
Subject: [PATCH 09/61] fix: structural rule S used a transition reference
 after growing the transition vector

---
 src/PetriEngine/Reducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index ec72c15..dbfaaa8 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2724,7 +2724,8 @@ namespace PetriEngine {
 
                         uint32_t k = 1, w = 1;
                         if (!kIsAlwaysOne[n]) {
-                            w = getInArc(pid, consumer)->weight;
+                            // re-fetch the consumer, adding transitions invalidates references
+                            w = getInArc(pid, getTransition(originalConsumers[n]))->weight;
                             k = getOutArc(producer, pid)->weight / w;
                         }
 
-- 
2.43.0


From 96637b374882c972e8e0cf2337a7728e2874098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:31 +0000
Subject: [PATCH 10/61] fix: structural rule S lost tokens that two consumers
 share after a partial agglomeration

---
 src/PetriEngine/Reducer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index dbfaaa8..55512c6 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2687,12 +2687,17 @@ namespace PetriEngine {
             if (!ok) continue;
             std::vector<uint32_t> originalConsumers = place.consumers;
             std::vector<uint32_t> originalProducers = place.producers;
+            // Tokens left over by a partial agglomeration must stay available to the other consumers,
+            // so at most one consumer that leaves tokens behind can be agglomerated.
+            bool leftovers = false;
             for (uint32_t n = 0; n < originalConsumers.size(); n++)
             {
                 if (hasTimedout())
                     return false;
                 if (!todo[n])
                     continue;
+                if (!kIsAlwaysOne[n] && leftovers)
+                    continue;
 
                 ok = true;
                 Transition &consumer = getTransition(originalConsumers[n]);
@@ -2833,6 +2838,7 @@ namespace PetriEngine {
                             parent->_places[arc.place].addProducer(id);
                     }
                 }
+                leftovers |= !kIsAlwaysOne[n];
                 skipTransition(originalConsumers[n]);
                 --n_added;
                 continueReductions = true;
-- 
2.43.0


From e399795850154a9935846cd9a07711f7aabb2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:43 +0000
Subject: [PATCH 11/61] fix: a common place was cancelled from both sides of a
 comparison of products although it can be zero

---
 src/PetriEngine/PQL/PushNegation.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/PetriEngine/PQL/PushNegation.cpp b/src/PetriEngine/PQL/PushNegation.cpp
index 197a4e0..1ae0820 100644
--- a/src/PetriEngine/PQL/PushNegation.cpp
+++ b/src/PetriEngine/PQL/PushNegation.cpp
@@ -90,14 +90,11 @@ namespace PetriEngine { namespace PQL {
                 if(bi == b->_ids.end() || ai == a->_ids.end()) break;
             }
         };
+        // only valid for sums, a common factor cannot be removed as it may be zero
         if(auto p1 = std::dynamic_pointer_cast<PlusExpr>(_expr1))
             if(auto p2 = std::dynamic_pointer_cast<PlusExpr>(_expr2))
                 remdup(p1, p2);
 
-        if(auto m1 = std::dynamic_pointer_cast<MultiplyExpr>(_expr1))
-            if(auto m2 = std::dynamic_pointer_cast<MultiplyExpr>(_expr2))
-                remdup(m1, m2);
-
         if(auto p1 = std::dynamic_pointer_cast<CommutativeExpr>(_expr1))
             if(auto p2 = std::dynamic_pointer_cast<CommutativeExpr>(_expr2))
                 return p1->_exprs.size() + p1->_ids.size() + p2->_exprs.size() + p2->_ids.size() == 0;
-- 
2.43.0


From 44e19ef3ce4ac8bfcecd116fca35330a78ca45fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:20 +0000
Subject: [PATCH 12/61] fix: a net without places generated no successors
 although it has transitions

---
 include/PetriEngine/Stubborn/StubbornSet.h | 4 +++-
 include/PetriEngine/SuccessorGenerator.h   | 4 +++-
 src/PetriEngine/PetriNet.cpp               | 6 ++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/PetriEngine/Stubborn/StubbornSet.h b/include/PetriEngine/Stubborn/StubbornSet.h
index f74b4ce..c69aa21 100644
--- a/include/PetriEngine/Stubborn/StubbornSet.h
+++ b/include/PetriEngine/Stubborn/StubbornSet.h
@@ -23,6 +23,7 @@
 #include "utils/structures/light_deque.h"
 #include "PetriEngine/PQL/PQL.h"
 
+#include <algorithm>
 #include <memory>
 #include <vector>
 
@@ -243,7 +244,8 @@ namespace PetriEngine {
             _ordering.clear();
             memset(_enabled.get(), 0, _net.numberOfTransitions());
             memset(_stubborn.get(), 0, _net.numberOfTransitions());
-            for (uint32_t p = 0; p < _net.numberOfPlaces(); ++p) {
+            const auto n = std::max<uint32_t>(_net.numberOfPlaces(), 1); // orphans also exist without places
+            for (uint32_t p = 0; p < n; ++p) {
                 // orphans are currently under "place 0" as a special case
                 if (p == 0 || _parent->marking()[p] > 0) {
                     uint32_t t = placeToPtrs()[p];
diff --git a/include/PetriEngine/SuccessorGenerator.h b/include/PetriEngine/SuccessorGenerator.h
index 4e8b934..db3ad55 100644
--- a/include/PetriEngine/SuccessorGenerator.h
+++ b/include/PetriEngine/SuccessorGenerator.h
@@ -16,6 +16,7 @@
 
 #include "PetriNet.h"
 #include "Structures/State.h"
+#include <algorithm>
 #include <memory>
 #include "Stubborn/StubbornSet.h"
 
@@ -85,7 +86,8 @@ protected:
 
     template<typename T>
     bool _next(Structures::State& write, T&& predicate) {
-        for (; _suc_pcounter < _net._nplaces; ++_suc_pcounter) {
+        const auto n = std::max<uint32_t>(_net._nplaces, 1); // orphans also exist without places
+        for (; _suc_pcounter < n; ++_suc_pcounter) {
             // orphans are currently under "place 0" as a special case
             if (_suc_pcounter == 0 || (*_parent).marking()[_suc_pcounter] > 0) {
                 if (_suc_tcounter == std::numeric_limits<uint32_t>::max()) {
diff --git a/src/PetriEngine/PetriNet.cpp b/src/PetriEngine/PetriNet.cpp
index 7d5c5ed..af76177 100644
--- a/src/PetriEngine/PetriNet.cpp
+++ b/src/PetriEngine/PetriNet.cpp
@@ -26,6 +26,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <algorithm>
 
 namespace PetriEngine {
 
@@ -33,13 +34,14 @@ namespace PetriEngine {
     : _ninvariants(invariants), _ntransitions(trans), _nplaces(places),
             _transitions(_ntransitions+1),
             _invariants(_ninvariants),
-            _placeToPtrs(_nplaces+1),
+            // orphan transitions are kept under "place 0", also if there is no place
+            _placeToPtrs(std::max<uint32_t>(_nplaces, 1)+1),
             _controllable(_ntransitions+1, true) {
 
         // to avoid special cases
         _transitions[_ntransitions].inputs = _ninvariants;
         _transitions[_ntransitions].outputs = _ninvariants;
-        _placeToPtrs[_nplaces] = _ntransitions;
+        _placeToPtrs.back() = _ntransitions;
         _initialMarking = new MarkVal[_nplaces];
 //        assert(_nplaces > 0);
     }
-- 
2.43.0


From 93c8d501d9f02eb00cefe093b0040dcccbe1de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:20 +0000
Subject: [PATCH 13/61] fix: an environment transition without input places was
 treated as controllable

---
 src/PetriEngine/PetriNetBuilder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/PetriNetBuilder.cpp b/src/PetriEngine/PetriNetBuilder.cpp
index 6320c33..63dca13 100644
--- a/src/PetriEngine/PetriNetBuilder.cpp
+++ b/src/PetriEngine/PetriNetBuilder.cpp
@@ -299,6 +299,7 @@ namespace PetriEngine {
                 // ALL have to be inhibitor, if any. Otherwise not orphan
 
                 if(trans.skip) continue;
+                net->_controllable[freetrans] = trans._player == 0;
                 net->_transitions[freetrans].inputs = freeinv;
 
                 // add inhibitors
-- 
2.43.0


From 003d1693ae1b5b28130c88cc4fa469cf5ec4fe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:37 +0000
Subject: [PATCH 14/61] fix: structural rule D dropped a transition whose
 effect an inhibitor arc depends on

---
 src/PetriEngine/Reducer.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 55512c6..f09db2f 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -770,6 +770,8 @@ namespace PetriEngine {
         // Rule D - two transitions with the same pre and post and same inhibitor arcs
         // This does not alter the trace.
         bool continueReductions = false;
+        // dropping a transition with another effect on a place is visible to the query and to inhibitor arcs
+        auto observed = [&](uint32_t p) { return placeInQuery[p] > 0 || parent->_places[p].inhib; };
         _tflags.resize(parent->_transitions.size(), 0);
         std::fill(_tflags.begin(), _tflags.end(), 0);
         bool has_empty_trans = false;
@@ -846,7 +848,7 @@ namespace PetriEngine {
                         Arc& arc = trans1.pre[i];
                         for(; j < trans2.pre.size() && trans2.pre[j].place < arc.place; ++j)
                         {
-                            pre_equal &= placeInQuery[trans2.pre[j].place] == 0;
+                            pre_equal &= !observed(trans2.pre[j].place);
                             exact = false;
                         }
 
@@ -875,15 +877,15 @@ namespace PetriEngine {
                                 exact = false;
                             }
                         }
-                        some_in_query |= placeInQuery[arc2.place] > 0;
-                        pre_equal = pre_equal && (placeInQuery[arc2.place] == 0 ||
+                        some_in_query |= observed(arc2.place);
+                        pre_equal = pre_equal && (!observed(arc2.place) ||
                                                   arc.weight == arc2.weight*mult);
                         exact &= arc.weight == arc2.weight*mult;
                         if(!pre_equal) break;
                     }
                     for(; j < trans2.pre.size(); ++j)
                     {
-                        pre_equal &= placeInQuery[trans2.pre[j].place] == 0;
+                        pre_equal &= !observed(trans2.pre[j].place);
                         exact = false;
                     }
 
@@ -899,7 +901,7 @@ namespace PetriEngine {
                         Arc& arc2 = trans2.post[i];
                         for(; j < trans1.post.size() && trans1.post[j].place < arc2.place; ++j)
                         {
-                            post_equal &= placeInQuery[trans1.post[j].place] == 0;
+                            post_equal &= !observed(trans1.post[j].place);
                             exact = false;
                         }
                         if(j >= trans1.post.size() || trans1.post[j].place != arc2.place)
@@ -912,7 +914,7 @@ namespace PetriEngine {
                             ok = 2;
                             break;
                         }
-                        post_equal = post_equal && (placeInQuery[arc2.place] == 0 ||
+                        post_equal = post_equal && (!observed(arc2.place) ||
                                                     arc.weight * mult == arc2.weight);
                         exact &= arc.weight * mult == arc2.weight;
                         if (arc2.weight > arc.weight * mult) {
@@ -924,7 +926,7 @@ namespace PetriEngine {
 
                     for(; j < trans1.post.size(); ++j)
                     {
-                        post_equal &= placeInQuery[trans1.post[j].place] == 0;
+                        post_equal &= !observed(trans1.post[j].place);
                         exact = false;
                     }
 
-- 
2.43.0


From 9d9fe370695b4558d8169f20cd605511b912305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:14 +0000
Subject: [PATCH 15/61] fix: LTL automaton stubborn sets considered only one
 conjunct as unsafe, so accepting runs were lost

---
 .../Stubborn/InterestingTransitionVisitor.h   |  17 +++
 src/LTL/Stubborn/SafeAutStubbornSet.cpp       |   2 +-
 .../Stubborn/InterestingTransitionVisitor.cpp | 107 ++++++++++--------
 3 files changed, 76 insertions(+), 50 deletions(-)

diff --git a/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h b/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
index ac9c84b..a018c0d 100644
--- a/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
+++ b/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
@@ -196,6 +196,7 @@ namespace PetriEngine {
             void _accept(const PQL::SubtractExpr *element) override;
         };
 
+    protected:
         IncrVisitor incr;
         DecrVisitor decr;
     };
@@ -224,7 +225,23 @@ namespace PetriEngine {
         explicit AutomatonInterestingTransitionVisitor(StubbornSet &stubbornSet, bool closure) : InterestingTransitionVisitor(stubbornSet, closure) {}
 
     protected:
+        void _accept(const PQL::AndCondition *element) override;
+
+        void _accept(const PQL::OrCondition *element) override;
+
+        void _accept(const PQL::LessThanCondition *element) override;
+
+        void _accept(const PQL::LessThanOrEqualCondition *element) override;
+
+        void _accept(const PQL::EqualCondition *element) override;
+
+        void _accept(const PQL::NotEqualCondition *element) override;
+
         void _accept(const PQL::CompareConjunction *element) override;
+
+    private:
+        void smaller(const PQL::CompareCondition *element);
+        void different(const PQL::CompareCondition *element);
     };
 }
 
diff --git a/src/LTL/Stubborn/SafeAutStubbornSet.cpp b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
index 75cbcac..5a10012 100644
--- a/src/LTL/Stubborn/SafeAutStubbornSet.cpp
+++ b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
@@ -37,7 +37,7 @@ namespace LTL {
             return true;
         }
 
-        InterestingLTLTransitionVisitor unsafe{*this, false};
+        AutomatonInterestingTransitionVisitor unsafe{*this, false};
         InterestingTransitionVisitor interesting{*this, false};
 
         PQL::EvaluationContext ctx((*_parent).marking(), &_net);
diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index db53e6e..4a80cd8 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -425,60 +425,69 @@ namespace PetriEngine {
             InterestingTransitionVisitor::_accept(element);
     }
 
+    // A transition outside of this set must not help to make the formula true, not even in combination
+    // with other transitions, so (unlike for reachability) all conjuncts count, also those that hold already.
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::AndCondition *element)
+    {
+        for (auto &c : *element) Visitor::visit(this, c);
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::OrCondition *element)
+    {
+        for (auto &c : *element) Visitor::visit(this, c);
+    }
+
+    void AutomatonInterestingTransitionVisitor::smaller(const PQL::CompareCondition *element)
+    {
+        if (!negated) {
+            Visitor::visit(decr, element->getExpr1());
+            Visitor::visit(incr, element->getExpr2());
+        } else {
+            Visitor::visit(incr, element->getExpr1());
+            Visitor::visit(decr, element->getExpr2());
+        }
+    }
+
+    void AutomatonInterestingTransitionVisitor::different(const PQL::CompareCondition *element)
+    {
+        Visitor::visit(incr, element->getExpr1());
+        Visitor::visit(decr, element->getExpr1());
+        Visitor::visit(incr, element->getExpr2());
+        Visitor::visit(decr, element->getExpr2());
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::LessThanCondition *element)
+    {
+        smaller(element);
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::LessThanOrEqualCondition *element)
+    {
+        smaller(element);
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::EqualCondition *element)
+    {
+        different(element);
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::NotEqualCondition *element)
+    {
+        different(element);
+    }
+
     void AutomatonInterestingTransitionVisitor::_accept(const PQL::CompareConjunction *element)
     {
         auto neg = negated != element->isNegated();
         for (auto &c : *element) {
-            int32_t cand = std::numeric_limits<int32_t>::max();
-            bool pre = false;
-            auto val = _stubborn.getParent()[c._place];
-            if (c._lower == c._upper) {
-                if (neg) {
-                    if (val != c._lower) continue;
-                    _stubborn.postsetOf(c._place, closure);
-                    _stubborn.presetOf(c._place, closure);
-                } else {
-                    if (val == c._lower) continue;
-                    if (val > c._lower) {
-                        cand = c._place;
-                        pre = false;
-                    } else {
-                        cand = c._place;
-                        pre = true;
-                    }
-                }
-            } else {
-                if (!neg) {
-                    if (val < c._lower && c._lower != 0) {
-                        assert(!neg);
-                        cand = c._place;
-                        pre = true;
-                    }
-
-                    if (val > c._upper && c._upper != std::numeric_limits<uint32_t>::max()) {
-                        assert(!neg);
-                        cand = c._place;
-                        pre = false;
-                    }
-                } else {
-                    if (val >= c._lower && c._lower != 0) {
-                        _stubborn.postsetOf(c._place, closure);
-                    }
-
-                    if (val <= c._upper && c._upper != std::numeric_limits<uint32_t>::max()) {
-                        _stubborn.presetOf(c._place, closure);
-                    }
-                }
+            if (c._lower != 0) {
+                if (neg) _stubborn.postsetOf(c._place, closure);
+                else _stubborn.presetOf(c._place, closure);
             }
-            if (cand != std::numeric_limits<int32_t>::max()) {
-                if (pre) {
-                    _stubborn.presetOf(cand, closure);
-                } else if (!pre) {
-                    _stubborn.postsetOf(cand, closure);
-                }
-                cand = std::numeric_limits<int32_t>::max();
+            if (c._upper != std::numeric_limits<uint32_t>::max()) {
+                if (neg) _stubborn.presetOf(c._place, closure);
+                else _stubborn.postsetOf(c._place, closure);
             }
         }
-
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From 97a12d41e9989df2703c0c21830f5b7429fdbdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:06 +0000
Subject: [PATCH 16/61] fix: classic LTL partial order reduction gave up on
 formulae with a constant

---
 include/LTL/Stubborn/VisibleTransitionVisitor.h | 2 ++
 src/LTL/Stubborn/VisibleTransitionVisitor.cpp   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/LTL/Stubborn/VisibleTransitionVisitor.h b/include/LTL/Stubborn/VisibleTransitionVisitor.h
index 2929317..9d0e2f4 100644
--- a/include/LTL/Stubborn/VisibleTransitionVisitor.h
+++ b/include/LTL/Stubborn/VisibleTransitionVisitor.h
@@ -45,6 +45,8 @@ namespace LTL {
 
         void _accept(const PetriEngine::PQL::DeadlockCondition *element) override;
 
+        void _accept(const PetriEngine::PQL::BooleanCondition *element) override;
+
         void _accept(const PetriEngine::PQL::CompareConjunction *element) override;
 
         void _accept(const PetriEngine::PQL::UnfoldedUpperBoundsCondition *element) override;
diff --git a/src/LTL/Stubborn/VisibleTransitionVisitor.cpp b/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
index 108669f..1f08961 100644
--- a/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
+++ b/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
@@ -58,6 +58,10 @@ namespace LTL {
         // no-op
     }
 
+    void VisibleTransitionVisitor::_accept(const PetriEngine::PQL::BooleanCondition *element) {
+        // constants make no place visible
+    }
+
     void VisibleTransitionVisitor::_accept(const PetriEngine::PQL::CompareConjunction *element) {
         for (const auto &cons : *element) {
             _places[cons._place] = true;
-- 
2.43.0


From 3690a5e44cacc155ec6ac440f4a9a4d69a09bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:23 +0000
Subject: [PATCH 17/61] fix: the cycle proviso of classic LTL stubborn sets was
 never applied, so cycles hid visible transitions

---
 src/LTL/Algorithm/TarjanModelChecker.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LTL/Algorithm/TarjanModelChecker.cpp b/src/LTL/Algorithm/TarjanModelChecker.cpp
index dd0b1b5..50ebd0c 100644
--- a/src/LTL/Algorithm/TarjanModelChecker.cpp
+++ b/src/LTL/Algorithm/TarjanModelChecker.cpp
@@ -161,15 +161,15 @@ namespace LTL {
                 auto marking = StateSet::get_marking_id(stateid);
                 auto suc_pos = _chash[hash(marking, StateSet::get_buchi_state(stateid))];
                 while (suc_pos != std::numeric_limits<idx_t>::max() && cstack[suc_pos]._stateid != stateid) {
-                    if constexpr (std::is_same<SuccGen, SpoolingSuccessorGenerator>::value) {
+                    if constexpr (std::is_same<SuccGen, ProductSuccessorGenerator<SpoolingSuccessorGenerator>>::value) {
                         if (cstack[suc_pos]._dstack && StateSet::get_marking_id(cstack[suc_pos]._stateid) == marking) {
-                            successorGenerator->generate_all(&parent, dtop._sucinfo);
+                            successorGenerator.generate_all(&parent, dtop._sucinfo);
                         }
                     }
                     suc_pos = cstack[suc_pos]._next;
                 }
                 if (suc_pos != std::numeric_limits<idx_t>::max()) {
-                    if constexpr (std::is_same<SuccGen, SpoolingSuccessorGenerator>::value) {
+                    if constexpr (std::is_same<SuccGen, ProductSuccessorGenerator<SpoolingSuccessorGenerator>>::value) {
                         if (cstack[suc_pos]._dstack) {
                             successorGenerator.generate_all(&parent, dtop._sucinfo);
                         }
-- 
2.43.0


From 0cb2d8dcc5b724d16bc2e37544e3b4194610e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:37 +0000
Subject: [PATCH 18/61] fix: LTL stubborn sets in accepting states had no
 transition that stays enabled, so accepting runs were lost

---
 src/LTL/Stubborn/AutomatonStubbornSet.cpp | 20 ++++++++++++--------
 src/LTL/Stubborn/SafeAutStubbornSet.cpp   | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/LTL/Stubborn/AutomatonStubbornSet.cpp b/src/LTL/Stubborn/AutomatonStubbornSet.cpp
index b12dca2..2541670 100644
--- a/src/LTL/Stubborn/AutomatonStubbornSet.cpp
+++ b/src/LTL/Stubborn/AutomatonStubbornSet.cpp
@@ -222,18 +222,22 @@ namespace LTL {
         }*/
 
         // Ensure we have a key transition in accepting buchi states.
-        if (!_has_enabled_stubborn && buchi_state._is_accepting) {
+        if (buchi_state._is_accepting) {
+            auto key = _ordering.front();
             for (uint32_t i = 0; i < _net.numberOfTransitions(); ++i) {
-                if (!_stubborn[i] && _enabled[i]) {
-                    addToStub(i);
-                    _closure();
-                    if (_bad) {
-                        set_all_stubborn();
-                        return true;
-                    }
+                if (_stubborn[i] && _enabled[i]) {
+                    key = i;
                     break;
                 }
             }
+            addToStub(key);
+            // nothing outside of the stubborn set may disable the key transition
+            postPresetOf(key);
+            _closure();
+            if (_bad) {
+                set_all_stubborn();
+                return true;
+            }
         }
 
         assert(!has_shared_mark(_stubborn.get(), _retarding_stubborn_set.stubborn(), _net.numberOfTransitions()));
diff --git a/src/LTL/Stubborn/SafeAutStubbornSet.cpp b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
index 5a10012..0b94b68 100644
--- a/src/LTL/Stubborn/SafeAutStubbornSet.cpp
+++ b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
@@ -71,12 +71,21 @@ namespace LTL {
             _print_debug();
             return true;
         }
-        // accepting states need key transition. add firs   t enabled by index.
-        if (state->is_accepting() && !_has_enabled_stubborn) {
+        // accepting states need key transition. Prefer one that is stubborn already, otherwise first enabled by index.
+        if (state->is_accepting()) {
             //set_all_stubborn();
             //_print_debug();
             //return true;
-            addToStub(_ordering.front());
+            auto key = _ordering.front();
+            for (uint32_t t = 0; _has_enabled_stubborn && t < _net.numberOfTransitions(); ++t) {
+                if (_stubborn[t] && _enabled[t]) {
+                    key = t;
+                    break;
+                }
+            }
+            addToStub(key);
+            // nothing outside of the stubborn set may disable the key transition
+            postPresetOf(key);
             closure();
 /*            for (int i = 0; i < _net.numberOfPlaces(); ++i) {
                 if (_enabled[i]) {
-- 
2.43.0


From e60ecd0a567963514594576e7a8158f038d8601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:16 +0000
Subject: [PATCH 19/61] fix: structural rules E and P enabled a dead transition
 by removing only the place that disables it

---
 src/PetriEngine/Reducer.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index f09db2f..160b6af 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -1019,12 +1019,6 @@ namespace PetriEngine {
 
             bool allArcsRemoved = initiallyDisabled.size() + inhibited.size() == place.consumers.size();
 
-            // Can the place be removed entirely?
-            if(allArcsRemoved && (placeInQuery[p] == 0)) {
-                skipPlace(p);
-                continue;
-            }
-
             for(uint32_t cons : initiallyDisabled) {
                 Transition &t = getTransition(cons);
                 const auto& in = getInArc(p, t);
@@ -1039,6 +1033,11 @@ namespace PetriEngine {
                 assert(in->weight > parent->initialMarking[p]);
                 skipInArc(p, tran);
             }
+
+            // Can the place be removed entirely?
+            if(allArcsRemoved && (placeInQuery[p] == 0)) {
+                skipPlace(p);
+            }
         }
         assert(consistent());
         return continueReductions;
-- 
2.43.0


From 606aa8eb8a4b443fc6c37592576b24b47bdfc731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:49 +0000
Subject: [PATCH 20/61] fix: structural rule S dropped partial firings of a
 consumer that marks a place of the query

---
 src/PetriEngine/Reducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 160b6af..32f8615 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2713,7 +2713,7 @@ namespace PetriEngine {
                         if (!kIsAlwaysOne[n] && parent->_places[conspost.place].inhib){
                             ok = false;
                             break;
-                        } else if (!remove_loops && placeInQuery[conspost.place] > 0){
+                        } else if (placeInQuery[conspost.place] > 0){
                             ok = false;
                             break;
                         }
-- 
2.43.0


From bb4adc9bab0970c60f708de77bf7f560d11f8487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:11 +0000
Subject: [PATCH 21/61] fix: the XML printer dropped a sum or product that
 consists of the neutral constant only

---
 src/PetriEngine/PQL/XMLPrinter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/PetriEngine/PQL/XMLPrinter.cpp b/src/PetriEngine/PQL/XMLPrinter.cpp
index a9c9cc5..8fcc8d6 100644
--- a/src/PetriEngine/PQL/XMLPrinter.cpp
+++ b/src/PetriEngine/PQL/XMLPrinter.cpp
@@ -340,6 +340,10 @@ namespace PetriEngine {
                 Tag t(this, "integer-sum");
                 printer(element);
             }
+            else if(element->expressions().size() + ntoken_count + nconst == 0)
+            {
+                outputLine("<integer-constant>", element->constant(), "</integer-constant>");
+            }
             else
             {
                 printer(element);
@@ -367,6 +371,10 @@ namespace PetriEngine {
                 Tag i(this, "integer-product");
                 printer(element);
             }
+            else if(nconst + element->expressions().size() + element->places().size() == 0)
+            {
+                outputLine("<integer-constant>", element->constant(), "</integer-constant>");
+            }
             else
             {
                 printer(element);
-- 
2.43.0


From 8a468be9ca02558f0d4f5cfd9a710b41c741864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:34 +0000
Subject: [PATCH 22/61] fix: the loop of a trace found by nested DFS starts at
 the accepting state and includes the closing transition

---
 src/LTL/Algorithm/NestedDepthFirstSearch.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/LTL/Algorithm/NestedDepthFirstSearch.cpp b/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
index 41e6c15..3430eed 100644
--- a/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
+++ b/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
@@ -227,10 +227,9 @@ namespace LTL {
         if(!todo.empty())
             todo.pop_back();
         if(!nested_todo.empty()) {
-            // here the last state is significant
-            // of the successor is the check that demonstrates the violation.
-            loop_id = nested_todo.back()._id;
-            nested_todo.pop_back();
+            // the nested search starts in the accepting state and ends with the
+            // transition that leads back to it, so the loop is all of nested_todo.
+            loop_id = nested_todo.front()._id;
         }
 
         for(auto* stck : {&todo, &nested_todo})
@@ -251,7 +250,6 @@ namespace LTL {
                 else
                 {
                     _trace.push_back({top._sucinfo.transition()});
-                    assert(top._sucinfo.transition() < _net.numberOfTransitions());
                 }
                 (*stck).pop_front();
             }
-- 
2.43.0


From 1aedf46d1e4f1079d7d2c4995585b0c848d643c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:34 +0000
Subject: [PATCH 23/61] fix: the transition recorded for further Buchi
 successors of one marking, and for deadlocks, in the LTL successor spooler

---
 include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h b/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
index a659b10..a278b3c 100644
--- a/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
+++ b/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
@@ -48,7 +48,7 @@ namespace LTL {
             SuccessorQueue<> _successors;
             size_t _buchi_state;
             size_t _last_state;
-            size_t _transition;
+            size_t _transition = std::numeric_limits<uint32_t>::max();
 
             successor_info_t(size_t buchiState, size_t lastState) : _buchi_state(buchiState), _last_state(lastState) {}
 
@@ -107,6 +107,8 @@ namespace LTL {
             assert(_spooler != nullptr);
 
             PetriEngine::SuccessorGenerator::prepare(state);
+            // further Büchi successors of an already generated marking stem from the same transition.
+            _last = sucinfo._transition;
             if (sucinfo._successors == nullptr) {
                 uint32_t tid;
                 _spooler->prepare(state);
@@ -143,6 +145,7 @@ namespace LTL {
             assert(sucinfo._successors != nullptr);
             if (sucinfo._successors.empty()) {
                 _last = std::numeric_limits<uint32_t>::max() - 1;
+                sucinfo._transition = _last;
                 return false;
             }
             _last = sucinfo._successors.front();
-- 
2.43.0


From 4f3c84a5fe72c7871522cc3c49f817d2abd27879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:34 +0000
Subject: [PATCH 24/61] fix: LTL traces from Tarjan's algorithm follow edges
 that exist and close the accepting loop

---
 include/LTL/Algorithm/TarjanModelChecker.h |  6 +-
 src/LTL/Algorithm/TarjanModelChecker.cpp   | 80 +++++++++-------------
 2 files changed, 36 insertions(+), 50 deletions(-)

diff --git a/include/LTL/Algorithm/TarjanModelChecker.h b/include/LTL/Algorithm/TarjanModelChecker.h
index 62cadb6..150ed18 100644
--- a/include/LTL/Algorithm/TarjanModelChecker.h
+++ b/include/LTL/Algorithm/TarjanModelChecker.h
@@ -128,7 +128,7 @@ namespace LTL {
         // cstack positions of accepting states in current search path, for quick access.
         light_deque<idx_t> _astack;
 
-        bool _invariant_loop = true;
+        bool _invariant_loop = false;
         size_t _loop_state = std::numeric_limits<size_t>::max();
         uint32_t _loop_trans = std::numeric_limits<uint32_t>::max();
         size_t _discoverd = std::numeric_limits<size_t>::max();
@@ -146,8 +146,8 @@ namespace LTL {
         template<typename S, typename T, typename D, typename SuccGen>
         void pop(S& seen, light_deque<T>& cstack, light_deque<D>& dstack, SuccGen& successorGenerator);
 
-        template<typename T, typename D, typename SuccGen>
-        void update(light_deque<T>& cstack, light_deque<D>& d, SuccGen& successorGenerator, idx_t to);
+        template<typename T, typename D>
+        void update(light_deque<T>& cstack, light_deque<D>& d, idx_t to, uint32_t trans);
 
         template<typename S, typename T, typename SuccGen, typename D>
         bool next_trans(S& seen, light_deque<T>& cstack, SuccGen& successorGenerator, State &state, State &parent, D &delem);
diff --git a/src/LTL/Algorithm/TarjanModelChecker.cpp b/src/LTL/Algorithm/TarjanModelChecker.cpp
index 50ebd0c..39915ba 100644
--- a/src/LTL/Algorithm/TarjanModelChecker.cpp
+++ b/src/LTL/Algorithm/TarjanModelChecker.cpp
@@ -18,6 +18,8 @@
 #include "LTL/Algorithm/TarjanModelChecker.h"
 #include "PetriEngine/PQL/PredicateCheckers.h"
 
+#include <algorithm>
+
 namespace LTL {
 
     void TarjanModelChecker::print_stats(std::ostream &os) const {
@@ -176,7 +178,7 @@ namespace LTL {
                     }
                     // we found the successor, i.e. there's a loop!
                     // now update lowlinks and check whether the loop contains an accepting state
-                    update(cstack, dstack, successorGenerator, suc_pos);
+                    update(cstack, dstack, suc_pos, successorGenerator.fired());
                     continue;
                 }
                 if (!_store.exists(stateid).first) {
@@ -229,6 +231,9 @@ namespace LTL {
     void TarjanModelChecker::pop(S& seen, light_deque<T>& cstack, light_deque<D>& dstack, SuccGen& successorGenerator)
     {
         const auto p = dstack.back()._pos;
+        uint32_t trans = std::numeric_limits<uint32_t>::max();
+        if constexpr (T::save_trace())
+            trans = seen.get_history(cstack[p]._stateid).second;
         dstack.pop_back();
         cstack[p]._dstack = false;
         if (cstack[p]._lowlink == p) {
@@ -240,7 +245,7 @@ namespace LTL {
             _astack.pop_back();
         }
         if (!dstack.empty()) {
-            update(cstack, dstack, successorGenerator, p);
+            update(cstack, dstack, p, trans);
             if constexpr (std::is_same<SuccGen, SpoolingSuccessorGenerator>::value) {
                 successorGenerator.pop(dstack.back()._sucinfo);
             }
@@ -257,8 +262,8 @@ namespace LTL {
     }
 
 
-    template<typename T, typename D, typename SuccGen>
-    void TarjanModelChecker::update(light_deque<T>& cstack, light_deque<D>& dstack, SuccGen& successorGenerator, idx_t to)
+    template<typename T, typename D>
+    void TarjanModelChecker::update(light_deque<T>& cstack, light_deque<D>& dstack, idx_t to, uint32_t trans)
     {
         const auto from = dstack.back()._pos;
         assert(cstack[to]._lowlink != std::numeric_limits<idx_t>::max() && cstack[from]._lowlink != std::numeric_limits<idx_t>::max());
@@ -267,12 +272,18 @@ namespace LTL {
             // if this earlier component precedes an accepting state,
             // the found loop is accepting and thus a violation.
             _violation = (!_astack.empty() && to <= _astack.back());
+            if constexpr (T::save_trace()) {
+                // remember the edge that leads towards the component we now belong to.
+                if (cstack[to]._lowlink < cstack[from]._lowlink) {
+                    cstack[from]._lowsource = to;
+                    cstack[from]._sourcetrans = trans;
+                }
+            }
             // either way update the component ID of the state we came from.
             cstack[from]._lowlink = cstack[to]._lowlink;
             if constexpr (T::save_trace()) {
-                _loop_state = cstack[to]._stateid;
-                _loop_trans = successorGenerator.fired();
-                cstack[to]._lowsource = from;
+                _loop_state = to;
+                _loop_trans = trans;
             }
         }
     }
@@ -294,50 +305,25 @@ namespace LTL {
     void TarjanModelChecker::build_trace(S& seen, light_deque<D> &&dstack, light_deque<C>& cstack)
     {
         assert(_violation);
-        if (cstack[dstack.back()._pos]._stateid == _loop_state)
-            _loop = _trace.size();
-        dstack.pop_back();
-        size_t p = 0;
-        bool had_deadlock = _loop_trans == std::numeric_limits<uint32_t>::max() - 1;
-        // print (reverted) dstack
+        // the path to the current state, i.e. the (reverted) dstack without the initial state.
+        std::vector<idx_t> path;
         while (!dstack.empty()) {
-            p = dstack.back()._pos;
+            path.push_back(dstack.back()._pos);
             dstack.pop_back();
-            auto stateid = cstack[p]._stateid;
-            auto[parent, tid] = seen.get_history(stateid);
-            _trace.push_back({(uint32_t)tid});
-            if(tid >= std::numeric_limits<uint32_t>::max() - 1)
-            {
-                had_deadlock = true;
-                break;
-            }
-            if(cstack[p]._stateid == _loop_state)
-                _loop = _trace.size();
-            cstack[p]._lowlink = std::numeric_limits<idx_t>::max();
+            if (path.size() > 1)
+                _trace.push_back({(uint32_t)seen.get_history(cstack[path.back()]._stateid).second});
         }
-        // follow previously found back edges via lowsource until back in dstack.
-        if(!had_deadlock && cstack[p]._lowsource != std::numeric_limits<idx_t>::max())
-        {
+        if (_invariant_loop)
+            return; // every continuation is accepted, there is no loop to show
+        // the edge that closes the loop, followed by previously found edges back to
+        // a state of the path at or before the last accepting state.
+        _trace.push_back({_loop_trans});
+        auto p = _loop_state;
+        while (!cstack[p]._dstack || p > _astack.back()) {
+            assert(cstack[p]._lowsource != std::numeric_limits<idx_t>::max());
+            _trace.push_back({(uint32_t)cstack[p]._sourcetrans});
             p = cstack[p]._lowsource;
-            while (cstack[p]._lowlink != std::numeric_limits<idx_t>::max() && p != cstack[p]._lowsource) {
-                auto[parent, tid] = seen.get_history(cstack[p]._stateid);
-                assert(tid < _net.numberOfTransitions());
-                _trace.push_back({(uint32_t)tid});
-                if(tid >= std::numeric_limits<ptrie::uint>::max() - 1)
-                {
-                    had_deadlock = true;
-                    break;
-                }
-                if(cstack[p]._lowsource == std::numeric_limits<idx_t>::max())
-                    break;
-                assert(cstack[p]._lowsource != std::numeric_limits<idx_t>::max());
-                p = cstack[p]._lowsource;
-            }
-        }
-        if(!had_deadlock && _loop_trans < _net.numberOfTransitions())
-        {
-            assert(_loop_trans < _net.numberOfTransitions());
-            _trace.push_back({_loop_trans});
         }
+        _loop = std::find(path.begin(), path.end(), p) - path.begin();
     }
 }
-- 
2.43.0


From ddffc611db1514ffeac0217e31ba0c129efa1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:32 +0000
Subject: [PATCH 25/61] fix: rule B keeps initial tokens that are too few for
 the consumer when other producers remain

---
 src/PetriEngine/Reducer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 32f8615..1a81023 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -554,8 +554,8 @@ namespace PetriEngine {
                     }
                 }
 
-                 // UB1. Remove place p
-                parent->initialMarking[p] = 0;
+                // UB1. Remove place p; what is too little for tIn stays, other producers may add to it.
+                parent->initialMarking[p] %= inArc->weight;
                 // We need to remember that when tOut fires, tIn fires just after.
                 // this should fix the trace
 
-- 
2.43.0


From cc6f684a7cc6b9ad2fde0e294ee6e257d5506142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:32 +0000
Subject: [PATCH 26/61] fix: traces fire a merged transition as often as its
 tokens were moved, and nothing merged later

---
 include/PetriEngine/Reducer.h |  7 +++--
 src/PetriEngine/Reducer.cpp   | 51 ++++++++++++++++++++++-------------
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/include/PetriEngine/Reducer.h b/include/PetriEngine/Reducer.h
index 393175c..efd96da 100644
--- a/include/PetriEngine/Reducer.h
+++ b/include/PetriEngine/Reducer.h
@@ -200,8 +200,11 @@ namespace PetriEngine {
             return (diff.count() >= timeout);
         }
 
-        std::vector<shared_const_string> _initfire;
-        std::unordered_map<std::string, std::vector<shared_const_string>> _postfire;
+        // transitions to fire, each with the number of entries of its own _postfire that follow it.
+        std::vector<std::pair<shared_const_string, size_t>> _initfire;
+        std::unordered_map<std::string, std::vector<std::pair<shared_const_string, size_t>>> _postfire;
+        std::pair<shared_const_string, size_t> fireEntry(const shared_const_string& transition) const;
+        void printFire(std::ostream& out, const std::pair<shared_const_string, size_t>& entry) const;
         // _transitionsBeforeReduction[transitionName] = { {placeName, weight}, ... }
         // Associate a transition with the vector of pre-places and their weights
         std::unordered_map<std::string, std::vector<ExpandedArc>> _transitionsBeforeReduction;
diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 1a81023..f96b5d5 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -362,11 +362,14 @@ namespace PetriEngine {
                 for(size_t pp : pre.producers)
                 {
                     auto prefire = getTransitionName(pp);
-                    _postfire[*prefire].push_back(tname);
+                    // t takes w tokens each time it is fired
+                    const size_t times = getOutArc(parent->_transitions[pp], pPre)->weight / w;
+                    for(size_t i = 0; i < times; ++i)
+                        _postfire[*prefire].push_back(fireEntry(tname));
                 }
-                for(size_t i = 0; i < parent->initMarking()[pPre]; ++i)
+                for(size_t i = 0; i < parent->initMarking()[pPre] / w; ++i)
                 {
-                    _initfire.push_back(tname);
+                    _initfire.push_back(fireEntry(tname));
                 }
             }
 
@@ -545,12 +548,12 @@ namespace PetriEngine {
                     auto tinname  = getTransitionName(tIn);
                     for(size_t i = 0; i < multiplier; ++i)
                     {
-                        _postfire[*toutname].push_back(tinname);
+                        _postfire[*toutname].push_back(fireEntry(tinname));
                     }
 
-                    for(size_t i = 0; initm > 0 && i < initm / inArc->weight; ++i )
+                    for(size_t i = 0; i < initm; ++i )
                     {
-                        _initfire.push_back(tinname);
+                        _initfire.push_back(fireEntry(tinname));
                     }
                 }
 
@@ -2390,7 +2393,7 @@ namespace PetriEngine {
             if(reconstructTrace)
             {
                 for(size_t i = 0; i < k; ++i)
-                    _initfire.emplace_back(getTransitionName(t));
+                    _initfire.push_back(fireEntry(getTransitionName(t)));
             }
 
             _ruleQ++;
@@ -3052,30 +3055,40 @@ restart:
         }
     }
 
+    std::pair<shared_const_string, size_t> Reducer::fireEntry(const shared_const_string& transition) const
+    {
+        // what is merged into transition later on is not part of this firing
+        auto it = _postfire.find(*transition);
+        return {transition, it == std::end(_postfire) ? 0 : it->second.size()};
+    }
+
+    void Reducer::printFire(std::ostream& out, const std::pair<shared_const_string, size_t>& entry) const
+    {
+        out << "\t<transition id=\"" << *entry.first << "\">\n";
+        tokenConsumption(out, *entry.first);
+        out << "\t</transition>\n";
+        if (entry.second > 0)
+        {
+            const auto& post = _postfire.at(*entry.first);
+            for (size_t i = 0; i < entry.second; ++i)
+                printFire(out, post[i]);
+        }
+    }
+
     void Reducer::postFire(std::ostream& out, const std::string& transition) const
     {
         auto it = _postfire.find(transition);
         if (it != std::end(_postfire))
         {
             for (const auto& el : it->second)
-            {
-                out << "\t<transition id=\"" << *el << "\">\n";
-                tokenConsumption(out, *el);
-                out << "\t</transition>\n";
-                postFire(out, *el);
-            }
+                printFire(out, el);
         }
     }
 
     void Reducer::initFire(std::ostream& out) const
     {
         for (const auto& init : _initfire)
-        {
-            out << "\t<transition id=\"" << *init << "\">\n";
-            tokenConsumption(out, *init);
-            out << "\t</transition>\n";
-            postFire(out, *init);
-        }
+            printFire(out, init);
     }
 
     void Reducer::tokenConsumption(std::ostream& out, const std::string& transition) const
-- 
2.43.0


From 11e6735027d2f74457156fac3ccbafadb0cf2a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:05 +0000
Subject: [PATCH 27/61] fix: after a negation, until formulae were wrongly
 taken as insensitive to loops

---
 src/PetriEngine/PQL/PredicateCheckers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PetriEngine/PQL/PredicateCheckers.cpp b/src/PetriEngine/PQL/PredicateCheckers.cpp
index d69c542..847ef70 100644
--- a/src/PetriEngine/PQL/PredicateCheckers.cpp
+++ b/src/PetriEngine/PQL/PredicateCheckers.cpp
@@ -305,12 +305,14 @@ namespace PetriEngine { namespace PQL {
     {
         _negated = !_negated;
         AnyVisitor::_accept(condition);
+        _negated = !_negated;
     }
 
     void IsLoopSensitiveVisitor::_accept(const NotCondition *condition)
     {
         _negated = !_negated;
         AnyVisitor::_accept(condition);
+        _negated = !_negated;
     }
 
     void IsLoopSensitiveVisitor::_accept(const UntilCondition *condition)
-- 
2.43.0


From f5885e99672035b9ca3fbf169470476e0430cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:51 +0000
Subject: [PATCH 28/61] fix: structural rule I dropped producers that can
 inhibit a relevant transition

---
 src/PetriEngine/Reducer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index f96b5d5..9e2bb82 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -1729,6 +1729,13 @@ namespace PetriEngine {
                             wtrans.push_back(pt);
                         }
                     }
+
+                    for (auto pt : place.producers) {
+                        if (!tseen[pt] && (!remove_consumers || placeInQuery[arc.place] > 0)) {
+                            tseen[pt] = true;
+                            wtrans.push_back(pt);
+                        }
+                    }
                 } else {
                     for (auto pt : place.producers) {
                         if (!tseen[pt]) {
-- 
2.43.0


From 7e0a58fe6bc6a3fa4882dc5e614850150bc2d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:23 +0000
Subject: [PATCH 29/61] fix: 'all' over a product sort crashed as color
 expression

---
 src/PetriParse/PNMLParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index bc00dd6..90554ea 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -520,8 +520,8 @@ std::vector<ColorExpression_ptr> PNMLParser::parseColorExpression(rapidxml::xml_
     } else if (strcmp(element->name(), "all") == 0) {
         auto* sort = parseUserSort(element);
         std::vector<ColorExpression_ptr> colors;
-        for(auto& c : *sort)
-            colors.emplace_back(std::make_shared<UserOperatorExpression>(&c));
+        for(size_t i = 0; i < sort->size(); ++i)
+            colors.emplace_back(std::make_shared<UserOperatorExpression>(&(*sort)[i]));
         return colors;
     }
     throw base_error("Unhandled color type");
-- 
2.43.0


From 6a351f7adbf813486c69fec3b869674c52343262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:23 +0000
Subject: [PATCH 30/61] fix: a doubly negated guard was read as negated once

---
 src/PetriParse/PNMLParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index 90554ea..c90ddc5 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -380,7 +380,7 @@ void PNMLParser::collectColorsInTuple(rapidxml::xml_node<>* element, std::vector
 
 GuardExpression_ptr PNMLParser::parseGuardExpression(rapidxml::xml_node<>* element, bool notFlag) {
     if (strcmp(element->name(), "not") == 0) {
-        return parseGuardExpression(element->first_node(), true);
+        return parseGuardExpression(element->first_node(), !notFlag);
     }
     else if (strcmp(element->name(), "subterm") == 0 || strcmp(element->name(), "structure") == 0) {
         return parseGuardExpression(element->first_node(), notFlag);
-- 
2.43.0


From 2966226939fd85a62122255553188599a3c263d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:23 +0000
Subject: [PATCH 31/61] fix: guard conjunctions dropped every operand after the
 second

---
 src/PetriParse/PNMLParser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index c90ddc5..7839e1c 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -390,9 +390,17 @@ GuardExpression_ptr PNMLParser::parseGuardExpression(rapidxml::xml_node<>* eleme
         if (right == nullptr)
             return parseGuardExpression(left, notFlag);
         if (notFlag) {
-            return std::make_shared<OrExpression>(parseGuardExpression(left, true), parseGuardExpression(right, true));
+            auto parentOr = std::make_shared<OrExpression>(parseGuardExpression(left, true), parseGuardExpression(right, true));
+            for (auto it = right->next_sibling(); it; it = it->next_sibling()) {
+                parentOr = std::make_shared<OrExpression>(parentOr, parseGuardExpression(it, true));
+            }
+            return parentOr;
         } else {
-            return std::make_shared<AndExpression>(parseGuardExpression(left, false), parseGuardExpression(right, false));
+            auto parentAnd = std::make_shared<AndExpression>(parseGuardExpression(left, false), parseGuardExpression(right, false));
+            for (auto it = right->next_sibling(); it; it = it->next_sibling()) {
+                parentAnd = std::make_shared<AndExpression>(parentAnd, parseGuardExpression(it, false));
+            }
+            return parentAnd;
         }
     } else if (strcmp(element->name(), "or") == 0) {
         auto left = element->first_node();
-- 
2.43.0


From e6756b4400a6efed417cf42ecffca96800bd31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:56 +0000
Subject: [PATCH 32/61] fix: the color fixpoint missed bindings of transitions
 without variables on output arcs

---
 src/PetriEngine/Colored/ForwardFixedPoint.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/Colored/ForwardFixedPoint.cpp b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
index 28af9b4..b529c38 100644
--- a/src/PetriEngine/Colored/ForwardFixedPoint.cpp
+++ b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
@@ -287,7 +287,7 @@ namespace PetriEngine {
         }
 
         void ForwardFixedPoint::processOutputArcs(const Colored::Transition& transition, size_t transition_id) {
-            bool transitionHasVarOutArcs = false;
+            bool transitionHasVars = false;
             for (const auto& arc : transition.output_arcs) {
                 Colored::ColorFixpoint& placeFixpoint = _placeColorFixpoints[arc.place];
                 //used to check if colors are added to the place. The total distance between upper and
@@ -299,7 +299,7 @@ namespace PetriEngine {
                 Colored::VariableVisitor::get_variables(*arc.expr, variables);
 
                 if (!variables.empty()) {
-                    transitionHasVarOutArcs = true;
+                    transitionHasVars = true;
                 }
 
 
@@ -364,9 +364,18 @@ namespace PetriEngine {
                     }
                 }
             }
-            //If there are no variables among the out arcs of a transition
+            //The variables of the input arcs and the guard matter as well: new colors in the preset
+            // give new bindings, even if the output does not depend on them
+            std::set<const Colored::Variable *> inVariables;
+            for (const auto& arc : transition.input_arcs) {
+                Colored::VariableVisitor::get_variables(*arc.expr, inVariables);
+            }
+            if (transition.guard != nullptr) {
+                Colored::VariableVisitor::get_variables(*transition.guard, inVariables);
+            }
+            //If there are no variables on a transition
             // and it has been activated, there is no reason to cosider it again
-            if (!transitionHasVarOutArcs) {
+            if (!transitionHasVars && inVariables.empty()) {
                 _considered[transition_id] = true;
             }
         }
-- 
2.43.0


From 2e83e56125d85a782ac82517e0f5fc805901175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:56 +0000
Subject: [PATCH 33/61] fix: unfolding counted the tokens of an inhibiting
 place twice

---
 src/PetriEngine/Colored/Unfolder.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/PetriEngine/Colored/Unfolder.cpp b/src/PetriEngine/Colored/Unfolder.cpp
index 09e3f70..897019d 100644
--- a/src/PetriEngine/Colored/Unfolder.cpp
+++ b/src/PetriEngine/Colored/Unfolder.cpp
@@ -201,9 +201,6 @@ namespace PetriEngine {
                         const PetriEngine::Colored::Place& place = _builder.places()[inhibArc.place];
                         auto sumPlaceName = std::make_shared<const_string>(*place.name + "Sum");
                         ptBuilder.addPlace(sumPlaceName, place.marking.size(), place._x + 30, place._y - 30);
-                        if (_ptplacenames.count(place.name) <= 0) {
-                            _ptplacenames[place.name][place.type->size()] = sumPlaceName;
-                        }
                         placeName = _sumPlacesNames[inhibArc.place] = std::move(sumPlaceName);
                     }
                     ptBuilder.addInputArc(placeName, newname, true, inhibArc.inhib_weight);
-- 
2.43.0


From b603c823f1bb7b13983d6e71b92d8c7637358fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:56 +0000
Subject: [PATCH 34/61] fix: naive unfolding lost the names of transitions
 without bindings

---
 src/PetriEngine/Colored/Unfolder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/Colored/Unfolder.cpp b/src/PetriEngine/Colored/Unfolder.cpp
index 897019d..dec8a71 100644
--- a/src/PetriEngine/Colored/Unfolder.cpp
+++ b/src/PetriEngine/Colored/Unfolder.cpp
@@ -171,6 +171,7 @@ namespace PetriEngine {
             } else {
                 NaiveBindingGenerator gen(transition, _builder.colors());
                 size_t i = 0;
+                _pttransitionnames[transition.name]; // also known to queries when there are no bindings
                 for (const auto &b : gen) {
                     auto name = std::make_shared<const_string>(*transition.name + "_" + std::to_string(i++));
                     ptBuilder.addTransition(name, transition._player, transition._x, transition._y + offset);
-- 
2.43.0


From c20e13ca34c1cea6c01fa9c87b0c7662994b184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:09 +0000
Subject: [PATCH 35/61] fix: ordering guards with successor or predecessor
 restricted bindings ignoring the wrap-around

---
 include/PetriEngine/Colored/GuardRestrictor.h |  1 +
 src/PetriEngine/Colored/GuardRestrictor.cpp   | 21 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/PetriEngine/Colored/GuardRestrictor.h b/include/PetriEngine/Colored/GuardRestrictor.h
index 6209f29..5ad0444 100644
--- a/include/PetriEngine/Colored/GuardRestrictor.h
+++ b/include/PetriEngine/Colored/GuardRestrictor.h
@@ -80,6 +80,7 @@ namespace PetriEngine {
 
             private:
                 static int32_t getVarModifier(const std::unordered_map<uint32_t, int32_t> &modPairMap, uint32_t index);
+                static bool hasModifier(const VariableModifierMap &varModifierMap);
                 static interval_t getIntervalFromIds(const std::vector<uint32_t> &idVec, uint32_t ctSize, int32_t modifier);
                 static interval_vector_t getIntervalOverlap(const Colored::interval_vector_t &intervals1, const Colored::interval_vector_t &intervals2);
                 static void invertIntervals(interval_vector_t &intervals, const interval_vector_t &oldIntervals, const ColorType *colorType);
diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index 06954fa..d8ece20 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -34,6 +34,17 @@ namespace PetriEngine{
             return modifier;
         }
 
+        bool GuardRestrictor::hasModifier(const VariableModifierMap &varModifierMap) {
+            for(const auto &varModifiers : varModifierMap){
+                for(const auto &modPairMap : varModifiers.second){
+                    for(const auto &idModPair : modPairMap){
+                        if(idModPair.second != 0) return true;
+                    }
+                }
+            }
+            return false;
+        }
+
         interval_t GuardRestrictor::getIntervalFromIds(const std::vector<uint32_t> &idVec, uint32_t ctSize, int32_t modifier) {
             interval_t interval;
             for(auto id : idVec){
@@ -315,6 +326,16 @@ namespace PetriEngine{
                             std::set<const Colored::Variable*> &diagonalVars,
                             bool lessthan, bool strict) {
 
+            //Successors and predecessors wrap around, so the solutions are not bounded by the other side
+            if(hasModifier(varModifierMapL) || hasModifier(varModifierMapR)){
+                for(const auto *positions : {&varPositionsL, &varPositionsR}){
+                    for(const auto &varPositionPair : *positions){
+                        diagonalVars.insert(varPositionPair.second);
+                    }
+                }
+                return;
+            }
+
             for(const auto &varPositionPair : varPositionsL){
                 uint32_t index = varPositionPair.first;
                 if(varPositionsR.count(index) > 0){
-- 
2.43.0


From 01ea5dee6d95251115813082dd1afe5674d53939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 36/61] fix: partitioning merged colors that arc expressions
 tell apart

---
 src/PetriEngine/Colored/PartitionBuilder.cpp | 30 ++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index 06a40ab..5223fcc 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -279,6 +279,28 @@ namespace PetriEngine {
             _partition[inArc.place].mergeEqClasses();
         }
 
+        //The colors of a class are interchangeable only if every token taken is chosen independently of the others
+        static bool relatesColors(const ArcExpression &expr, uint32_t factor = 1){
+            const auto hasVariables = [](Expression &e){
+                std::set<const Colored::Variable*> variables;
+                Colored::VariableVisitor::get_variables(e, variables);
+                return !variables.empty();
+            };
+            if(auto *number = dynamic_cast<const NumberOfExpression*>(&expr)){
+                return number->size() > 1 || (number->number() * factor > 1 && hasVariables(*(*number)[0]));
+            } else if(auto *scalar = dynamic_cast<const ScalarProductExpression*>(&expr)){
+                return relatesColors(*scalar->child(), factor * scalar->scalar());
+            } else if(auto *add = dynamic_cast<const AddExpression*>(&expr)){
+                for(const auto &element : *add){
+                    if(relatesColors(*element, factor) || (add->size() > 1 && !hasVariables(*element))){
+                        return true;
+                    }
+                }
+                return false;
+            }
+            return true;
+        }
+
         void PartitionBuilder::handleTransition(const Transition &transition, const uint32_t postPlaceId, const Arc *postArc) {
             VariableModifierMap varModifierMap;
             PositionVariableMap varPositionMap;
@@ -289,6 +311,9 @@ namespace PetriEngine {
             Colored::VariableVisitor::get_variables(*postArc->expr, postArcVars, varPositionMap, varModifierMap, true);
 
             checkVarOnArc(varModifierMap, diagonalVars, postPlaceId, false);
+            if(relatesColors(*postArc->expr)){
+                diagonalVars.insert(postArcVars.begin(), postArcVars.end());
+            }
 
             if(transition.guard != nullptr){
                 Colored::VariableVisitor::get_variables(*transition.guard, guardVars);
@@ -328,6 +353,11 @@ namespace PetriEngine {
                 if(_partition[inArc.place].isDiagonal()){
                     continue;
                 }
+                if(relatesColors(*inArc.expr)){
+                    _partition[inArc.place].setDiagonal(true);
+                    addToQueue(inArc.place);
+                    continue;
+                }
                 VariableModifierMap preVarModifierMap;
                 PositionVariableMap preVarPositionMap;
                 std::set<const PetriEngine::Colored::Variable *> preArcVars;
-- 
2.43.0


From 4a45ace8c18870f2d0387022ee9023b049ce7dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 37/61] fix: partitioning ignored variables shared with a place
 already known as diagonal

---
 src/PetriEngine/Colored/PartitionBuilder.cpp | 26 ++++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index 5223fcc..adb9c20 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -182,8 +182,10 @@ namespace PetriEngine {
                             }
 
                             if(_partition[placeVariables.first].getEquivalenceClasses().back().type()->productSize() == 1){
-                                _partition[placeVariables.first].setDiagonal(true);
-                                addToQueue(placeVariables.first);
+                                if(!_partition[placeVariables.first].isDiagonal()){
+                                    _partition[placeVariables.first].setDiagonal(true);
+                                    addToQueue(placeVariables.first);
+                                }
                             } else if(!_partition[placeVariables.first].getDiagonalTuplePositions()[varPosition.first]) {
                                 addToQueue(placeVariables.first);
                                 _partition[placeVariables.first].setDiagonalTuplePosition(varPosition.first, true);
@@ -191,12 +193,6 @@ namespace PetriEngine {
                             break;
                         }
                     }
-                    if(_partition[placeId].isDiagonal()){
-                        break;
-                    }
-                }
-                if(_partition[placeId].isDiagonal()){
-                    break;
                 }
             }
         }
@@ -350,20 +346,18 @@ namespace PetriEngine {
                     _partition[inArc.place].setDiagonal(true);
                 }
 
-                if(_partition[inArc.place].isDiagonal()){
-                    continue;
-                }
-                if(relatesColors(*inArc.expr)){
-                    _partition[inArc.place].setDiagonal(true);
-                    addToQueue(inArc.place);
-                    continue;
-                }
+                const bool wasDiagonal = _partition[inArc.place].isDiagonal();
                 VariableModifierMap preVarModifierMap;
                 PositionVariableMap preVarPositionMap;
                 std::set<const PetriEngine::Colored::Variable *> preArcVars;
                 Colored::VariableVisitor::get_variables(*inArc.expr, preArcVars, preVarPositionMap, preVarModifierMap, true);
+                //the variables of diagonal places restrict the other input places as well
                 checkVarOnInputArcs(placeVariableMap, preVarPositionMap, diagonalVars, inArc.place);
                 placeVariableMap[inArc.place] = preVarPositionMap;
+                if(wasDiagonal) continue;
+                if(relatesColors(*inArc.expr)){
+                    _partition[inArc.place].setDiagonal(true);
+                }
                 if(checkDiagonal(inArc.place)) continue;
 
                 markSharedVars(preVarPositionMap, varPositionMap, postPlaceId, inArc.place);
-- 
2.43.0


From f42d65b8a37f3f92dddcc38517fd8b6a42a7fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 38/61] fix: subtractions on input arcs crashed or disabled
 transitions when computing the color fixpoint

---
 .../PetriEngine/Colored/ArcIntervalVisitor.h  |  9 +-
 include/PetriEngine/Colored/VariableVisitor.h | 95 ++++---------------
 src/PetriEngine/Colored/IntervalGenerator.cpp |  8 +-
 3 files changed, 31 insertions(+), 81 deletions(-)

diff --git a/include/PetriEngine/Colored/ArcIntervalVisitor.h b/include/PetriEngine/Colored/ArcIntervalVisitor.h
index 4c5c1ce..476a493 100644
--- a/include/PetriEngine/Colored/ArcIntervalVisitor.h
+++ b/include/PetriEngine/Colored/ArcIntervalVisitor.h
@@ -204,9 +204,12 @@ namespace PetriEngine {
 
             virtual void accept(const SubtractExpression* sub)
             {
-                (*sub)[0]->visit(*this);
-                //We ignore the restrictions imposed by the subtraction for now
-                //_right->getArcIntervals(arcIntervals, cfp, &rightIndex);
+                //We ignore the restrictions imposed by the subtraction for now:
+                //what is left can be any of the tokens
+                if (_arcIntervals._intervalTupleVec.empty()) {
+                    _arcIntervals._intervalTupleVec.push_back(_cfp.constraints);
+                }
+                _ok = !_cfp.constraints.empty();
             }
 
             virtual void accept(const ScalarProductExpression* scalar)
diff --git a/include/PetriEngine/Colored/VariableVisitor.h b/include/PetriEngine/Colored/VariableVisitor.h
index ec4047c..0b203cf 100644
--- a/include/PetriEngine/Colored/VariableVisitor.h
+++ b/include/PetriEngine/Colored/VariableVisitor.h
@@ -29,8 +29,6 @@
 #ifndef VARIABLESVISITOR_H
 #define VARIABLESVISITOR_H
 
-#include <stack>
-
 #include "Expressions.h"
 #include "Colors.h"
 
@@ -45,6 +43,8 @@ namespace PetriEngine {
             PositionVariableMap& _varPositions;
             VariableModifierMap& _varModifiers;
             const bool _include_subtracts;
+            uint32_t _term = 0; // index of the current summand; modifiers are kept per summand
+            bool _in_subtraction = false;
 
         public:
             VariableVisitor(std::set<const Colored::Variable*>& variables, PositionVariableMap& varPositions,
@@ -65,23 +65,12 @@ namespace PetriEngine {
                 if(_tupleIndex > 0){
                     _tuples[_tupleIndex].emplace_back(e);
                 }
-                if(_varModifiers.count(e->variable()) == 0){
-                    std::vector<std::unordered_map<uint32_t, int32_t>> newVec;
-
-                    for(auto pair : _varModifiers){
-                        for(uint32_t i = 0; i < pair.second.size()-1; i++){
-                            std::unordered_map<uint32_t, int32_t> emptyMap;
-                            newVec.push_back(emptyMap);
-                        }
-                        break;
-                    }
-                    std::unordered_map<uint32_t, int32_t> newMap;
-                    newMap[_index] = 0;
-                    newVec.push_back(newMap);
-                    _varModifiers[e->variable()] = newVec;
-                } else {
-                    _varModifiers[e->variable()].back()[_index] = 0;
-                }
+                auto& modifiers = _varModifiers[e->variable()];
+                if(modifiers.size() <= _term)
+                    modifiers.resize(_term + 1);
+                //The variables of a subtraction are not bound by the tokens
+                if(!_in_subtraction)
+                    modifiers[_term][_index] = 0;
             }
 
             virtual void accept(const UserOperatorExpression* e)
@@ -101,7 +90,8 @@ namespace PetriEngine {
                 auto indexBefore = _index;
                 e->child()->visit(*this);
                 for(auto& varModifierPair : _varModifiers){
-                    for(auto& idModPair : varModifierPair.second.back()){
+                    if(varModifierPair.second.size() <= _term) continue;
+                    for(auto& idModPair : varModifierPair.second[_term]){
                         if(idModPair.first <= _index && idModPair.first >= indexBefore){
                             --idModPair.second;
                         }
@@ -119,7 +109,8 @@ namespace PetriEngine {
                 auto indexBefore = _index;
                 e->child()->visit(*this);
                 for(auto& varModifierPair : _varModifiers){
-                    for(auto& idModPair : varModifierPair.second.back()){
+                    if(varModifierPair.second.size() <= _term) continue;
+                    for(auto& idModPair : varModifierPair.second[_term]){
                         if(idModPair.first <= _index && idModPair.first >= indexBefore){
                             ++idModPair.second;
                         }
@@ -207,49 +198,31 @@ namespace PetriEngine {
 
             virtual void accept(const AddExpression* add)
             {
+                bool first = true;
                 for (const auto& elem : *add) {
-                    for (auto& pair : _varModifiers) {
-                        pair.second.emplace_back();
-                    }
-                    
+                    if (!first && !_in_subtraction)
+                        ++_term;
+                    first = false;
                     _index = 0;
                     elem->visit(*this);
                 }
-
-                if (add->back()->is_number_of()) {
-                    const auto& numberOfExpr = std::static_pointer_cast<const NumberOfExpression>(add->back());
-                    if (is_last_variable_expr(*numberOfExpr->back())) {
-                        for (auto& pair : _varModifiers) {
-                            pair.second.emplace_back();
-                        }
-                    }
+                for (auto& pair : _varModifiers) {
+                    pair.second.resize(_term + 1);
                 }
             }
 
             virtual void accept(const SubtractExpression* sub)
             {
-                for (auto& pair : _varModifiers) {
-                    pair.second.emplace_back();
-                }
+                const bool nested = _in_subtraction;
+                _in_subtraction = true;
                 _index = 0;
                 (*sub)[0]->visit(*this);
                 //We ignore the restrictions imposed by the subtraction for now
                 if(_include_subtracts){
-                    for (auto& pair : _varModifiers) {
-                        pair.second.emplace_back();
-                    }
                     _index = 0;
                     (*sub)[1]->visit(*this);
-
-                    if ((*sub)[1]->is_number_of()) {
-                        const auto& numberOfExpr = std::static_pointer_cast<const NumberOfExpression>((*sub)[1]);
-                        if (is_last_variable_expr(*numberOfExpr->back())) {
-                            for (auto& pair : _varModifiers) {
-                                pair.second.emplace_back();
-                            }
-                        }
-                    }
                 }
+                _in_subtraction = nested;
             }
 
             virtual void accept(const ScalarProductExpression* scalar)
@@ -288,32 +261,6 @@ namespace PetriEngine {
 
                 get_variables(e, variables, varPositions, varModifierMap, tuples, true);
             }
-
-        private:
-            bool is_last_variable_expr(const ColorExpression& expr) const {
-                std::stack<const ColorExpression*> stack;
-                stack.push(&expr);
-
-                while (!stack.empty()) {
-                    const auto* currentExpr = stack.top();
-                    stack.pop();
-
-                    if (currentExpr->is_variable()) {
-                        return true;
-                    } else if (currentExpr->is_predecessor()) {
-                        stack.push(static_cast<const PredecessorExpression*>(currentExpr)->child().get());
-                    } else if (currentExpr->is_successor()) {
-                        stack.push(static_cast<const SuccessorExpression*>(currentExpr)->child().get());
-                    } else if (currentExpr->is_tuple()) {
-                        const auto* tupleExpr = static_cast<const TupleExpression*>(currentExpr);
-                        for (const auto& tupleElem : *tupleExpr) {
-                            stack.push(tupleElem.get());
-                        }
-                    }
-                }
-
-                return false;
-            }
         };
     }
 }
diff --git a/src/PetriEngine/Colored/IntervalGenerator.cpp b/src/PetriEngine/Colored/IntervalGenerator.cpp
index 9c7cf86..f00699f 100644
--- a/src/PetriEngine/Colored/IntervalGenerator.cpp
+++ b/src/PetriEngine/Colored/IntervalGenerator.cpp
@@ -93,8 +93,8 @@ namespace PetriEngine {
 
                 getArcVarIntervals(varIntervals, pair.second[tuplePos], interval, varColorTypes);
 
-                if (arcIntervals._intervalTupleVec.size() > 1 && pair.second[tuplePos].empty()) {
-                    //The variable is not on this side of the add expression, so we add a full interval to compare against for the other side
+                if (pair.second[tuplePos].empty()) {
+                    //The variable is not on this side of the add expression (or only in a subtraction), so we add a full interval to compare against for the other side
                     varIntervals.addInterval(pair.first->colorType->getFullInterval());
                 }
 
@@ -136,8 +136,8 @@ namespace PetriEngine {
                     assert(pair.second.size() > tuplePos);
                     getArcVarIntervals(varIntervals, pair.second[tuplePos], interval, varColorTypes);
 
-                    if(arcIntervals._intervalTupleVec.size() > 1 && pair.second[tuplePos].empty()){
-                        //The variable is not on this side of the add expression, so we add a full interval to compare against for the other side
+                    if(pair.second[tuplePos].empty()){
+                        //The variable is not on this side of the add expression (or only in a subtraction), so we add a full interval to compare against for the other side
                         varIntervals.addInterval(pair.first->colorType->getFullInterval());
                     } else if(varIntervals.size() < 1){
                         //If any varinterval ends up empty then we were unable to use this arc interval
-- 
2.43.0


From 08f78dc7f9a4e30ab01cb0dcb81f9842964b1d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 39/61] fix: taking several colors at once required them in one
 interval of the color fixpoint

---
 include/PetriEngine/Colored/ArcIntervalVisitor.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/PetriEngine/Colored/ArcIntervalVisitor.h b/include/PetriEngine/Colored/ArcIntervalVisitor.h
index 476a493..c31fd86 100644
--- a/include/PetriEngine/Colored/ArcIntervalVisitor.h
+++ b/include/PetriEngine/Colored/ArcIntervalVisitor.h
@@ -171,11 +171,18 @@ namespace PetriEngine {
 
             virtual void accept(const NumberOfExpression* e)
             {
-                _index = 0;
+                //Every color has to be present, but not in the same interval
+                Colored::interval_vector_t all;
                 for (const auto& elem : *e) {
+                    _index = 0;
+                    _arcIntervals._intervalTupleVec.clear();
                     elem->visit(*this);
                     if(!_ok) return;
+                    for (const auto& interval : _arcIntervals._intervalTupleVec[0]) {
+                        all.addInterval(interval);
+                    }
                 }
+                _arcIntervals._intervalTupleVec[0] = std::move(all);
             }
 
             virtual void accept(const AddExpression* e)
-- 
2.43.0


From 187a7f7d6000e454b5754829eec0d749deba9a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 40/61] fix: colors from 'all' over a product sort are tuples
 of their constituents

---
 src/PetriParse/PNMLParser.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index 7839e1c..7db1d73 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -528,8 +528,17 @@ std::vector<ColorExpression_ptr> PNMLParser::parseColorExpression(rapidxml::xml_
     } else if (strcmp(element->name(), "all") == 0) {
         auto* sort = parseUserSort(element);
         std::vector<ColorExpression_ptr> colors;
-        for(size_t i = 0; i < sort->size(); ++i)
-            colors.emplace_back(std::make_shared<UserOperatorExpression>(&(*sort)[i]));
+        for(size_t i = 0; i < sort->size(); ++i) {
+            const auto* color = &(*sort)[i];
+            if(sort->productSize() > 1) {
+                std::vector<ColorExpression_ptr> constituents;
+                for(auto* constituent : color->getTupleColors())
+                    constituents.emplace_back(std::make_shared<UserOperatorExpression>(constituent));
+                colors.emplace_back(std::make_shared<TupleExpression>(std::move(constituents), sort));
+            } else {
+                colors.emplace_back(std::make_shared<UserOperatorExpression>(color));
+            }
+        }
         return colors;
     }
     throw base_error("Unhandled color type");
-- 
2.43.0


From 01f9ac68c2cc7996d96d2dbe6aea5ad013edfb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:26 +0000
Subject: [PATCH 41/61] fix: constants were replaced by their class before
 successors and subtractions were applied

---
 src/PetriEngine/Colored/EvaluationVisitor.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/PetriEngine/Colored/EvaluationVisitor.cpp b/src/PetriEngine/Colored/EvaluationVisitor.cpp
index b657840..fc642f0 100644
--- a/src/PetriEngine/Colored/EvaluationVisitor.cpp
+++ b/src/PetriEngine/Colored/EvaluationVisitor.cpp
@@ -17,15 +17,8 @@ namespace PetriEngine {
         }
 
         void EvaluationVisitor::accept(const UserOperatorExpression* e) {
-            if(_context.placePartition.getEquivalenceClasses().empty()){
-                _cres = e->user_operator();
-            } else {
-                std::vector<uint32_t> tupleIds;
-                e->user_operator()->getTupleId(tupleIds);
-
-                _context.placePartition.applyPartition(tupleIds);
-                _cres = e->user_operator()->getColorType()->getColor(tupleIds);
-            }
+            // colors are mapped to their class once the whole expression is evaluated (see Unfolder)
+            _cres = e->user_operator();
         }
 
         void EvaluationVisitor::accept(const SuccessorExpression* e) {
-- 
2.43.0


From 3d55bb266ea6a1ae114fbdf6bb073cd08b73dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:53 +0000
Subject: [PATCH 42/61] fix: the search heuristic could follow a query that
 another engine answers

---
 .../PetriEngine/Reachability/ReachabilitySearch.h   | 13 +++++++++++--
 src/PetriEngine/Reachability/ReachabilitySearch.cpp | 10 +---------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/PetriEngine/Reachability/ReachabilitySearch.h b/include/PetriEngine/Reachability/ReachabilitySearch.h
index d39b177..817c3a5 100644
--- a/include/PetriEngine/Reachability/ReachabilitySearch.h
+++ b/include/PetriEngine/Reachability/ReachabilitySearch.h
@@ -96,6 +96,15 @@ namespace PetriEngine {
                 size_t seed,
                 const std::vector<MarkVal>& initPotencies);
 
+            // the first query from the given one on that this search has to answer, if any
+            static size_t openQuery(const std::vector<ResultPrinter::Result>& results, size_t from) {
+                for (size_t n = 0; n < results.size(); ++n) {
+                    if (results[(from + n) % results.size()] == ResultPrinter::Unknown)
+                        return (from + n) % results.size();
+                }
+                return from;
+            }
+
             void printStats(searchstate_t& s, Structures::StateSetInterface*, StatisticsLevel);
 
             virtual bool checkQueries(std::vector<std::shared_ptr<PQL::Condition > >&,
@@ -139,7 +148,7 @@ namespace PetriEngine {
             ss.enabledTransitionsCount.resize(_net.numberOfTransitions(), 0);
             ss.expandedStates = 0;
             ss.exploredStates = 1;
-            ss.heurquery = queries.size() >= 2 ? std::rand() % queries.size() : 0;
+            ss.heurquery = openQuery(results, queries.size() >= 2 ? std::rand() % queries.size() : 0);
             ss.usequeries = usequeries;
 
             // set up working area
@@ -239,7 +248,7 @@ namespace PetriEngine {
             ss.enabledTransitionsCount.resize(_net.numberOfTransitions(), 0);
             ss.expandedStates = 0;
             ss.exploredStates = 1;
-            ss.heurquery = queries.size() >= 2 ? std::rand() % queries.size() : 0;
+            ss.heurquery = openQuery(results, queries.size() >= 2 ? std::rand() % queries.size() : 0);
             ss.usequeries = usequeries;
             const PQL::Condition *query = queries[ss.heurquery].get();
 
diff --git a/src/PetriEngine/Reachability/ReachabilitySearch.cpp b/src/PetriEngine/Reachability/ReachabilitySearch.cpp
index 796e5e8..1eb5042 100644
--- a/src/PetriEngine/Reachability/ReachabilitySearch.cpp
+++ b/src/PetriEngine/Reachability/ReachabilitySearch.cpp
@@ -60,15 +60,7 @@ namespace PetriEngine {
                 if( i == ss.heurquery &&
                     results[i] != ResultPrinter::Unknown)
                 {
-                    if(queries.size() >= 2)
-                    {
-                        for(size_t n = 1; n < queries.size(); ++n)
-                        {
-                            ss.heurquery = (ss.heurquery + n) % queries.size();
-                            if(results[i] == ResultPrinter::Unknown)
-                                break;
-                        }
-                    }
+                    ss.heurquery = openQuery(results, ss.heurquery);
                 }
             }
             return alldone;
-- 
2.43.0


From feaa08a1e9d56db73d729c84b0d3121402b33b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:46 +0000
Subject: [PATCH 43/61] fix: partitioning merged colors compared by using a
 variable twice in a tuple

---
 src/PetriEngine/Colored/PartitionBuilder.cpp | 34 ++++++++------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index adb9c20..d9e950e 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -139,27 +139,21 @@ namespace PetriEngine {
         //If the place is does not have a product colortype mark the whole place as diagonal, otherwise only the positions
         void PartitionBuilder::checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, bool inputArc){
             for(const auto &varModMap : varModifierMap){
-                if(varModMap.second.size() > 1){
-                    uint32_t actualSize = 0;
-                    std::vector<uint32_t> positions;
-                    for(const auto &map : varModMap.second){
-                        if(!map.empty()){
-                            for(auto position : map){
-                                positions.push_back(position.first);
-                            }
-                            actualSize++;
-                        }
+                std::vector<uint32_t> positions;
+                for(const auto &map : varModMap.second){
+                    for(auto position : map){
+                        positions.push_back(position.first);
                     }
-                    if(actualSize > 1) {
-                        diagonalVars.insert(varModMap.first);
-                        if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
-                            _partition[placeId].setDiagonal(true);
-                        } else {
-                            for(auto pos : positions){
-                                if(!_partition[placeId].getDiagonalTuplePositions()[pos]){
-                                    if(inputArc) addToQueue(placeId);
-                                    _partition[placeId].setDiagonalTuplePosition(pos,true);
-                                }
+                }
+                if(positions.size() > 1) {
+                    diagonalVars.insert(varModMap.first);
+                    if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
+                        _partition[placeId].setDiagonal(true);
+                    } else {
+                        for(auto pos : positions){
+                            if(!_partition[placeId].getDiagonalTuplePositions()[pos]){
+                                if(inputArc) addToQueue(placeId);
+                                _partition[placeId].setDiagonalTuplePosition(pos,true);
                             }
                         }
                     }
-- 
2.43.0


From 0a53f5a72ab566b2251445e2fd16f0542d527c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:23 +0000
Subject: [PATCH 44/61] fix: variables were taken as symmetric although arcs
 tell them apart

---
 include/PetriEngine/Colored/SymmetryVisitor.h |  4 ++--
 src/PetriEngine/Colored/VariableSymmetry.cpp  | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/PetriEngine/Colored/SymmetryVisitor.h b/include/PetriEngine/Colored/SymmetryVisitor.h
index a29c637..cb6226a 100644
--- a/include/PetriEngine/Colored/SymmetryVisitor.h
+++ b/include/PetriEngine/Colored/SymmetryVisitor.h
@@ -111,13 +111,13 @@ namespace PetriEngine {
             virtual void accept(const NumberOfExpression* no)
             {
                 //Not entirely sure what to do if there is more than one colorExpression, but should probably return false
-                if(no->size() > 1){
+                //and only plain variables can be swapped
+                if(no->size() != 1 || !(*no)[0]->is_variable()){
                     _ok = false;
                 }
                 else
                 {
                     _numbers.emplace_back(no->number());
-                    //Maybe we need to check color expression also
                 }
             }
 
diff --git a/src/PetriEngine/Colored/VariableSymmetry.cpp b/src/PetriEngine/Colored/VariableSymmetry.cpp
index 2f36a71..fdc9746 100644
--- a/src/PetriEngine/Colored/VariableSymmetry.cpp
+++ b/src/PetriEngine/Colored/VariableSymmetry.cpp
@@ -44,6 +44,10 @@ namespace PetriEngine {
                             if (inArcVars.size() < 2) {
                                 continue;
                             }
+                            //Swapping is not possible if some of the variables occur more often
+                            if (inArcVars.size() != numbers.size()) {
+                                continue;
+                            }
                             //The variables may appear only on one input arc and one output arc
                             checkSymmetricVarsInArcs(transition, inArc, inArcVars, isEligible);
 
@@ -97,6 +101,12 @@ namespace PetriEngine {
                         isEligible = false;
                         break;
                     }
+                    //The variables have to be interchangeable on the output arc as well
+                    auto [outEligible, numbers] = Colored::SymmetryVisitor::eligible_for_symmetry(*outputArc.expr);
+                    if (!outEligible || numbers.size() != inArcVars.size()) {
+                        isEligible = false;
+                        break;
+                    }
                     numArcs++;
                     //All vars were present
                     foundSomeVars = false;
-- 
2.43.0


From d833ec9c2a183d82910ad99cf7845b0b3d50e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:01 +0000
Subject: [PATCH 45/61] fix: an inequality guard between variables restricted
 them as if they were equal

---
 src/PetriEngine/Colored/GuardRestrictor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index d8ece20..343c1c0 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -445,7 +445,8 @@ namespace PetriEngine{
             if((leftColorsBefore > 1 && rightColorsBefore > 1) || leftColorsBefore == 0 || rightColorsBefore == 0){
                 //If both variables have more than one color in their interval we cannot restrict the intervals
                 //and if either side did not have any colors the varmap is not valid.
-                return;
+                variableMap[varMapIndex][var1] = variableMapCopy[varMapIndex].find(var1)->second;
+                variableMap[varMapIndex][var2] = variableMapCopy[varMapIndex].find(var2)->second;
             } else if (leftColorsBefore == 1 && rightColorsBefore == 1){
                 //if we are comparing single colors and there is an interval after equality
                 //it means the colors were equal so no interval can be kept for inequality.
-- 
2.43.0


From 609d36153e41798b5e4a2b5fc0636645cb8c93f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:01 +0000
Subject: [PATCH 46/61] fix: variables that occur on output arcs only were
 bound by another position of the tuple

---
 src/PetriEngine/Colored/ForwardFixedPoint.cpp | 46 ++++---------------
 1 file changed, 8 insertions(+), 38 deletions(-)

diff --git a/src/PetriEngine/Colored/ForwardFixedPoint.cpp b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
index b529c38..9af5a02 100644
--- a/src/PetriEngine/Colored/ForwardFixedPoint.cpp
+++ b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
@@ -302,44 +302,14 @@ namespace PetriEngine {
                     transitionHasVars = true;
                 }
 
-
-
-                //Apply partitioning to unbound outgoing variables such that
-                // bindings are only created for colors used in the rest of the net
-                if (_partition.computed() && !_partition.partition()[arc.place].isDiagonal()) {
-                    int i = 0;
-                    for (auto* outVar : variables) {
-                        for (auto& varMap : _transition_variable_maps[transition_id]) {
-                            if (varMap.count(outVar) == 0) {
-                                Colored::interval_vector_t varIntervalTuple;
-                                for (const auto& EqClass : _partition.partition()[arc.place].getEquivalenceClasses()) {
-                                    interval_t ci;
-                                    // TODO: this looks odd. Why are we only using the last of the intervals?
-                                    auto canonical = EqClass.intervals().back().getCanonicalInterval();
-                                    for(size_t n = 0; n < outVar->colorType->productSize(); ++n)
-                                    {
-                                        ci.addRange(canonical[i + n]);
-                                    }
-                                    varIntervalTuple.addInterval(ci);
-                                }
-                                assert(outVar->colorType->productSize() == varIntervalTuple.size());
-                                varIntervalTuple.simplify();
-                                varMap[outVar] = std::move(varIntervalTuple);
-                            }
-                        }
-                        i += outVar->colorType->productSize();
-                    }
-                } else {
-                    // Else if partitioning was not computed or diagonal
-                    // and there is a varaible which was not found on an input arc or in the guard,
-                    // we give it the full interval
-                    for (auto* var : variables) {
-                        for (auto& varmap : _transition_variable_maps[transition_id]) {
-                            if (varmap.count(var) == 0) {
-                                Colored::interval_vector_t intervalTuple;
-                                intervalTuple.addInterval(var->colorType->getFullInterval());
-                                varmap[var] = std::move(intervalTuple);
-                            }
+                // if there is a variable which was not found on an input arc or in the guard,
+                // we give it the full interval
+                for (auto* var : variables) {
+                    for (auto& varmap : _transition_variable_maps[transition_id]) {
+                        if (varmap.count(var) == 0) {
+                            Colored::interval_vector_t intervalTuple;
+                            intervalTuple.addInterval(var->colorType->getFullInterval());
+                            varmap[var] = std::move(intervalTuple);
                         }
                     }
                 }
-- 
2.43.0


From b0275f27ebea25cf1062e6b824c3a4b744b3902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 47/61] fix: comparisons that hold always or never were merged
 into conjunctions that cannot express them

---
 src/PetriEngine/PQL/Expressions.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index 8611cde..42c5b83 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -69,6 +69,18 @@ namespace PetriEngine {
                         return;
                     }
 
+                    // the (unsigned) constraints of a conjunction cannot express comparisons that hold always or never
+                    const bool id_first = dynamic_cast<UnfoldedIdentifierExpr*>((*comp)[0].get()) != nullptr;
+                    EvaluationContext context;
+                    auto bound = PetriEngine::PQL::evaluate((*comp)[id_first ? 1 : 0].get(), context);
+                    if(id_first && std::dynamic_pointer_cast<LessThanCondition>(ptr)) --bound;
+                    if(!id_first && std::dynamic_pointer_cast<LessThanOrEqualCondition>(ptr)) --bound;
+                    if(bound < 0)
+                    {
+                        _conds.emplace_back(ptr);
+                        return;
+                    }
+
                     std::vector<Condition_ptr> cnds{ptr};
                     auto cmp = std::make_shared<CompareConjunction>(cnds, std::is_same<T, OrCondition>::value);
                     tryMerge<T>(_conds, cmp, aggressive);
-- 
2.43.0


From 929e27a0377f479349aeffad594a01f7c265cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 48/61] fix: upper-bound queries were written as XML that
 cannot be read back

---
 src/PetriEngine/PQL/XMLPrinter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PetriEngine/PQL/XMLPrinter.cpp b/src/PetriEngine/PQL/XMLPrinter.cpp
index 8fcc8d6..989cf88 100644
--- a/src/PetriEngine/PQL/XMLPrinter.cpp
+++ b/src/PetriEngine/PQL/XMLPrinter.cpp
@@ -172,6 +172,12 @@ namespace PetriEngine {
         }
 
         void XMLPrinter::_accept(const EFCondition *condition) {
+            if(std::dynamic_pointer_cast<UnfoldedUpperBoundsCondition>(condition->getCond()) ||
+               std::dynamic_pointer_cast<UpperBoundsCondition>(condition->getCond())) {
+                // a bound is a formula of its own
+                Visitor::visit(this, condition->getCond());
+                return;
+            }
             Tag ep(this, "exists-path");
             {
                 Tag f(this, "finally");
-- 
2.43.0


From c47e288bab77036bdbadfa60938dac90df1ce7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 49/61] fix: solved LTL queries kept in a query file were
 rejected when read back

---
 include/LTL/LTLValidator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/LTL/LTLValidator.h b/include/LTL/LTLValidator.h
index 7953bb0..17b8f44 100644
--- a/include/LTL/LTLValidator.h
+++ b/include/LTL/LTLValidator.h
@@ -54,7 +54,8 @@ namespace LTL {
                         return false;
                 } while(path = std::dynamic_pointer_cast<PetriEngine::PQL::PathQuant>(path->child()));
                 Visitor::visit(this, last->child());
-            } else {
+            } else if(!condition->is<PetriEngine::PQL::BooleanCondition>()) {
+                // constants (queries that are already solved) hold on every path
                 _bad = true;
             }
             return !bad();
-- 
2.43.0


From b5542872b074c129a8654ed71ab7ed117bb39fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 50/61] fix: stubborn sets ignored places below a unary minus

---
 src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index 4a80cd8..6602b7b 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -337,12 +337,12 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::MinusExpr *element)
     {
-        // TODO not implemented
+        Visitor::visit(decr, (*element)[0]);
     }
 
     void InterestingTransitionVisitor::DecrVisitor::_accept(const PQL::MinusExpr *element)
     {
-        // TODO not implemented
+        Visitor::visit(incr, (*element)[0]);
     }
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::LiteralExpr *element)
-- 
2.43.0


From 1dfe9bd3b8a3a28e216edb6a49a833d1f697ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 51/61] fix: stubborn sets took products with a negative
 constant as increasing

---
 src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index 6602b7b..54898a4 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -311,7 +311,7 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::MultiplyExpr *element)
     {
-        if ((element->places().size() + element->expressions().size()) == 1) {
+        if (element->constant() >= 0 && (element->places().size() + element->expressions().size()) == 1) {
             for (auto &i : element->places()) _stubborn.presetOf(i.first, closure);
             for (auto &e : element->expressions()) Visitor::visit(this, e);
         } else {
@@ -328,7 +328,7 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::DecrVisitor::_accept(const PQL::MultiplyExpr *element)
     {
-        if ((element->places().size() + element->expressions().size()) == 1) {
+        if (element->constant() >= 0 && (element->places().size() + element->expressions().size()) == 1) {
             for (auto &i : element->places()) _stubborn.postsetOf(i.first, closure);
             for (auto &e : element->expressions()) Visitor::visit(this, e);
         } else
-- 
2.43.0


From ceb81ac1797999f8bfd6f8eca24e23b080a823f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:24 +0000
Subject: [PATCH 52/61] fix: only the first of several synthesis queries was
 answered

---
 src/main.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 9f2094d..275d891 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -476,9 +476,10 @@ int main(int argc, const char** argv) {
 
                 if (strategy_out != nullptr && strategy_out != &std::cout)
                     delete strategy_out;
-                if (std::find(results.begin(), results.end(), ResultPrinter::Unknown) == results.end()) {
-                    return to_underlying(ReturnValue::SuccessCode);
-                }
+            }
+            if (!synth_ids.empty() &&
+                std::find(results.begin(), results.end(), ResultPrinter::Unknown) == results.end()) {
+                return to_underlying(ReturnValue::SuccessCode);
             }
 
 
-- 
2.43.0


From 941049e337f267a34c074989b1ed5d75abd165ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:24 +0000
Subject: [PATCH 53/61] fix: synthesis queries that simplify to a constant were
 rejected

---
 src/PetriEngine/PQL/PushNegation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PetriEngine/PQL/PushNegation.cpp b/src/PetriEngine/PQL/PushNegation.cpp
index 1ae0820..8e6b15b 100644
--- a/src/PetriEngine/PQL/PushNegation.cpp
+++ b/src/PetriEngine/PQL/PushNegation.cpp
@@ -108,6 +108,8 @@ namespace PetriEngine { namespace PQL {
 
     void PushNegationVisitor::_accept(ControlCondition *element) {
         auto res = subvisit((*element)[0], false, negated);
+        if (res->isTriviallyTrue() || res->isTriviallyFalse())
+            RETURN(res)
         return_value = std::make_shared<ControlCondition>(res);
     }
 
-- 
2.43.0


From 058e541e9a439c573d044b013b89c9f0cc18bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:24 +0000
Subject: [PATCH 54/61] fix: partial order reduction for games gave up on
 predicates with a constant

---
 include/PetriEngine/PQL/PlaceUseVisitor.h | 1 +
 src/PetriEngine/PQL/PlaceUseVisitor.cpp   | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/PetriEngine/PQL/PlaceUseVisitor.h b/include/PetriEngine/PQL/PlaceUseVisitor.h
index 9354fc4..b0c85ad 100644
--- a/include/PetriEngine/PQL/PlaceUseVisitor.h
+++ b/include/PetriEngine/PQL/PlaceUseVisitor.h
@@ -48,6 +48,7 @@ namespace PQL {
         virtual void _accept(const MinusExpr* element) override;
         virtual void _accept(const SubtractExpr* element) override;
         virtual void _accept(const DeadlockCondition* element) override;
+        virtual void _accept(const BooleanCondition* element) override;
         virtual void _accept(const CompareConjunction* element) override;
         virtual void _accept(const UnfoldedUpperBoundsCondition* element) override;
 
diff --git a/src/PetriEngine/PQL/PlaceUseVisitor.cpp b/src/PetriEngine/PQL/PlaceUseVisitor.cpp
index 422277c..d524026 100644
--- a/src/PetriEngine/PQL/PlaceUseVisitor.cpp
+++ b/src/PetriEngine/PQL/PlaceUseVisitor.cpp
@@ -49,6 +49,11 @@ namespace PQL {
             Visitor::visit(this, (*element)[i]);
     }
 
+    void PlaceUseVisitor::_accept(const BooleanCondition* element)
+    {
+        // uses no places
+    }
+
     void PlaceUseVisitor::_accept(const EqualCondition* element)
     {
         for(auto i : {0,1})
-- 
2.43.0


From 51b432d2f759cdca23d9f67513633d9ac94fb20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:40 +0000
Subject: [PATCH 55/61] fix: controllable self loops were not taken as a safe
 choice in safety games

---
 src/PetriEngine/Synthesis/SimpleSynthesis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
index 787abb0..71b1db1 100644
--- a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
+++ b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
@@ -465,6 +465,7 @@ namespace PetriEngine {
                 some = true;
                 if (&child == &cconf) {
                     if (_is_safety) { // maybe a win if safety ( no need to explore more)
+                        some_winning = true;
                         cconf._state = SynthConfig::MAYBE;
                         if (!permissive) {
                             ctrl_buffer.clear();
-- 
2.43.0


From 45135711498c7f6dd676af70472ceed37c198a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:40 +0000
Subject: [PATCH 56/61] fix: printed strategies offered moves to configurations
 that were never explored

---
 src/PetriEngine/Synthesis/SimpleSynthesis.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
index 71b1db1..779f55d 100644
--- a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
+++ b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
@@ -347,6 +347,8 @@ namespace PetriEngine {
             {
                 auto res = _stateset.add(working);
                 missing.emplace(res.second);
+                auto& state = _stateset.get_data(res.second)._state;
+                state = state | SynthConfig::PRINTED;
             }
             if (&out == &std::cout) out << "\n##BEGIN STRATEGY##\n";
             out << "{\n";
@@ -384,6 +386,9 @@ namespace PetriEngine {
                         auto state = _stateset.get_data(res.second)._state;
                         if ((state & SynthConfig::LOSING)) continue;
                         if (!_is_safety && (state & SynthConfig::WINNING) == 0) continue;
+                        // nothing is known about the outcome from successors that were never explored
+                        if ((state & SynthConfig::UNKNOWN)) continue;
+                        if (seen_win && (state & SynthConfig::WINNING) == 0) continue;
                         if ((state & SynthConfig::WINNING) && !seen_win) {
                             seen_win = true;
                             winning.clear();
-- 
2.43.0


From 91f7276c1c9aaffb24bea7bbd35784ce105bebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:45 +0000
Subject: [PATCH 57/61] fix: token bounds of the game reduction left out the
 tokens already there

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index 72f284b..bcf1484 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -135,7 +135,7 @@ namespace PetriEngine {
                         while (fout < lout && fout->place < finv->place)
                             ++fout;
                         if (fout < lout && fout->place == finv->place) {
-                            mx = std::min(_place_bounds[finv->place].second / (fout->tokens - finv->tokens), mx);
+                            mx = std::min(_place_bounds[finv->place].second / (finv->tokens - fout->tokens), mx);
                         } else {
                             mx = std::min(_place_bounds[finv->place].second / finv->tokens, mx);
                         }
@@ -160,7 +160,7 @@ namespace PetriEngine {
                 _places_seen[p] &= ~WAITING;
 
                 // place loop
-                uint64_t sum = 0;
+                uint64_t sum = (*_parent)[p];
                 for (auto ti = _places[p].pre; ti != _places[p].post; ++ti) {
                     const auto& arc = _arcs[ti];
                     if (arc.direction <= 0 ||
-- 
2.43.0


From 728444874429b0594f078acb1f163b39237143b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:40 +0000
Subject: [PATCH 58/61] fix: the game reduction overlooked transitions that
 only take tokens from places of the query

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index bcf1484..2e7d847 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -248,13 +248,16 @@ namespace PetriEngine {
         bool GameStubbornSet::approximateFuture(const bool ctrl) {
             std::stack<uint32_t> waiting;
             std::fill(_future_enabled.begin(), _future_enabled.end(), false);
-            auto color_transition = [this, &waiting](auto t) {
+            bool seen_from_query = false;
+            auto color_transition = [this, &waiting, &seen_from_query](auto t) {
                 _future_enabled[t] = true;
-                if (_netContainsInhibitorArcs) {
+                {
                     // check for decrementors
                     auto [finv, linv] = _net.preset(t);
 
                     for (; finv < linv; ++finv) {
+                        if (finv->direction < 0 && _in_query[finv->place])
+                            seen_from_query = true;
                         if (finv->direction < 0 && _inhibiting_place[finv->place]) {
                             if ((_places_seen[finv->place] & DECR) == 0)
                                 waiting.push(finv->place);
@@ -283,7 +286,6 @@ namespace PetriEngine {
             }
 
             // saturate
-            bool seen_from_query = false;
             while (!waiting.empty()) {
                 auto p = waiting.top();
                 waiting.pop();
-- 
2.43.0


From ded8e0b9b101700496f75ad66802baa768ae225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 59/61] fix: value ranges of differences and negated terms in
 the game reduction

---
 include/PetriEngine/Synthesis/IntervalVisitor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/PetriEngine/Synthesis/IntervalVisitor.h b/include/PetriEngine/Synthesis/IntervalVisitor.h
index 3b0a0ab..d2c2d73 100644
--- a/include/PetriEngine/Synthesis/IntervalVisitor.h
+++ b/include/PetriEngine/Synthesis/IntervalVisitor.h
@@ -315,6 +315,7 @@ namespace PetriEngine {
             }
 
             virtual void _accept(const PQL::MinusExpr *element) {
+                Visitor::visit(this, (*element)[0]);
                 _bound_tos.first *= -1;
                 _bound_tos.second *= -1;
                 std::swap(_bound_tos.first, _bound_tos.second);
@@ -328,8 +329,7 @@ namespace PetriEngine {
                     Visitor::visit(this, e);
                     if(first)
                     {
-                        bounds.first = _bound_tos.second;
-                        bounds.second = _bound_tos.first;
+                        bounds = _bound_tos;
                         first = false;
                     }
                     else
-- 
2.43.0


From 2e291f7d9e596ecdb3669eee42383553d98ac1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:59 +0000
Subject: [PATCH 60/61] fix: the game reduction overlooked transitions that
 become enabled when an inhibiting place loses tokens

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index 2e7d847..be5a28d 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -294,12 +294,8 @@ namespace PetriEngine {
                 }
                 if ((_places_seen[p] & INCR) != 0 ||
                     (_inhibiting_place[p] && (_places_seen[p] & DECR) != 0)) {
-                    auto pf = _places[p].post;
-                    auto pl = _places[p + 1].pre;
-                    for (; pf < pl; ++pf) {
-                        if ((_future_enabled[_arcs[pf].index]) == 0 &&
-                            _net.controllable(_arcs[pf].index) == ctrl) {
-                            auto t = _arcs[pf].index;
+                    auto try_color = [&](uint32_t t) {
+                        if (!_future_enabled[t] && _net.controllable(t) == ctrl) {
                             auto [finv, linv] = _net.preset(t);
                             bool ok = true;
                             // check color of preset
@@ -323,7 +319,14 @@ namespace PetriEngine {
                                 color_transition(t);
                             }
                         }
-                    }
+                    };
+                    auto pf = _places[p].post;
+                    auto pl = _places[p + 1].pre;
+                    for (; pf < pl; ++pf)
+                        try_color(_arcs[pf].index);
+                    // transitions inhibited by p are not among those consuming from p
+                    for (auto t : _inhibpost[p])
+                        try_color(t);
                 }
             }
             return seen_from_query;
-- 
2.43.0


From 5f3484ec8b91ab1b057cadd4d6700557519e38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:43 +0000
Subject: [PATCH 61/61] fix: only one controllable transition per place was
 taken as able to enable the environment

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index be5a28d..61b2487 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -94,7 +94,6 @@ namespace PetriEngine {
                                     continue;
                                 // has to be consuming
                                 _safe_actions[id] = false;
-                                break;
                             }
                         }
                     } else {
@@ -106,7 +105,6 @@ namespace PetriEngine {
                                 if (!_net.controllable(id))
                                     continue;
                                 _safe_actions[id] = false;
-                                break;
                             }
                         }
                     }
-- 
2.43.0

