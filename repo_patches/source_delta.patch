From 6d111afc397a9414ca65377e3f9aa017111d2728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 01/23] fix: eint divided by an unsigned long must divide, not
 multiply

---
 src/PLASMA/Utils/Number.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index 3de61e7..e80f344 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -454,7 +454,7 @@ namespace EUROPA {
     inline eint operator*(const basis_type o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
     inline eint operator*(const eint o) const {return operator*(o.m_v);}
     inline eint operator/(const int o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
-    inline eint operator/(const unsigned long o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
+    inline eint operator/(const unsigned long o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const basis_type o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const eint o) const {return operator/(o.m_v);}
 
-- 
2.43.0


From 06f36d0c80e9f9bfbf4a01151293cf9dfbc4f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 02/23] fix: a finite integer modulo minus infinity is that
 integer, not its negation

---
 src/PLASMA/Utils/Number.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index e80f344..6ed2d72 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -316,7 +316,7 @@ namespace EUROPA {
   else if(static_cast<type::basis_type>(v2) == std::numeric_limits<type>::infinity())                  \
     return type(static_cast<type::basis_type>(v1), true);                                              \
   else if(static_cast<type::basis_type>(v2) == std::numeric_limits<type>::minus_infinity())            \
-    return type(-static_cast<type::basis_type>(v1), true);                                             \
+    return type(static_cast<type::basis_type>(v1), true);                                              \
 }
 
   /**
-- 
2.43.0


From ce372f8d91f965b1c865b900617c9e4b102cbf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:11 +0000
Subject: [PATCH 03/23] fix: assigning an interval domain copies the lower
 bound and openness of its source

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 9d7897b..a201263 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -660,9 +660,9 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   Domain& IntervalDomain::operator=(const Domain& dom) {
     safeComparison(*this, dom);
     check_error(m_listener.isNoId());
-    m_lb = dom.getUpperBound();
+    m_lb = dom.getLowerBound();
     m_ub = dom.getUpperBound();
-    m_closed = dom.isFinite();
+    m_closed = dom.isClosed();
     return(*this);
   }
 
-- 
2.43.0


From cefca7d882231124f23e022a4c33e71cebfa97dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 04/23] fix: equating an enumeration with an interval reports
 that the enumeration changed

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index a201263..067878f 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -167,8 +167,11 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
 		  return true;
 
 	  // Have to intersect again for the case of mixed types (enumeration and interval)
-	  if(intersect(dom) && !isEmpty())
-		  changed = dom.intersect(*this) || changed;
+	  if(intersect(dom)) {
+		  changed = true;
+		  if(!isEmpty())
+			  dom.intersect(*this);
+	  }
 
 	  return changed;
   }
-- 
2.43.0


From 3572c51a419a7e56ad9849156f9e1249e66b84b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:22 +0000
Subject: [PATCH 05/23] fix: condAllDiff/allDiff must count an interval's inner
 values when uniting it with separate values

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 68692eb..c2388f9 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1241,7 +1241,8 @@ void addToUnion(Domain **unionOfDomains,
   edouble toAddMin, toAddMax, newMin, newMax;
   domToAdd.getBounds(toAddMin, toAddMax);
   (*unionOfDomains)->getBounds(newMin, newMax);
-  bool changing = false;
+  // An enumeration cannot cover an interval's inner values, even if its bounds do.
+  bool changing = (*unionOfDomains)->isEnumerated();
   if (toAddMin < newMin) {
     newMin = toAddMin;
     changing = true;
-- 
2.43.0


From 7147d364607372a5bee796a156b07487c9f8379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:07 +0000
Subject: [PATCH 06/23] fix: testNeq must not remove a value from within an
 interval, nor intersect with an emptied argument

---
 .../ConstraintEngine/component/Constraints.cc  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index c2388f9..d23a692 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1948,6 +1948,17 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     check_error(variables.size() == ARG_COUNT);
   }
 
+namespace {
+// Remove a value from a domain, except from within an interval, which would have to be split.
+void removeUnlessSplit(Domain& dom, edouble value) {
+  if (dom.isInterval() &&
+      !dom.compareEqual(value, dom.getLowerBound()) &&
+      !dom.compareEqual(value, dom.getUpperBound()))
+    return;
+  dom.remove(value);
+}
+}
+
   void TestNEQ::handleExecute(){
 
     debugMsg("TestNEQ:handleExecute", "comparing " << m_arg1.toString() << " with " << m_arg2.toString());
@@ -1964,13 +1975,14 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     if(m_test.isSingleton()) {
       if(m_test.getSingletonValue() == true) { //Enforce inequality
 	if(m_arg1.isSingleton()) {
-	  m_arg2.remove(m_arg1.getSingletonValue());
+	  removeUnlessSplit(m_arg2, m_arg1.getSingletonValue());
 	}
 	if(m_arg2.isSingleton()) {
-	  m_arg1.remove(m_arg2.getSingletonValue());
+	  removeUnlessSplit(m_arg1, m_arg2.getSingletonValue());
 	}
       } else { //Enforce equality
-	m_arg2.intersect(m_arg1);
+	if(m_arg2.intersect(m_arg1) && m_arg2.isEmpty())
+	  return;
 	m_arg1.intersect(m_arg2);
       }
     }
-- 
2.43.0


From 2bf9f3a5bca5fbb837f668019d8821ac6701dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 07/23] fix: absVal went on with an emptied result domain and
 failed an internal check instead of reporting inconsistency

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index d23a692..b0eb80f 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2215,7 +2215,8 @@ void removeUnlessSplit(Domain& dom, edouble value) {
       ub = std::max(std::abs(m_y.getLowerBound()), m_y.getUpperBound());
     }
 
-    m_x.intersect(IntervalDomain(lb, ub));
+    if(m_x.intersect(IntervalDomain(lb, ub)) && m_x.isEmpty())
+      return;
     lb = m_x.getLowerBound();
     ub = m_x.getUpperBound();
 
-- 
2.43.0


From 5726f62d05b3e6def3e39a783206596007eeb329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 08/23] fix: calcDistance overestimated the least distance
 between interleaved enumerated coordinates

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index b0eb80f..b617af0 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2331,7 +2331,7 @@ void removeUnlessSplit(Domain& dom, edouble value) {
     dx.insert(std::abs(m_x1.getLowerBound() - m_x2.getUpperBound()));
     dx.insert(std::abs(m_x1.getUpperBound() - m_x2.getLowerBound()));
     dx.insert(std::abs(m_x1.getUpperBound() - m_x2.getUpperBound()));
-    if(m_x1.intersects(m_x2))
+    if(m_x1.getLowerBound() <= m_x2.getUpperBound() && m_x2.getLowerBound() <= m_x1.getUpperBound())
       dx.insert(0.0);
     dx.close();
 
@@ -2341,7 +2341,7 @@ void removeUnlessSplit(Domain& dom, edouble value) {
     dy.insert(std::abs(m_y1.getLowerBound() - m_y2.getUpperBound()));
     dy.insert(std::abs(m_y1.getUpperBound() - m_y2.getLowerBound()));
     dy.insert(std::abs(m_y1.getUpperBound() - m_y2.getUpperBound()));
-    if(m_y1.intersects(m_y2))
+    if(m_y1.getLowerBound() <= m_y2.getUpperBound() && m_y2.getLowerBound() <= m_y1.getUpperBound())
       dy.insert(0.0);
     dy.close();
 
-- 
2.43.0


From cdbf671e30947fce7b5aef2af4cd726c367e2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:52 +0000
Subject: [PATCH 09/23] fix: finding an inconsistency dropped unrelated
 constraints waiting for propagation, which were then never executed

---
 .../ConstraintEngine/component/Propagators.cc    | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index 108bed9..0a4c096 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -77,18 +77,10 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
       }
     }
 
-    // If we can continue propagation despite the discovered inconsistency,
-    // keep agenda for when the ConstraintEngine recovers and decides to resume propagation
-    if(getConstraintEngine()->provenInconsistent()) {
-        if (getConstraintEngine()->canContinuePropagation()) {
-	        debugMsg("DefaultPropagator:agenda","CE was proven inconsistent, keeping agenda because propagation can continue later");
-	        // TODO: should remove from the agenda any constraints associated with the empty variable, since it'll be relaxed and they'll ba added again
-        }
-        else {
-            m_agenda.clear();
-	        debugMsg("DefaultPropagator:agenda","Cleared agenda because CE was proven inconsistent");
-        }
-    }
+    // Keep the agenda if an inconsistency was discovered: the constraints still on it have not been
+    // executed, and nothing but a change to their own variables would put them back once the engine recovers
+    condDebugMsg(getConstraintEngine()->provenInconsistent(),
+                 "DefaultPropagator:agenda", "CE was proven inconsistent, keeping agenda because propagation can continue later");
     m_activeConstraint = 0;
   }
 
-- 
2.43.0


From ff43d4b9405d6511a3a81f52e9207e09996ebe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:34 +0000
Subject: [PATCH 10/23] fix: a constraint deactivated and reactivated while
 redundant was never executed again

---
 src/PLASMA/ConstraintEngine/base/Constraint.cc       | 4 ----
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 3 +++
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.cc b/src/PLASMA/ConstraintEngine/base/Constraint.cc
index a7168e6..67b2ded 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.cc
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.cc
@@ -293,10 +293,6 @@ Constraint::getModifiedVariables(const ConstrainedVariableId) const {
   void Constraint::undoDeactivation(){
     check_error(!Entity::isPurging());
 
-    // Prevent deactivation if redundant
-    if(isRedundant())
-      return;
-
     m_deactivationRefCount--;
 
     debugMsg("Constraint:undoDeactivation",
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 31b43cf..4b4eef7 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -1029,6 +1029,9 @@ const PropagatorId ConstraintEngine::getPropagatorByName(const std::string& name
       ConstraintId constraint = *it;
       checkError(constraint.isValid(), constraint);
       checkError(constraint->isRedundant(), "Must be redundant. Buffering error.");
+      // One that is inactive has not been executed yet: it must be when it is activated again
+      if(!constraint->isActive())
+        continue;
       constraint->deactivate();
       debugMsg("ConstraintEngine:processRedundantConstraints", constraint->toString());
     }
-- 
2.43.0


From b780d1ef6b06e2d431b3f5d319828bde6648cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:46 +0000
Subject: [PATCH 11/23] fix: specifying a value outside the derived domain
 after a retraction failed an internal check

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 4b4eef7..8c36980 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -824,8 +824,6 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     if (variable->getCurrentPropagatingConstraint().isId()) {
     	debugMsg("ConstraintEngine:emptied","Var emptied by constraint:"<< variable->getCurrentPropagatingConstraint()->toLongString());
     }
-    //check_error(m_relaxed == false);
-    check_error(m_relaxed.empty());
     getViolationMgr().handleEmpty(variable);
   }
 
-- 
2.43.0


From a205a132a616ac77815151c02eb777639ac24158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:13 +0000
Subject: [PATCH 12/23] fix: a constraint redundant from its base domains stays
 deactivated only once it has been executed and retired

---
 src/PLASMA/ConstraintEngine/base/Constraint.cc       | 11 +++++++++++
 src/PLASMA/ConstraintEngine/base/Constraint.hh       |  6 ++++++
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc |  2 +-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.cc b/src/PLASMA/ConstraintEngine/base/Constraint.cc
index 67b2ded..c6af8f3 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.cc
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.cc
@@ -25,6 +25,7 @@ Constraint::Constraint(const std::string& name,
     , m_createdBy("UNKNOWN")
     , m_deactivationRefCount(0)
     , m_isRedundant(false)
+    , m_isRetired(false)
 {
   check_error(m_constraintEngine.isValid());
   check_error(!m_variables.empty());
@@ -293,6 +294,10 @@ Constraint::getModifiedVariables(const ConstrainedVariableId) const {
   void Constraint::undoDeactivation(){
     check_error(!Entity::isPurging());
 
+    // Once retired as redundant (executed on its final arguments), it stays deactivated
+    if(m_isRetired && m_deactivationRefCount == 1)
+      return;
+
     m_deactivationRefCount--;
 
     debugMsg("Constraint:undoDeactivation",
@@ -305,6 +310,12 @@ Constraint::getModifiedVariables(const ConstrainedVariableId) const {
     }
   }
 
+  void Constraint::retire(){
+    check_error(isRedundant() && isActive());
+    m_isRetired = true;
+    deactivate();
+  }
+
   unsigned int Constraint::deactivationCount() const {return m_deactivationRefCount;}
 
   void Constraint::notifyViolated()
diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.hh b/src/PLASMA/ConstraintEngine/base/Constraint.hh
index 6aa0794..fcce23a 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.hh
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.hh
@@ -298,6 +298,11 @@ namespace EUROPA {
      */
     void setPropagator(const PropagatorId propagator);
 
+    /**
+     * @brief Called by the ConstraintEngine to deactivate a redundant constraint for good, once it has been executed.
+     */
+    void retire();
+
     bool isValid() const;
 
     Constraint(); // NO IMPL
@@ -308,6 +313,7 @@ namespace EUROPA {
     const std::string m_createdBy; /**< Populated on construction. Indicates the user that created the constraint. */
     unsigned int m_deactivationRefCount; /*!< Tracks number of outstanding deactivation calls */
     bool m_isRedundant; /*!< True of the constraint is redundant */
+    bool m_isRetired; /*!< True once deactivated for being redundant */
   };
 
   std::vector<ConstrainedVariableId> makeScope(const ConstrainedVariableId arg1);
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 8c36980..850ab5c 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -1030,7 +1030,7 @@ const PropagatorId ConstraintEngine::getPropagatorByName(const std::string& name
       // One that is inactive has not been executed yet: it must be when it is activated again
       if(!constraint->isActive())
         continue;
-      constraint->deactivate();
+      constraint->retire();
       debugMsg("ConstraintEngine:processRedundantConstraints", constraint->toString());
     }
 
-- 
2.43.0


From 84506b5adc08b762462dbde7aaf0957e89a2e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:58 +0000
Subject: [PATCH 13/23] fix: an inconsistent temporal network was reported only
 once, and then forgotten by the next propagation

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 03c106a..f746a94 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -362,6 +362,11 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
                             m_changedVariables.empty()
                             && !m_tnet->updateRequired());
 
+    // While nothing changes an inconsistent network it has to be reported again: the variable that was
+    // emptied to report it gets relaxed, and may have no active constraint left to buffer that change.
+    if (fullyPropagated && !getConstraintEngine()->getAllowViolations() && !m_tnet->propagate())
+      return true;
+
     return (!fullyPropagated);
   }
 
-- 
2.43.0


From f6af6afd395a6583e6b3f3a646a8b0989f7104f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 14/23] fix: the equality propagator linked a reactivated
 constraint twice, unlinked a deactivated one twice, and skipped intersecting
 finite with infinite domains

---
 .../component/EquivalenceClassCollection.cc   |  5 ++--
 .../component/EquivalenceClassCollection.hh   |  2 +-
 .../ConstraintEngine/component/Propagators.cc | 25 +++++++++----------
 .../ConstraintEngine/component/Propagators.hh |  2 ++
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.cc b/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.cc
index 8c16957..db7cd93 100644
--- a/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.cc
+++ b/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.cc
@@ -24,19 +24,18 @@ ConstraintNode::ConstraintNode(const ConstrainedVariableId variable)
     m_graph = graph;
 
     // Iterate over any neighbours not yet touched
-    for(std::set<ConstraintNodeId>::iterator it = m_neighbours.begin(); it != m_neighbours.end(); ++it)
+    for(std::multiset<ConstraintNodeId>::iterator it = m_neighbours.begin(); it != m_neighbours.end(); ++it)
       if(!(*it)->hasBeenUpdated(nextCycle))
 	 (*it)->update(nextCycle, connectedVariables, graph, oldGraphKeys);
   }
 
   void ConstraintNode::addNeighbour(const ConstraintNodeId node){
-    check_error(m_neighbours.find(node) == m_neighbours.end());
     m_neighbours.insert(node);
   }
 
   void ConstraintNode::removeNeighbour(const ConstraintNodeId node){
     check_error(m_neighbours.find(node) != m_neighbours.end());
-    m_neighbours.erase(node);
+    m_neighbours.erase(m_neighbours.find(node)); // Only one of possibly several links
   }
 
   EquivalenceClassCollection::EquivalenceClassCollection()
diff --git a/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.hh b/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.hh
index acdeea4..e3336d4 100644
--- a/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.hh
+++ b/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.hh
@@ -75,7 +75,7 @@ namespace EUROPA{
     const ConstrainedVariableId m_variable;
     int m_graph;
     int m_lastUpdated;
-    std::set<ConstraintNodeId> m_neighbours;
+    std::multiset<ConstraintNodeId> m_neighbours;
   };
 
   /**
diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index 0a4c096..ddecf6f 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -100,7 +100,7 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
 EqualityConstraintPropagator::EqualityConstraintPropagator(const std::string& name,
                                                            const ConstraintEngineId constraintEngine)
     : Propagator(name, constraintEngine), m_fullReprop(false), m_active(false),
-      m_eqClassCollection(), m_eqClassAgenda() {}
+      m_eqClassCollection(), m_connected(), m_eqClassAgenda() {}
 
   EqualityConstraintPropagator::~EqualityConstraintPropagator(){}
 
@@ -136,12 +136,17 @@ EqualityConstraintPropagator::EqualityConstraintPropagator(const std::string& na
     m_eqClassAgenda.erase(m_eqClassCollection.getGraphKey(y));
 
     // Now add the merged equivalence class back to the agenda
-    m_eqClassCollection.addConnection(x,y);
+    // (a constraint may be activated while it is active, in order to get propagated)
+    if(m_connected.insert(constraint).second)
+      m_eqClassCollection.addConnection(x,y);
     m_eqClassAgenda.insert(m_eqClassCollection.getGraphKey(x));
   }
 
   void EqualityConstraintPropagator::handleConstraintRemoved(const ConstraintId constraint){
     check_error(!m_active);
+    if(m_connected.erase(constraint) == 0) // Removed when it got deactivated
+      return;
+
     const ConstrainedVariableId x = constraint->getScope()[0];
     const ConstrainedVariableId y = constraint->getScope()[1];
     m_eqClassCollection.removeConnection(x, y);
@@ -153,7 +158,11 @@ EqualityConstraintPropagator::EqualityConstraintPropagator(const std::string& na
   }
 
   void EqualityConstraintPropagator::handleConstraintDeactivated(const ConstraintId constraint){
+    // Nothing gets relaxed by deactivating a constraint, so unless some class is pending (and may now be
+    // another one) there is nothing to propagate. In particular not for a redundant one on quiescence.
+    const bool reprop = updateRequired();
     handleConstraintRemoved(constraint);
+    m_fullReprop = reprop;
   }
 
   void EqualityConstraintPropagator::handleNotification(const ConstrainedVariableId variable,
@@ -177,9 +186,6 @@ void processScope(const std::set<ConstrainedVariableId>& scope) {
   if (domain.isOpen())
     return;
 
-  // Set up the initial values to match others against.
-  bool isFinite = domain.isFinite();
-
   // int domainType = domain.getType(); // Unused; see below.
 
   // Iterate over, restricting domain as we go.
@@ -204,14 +210,7 @@ void processScope(const std::set<ConstrainedVariableId>& scope) {
     if (currentDomain.isOpen())
       return;
 
-    // What if the domains are (numeric) [-Inf Inf] and (integer) [0 1] ?
-    // This would appear to incorrectly provoke an inconsistency in that case.
-    // --wedgingt@ptolemy.arc.nasa.gov 2004 Apr 22
-    //
-    //I don't even know what this is supposed to express.  It seems wrong in every case.
-    //I'm adding parens here in the most sensible-ish place to quiet a warning. ~MJI
-    if ((currentDomain.isFinite() != isFinite ||
-         domain.intersect(currentDomain)) && domain.isEmpty()) {
+    if (domain.intersect(currentDomain) && domain.isEmpty()) {
       currentDomain.empty();
       return;
     }
diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.hh b/src/PLASMA/ConstraintEngine/component/Propagators.hh
index d95128c..0d6caf2 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.hh
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.hh
@@ -93,6 +93,8 @@ namespace EUROPA {
 
     EquivalenceClassCollection m_eqClassCollection; /**< Does all the real work of managing Equivalence Classes */
 
+    std::set<ConstraintId> m_connected; /**< The constraints whose link is currently part of the equivalence class collection */
+
     std::set<int> m_eqClassAgenda; /**< Inbound notifications are translated into the affected equivalence class and stored here for
 				     processing during execution */
   };
-- 
2.43.0


From c776291f7cd80fa6ae79e1b8d47b923140a3b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:17 +0000
Subject: [PATCH 15/23] fix: removing a violated constraint left its pruning in
 place, and removing one did not retry the violated ones it conflicted with

---
 .../ConstraintEngine/base/ConstraintEngine.cc      | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 850ab5c..057620f 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -501,19 +501,25 @@ void ConstraintEngine::add(const ConstraintId constraint, const std::string& pro
 
     constraint->getPropagator()->removeConstraint(constraint);
 
-    // If the constraint is inactive, there is no need to relax. So just worry if it is actually active
-    if(constraint->isActive()){
+    // If the constraint is inactive, there is no need to relax. So just worry if it is actually active,
+    // or was deactivated for being violated, which leaves what it had pruned until then in place.
+    const bool wasViolated = getViolationMgr().isViolated(constraint);
+    getViolationMgr().handleRemoved(constraint);
+    if(constraint->isActive() || wasViolated){
     	debugMsg("ConstraintEngine:remove:Constraint",
     			"Propagating relaxations for " << constraint->getName() << "(" << constraint->getKey() << ")");
 
     	const std::vector<ConstrainedVariableId>& scope = constraint->getModifiedVariables();
     	for(std::vector<ConstrainedVariableId>::const_iterator it = scope.begin(); it != scope.end(); ++it){
     		ConstrainedVariableId id(*it);
-    		if(id->lastRelaxed() < m_cycleCount)
+    		if(id->lastRelaxed() < m_cycleCount) {
 		  id->relax();
+		  // Violated constraints get another chance, even if this domain could not be relaxed any further.
+		  if(id->lastRelaxed() < m_cycleCount && id->isActive() && getAllowViolations() && getViolation() > 0)
+		    handleRelax(id);
+		}
     	}
     }
-    getViolationMgr().handleRemoved(constraint);
 
     publish(notifyRemoved(constraint));
     debugMsg("ConstraintEngine:remove:Constraint",
-- 
2.43.0


From f0817faadddb3d244f0befb203c87a2ee9b69f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:32 +0000
Subject: [PATCH 16/23] fix: relaxing a token's variable lost the base domain
 restrictions of the tokens merged into it

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 477bcc5..fe80eab 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -284,9 +284,10 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template<class DomainType>
   void TokenVariable<DomainType>::relax() {
-    Variable<DomainType>::relax();
-
-    if(!(this->isSpecified()))
+    // Relaxing to the base domain first would lose the restrictions of merged tokens
+    if(this->isSpecified())
+    	Variable<DomainType>::relax();
+    else
     	this->m_derivedDomain->relax(*m_integratedBaseDomain);
   }
 
-- 
2.43.0


From 621e082a01d1305667584faa3ca9d51923cb3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 17/23] fix: deactivating a token whose ordering had fixed its
 object removed it from that object twice

---
 src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
index 1787531..8122684 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
@@ -146,8 +146,9 @@ namespace EUROPA {
 
       if(!active || !m_currentDomain.isMember(object)){
         debugMsg("ObjectTokenRelation:notifyRemovals", "Removing " << m_token->toString() << " from " << object->toString());
-	object->remove(m_token);
+	// Forget it first, since the removal may relax the object variable, which brings us back here.
 	m_notifiedObjects.erase(object);
+	object->remove(m_token);
       } else {
 	startIndex++;
       }
-- 
2.43.0


From 02eaf27f7fb0ec7c81885cc200e72903401101c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:15 +0000
Subject: [PATCH 18/23] fix: freeing an ordering left the neighbours of a
 removed token unordered when they were not the freed pair

---
 src/PLASMA/PlanDatabase/component/Timeline.cc | 12 ++++++++++++
 src/PLASMA/PlanDatabase/component/Timeline.hh |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index e601b9f..ec3bca9 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -451,6 +451,7 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     }
 
     m_tokenSequence.erase(pos++);
+    linkToPredecessor(pos);
     return *pos;
   }
 
@@ -470,9 +471,20 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     }
 
     m_tokenSequence.erase(pos--);
+    std::list<TokenId>::iterator next = pos;
+    if (++next != m_tokenSequence.end())
+      linkToPredecessor(next);
     return(*pos);
   }
 
+  // The neighbours of a removed token need not be those it was being freed from
+  void Timeline::linkToPredecessor(const std::list<TokenId>::iterator& pos) {
+    std::list<TokenId>::iterator previous = pos;
+    --previous;
+    if (!isConstrainedToPrecede(*previous, *pos))
+      Object::constrain(*previous, *pos, false);
+  }
+
   bool Timeline::adjacent(const TokenId x, const TokenId y) const {
     if (x.isNoId() || y.isNoId())
       return(false);
diff --git a/src/PLASMA/PlanDatabase/component/Timeline.hh b/src/PLASMA/PlanDatabase/component/Timeline.hh
index 15c58c9..11ab8ff 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.hh
+++ b/src/PLASMA/PlanDatabase/component/Timeline.hh
@@ -91,6 +91,7 @@ namespace EUROPA {
     void unlink(const TokenId token);
     TokenId removeSuccessor(const TokenId token);
     TokenId removePredecessor(const TokenId token);
+    void linkToPredecessor(const std::list<TokenId>::iterator& pos);
     bool adjacent(const TokenId x, const TokenId y) const;
 
 
-- 
2.43.0


From b4888acc0e1bfb3278db9d9f69901906fe83f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:49 +0000
Subject: [PATCH 19/23] fix: a guarded loop failed to execute and discarded
 rule instances stayed scheduled

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc |  4 ++
 src/PLASMA/RulesEngine/base/RulesEngine.cc  | 65 ++++++++++-----------
 src/PLASMA/RulesEngine/base/RulesEngine.hh  |  5 ++
 3 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index 95400d4..eb5f3af 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -144,6 +144,10 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
     if(isExecuted())
       undo();
 
+    // It may still be scheduled for execution or undoing
+    if(!m_rulesEngine.isNoId() && !Entity::isPurging())
+      m_rulesEngine->unschedule(m_id);
+
     // If there is a guard domain, delete it
     if(m_guardDomain != 0)
       delete m_guardDomain;
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.cc b/src/PLASMA/RulesEngine/base/RulesEngine.cc
index 06d38b6..7ed4ac0 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.cc
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.cc
@@ -243,49 +243,46 @@ RulesEngine::~RulesEngine(){
     m_ruleInstancesToUndo.push_back(r);
   }
 
+  void RulesEngine::unschedule(const RuleInstanceId r) {
+    std::replace(m_ruleInstancesToExecute.begin(), m_ruleInstancesToExecute.end(), r, RuleInstanceId::noId());
+    std::replace(m_ruleInstancesToUndo.begin(), m_ruleInstancesToUndo.end(), r, RuleInstanceId::noId());
+  }
+
   bool RulesEngine::doRules() {
-    check_error(!m_executing);
+    // A rule may propagate while it executes, e.g. to loop over the values of a derived domain. Whatever that
+    // schedules is left to the call already under way.
+    if(m_executing)
+      return false;
     m_executing = true;
     debugMsg("RulesEngine:doRules", "Executing rules.");
-    
-    // std::sort(m_ruleInstancesToExecute.begin(), m_ruleInstancesToExecute.end(), EntityComparator<RuleInstanceId>());
-    // std::sort(m_ruleInstancesToUndo.begin(), m_ruleInstancesToUndo.end(), EntityComparator<RuleInstanceId>());
-    // std::vector<RuleInstanceId>::iterator execEnd = std::unique(m_ruleInstancesToExecute.begin(),
-    //                                                             m_ruleInstancesToExecute.end(),
-    //                                                             EntityComparator<RuleInstanceId>());
-    // std::vector<RuleInstanceId>::iterator undoEnd = std::unique(m_ruleInstancesToUndo.begin(),
-    //                                                             m_ruleInstancesToUndo.end(),
-    //                                                             EntityComparator<RuleInstanceId>());
-    std::vector<RuleInstanceId>::iterator execEnd = m_ruleInstancesToExecute.end();
-    std::vector<RuleInstanceId>::iterator undoEnd = m_ruleInstancesToUndo.end();
-    
+
     bool retval = false;
 
-    debugMsg("RulesEngine:doRules", "Have " << m_ruleInstancesToExecute.size() << 
-	     " total rules in execution list, executing " << 
-	     std::distance(m_ruleInstancesToExecute.begin(), execEnd));
-    
-    for(std::vector<RuleInstanceId>::const_iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it) {
-      debugMsg("RulesEngine:doRules", 
-	       "In vector: " << (*it)->toString() << " : " <<
-	       ((*it)->isExecuted() ? "E" : "*") <<
-	       ((*it)->test() ? "T" : "*") <<
-	       ((*it)->hasEmptyGuard() ? "G" : "*"));
-    }
-    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it)
-      if(!(*it)->isExecuted() && (*it)->test()) {
-        debugMsg("RulesEngine:doRules", "Executing rule " << (*it)->toString());
-        (*it)->execute();
+    // Executing or undoing a rule can schedule further instances and can discard instances that are already scheduled
+    // (see unschedule), so the lists are accessed by index and each element is read only when its turn comes.
+    const std::vector<RuleInstanceId>::size_type execCount = m_ruleInstancesToExecute.size();
+    const std::vector<RuleInstanceId>::size_type undoCount = m_ruleInstancesToUndo.size();
+
+    debugMsg("RulesEngine:doRules", "Have " << execCount << " total rules in execution list");
+
+    for(std::vector<RuleInstanceId>::size_type i = 0; i < execCount; ++i) {
+      const RuleInstanceId r = m_ruleInstancesToExecute[i];
+      if(!r.isNoId() && !r->isExecuted() && r->test()) {
+        debugMsg("RulesEngine:doRules", "Executing rule " << r->toString());
+        r->execute();
         retval = true;
       }
-    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToUndo.begin(); it != undoEnd; ++it)
-      if((*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
-        debugMsg("RulesEngine:doRules", "Undoing rule " << (*it)->toString());
-        (*it)->undo();
+    }
+    for(std::vector<RuleInstanceId>::size_type i = 0; i < undoCount; ++i) {
+      const RuleInstanceId r = m_ruleInstancesToUndo[i];
+      if(!r.isNoId() && r->isExecuted() && !r->test() && !r->hasEmptyGuard()) {
+        debugMsg("RulesEngine:doRules", "Undoing rule " << r->toString());
+        r->undo();
         retval = true;
       }
-    m_ruleInstancesToExecute.clear();
-    m_ruleInstancesToUndo.clear();
+    }
+    m_ruleInstancesToExecute.erase(m_ruleInstancesToExecute.begin(), m_ruleInstancesToExecute.begin() + execCount);
+    m_ruleInstancesToUndo.erase(m_ruleInstancesToUndo.begin(), m_ruleInstancesToUndo.begin() + undoCount);
     debugMsg("RulesEngine:doRules", "Done executing rules " << m_executing << " returning " << (retval ? " true" : " false"));
     m_executing = false;
     return retval;
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.hh b/src/PLASMA/RulesEngine/base/RulesEngine.hh
index 2b2cf61..79c083f 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.hh
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.hh
@@ -59,6 +59,11 @@ namespace EUROPA {
     bool isPending(const RuleInstanceId r) const;
     void scheduleForExecution(const RuleInstanceId r);
     void scheduleForUndoing(const RuleInstanceId r);
+
+    /**
+     * @brief Forget an instance that is about to be discarded.
+     */
+    void unschedule(const RuleInstanceId r);
     bool doRules();
     bool hasWork() const;
     
-- 
2.43.0


From dd25a497a0372f1a0019e46b15dbe978122d83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:03 +0000
Subject: [PATCH 20/23] fix: a strict relation in a rule left its distance
 variable behind when the rule was undone

---
 src/PLASMA/NDDL/component/Interpreter.cc | 22 +++++++++++++++++++---
 src/PLASMA/NDDL/component/Interpreter.hh |  3 +++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index c0be9b0..021fc6d 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1006,15 +1006,27 @@ TokenId PredicateInstanceRef::createSubgoal(EvalContext& context,
 
 
 #define makeStrictPrecedenceRelation(origin, originvar, target, targetvar) { \
-    PlanDatabase* db = reinterpret_cast<PlanDatabase*>(context.getElement("PlanDatabase"));\
     std::vector<ConstrainedVariableId> vars;				\
-    ConstrainedVariableId var = (new Variable<IntervalIntDomain>(db->getConstraintEngine(), IntervalIntDomain(1, PLUS_INFINITY)))->getId(); \
     vars.push_back(origin->originvar());				\
-    vars.push_back(var);						\
+    vars.push_back(makeStrictDistanceVariable(context));		\
     vars.push_back(target->targetvar());				\
     makeConstraint(context, "temporalDistance", vars, "");			\
   }
 
+namespace {
+ConstrainedVariableId makeStrictDistanceVariable(EvalContext& context) {
+  IntervalIntDomain distance(1, PLUS_INFINITY);
+
+  // Inside a rule the variable belongs to the rule instance, so that it goes when the rule is undone
+  InterpretedRuleInstance* rule = reinterpret_cast<InterpretedRuleInstance*>(context.getElement("RuleInstance"));
+  if (rule != NULL)
+    return rule->addImplicitVariable(distance);
+
+  PlanDatabase* db = reinterpret_cast<PlanDatabase*>(context.getElement("PlanDatabase"));
+  return (new Variable<IntervalIntDomain>(db->getConstraintEngine(), distance))->getId();
+}
+}
+
 namespace {
 void createRelation(EvalContext& context,
                     const std::string& relationName,
@@ -1696,6 +1708,10 @@ ConstrainedVariableId InterpretedRuleInstance::addLocalVariable(const Domain& ba
   return addVariable(baseDomain,canBeSpecified,name);
 }
 
+ConstrainedVariableId InterpretedRuleInstance::addImplicitVariable(const Domain& baseDomain) {
+  return addVariable(baseDomain, false, makeImplicitVariableName());
+}
+
 ConstrainedVariableId InterpretedRuleInstance::addObjectVariable(const std::string& type,
                                                                  const ObjectDomain& baseDomain,
                                                                  bool canBeSpecified,
diff --git a/src/PLASMA/NDDL/component/Interpreter.hh b/src/PLASMA/NDDL/component/Interpreter.hh
index b768dd7..8d7b380 100644
--- a/src/PLASMA/NDDL/component/Interpreter.hh
+++ b/src/PLASMA/NDDL/component/Interpreter.hh
@@ -568,6 +568,9 @@ class TokenEvalContext : public EvalContext {
                    bool isConstrained,
                    ConstrainedVariableId owner);
 
+        /// Add a local variable that the model does not name
+        ConstrainedVariableId addImplicitVariable(const Domain& baseDomain);
+
         ConstrainedVariableId addLocalVariable(
                        const Domain& baseDomain,
 				       bool canBeSpecified,
-- 
2.43.0


From 793d30e3cf082f2750854faabfe0379a3ceeaa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:03 +0000
Subject: [PATCH 21/23] fix: splitting merged tokens unspecified variables with
 a singleton base domain

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index fe80eab..65956f4 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -138,8 +138,15 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template <class DomainType>
   void TokenVariable<DomainType>::handleRestrictBaseDomain(const Domain& domain){
+    const bool wasSpecified = this->isSpecified();
     Variable<DomainType>::handleRestrictBaseDomain(domain);
 
+    // Restricting to a single value specifies the variable itself, not on behalf of a merged token
+    if(!wasSpecified && this->isSpecified()){
+      m_isLocallySpecified = true;
+      m_localSpecifiedValue = this->m_baseDomain->getSingletonValue();
+    }
+
     if(this->m_integratedBaseDomain->isOpen() && domain.isClosed())
       this->m_integratedBaseDomain->close();
 
-- 
2.43.0


From dbd2cf0839215ef8011578934074ea2ece188434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:31 +0000
Subject: [PATCH 22/23] fix: resetting a variable to the domain it already has
 went unnoticed by rules guarded by it

---
 src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
index 6cab23a..5d8b383 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
@@ -388,8 +388,15 @@ const std::string& ConstrainedVariable::getName() const {
     checkError(domain.isSubsetOf(internal_baseDomain()),
 				 domain.toString() << " not in " << internal_baseDomain().toString());
 
+    // Losing the specification matters to listeners (e.g. guards waiting for a
+    // specified value) even where the domain stays the same and so sends no event.
+    bool silent = m_specifiedFlag && getCurrentDomain() == domain;
+
     m_specifiedFlag = false;
     getCurrentDomain().reset(domain);
+
+    if(silent)
+      m_constraintEngine->notify(m_id, DomainListener::RESET);
   }
 
   void ConstrainedVariable::close() {
-- 
2.43.0


From 01fe15f84a980a02d4d392c693cf997796a6edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:09 +0000
Subject: [PATCH 23/23] fix: a subgoal kept only for the tokens merged into it
 was leaked when the last of them was split off

---
 src/PLASMA/PlanDatabase/base/Token.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 3bae4b2..d47215f 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -406,6 +406,10 @@ void Token::doMerge(const TokenId activeToken){
     memento.release();
 
     m_planDatabase->notifySplit(m_id);
+
+    // The active token outlived its master only to support this token
+    if(activeTokenDeleted)
+      delete static_cast<Token*>(activeToken);
   }
 
   void Token::reject(){
@@ -459,6 +463,7 @@ void Token::doMerge(const TokenId activeToken){
     if(isCommitted() && !isDeleted())
       return;
 
+    incRefCount(); // Splitting the last of them must not delete this token
     while(!m_mergedTokens.empty()){
       TokenId tokenToSplit = *(m_mergedTokens.begin());
       check_error(tokenToSplit.isValid());
@@ -466,6 +471,7 @@ void Token::doMerge(const TokenId activeToken){
       check_error(tokenToSplit->isMerged());
       tokenToSplit->split();
     }
+    decRefCount();
 
 
     // Must wait till now to reset since mergedTokens would otherwise be included in the new spec domain.
-- 
2.43.0

