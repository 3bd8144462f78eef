From 46bbe3f9cca9fffdaf41cff2b63a03f93f2db398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:49 +0000
Subject: [PATCH 1/9] fix: sum production and consumption rates in TOKEN_UNIT,
 not int

---
 src/libkiter/models/Dataflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 277a6b6..73d42d3 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -740,7 +740,7 @@ public :
     	reset_computation();
         VERBOSE_DATAFLOW_DEBUG(" - Add outputs for " << this->getEdgeName(c) << " coded " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
     	boost::put(boost::edge_outputs, this->getG(), c.e, l);
-    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),(TOKEN_UNIT) 0);
     	boost::put(boost::edge_total_output, this->getG(), c.e, total);
     	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeTarget(c));
     	VERBOSE_DATAFLOW_DEBUG("   -   Edge from " << this->getVertexName(this->getEdgeSource(c)) << " to " << this->getVertexName(this->getEdgeTarget(c)));
@@ -793,7 +793,7 @@ public :
        	reset_computation();
            VERBOSE_DATAFLOW_DEBUG(" - Add inputs for " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
        	boost::put(boost::edge_inputs, this->getG(), c.e, l);
-       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),(TOKEN_UNIT) 0);
        	boost::put(boost::edge_total_input, this->getG(), c.e, total);
        	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeSource(c));
        	VERBOSE_DATAFLOW_DEBUG(" - EdgeSource is " << this->getVertexName(this->getEdgeSource(c)) << " with " << q << " states");
-- 
2.43.0


From adbaa0142a50ad21826090527cd7651499a77434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:49 +0000
Subject: [PATCH 2/9] fix: sum phase durations in TIME_UNIT so that fractional
 durations are not truncated

---
 src/libkiter/models/Dataflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 73d42d3..5bee104 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -868,7 +868,7 @@ public :
       inline  TIME_UNIT          getVertexTotalDuration    (const Vertex t)  const   {
     	  VERBOSE_ASSERT(boost::get(get(boost::vertex_phaseduration, this->getG()), t.v).size() > 0, "I take too much coffee, and this task " << getVertexName(t) <<  " - " << getVertexId(t) <<  " has no duration.");
     	  auto phasesDurations =  boost::get(get(boost::vertex_phaseduration, this->getG()), t.v);
-    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), 0);
+    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), (TIME_UNIT) 0);
       }
 
 
-- 
2.43.0


From b820777a2eab4c5c34e00ceb4d615efd800b8588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:49 +0000
Subject: [PATCH 3/9] fix: drop cached channel GCDs when the graph changes

---
 src/libkiter/models/Dataflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 5bee104..0ddf78d 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -311,7 +311,7 @@ public :
 	void set_normalize() {normalizationisdone = true;}
 	void set_repetition_vector() {repetitionvectorisdone = true;}
 
-	void reset_computation() {repetitionvectorisdone = false; normalizationisdone = false; readonly = false; }
+	void reset_computation() {repetitionvectorisdone = false; normalizationisdone = false; readonly = false; channelGCDA.clear(); }
 
 	bool is_read_only() const {return readonly;}
 	bool is_normalized() const {return normalizationisdone ;}
-- 
2.43.0


From 106209185018c392edb021b45bab543fe25b214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 4/9] fix: include the initial phases in the channel rate GCD

Without them the preload is rounded to a multiple of a number that does not
divide the initial rates, and precedence constraints are lost.
---
 src/libkiter/models/Dataflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 0ddf78d..597f141 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -921,12 +921,12 @@ public :
     TOKEN_UNIT channelGCD = getEdgeInPhase(c,1);
 
 
-    for (PHASE_INDEX k = 1 ; k <= this->getEdgeInPhasesCount(c) ; k++) {
+    for (PHASE_INDEX k = 1 - this->getEdgeInInitPhasesCount(c) ; k <= this->getEdgeInPhasesCount(c) ; k++) {
         channelGCD = std::gcd(channelGCD,getEdgeInPhase(c,k));
     }
 
 
-    for (PHASE_INDEX k = 1 ; k <= this->getEdgeOutPhasesCount(c) ; k++) {
+    for (PHASE_INDEX k = 1 - this->getEdgeOutInitPhasesCount(c) ; k <= this->getEdgeOutPhasesCount(c) ; k++) {
         channelGCD = std::gcd(channelGCD,getEdgeOutPhase(c,k));
     }
     return channelGCD;
-- 
2.43.0


From c65bf634569e976d57ff646af74bb1f6b6f52e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 5/9] fix: order a task's phases by the duration of its first
 initial phase

The chain of a task with initial phases used the duration of phase 1 for its
first link, so that phase overlapped the next one of a non-reentrant task.
---
 src/libkiter/algorithms/throughput/kperiodic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 043becb..3a3b99c 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -638,9 +638,9 @@ void algorithms::generateKperiodicSelfloop (const models::Dataflow * const dataf
 	VERBOSE_KPERIODIC_DEBUG("generate reentrancy loops for task " <<  dataflow->getVertexId(t) << " with ki=" << ki);
 
 	EXEC_COUNT pq = dataflow->getPhasesQuantity(t);
-	TIME_UNIT lti = timefactor * dataflow->getVertexDuration(t,1);
 	EXEC_COUNT i = 1;
 	EXEC_COUNT p = 1 - dataflow->getInitPhasesQuantity(t);
+	TIME_UNIT lti = timefactor * dataflow->getVertexDuration(t,p);
 
 	models::EventGraphVertex source_event = g->getEventGraphVertex(task_id,p,i);
 	models::EventGraphVertex target_event = g->getEventGraphVertex(task_id,p,i);
-- 
2.43.0


From 4023bd48cd720def505856ffa1a20f6757269a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 6/9] fix: report the initial phases of a task once, apart from
 its periodic phases

period2scheduling looked up the start time of the initial phases of every
execution of a task. The event graph only has them for the first execution,
so for K > 1 the lookup fell on a missing vertex; and they were listed among
the periodic start times instead of the initial ones.
---
 src/libkiter/algorithms/throughput/kperiodic.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 3a3b99c..ad8b995 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -191,17 +191,18 @@ scheduling_t period2scheduling (const models::Dataflow* const dataflow,  const p
 		EXEC_COUNT ipq = dataflow->getInitPhasesQuantity(v);
 		auto maxki = kvector.at(v);
 
-		auto first_pi = 1 - ipq;
-
 		TIME_UNIT period = (kvector.at(v) *  dataflow->getPhasesQuantity(v) * omega) / dataflow->getNi(v);
 		scheduling_result[dataflow->getVertexId(v)].periodic_starts.first = period;
 
 		for (EXEC_COUNT ki = 1  ; ki <= maxki ; ki++) {
+			// the initial phases are executed once, before the first execution
+			auto first_pi = (ki == 1) ? 1 - ipq : 1;
 			for (EXEC_COUNT pi = first_pi ; pi <=pq ; pi++)  {
 				auto se = eg->getEventGraphVertex(tid,pi,ki);
 
 				TIME_UNIT start = eg->getStartingTime(se);
-				scheduling_result[tid].periodic_starts.second.push_back( start );
+				if (pi < 1) scheduling_result[tid].initial_starts.push_back( start );
+				else        scheduling_result[tid].periodic_starts.second.push_back( start );
 				VERBOSE_KPERIODIC_DEBUG("  - Start ki=" << ki << " pi=" << pi << " se=" << se << ":" << start  );
 
 			}
-- 
2.43.0


From 9bd370f11b966096d11e052a1d85b9aeccb71cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:14 +0000
Subject: [PATCH 7/9] fix: symbolic execution uses the consumption rate of
 self-loop channels when consuming

---
 src/libkiter/algorithms/throughput/actor.cpp  | 29 +++++++++++++------
 src/libkiter/algorithms/throughput/actor.h    |  2 ++
 .../throughput/symbolic_execution.cpp         |  4 +--
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/actor.cpp b/src/libkiter/algorithms/throughput/actor.cpp
index 10906d0..fd2db04 100644
--- a/src/libkiter/algorithms/throughput/actor.cpp
+++ b/src/libkiter/algorithms/throughput/actor.cpp
@@ -117,6 +117,17 @@ EXEC_COUNT Actor::getNumExecutions() {
   return this->numExecs;
 }
 
+// Return consumption rate of input edge for the current phase of execution
+// (differs from getExecRate when the edge is a self-loop, i.e. both an input and an output edge)
+TOKEN_UNIT Actor::getConsRate(Edge e) {
+  return this->getConsRate(e, this->getPhase(e));
+}
+
+TOKEN_UNIT Actor::getConsRate(Edge e, PHASE_INDEX p) {
+  assert(this->consExecRate.find(e) != this->consExecRate.end()); // given edge must be input edge
+  return this->consExecRate[e][p];
+}
+
 // Given current state of graph, returns whether actor is ready to execute or not
 bool Actor::isReadyForExec(State s) {
   // Execution conditions (for given phase):
@@ -125,9 +136,9 @@ bool Actor::isReadyForExec(State s) {
   bool isExecutable = true;
   for (auto const &e : this->consPhaseCount) {
     VERBOSE_DEBUG("\tTokens in channel (current/required): "
-                  << s.getTokens(e.first) << "/" << this->getExecRate(e.first)
+                  << s.getTokens(e.first) << "/" << this->getConsRate(e.first)
                   << std::endl);
-    if (s.getTokens(e.first) < this->getExecRate(e.first) || this->isExecuting) {
+    if (s.getTokens(e.first) < this->getConsRate(e.first) || this->isExecuting) {
       isExecutable = false;
     }
   }
@@ -163,7 +174,7 @@ bool Actor::isReadyToEndExec(State s) {
 // Begin actor's execution, consuming tokens from input channels
 void Actor::execStart(models::Dataflow* const dataflow, State &s) {
   {ForInputEdges(dataflow, this->actor, e) {
-      s.setTokens(e, s.getTokens(e) - this->getExecRate(e));
+      s.setTokens(e, s.getTokens(e) - this->getConsRate(e));
     }}
   if (s.hasBoundedBuffers()) { // for bounded buffers, need to 'reserve' space for tokens about to be produced
     {ForOutputEdges(dataflow, this->actor, e) {
@@ -195,9 +206,9 @@ void Actor::execEnd(models::Dataflow* const dataflow, State &s) {
   if (s.hasBoundedBuffers()) { // free up spaces after tokens that have been consumed
     {ForInputEdges(dataflow, this->actor, e) {
         VERBOSE_DEBUG("Producing space in Channel " << dataflow->getEdgeId(e)
-                      << ": " << s.getBufferSpace(e) << "+" << this->getExecRate(e, currentPhase)
-                      << "=" << s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
-        s.setBufferSpace(e, s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
+                      << ": " << s.getBufferSpace(e) << "+" << this->getConsRate(e, currentPhase)
+                      << "=" << s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
+        s.setBufferSpace(e, s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
       }}
   }
   s.removeFrontExec(this->actor);
@@ -243,9 +254,9 @@ void Actor::computeCausalDeps(models::Dataflow* const dataflow, State &prevState
     VERBOSE_DEBUG("\t\tChannel " << dataflow->getEdgeId(e.first) << " ("
                   << sourceId << "->" << targetId << "):" << std::endl);
     VERBOSE_DEBUG("\t\t " << prevState.getTokens(e.first) << " tokens available previously, "
-                  << this->getExecRate(e.first) << " required (p "
+                  << this->getConsRate(e.first) << " required (p "
                   << this->getPhase(e.first) << ")" << std::endl);
-    if (prevState.getTokens(e.first) < this->getExecRate(e.first)) {
+    if (prevState.getTokens(e.first) < this->getConsRate(e.first)) {
       VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                     << sourceId << std::endl);
       absDepGraph.addCausalDep(targetId, sourceId);
@@ -278,7 +289,7 @@ std::string Actor::printStatus(models::Dataflow* const dataflow) {
                << std::endl;
   {ForInputEdges(dataflow, this->actor, e) {
       outputStream << "\tTokens consumed from Channel "
-                   << dataflow->getEdgeName(e) << ": " << this->getExecRate(e)
+                   << dataflow->getEdgeName(e) << ": " << this->getConsRate(e)
                    << std::endl;
     }}
   {ForOutputEdges(dataflow, this->actor, e) {
diff --git a/src/libkiter/algorithms/throughput/actor.h b/src/libkiter/algorithms/throughput/actor.h
index a8cdba6..c10d4b4 100644
--- a/src/libkiter/algorithms/throughput/actor.h
+++ b/src/libkiter/algorithms/throughput/actor.h
@@ -31,6 +31,8 @@ class Actor {
   void setId(ARRAY_INDEX newId);
   TOKEN_UNIT getExecRate(Edge e);
   TOKEN_UNIT getExecRate(Edge e, PHASE_INDEX p);
+  TOKEN_UNIT getConsRate(Edge e); // consumption rate of an input edge
+  TOKEN_UNIT getConsRate(Edge e, PHASE_INDEX p);
   EXEC_COUNT getNumExecutions();
   bool isReadyForExec(State s);
   bool isReadyToEndExec(State s);
diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 894e3af..391444d 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -528,12 +528,12 @@ std::set<Edge> algorithms::computeDeadlockStorageDeps(models::Dataflow* const da
                     << sourceId << "->" << targetId
                     << "):" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getTokens(e) << " tokens available, "
-                    << actorMap[targetId].getExecRate(e) << " required (p "
+                    << actorMap[targetId].getConsRate(e) << " required (p "
                     << actorMap[targetId].getPhase(e) << ")" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getBufferSpace(e) << " spaces available, "
                     << actorMap[sourceId].getExecRate(e) << " required (p "
                     << actorMap[sourceId].getPhase(e) << ")" << std::endl);
-      if (s.getTokens(e) < actorMap[targetId].getExecRate(e)) {
+      if (s.getTokens(e) < actorMap[targetId].getConsRate(e)) {
         VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                       << sourceId << std::endl);
         absDepGraph.addCausalDep(targetId, sourceId);
-- 
2.43.0


From ba7a4ce4938885d68e1aa4cbbd68377d879d2bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:02 +0000
Subject: [PATCH 8/9] fix: an actor without input channel cannot start again
 while it is executing

---
 src/libkiter/algorithms/throughput/actor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/throughput/actor.cpp b/src/libkiter/algorithms/throughput/actor.cpp
index fd2db04..2dd709e 100644
--- a/src/libkiter/algorithms/throughput/actor.cpp
+++ b/src/libkiter/algorithms/throughput/actor.cpp
@@ -133,7 +133,7 @@ bool Actor::isReadyForExec(State s) {
   // Execution conditions (for given phase):
   // (1) enough room in output channel, (2) enough tokens in input channel, (3) not currently executing
   VERBOSE_DEBUG("Is Actor " << this->getId() << " ready to execute?" << std::endl);
-  bool isExecutable = true;
+  bool isExecutable = !this->isExecuting;
   for (auto const &e : this->consPhaseCount) {
     VERBOSE_DEBUG("\tTokens in channel (current/required): "
                   << s.getTokens(e.first) << "/" << this->getConsRate(e.first)
-- 
2.43.0


From 4f39f61e84aa9517bbddd272ab42098908dd2998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 9/9] fix: states that differ by a running execution are not
 equal

---
 src/libkiter/algorithms/throughput/state.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/throughput/state.cpp b/src/libkiter/algorithms/throughput/state.cpp
index 51b3ab1..9ee9320 100644
--- a/src/libkiter/algorithms/throughput/state.cpp
+++ b/src/libkiter/algorithms/throughput/state.cpp
@@ -216,8 +216,18 @@ bool State::operator==(const State& s) const {
       return false;
     }
   }
+  // an actor that has not executed yet has no queue: same as an empty queue
   for (auto it = this->executingActors.begin(); it != this->executingActors.end(); it++) {
-    if (this->getRemExecTime(it->first) != s.getRemExecTime(it->first)) {
+    if (s.executingActors.find(it->first) == s.executingActors.end()) {
+      if (!it->second.empty()) {
+        return false;
+      }
+    } else if (this->getRemExecTime(it->first) != s.getRemExecTime(it->first)) {
+      return false;
+    }
+  }
+  for (auto it = s.executingActors.begin(); it != s.executingActors.end(); it++) {
+    if (this->executingActors.find(it->first) == this->executingActors.end() && !it->second.empty()) {
       return false;
     }
   }
-- 
2.43.0

