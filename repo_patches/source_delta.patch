From 16298af6363b8fc73459a6ca890059906745e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 01/68] fix: run AfterAll and other run-once cleanup after the
 last repetition of a MustPassRepeatedly spec

Under MustPassRepeatedly AfterAll nodes (and OncePerOrdered AfterEach nodes) ran after every passing
repetition of the last spec in an Ordered container, and never ran when a repetition other than the last
one failed - in which case cleanup registered in BeforeAll leaked into the next, unrelated, spec.
---
 internal/group.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index 02c9fe4..0bc61c5 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -177,6 +177,11 @@ func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 }
 
 func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
+	// a spec that must pass repeatedly is repeated as long as it passes; a flaky spec is retried as long as it fails
+	mustPassRepeatedly := g.suite.currentSpecReport.MaxMustPassRepeatedly > 0
+	willRepeatIfPassed := mustPassRepeatedly && !isFinalAttempt
+	isFinalAttemptIfFailed := mustPassRepeatedly || isFinalAttempt
+
 	failedInARunOnceBefore := false
 	pairs := g.runOncePairs[spec.SubjectID()]
 
@@ -248,6 +253,9 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 
 			switch g.suite.currentSpecReport.State {
 			case types.SpecStatePassed: //this attempt is passing...
+				if willRepeatIfPassed {
+					return false //...but the spec will be repeated, the run-once nodes should only run after its last repetition
+				}
 				return isLastSpecWithPair //...we should run-once if we'this is our last chance
 			case types.SpecStateSkipped: //the spec was skipped by the user...
 				if isLastSpecWithPair {
@@ -257,7 +265,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 					return true //...or, a run-once node at our nesting level was skipped which means this is our last chance to run
 				}
 			case types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout: // the spec has failed...
-				if isFinalAttempt {
+				if isFinalAttemptIfFailed {
 					if g.continueOnFailure {
 						return isLastSpecWithPair || failedInARunOnceBefore //...we're configured to continue on failures - so we should only run if we're the last spec for this pair or if we failed in a runOnceBefore (which means we _are_ the last spec to run)
 					} else {
-- 
2.43.0


From 72e6585bb1c48de085111ac71bc8621158e59ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 02/68] fix: run AfterAll in a ContinueOnFailure container when
 --fail-fast ends the run

With --fail-fast no further spec of the container runs after a failure, so the failed spec is the last
chance to run the container's AfterAll nodes and the cleanup registered in its BeforeAll nodes.
---
 internal/group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index 0bc61c5..88d41a9 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -267,7 +267,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 			case types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout: // the spec has failed...
 				if isFinalAttemptIfFailed {
 					if g.continueOnFailure {
-						return isLastSpecWithPair || failedInARunOnceBefore //...we're configured to continue on failures - so we should only run if we're the last spec for this pair or if we failed in a runOnceBefore (which means we _are_ the last spec to run)
+						return isLastSpecWithPair || failedInARunOnceBefore || g.suite.config.FailFast //...we're configured to continue on failures - so we should only run if we're the last spec for this pair, if we failed in a runOnceBefore, or if we're configured to fail fast (which means we _are_ the last spec to run)
 					} else {
 						return true //...this was the last attempt and continueOnFailure is false therefore we are the last spec to run and so the AfterNode should run
 					}
-- 
2.43.0


From 30eb4a4628333705e2c768f24000724da325d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 03/68] fix: run AfterAll when the last specs of an Ordered
 container are skipped by a nested BeforeAll

When Skip() is called in the BeforeAll of a container nested in an Ordered container the nested container's
specs don't run.  If they were the last specs of the outer container its AfterAll nodes never ran, and the
cleanup registered in its BeforeAll nodes leaked into the next, unrelated, spec.
---
 internal/group.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index 88d41a9..d36b427 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -162,6 +162,15 @@ func (g *group) evaluateSkipStatus(spec Spec) (types.SpecState, types.Failure) {
 	return g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure
 }
 
+func (g *group) wasSkippedInARunOnceBefore(specID uint) bool {
+	for _, pair := range g.runOncePairs[specID].withType(types.NodeTypeBeforeAll | types.NodeTypeBeforeEach | types.NodeTypeJustBeforeEach) {
+		if g.runOnceTracker[pair].Is(types.SpecStateSkipped) {
+			return true
+		}
+	}
+	return false
+}
+
 func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 	lastSpecID := uint(0)
 	for idx := range g.specs {
@@ -169,6 +178,9 @@ func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 			continue
 		}
 		sID := g.specs[idx].SubjectID()
+		if sID != specID && g.wasSkippedInARunOnceBefore(sID) {
+			continue // Skip() was called in one of its run-once nodes, it won't run
+		}
 		if g.runOncePairs[sID].hasRunOncePair(pair) {
 			lastSpecID = sID
 		}
-- 
2.43.0


From 00a37b1af5453dfb0b55e64a3eb24f3de951d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 04/68] fix: a failure in a cleanup node fails the spec even if
 the spec called Skip()

A spec that called Skip() and then failed in an AfterEach, AfterAll or DeferCleanup stayed marked as skipped:
the failure was only recorded as an additional failure and the suite passed.
---
 internal/group.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index d36b427..7b33cdc 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -305,7 +305,8 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 			afterNodeWasRun[node.ID] = true
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
 			g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
-			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted {
+			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted ||
+				(g.suite.currentSpecReport.State == types.SpecStateSkipped && state.Is(types.SpecStateFailureStates)) {
 				g.suite.currentSpecReport.State = state
 				g.suite.currentSpecReport.Failure = failure
 			} else if state.Is(types.SpecStateFailureStates) {
-- 
2.43.0


From 7b16bc494864e1883a711cf2beee0b83621738b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 05/68] fix: repeat a MustPassRepeatedly spec even if
 FlakeAttempts appears in its hierarchy

MustPassRepeatedly takes precedence over FlakeAttempts, but a spec with both in its hierarchy (or with a
FlakeAttempts decorator and --must-pass-repeatedly) ran just once if it passed: the first success ended the
retry loop.  Such specs would also be reported as flaky.
---
 internal/group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index 7b33cdc..ca5c743 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -345,8 +345,10 @@ func (g *group) run(specs Specs) {
 			if g.suite.config.MustPassRepeatedly > 0 {
 				maxAttempts = g.suite.config.MustPassRepeatedly
 				g.suite.currentSpecReport.MaxMustPassRepeatedly = maxAttempts
+				g.suite.currentSpecReport.MaxFlakeAttempts = 0 // the spec must pass repeatedly, it isn't retried
 			} else if g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 {
 				maxAttempts = max(1, spec.MustPassRepeatedly())
+				g.suite.currentSpecReport.MaxFlakeAttempts = 0 // the spec must pass repeatedly, it isn't retried
 			} else if g.suite.config.FlakeAttempts > 0 {
 				maxAttempts = g.suite.config.FlakeAttempts
 				g.suite.currentSpecReport.MaxFlakeAttempts = maxAttempts
-- 
2.43.0


From d3346a88d55bd6912dfcaef2a838182b831f1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 06/68] fix: run the AfterEach nodes of inner containers when
 an outer JustBeforeEach fails

JustBeforeEach nodes run after the BeforeEach nodes of all containers.  When one failed only the AfterEach,
JustAfterEach and AfterAll nodes at its own nesting level or further out were run, and whatever the inner
BeforeEach (and BeforeAll) nodes had set up was not cleaned up.
---
 internal/group.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index ca5c743..62ea0e3 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -231,7 +231,8 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 		nodes := spec.Nodes.WithType(types.NodeTypeAfterEach)
 		nodes = append(nodes, spec.Nodes.WithType(types.NodeTypeAfterAll)...).SortedByDescendingNestingLevel()
 		nodes = append(spec.Nodes.WithType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel(), nodes...)
-		if !terminatingNode.IsZero() {
+		if !terminatingNode.IsZero() && !terminatingNode.NodeType.Is(types.NodeTypeJustBeforeEach) {
+			//we only clean up the containers we entered (by the time we get to the JustBeforeEach nodes we've entered them all)
 			nodes = nodes.WithinNestingLevel(terminatingNode.NestingLevel)
 		}
 		if includeDeferCleanups {
-- 
2.43.0


From 3a6e188761fd9e66287d587cbfd4ee21507f060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 07/68] fix: run AfterAll when a later spec of the Ordered
 container fails in an outer BeforeEach

When a BeforeEach node outside an Ordered container fails for a spec other than the container's first, the
container's AfterAll nodes (and run-once After nodes) never ran although its BeforeAll nodes had.
---
 internal/group.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index 62ea0e3..888cf5d 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -93,6 +93,7 @@ type group struct {
 	specs          Specs
 	runOncePairs   map[uint]runOncePairs
 	runOnceTracker map[runOncePair]types.SpecState
+	runOnceIsOwed  map[runOncePair]bool // the run-once After nodes of the containers that have been entered and not left
 
 	succeeded              bool
 	failedInARunOnceBefore bool
@@ -104,6 +105,7 @@ func newGroup(suite *Suite) *group {
 		suite:                  suite,
 		runOncePairs:           map[uint]runOncePairs{},
 		runOnceTracker:         map[runOncePair]types.SpecState{},
+		runOnceIsOwed:          map[runOncePair]bool{},
 		succeeded:              true,
 		failedInARunOnceBefore: false,
 		continueOnFailure:      false,
@@ -233,7 +235,14 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 		nodes = append(spec.Nodes.WithType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel(), nodes...)
 		if !terminatingNode.IsZero() && !terminatingNode.NodeType.Is(types.NodeTypeJustBeforeEach) {
 			//we only clean up the containers we entered (by the time we get to the JustBeforeEach nodes we've entered them all)
-			nodes = nodes.WithinNestingLevel(terminatingNode.NestingLevel)
+			nodes = nodes.Filter(func(node Node) bool {
+				return node.NestingLevel <= terminatingNode.NestingLevel || g.runOnceIsOwed[pairs.runOncePairFor(node.ID)]
+			})
+		}
+		for _, node := range nodes {
+			if pair := pairs.runOncePairFor(node.ID); !pair.isZero() && !afterNodeWasRun[node.ID] {
+				g.runOnceIsOwed[pair] = true
+			}
 		}
 		if includeDeferCleanups {
 			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse()...)
@@ -304,6 +313,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 
 		for _, node := range nodes {
 			afterNodeWasRun[node.ID] = true
+			delete(g.runOnceIsOwed, pairs.runOncePairFor(node.ID))
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
 			g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
 			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted ||
-- 
2.43.0


From 6beebb54e1df80ff87c7d509dfd415e9cb2c6c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 08/68] fix: run AfterAll, and don't retry, when the suite is
 interrupted or times out during the cleanup of a spec

If a spec of an Ordered container had failed (or was to be retried) and the interrupt arrived, or the suite's
timeout elapsed, in one of its cleanup nodes the spec's outcome decided what to do next: the container's AfterAll
nodes didn't run, though no further spec would, and the spec was retried only to be skipped.
---
 internal/group.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index 888cf5d..9e4fe36 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -164,6 +164,11 @@ func (g *group) evaluateSkipStatus(spec Spec) (types.SpecState, types.Failure) {
 	return g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure
 }
 
+// runIsOver returns true once the suite has been interrupted or has timed out
+func (g *group) runIsOver() bool {
+	return g.suite.interruptHandler.Status().Interrupted() || (!g.suite.deadline.IsZero() && g.suite.deadline.Before(time.Now()))
+}
+
 func (g *group) wasSkippedInARunOnceBefore(specID uint) bool {
 	for _, pair := range g.runOncePairs[specID].withType(types.NodeTypeBeforeAll | types.NodeTypeBeforeEach | types.NodeTypeJustBeforeEach) {
 		if g.runOnceTracker[pair].Is(types.SpecStateSkipped) {
@@ -270,6 +275,9 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 				// this node is not governed by any run-once policy, we should run it
 				return true
 			}
+			if g.runIsOver() {
+				return true // the test run is over, no matter how this spec fared, and we should clean up the stack
+			}
 			// it's our last chance to run if we're the last spec for our oncePair
 			isLastSpecWithPair := g.isLastSpecWithPair(spec.SubjectID(), pair)
 
@@ -387,6 +395,9 @@ func (g *group) run(specs Specs) {
 				g.suite.currentSpecReport.CapturedGinkgoWriterOutput += string(g.suite.writer.Bytes())
 				g.suite.currentSpecReport.CapturedStdOutErr += g.suite.outputInterceptor.StopInterceptingAndReturnOutput()
 
+				if g.runIsOver() {
+					break
+				}
 				if g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 {
 					if g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates | types.SpecStateSkipped) {
 						break
-- 
2.43.0


From 52c1f26fba4484ce3cbbcbf2c888c20d45d2649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 09/68] fix: a failure recorded by a node that is then
 interrupted or times out is not attributed to the next node

A node can record a failure on another goroutine and then be abandoned, as it doesn't exit when it's interrupted or
times out.  The failure was left behind and failed the next node that ran: an unrelated AfterEach, spec, or reporting node.
---
 internal/suite.go | 50 +++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/internal/suite.go b/internal/suite.go
index 3edf507..705c71f 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -911,6 +911,33 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 		defer progressPoller.Stop()
 	}
 
+	attachAdditionalFailure := func(outcomeFromRun types.SpecState, failureFromRun types.Failure) {
+		if outcomeFromRun == types.SpecStatePassed {
+			return
+		}
+		additionalFailure := types.AdditionalFailure{
+			State:   outcomeFromRun,
+			Failure: failure, // we make a copy - this will include all the configuration set up above...
+		}
+		// ...and then we update the failure with the details from failureFromRun
+		additionalFailure.Failure.Location, additionalFailure.Failure.ForwardedPanic, additionalFailure.Failure.TimelineLocation = failureFromRun.Location, failureFromRun.ForwardedPanic, failureFromRun.TimelineLocation
+		additionalFailure.Failure.ProgressReport = types.ProgressReport{}
+		if outcome == types.SpecStateTimedout {
+			additionalFailure.Failure.Message = fmt.Sprintf("A %s timeout occurred and then the following failure was recorded in the timedout node before it exited:\n%s", timeoutInPlay, failureFromRun.Message)
+		} else {
+			additionalFailure.Failure.Message = fmt.Sprintf("An interrupt occurred and then the following failure was recorded in the interrupted node before it exited:\n%s", failureFromRun.Message)
+		}
+		suite.reporter.EmitFailure(additionalFailure.State, additionalFailure.Failure)
+		failure.AdditionalFailure = &additionalFailure
+	}
+	leak := func() (types.SpecState, types.Failure) {
+		// the node has not exited.  if it has recorded a failure we pick it up now: left behind it would fail the next node we run
+		outcomeFromRun, failureFromRun := suite.failer.Drain()
+		failureFromRun.TimelineLocation = suite.generateTimelineLocation()
+		attachAdditionalFailure(outcomeFromRun, failureFromRun)
+		return outcome, failure
+	}
+
 	// now we wait for an outcome, an interrupt, a timeout, or a progress poll
 	for {
 		select {
@@ -920,22 +947,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 				// we've already been interrupted/timed out.  we just managed to actually exit
 				// before the grace period elapsed
 				// if we have a failure message we attach it as an additional failure
-				if outcomeFromRun != types.SpecStatePassed {
-					additionalFailure := types.AdditionalFailure{
-						State:   outcomeFromRun,
-						Failure: failure, // we make a copy - this will include all the configuration set up above...
-					}
-					// ...and then we update the failure with the details from failureFromRun
-					additionalFailure.Failure.Location, additionalFailure.Failure.ForwardedPanic, additionalFailure.Failure.TimelineLocation = failureFromRun.Location, failureFromRun.ForwardedPanic, failureFromRun.TimelineLocation
-					additionalFailure.Failure.ProgressReport = types.ProgressReport{}
-					if outcome == types.SpecStateTimedout {
-						additionalFailure.Failure.Message = fmt.Sprintf("A %s timeout occurred and then the following failure was recorded in the timedout node before it exited:\n%s", timeoutInPlay, failureFromRun.Message)
-					} else {
-						additionalFailure.Failure.Message = fmt.Sprintf("An interrupt occurred and then the following failure was recorded in the interrupted node before it exited:\n%s", failureFromRun.Message)
-					}
-					suite.reporter.EmitFailure(additionalFailure.State, additionalFailure.Failure)
-					failure.AdditionalFailure = &additionalFailure
-				}
+				attachAdditionalFailure(outcomeFromRun, failureFromRun)
 				return outcome, failure
 			}
 			if outcomeFromRun.Is(types.SpecStatePassed) {
@@ -951,7 +963,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 				report.Message = "{{bold}}{{orange}}A running node failed to exit in time{{/}}\nGinkgo is moving on but a node has timed out and failed to exit before its grace period elapsed.  The node has now leaked and is running in the background.\nHere's a current progress report:"
 				suite.emitProgressReport(report)
 			}
-			return outcome, failure
+			return leak()
 		case <-deadlineChannel:
 			// we're out of time - the outcome is a timeout and we capture the failure and progress report
 			outcome = types.SpecStateTimedout
@@ -997,7 +1009,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 					progressReport.Message = fmt.Sprintf("{{bold}}{{orange}}%s{{/}}\n{{bold}}{{red}}Final interrupt received{{/}}; Ginkgo will not run any cleanup or reporting nodes and will terminate as soon as possible.\nHere's a current progress report:", interruptStatus.Message())
 					suite.emitProgressReport(progressReport)
 				}
-				return outcome, failure
+				return leak()
 			}
 			if interruptStatus.ShouldIncludeProgressReport() {
 				if interruptStatus.Level == interrupt_handler.InterruptLevelCleanupAndReport {
@@ -1013,7 +1025,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 				gracePeriodChannel = time.After(gracePeriod)
 			} else {
 				// we've already given grace.  time's up.  now.
-				return outcome, failure
+				return leak()
 			}
 		case <-emitProgressNow:
 			report := suite.generateProgressReport(false)
-- 
2.43.0


From d8aae3492e81d5e09ac03508f07d1ef717c4fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 10/68] fix: a leaked node that exits late no longer swallows
 the failure of the node that is running

When a node that had been abandoned after an interrupt or a timeout finally exited it drained whatever failure
was recorded at that time.  If the node that was running by then had failed (on another goroutine, say, or in the
instant before it exits) the failure vanished and its spec passed.
---
 internal/suite.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index 705c71f..731c6d2 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -877,15 +877,25 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 
 	outcomeC := make(chan types.SpecState)
 	failureC := make(chan types.Failure)
+	var leakLock sync.Mutex
+	leaked := false
 
 	go func() {
 		finished := false
 		defer func() {
-			if e := recover(); e != nil || !finished {
+			e := recover()
+			leakLock.Lock()
+			if leaked {
+				// we've been abandoned and other nodes are running, what's in the failer is theirs
+				leakLock.Unlock()
+				return
+			}
+			if e != nil || !finished {
 				suite.failer.Panic(types.NewCodeLocationWithStackTrace(2), e)
 			}
 
 			outcomeFromRun, failureFromRun := suite.failer.Drain()
+			leakLock.Unlock()
 			failureFromRun.TimelineLocation = suite.generateTimelineLocation()
 			outcomeC <- outcomeFromRun
 			failureC <- failureFromRun
@@ -931,6 +941,9 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 		failure.AdditionalFailure = &additionalFailure
 	}
 	leak := func() (types.SpecState, types.Failure) {
+		leakLock.Lock()
+		defer leakLock.Unlock()
+		leaked = true
 		// the node has not exited.  if it has recorded a failure we pick it up now: left behind it would fail the next node we run
 		outcomeFromRun, failureFromRun := suite.failer.Drain()
 		failureFromRun.TimelineLocation = suite.generateTimelineLocation()
-- 
2.43.0


From 663c6532f7666b0e8177e6e2863e1aed3c6c4a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:52 +0000
Subject: [PATCH 11/68] fix: consistsOf in a label filter treats a repeated
 value as one element of the set

---
 types/label_filter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/label_filter.go b/types/label_filter.go
index 40a909b..adf4f9d 100644
--- a/types/label_filter.go
+++ b/types/label_filter.go
@@ -92,9 +92,13 @@ func containsAllLabelSetAction(key string, expectedValues []string) LabelFilter
 }
 
 func consistsOfLabelSetAction(key string, expectedValues []string) LabelFilter {
+	expectedSet := map[string]bool{}
+	for _, value := range expectedValues {
+		expectedSet[value] = true
+	}
 	return func(labels []string) bool {
 		set := labelSetFor(key, labels)
-		if len(set) != len(expectedValues) {
+		if len(set) != len(expectedSet) {
 			return false
 		}
 		for _, value := range expectedValues {
-- 
2.43.0


From be94cefe1897aef2ee90bc6266886fbe1929506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 12/68] fix: a suite that is previewed keeps its specs and
 setup nodes defined outside of containers

---
 internal/suite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index 731c6d2..fffa6c0 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -81,8 +81,13 @@ func (suite *Suite) Clone() (*Suite, error) {
 	if suite.phase != PhaseBuildTopLevel {
 		return nil, fmt.Errorf("cannot clone suite after tree has been built")
 	}
+	// specs and setup nodes defined outside of any container are already in the tree
+	tree := &TreeNode{}
+	for _, child := range suite.tree.Children {
+		tree.AppendChild(&TreeNode{Node: child.Node})
+	}
 	return &Suite{
-		tree:                    &TreeNode{},
+		tree:                    tree,
 		phase:                   PhaseBuildTopLevel,
 		ProgressReporterManager: NewProgressReporterManager(),
 		topLevelContainers:      suite.topLevelContainers.Clone(),
-- 
2.43.0


From 47c2a6022880b542c855e4c067a8093f3d42053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 13/68] fix: DeferCleanup accepts nil among the arguments of
 its callback

---
 internal/node.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/internal/node.go b/internal/node.go
index 8096950..3064372 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -572,11 +572,33 @@ func NewCleanupNode(deprecationTracker *types.DeprecationTracker, fail func(stri
 	if t.NumIn() > 0 {
 		if t.In(0).Implements(specContextType) {
 			hasContext = true
-		} else if t.In(0).Implements(contextType) && (len(callArgs) == 0 || !callArgs[0].Type().Implements(contextType)) {
+		} else if t.In(0).Implements(contextType) && (len(callArgs) == 0 || !callArgs[0].IsValid() || !callArgs[0].Type().Implements(contextType)) {
 			hasContext = true
 		}
 	}
 
+	for i := range callArgs {
+		if callArgs[i].IsValid() {
+			continue
+		}
+		// a literal nil carries no type, it takes the type of the parameter it is passed for
+		paramIdx, paramType := i, reflect.Type(nil)
+		if hasContext {
+			paramIdx += 1
+		}
+		if t.IsVariadic() && paramIdx >= t.NumIn()-1 {
+			paramType = t.In(t.NumIn() - 1).Elem()
+		} else if paramIdx < t.NumIn() {
+			paramType = t.In(paramIdx)
+		} else {
+			continue
+		}
+		switch paramType.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
+			callArgs[i] = reflect.Zero(paramType)
+		}
+	}
+
 	handleFailure := func(out []reflect.Value) {
 		if len(out) == 0 {
 			return
-- 
2.43.0


From 84c8bdd7e17cc53f1e4b4c1dc1e4a9124d44d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 14/68] fix: encode IsSerial, IsInOrderedContainer and
 RunningInParallel in the JSON form of a spec report

SpecReport.MarshalJSON left them out: they were always false in JSON reports, and for the reporters of a parallel
run that uses the HTTP protocol.
---
 types/types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/types.go b/types/types.go
index ddcbec1..2030f86 100644
--- a/types/types.go
+++ b/types/types.go
@@ -206,10 +206,13 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLabels              []string
 		LeafNodeText                string
 		State                       SpecState
+		IsSerial                    bool `json:",omitempty"`
+		IsInOrderedContainer        bool `json:",omitempty"`
 		StartTime                   time.Time
 		EndTime                     time.Time
 		RunTime                     time.Duration
 		ParallelProcess             int
+		RunningInParallel           bool     `json:",omitempty"`
 		Failure                     *Failure `json:",omitempty"`
 		NumAttempts                 int
 		MaxFlakeAttempts            int
@@ -229,10 +232,13 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLabels:              report.LeafNodeLabels,
 		LeafNodeText:                report.LeafNodeText,
 		State:                       report.State,
+		IsSerial:                    report.IsSerial,
+		IsInOrderedContainer:        report.IsInOrderedContainer,
 		StartTime:                   report.StartTime,
 		EndTime:                     report.EndTime,
 		RunTime:                     report.RunTime,
 		ParallelProcess:             report.ParallelProcess,
+		RunningInParallel:           report.RunningInParallel,
 		Failure:                     nil,
 		ReportEntries:               nil,
 		NumAttempts:                 report.NumAttempts,
-- 
2.43.0


From 202382daa6a22c4e575dd4858334d8fb700643c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:01 +0000
Subject: [PATCH 15/68] fix: run the AfterAll nodes of an Ordered container
 when a reporting node fails, or the run is stopped, between its specs

---
 internal/group.go | 69 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 10 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 9e4fe36..ff1e26d 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -161,7 +161,59 @@ func (g *group) evaluateSkipStatus(spec Spec) (types.SpecState, types.Failure) {
 	if g.suite.config.DryRun {
 		return types.SpecStatePassed, types.Failure{}
 	}
-	return g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure
+	return types.SpecStateInvalid, types.Failure{}
+}
+
+// willRunAny returns true if any of the passed-in specs is going to be run
+func (g *group) willRunAny(specs Specs) bool {
+	for _, spec := range specs {
+		if state, _ := g.evaluateSkipStatus(spec); state == types.SpecStateInvalid {
+			return true
+		}
+	}
+	return false
+}
+
+// cleanUpRunOnceNodes runs the run-once nodes, and the DeferCleanup callbacks, that were left for a later spec to run.  It's called when
+// there won't be one: the run was stopped, or a reporting node failed, after the spec that should have run them was cleaned up
+func (g *group) cleanUpRunOnceNodes(spec Spec) {
+	pairs := g.runOncePairs[spec.SubjectID()]
+	owedNodes := func() Nodes {
+		nodes := spec.Nodes.WithType(types.NodeTypeAfterEach)
+		nodes = append(nodes, spec.Nodes.WithType(types.NodeTypeAfterAll)...).SortedByDescendingNestingLevel()
+		nodes = append(spec.Nodes.WithType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel(), nodes...)
+		nodes = nodes.Filter(func(node Node) bool { return g.runOnceIsOwed[pairs.runOncePairFor(node.ID)] })
+		if len(nodes) == 0 {
+			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse()...)
+			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterAll).Reverse()...)
+		}
+		return nodes
+	}
+
+	nodes := owedNodes()
+	if len(nodes) == 0 {
+		return
+	}
+	g.suite.writer.Truncate()
+	g.suite.outputInterceptor.StartInterceptingOutput()
+	for ; len(nodes) > 0; nodes = owedNodes() {
+		for _, node := range nodes {
+			delete(g.runOnceIsOwed, pairs.runOncePairFor(node.ID))
+			g.recordCleanupOutcome(g.suite.runNode(node, time.Time{}, spec.Nodes.BestTextFor(node)))
+		}
+	}
+	g.suite.currentSpecReport.CapturedGinkgoWriterOutput += string(g.suite.writer.Bytes())
+	g.suite.currentSpecReport.CapturedStdOutErr += g.suite.outputInterceptor.StopInterceptingAndReturnOutput()
+}
+
+func (g *group) recordCleanupOutcome(state types.SpecState, failure types.Failure) {
+	if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted ||
+		(g.suite.currentSpecReport.State == types.SpecStateSkipped && state.Is(types.SpecStateFailureStates)) {
+		g.suite.currentSpecReport.State = state
+		g.suite.currentSpecReport.Failure = failure
+	} else if state.Is(types.SpecStateFailureStates) {
+		g.suite.currentSpecReport.AdditionalFailures = append(g.suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: state, Failure: failure})
+	}
 }
 
 // runIsOver returns true once the suite has been interrupted or has timed out
@@ -324,13 +376,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 			delete(g.runOnceIsOwed, pairs.runOncePairFor(node.ID))
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
 			g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
-			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted ||
-				(g.suite.currentSpecReport.State == types.SpecStateSkipped && state.Is(types.SpecStateFailureStates)) {
-				g.suite.currentSpecReport.State = state
-				g.suite.currentSpecReport.Failure = failure
-			} else if state.Is(types.SpecStateFailureStates) {
-				g.suite.currentSpecReport.AdditionalFailures = append(g.suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: state, Failure: failure})
-			}
+			g.recordCleanupOutcome(state, failure)
 		}
 		includeDeferCleanups = true
 	}
@@ -345,7 +391,7 @@ func (g *group) run(specs Specs) {
 		g.runOncePairs[spec.SubjectID()] = runOncePairsForSpec(spec)
 	}
 
-	for _, spec := range g.specs {
+	for idx, spec := range g.specs {
 		g.suite.selectiveLock.Lock()
 		g.suite.currentSpecReport = g.initialReportForSpec(spec)
 		g.suite.selectiveLock.Unlock()
@@ -416,11 +462,14 @@ func (g *group) run(specs Specs) {
 		}
 
 		g.suite.reportEach(spec, types.NodeTypeReportAfterEach)
-		g.suite.processCurrentSpecReport()
 		if g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates) {
 			g.succeeded = false
 			g.failedInARunOnceBefore = g.failedInARunOnceBefore || failedInARunOnceBefore
 		}
+		if !g.willRunAny(g.specs[idx+1:]) {
+			g.cleanUpRunOnceNodes(spec)
+		}
+		g.suite.processCurrentSpecReport()
 		g.suite.selectiveLock.Lock()
 		g.suite.currentSpecReport = types.SpecReport{}
 		g.suite.selectiveLock.Unlock()
-- 
2.43.0


From 5b7a20bca122c98583ccfb77413d239da35cf8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:51 +0000
Subject: [PATCH 16/68] fix: the timeline of a spec that is skipped no longer
 starts where the output of the previous spec ended

---
 internal/group.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/group.go b/internal/group.go
index ff1e26d..1446fd3 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -395,6 +395,7 @@ func (g *group) run(specs Specs) {
 		g.suite.selectiveLock.Lock()
 		g.suite.currentSpecReport = g.initialReportForSpec(spec)
 		g.suite.selectiveLock.Unlock()
+		g.suite.writer.Truncate() // what the previous spec wrote is no part of this spec's timeline
 
 		g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure = g.evaluateSkipStatus(spec)
 		g.suite.reporter.WillRun(g.suite.currentSpecReport)
-- 
2.43.0


From 805f186b0661fc4557e80a292e8012e3905e8c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:51 +0000
Subject: [PATCH 17/68] fix: report entry values that are encoded as null keep
 their representation

---
 types/report_entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/report_entry.go b/types/report_entry.go
index 63f7a9f..dbdc2b6 100644
--- a/types/report_entry.go
+++ b/types/report_entry.go
@@ -26,7 +26,7 @@ func (rev ReportEntryValue) GetRawValue() any {
 
 func (rev ReportEntryValue) String() string {
 	if rev.raw == nil {
-		return ""
+		return rev.Representation // empty, unless a value that is encoded as null has been decoded
 	}
 	if colorableStringer, ok := rev.raw.(ColorableStringer); ok {
 		return colorableStringer.ColorableString()
-- 
2.43.0


From 80fbd1c0e8f261802af9a392c5f3f5f1cf0a1b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:51 +0000
Subject: [PATCH 18/68] fix: a report entry whose value cannot be encoded as
 JSON is encoded by its representation

---
 types/report_entry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/report_entry.go b/types/report_entry.go
index dbdc2b6..5eb8d2d 100644
--- a/types/report_entry.go
+++ b/types/report_entry.go
@@ -51,6 +51,10 @@ func (rev ReportEntryValue) MarshalJSON() ([]byte, error) {
 		Representation: rev.String(),
 	}
 	asJSON, err := json.Marshal(rev.raw)
+	if err != nil {
+		// not every value can be encoded (functions, channels, NaN...) - its representation always can
+		asJSON, err = json.Marshal(out.Representation)
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cc0d7f25682e755a07009676bd826182b8c25243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:51 +0000
Subject: [PATCH 19/68] fix: the Teamcity report closes the suite under the
 name it opened it with

---
 reporters/teamcity_report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reporters/teamcity_report.go b/reporters/teamcity_report.go
index e990ad8..35f64d6 100644
--- a/reporters/teamcity_report.go
+++ b/reporters/teamcity_report.go
@@ -84,7 +84,7 @@ func GenerateTeamcityReport(report types.Report, dst string) error {
 		fmt.Fprintf(f, "##teamcity[testStdErr name='%s' out='%s']\n", name, tcEscape(systemErrForUnstructuredReporters(spec)))
 		fmt.Fprintf(f, "##teamcity[testFinished name='%s' duration='%d']\n", name, int(spec.RunTime.Seconds()*1000.0))
 	}
-	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(report.SuiteDescription))
+	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(name))
 
 	return f.Close()
 }
-- 
2.43.0


From bad358ab59c2b3e61e8fd266473e687d072b2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:14 +0000
Subject: [PATCH 20/68] fix: the merged Teamcity report is written to a
 directory that does not exist yet, as the JSON and JUnit reports are

---
 reporters/teamcity_report.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reporters/teamcity_report.go b/reporters/teamcity_report.go
index 35f64d6..afa817a 100644
--- a/reporters/teamcity_report.go
+++ b/reporters/teamcity_report.go
@@ -101,5 +101,8 @@ func MergeAndCleanupTeamcityReports(sources []string, dst string) ([]string, err
 		os.Remove(source)
 		merged = append(merged, data...)
 	}
+	if err := os.MkdirAll(path.Dir(dst), 0770); err != nil {
+		return messages, err
+	}
 	return messages, os.WriteFile(dst, merged, 0666)
 }
-- 
2.43.0


From 181ec09f42718a630789e7ac5ae1145388a41fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 21/68] fix: run the AfterAll nodes of a nested container when
 a reporting node fails its last spec and the specs of the outer container go
 on

---
 internal/group.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 1446fd3..24e315f 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -164,9 +164,12 @@ func (g *group) evaluateSkipStatus(spec Spec) (types.SpecState, types.Failure) {
 	return types.SpecStateInvalid, types.Failure{}
 }
 
-// willRunAny returns true if any of the passed-in specs is going to be run
-func (g *group) willRunAny(specs Specs) bool {
+// willRunAnyWithPair returns true if any of the passed-in specs is going to be run and shares the run-once pair
+func (g *group) willRunAnyWithPair(specs Specs, pair runOncePair) bool {
 	for _, spec := range specs {
+		if !g.runOncePairs[spec.SubjectID()].hasRunOncePair(pair) {
+			continue
+		}
 		if state, _ := g.evaluateSkipStatus(spec); state == types.SpecStateInvalid {
 			return true
 		}
@@ -174,18 +177,25 @@ func (g *group) willRunAny(specs Specs) bool {
 	return false
 }
 
-// cleanUpRunOnceNodes runs the run-once nodes, and the DeferCleanup callbacks, that were left for a later spec to run.  It's called when
-// there won't be one: the run was stopped, or a reporting node failed, after the spec that should have run them was cleaned up
-func (g *group) cleanUpRunOnceNodes(spec Spec) {
+// cleanUpRunOnceNodes runs the run-once nodes, and the DeferCleanup callbacks, that were left for a later spec to run if there won't be one:
+// the run was stopped, or a reporting node failed, after the spec that should have run them was cleaned up
+func (g *group) cleanUpRunOnceNodes(spec Spec, laterSpecs Specs) {
 	pairs := g.runOncePairs[spec.SubjectID()]
 	owedNodes := func() Nodes {
 		nodes := spec.Nodes.WithType(types.NodeTypeAfterEach)
 		nodes = append(nodes, spec.Nodes.WithType(types.NodeTypeAfterAll)...).SortedByDescendingNestingLevel()
 		nodes = append(spec.Nodes.WithType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel(), nodes...)
-		nodes = nodes.Filter(func(node Node) bool { return g.runOnceIsOwed[pairs.runOncePairFor(node.ID)] })
+		nodes = nodes.Filter(func(node Node) bool {
+			pair := pairs.runOncePairFor(node.ID)
+			return g.runOnceIsOwed[pair] && !g.willRunAnyWithPair(laterSpecs, pair)
+		})
 		if len(nodes) == 0 {
 			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse()...)
 			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterAll).Reverse()...)
+			nodes = nodes.Filter(func(node Node) bool {
+				pair := pairs.runOncePairFor(node.NodeIDWhereCleanupWasGenerated)
+				return pair.isZero() || !g.willRunAnyWithPair(laterSpecs, pair)
+			})
 		}
 		return nodes
 	}
@@ -467,9 +477,7 @@ func (g *group) run(specs Specs) {
 			g.succeeded = false
 			g.failedInARunOnceBefore = g.failedInARunOnceBefore || failedInARunOnceBefore
 		}
-		if !g.willRunAny(g.specs[idx+1:]) {
-			g.cleanUpRunOnceNodes(spec)
-		}
+		g.cleanUpRunOnceNodes(spec, g.specs[idx+1:])
 		g.suite.processCurrentSpecReport()
 		g.suite.selectiveLock.Lock()
 		g.suite.currentSpecReport = types.SpecReport{}
-- 
2.43.0


From 465faf67b6badc63ad07454f8586e355a6ea36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 22/68] fix: ginkgo outline applies the rules for nested focus

The stack that tracked focused specs lost track when a spec had a By: a focused
container kept its focus although one of its specs was focused. A focused
container in a focused container, and focus in a pending container, were
not taken into account.
---
 ginkgo/outline/ginkgo.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/ginkgo/outline/ginkgo.go b/ginkgo/outline/ginkgo.go
index 5d8d00b..8928a99 100644
--- a/ginkgo/outline/ginkgo.go
+++ b/ginkgo/outline/ginkgo.go
@@ -81,27 +81,29 @@ func (n *ginkgoNode) PropagateInheritedProperties() {
 
 // BackpropagateUnfocus propagates the Focused property through the subtree
 // rooted at n. It applies the rule described in the Ginkgo docs:
-// > Nested programmatically focused specs follow a simple rule: if a
-// > leaf-node is marked focused, any of its ancestor nodes that are marked
-// > focus will be unfocused.
+// > You can nest focus declarations.  Doing so follows a simple rule: if a
+// > child node is marked as focused, any of its ancestor nodes that are marked
+// > as focused will be unfocused.
+// As when the suite runs, focus has no effect in a node that is marked pending.
 func (n *ginkgoNode) BackpropagateUnfocus() {
-	focusedSpecInSubtreeStack := []bool{}
-	n.PostOrder(func(thisNode *ginkgoNode) {
-		if thisNode.Spec {
-			focusedSpecInSubtreeStack = append(focusedSpecInSubtreeStack, thisNode.Focused)
-			return
-		}
-		focusedSpecInSubtree := false
-		for range thisNode.Nodes {
-			focusedSpecInSubtree = focusedSpecInSubtree || focusedSpecInSubtreeStack[len(focusedSpecInSubtreeStack)-1]
-			focusedSpecInSubtreeStack = focusedSpecInSubtreeStack[0 : len(focusedSpecInSubtreeStack)-1]
-		}
-		focusedSpecInSubtreeStack = append(focusedSpecInSubtreeStack, focusedSpecInSubtree)
-		if focusedSpecInSubtree {
-			thisNode.Focused = false
-		}
-	})
+	n.backpropagateUnfocus()
+}
 
+// backpropagateUnfocus returns true if n, or a node in its subtree, is focused
+func (n *ginkgoNode) backpropagateUnfocus() bool {
+	focusedDescendant := false
+	for _, m := range n.Nodes {
+		if m.backpropagateUnfocus() {
+			focusedDescendant = true
+		}
+	}
+	if n.Pending {
+		return false
+	}
+	if focusedDescendant {
+		n.Focused = false
+	}
+	return n.Focused || focusedDescendant
 }
 
 func packageAndIdentNamesFromCallExpr(ce *ast.CallExpr) (string, string, bool) {
-- 
2.43.0


From 2908c249437ba6a85d010c7999578fd23ed9d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 23/68] fix: ginkgo outline finds the ginkgo import among
 imports of its subpackages

---
 ginkgo/outline/import.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ginkgo/outline/import.go b/ginkgo/outline/import.go
index f0a6b5d..7abbf54 100644
--- a/ginkgo/outline/import.go
+++ b/ginkgo/outline/import.go
@@ -36,11 +36,11 @@ func packageNameForImport(f *ast.File, path string) *string {
 	return &name
 }
 
-// importSpec returns the import spec if f imports path,
-// or nil otherwise.
+// importSpec returns the import spec if f imports path, or one of the packages
+// of its DSL, or nil otherwise.
 func importSpec(f *ast.File, path string) *ast.ImportSpec {
 	for _, s := range f.Imports {
-		if strings.HasPrefix(importPath(s), path) {
+		if importPath(s) == path || strings.HasPrefix(importPath(s), path+"/dsl/") {
 			return s
 		}
 	}
-- 
2.43.0


From 25d0a066d26844eef9786d37e9cab36dba8f94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 24/68] fix: ginkgo outline honours the Focus decorator,
 qualified decorators and DescribeTableSubtree

---
 ginkgo/outline/ginkgo.go | 82 ++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 42 deletions(-)

diff --git a/ginkgo/outline/ginkgo.go b/ginkgo/outline/ginkgo.go
index 8928a99..83e7efb 100644
--- a/ginkgo/outline/ginkgo.go
+++ b/ginkgo/outline/ginkgo.go
@@ -150,35 +150,37 @@ func ginkgoNodeFromCallExpr(fset *token.FileSet, ce *ast.CallExpr, ginkgoPackage
 	case "It", "Specify", "Entry":
 		n.Spec = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
-		n.Pending = pendingFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageName)
+		n.Focused = decoratedFromCallExpr(ce, "Focus", ginkgoPackageName)
+		n.Pending = decoratedFromCallExpr(ce, "Pending", ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
 	case "FIt", "FSpecify", "FEntry":
 		n.Spec = true
 		n.Focused = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
 	case "PIt", "PSpecify", "XIt", "XSpecify", "PEntry", "XEntry":
 		n.Spec = true
 		n.Pending = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "Context", "Describe", "When", "DescribeTable":
+	case "Context", "Describe", "When", "DescribeTable", "DescribeTableSubtree":
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
-		n.Pending = pendingFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageName)
+		n.Focused = decoratedFromCallExpr(ce, "Focus", ginkgoPackageName)
+		n.Pending = decoratedFromCallExpr(ce, "Pending", ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "FContext", "FDescribe", "FWhen", "FDescribeTable":
+	case "FContext", "FDescribe", "FWhen", "FDescribeTable", "FDescribeTableSubtree":
 		n.Focused = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "PContext", "PDescribe", "PWhen", "XContext", "XDescribe", "XWhen", "PDescribeTable", "XDescribeTable":
+	case "PContext", "PDescribe", "PWhen", "XContext", "XDescribe", "XWhen", "PDescribeTable", "XDescribeTable", "PDescribeTableSubtree", "XDescribeTableSubtree":
 		n.Pending = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
 	case "By":
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
@@ -230,7 +232,7 @@ func textFromCallExpr(ce *ast.CallExpr) (string, bool) {
 	}
 }
 
-func labelFromCallExpr(ce *ast.CallExpr) []string {
+func labelFromCallExpr(ce *ast.CallExpr, ginkgoPackageName *string) []string {
 
 	labels := []string{}
 	if len(ce.Args) < 2 {
@@ -238,22 +240,27 @@ func labelFromCallExpr(ce *ast.CallExpr) []string {
 	}
 
 	for _, arg := range ce.Args[1:] {
-		switch expr := arg.(type) {
-		case *ast.CallExpr:
-			id, ok := expr.Fun.(*ast.Ident)
-			if !ok {
-				// to skip over cases where the expr.Fun. is actually *ast.SelectorExpr
-				continue
-			}
-			if id.Name == "Label" {
-				ls := extractLabels(expr)
-				labels = append(labels, ls...)
-			}
+		if expr, ok := arg.(*ast.CallExpr); ok && isGinkgoIdent(expr.Fun, "Label", ginkgoPackageName) {
+			labels = append(labels, extractLabels(expr)...)
 		}
 	}
 	return labels
 }
 
+// isGinkgoIdent returns true if the expression names the given identifier of
+// the ginkgo package.
+func isGinkgoIdent(expr ast.Expr, name string, ginkgoPackageName *string) bool {
+	switch ex := expr.(type) {
+	case *ast.Ident:
+		return ex.Name == name
+	case *ast.SelectorExpr:
+		pkgID, ok := ex.X.(*ast.Ident)
+		return ok && pkgID.Obj == nil && ginkgoPackageName != nil && pkgID.Name == *ginkgoPackageName && ex.Sel.Name == name
+	default:
+		return false
+	}
+}
+
 func extractLabels(expr *ast.CallExpr) []string {
 	out := []string{}
 	for _, arg := range expr.Args {
@@ -275,29 +282,20 @@ func extractLabels(expr *ast.CallExpr) []string {
 	return out
 }
 
-func pendingFromCallExpr(ce *ast.CallExpr) bool {
-
-	pending := false
+// decoratedFromCallExpr returns true if the named decorator is passed to a
+// Ginkgo spec or container.
+func decoratedFromCallExpr(ce *ast.CallExpr, name string, ginkgoPackageName *string) bool {
 	if len(ce.Args) < 2 {
-		return pending
+		return false
 	}
 
 	for _, arg := range ce.Args[1:] {
-		switch expr := arg.(type) {
-		case *ast.CallExpr:
-			id, ok := expr.Fun.(*ast.Ident)
-			if !ok {
-				// to skip over cases where the expr.Fun. is actually *ast.SelectorExpr
-				continue
-			}
-			if id.Name == "Pending" {
-				pending = true
-			}
-		case *ast.Ident:
-			if expr.Name == "Pending" {
-				pending = true
-			}
+		if expr, ok := arg.(*ast.CallExpr); ok {
+			arg = expr.Fun
+		}
+		if isGinkgoIdent(arg, name, ginkgoPackageName) {
+			return true
 		}
 	}
-	return pending
+	return false
 }
-- 
2.43.0


From 938506d71caa3a0ecfa7b935ab5a9a5724748f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 25/68] fix: ginkgo unfocus leaves code that compiles

A Focus decorator that is the last argument, or is not directly followed by a
comma, took what follows it along. Anything else that is called Focus (a method,
a field, a key, a constant) was removed, too. Focus by way of a qualified
import, and FDescribeTableSubtree, were not found.
---
 ginkgo/unfocus/unfocus_command.go | 91 +++++++++++++++++++++++++++----
 1 file changed, 80 insertions(+), 11 deletions(-)

diff --git a/ginkgo/unfocus/unfocus_command.go b/ginkgo/unfocus/unfocus_command.go
index 7dd2943..f230427 100644
--- a/ginkgo/unfocus/unfocus_command.go
+++ b/ginkgo/unfocus/unfocus_command.go
@@ -8,7 +8,10 @@ import (
 	"go/token"
 	"io"
 	"os"
+	"path"
 	"path/filepath"
+	"sort"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -90,7 +93,7 @@ func unfocusFile(path string) {
 		return
 	}
 
-	eliminations := scanForFocus(ast)
+	eliminations := scanForFocus(ast, data)
 	if len(eliminations) == 0 {
 		return
 	}
@@ -154,31 +157,97 @@ func updateFile(path string, data []byte, eliminations [][]int64) error {
 	return nil
 }
 
-func scanForFocus(file *ast.File) (eliminations [][]int64) {
-	ast.Inspect(file, func(n ast.Node) bool {
-		if c, ok := n.(*ast.CallExpr); ok {
-			if i, ok := c.Fun.(*ast.Ident); ok {
-				if isFocus(i.Name) {
-					eliminations = append(eliminations, []int64{int64(i.Pos()), 1})
+func scanForFocus(file *ast.File, data []byte) (eliminations [][]int64) {
+	ginkgoNames := ginkgoPackageNames(file)
+	isQualified := func(s *ast.SelectorExpr) bool {
+		x, ok := s.X.(*ast.Ident)
+		return ok && x.Obj == nil && ginkgoNames[x.Name]
+	}
+	eliminateDecorators := func(exprs []ast.Expr) {
+		for _, expr := range exprs {
+			switch e := expr.(type) {
+			case *ast.Ident:
+				// only ginkgo's, that is: neither declared in this file nor, without a dot-import, elsewhere in this package
+				if e.Name != "Focus" || e.Obj != nil || !hasDotImport(file) {
+					continue
+				}
+			case *ast.SelectorExpr:
+				if e.Sel.Name != "Focus" || !isQualified(e) {
+					continue
 				}
+			default:
+				continue
 			}
+			end := int64(expr.End() - file.FileStart)
+			eliminations = append(eliminations, []int64{int64(expr.Pos()), int64(expr.End()-expr.Pos()) + lengthOfComma(data[end:])})
 		}
+	}
 
-		if i, ok := n.(*ast.Ident); ok {
-			if i.Name == "Focus" {
-				eliminations = append(eliminations, []int64{int64(i.Pos()), 6})
+	ast.Inspect(file, func(n ast.Node) bool {
+		switch c := n.(type) {
+		case *ast.CallExpr:
+			switch f := c.Fun.(type) {
+			case *ast.Ident:
+				if isFocus(f.Name) {
+					eliminations = append(eliminations, []int64{int64(f.Pos()), 1})
+				}
+			case *ast.SelectorExpr:
+				if isFocus(f.Sel.Name) && isQualified(f) {
+					eliminations = append(eliminations, []int64{int64(f.Sel.Pos()), 1})
+				}
 			}
+			eliminateDecorators(c.Args)
+		case *ast.CompositeLit:
+			eliminateDecorators(c.Elts)
 		}
 
 		return true
 	})
 
+	sort.Slice(eliminations, func(i, j int) bool { return eliminations[i][0] < eliminations[j][0] })
 	return eliminations
 }
 
+// ginkgoPackageNames returns the names by which the file refers to ginkgo and the packages of its DSL
+func ginkgoPackageNames(file *ast.File) map[string]bool {
+	names := map[string]bool{}
+	for _, spec := range file.Imports {
+		importPath, err := strconv.Unquote(spec.Path.Value)
+		if err != nil || !(importPath == "github.com/onsi/ginkgo/v2" || strings.HasPrefix(importPath, "github.com/onsi/ginkgo/v2/dsl/")) {
+			continue
+		}
+		if spec.Name != nil {
+			names[spec.Name.Name] = true
+		} else if importPath == "github.com/onsi/ginkgo/v2" {
+			names["ginkgo"] = true
+		} else {
+			names[path.Base(importPath)] = true
+		}
+	}
+	return names
+}
+
+func hasDotImport(file *ast.File) bool {
+	for _, spec := range file.Imports {
+		if spec.Name != nil && spec.Name.Name == "." {
+			return true
+		}
+	}
+	return false
+}
+
+// lengthOfComma returns the length of the comma at the start of data, along with the white space before it, if there is one
+func lengthOfComma(data []byte) int64 {
+	trimmed := bytes.TrimLeft(data, " \t\r\n")
+	if !bytes.HasPrefix(trimmed, []byte(",")) {
+		return 0
+	}
+	return int64(len(data) - len(trimmed) + 1)
+}
+
 func isFocus(name string) bool {
 	switch name {
-	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FEntry", "FSpecify", "FWhen":
+	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FDescribeTableSubtree", "FEntry", "FSpecify", "FWhen":
 		return true
 	default:
 		return false
-- 
2.43.0


From a0783f835e758309182130020e7c88c243a664c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 26/68] fix: merging coverprofiles no longer panics when a file
 has more blocks in a later profile

---
 ginkgo/internal/gocovmerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/internal/gocovmerge.go b/ginkgo/internal/gocovmerge.go
index 87cfa11..d8c10c5 100644
--- a/ginkgo/internal/gocovmerge.go
+++ b/ginkgo/internal/gocovmerge.go
@@ -89,7 +89,7 @@ func mergeProfileBlock(p *cover.Profile, pb cover.ProfileBlock, startIndex int)
 	}
 
 	i := 0
-	if !sortFunc(i) {
+	if startIndex < len(p.Blocks) && !sortFunc(i) {
 		i = sort.Search(len(p.Blocks)-startIndex, sortFunc)
 	}
 
-- 
2.43.0


From 6f1bf1751d60d5864e81e1495b73b18bb1987937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 27/68] fix: ginkgo bootstrap and generate write legal package
 and function names for any directory name

---
 ginkgo/generators/generators_common.go | 28 ++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/ginkgo/generators/generators_common.go b/ginkgo/generators/generators_common.go
index 28c7aa6..e7dedfc 100644
--- a/ginkgo/generators/generators_common.go
+++ b/ginkgo/generators/generators_common.go
@@ -3,10 +3,12 @@ package generators
 import (
 	"fmt"
 	"go/build"
+	"go/token"
 	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/onsi/ginkgo/v2/ginkgo/command"
 )
@@ -31,17 +33,28 @@ func getPackageAndFormattedName() (string, string, string) {
 		packageName = ensureLegalPackageName(dirName)
 	}
 
-	formattedName := prettifyName(filepath.Base(path))
+	formattedName := strings.Map(func(r rune) rune {
+		if !isLegalInIdentifier(r) {
+			return -1
+		}
+		return r
+	}, prettifyName(filepath.Base(path)))
 	return packageName, dirName, formattedName
 }
 
 func ensureLegalPackageName(name string) string {
-	if name == "_" {
-		return "underscore"
-	}
 	if len(name) == 0 {
 		return "empty"
 	}
+	name = strings.Map(func(r rune) rune {
+		if !isLegalInIdentifier(r) {
+			return '_'
+		}
+		return r
+	}, name)
+	if name == "_" {
+		return "underscore"
+	}
 	n, isDigitErr := strconv.Atoi(string(name[0]))
 	if isDigitErr == nil {
 		return []string{"zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine"}[n] + name[1:]
@@ -49,6 +62,10 @@ func ensureLegalPackageName(name string) string {
 	return name
 }
 
+func isLegalInIdentifier(r rune) bool {
+	return r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r)
+}
+
 func prettifyName(name string) string {
 	name = strings.ReplaceAll(name, "-", " ")
 	name = strings.ReplaceAll(name, "_", " ")
@@ -59,6 +76,9 @@ func prettifyName(name string) string {
 
 func determinePackageName(name string, internal bool) string {
 	if internal {
+		if token.IsKeyword(name) {
+			return name + "_"
+		}
 		return name
 	}
 
-- 
2.43.0


From 2f810f0a5373706dd6b284450836416ead68c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 28/68] fix: ginkgo generate only strips the .go and _test
 suffixes of its argument

---
 ginkgo/generators/generate_command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginkgo/generators/generate_command.go b/ginkgo/generators/generate_command.go
index cf3b7cb..927cc05 100644
--- a/ginkgo/generators/generate_command.go
+++ b/ginkgo/generators/generate_command.go
@@ -163,8 +163,8 @@ func generateTestFileForSubject(subject string, conf GeneratorsConfig) {
 func formatSubject(name string) string {
 	name = strings.ReplaceAll(name, "-", "_")
 	name = strings.ReplaceAll(name, " ", "_")
-	name = strings.Split(name, ".go")[0]
-	name = strings.Split(name, "_test")[0]
+	name = strings.TrimSuffix(name, ".go")
+	name = strings.TrimSuffix(name, "_test")
 	return name
 }
 
-- 
2.43.0


From d64bec069d16870e4ab378c30e6d5a948e6ca171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 29/68] fix: ginkgo generate finds the import path whatever
 go.mod and the directories look like

---
 ginkgo/generators/generate_command.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ginkgo/generators/generate_command.go b/ginkgo/generators/generate_command.go
index 927cc05..a02372f 100644
--- a/ginkgo/generators/generate_command.go
+++ b/ginkgo/generators/generate_command.go
@@ -170,14 +170,7 @@ func formatSubject(name string) string {
 
 // moduleName returns module name from go.mod from given module root directory
 func moduleName(modRoot string) string {
-	modFile, err := os.Open(filepath.Join(modRoot, "go.mod"))
-	if err != nil {
-		return ""
-	}
-	defer modFile.Close()
-
-	mod := make([]byte, 128)
-	_, err = modFile.Read(mod)
+	mod, err := os.ReadFile(filepath.Join(modRoot, "go.mod"))
 	if err != nil {
 		return ""
 	}
@@ -249,9 +242,11 @@ func getPackageImportPath() string {
 	if modRoot != "" {
 		modName := moduleName(modRoot)
 		if modName != "" {
-			cd := strings.ReplaceAll(workingDir, modRoot, "")
-			cd = strings.ReplaceAll(cd, sep, "/")
-			return modName + cd
+			cd, err := filepath.Rel(modRoot, workingDir)
+			if err != nil || cd == "." {
+				return modName
+			}
+			return modName + "/" + filepath.ToSlash(cd)
 		}
 	}
 
-- 
2.43.0


From 94311ad60edaf5340a59131258c4dccddf654c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 30/68] fix: ginkgo bootstrap and generate leave no file behind
 when the template cannot be rendered

---
 ginkgo/generators/bootstrap_command.go | 11 ++++++-----
 ginkgo/generators/generate_command.go  | 15 ++++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/ginkgo/generators/bootstrap_command.go b/ginkgo/generators/bootstrap_command.go
index b2dc59b..13ecd9a 100644
--- a/ginkgo/generators/bootstrap_command.go
+++ b/ginkgo/generators/bootstrap_command.go
@@ -91,10 +91,6 @@ func generateBootstrap(conf GeneratorsConfig) {
 		fmt.Printf("Generating ginkgo test suite bootstrap for %s in:\n\t%s\n", packageName, targetFile)
 	}
 
-	f, err := os.Create(targetFile)
-	command.AbortIfError("Failed to create file:", err)
-	defer f.Close()
-
 	var templateText string
 	if conf.CustomTemplate != "" {
 		tpl, err := os.ReadFile(conf.CustomTemplate)
@@ -127,7 +123,12 @@ func generateBootstrap(conf GeneratorsConfig) {
 	err = bootstrapTemplate.Execute(buf, data)
 	command.AbortIfError("Failed to render bootstrap template:", err)
 
-	buf.WriteTo(f)
+	f, err := os.Create(targetFile)
+	command.AbortIfError("Failed to create file:", err)
+	defer f.Close()
+
+	_, err = buf.WriteTo(f)
+	command.AbortIfError("Failed to write file:", err)
 
 	internal.GoFmt(targetFile)
 }
diff --git a/ginkgo/generators/generate_command.go b/ginkgo/generators/generate_command.go
index a02372f..b4eedf5 100644
--- a/ginkgo/generators/generate_command.go
+++ b/ginkgo/generators/generate_command.go
@@ -123,10 +123,6 @@ func generateTestFileForSubject(subject string, conf GeneratorsConfig) {
 		fmt.Printf("Generating ginkgo test for %s in:\n  %s\n", data.Subject, targetFile)
 	}
 
-	f, err := os.Create(targetFile)
-	command.AbortIfError("Failed to create test file:", err)
-	defer f.Close()
-
 	var templateText string
 	if conf.CustomTemplate != "" {
 		tpl, err := os.ReadFile(conf.CustomTemplate)
@@ -153,10 +149,19 @@ func generateTestFileForSubject(subject string, conf GeneratorsConfig) {
 	specTemplate, err := template.New("spec").Funcs(sprig.TxtFuncMap()).Option("missingkey=error").Parse(templateText)
 	command.AbortIfError("Failed to read parse test template:", err)
 
+	buf := &bytes.Buffer{}
 	//Being explicit about failing sooner during template rendering
 	//when accessing custom data rather than during the go fmt command
-	err = specTemplate.Execute(f, data)
+	err = specTemplate.Execute(buf, data)
 	command.AbortIfError("Failed to render bootstrap template:", err)
+
+	f, err := os.Create(targetFile)
+	command.AbortIfError("Failed to create test file:", err)
+	defer f.Close()
+
+	_, err = buf.WriteTo(f)
+	command.AbortIfError("Failed to write test file:", err)
+
 	internal.GoFmt(targetFile)
 }
 
-- 
2.43.0


From c0aebcf92d18e3d12a8fe2134a1ba3e37ad055e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 31/68] fix: notice that a parallel process was ended by a
 signal

Exited() is false for a process that was killed, so the CLI took it to be alive
and the other processes waited for it for ever.
---
 ginkgo/internal/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 41052ea..07bc295 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -219,7 +219,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 
 		cmd, buf := buildAndStartCommand(suite, args, false)
 		procOutput[proc-1] = buf
-		server.RegisterAlive(proc, func() bool { return cmd.ProcessState == nil || !cmd.ProcessState.Exited() })
+		server.RegisterAlive(proc, func() bool { return cmd.ProcessState == nil })
 
 		go func() {
 			cmd.Wait()
-- 
2.43.0


From 69b3a79ae6f916db7f5dd7b68af714b5ce5559cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 32/68] fix: a suite in which a spec calls os.Exit(0) has not
 passed

Pass --test.paniconexit0 to the compiled suite, as go test does.
---
 ginkgo/internal/run.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 07bc295..6790121 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -72,6 +72,7 @@ func runGoTest(suite TestSuite, cliConfig types.CLIConfig, goFlagsConfig types.G
 
 	args, err := types.GenerateGoTestRunArgs(goFlagsConfig)
 	command.AbortIfError("Failed to generate test run arguments", err)
+	args = append([]string{"--test.paniconexit0"}, args...)
 	cmd, buf := buildAndStartCommand(suite, args, true)
 
 	cmd.Wait()
@@ -116,7 +117,7 @@ func runSerial(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig t
 
 	args, err := types.GenerateGinkgoTestRunArgs(ginkgoConfig, reporterConfig, goFlagsConfig)
 	command.AbortIfError("Failed to generate test run arguments", err)
-	args = append([]string{"--test.timeout=0"}, args...)
+	args = append([]string{"--test.timeout=0", "--test.paniconexit0"}, args...)
 	args = append(args, additionalArgs...)
 
 	cmd, buf := buildAndStartCommand(suite, args, true)
@@ -214,7 +215,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 
 		args, err := types.GenerateGinkgoTestRunArgs(procGinkgoConfig, reporterConfig, procGoFlagsConfig)
 		command.AbortIfError("Failed to generate test run arguments", err)
-		args = append([]string{"--test.timeout=0"}, args...)
+		args = append([]string{"--test.timeout=0", "--test.paniconexit0"}, args...)
 		args = append(args, additionalArgs...)
 
 		cmd, buf := buildAndStartCommand(suite, args, false)
-- 
2.43.0


From c55e7a90bdf99ff159809bc37b3fdfc65fb5433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 33/68] fix: a run that is interrupted before all the suites
 ran has not passed

---
 ginkgo/run/run_command.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginkgo/run/run_command.go b/ginkgo/run/run_command.go
index 03875b9..679862c 100644
--- a/ginkgo/run/run_command.go
+++ b/ginkgo/run/run_command.go
@@ -97,6 +97,7 @@ func (r *SpecRunner) RunSpecs(args []string, additionalArgs []string) {
 	}
 
 	iteration := 0
+	interrupted := false
 OUTER_LOOP:
 	for {
 		if !r.flags.WasSet("seed") {
@@ -118,6 +119,7 @@ OUTER_LOOP:
 			suites[suiteIdx] = suite
 
 			if r.interruptHandler.Status().Interrupted() {
+				interrupted = true
 				opc.StopAndDrain()
 				break OUTER_LOOP
 			}
@@ -180,7 +182,7 @@ OUTER_LOOP:
 
 	fmt.Printf("\nGinkgo ran %d %s in %s\n", len(suites), internal.PluralizedWord("suite", "suites", len(suites)), time.Since(t))
 
-	if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 {
+	if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 && !interrupted {
 		if suites.AnyHaveProgrammaticFocus() && strings.TrimSpace(os.Getenv("GINKGO_EDITOR_INTEGRATION")) == "" {
 			fmt.Printf("Test Suite Passed\n")
 			fmt.Printf("Detected Programmatic Focus - setting exit status to %d\n", types.GINKGO_FOCUS_EXIT_CODE)
-- 
2.43.0


From b3f047d692f64ba1d990cf02aee02dbd25252295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 34/68] fix: merge the profiles there are when a process died
 before it wrote its own

A missing profile ended the whole run: with --keep-going the suites that were
left did not run, and the reports were not merged.
---
 ginkgo/internal/profiles_and_reports.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ginkgo/internal/profiles_and_reports.go b/ginkgo/internal/profiles_and_reports.go
index 8e16d2b..18e7a02 100644
--- a/ginkgo/internal/profiles_and_reports.go
+++ b/ginkgo/internal/profiles_and_reports.go
@@ -1,7 +1,9 @@
 package internal
 
 import (
+	"errors"
 	"fmt"
+	"io/fs"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -149,6 +151,9 @@ func MergeAndCleanupCoverProfiles(profiles []string, destination string) error {
 	var merged []*cover.Profile
 	for _, file := range profiles {
 		parsedProfiles, err := cover.ParseProfiles(file)
+		if errors.Is(err, fs.ErrNotExist) {
+			continue // the process died before it could write its profile
+		}
 		if err != nil {
 			return err
 		}
@@ -193,9 +198,17 @@ func MergeProfiles(profilePaths []string, destination string) error {
 	profiles := []*profile.Profile{}
 	for _, profilePath := range profilePaths {
 		proFile, err := os.Open(profilePath)
+		if errors.Is(err, fs.ErrNotExist) {
+			continue // the process died before it could write its profile
+		}
 		if err != nil {
 			return fmt.Errorf("Could not open profile: %s\n%s", profilePath, err.Error())
 		}
+		if info, err := proFile.Stat(); err == nil && info.Size() == 0 {
+			_ = proFile.Close()
+			os.Remove(profilePath)
+			continue // nor could it fill it
+		}
 		prof, err := profile.Parse(proFile)
 		_ = proFile.Close()
 		if err != nil {
@@ -205,6 +218,10 @@ func MergeProfiles(profilePaths []string, destination string) error {
 		os.Remove(profilePath)
 	}
 
+	if len(profiles) == 0 {
+		return nil
+	}
+
 	mergedProfile, err := profile.Merge(profiles)
 	if err != nil {
 		return fmt.Errorf("Could not merge profiles:\n%s", err.Error())
-- 
2.43.0


From 4cb18e795de25a498213e306d93c705caa297c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 35/68] fix: the report of an earlier attempt is not that of a
 suite that dies

---
 ginkgo/internal/run.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 6790121..2d7694a 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -107,12 +107,15 @@ func runSerial(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig t
 	}
 	if reporterConfig.JSONReport != "" {
 		reporterConfig.JSONReport = AbsPathForGeneratedAsset(reporterConfig.JSONReport, suite, cliConfig, 0)
+		removeStaleReport(reporterConfig.JSONReport)
 	}
 	if reporterConfig.JUnitReport != "" {
 		reporterConfig.JUnitReport = AbsPathForGeneratedAsset(reporterConfig.JUnitReport, suite, cliConfig, 0)
+		removeStaleReport(reporterConfig.JUnitReport)
 	}
 	if reporterConfig.TeamcityReport != "" {
 		reporterConfig.TeamcityReport = AbsPathForGeneratedAsset(reporterConfig.TeamcityReport, suite, cliConfig, 0)
+		removeStaleReport(reporterConfig.TeamcityReport)
 	}
 
 	args, err := types.GenerateGinkgoTestRunArgs(ginkgoConfig, reporterConfig, goFlagsConfig)
@@ -155,6 +158,13 @@ func runSerial(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig t
 	return suite
 }
 
+// removeStaleReport removes what an earlier run of the suite left, so that it does not pass for the report of a run that dies before it can write its own
+func removeStaleReport(path string) {
+	if info, err := os.Lstat(path); err == nil && info.Mode().IsRegular() {
+		os.Remove(path)
+	}
+}
+
 func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig types.ReporterConfig, cliConfig types.CLIConfig, goFlagsConfig types.GoFlagsConfig, additionalArgs []string) TestSuite {
 	type procResult struct {
 		passed               bool
@@ -179,12 +189,15 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 
 	if reporterConfig.JSONReport != "" {
 		reporterConfig.JSONReport = AbsPathForGeneratedAsset(reporterConfig.JSONReport, suite, cliConfig, 0)
+		removeStaleReport(reporterConfig.JSONReport)
 	}
 	if reporterConfig.JUnitReport != "" {
 		reporterConfig.JUnitReport = AbsPathForGeneratedAsset(reporterConfig.JUnitReport, suite, cliConfig, 0)
+		removeStaleReport(reporterConfig.JUnitReport)
 	}
 	if reporterConfig.TeamcityReport != "" {
 		reporterConfig.TeamcityReport = AbsPathForGeneratedAsset(reporterConfig.TeamcityReport, suite, cliConfig, 0)
+		removeStaleReport(reporterConfig.TeamcityReport)
 	}
 
 	for proc := 1; proc <= numProcs; proc++ {
-- 
2.43.0


From af2e4a7183ab130e96fb6453b54fc330536e39cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 36/68] fix: watch crashed when a suite that was removed came
 back

The hashes of a removed suite are pruned, so the suite has to be forgotten too.
---
 ginkgo/watch/delta_tracker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginkgo/watch/delta_tracker.go b/ginkgo/watch/delta_tracker.go
index 26418ac..7c22529 100644
--- a/ginkgo/watch/delta_tracker.go
+++ b/ginkgo/watch/delta_tracker.go
@@ -37,13 +37,14 @@ func (d *DeltaTracker) Delta(suites internal.TestSuites) (delta Delta, errors Su
 
 	d.packageHashes.StartTrackingUsage()
 
-	for _, suite := range d.suites {
+	for path, suite := range d.suites {
 		if providedSuitePaths[suite.Suite.Path] {
 			if suite.Delta() > 0 {
 				delta.modifiedSuites = append(delta.modifiedSuites, suite)
 			}
 		} else {
 			delta.RemovedSuites = append(delta.RemovedSuites, suite)
+			delete(d.suites, path)
 		}
 	}
 
-- 
2.43.0


From eb6f3acc8a0287c35671b6e8813f351c16fb27af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 37/68] fix: watch did not notice that a file was deleted or
 replaced by an older one

The modification time of the newest file left was compared with the time of the
last run.  A modification time in the future made the suite run again and again.
---
 ginkgo/watch/package_hash.go | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/ginkgo/watch/package_hash.go b/ginkgo/watch/package_hash.go
index 0e6ae1f..9b63620 100644
--- a/ginkgo/watch/package_hash.go
+++ b/ginkgo/watch/package_hash.go
@@ -27,17 +27,17 @@ func NewPackageHash(path string, watchRegExp *regexp.Regexp) *PackageHash {
 		watchRegExp: watchRegExp,
 	}
 
-	p.codeHash, _, p.testHash, _, p.Deleted = p.computeHashes()
+	p.codeHash, p.testHash, p.Deleted = p.computeHashes()
 
 	return p
 }
 
 func (p *PackageHash) CheckForChanges() bool {
-	codeHash, codeModifiedTime, testHash, testModifiedTime, deleted := p.computeHashes()
+	codeHash, testHash, deleted := p.computeHashes()
+	t := time.Now()
 
 	if deleted {
 		if !p.Deleted {
-			t := time.Now()
 			p.CodeModifiedTime = t
 			p.TestModifiedTime = t
 		}
@@ -49,11 +49,11 @@ func (p *PackageHash) CheckForChanges() bool {
 	p.Deleted = false
 
 	if p.codeHash != codeHash {
-		p.CodeModifiedTime = codeModifiedTime
+		p.CodeModifiedTime = t
 		modified = true
 	}
 	if p.testHash != testHash {
-		p.TestModifiedTime = testModifiedTime
+		p.TestModifiedTime = t
 		modified = true
 	}
 
@@ -62,7 +62,7 @@ func (p *PackageHash) CheckForChanges() bool {
 	return modified
 }
 
-func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Time, testHash string, testModifiedTime time.Time, deleted bool) {
+func (p *PackageHash) computeHashes() (codeHash string, testHash string, deleted bool) {
 	entries, err := os.ReadDir(p.path)
 
 	if err != nil {
@@ -86,24 +86,15 @@ func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Ti
 
 		if goTestRegExp.MatchString(info.Name()) {
 			testHash += p.hashForFileInfo(info)
-			if info.ModTime().After(testModifiedTime) {
-				testModifiedTime = info.ModTime()
-			}
 			continue
 		}
 
 		if p.watchRegExp.MatchString(info.Name()) {
 			codeHash += p.hashForFileInfo(info)
-			if info.ModTime().After(codeModifiedTime) {
-				codeModifiedTime = info.ModTime()
-			}
 		}
 	}
 
 	testHash += codeHash
-	if codeModifiedTime.After(testModifiedTime) {
-		testModifiedTime = codeModifiedTime
-	}
 
 	return
 }
-- 
2.43.0


From ff25c4e91516c89441413e3638b5db6657a93760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 38/68] fix: watch stopped watching a dependency that does not
 parse

so that repairing it did not run the suite again.
---
 ginkgo/watch/dependencies.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/watch/dependencies.go b/ginkgo/watch/dependencies.go
index a34d943..ac21451 100644
--- a/ginkgo/watch/dependencies.go
+++ b/ginkgo/watch/dependencies.go
@@ -75,7 +75,7 @@ func (d Dependencies) addDepsForDep(dep string, depth int) {
 func (d Dependencies) resolveAndAdd(deps []string, depth int) {
 	for _, dep := range deps {
 		pkg, err := build.Import(dep, ".", 0)
-		if err != nil {
+		if err != nil && pkg.Dir == "" {
 			continue
 		}
 		if !pkg.Goroot && (!ginkgoAndGomegaFilter.MatchString(pkg.Dir) || ginkgoIntegrationTestFilter.MatchString(pkg.Dir)) {
-- 
2.43.0


From d4904c66591ad21068ee66f8402e80755b16f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 39/68] fix: --timeout=0 was not passed on to the suites, which
 timed out after an hour

---
 types/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/config.go b/types/config.go
index 2e827ef..1d4e31b 100644
--- a/types/config.go
+++ b/types/config.go
@@ -300,7 +300,7 @@ var SuiteConfigFlags = GinkgoFlags{
 	{KeyPath: "S.SourceRoots", Name: "source-root", SectionKey: "debug",
 		Usage: "The location to look for source code when generating progress reports.  You can pass multiple --source-root flags."},
 	{KeyPath: "S.Timeout", Name: "timeout", SectionKey: "debug", UsageDefaultValue: "1h",
-		Usage: "Test suite fails if it does not complete within the specified timeout."},
+		Usage: "Test suite fails if it does not complete within the specified timeout.", AlwaysExport: true},
 	{KeyPath: "S.GracePeriod", Name: "grace-period", SectionKey: "debug", UsageDefaultValue: "30s",
 		Usage: "When interrupted, Ginkgo will wait for GracePeriod for the current running node to exit before moving on to the next one."},
 	{KeyPath: "S.OutputInterceptorMode", Name: "output-interceptor-mode", SectionKey: "debug", UsageArgument: "dup, swap, or none",
-- 
2.43.0


From a4deb59702ded9d68b7846be30a2bc7c46897440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 40/68] fix: a nil argument to a node crashed tree construction
 instead of being reported as an unknown decorator

---
 internal/node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/node.go b/internal/node.go
index 3064372..f13efbb 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -227,6 +227,8 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 	// now process the rest of the args
 	for _, arg := range args {
 		switch t := reflect.TypeOf(arg); {
+		case t == nil:
+			remainingArgs = append(remainingArgs, arg)
 		case t == reflect.TypeOf(float64(0)):
 			break // ignore deprecated timeouts
 		case t == reflect.TypeOf(Focus):
-- 
2.43.0


From 0cbc122fa816ec95fcb05dc5749d3daa99eaaafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 41/68] fix: a node could carry a label twice

---
 internal/node.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/node.go b/internal/node.go
index f13efbb..e7973c0 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -244,6 +244,7 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 		case t == reflect.TypeOf(Serial):
 			node.MarkedSerial = bool(arg.(serialType))
 			if !labelsSeen["Serial"] {
+				labelsSeen["Serial"] = true
 				node.Labels = append(node.Labels, "Serial")
 			}
 			if !nodeType.Is(types.NodeTypesForContainerAndIt) {
@@ -306,11 +307,11 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 				appendError(types.GinkgoErrors.InvalidDecoratorForNodeType(node.CodeLocation, nodeType, "Label"))
 			}
 			for _, label := range arg.(Labels) {
-				if !labelsSeen[label] {
+				label, err := types.ValidateAndCleanupLabel(label, node.CodeLocation)
+				appendError(err)
+				if err == nil && !labelsSeen[label] {
 					labelsSeen[label] = true
-					label, err := types.ValidateAndCleanupLabel(label, node.CodeLocation)
 					node.Labels = append(node.Labels, label)
-					appendError(err)
 				}
 			}
 		case t.Kind() == reflect.Func:
-- 
2.43.0


From 23c4d3e4e43a95da8972c4b4ebf92733d091f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 42/68] fix: reporting nodes with a function of the wrong type
 or with none crashed instead of being reported

---
 internal/node.go | 28 ++++++++++++++++++++++------
 types/errors.go  |  4 ++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/internal/node.go b/internal/node.go
index e7973c0..65c9226 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -330,11 +330,15 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 				node.Body = func(SpecContext) { body() }
 			} else if nodeType.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach) {
 				if node.ReportEachBody == nil {
-					if fn, ok := arg.(func(types.SpecReport)); ok {
+					switch fn := arg.(type) {
+					case func(types.SpecReport):
 						node.ReportEachBody = func(_ SpecContext, r types.SpecReport) { fn(r) }
-					} else {
-						node.ReportEachBody = arg.(func(SpecContext, types.SpecReport))
+					case func(SpecContext, types.SpecReport):
+						node.ReportEachBody = fn
 						node.HasContext = true
+					default:
+						appendError(types.GinkgoErrors.InvalidBodyType(t, node.CodeLocation, nodeType))
+						trackedFunctionError = true
 					}
 				} else {
 					appendError(types.GinkgoErrors.MultipleBodyFunctions(node.CodeLocation, nodeType))
@@ -343,11 +347,15 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 				}
 			} else if nodeType.Is(types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite) {
 				if node.ReportSuiteBody == nil {
-					if fn, ok := arg.(func(types.Report)); ok {
+					switch fn := arg.(type) {
+					case func(types.Report):
 						node.ReportSuiteBody = func(_ SpecContext, r types.Report) { fn(r) }
-					} else {
-						node.ReportSuiteBody = arg.(func(SpecContext, types.Report))
+					case func(SpecContext, types.Report):
+						node.ReportSuiteBody = fn
 						node.HasContext = true
+					default:
+						appendError(types.GinkgoErrors.InvalidBodyType(t, node.CodeLocation, nodeType))
+						trackedFunctionError = true
 					}
 				} else {
 					appendError(types.GinkgoErrors.MultipleBodyFunctions(node.CodeLocation, nodeType))
@@ -437,6 +445,14 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 		appendError(types.GinkgoErrors.MissingBodyFunction(node.CodeLocation, nodeType))
 	}
 
+	if node.NodeType.Is(types.NodeTypeReportBeforeEach|types.NodeTypeReportAfterEach) && !trackedFunctionError && node.ReportEachBody == nil {
+		appendError(types.GinkgoErrors.MissingBodyFunction(node.CodeLocation, nodeType))
+	}
+
+	if node.NodeType.Is(types.NodeTypeReportBeforeSuite|types.NodeTypeReportAfterSuite) && !trackedFunctionError && node.ReportSuiteBody == nil {
+		appendError(types.GinkgoErrors.MissingBodyFunction(node.CodeLocation, nodeType))
+	}
+
 	for _, arg := range remainingArgs {
 		appendError(types.GinkgoErrors.UnknownDecorator(node.CodeLocation, nodeType, arg))
 	}
diff --git a/types/errors.go b/types/errors.go
index c2796b5..f095042 100644
--- a/types/errors.go
+++ b/types/errors.go
@@ -211,6 +211,10 @@ func (g ginkgoErrors) InvalidBodyType(t reflect.Type, cl CodeLocation, nodeType
 	mustGet := "{{bold}}func(){{/}}, {{bold}}func(ctx SpecContext){{/}}, or {{bold}}func(ctx context.Context){{/}}"
 	if nodeType.Is(NodeTypeContainer) {
 		mustGet = "{{bold}}func(){{/}}"
+	} else if nodeType.Is(NodeTypeReportBeforeEach | NodeTypeReportAfterEach) {
+		mustGet = "{{bold}}func(SpecReport){{/}} or {{bold}}func(ctx SpecContext, SpecReport){{/}}"
+	} else if nodeType.Is(NodeTypeReportBeforeSuite | NodeTypeReportAfterSuite) {
+		mustGet = "{{bold}}func(Report){{/}} or {{bold}}func(ctx SpecContext, Report){{/}}"
 	}
 	return GinkgoError{
 		Heading: "Invalid Function",
-- 
2.43.0


From a4b3552c2a4c1fd1b0d454fc4998b06862d53ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 43/68] fix: functions of named types and with contexts of
 other types crashed tree construction or the node they were passed to

---
 internal/node.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/internal/node.go b/internal/node.go
index 65c9226..1062194 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -315,6 +315,9 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 				}
 			}
 		case t.Kind() == reflect.Func:
+			if t.Name() != "" {
+				arg = unnamedFunction(arg)
+			}
 			if nodeType.Is(types.NodeTypeContainer) {
 				if node.Body != nil {
 					appendError(types.GinkgoErrors.MultipleBodyFunctions(node.CodeLocation, nodeType))
@@ -470,6 +473,24 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 
 var doneType = reflect.TypeOf(make(Done))
 
+// unnamedFunction turns a function of a named type (e.g. type Body func()) into one of the underlying type
+func unnamedFunction(fn any) any {
+	t := reflect.TypeOf(fn)
+	in, out := []reflect.Type{}, []reflect.Type{}
+	for i := 0; i < t.NumIn(); i++ {
+		in = append(in, t.In(i))
+	}
+	for i := 0; i < t.NumOut(); i++ {
+		out = append(out, t.Out(i))
+	}
+	return reflect.ValueOf(fn).Convert(reflect.FuncOf(in, out, t.IsVariadic())).Interface()
+}
+
+// acceptsSpecContext is true if t is a context that Ginkgo can pass a SpecContext for
+func acceptsSpecContext(t reflect.Type) bool {
+	return t.Implements(contextType) && specContextType.AssignableTo(t)
+}
+
 func extractBodyFunction(deprecationTracker *types.DeprecationTracker, cl types.CodeLocation, arg any) (func(SpecContext), bool) {
 	t := reflect.TypeOf(arg)
 	if t.NumOut() > 0 || t.NumIn() > 1 {
@@ -480,11 +501,14 @@ func extractBodyFunction(deprecationTracker *types.DeprecationTracker, cl types.
 			deprecationTracker.TrackDeprecation(types.Deprecations.Async(), cl)
 			deprecatedAsyncBody := arg.(func(Done))
 			return func(SpecContext) { deprecatedAsyncBody(make(Done)) }, false
-		} else if t.In(0).Implements(specContextType) {
+		} else if t.In(0) == specContextType {
 			return arg.(func(SpecContext)), true
-		} else if t.In(0).Implements(contextType) {
+		} else if t.In(0) == contextType {
 			body := arg.(func(context.Context))
 			return func(c SpecContext) { body(c) }, true
+		} else if acceptsSpecContext(t.In(0)) {
+			v := reflect.ValueOf(arg)
+			return func(c SpecContext) { v.Call([]reflect.Value{reflect.ValueOf(c)}) }, true
 		}
 
 		return nil, false
@@ -504,7 +528,7 @@ func extractSynchronizedBeforeSuiteProc1Body(arg any) (func(SpecContext) []byte,
 		return nil, false
 	} else if t.NumOut() == 1 && t.Out(0) != byteType {
 		return nil, false
-	} else if t.NumIn() == 1 && !t.In(0).Implements(contextType) {
+	} else if t.NumIn() == 1 && !acceptsSpecContext(t.In(0)) {
 		return nil, false
 	}
 	hasContext := t.NumIn() == 1
@@ -531,9 +555,9 @@ func extractSynchronizedBeforeSuiteAllProcsBody(arg any) (func(SpecContext, []by
 
 	if t.NumOut() > 0 || t.NumIn() > 2 {
 		return nil, false
-	} else if t.NumIn() == 2 && t.In(0).Implements(contextType) && t.In(1) == byteType {
+	} else if t.NumIn() == 2 && acceptsSpecContext(t.In(0)) && t.In(1) == byteType {
 		hasContext, hasByte = true, true
-	} else if t.NumIn() == 1 && t.In(0).Implements(contextType) {
+	} else if t.NumIn() == 1 && acceptsSpecContext(t.In(0)) {
 		hasContext = true
 	} else if t.NumIn() == 1 && t.In(0) == byteType {
 		hasByte = true
-- 
2.43.0


From 0b75d20a74ccf473e8abcc4c644b0d598a3ff525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 44/68] fix: a pending container without a body crashed tree
 construction

---
 internal/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/node.go b/internal/node.go
index 1062194..2acb23f 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -436,7 +436,7 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 		appendError(types.GinkgoErrors.InvalidTimeoutOrGracePeriodForNonContextNode(node.CodeLocation, nodeType))
 	}
 
-	if !node.NodeType.Is(types.NodeTypeReportBeforeEach|types.NodeTypeReportAfterEach|types.NodeTypeSynchronizedBeforeSuite|types.NodeTypeSynchronizedAfterSuite|types.NodeTypeReportBeforeSuite|types.NodeTypeReportAfterSuite) && node.Body == nil && !node.MarkedPending && !trackedFunctionError {
+	if !node.NodeType.Is(types.NodeTypeReportBeforeEach|types.NodeTypeReportAfterEach|types.NodeTypeSynchronizedBeforeSuite|types.NodeTypeSynchronizedAfterSuite|types.NodeTypeReportBeforeSuite|types.NodeTypeReportAfterSuite) && node.Body == nil && (!node.MarkedPending || node.NodeType.Is(types.NodeTypeContainer)) && !trackedFunctionError {
 		appendError(types.GinkgoErrors.MissingBodyFunction(node.CodeLocation, nodeType))
 	}
 
-- 
2.43.0


From 724e418e1fd935526caf78cb626b9212100b6f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 45/68] fix: DeferCleanup crashed when its callback returned an
 error that is not a pointer or interface

---
 internal/node.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/node.go b/internal/node.go
index 2acb23f..fc4f2e0 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -647,7 +647,15 @@ func NewCleanupNode(deprecationTracker *types.DeprecationTracker, fail func(stri
 			return
 		}
 		last := out[len(out)-1]
-		if last.Type().Implements(errInterface) && !last.IsNil() {
+		if !last.Type().Implements(errInterface) {
+			return
+		}
+		isNil := false
+		switch last.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+			isNil = last.IsNil()
+		}
+		if !isNil {
 			fail(fmt.Sprintf("DeferCleanup callback returned error: %v", last), cl)
 		}
 	}
-- 
2.43.0


From 946181625b0070cc568abb658583617b037f2eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 46/68] fix: the cleanups of GinkgoT().TempDir() and GinkgoTB()
 were located within Ginkgo

---
 ginkgo_t_dsl.go                           | 5 +++++
 internal/testingtproxy/testing_t_proxy.go | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ginkgo_t_dsl.go b/ginkgo_t_dsl.go
index 993279d..9df8526 100644
--- a/ginkgo_t_dsl.go
+++ b/ginkgo_t_dsl.go
@@ -128,12 +128,15 @@ type GinkgoTBWrapper struct {
 }
 
 func (g *GinkgoTBWrapper) Cleanup(f func()) {
+	GinkgoHelper()
 	g.GinkgoT.Cleanup(f)
 }
 func (g *GinkgoTBWrapper) Chdir(dir string) {
+	GinkgoHelper()
 	g.GinkgoT.Chdir(dir)
 }
 func (g *GinkgoTBWrapper) Context() context.Context {
+	GinkgoHelper()
 	return g.GinkgoT.Context()
 }
 func (g *GinkgoTBWrapper) Error(args ...any) {
@@ -170,6 +173,7 @@ func (g *GinkgoTBWrapper) Name() string {
 	return g.GinkgoT.Name()
 }
 func (g *GinkgoTBWrapper) Setenv(key, value string) {
+	GinkgoHelper()
 	g.GinkgoT.Setenv(key, value)
 }
 func (g *GinkgoTBWrapper) Skip(args ...any) {
@@ -185,5 +189,6 @@ func (g *GinkgoTBWrapper) Skipped() bool {
 	return g.GinkgoT.Skipped()
 }
 func (g *GinkgoTBWrapper) TempDir() string {
+	GinkgoHelper()
 	return g.GinkgoT.TempDir()
 }
diff --git a/internal/testingtproxy/testing_t_proxy.go b/internal/testingtproxy/testing_t_proxy.go
index b4ecc7c..18542c4 100644
--- a/internal/testingtproxy/testing_t_proxy.go
+++ b/internal/testingtproxy/testing_t_proxy.go
@@ -171,7 +171,7 @@ func (t *ginkgoTestingTProxy) TempDir() string {
 		t.fail(fmt.Sprintf("Failed to create temporary directory: %v", err), 1)
 		return ""
 	}
-	t.cleanup(os.RemoveAll, tmpDir)
+	t.cleanup(os.RemoveAll, tmpDir, internal.Offset(1))
 
 	return tmpDir
 }
-- 
2.43.0


From 31fb3d698139e176e171c3393169f4ac4285cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 47/68] fix: the callback of By() hid the spec from helpers,
 whose failures were located within Ginkgo

---
 core_dsl.go       | 1 +
 internal/suite.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core_dsl.go b/core_dsl.go
index d027bdf..db424bc 100644
--- a/core_dsl.go
+++ b/core_dsl.go
@@ -597,6 +597,7 @@ Note that By does not generate a new Ginkgo node - rather it is simply syntactic
 You can learn more about By here: https://onsi.github.io/ginkgo/#documenting-complex-specs-by
 */
 func By(text string, callback ...func()) {
+	GinkgoHelper() // so that helpers called in a callback are located in the spec
 	exitIfErr(global.Suite.By(text, callback...))
 }
 
diff --git a/internal/suite.go b/internal/suite.go
index fffa6c0..c1e9ccd 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -304,6 +304,7 @@ func (suite *Suite) handleSpecEventEnd(eventType types.SpecEventType, startEvent
 }
 
 func (suite *Suite) By(text string, callback ...func()) error {
+	types.MarkAsHelper()
 	cl := types.NewCodeLocation(2)
 	if suite.phase != PhaseRun {
 		return types.GinkgoErrors.ByNotDuringRunPhase(cl)
-- 
2.43.0


From aa49b29043f32b574ac25c9e843cd8656dacbffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 48/68] fix: an Offset of a table was one call short and that
 of an entry pointed into Ginkgo

---
 table_dsl.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/table_dsl.go b/table_dsl.go
index b9e0ca9..a9baca0 100644
--- a/table_dsl.go
+++ b/table_dsl.go
@@ -164,7 +164,7 @@ You can learn more about Entry here: https://onsi.github.io/ginkgo/#table-specs
 */
 func Entry(description any, args ...any) TableEntry {
 	GinkgoHelper()
-	decorations, parameters := internal.PartitionDecorations(args...)
+	decorations, parameters := internal.PartitionDecorations(resolveOffsets(1, args)...)
 	return TableEntry{description: description, decorations: decorations, parameters: parameters, codeLocation: types.NewCodeLocation(0)}
 }
 
@@ -173,7 +173,7 @@ You can focus a particular entry with FEntry.  This is equivalent to FIt.
 */
 func FEntry(description any, args ...any) TableEntry {
 	GinkgoHelper()
-	decorations, parameters := internal.PartitionDecorations(args...)
+	decorations, parameters := internal.PartitionDecorations(resolveOffsets(1, args)...)
 	decorations = append(decorations, internal.Focus)
 	return TableEntry{description: description, decorations: decorations, parameters: parameters, codeLocation: types.NewCodeLocation(0)}
 }
@@ -183,7 +183,7 @@ You can mark a particular entry as pending with PEntry.  This is equivalent to P
 */
 func PEntry(description any, args ...any) TableEntry {
 	GinkgoHelper()
-	decorations, parameters := internal.PartitionDecorations(args...)
+	decorations, parameters := internal.PartitionDecorations(resolveOffsets(1, args)...)
 	decorations = append(decorations, internal.Pending)
 	return TableEntry{description: description, decorations: decorations, parameters: parameters, codeLocation: types.NewCodeLocation(0)}
 }
@@ -193,6 +193,19 @@ You can mark a particular entry as pending with XEntry.  This is equivalent to X
 */
 var XEntry = PEntry
 
+// resolveOffsets replaces Offset decorators by the locations they stand for, seen from the function that is skip calls above its caller.
+// The nodes of a table are made elsewhere in the call stack, where an Offset has no meaning.
+func resolveOffsets(skip int, args []any) []any {
+	out := make([]any, len(args))
+	for i, arg := range args {
+		if offset, ok := arg.(Offset); ok {
+			arg = types.NewCodeLocation(skip + 1 + int(offset))
+		}
+		out[i] = arg
+	}
+	return out
+}
+
 var contextType = reflect.TypeOf(new(context.Context)).Elem()
 var specContextType = reflect.TypeOf(new(SpecContext)).Elem()
 
@@ -218,7 +231,7 @@ func generateTable(description string, isSubtree bool, args ...any) {
 		exitIfErr(types.GinkgoErrors.MissingParametersForTableFunction(cl))
 	}
 
-	for i, arg := range args {
+	for i, arg := range resolveOffsets(2, args) {
 		switch t := reflect.TypeOf(arg); {
 		case t == nil:
 			exitIfErr(types.GinkgoErrors.IncorrectParameterTypeForTable(i, "nil", cl))
-- 
2.43.0


From 036e42c2b563af748572e3f6d4679bd747ca7e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 49/68] fix: there was no location above 40 helpers

---
 types/code_location.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/types/code_location.go b/types/code_location.go
index 57e8751..8bc6550 100644
--- a/types/code_location.go
+++ b/types/code_location.go
@@ -70,22 +70,27 @@ func (c *codeLocationLocator) hasHelper(name string) bool {
 
 func (c *codeLocationLocator) getCodeLocation(skip int) CodeLocation {
 	pc := make([]uintptr, 40)
-	n := runtime.Callers(skip+2, pc)
-	if n == 0 {
-		return CodeLocation{}
-	}
-	pc = pc[:n]
-	frames := runtime.CallersFrames(pc)
 	for {
-		frame, more := frames.Next()
-		if !c.hasHelper(frame.Function) {
-			return CodeLocation{FileName: frame.File, LineNumber: frame.Line}
+		n := runtime.Callers(skip+2, pc)
+		if n == 0 {
+			return CodeLocation{}
+		}
+		frames := runtime.CallersFrames(pc[:n])
+		for {
+			frame, more := frames.Next()
+			if !c.hasHelper(frame.Function) {
+				return CodeLocation{FileName: frame.File, LineNumber: frame.Line}
+			}
+			if !more {
+				break
+			}
 		}
-		if !more {
-			break
+		if n < len(pc) {
+			return CodeLocation{}
 		}
+		// there are only helpers so far, look further up
+		pc = make([]uintptr, 2*len(pc))
 	}
-	return CodeLocation{}
 }
 
 var clLocator = &codeLocationLocator{
-- 
2.43.0


From 851d0c41ce20c376cc5a87f3eccc07e183bcaa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 50/68] fix: a panic recovered by GinkgoRecover() or of a
 progress reporter was located in the Go runtime

---
 core_dsl.go                           | 2 +-
 internal/progress_reporter_manager.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core_dsl.go b/core_dsl.go
index db424bc..a22dc2e 100644
--- a/core_dsl.go
+++ b/core_dsl.go
@@ -469,7 +469,7 @@ func GinkgoRecover() {
 		if _, ok := e.(ignorablePanic); ok {
 			return
 		}
-		global.Failer.Panic(types.NewCodeLocationWithStackTrace(1), e)
+		global.Failer.Panic(types.NewCodeLocationWithStackTrace(2), e)
 	}
 }
 
diff --git a/internal/progress_reporter_manager.go b/internal/progress_reporter_manager.go
index 2c6e260..43f79ea 100644
--- a/internal/progress_reporter_manager.go
+++ b/internal/progress_reporter_manager.go
@@ -59,7 +59,7 @@ func (prm *ProgressReporterManager) QueryProgressReporters(ctx context.Context,
 			defer func() {
 				e := recover()
 				if e != nil {
-					failer.Panic(types.NewCodeLocationWithStackTrace(1), e)
+					failer.Panic(types.NewCodeLocationWithStackTrace(2), e)
 					reportC <- "failed to query attached progress reporter"
 				}
 			}()
-- 
2.43.0


From a757906eb6a45bcff4ec639699a1243769718137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 51/68] fix: a progress report crashed if a source file is
 shorter than it was when the suite was compiled

---
 internal/progress_report.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/progress_report.go b/internal/progress_report.go
index 11269cf..03d3b47 100644
--- a/internal/progress_report.go
+++ b/internal/progress_report.go
@@ -274,6 +274,11 @@ func fetchSource(filename string, lineNumber int, span int, configuredSourceRoot
 		_SOURCE_CACHE[filename] = lines
 	}
 
+	if lineNumber < 1 || lineNumber > len(lines) {
+		// the file is not the source of the code that is running
+		return []string{}, 0
+	}
+
 	startIndex := lineNumber - span - 1
 	endIndex := startIndex + span + span + 1
 	if startIndex < 0 {
-- 
2.43.0


From 50d08443c6a46f0deaf73281b32e05ead7feb048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 52/68] fix: a progress report took a goroutine that has
 finished, or leaked, for the one that runs the current node

---
 internal/progress_report.go | 26 ++++++++++++++++++++++++++
 internal/suite.go           | 12 +++++++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/internal/progress_report.go b/internal/progress_report.go
index 03d3b47..1269a09 100644
--- a/internal/progress_report.go
+++ b/internal/progress_report.go
@@ -49,6 +49,14 @@ type ProgressStepCursor struct {
 }
 
 func NewProgressReport(isRunningInParallel bool, report types.SpecReport, currentNode Node, currentNodeStartTime time.Time, currentStep types.SpecEvent, gwOutput string, timelineLocation types.TimelineLocation, additionalReports []string, sourceRoots []string, includeAll bool) (types.ProgressReport, error) {
+	return newProgressReport(isRunningInParallel, report, currentNode, currentNodeStartTime, anyNodeGoroutine, currentStep, gwOutput, timelineLocation, additionalReports, sourceRoots, includeAll)
+}
+
+// anyNodeGoroutine stands for the ID of the first goroutine that is found to run a node
+const anyNodeGoroutine = ^uint64(0)
+
+// specGoroutineID is the ID of the goroutine that runs currentNode, and 0 if there is none.
+func newProgressReport(isRunningInParallel bool, report types.SpecReport, currentNode Node, currentNodeStartTime time.Time, specGoroutineID uint64, currentStep types.SpecEvent, gwOutput string, timelineLocation types.TimelineLocation, additionalReports []string, sourceRoots []string, includeAll bool) (types.ProgressReport, error) {
 	pr := types.ProgressReport{
 		ParallelProcess:         report.ParallelProcess,
 		RunningInParallel:       isRunningInParallel,
@@ -109,6 +117,10 @@ func NewProgressReport(isRunningInParallel bool, report types.SpecReport, curren
 	runNodeFunctionCallIdx := -1
 OUTER:
 	for goroutineIdx, goroutine := range pr.Goroutines {
+		if specGoroutineID != anyNodeGoroutine && goroutine.ID != specGoroutineID {
+			// this may be running a node that has finished, or that has been leaked
+			continue
+		}
 		for functionCallIdx, functionCall := range goroutine.Stack {
 			if strings.Contains(functionCall.Function, "ginkgo/v2/internal.(*Suite).runNode.func") {
 				specGoRoutineIdx = goroutineIdx
@@ -174,6 +186,20 @@ OUTER_GINKGO_ENTRY_POINT:
 	return pr, nil
 }
 
+// currentGoroutineID returns the ID of the goroutine that calls it, as it appears in stack traces, or 0
+func currentGoroutineID() uint64 {
+	stack := make([]byte, 64)
+	fields := strings.Fields(string(stack[:runtime.Stack(stack, false)]))
+	if len(fields) < 2 {
+		return 0
+	}
+	id, err := strconv.ParseUint(fields[1], 10, 64)
+	if err != nil {
+		return 0
+	}
+	return id
+}
+
 func extractRunningGoroutines() ([]types.Goroutine, error) {
 	var stack []byte
 	for size := 64 * 1024; ; size *= 2 {
diff --git a/internal/suite.go b/internal/suite.go
index c1e9ccd..0a0d794 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
@@ -46,6 +47,7 @@ type Suite struct {
 	currentSpecReport    types.SpecReport
 	currentNode          Node
 	currentNodeStartTime time.Time
+	currentNodeGoroutine *atomic.Uint64 // the ID of the goroutine that runs the body of currentNode
 
 	currentSpecContext *specContext
 
@@ -384,7 +386,11 @@ func (suite *Suite) generateProgressReport(fullReport bool) types.ProgressReport
 	}
 	additionalReports = append(additionalReports, suite.QueryProgressReporters(deadline, suite.failer)...)
 	gwOutput := suite.currentSpecReport.CapturedGinkgoWriterOutput + string(suite.writer.Bytes())
-	pr, err := NewProgressReport(suite.isRunningInParallel(), suite.currentSpecReport, suite.currentNode, suite.currentNodeStartTime, suite.currentByStep, gwOutput, timelineLocation, additionalReports, suite.config.SourceRoots, fullReport)
+	nodeGoroutineID := uint64(0)
+	if suite.currentNodeGoroutine != nil {
+		nodeGoroutineID = suite.currentNodeGoroutine.Load()
+	}
+	pr, err := newProgressReport(suite.isRunningInParallel(), suite.currentSpecReport, suite.currentNode, suite.currentNodeStartTime, nodeGoroutineID, suite.currentByStep, gwOutput, timelineLocation, additionalReports, suite.config.SourceRoots, fullReport)
 
 	if err != nil {
 		fmt.Printf("{{red}}Failed to generate progress report:{{/}}\n%s\n", err.Error())
@@ -798,15 +804,18 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 		return types.SpecStateSkipped, types.Failure{}
 	}
 
+	nodeGoroutine := &atomic.Uint64{}
 	suite.selectiveLock.Lock()
 	suite.currentNode = node
 	suite.currentNodeStartTime = time.Now()
+	suite.currentNodeGoroutine = nodeGoroutine
 	suite.currentByStep = types.SpecEvent{}
 	suite.selectiveLock.Unlock()
 	defer func() {
 		suite.selectiveLock.Lock()
 		suite.currentNode = Node{}
 		suite.currentNodeStartTime = time.Time{}
+		suite.currentNodeGoroutine = nil
 		suite.selectiveLock.Unlock()
 	}()
 
@@ -907,6 +916,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 			failureC <- failureFromRun
 		}()
 
+		nodeGoroutine.Store(currentGoroutineID())
 		node.Body(sc)
 		finished = true
 	}()
-- 
2.43.0


From a75a926b11ef76a957d11e50ff521e502b9292bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 53/68] fix: a progress reporter that looks at the current spec
 blocked the progress report, and was left out

---
 internal/suite.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/suite.go b/internal/suite.go
index 0a0d794..cdacf6b 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -376,15 +376,20 @@ func (suite *Suite) AddReportEntry(entry ReportEntry) error {
 func (suite *Suite) generateProgressReport(fullReport bool) types.ProgressReport {
 	timelineLocation := suite.generateTimelineLocation()
 	suite.selectiveLock.Lock()
-	defer suite.selectiveLock.Unlock()
+	specContext := suite.currentSpecContext
+	suite.selectiveLock.Unlock()
 
+	// the progress reporters are free to call into the suite, so we must not hold on to the lock as we query them
 	deadline, cancel := context.WithTimeout(context.Background(), ProgressReporterDeadline)
 	defer cancel()
 	var additionalReports []string
-	if suite.currentSpecContext != nil {
-		additionalReports = append(additionalReports, suite.currentSpecContext.QueryProgressReporters(deadline, suite.failer)...)
+	if specContext != nil {
+		additionalReports = append(additionalReports, specContext.QueryProgressReporters(deadline, suite.failer)...)
 	}
 	additionalReports = append(additionalReports, suite.QueryProgressReporters(deadline, suite.failer)...)
+
+	suite.selectiveLock.Lock()
+	defer suite.selectiveLock.Unlock()
 	gwOutput := suite.currentSpecReport.CapturedGinkgoWriterOutput + string(suite.writer.Bytes())
 	nodeGoroutineID := uint64(0)
 	if suite.currentNodeGoroutine != nil {
-- 
2.43.0


From bf070036959b7ad5b9dedb4d85e139d595c3d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 54/68] fix: a progress report made between nodes had an empty
 goroutine and the reporters of the last node

---
 internal/progress_report.go | 5 ++++-
 internal/suite.go           | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/progress_report.go b/internal/progress_report.go
index 1269a09..7c4744e 100644
--- a/internal/progress_report.go
+++ b/internal/progress_report.go
@@ -178,7 +178,10 @@ OUTER_GINKGO_ENTRY_POINT:
 	}
 
 	if !includeAll {
-		goroutines := []types.Goroutine{pr.SpecGoroutine()}
+		goroutines := []types.Goroutine{}
+		if specGoRoutineIdx > -1 {
+			goroutines = append(goroutines, pr.SpecGoroutine())
+		}
 		goroutines = append(goroutines, pr.HighlightedGoroutines()...)
 		pr.Goroutines = goroutines
 	}
diff --git a/internal/suite.go b/internal/suite.go
index cdacf6b..c835762 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -821,6 +821,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 		suite.currentNode = Node{}
 		suite.currentNodeStartTime = time.Time{}
 		suite.currentNodeGoroutine = nil
+		suite.currentSpecContext = nil
 		suite.selectiveLock.Unlock()
 	}()
 
-- 
2.43.0


From fc3dbd630b4e1745a93088b270078e8d1472ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 55/68] fix: what a spec had written was in a progress report
 twice, or in that of the next suite node, until something else ran

---
 internal/group.go |  4 ++--
 internal/suite.go | 14 +++++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 24e315f..7a28159 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -212,7 +212,7 @@ func (g *group) cleanUpRunOnceNodes(spec Spec, laterSpecs Specs) {
 			g.recordCleanupOutcome(g.suite.runNode(node, time.Time{}, spec.Nodes.BestTextFor(node)))
 		}
 	}
-	g.suite.currentSpecReport.CapturedGinkgoWriterOutput += string(g.suite.writer.Bytes())
+	g.suite.captureWriterOutput()
 	g.suite.currentSpecReport.CapturedStdOutErr += g.suite.outputInterceptor.StopInterceptingAndReturnOutput()
 }
 
@@ -449,7 +449,7 @@ func (g *group) run(specs Specs) {
 
 				g.suite.currentSpecReport.EndTime = time.Now()
 				g.suite.currentSpecReport.RunTime = g.suite.currentSpecReport.EndTime.Sub(g.suite.currentSpecReport.StartTime)
-				g.suite.currentSpecReport.CapturedGinkgoWriterOutput += string(g.suite.writer.Bytes())
+				g.suite.captureWriterOutput()
 				g.suite.currentSpecReport.CapturedStdOutErr += g.suite.outputInterceptor.StopInterceptingAndReturnOutput()
 
 				if g.runIsOver() {
diff --git a/internal/suite.go b/internal/suite.go
index c835762..c9daa01 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -403,6 +403,14 @@ func (suite *Suite) generateProgressReport(fullReport bool) types.ProgressReport
 	return pr
 }
 
+// captureWriterOutput moves what is in the writer to the current spec report
+func (suite *Suite) captureWriterOutput() {
+	suite.selectiveLock.Lock()
+	defer suite.selectiveLock.Unlock()
+	suite.currentSpecReport.CapturedGinkgoWriterOutput += string(suite.writer.Bytes())
+	suite.writer.Truncate()
+}
+
 func (suite *Suite) handleProgressSignal() {
 	report := suite.generateProgressReport(false)
 	report.Message = "{{bold}}You've requested a progress report:{{/}}"
@@ -627,7 +635,7 @@ func (suite *Suite) reportEach(spec Spec, nodeType types.NodeType) {
 			suite.currentSpecReport.State = state
 			suite.currentSpecReport.Failure = failure
 		}
-		suite.currentSpecReport.CapturedGinkgoWriterOutput += string(suite.writer.Bytes())
+		suite.captureWriterOutput()
 		suite.currentSpecReport.CapturedStdOutErr += suite.outputInterceptor.StopInterceptingAndReturnOutput()
 	}
 }
@@ -722,7 +730,7 @@ func (suite *Suite) runSuiteNode(node Node) {
 
 	suite.currentSpecReport.EndTime = time.Now()
 	suite.currentSpecReport.RunTime = suite.currentSpecReport.EndTime.Sub(suite.currentSpecReport.StartTime)
-	suite.currentSpecReport.CapturedGinkgoWriterOutput = string(suite.writer.Bytes())
+	suite.captureWriterOutput()
 	suite.currentSpecReport.CapturedStdOutErr += suite.outputInterceptor.StopInterceptingAndReturnOutput()
 }
 
@@ -789,7 +797,7 @@ func (suite *Suite) runReportSuiteNode(node Node, report types.Report) {
 
 	suite.currentSpecReport.EndTime = time.Now()
 	suite.currentSpecReport.RunTime = suite.currentSpecReport.EndTime.Sub(suite.currentSpecReport.StartTime)
-	suite.currentSpecReport.CapturedGinkgoWriterOutput = string(suite.writer.Bytes())
+	suite.captureWriterOutput()
 	suite.currentSpecReport.CapturedStdOutErr = suite.outputInterceptor.StopInterceptingAndReturnOutput()
 }
 
-- 
2.43.0


From 2a4c30486fe433052b4e8bf8453da133455bf744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 56/68] fix: GinkgoT().GinkgoRecover() did not recover

---
 core_dsl.go     |  8 ++++++--
 ginkgo_t_dsl.go | 13 +++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/core_dsl.go b/core_dsl.go
index a22dc2e..2d32295 100644
--- a/core_dsl.go
+++ b/core_dsl.go
@@ -464,12 +464,16 @@ way for Ginkgo to rescue the panic.  To do this, you must remember to `defer Gin
 You can learn more about how Ginkgo manages failures here: https://onsi.github.io/ginkgo/#mental-model-how-ginkgo-handles-failure
 */
 func GinkgoRecover() {
-	e := recover()
+	handleRecoveredPanic(recover())
+}
+
+// handleRecoveredPanic must be called by the deferred function that recovered e
+func handleRecoveredPanic(e any) {
 	if e != nil {
 		if _, ok := e.(ignorablePanic); ok {
 			return
 		}
-		global.Failer.Panic(types.NewCodeLocationWithStackTrace(2), e)
+		global.Failer.Panic(types.NewCodeLocationWithStackTrace(3), e)
 	}
 }
 
diff --git a/ginkgo_t_dsl.go b/ginkgo_t_dsl.go
index 9df8526..ec69631 100644
--- a/ginkgo_t_dsl.go
+++ b/ginkgo_t_dsl.go
@@ -28,7 +28,7 @@ func GinkgoT(optionalOffset ...int) FullGinkgoTInterface {
 	if len(optionalOffset) > 0 {
 		offset = optionalOffset[0]
 	}
-	return testingtproxy.New(
+	return ginkgoT{testingtproxy.New(
 		GinkgoWriter,
 		Fail,
 		Skip,
@@ -41,7 +41,16 @@ func GinkgoT(optionalOffset ...int) FullGinkgoTInterface {
 		suiteConfig.ParallelProcess,
 		suiteConfig.ParallelTotal,
 		reporterConfig.NoColor,
-		offset)
+		offset)}
+}
+
+type ginkgoT struct {
+	FullGinkgoTInterface
+}
+
+// GinkgoRecover must call recover() itself: recover() has no effect in a function that is called by the deferred one
+func (t ginkgoT) GinkgoRecover() {
+	handleRecoveredPanic(recover())
 }
 
 /*
-- 
2.43.0


From e669756b0c9606f48f71deb75d98fae631b59169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 57/68] fix: reading the contents of line 0 of a file crashed

---
 types/code_location.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/code_location.go b/types/code_location.go
index 8bc6550..41ae6cb 100644
--- a/types/code_location.go
+++ b/types/code_location.go
@@ -33,7 +33,7 @@ func (codeLocation CodeLocation) ContentsOfLine() string {
 		return ""
 	}
 	lines := strings.Split(string(contents), "\n")
-	if len(lines) < codeLocation.LineNumber {
+	if codeLocation.LineNumber < 1 || len(lines) < codeLocation.LineNumber {
 		return ""
 	}
 	return lines[codeLocation.LineNumber-1]
-- 
2.43.0


From 4b28728cb4e6ff21e2fc3033c772406f066029e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 58/68] fix: specs that timed out or were aborted were not
 failed, and repeated ones were flaked, to reporters of Ginkgo V1

---
 reporters/deprecated_reporter.go | 4 ++--
 types/deprecated_types.go        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/reporters/deprecated_reporter.go b/reporters/deprecated_reporter.go
index 613072e..b070240 100644
--- a/reporters/deprecated_reporter.go
+++ b/reporters/deprecated_reporter.go
@@ -103,11 +103,11 @@ func ReportViaDeprecatedReporter(reporter DeprecatedReporter, report types.Repor
 				summary.NumberOfPendingSpecs += 1
 			case types.SpecStateSkipped:
 				summary.NumberOfSkippedSpecs += 1
-			case types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateInterrupted:
+			case types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateInterrupted, types.SpecStateTimedout, types.SpecStateAborted:
 				summary.NumberOfFailedSpecs += 1
 			case types.SpecStatePassed:
 				summary.NumberOfPassedSpecs += 1
-				if spec.NumAttempts > 1 {
+				if spec.NumAttempts > 1 && spec.MaxFlakeAttempts > 1 {
 					summary.NumberOfFlakedSpecs += 1
 				}
 			}
diff --git a/types/deprecated_types.go b/types/deprecated_types.go
index 518989a..599428a 100644
--- a/types/deprecated_types.go
+++ b/types/deprecated_types.go
@@ -78,7 +78,7 @@ func (s DeprecatedSpecSummary) HasFailureState() bool {
 }
 
 func (s DeprecatedSpecSummary) TimedOut() bool {
-	return false
+	return s.State == SpecStateTimedout
 }
 
 func (s DeprecatedSpecSummary) Panicked() bool {
-- 
2.43.0


From cd98ad23368a463b92fb4dbe9af101003ed41182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 59/68] fix: a failure of SynchronizedAfterSuite on process 1
 was lost when the body that runs everywhere had failed, and passed when it
 had skipped

---
 internal/suite.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index c9daa01..a78f8bf 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -716,8 +716,10 @@ func (suite *Suite) runSuiteNode(node Node) {
 				node.Body = node.SynchronizedAfterSuiteProc1Body
 				node.HasContext = node.SynchronizedAfterSuiteProc1BodyHasContext
 				state, failure := suite.runNode(node, time.Time{}, "")
-				if suite.currentSpecReport.State.Is(types.SpecStatePassed) {
+				if suite.currentSpecReport.State.Is(types.SpecStatePassed) || (state.Is(types.SpecStateFailureStates) && !suite.currentSpecReport.State.Is(types.SpecStateFailureStates)) {
 					suite.currentSpecReport.State, suite.currentSpecReport.Failure = state, failure
+				} else if state.Is(types.SpecStateFailureStates) {
+					suite.currentSpecReport.AdditionalFailures = append(suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: state, Failure: failure})
 				}
 			}
 		}
-- 
2.43.0


From 51723b24b6e5277716cde0f4cc8b0e65c5a76c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 60/68] fix: a ReportAfterSuite that could not run, as a
 process had disappeared, had no end and left the output intercepted

---
 internal/suite.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/suite.go b/internal/suite.go
index a78f8bf..a20bc1a 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -784,18 +784,22 @@ func (suite *Suite) runReportSuiteNode(node Node, report types.Report) {
 
 	// if we're running a ReportAfterSuite in parallel (on proc 1) we (a) wait until other procs have exited and
 	// (b) always fetch the latest report as prior ReportAfterSuites will contribute to it
+	var err error
 	if node.NodeType.Is(types.NodeTypeReportAfterSuite) && suite.isRunningInParallel() {
-		aggregatedReport, err := suite.client.BlockUntilAggregatedNonprimaryProcsReport()
-		if err != nil {
-			suite.currentSpecReport.State, suite.currentSpecReport.Failure = types.SpecStateFailed, suite.failureForLeafNodeWithMessage(node, err.Error())
-			suite.reporter.EmitFailure(suite.currentSpecReport.State, suite.currentSpecReport.Failure)
-			return
+		var aggregatedReport types.Report
+		aggregatedReport, err = suite.client.BlockUntilAggregatedNonprimaryProcsReport()
+		if err == nil {
+			report = report.Add(aggregatedReport)
 		}
-		report = report.Add(aggregatedReport)
 	}
 
-	node.Body = func(ctx SpecContext) { node.ReportSuiteBody(ctx, report) }
-	suite.currentSpecReport.State, suite.currentSpecReport.Failure = suite.runNode(node, time.Time{}, "")
+	if err == nil {
+		node.Body = func(ctx SpecContext) { node.ReportSuiteBody(ctx, report) }
+		suite.currentSpecReport.State, suite.currentSpecReport.Failure = suite.runNode(node, time.Time{}, "")
+	} else {
+		suite.currentSpecReport.State, suite.currentSpecReport.Failure = types.SpecStateFailed, suite.failureForLeafNodeWithMessage(node, err.Error())
+		suite.reporter.EmitFailure(suite.currentSpecReport.State, suite.currentSpecReport.Failure)
+	}
 
 	suite.currentSpecReport.EndTime = time.Now()
 	suite.currentSpecReport.RunTime = suite.currentSpecReport.EndTime.Sub(suite.currentSpecReport.StartTime)
-- 
2.43.0


From e14ce3aa859c0c908b34822970af49fc37a02573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 61/68] fix: large integers of a report entry's value lost
 their precision when a report that had been read was written again

---
 types/report_entry.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types/report_entry.go b/types/report_entry.go
index 5eb8d2d..1a09dee 100644
--- a/types/report_entry.go
+++ b/types/report_entry.go
@@ -50,6 +50,11 @@ func (rev ReportEntryValue) MarshalJSON() ([]byte, error) {
 	}{
 		Representation: rev.String(),
 	}
+	if rev.AsJSON != "" {
+		// this value has been decoded - its raw value may be less precise than what it was decoded from (e.g. large integers)
+		out.AsJSON = rev.AsJSON
+		return json.Marshal(out)
+	}
 	asJSON, err := json.Marshal(rev.raw)
 	if err != nil {
 		// not every value can be encoded (functions, channels, NaN...) - its representation always can
-- 
2.43.0


From 583ab20a35624c886f2e68caed83fc0bb84ef3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 62/68] fix: a nil pointer as a report entry's value, whose
 String method has a value receiver, crashed when reported

---
 types/report_entry.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/types/report_entry.go b/types/report_entry.go
index 1a09dee..d0114a5 100644
--- a/types/report_entry.go
+++ b/types/report_entry.go
@@ -3,6 +3,7 @@ package types
 import (
 	"encoding/json"
 	"fmt"
+	"reflect"
 	"time"
 )
 
@@ -24,10 +25,20 @@ func (rev ReportEntryValue) GetRawValue() any {
 	return rev.raw
 }
 
-func (rev ReportEntryValue) String() string {
+func (rev ReportEntryValue) String() (out string) {
 	if rev.raw == nil {
 		return rev.Representation // empty, unless a value that is encoded as null has been decoded
 	}
+	defer func() {
+		if e := recover(); e != nil {
+			// like fmt, don't fail for a nil pointer whose methods have a value receiver
+			if v := reflect.ValueOf(rev.raw); v.Kind() == reflect.Pointer && v.IsNil() {
+				out = "<nil>"
+				return
+			}
+			panic(e)
+		}
+	}()
 	if colorableStringer, ok := rev.raw.(ColorableStringer); ok {
 		return colorableStringer.ColorableString()
 	}
-- 
2.43.0


From 4aafddd12cf9cab968502c21d0338753f849a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 63/68] fix: a percent sign in what the user has given, or in a
 flag's usage, garbled ginkgo's messages

---
 core_dsl.go               | 4 ++--
 ginkgo/command/command.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core_dsl.go b/core_dsl.go
index 2d32295..ce67b63 100644
--- a/core_dsl.go
+++ b/core_dsl.go
@@ -335,9 +335,9 @@ func extractSuiteConfiguration(args []any) Labels {
 
 	configErrors = types.VetConfig(flagSet, suiteConfig, reporterConfig)
 	if len(configErrors) > 0 {
-		fmt.Fprintf(formatter.ColorableStdErr, formatter.F("{{red}}Ginkgo detected configuration issues:{{/}}\n"))
+		fmt.Fprint(formatter.ColorableStdErr, formatter.F("{{red}}Ginkgo detected configuration issues:{{/}}\n"))
 		for _, err := range configErrors {
-			fmt.Fprintf(formatter.ColorableStdErr, err.Error())
+			fmt.Fprint(formatter.ColorableStdErr, err.Error())
 		}
 		os.Exit(1)
 	}
diff --git a/ginkgo/command/command.go b/ginkgo/command/command.go
index 79b83a3..a30a2ec 100644
--- a/ginkgo/command/command.go
+++ b/ginkgo/command/command.go
@@ -22,11 +22,11 @@ type Command struct {
 func (c Command) Run(args []string, additionalArgs []string) {
 	args, err := c.Flags.Parse(args)
 	if err != nil {
-		AbortWithUsage(err.Error())
+		AbortWithUsage("%s", err.Error())
 	}
 	for _, arg := range args {
 		if len(arg) > 1 && strings.HasPrefix(arg, "-") {
-			AbortWith(types.GinkgoErrors.FlagAfterPositionalParameter().Error())
+			AbortWith("%s", types.GinkgoErrors.FlagAfterPositionalParameter().Error())
 		}
 	}
 	c.Command(args, additionalArgs)
@@ -49,6 +49,6 @@ func (c Command) EmitUsage(writer io.Writer) {
 	}
 	flagUsage := c.Flags.Usage()
 	if flagUsage != "" {
-		fmt.Fprintf(writer, formatter.F(flagUsage))
+		fmt.Fprint(writer, formatter.F(flagUsage))
 	}
 }
-- 
2.43.0


From d63c1ee0535037342680f417a6d86ec48dd65381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 64/68] fix: using a deprecated feature somewhere unknown
 dropped the known places where it is used from the report

---
 types/deprecation_support.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/types/deprecation_support.go b/types/deprecation_support.go
index e2519f6..ae37033 100644
--- a/types/deprecation_support.go
+++ b/types/deprecation_support.go
@@ -114,11 +114,7 @@ func (d *DeprecationTracker) TrackDeprecation(deprecation Deprecation, cl ...Cod
 
 	d.lock.Lock()
 	defer d.lock.Unlock()
-	if len(cl) == 1 {
-		d.deprecations[deprecation] = append(d.deprecations[deprecation], cl[0])
-	} else {
-		d.deprecations[deprecation] = []CodeLocation{}
-	}
+	d.deprecations[deprecation] = append(d.deprecations[deprecation], cl...)
 }
 
 func (d *DeprecationTracker) DidTrackDeprecations() bool {
-- 
2.43.0


From a1452e0ef045ebd90131d51d1595b2adef53d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 65/68] fix: ginkgo build said that suites without test files
 were compiled, and crashed when -o named a directory to be made or nothing
 was compiled

---
 ginkgo/build/build_command.go |  4 +++-
 ginkgo/internal/compile.go    | 12 ++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ginkgo/build/build_command.go b/ginkgo/build/build_command.go
index 2b36b2f..fdb9505 100644
--- a/ginkgo/build/build_command.go
+++ b/ginkgo/build/build_command.go
@@ -54,6 +54,8 @@ func buildSpecs(args []string, cliConfig types.CLIConfig, goFlagsConfig types.Go
 		suites[suiteIdx] = suite
 		if suite.State.Is(internal.TestSuiteStateFailedToCompile) {
 			fmt.Println(suite.CompilationError.Error())
+		} else if suite.State.Is(internal.TestSuiteStateSkippedDueToEmptyCompilation) {
+			fmt.Printf("Skipping %s (no test files)\n", suite.Path)
 		} else {
 			var testBinPath string
 			if len(goFlagsConfig.O) != 0 {
@@ -62,7 +64,7 @@ func buildSpecs(args []string, cliConfig types.CLIConfig, goFlagsConfig types.Go
 					panic(err)
 				}
 				if stat.IsDir() {
-					testBinPath = goFlagsConfig.O + "/" + suite.PackageName + ".test"
+					testBinPath = path.Join(goFlagsConfig.O, suite.PackageName+".test")
 				} else {
 					testBinPath = goFlagsConfig.O
 				}
diff --git a/ginkgo/internal/compile.go b/ginkgo/internal/compile.go
index 7bbe6be..c23c08a 100644
--- a/ginkgo/internal/compile.go
+++ b/ginkgo/internal/compile.go
@@ -33,6 +33,9 @@ func CompileSuite(suite TestSuite, goFlagsConfig types.GoFlagsConfig, preserveSy
 			return suite
 		}
 		path = userDefinedPath
+		if oNamesDirectory(goFlagsConfig.O) {
+			path = filepath.Join(userDefinedPath, suite.PackageName+".test")
+		}
 	}
 
 	goFlagsConfig.O = path
@@ -87,6 +90,15 @@ func CompileSuite(suite TestSuite, goFlagsConfig types.GoFlagsConfig, preserveSy
 	return suite
 }
 
+// oNamesDirectory tells whether -o is the directory to write test binaries to, as opposed to the test binary itself
+func oNamesDirectory(o string) bool {
+	if os.IsPathSeparator(o[len(o)-1]) {
+		return true
+	}
+	stat, err := os.Stat(o)
+	return err == nil && stat.IsDir()
+}
+
 func Cleanup(goFlagsConfig types.GoFlagsConfig, suites ...TestSuite) {
 	if goFlagsConfig.BinaryMustBePreserved() {
 		return
-- 
2.43.0


From 466a56a496f805c3f67d9a0cf9e5d7149f111761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:02 +0000
Subject: [PATCH 66/68] fix: ginkgo labels left out the labels of the package's
 own test files if it has an external test package, too

---
 ginkgo/labels/labels_command.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ginkgo/labels/labels_command.go b/ginkgo/labels/labels_command.go
index 6c61f09..3282ab9 100644
--- a/ginkgo/labels/labels_command.go
+++ b/ginkgo/labels/labels_command.go
@@ -65,9 +65,12 @@ func fetchLabelsFromPackage(packagePath string) []string {
 			}
 		}
 	}
-	if !hasTestPackage {
-		for _, pkg := range parsedPackages {
-			for _, file := range pkg.Files {
+	for key, pkg := range parsedPackages {
+		if strings.HasSuffix(key, "_test") {
+			continue
+		}
+		for name, file := range pkg.Files {
+			if !hasTestPackage || strings.HasSuffix(name, "_test.go") {
 				files = append(files, file)
 			}
 		}
-- 
2.43.0


From 0a5d59f880192b62db38d9fb4a275ef8107459ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 67/68] fix: flags in one --focus or --skip expression changed
 the meaning of the next, and an invalid expression crashed the suite

---
 internal/focus.go | 35 ++++++++++++++++++++++++-----------
 types/config.go   | 13 +++++++++++++
 types/errors.go   |  8 ++++++++
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/internal/focus.go b/internal/focus.go
index e3da7d1..46afa77 100644
--- a/internal/focus.go
+++ b/internal/focus.go
@@ -57,9 +57,6 @@ This function sets the `Skip` property on specs by applying Ginkgo's focus polic
 *Note:* specs with pending nodes are Skipped when created by NewSpec.
 */
 func ApplyFocusToSpecs(specs Specs, description string, suiteLabels Labels, suiteConfig types.SuiteConfig) (Specs, bool) {
-	focusString := strings.Join(suiteConfig.FocusStrings, "|")
-	skipString := strings.Join(suiteConfig.SkipStrings, "|")
-
 	type SkipCheck func(spec Spec) bool
 
 	// by default, skip any specs marked pending
@@ -94,16 +91,16 @@ func ApplyFocusToSpecs(specs Specs, description string, suiteLabels Labels, suit
 		skipChecks = append(skipChecks, func(spec Spec) bool { return skipFilters.Matches(spec.Nodes.CodeLocations()) })
 	}
 
-	if focusString != "" {
-		// skip specs that don't match the focus string
-		re := regexp.MustCompile(focusString)
-		skipChecks = append(skipChecks, func(spec Spec) bool { return !re.MatchString(description + " " + spec.Text()) })
+	if strings.Join(suiteConfig.FocusStrings, "|") != "" {
+		// skip specs that don't match any of the focus strings
+		matches := matchesAny(suiteConfig.FocusStrings)
+		skipChecks = append(skipChecks, func(spec Spec) bool { return !matches(description + " " + spec.Text()) })
 	}
 
-	if skipString != "" {
-		// skip specs that match the skip string
-		re := regexp.MustCompile(skipString)
-		skipChecks = append(skipChecks, func(spec Spec) bool { return re.MatchString(description + " " + spec.Text()) })
+	if strings.Join(suiteConfig.SkipStrings, "|") != "" {
+		// skip specs that match any of the skip strings
+		matches := matchesAny(suiteConfig.SkipStrings)
+		skipChecks = append(skipChecks, func(spec Spec) bool { return matches(description + " " + spec.Text()) })
 	}
 
 	// skip specs if shouldSkip() is true.  note that we do nothing if shouldSkip() is false to avoid overwriting skip status established by the node's pending status
@@ -120,3 +117,19 @@ func ApplyFocusToSpecs(specs Specs, description string, suiteLabels Labels, suit
 
 	return processedSpecs, hasProgrammaticFocus
 }
+
+// matchesAny compiles each regular expression on its own: flags and groups of one have no effect on the others
+func matchesAny(exprs []string) func(text string) bool {
+	res := []*regexp.Regexp{}
+	for _, expr := range exprs {
+		res = append(res, regexp.MustCompile(expr))
+	}
+	return func(text string) bool {
+		for _, re := range res {
+			if re.MatchString(text) {
+				return true
+			}
+		}
+		return false
+	}
+}
diff --git a/types/config.go b/types/config.go
index 1d4e31b..fd106b3 100644
--- a/types/config.go
+++ b/types/config.go
@@ -9,6 +9,7 @@ import (
 	"flag"
 	"os"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"strconv"
 	"strings"
@@ -422,6 +423,18 @@ func VetConfig(flagSet GinkgoFlagSet, suiteConfig SuiteConfig, reporterConfig Re
 		errors = append(errors, GinkgoErrors.GracePeriodCannotBeZero())
 	}
 
+	for _, expr := range suiteConfig.FocusStrings {
+		if _, err := regexp.Compile(expr); err != nil {
+			errors = append(errors, GinkgoErrors.InvalidFocusOrSkipRegularExpression("--focus", expr, err))
+		}
+	}
+
+	for _, expr := range suiteConfig.SkipStrings {
+		if _, err := regexp.Compile(expr); err != nil {
+			errors = append(errors, GinkgoErrors.InvalidFocusOrSkipRegularExpression("--skip", expr, err))
+		}
+	}
+
 	if len(suiteConfig.FocusFiles) > 0 {
 		_, err := ParseFileFilters(suiteConfig.FocusFiles)
 		if err != nil {
diff --git a/types/errors.go b/types/errors.go
index f095042..36162d3 100644
--- a/types/errors.go
+++ b/types/errors.go
@@ -394,6 +394,14 @@ func (g ginkgoErrors) InvalidFileFilterRegularExpression(filter string, err erro
 	}
 }
 
+func (g ginkgoErrors) InvalidFocusOrSkipRegularExpression(flag string, expr string, err error) error {
+	return GinkgoError{
+		Heading: "Invalid Regular Expression",
+		Message: fmt.Sprintf(`The regular expression: "%s" provided with %s is invalid.  regexp.Compile error: %s`, expr, flag, err),
+		DocLink: "filtering-specs",
+	}
+}
+
 /* Label Errors */
 func (g ginkgoErrors) SyntaxErrorParsingLabelFilter(input string, location int, error string) error {
 	var message string
-- 
2.43.0


From 9496b251a4f243a17bb830045d2f775cb5081934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 68/68] fix: a blank after-run hook crashed ginkgo

---
 ginkgo/internal/run.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 2d7694a..67c1ca3 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -357,6 +357,9 @@ func runAfterRunHook(command string, noColor bool, suite TestSuite) {
 	// Must break command into parts
 	splitArgs := regexp.MustCompile(`'.+'|".+"|\S+`)
 	parts := splitArgs.FindAllString(command, -1)
+	if len(parts) == 0 {
+		return
+	}
 
 	output, err := exec.Command(parts[0], parts[1:]...).CombinedOutput()
 	if err != nil {
-- 
2.43.0

