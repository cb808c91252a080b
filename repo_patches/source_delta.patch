From 6b898a86404264ab8e4889c4af98eba9e82eee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 01/22] fix: consistsOf label filters that repeat a value
 compare sets, not lengths

---
 types/label_filter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types/label_filter.go b/types/label_filter.go
index 40a909b..6a99544 100644
--- a/types/label_filter.go
+++ b/types/label_filter.go
@@ -92,12 +92,16 @@ func containsAllLabelSetAction(key string, expectedValues []string) LabelFilter
 }
 
 func consistsOfLabelSetAction(key string, expectedValues []string) LabelFilter {
+	expectedSet := map[string]bool{}
+	for _, value := range expectedValues {
+		expectedSet[value] = true
+	}
 	return func(labels []string) bool {
 		set := labelSetFor(key, labels)
-		if len(set) != len(expectedValues) {
+		if len(set) != len(expectedSet) {
 			return false
 		}
-		for _, value := range expectedValues {
+		for value := range expectedSet {
 			if !set[value] {
 				return false
 			}
-- 
2.43.0


From 222c161286adbf2002105aeb911f64e6ce86ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 02/22] fix: flags in one --focus/--skip expression no longer
 apply to the expressions after it

---
 internal/focus.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/focus.go b/internal/focus.go
index e3da7d1..9cab253 100644
--- a/internal/focus.go
+++ b/internal/focus.go
@@ -95,15 +95,15 @@ func ApplyFocusToSpecs(specs Specs, description string, suiteLabels Labels, suit
 	}
 
 	if focusString != "" {
-		// skip specs that don't match the focus string
-		re := regexp.MustCompile(focusString)
-		skipChecks = append(skipChecks, func(spec Spec) bool { return !re.MatchString(description + " " + spec.Text()) })
+		// skip specs that don't match any of the focus strings
+		focusMatches := matcherForAny(suiteConfig.FocusStrings)
+		skipChecks = append(skipChecks, func(spec Spec) bool { return !focusMatches(description + " " + spec.Text()) })
 	}
 
 	if skipString != "" {
-		// skip specs that match the skip string
-		re := regexp.MustCompile(skipString)
-		skipChecks = append(skipChecks, func(spec Spec) bool { return re.MatchString(description + " " + spec.Text()) })
+		// skip specs that match any of the skip strings
+		skipMatches := matcherForAny(suiteConfig.SkipStrings)
+		skipChecks = append(skipChecks, func(spec Spec) bool { return skipMatches(description + " " + spec.Text()) })
 	}
 
 	// skip specs if shouldSkip() is true.  note that we do nothing if shouldSkip() is false to avoid overwriting skip status established by the node's pending status
@@ -120,3 +120,19 @@ func ApplyFocusToSpecs(specs Specs, description string, suiteLabels Labels, suit
 
 	return processedSpecs, hasProgrammaticFocus
 }
+
+// matcherForAny compiles each expression on its own, so that flags like (?i) in one of them don't leak into the others
+func matcherForAny(expressions []string) func(text string) bool {
+	res := make([]*regexp.Regexp, len(expressions))
+	for i := range expressions {
+		res[i] = regexp.MustCompile(expressions[i])
+	}
+	return func(text string) bool {
+		for i := range res {
+			if res[i].MatchString(text) {
+				return true
+			}
+		}
+		return false
+	}
+}
-- 
2.43.0


From f25f2f2752aa39cc27b625932a7d775c8c3f498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 03/22] fix: an AfterAll still runs when a BeforeEach outside
 its container ends a later spec

---
 internal/group.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index 02c9fe4..acb03c6 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -94,6 +94,9 @@ type group struct {
 	runOncePairs   map[uint]runOncePairs
 	runOnceTracker map[runOncePair]types.SpecState
 
+	// tracks the run-once after nodes that are due because a spec got to their nesting level
+	pendingAfterPairs map[runOncePair]bool
+
 	succeeded              bool
 	failedInARunOnceBefore bool
 	continueOnFailure      bool
@@ -104,6 +107,7 @@ func newGroup(suite *Suite) *group {
 		suite:                  suite,
 		runOncePairs:           map[uint]runOncePairs{},
 		runOnceTracker:         map[runOncePair]types.SpecState{},
+		pendingAfterPairs:      map[runOncePair]bool{},
 		succeeded:              true,
 		failedInARunOnceBefore: false,
 		continueOnFailure:      false,
@@ -208,6 +212,13 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 		}
 	}
 
+	for _, node := range spec.Nodes.WithType(types.NodeTypeAfterEach | types.NodeTypeAfterAll | types.NodeTypeJustAfterEach) {
+		pair := pairs.runOncePairFor(node.ID)
+		if !pair.isZero() && (terminatingNode.IsZero() || node.NestingLevel <= terminatingNode.NestingLevel) {
+			g.pendingAfterPairs[pair] = true
+		}
+	}
+
 	afterNodeWasRun := map[uint]bool{}
 	includeDeferCleanups := false
 	for {
@@ -215,7 +226,10 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 		nodes = append(nodes, spec.Nodes.WithType(types.NodeTypeAfterAll)...).SortedByDescendingNestingLevel()
 		nodes = append(spec.Nodes.WithType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel(), nodes...)
 		if !terminatingNode.IsZero() {
-			nodes = nodes.WithinNestingLevel(terminatingNode.NestingLevel)
+			// we didn't get to the more deeply nested nodes, but we still owe the run-once after nodes that earlier specs got to
+			nodes = nodes.Filter(func(node Node) bool {
+				return node.NestingLevel <= terminatingNode.NestingLevel || g.pendingAfterPairs[pairs.runOncePairFor(node.ID)]
+			})
 		}
 		if includeDeferCleanups {
 			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse()...)
@@ -283,6 +297,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 
 		for _, node := range nodes {
 			afterNodeWasRun[node.ID] = true
+			delete(g.pendingAfterPairs, pairs.runOncePairFor(node.ID))
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
 			g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
 			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted {
-- 
2.43.0


From d56c30656e0b18a47485e357adba3b9626d8915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 04/22] fix: MustPassRepeatedly overrides FlakeAttempts, so a
 passing attempt is repeated

---
 internal/group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index acb03c6..4d129b5 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -339,8 +339,10 @@ func (g *group) run(specs Specs) {
 			if g.suite.config.MustPassRepeatedly > 0 {
 				maxAttempts = g.suite.config.MustPassRepeatedly
 				g.suite.currentSpecReport.MaxMustPassRepeatedly = maxAttempts
+				g.suite.currentSpecReport.MaxFlakeAttempts = 0 // MustPassRepeatedly overrides FlakeAttempts
 			} else if g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 {
 				maxAttempts = max(1, spec.MustPassRepeatedly())
+				g.suite.currentSpecReport.MaxFlakeAttempts = 0 // MustPassRepeatedly overrides FlakeAttempts
 			} else if g.suite.config.FlakeAttempts > 0 {
 				maxAttempts = g.suite.config.FlakeAttempts
 				g.suite.currentSpecReport.MaxFlakeAttempts = maxAttempts
-- 
2.43.0


From 25140b07ea47b75208fb06df0788d5232fdd6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 05/22] fix: cleanups registered in an AfterAll run before
 those of the BeforeAll also when a spec failed

---
 internal/group.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 4d129b5..f72c77f 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -291,8 +291,12 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 			return false
 		})
 
-		if len(nodes) == 0 && includeDeferCleanups {
-			break
+		if len(nodes) == 0 {
+			if includeDeferCleanups {
+				break
+			}
+			includeDeferCleanups = true
+			continue
 		}
 
 		for _, node := range nodes {
@@ -307,7 +311,8 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 				g.suite.currentSpecReport.AdditionalFailures = append(g.suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: state, Failure: failure})
 			}
 		}
-		includeDeferCleanups = true
+		// a failure may have made run-once after nodes due: they run, and may register cleanups, before any further cleanup does
+		includeDeferCleanups = false
 	}
 
 	return failedInARunOnceBefore
-- 
2.43.0


From 302e56b67c02d827b39ae4ea1dbe8a0b25e169a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 06/22] fix: pass --timeout on to the test process also when it
 is 0

ginkgo --timeout=0 turns the suite timeout off for the ginkgo CLI, but
zero-valued flags are not passed to the test process, which then applied
its default timeout of one hour.
---
 types/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/config.go b/types/config.go
index 2e827ef..1d4e31b 100644
--- a/types/config.go
+++ b/types/config.go
@@ -300,7 +300,7 @@ var SuiteConfigFlags = GinkgoFlags{
 	{KeyPath: "S.SourceRoots", Name: "source-root", SectionKey: "debug",
 		Usage: "The location to look for source code when generating progress reports.  You can pass multiple --source-root flags."},
 	{KeyPath: "S.Timeout", Name: "timeout", SectionKey: "debug", UsageDefaultValue: "1h",
-		Usage: "Test suite fails if it does not complete within the specified timeout."},
+		Usage: "Test suite fails if it does not complete within the specified timeout.", AlwaysExport: true},
 	{KeyPath: "S.GracePeriod", Name: "grace-period", SectionKey: "debug", UsageDefaultValue: "30s",
 		Usage: "When interrupted, Ginkgo will wait for GracePeriod for the current running node to exit before moving on to the next one."},
 	{KeyPath: "S.OutputInterceptorMode", Name: "output-interceptor-mode", SectionKey: "debug", UsageArgument: "dup, swap, or none",
-- 
2.43.0


From df1f3f7ec94cf60e359b53a744d0bec6e64a932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 07/22] fix: keep top-level nodes that are not containers when
 cloning the suite

PreviewSpecs swaps the suite for a clone.  The clone kept the top-level
containers but dropped top-level specs and setup nodes, so a RunSpecs after
PreviewSpecs silently ran without them.
---
 internal/suite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index 3edf507..3c8c7eb 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -81,8 +81,13 @@ func (suite *Suite) Clone() (*Suite, error) {
 	if suite.phase != PhaseBuildTopLevel {
 		return nil, fmt.Errorf("cannot clone suite after tree has been built")
 	}
+	// top-level containers have not been entered yet, but any other top-level nodes are already in the tree
+	tree := &TreeNode{}
+	for _, child := range suite.tree.Children {
+		tree.AppendChild(&TreeNode{Node: child.Node})
+	}
 	return &Suite{
-		tree:                    &TreeNode{},
+		tree:                    tree,
 		phase:                   PhaseBuildTopLevel,
 		ProgressReporterManager: NewProgressReporterManager(),
 		topLevelContainers:      suite.topLevelContainers.Clone(),
-- 
2.43.0


From 9c72915ebf9d32e02ffe8841a60b0239e39fc2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 08/22] fix: do not exit with success when the run was
 interrupted between suites

---
 ginkgo/run/run_command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ginkgo/run/run_command.go b/ginkgo/run/run_command.go
index 03875b9..3b5a445 100644
--- a/ginkgo/run/run_command.go
+++ b/ginkgo/run/run_command.go
@@ -96,7 +96,7 @@ func (r *SpecRunner) RunSpecs(args []string, additionalArgs []string) {
 		endTime = t.Add(r.suiteConfig.Timeout)
 	}
 
-	iteration := 0
+	iteration, interrupted := 0, false
 OUTER_LOOP:
 	for {
 		if !r.flags.WasSet("seed") {
@@ -118,6 +118,7 @@ OUTER_LOOP:
 			suites[suiteIdx] = suite
 
 			if r.interruptHandler.Status().Interrupted() {
+				interrupted = true
 				opc.StopAndDrain()
 				break OUTER_LOOP
 			}
@@ -180,7 +181,7 @@ OUTER_LOOP:
 
 	fmt.Printf("\nGinkgo ran %d %s in %s\n", len(suites), internal.PluralizedWord("suite", "suites", len(suites)), time.Since(t))
 
-	if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 {
+	if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 && !interrupted {
 		if suites.AnyHaveProgrammaticFocus() && strings.TrimSpace(os.Getenv("GINKGO_EDITOR_INTEGRATION")) == "" {
 			fmt.Printf("Test Suite Passed\n")
 			fmt.Printf("Detected Programmatic Focus - setting exit status to %d\n", types.GINKGO_FOCUS_EXIT_CODE)
-- 
2.43.0


From 6b191675b43779e1786c21acaaae00a71d8d6143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 09/22] fix: a parallel process killed by a signal is no longer
 considered alive

---
 ginkgo/internal/run.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 41052ea..9092a73 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -219,10 +219,19 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 
 		cmd, buf := buildAndStartCommand(suite, args, false)
 		procOutput[proc-1] = buf
-		server.RegisterAlive(proc, func() bool { return cmd.ProcessState == nil || !cmd.ProcessState.Exited() })
+		exited := make(chan any)
+		server.RegisterAlive(proc, func() bool {
+			select {
+			case <-exited:
+				return false
+			default:
+				return true
+			}
+		})
 
 		go func() {
 			cmd.Wait()
+			close(exited)
 			exitStatus := cmd.ProcessState.Sys().(syscall.WaitStatus).ExitStatus()
 			procResults <- procResult{
 				passed:               (exitStatus == 0) || (exitStatus == types.GINKGO_FOCUS_EXIT_CODE),
-- 
2.43.0


From 85c51284b4d15035729d344423ad1cdcaa235da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 10/22] fix: query attached progress reporters without holding
 the suite's lock

---
 internal/suite.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/suite.go b/internal/suite.go
index 3c8c7eb..9a9e346 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -373,17 +373,19 @@ func (suite *Suite) AddReportEntry(entry ReportEntry) error {
 func (suite *Suite) generateProgressReport(fullReport bool) types.ProgressReport {
 	timelineLocation := suite.generateTimelineLocation()
 	suite.selectiveLock.Lock()
-	defer suite.selectiveLock.Unlock()
+	specContext, specReport, node, nodeStartTime, byStep := suite.currentSpecContext, suite.currentSpecReport, suite.currentNode, suite.currentNodeStartTime, suite.currentByStep
+	gwOutput := suite.currentSpecReport.CapturedGinkgoWriterOutput + string(suite.writer.Bytes())
+	suite.selectiveLock.Unlock()
 
+	// the attached progress reporters can call back into the suite, so they are queried without the lock
 	deadline, cancel := context.WithTimeout(context.Background(), ProgressReporterDeadline)
 	defer cancel()
 	var additionalReports []string
-	if suite.currentSpecContext != nil {
-		additionalReports = append(additionalReports, suite.currentSpecContext.QueryProgressReporters(deadline, suite.failer)...)
+	if specContext != nil {
+		additionalReports = append(additionalReports, specContext.QueryProgressReporters(deadline, suite.failer)...)
 	}
 	additionalReports = append(additionalReports, suite.QueryProgressReporters(deadline, suite.failer)...)
-	gwOutput := suite.currentSpecReport.CapturedGinkgoWriterOutput + string(suite.writer.Bytes())
-	pr, err := NewProgressReport(suite.isRunningInParallel(), suite.currentSpecReport, suite.currentNode, suite.currentNodeStartTime, suite.currentByStep, gwOutput, timelineLocation, additionalReports, suite.config.SourceRoots, fullReport)
+	pr, err := NewProgressReport(suite.isRunningInParallel(), specReport, node, nodeStartTime, byStep, gwOutput, timelineLocation, additionalReports, suite.config.SourceRoots, fullReport)
 
 	if err != nil {
 		fmt.Printf("{{red}}Failed to generate progress report:{{/}}\n%s\n", err.Error())
-- 
2.43.0


From cf9a444a295e47d505debde9358c364e0a5d2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 11/22] fix: keep attached progress reporters when cloning the
 suite for PreviewSpecs

---
 internal/suite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index 9a9e346..7897f07 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -89,7 +89,7 @@ func (suite *Suite) Clone() (*Suite, error) {
 	return &Suite{
 		tree:                    tree,
 		phase:                   PhaseBuildTopLevel,
-		ProgressReporterManager: NewProgressReporterManager(),
+		ProgressReporterManager: suite.ProgressReporterManager,
 		topLevelContainers:      suite.topLevelContainers.Clone(),
 		suiteNodes:              suite.suiteNodes.Clone(),
 		selectiveLock:           &sync.Mutex{},
-- 
2.43.0


From 2ee4a2e5a1d1372e3f08c4cf19269e0dd2d07a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 12/22] fix: finish the TeamCity suite under the name it was
 started with

---
 reporters/teamcity_report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reporters/teamcity_report.go b/reporters/teamcity_report.go
index e990ad8..35f64d6 100644
--- a/reporters/teamcity_report.go
+++ b/reporters/teamcity_report.go
@@ -84,7 +84,7 @@ func GenerateTeamcityReport(report types.Report, dst string) error {
 		fmt.Fprintf(f, "##teamcity[testStdErr name='%s' out='%s']\n", name, tcEscape(systemErrForUnstructuredReporters(spec)))
 		fmt.Fprintf(f, "##teamcity[testFinished name='%s' duration='%d']\n", name, int(spec.RunTime.Seconds()*1000.0))
 	}
-	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(report.SuiteDescription))
+	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(name))
 
 	return f.Close()
 }
-- 
2.43.0


From 7e57b73b3e0c395283d809f96d3d22a3aa3a414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 13/22] fix: keep IsSerial, IsInOrderedContainer and
 RunningInParallel in the JSON report

---
 types/types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/types.go b/types/types.go
index ddcbec1..c67c16d 100644
--- a/types/types.go
+++ b/types/types.go
@@ -206,10 +206,13 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLabels              []string
 		LeafNodeText                string
 		State                       SpecState
+		IsSerial                    bool
+		IsInOrderedContainer        bool
 		StartTime                   time.Time
 		EndTime                     time.Time
 		RunTime                     time.Duration
 		ParallelProcess             int
+		RunningInParallel           bool
 		Failure                     *Failure `json:",omitempty"`
 		NumAttempts                 int
 		MaxFlakeAttempts            int
@@ -229,10 +232,13 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLabels:              report.LeafNodeLabels,
 		LeafNodeText:                report.LeafNodeText,
 		State:                       report.State,
+		IsSerial:                    report.IsSerial,
+		IsInOrderedContainer:        report.IsInOrderedContainer,
 		StartTime:                   report.StartTime,
 		EndTime:                     report.EndTime,
 		RunTime:                     report.RunTime,
 		ParallelProcess:             report.ParallelProcess,
+		RunningInParallel:           report.RunningInParallel,
 		Failure:                     nil,
 		ReportEntries:               nil,
 		NumAttempts:                 report.NumAttempts,
-- 
2.43.0


From dcda1be2412e2bc8070294be8334d4425dded5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 14/22] fix: do not panic when merging a cover profile with
 further blocks at the end

---
 ginkgo/internal/gocovmerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/internal/gocovmerge.go b/ginkgo/internal/gocovmerge.go
index 87cfa11..d8c10c5 100644
--- a/ginkgo/internal/gocovmerge.go
+++ b/ginkgo/internal/gocovmerge.go
@@ -89,7 +89,7 @@ func mergeProfileBlock(p *cover.Profile, pb cover.ProfileBlock, startIndex int)
 	}
 
 	i := 0
-	if !sortFunc(i) {
+	if startIndex < len(p.Blocks) && !sortFunc(i) {
 		i = sort.Search(len(p.Blocks)-startIndex, sortFunc)
 	}
 
-- 
2.43.0


From 8e21fbc8cd4c478e33a67fc5cab5efd9d7523d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 15/22] fix: merge the reports also when the cover profiles
 cannot be merged

---
 ginkgo/internal/profiles_and_reports.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ginkgo/internal/profiles_and_reports.go b/ginkgo/internal/profiles_and_reports.go
index 8e16d2b..bafb0af 100644
--- a/ginkgo/internal/profiles_and_reports.go
+++ b/ginkgo/internal/profiles_and_reports.go
@@ -31,6 +31,8 @@ func FinalizeProfilesAndReportsForSuites(suites TestSuites, cliConfig types.CLIC
 	suitesWithProfiles := suites.WithState(TestSuiteStatePassed, TestSuiteStateFailed) //anything else won't have actually run and generated a profile
 
 	// merge cover profiles if need be
+	// a suite that crashed has no cover profile: we return the error, but only once the reports have been generated and merged
+	var coverErr error
 	if goFlagsConfig.Cover && !cliConfig.KeepSeparateCoverprofiles {
 		coverProfiles := []string{}
 		for _, suite := range suitesWithProfiles {
@@ -44,15 +46,14 @@ func FinalizeProfilesAndReportsForSuites(suites TestSuites, cliConfig types.CLIC
 			if cliConfig.OutputDir != "" {
 				dst = filepath.Join(cliConfig.OutputDir, goFlagsConfig.CoverProfile)
 			}
-			err := MergeAndCleanupCoverProfiles(coverProfiles, dst)
-			if err != nil {
-				return messages, err
-			}
-			coverage, err := GetCoverageFromCoverProfile(dst)
-			if err != nil {
-				return messages, err
+			coverage := 0.0
+			coverErr = MergeAndCleanupCoverProfiles(coverProfiles, dst)
+			if coverErr == nil {
+				coverage, coverErr = GetCoverageFromCoverProfile(dst)
 			}
-			if coverage == 0 {
+			if coverErr != nil {
+				// reported below
+			} else if coverage == 0 {
 				messages = append(messages, "composite coverage: [no statements]")
 			} else if suitesWithProfiles.AnyHaveProgrammaticFocus() {
 				messages = append(messages, fmt.Sprintf("composite coverage: %.1f%% of statements however some suites did not contribute because they included programatically focused specs", coverage))
@@ -141,7 +142,7 @@ func FinalizeProfilesAndReportsForSuites(suites TestSuites, cliConfig types.CLIC
 		}
 	}
 
-	return messages, nil
+	return messages, coverErr
 }
 
 // loads each profile, merges them, deletes them, stores them in destination
-- 
2.43.0


From 45d36e020be31cc1343f3710a18590b3ba8ba3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 16/22] fix: progress reports of deep stacks and of packages
 named goroutine

---
 internal/progress_report.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/progress_report.go b/internal/progress_report.go
index 11269cf..69439c8 100644
--- a/internal/progress_report.go
+++ b/internal/progress_report.go
@@ -200,7 +200,7 @@ func extractRunningGoroutines() ([]types.Goroutine, error) {
 		}
 
 		//parse headers for new goroutine frames
-		if strings.HasPrefix(line, "goroutine") {
+		if strings.HasPrefix(line, "goroutine ") {
 			out = append(out, types.Goroutine{})
 			idx = len(out) - 1
 
@@ -219,6 +219,11 @@ func extractRunningGoroutines() ([]types.Goroutine, error) {
 			continue
 		}
 
+		//skip notes such as "...10 frames elided..." - unlike function calls, they aren't followed by an indented file name and line number
+		if next, err := r.Peek(1); err == nil && next[0] != '\t' {
+			continue
+		}
+
 		//if we are here we must be at a function call entry in the stack
 		functionCall := types.FunctionCall{
 			Function: strings.TrimPrefix(line, "created by "), // no need to track 'created by'
-- 
2.43.0


From 8b859ee5ce1c9a6a003e10953edf33d31ba8a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 17/22] fix: do not panic when a source file is shorter than
 when it was compiled

---
 internal/progress_report.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/progress_report.go b/internal/progress_report.go
index 69439c8..9ff538d 100644
--- a/internal/progress_report.go
+++ b/internal/progress_report.go
@@ -279,6 +279,11 @@ func fetchSource(filename string, lineNumber int, span int, configuredSourceRoot
 		_SOURCE_CACHE[filename] = lines
 	}
 
+	if lineNumber > len(lines) {
+		//the file has changed since it was compiled, or this isn't where the code comes from
+		return []string{}, 0
+	}
+
 	startIndex := lineNumber - span - 1
 	endIndex := startIndex + span + span + 1
 	if startIndex < 0 {
-- 
2.43.0


From 3a8d43dff74694687a85952b753dc5ed6ee09109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 18/22] fix: show the goroutine of the current node in progress
 reports, not that of a leaked one

---
 internal/node.go            |  2 ++
 internal/progress_report.go | 16 +++++++++++++++-
 internal/suite.go           |  9 +++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/node.go b/internal/node.go
index 8096950..65361fb 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -62,6 +62,8 @@ type Node struct {
 	GracePeriod             time.Duration
 
 	NodeIDWhereCleanupWasGenerated uint
+
+	goroutineID uint64 // the goroutine the node is running in, if it is running
 }
 
 // Decoration Types
diff --git a/internal/progress_report.go b/internal/progress_report.go
index 9ff538d..968fc36 100644
--- a/internal/progress_report.go
+++ b/internal/progress_report.go
@@ -104,11 +104,14 @@ func NewProgressReport(isRunningInParallel bool, report types.SpecReport, curren
 	addPackageFor(currentNode.CodeLocation.FileName)
 	addPackageFor(currentStep.CodeLocation.FileName)
 
-	//First, we find the SpecGoroutine - this will be the goroutine that includes `runNode`
+	//First, we find the SpecGoroutine - this will be the goroutine that includes `runNode`.  Nodes that have leaked include it too, so we rely on the goroutine's ID if we have it
 	specGoRoutineIdx := -1
 	runNodeFunctionCallIdx := -1
 OUTER:
 	for goroutineIdx, goroutine := range pr.Goroutines {
+		if currentNode.goroutineID != 0 && goroutine.ID != currentNode.goroutineID {
+			continue
+		}
 		for functionCallIdx, functionCall := range goroutine.Stack {
 			if strings.Contains(functionCall.Function, "ginkgo/v2/internal.(*Suite).runNode.func") {
 				specGoRoutineIdx = goroutineIdx
@@ -174,6 +177,17 @@ OUTER_GINKGO_ENTRY_POINT:
 	return pr, nil
 }
 
+func currentGoroutineID() uint64 {
+	header := make([]byte, 64)
+	header = header[:runtime.Stack(header, false)]
+	fields := strings.Fields(string(header)) // i.e. goroutine ID [running]:...
+	if len(fields) < 2 {
+		return 0
+	}
+	id, _ := strconv.ParseUint(fields[1], 10, 64)
+	return id
+}
+
 func extractRunningGoroutines() ([]types.Goroutine, error) {
 	var stack []byte
 	for size := 64 * 1024; ; size *= 2 {
diff --git a/internal/suite.go b/internal/suite.go
index 7897f07..7f6f5b2 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -887,6 +887,15 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 
 	go func() {
 		finished := false
+
+		// so that progress reports can tell this goroutine from those of nodes that have leaked
+		goroutineID := currentGoroutineID()
+		suite.selectiveLock.Lock()
+		if suite.currentSpecContext == sc {
+			suite.currentNode.goroutineID = goroutineID
+		}
+		suite.selectiveLock.Unlock()
+
 		defer func() {
 			if e := recover(); e != nil || !finished {
 				suite.failer.Panic(types.NewCodeLocationWithStackTrace(2), e)
-- 
2.43.0


From a42a1493483fe1447018f943a04dd79860b58c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 19/22] fix: locate the cleanups of GinkgoTB's helpers at the
 user's code

---
 ginkgo_t_dsl.go                           | 5 +++++
 internal/testingtproxy/testing_t_proxy.go | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ginkgo_t_dsl.go b/ginkgo_t_dsl.go
index 993279d..9df8526 100644
--- a/ginkgo_t_dsl.go
+++ b/ginkgo_t_dsl.go
@@ -128,12 +128,15 @@ type GinkgoTBWrapper struct {
 }
 
 func (g *GinkgoTBWrapper) Cleanup(f func()) {
+	GinkgoHelper()
 	g.GinkgoT.Cleanup(f)
 }
 func (g *GinkgoTBWrapper) Chdir(dir string) {
+	GinkgoHelper()
 	g.GinkgoT.Chdir(dir)
 }
 func (g *GinkgoTBWrapper) Context() context.Context {
+	GinkgoHelper()
 	return g.GinkgoT.Context()
 }
 func (g *GinkgoTBWrapper) Error(args ...any) {
@@ -170,6 +173,7 @@ func (g *GinkgoTBWrapper) Name() string {
 	return g.GinkgoT.Name()
 }
 func (g *GinkgoTBWrapper) Setenv(key, value string) {
+	GinkgoHelper()
 	g.GinkgoT.Setenv(key, value)
 }
 func (g *GinkgoTBWrapper) Skip(args ...any) {
@@ -185,5 +189,6 @@ func (g *GinkgoTBWrapper) Skipped() bool {
 	return g.GinkgoT.Skipped()
 }
 func (g *GinkgoTBWrapper) TempDir() string {
+	GinkgoHelper()
 	return g.GinkgoT.TempDir()
 }
diff --git a/internal/testingtproxy/testing_t_proxy.go b/internal/testingtproxy/testing_t_proxy.go
index b4ecc7c..18542c4 100644
--- a/internal/testingtproxy/testing_t_proxy.go
+++ b/internal/testingtproxy/testing_t_proxy.go
@@ -171,7 +171,7 @@ func (t *ginkgoTestingTProxy) TempDir() string {
 		t.fail(fmt.Sprintf("Failed to create temporary directory: %v", err), 1)
 		return ""
 	}
-	t.cleanup(os.RemoveAll, tmpDir)
+	t.cleanup(os.RemoveAll, tmpDir, internal.Offset(1))
 
 	return tmpDir
 }
-- 
2.43.0


From 943d72a68ed4475b24fa929d4d484c441d2cf93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 20/22] fix: unfocus FDescribeTableSubtree and qualified names,
 and leave other uses of Focus alone

---
 ginkgo/unfocus/unfocus_command.go | 87 ++++++++++++++++++++++++++-----
 1 file changed, 74 insertions(+), 13 deletions(-)

diff --git a/ginkgo/unfocus/unfocus_command.go b/ginkgo/unfocus/unfocus_command.go
index 7dd2943..c4ff36b 100644
--- a/ginkgo/unfocus/unfocus_command.go
+++ b/ginkgo/unfocus/unfocus_command.go
@@ -5,10 +5,14 @@ import (
 	"fmt"
 	"go/ast"
 	"go/parser"
+	"go/scanner"
 	"go/token"
 	"io"
 	"os"
+	"path"
 	"path/filepath"
+	"sort"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -90,7 +94,7 @@ func unfocusFile(path string) {
 		return
 	}
 
-	eliminations := scanForFocus(ast)
+	eliminations := scanForFocus(ast, data)
 	if len(eliminations) == 0 {
 		return
 	}
@@ -154,31 +158,88 @@ func updateFile(path string, data []byte, eliminations [][]int64) error {
 	return nil
 }
 
-func scanForFocus(file *ast.File) (eliminations [][]int64) {
-	ast.Inspect(file, func(n ast.Node) bool {
-		if c, ok := n.(*ast.CallExpr); ok {
-			if i, ok := c.Fun.(*ast.Ident); ok {
-				if isFocus(i.Name) {
-					eliminations = append(eliminations, []int64{int64(i.Pos()), 1})
-				}
+func scanForFocus(file *ast.File, data []byte) (eliminations [][]int64) {
+	ginkgoPackages := ginkgoPackageNames(file)
+	// ginkgoIdent returns the identifier if expr is Foo, or ginkgo.Foo
+	ginkgoIdent := func(expr ast.Expr) *ast.Ident {
+		switch e := expr.(type) {
+		case *ast.Ident:
+			return e
+		case *ast.SelectorExpr:
+			if pkg, ok := e.X.(*ast.Ident); ok && pkg.Obj == nil && ginkgoPackages[pkg.Name] {
+				return e.Sel
 			}
 		}
-
-		if i, ok := n.(*ast.Ident); ok {
-			if i.Name == "Focus" {
-				eliminations = append(eliminations, []int64{int64(i.Pos()), 6})
+		return nil
+	}
+	// Focus is only removed from a list of decorators, along with the comma (if any) that separates it from the next one
+	eliminateDecorators := func(list []ast.Expr, end token.Pos) {
+		for idx, expr := range list {
+			i := ginkgoIdent(expr)
+			if i == nil || i.Name != "Focus" {
+				continue
 			}
+			length, next := int64(expr.End()-expr.Pos()), end
+			if idx+1 < len(list) {
+				next = list[idx+1].Pos()
+			}
+			length += lengthUpToComma(data[expr.End()-1 : next-1])
+			eliminations = append(eliminations, []int64{int64(expr.Pos()), length})
 		}
+	}
 
+	ast.Inspect(file, func(n ast.Node) bool {
+		switch n := n.(type) {
+		case *ast.CallExpr:
+			if i := ginkgoIdent(n.Fun); i != nil && isFocus(i.Name) {
+				eliminations = append(eliminations, []int64{int64(i.Pos()), 1})
+			}
+			eliminateDecorators(n.Args, n.Rparen)
+		case *ast.CompositeLit:
+			eliminateDecorators(n.Elts, n.Rbrace)
+		}
 		return true
 	})
 
+	sort.Slice(eliminations, func(i, j int) bool { return eliminations[i][0] < eliminations[j][0] })
 	return eliminations
 }
 
+// lengthUpToComma returns the number of bytes up to and including the comma src starts with, give or take whitespace and comments
+func lengthUpToComma(src []byte) int64 {
+	file := token.NewFileSet().AddFile("", -1, len(src))
+	var s scanner.Scanner
+	s.Init(file, src, nil, 0)
+	pos, tok, _ := s.Scan()
+	if tok != token.COMMA {
+		return 0
+	}
+	return int64(file.Offset(pos)) + 1
+}
+
+// ginkgoPackageNames returns the names by which the file refers to Ginkgo's packages
+func ginkgoPackageNames(file *ast.File) map[string]bool {
+	names := map[string]bool{}
+	for _, spec := range file.Imports {
+		importPath, err := strconv.Unquote(spec.Path.Value)
+		if err != nil || !strings.HasPrefix(importPath+"/", "github.com/onsi/ginkgo/") {
+			continue
+		}
+		switch {
+		case spec.Name != nil:
+			names[spec.Name.Name] = true
+		case path.Base(importPath) == "v2":
+			names["ginkgo"] = true
+		default:
+			names[path.Base(importPath)] = true
+		}
+	}
+	return names
+}
+
 func isFocus(name string) bool {
 	switch name {
-	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FEntry", "FSpecify", "FWhen":
+	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FDescribeTableSubtree", "FEntry", "FSpecify", "FWhen":
 		return true
 	default:
 		return false
-- 
2.43.0


From 5ed92d58c3595b3344d1ea95e484981bc838c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 21/22] fix: do not panic when a suite that was removed while
 watching comes back

---
 ginkgo/watch/delta_tracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginkgo/watch/delta_tracker.go b/ginkgo/watch/delta_tracker.go
index 26418ac..97f30c4 100644
--- a/ginkgo/watch/delta_tracker.go
+++ b/ginkgo/watch/delta_tracker.go
@@ -44,6 +44,7 @@ func (d *DeltaTracker) Delta(suites internal.TestSuites) (delta Delta, errors Su
 			}
 		} else {
 			delta.RemovedSuites = append(delta.RemovedSuites, suite)
+			delete(d.suites, suite.Suite.Path) // should the suite come back it is a new one
 		}
 	}
 
-- 
2.43.0


From 8a97a935b9526c67362a762ad65c5aa584a9d25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 22/22] fix: notice removed, renamed and older files when
 watching

---
 ginkgo/watch/package_hash.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/ginkgo/watch/package_hash.go b/ginkgo/watch/package_hash.go
index 0e6ae1f..c4fc9b0 100644
--- a/ginkgo/watch/package_hash.go
+++ b/ginkgo/watch/package_hash.go
@@ -15,10 +15,12 @@ type PackageHash struct {
 	TestModifiedTime time.Time
 	Deleted          bool
 
-	path        string
-	codeHash    string
-	testHash    string
-	watchRegExp *regexp.Regexp
+	path           string
+	codeHash       string
+	testHash       string
+	newestCodeTime time.Time
+	newestTestTime time.Time
+	watchRegExp    *regexp.Regexp
 }
 
 func NewPackageHash(path string, watchRegExp *regexp.Regexp) *PackageHash {
@@ -27,7 +29,7 @@ func NewPackageHash(path string, watchRegExp *regexp.Regexp) *PackageHash {
 		watchRegExp: watchRegExp,
 	}
 
-	p.codeHash, _, p.testHash, _, p.Deleted = p.computeHashes()
+	p.codeHash, p.newestCodeTime, p.testHash, p.newestTestTime, p.Deleted = p.computeHashes()
 
 	return p
 }
@@ -49,19 +51,30 @@ func (p *PackageHash) CheckForChanges() bool {
 	p.Deleted = false
 
 	if p.codeHash != codeHash {
-		p.CodeModifiedTime = codeModifiedTime
+		p.CodeModifiedTime = timeOfChange(codeModifiedTime, p.newestCodeTime)
 		modified = true
 	}
 	if p.testHash != testHash {
-		p.TestModifiedTime = testModifiedTime
+		p.TestModifiedTime = timeOfChange(testModifiedTime, p.newestTestTime)
 		modified = true
 	}
 
 	p.codeHash = codeHash
 	p.testHash = testHash
+	p.newestCodeTime = codeModifiedTime
+	p.newestTestTime = testModifiedTime
 	return modified
 }
 
+// timeOfChange returns the modification time of the newest file unless that file was there at the last check already: when
+// files are removed, renamed, or put in place with an older modification time, there is no file to tell when that happened
+func timeOfChange(newest time.Time, newestAtLastCheck time.Time) time.Time {
+	if newest.After(newestAtLastCheck) {
+		return newest
+	}
+	return time.Now()
+}
+
 func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Time, testHash string, testModifiedTime time.Time, deleted bool) {
 	entries, err := os.ReadDir(p.path)
 
-- 
2.43.0

