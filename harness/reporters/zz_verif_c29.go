package reporters

import (
	"fmt"
	"strings"
	"time"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

type vzConsole struct {
	strings.Builder
}

func vzLoc(file string, line int) types.CodeLocation {
	return types.CodeLocation{FileName: file, LineNumber: line, FullStackTrace: "stack-" + file}
}

var vzHeading = map[types.SpecState]string{types.SpecStateFailed: "[FAIL", types.SpecStatePanicked: "[PANICKED", types.SpecStateTimedout: "[TIMEDOUT", types.SpecStateInterrupted: "[INTERRUPTED", types.SpecStateAborted: "[ABORTED"}

// What the console says of a spec: a spec that failed is named and located and its message is shown once; what it wrote
// and what was attached to it is shown once and in its place, or not at all, as its visibility and the verbosity say.
//
//verif:quick 60s
//verif:thorough 300s
//verif:bounds one spec in a container in each of eight states, the failure in the spec, in a node at the top level or in the container; with or without writer output, captured standard output, a visible, hidden or conditional report entry, a step, a node event, a follow-on and an additional failure; four verbosities, each other console setting on or off (one at a time in the quick tier), in series (streamed) or in parallel
//verif:use reporters/zz_verif_c27.go
//verif:reach streamed parallel silenced denoter failed additional
func VerifC29_Spec() {
	state := vzStates[vf.Concrete(vf.Pick("state", len(vzStates)))]
	level := vf.Concrete(vf.Pick("verbosity", 4))
	conf := types.ReporterConfig{NoColor: true, Succinct: level == 0, Verbose: level == 2, VeryVerbose: level == 3}
	setting := 0
	if vf.Tier() > 0 {
		conf.FullTrace = vf.Concrete(vf.Pick("full trace", 2)) == 1
		conf.ShowNodeEvents = vf.Concrete(vf.Pick("node events", 2)) == 1
		conf.SilenceSkips = vf.Concrete(vf.Pick("silence skips", 2)) == 1
		conf.ForceNewlines = vf.Concrete(vf.Pick("force newlines", 2)) == 1
		conf.GithubOutput = vf.Concrete(vf.Pick("github", 2)) == 1
	} else {
		setting = vf.Concrete(vf.Pick("setting", 6))
		switch setting {
		case 1:
			conf.FullTrace = true
		case 2:
			conf.ShowNodeEvents = true
		case 3:
			conf.SilenceSkips = true
		case 4:
			conf.ForceNewlines = true
		case 5:
			conf.GithubOutput = true
		}
	}
	parallel := vf.Concrete(vf.Pick("parallel", 2)) == 1
	failed := state.Is(types.SpecStateFailureStates)

	at := func(order, offset int) types.TimelineLocation {
		return types.TimelineLocation{Order: order, Offset: offset, Time: vzTime}
	}
	r := types.SpecReport{
		ContainerHierarchyTexts: []string{"outer-text", "inner-text"}, ContainerHierarchyLocations: []types.CodeLocation{vzLoc("outer.go", 1), vzLoc("inner.go", 2)}, ContainerHierarchyLabels: [][]string{{"outer-label"}, nil},
		LeafNodeType: types.NodeTypeIt, LeafNodeText: "leaf-text", LeafNodeLocation: vzLoc("leaf.go", 3), LeafNodeLabels: []string{"leaf-label"},
		State: state, StartTime: vzTime, EndTime: vzTime.Add(1500 * time.Millisecond), RunTime: 1500 * time.Millisecond, NumAttempts: 1, ParallelProcess: 1, RunningInParallel: parallel,
	}
	ran := !state.Is(types.SpecStatePending)
	content := 0
	if ran {
		content = vf.Concrete(vf.Pick("content", 2+6*vf.Tier()))
		if vf.Tier() == 0 {
			content *= 7
		}
	}
	gw := content&1 != 0
	const one, two = "writer-one\n", "writer-two\n"
	if gw {
		r.CapturedGinkgoWriterOutput = one + two
	}
	if parallel && content&2 != 0 {
		r.CapturedStdOutErr = "stdout-text\n"
	}
	type piece struct {
		text string
		emit func(*DefaultReporter)
	}
	var stream []piece
	event := func(ev types.SpecEvent) {
		r.SpecEvents = append(r.SpecEvents, ev)
		stream = append(stream, piece{emit: func(d *DefaultReporter) { d.EmitSpecEvent(ev) }})
	}
	visibility := 3
	mid := 0
	if gw {
		mid = len(one)
	}
	if content&4 != 0 {
		event(types.SpecEvent{SpecEventType: types.SpecEventNodeStart, NodeType: types.NodeTypeIt, Message: "node-event", CodeLocation: vzLoc("node.go", 7), TimelineLocation: at(1, 0)})
	}
	if gw {
		stream = append(stream, piece{text: one})
	}
	if content&4 != 0 {
		event(types.SpecEvent{SpecEventType: types.SpecEventByStart, Message: "step-text", CodeLocation: vzLoc("step.go", 5), TimelineLocation: at(2, mid)})
	}
	if ran {
		if visibility = 0; setting == 0 {
			visibility = vf.Concrete(vf.Pick("entry", 4))
		}
	}
	if visibility < 3 {
		entry := types.ReportEntry{Visibility: types.ReportEntryVisibility(visibility), Name: "entry-name", Location: vzLoc("entry.go", 6), Time: vzTime, TimelineLocation: at(3, mid), Value: types.WrapEntryValue("entry-100%d-value")}
		r.ReportEntries = append(r.ReportEntries, entry)
		stream = append(stream, piece{emit: func(d *DefaultReporter) { d.EmitReportEntry(entry) }})
	}
	if gw {
		stream = append(stream, piece{text: two})
	}
	context := 0
	followOn, additional := false, false
	skipMessage := false
	if failed || state == types.SpecStateSkipped && vf.Concrete(vf.Pick("skip message", 2)) == 1 {
		skipMessage = !failed
		context = 1
		if setting == 0 || setting == 5 {
			context += vf.Concrete(vf.Pick("where", 4))
		}
		f := types.Failure{Message: "message-50%s-text", Location: vzLoc("failure.go", 10), TimelineLocation: at(4, len(r.CapturedGinkgoWriterOutput))}
		switch context {
		case 1:
			f.FailureNodeContext, f.FailureNodeType, f.FailureNodeLocation = types.FailureNodeIsLeafNode, types.NodeTypeIt, r.LeafNodeLocation
		case 2:
			f.FailureNodeContext, f.FailureNodeType, f.FailureNodeLocation = types.FailureNodeAtTopLevel, types.NodeTypeBeforeEach, vzLoc("setup.go", 4)
		default:
			f.FailureNodeContext, f.FailureNodeType, f.FailureNodeLocation, f.FailureNodeContainerIndex = types.FailureNodeInContainer, types.NodeTypeBeforeEach, vzLoc("setup.go", 4), context-3
		}
		if state == types.SpecStatePanicked {
			f.ForwardedPanic = "panic-value"
		}
		if state.Is(types.SpecStateTimedout | types.SpecStateInterrupted) {
			if followOn = vf.Concrete(vf.Pick("follow-on", 2)) == 1; followOn {
				f.AdditionalFailure = &types.AdditionalFailure{State: types.SpecStateFailed, Failure: types.Failure{Message: "follow-on-text", Location: vzLoc("follow.go", 11), FailureNodeType: types.NodeTypeIt, TimelineLocation: at(4, len(r.CapturedGinkgoWriterOutput))}}
			}
		}
		r.Failure = f
		stream = append(stream, piece{emit: func(d *DefaultReporter) { d.EmitFailure(state, f) }})
		if failed && !followOn {
			additional = vf.Concrete(vf.Pick("additional", 2)) == 1
		}
		if additional {
			a := types.AdditionalFailure{State: types.SpecStatePanicked, Failure: types.Failure{Message: "additional-text", Location: vzLoc("additional.go", 12), FailureNodeContext: types.FailureNodeAtTopLevel, FailureNodeType: types.NodeTypeAfterEach, FailureNodeLocation: vzLoc("after.go", 9), TimelineLocation: at(5, len(r.CapturedGinkgoWriterOutput))}}
			r.AdditionalFailures = append(r.AdditionalFailures, a)
			stream = append(stream, piece{emit: func(d *DefaultReporter) { d.EmitFailure(a.State, a.Failure) }})
			vf.Reach("additional")
		}
	}

	// the run, as the suite tells of it: streamed in series, at once when it is over in parallel
	out := &vzConsole{}
	d := NewDefaultReporterUnderTest(conf, out)
	verbose := level >= 2
	streaming := verbose && !parallel
	d.WillRun(r)
	if !parallel {
		for _, p := range stream {
			if p.text == "" {
				p.emit(d)
			} else if verbose {
				out.WriteString("  " + p.text)
			}
		}
		vf.Assert(verbose || out.Len() == 0, "nothing is shown of a spec before its end unless the run is verbose")
	}
	d.DidRun(r)
	s := out.String()
	count := func(t string) int { return strings.Count(s, t) }
	located := func(file string, line int) bool {
		return strings.Contains(s, fmt.Sprintf("%s:%d", file, line)) || conf.GithubOutput && strings.Contains(s, fmt.Sprintf("file=%s,line=%d", file, line))
	}
	once := func(t string, want bool, msg string) {
		n := 0
		if want {
			n = 1
		}
		vf.Assert(count(t) == n, msg)
	}

	silenced := state == types.SpecStateSkipped && conf.SilenceSkips
	if silenced && !streaming {
		vf.Assert(s == "", "a silenced skip leaves no trace")
		vf.Reach("silenced")
		return
	}
	if streaming {
		vf.Reach("streamed")
	}
	if parallel {
		vf.Reach("parallel")
	}
	if failed {
		vf.Reach("failed")
		for _, t := range []string{"outer-text", "inner-text", "leaf-text", "outer-label", "leaf-label", vzHeading[state]} {
			vf.Assert(count(t) > 0, "a failing spec is named, with its containers and labels")
		}
		vf.Assert(located("failure.go", 10), "a failure is located")
		if context > 1 {
			vf.Assert(count("setup.go:4") > 0 && count("[BeforeEach]") > 0, "the node that failed is named and located")
		}
		if level < 3 {
			vf.Assert(count("leaf.go:3") > 0, "the failing spec is located")
		}
		if level == 3 {
			vf.Assert(count("outer.go:1") > 0 || context == 3, "the containers are located in the most verbose output")
			vf.Assert(count("inner.go:2") > 0 || context == 4, "the containers are located in the most verbose output")
		}
		once("message-50%s-text", true, "the failure's message is shown, exactly once")
		once("panic-value", state == types.SpecStatePanicked, "the value of a panic is shown once")
		once("follow-on-text", followOn, "a follow-on failure is shown once")
		once("additional-text", additional && level == 3, "an additional failure is shown in detail in the most verbose output")
		vf.Assert(!additional || level == 3 || count("additional failures") == 1, "additional failures are not passed over in silence")
		vf.Assert(!additional || !verbose || located("additional.go", 12), "additional failures are in the timeline")
		once("stack-failure.go", conf.FullTrace || state == types.SpecStatePanicked, "the stack trace is shown for a panic or on demand")
	}
	if skipMessage {
		want := verbose
		vf.Assert(!want || silenced || count("message-50%s-text") == 1, "why a spec was skipped is shown when the run is verbose")
	}
	once("writer-one", gw && (failed || verbose), "what a spec wrote is shown once if it failed or the run is verbose")
	once("writer-two", gw && (failed || verbose), "what a spec wrote is shown once if it failed or the run is verbose")
	once("stdout-text", r.CapturedStdOutErr != "", "what a spec wrote to standard output in parallel is shown once")
	vf.Assert(!gw || !(failed || verbose) || strings.Index(s, "writer-one") < strings.Index(s, "writer-two"), "what a spec wrote is shown in order")
	shown := visibility == int(types.ReportEntryVisibilityAlways) || visibility == int(types.ReportEntryVisibilityFailureOrVerbose) && (failed || verbose)
	once("entry-name", shown, "a report entry is shown once, or never, as its visibility says")
	once("entry-100%d-value", shown, "a report entry's value is shown with it, as it is")
	once("step-text", content&4 != 0 && (failed || verbose), "a step is shown once if the spec failed or the run is verbose")
	once("node-event", content&4 != 0 && (level == 3 || conf.ShowNodeEvents && (failed || verbose)), "a node event is shown in the most verbose output or on demand")
	if gw && (failed || verbose) {
		lo, hi := strings.Index(s, "writer-one"), strings.Index(s, "writer-two")
		if count("step-text") == 1 {
			i := strings.Index(s, "step-text")
			vf.Assert(lo < i && i < hi, "a step is shown at its place in the output")
		}
		if shown {
			i := strings.Index(s, "entry-name")
			vf.Assert(lo < i && i < hi, "a report entry is shown at its place in the output")
		}
		if count("node-event") == 1 {
			vf.Assert(strings.Index(s, "node-event") < lo, "a node event is shown at its place in the output")
		}
		if failed {
			vf.Assert(strings.LastIndex(s, "message-50%s-text") > hi, "a failure is shown after what was written before it")
		}
	}
	quiet := map[types.SpecState]string{types.SpecStatePassed: "•", types.SpecStateSkipped: "S", types.SpecStatePending: "P"}
	if !failed && !verbose && !shown && r.CapturedStdOutErr == "" && !(state == types.SpecStatePending && level > 0) {
		want := quiet[state]
		plain := s
		for _, c := range []string{"{{green}}", "{{yellow}}", "{{cyan}}", "{{/}}"} {
			plain = strings.ReplaceAll(plain, c, "")
		}
		if conf.ForceNewlines {
			want += "\n"
		}
		vf.Assert(plain == want, "an unremarkable spec is a single character")
		vf.Reach("denoter")
	}
}

// The summary lists every failure and its counts add up.
//
//verif:quick 60s
//verif:thorough 200s
//verif:bounds up to 3 reports (quick: 2), with or without a BeforeSuite that passes, fails or fails on another process, each in one of eight states, with or without retries or repetitions; succinct or not; with up to two special reasons for failure
//verif:use reporters/zz_verif_c27.go
//verif:reach listed clean retried setup reasons elsewhere
func VerifC29_Summary() {
	conf := types.ReporterConfig{NoColor: true, Succinct: vf.Concrete(vf.Pick("succinct", 2)) == 1}
	n := 2 + vf.Tier()
	report := types.Report{SuiteDescription: "suite-text", SuitePath: "/p", SuiteSucceeded: true, RunTime: 2 * time.Second}
	report.SuiteConfig.ParallelTotal = 1
	reasons := vf.Concrete(vf.Pick("reasons", 3))
	counts := map[types.SpecState]int{}
	failures, flaked, repeated := 0, 0, 0
	setup := vf.Concrete(vf.Pick("setup", 4))
	if setup > 0 {
		b := vzSpec(types.SpecStatePassed, "", "", "")
		b.LeafNodeType = types.NodeTypeBeforeSuite
		if setup >= 2 {
			b = vzSpec(types.SpecStateFailed, "", "", "message-setup")
			b.LeafNodeType = types.NodeTypeBeforeSuite
			b.Failure.Location = vzLoc("setup.go", 7)
			failures++
			if setup == 2 {
				n = 0
			}
		}
		report.SpecReports = append(report.SpecReports, b)
	}
	for i := 0; i < n; i++ {
		st := vzStates[vf.Concrete(vf.Pick("state", len(vzStates)))]
		r := vzSpec(st, fmt.Sprintf("leaf-%d", i), "", "message")
		if st.Is(types.SpecStateFailureStates) {
			r.Failure.Location = vzLoc(fmt.Sprintf("failure%d.go", i), 10+i)
			if vf.Concrete(vf.Pick("in setup node", 2)) == 1 {
				r.Failure.FailureNodeContext, r.Failure.FailureNodeType, r.Failure.FailureNodeLocation = types.FailureNodeAtTopLevel, types.NodeTypeBeforeEach, vzLoc("node.go", 2)
			}
			failures++
		}
		if reasons > 0 && vf.Tier() == 0 {
			counts[st]++
			report.SpecReports = append(report.SpecReports, r)
			continue
		}
		switch vf.Concrete(vf.Pick("attempts", 3)) {
		case 1:
			r.MaxFlakeAttempts, r.NumAttempts = 3, 2
			if st == types.SpecStatePassed {
				flaked++
				vf.Reach("retried")
			}
		case 2:
			r.MaxMustPassRepeatedly, r.NumAttempts = 3, 2
			if st.Is(types.SpecStateFailureStates) {
				repeated++
			}
		}
		counts[st]++
		report.SpecReports = append(report.SpecReports, r)
	}
	report.PreRunStats = types.PreRunStats{TotalSpecs: n, SpecsThatWillRun: n}
	for i := 0; i < reasons; i++ {
		report.SpecialSuiteFailureReasons = append(report.SpecialSuiteFailureReasons, fmt.Sprintf("reason-%d", i))
		vf.Reach("reasons")
	}
	report.SuiteSucceeded = failures == 0 && reasons == 0
	out := &vzConsole{}
	d := NewDefaultReporterUnderTest(conf, out)
	d.SuiteWillBegin(report)
	vf.Assert(strings.Contains(out.String(), "suite-text"), "the suite is named at its start")
	d.SuiteDidEnd(report)
	s := out.String()
	for _, r := range report.SpecReports {
		if !r.Failed() {
			vf.Assert(r.LeafNodeText == "" || !strings.Contains(s, r.LeafNodeText), "only failures are listed")
			continue
		}
		vf.Assert(strings.Count(s, r.Failure.Location.String()) == 1, "every failure is listed once, with its location")
		vf.Assert(strings.Contains(s, r.LeafNodeText) && strings.Contains(s, vzHeading[r.State]), "every failure is listed with its name and kind")
		vf.Reach("listed")
	}
	switch failures {
	case 0:
		vf.Assert(!strings.Contains(s, "Summarizing"), "there is no list of failures without a failure")
	case 1:
		vf.Assert(strings.Contains(s, "Summarizing 1 Failure:"), "the list says how many failures there are")
	default:
		vf.Assert(strings.Contains(s, fmt.Sprintf("Summarizing %d Failures:", failures)), "the list says how many failures there are")
	}
	if conf.Succinct && report.SuiteSucceeded {
		vf.Assert(strings.Contains(s, "SUCCESS!"), "a passing suite says so")
		vf.Reach("clean")
		return
	}
	vf.Assert(strings.Contains(s, "SUCCESS!") == report.SuiteSucceeded && strings.Contains(s, "FAIL!") != report.SuiteSucceeded, "the verdict is the suite's")
	for i := range report.SpecialSuiteFailureReasons {
		vf.Assert(strings.Count(s, fmt.Sprintf("reason-%d", i)) == 1, "special reasons for the failure are given")
	}
	if setup == 2 {
		vf.Assert(strings.Contains(s, "A BeforeSuite node failed so all tests were skipped."), "a failed setup is said to be why nothing ran")
		vf.Reach("setup")
		return
	}
	failedSpecs := failures
	if setup == 3 {
		failedSpecs--
		vf.Reach("elsewhere")
	}
	line := fmt.Sprintf("%d Passed{{/}} | {{red}}{{bold}}%d Failed{{/}} | ", counts[types.SpecStatePassed], failedSpecs)
	if flaked > 0 {
		line += fmt.Sprintf("{{light-yellow}}{{bold}}%d Flaked{{/}} | ", flaked)
	}
	if repeated > 0 {
		line += fmt.Sprintf("{{light-yellow}}{{bold}}%d Repeated{{/}} | ", repeated)
	}
	line += fmt.Sprintf("{{yellow}}{{bold}}%d Pending{{/}} | {{cyan}}{{bold}}%d Skipped{{/}}\n", counts[types.SpecStatePending], counts[types.SpecStateSkipped])
	vf.Assert(strings.Contains(s, line), "the counts are those of the reports")
	vf.Assert(strings.Contains(s, fmt.Sprintf("Ran %d of %d Specs", counts[types.SpecStatePassed]+failedSpecs, n)), "the number of specs that ran is that of the reports")
}
