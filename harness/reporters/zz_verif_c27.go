package reporters

import (
	"encoding/json"
	"encoding/xml"
	"os"
	"strings"
	"time"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

var vzStates = []types.SpecState{types.SpecStatePassed, types.SpecStatePending, types.SpecStateSkipped, types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout, types.SpecStateInterrupted, types.SpecStateAborted}

var vzTime = time.Date(2023, 4, 5, 6, 7, 8, 0, time.UTC)

const vzBytes = "a|'[]\n\r&<"

// vzSpec is the report of a spec with an arbitrary outcome.
func vzSpec(state types.SpecState, text, label, message string) types.SpecReport {
	r := types.SpecReport{
		LeafNodeType: types.NodeTypeIt, LeafNodeText: text, LeafNodeLocation: types.CodeLocation{FileName: "f_test.go", LineNumber: 3},
		State: state, StartTime: vzTime, EndTime: vzTime.Add(1500 * time.Millisecond), RunTime: 1500 * time.Millisecond, NumAttempts: 1, ParallelProcess: 1,
	}
	if label != "" {
		r.LeafNodeLabels = []string{label}
	}
	if state.Is(types.SpecStateFailureStates) || state == types.SpecStateSkipped && message != "" {
		r.Failure = types.Failure{Message: message, Location: types.CodeLocation{FileName: "f_test.go", LineNumber: 4}, FailureNodeContext: types.FailureNodeIsLeafNode, FailureNodeType: types.NodeTypeIt}
		if state == types.SpecStatePanicked {
			r.Failure.ForwardedPanic = "p" + message
		}
	}
	return r
}

// vzService parses a service message: its name and its attributes.
func vzService(line string) (name string, keys, values []string, ok bool) {
	if !strings.HasPrefix(line, "##teamcity[") {
		return
	}
	s := line[len("##teamcity["):]
	i := 0
	for i < len(s) && s[i] >= 'A' && s[i] <= 'z' {
		i++
	}
	name = s[:i]
	for i < len(s) && s[i] == ' ' {
		i++
		k := i
		for i < len(s) && s[i] >= 'A' && s[i] <= 'z' {
			i++
		}
		keys = append(keys, s[k:i])
		if i+1 >= len(s) || s[i] != '=' || s[i+1] != '\'' {
			return
		}
		i += 2
		var v []byte
		for {
			if i >= len(s) {
				return
			}
			c := s[i]
			if c == '\'' {
				break
			}
			if c == '[' || c == ']' || c == '\r' {
				return
			}
			if c == '|' {
				i++
				if i >= len(s) {
					return
				}
				switch s[i] {
				case 'n':
					c = '\n'
				case 'r':
					c = '\r'
				case '|', '\'', '[', ']':
					c = s[i]
				default:
					return
				}
			}
			v = append(v, c)
			i++
		}
		i++
		values = append(values, string(v))
	}
	return name, keys, values, i == len(s)-1 && s[i] == ']'
}

// The TeamCity report is a sequence of well-formed messages that says about every spec what its outcome was.
//
//verif:quick 30s
//verif:thorough 200s
//verif:bounds one or two specs in each of eight states; spec text, label, message, suite name and label with bytes that need escaping (one arbitrary byte each, two in the thorough tier)
//verif:reach failed ignored passed labelled
func VerifC27_Teamcity() {
	n := 1
	if vf.Tier() > 0 {
		n = 2
	}
	which := vf.Concrete(vf.Pick("symbolic text", 5))
	text := func(i int, plain string) string {
		if which == i {
			return vf.StringN("text", n, vzBytes)
		}
		return plain
	}
	report := types.Report{SuiteDescription: text(0, "suite"), SuitePath: "/p"}
	if vf.Concrete(vf.Pick("suite has labels", 2)) == 1 {
		report.SuiteLabels = []string{text(1, "sl"), "two"}
		vf.Reach("labelled")
	}
	label := ""
	if vf.Concrete(vf.Pick("spec has a label", 2)) == 1 {
		label = text(2, "l")
	}
	state := vzStates[vf.Concrete(vf.Pick("state", len(vzStates)))]
	report.SpecReports = append(report.SpecReports, vzSpec(state, text(3, "first"), label, text(4, "oops")))
	if vf.Concrete(vf.Pick("second spec", 2)) == 1 {
		report.SpecReports = append(report.SpecReports, vzSpec(types.SpecStatePassed, "second", "", ""))
	}
	dst := vf.Dir() + "/deep/er/report.tc"
	vf.Assert(GenerateTeamcityReport(report, dst) == nil, "the report is written")
	data, err := os.ReadFile(dst)
	vf.Assert(err == nil && len(data) > 0 && data[len(data)-1] == '\n', "the report is there")
	lines := strings.Split(string(data[:len(data)-1]), "\n")

	suite := report.SuiteDescription
	if len(report.SuiteLabels) > 0 {
		suite += " [" + strings.Join(report.SuiteLabels, ", ") + "]"
	}
	at, open := -1, ""
	verdicts := 0
	for l, line := range lines {
		kind, keys, values, ok := vzService(line)
		vf.Assert(ok, "every line is a well-formed service message")
		if !ok {
			return
		}
		get := func(key string) string {
			for i, k := range keys {
				if k == key {
					return values[i]
				}
			}
			vf.Assert(false, "an attribute of a service message is missing")
			return ""
		}
		name := get("name")
		switch kind {
		case "testSuiteStarted":
			vf.Assert(l == 0, "the suite starts at the beginning, once")
			vf.Assert(vf.EqStr(name, suite), "the suite has its name and labels")
		case "testSuiteFinished":
			vf.Assert(l == len(lines)-1, "the suite finishes at the end, once")
			vf.Assert(vf.EqStr(name, suite), "the suite that finishes is the one that started")
		case "testStarted":
			vf.Assert(open == "", "a test starts when the one before has finished")
			at++
			vf.Assert(at < len(report.SpecReports), "there are no more tests than specs")
			spec := report.SpecReports[at]
			want := "[It] " + spec.LeafNodeText
			if len(spec.LeafNodeLabels) > 0 {
				want += " [" + strings.Join(spec.LeafNodeLabels, ", ") + "]"
			}
			vf.Assert(vf.EqStr(name, want), "a test is named after its spec")
			open, verdicts = name, 0
		default:
			vf.Assert(open != "" && vf.EqStr(name, open), "what is said about a test names the test that is running")
			spec := report.SpecReports[at]
			switch kind {
			case "testFailed":
				verdicts++
				vf.Assert(spec.State.Is(types.SpecStateFailureStates), "only a failed spec is said to have failed")
				m := spec.Failure.Message
				if spec.State == types.SpecStatePanicked {
					m = spec.Failure.ForwardedPanic
				}
				vf.Assert(vf.EqStr(get("message"), spec.State.String()+" - "+m), "a failure comes with its kind and message")
				vf.Assert(strings.Contains(get("details"), "f_test.go:4"), "a failure comes with its location")
				vf.Reach("failed")
			case "testIgnored":
				verdicts++
				want := spec.State.String()
				if spec.Failure.Message != "" {
					want += " - " + spec.Failure.Message
				}
				vf.Assert(spec.State.Is(types.SpecStatePending|types.SpecStateSkipped), "only a pending or skipped spec is said to be ignored")
				vf.Assert(vf.EqStr(get("message"), want), "an ignored test comes with its reason")
				vf.Reach("ignored")
			case "testFinished":
				want := 1
				if spec.State == types.SpecStatePassed {
					want = 0
					vf.Reach("passed")
				}
				vf.Assert(verdicts == want, "every spec has exactly the verdict of its state")
				vf.Assert(get("duration") == "1500", "the duration is given in milliseconds")
				open = ""
			default:
				vf.Assert(kind == "testStdOut" || kind == "testStdErr", "the message is one of those known")
			}
		}
	}
	first, _, _, _ := vzService(lines[0])
	last, _, _, _ := vzService(lines[len(lines)-1])
	vf.Assert(first == "testSuiteStarted" && last == "testSuiteFinished", "the suite is started and finished")
	vf.Assert(at == len(report.SpecReports)-1 && open == "", "every spec is reported and finished")
}

// The JUnit report has one case per spec with its outcome, and totals that add up to them.
//
//verif:quick 30s
//verif:thorough 200s
//verif:bounds up to three specs in each of eight states (two in the quick tier), suite nodes; every combination of the options that leave something out; symbolic texts of one byte
//verif:reach failed error skipped pending passed owner omitted
func VerifC27_JUnit() {
	report := types.Report{SuiteDescription: "suite", SuitePath: "/p", SuiteSucceeded: vf.Concrete(vf.Pick("ok", 2)) == 1, RunTime: 3 * time.Second, StartTime: vzTime}
	conf := JunitReportConfig{}
	option := vf.Concrete(vf.Pick("option", 7))
	switch option {
	case 1:
		conf.OmitTimelinesForSpecState = types.SpecStatePassed | types.SpecStateSkipped
	case 2:
		conf.OmitFailureMessageAttr = true
	case 3:
		conf.OmitCapturedStdOutErr = true
	case 4:
		conf.OmitSpecLabels = true
	case 5:
		conf.OmitLeafNodeType = true
	case 6:
		conf.OmitSuiteSetupNodes = true
	}
	n := 2
	if vf.Tier() > 0 {
		n = 3
	}
	for i := 0; i < n; i++ {
		text, label, message := "t", "", "oops"
		if i == 0 {
			text = "t" + vf.StringN("text", 1, "ax&<\"'") + "t"
			message = vf.StringN("message", 1, "ax&<\"'")
			label = "Owner:me"
		}
		r := vzSpec(vzStates[vf.Concrete(vf.Pick("state", len(vzStates)))], text, label, message)
		r.CapturedStdOutErr = "out"
		if i == 1 && vf.Concrete(vf.Pick("suite node", 2)) == 1 {
			r.LeafNodeType, r.LeafNodeText = types.NodeTypeBeforeSuite, ""
		}
		report.SpecReports = append(report.SpecReports, r)
	}
	dst := vf.Dir() + "/deep/er/report.xml"
	vf.Assert(GenerateJUnitReportWithConfig(report, dst, conf) == nil, "the report is written")
	f, err := os.Open(dst)
	vf.Assert(err == nil, "the report is there")
	got := JUnitTestSuites{}
	err = xml.NewDecoder(f).Decode(&got)
	f.Close()
	vf.Assert(err == nil, "the report can be read")
	vf.Assert(len(got.TestSuites) == 1, "the report has one suite")
	if err != nil || len(got.TestSuites) != 1 {
		return
	}
	s := got.TestSuites[0]
	vf.Assert(s.Name == "suite" && s.Package == "/p", "the suite is named")
	want := "false"
	if report.SuiteSucceeded {
		want = "true"
	}
	vf.Assert(s.Properties.WithName("SuiteSucceeded") == want, "the outcome of the suite is given")
	c, failing, skipped, pending := 0, 0, 0, 0
	failures, errs := 0, 0
	for _, spec := range report.SpecReports {
		if option == 6 && spec.LeafNodeType != types.NodeTypeIt {
			vf.Reach("omitted")
			continue
		}
		if c >= len(s.TestCases) {
			vf.Assert(false, "every spec has a case")
			return
		}
		tc := s.TestCases[c]
		c++
		name := "[" + spec.LeafNodeType.String() + "]"
		if option == 5 {
			name = ""
		}
		if spec.LeafNodeText != "" {
			name += " " + spec.LeafNodeText
		}
		if len(spec.LeafNodeLabels) > 0 && option != 4 {
			name += " [" + spec.LeafNodeLabels[0] + "]"
		}
		vf.Assert(vf.EqStr(tc.Name, strings.TrimSpace(name)), "a case is named after its spec")
		vf.Assert(tc.Classname == "suite" && tc.Status == spec.State.String(), "a case has the state of its spec")
		if len(spec.LeafNodeLabels) > 0 {
			vf.Assert(tc.Owner == "me", "a case has the owner given by the labels")
			vf.Reach("owner")
		}
		vf.Assert((tc.SystemOut == "out") == (option != 3), "a case has the output of its spec")
		message := spec.Failure.Message
		if spec.State == types.SpecStatePanicked {
			message = spec.Failure.ForwardedPanic
		}
		if option == 2 {
			message = ""
		}
		vf.Assert((tc.Skipped != nil) == spec.State.Is(types.SpecStatePending|types.SpecStateSkipped), "exactly the specs that did not run are skipped")
		vf.Assert((tc.Failure != nil || tc.Error != nil) == spec.State.Is(types.SpecStateFailureStates), "exactly the specs that failed have a failure")
		vf.Assert(tc.Failure == nil || tc.Error == nil, "a spec has one failure")
		if tc.Failure != nil {
			vf.Reach("failed")
			failures++
			vf.Assert(vf.EqStr(tc.Failure.Message, message) && tc.Failure.Type == spec.State.String(), "a failure comes with its kind and message")
			vf.Assert(strings.Contains(tc.Failure.Description, "f_test.go:4"), "a failure comes with its location")
		}
		if tc.Error != nil {
			vf.Reach("error")
			errs++
			vf.Assert(vf.EqStr(tc.Error.Message, message) && tc.Error.Type == spec.State.String(), "an error comes with its kind and message")
			vf.Assert(strings.Contains(tc.Error.Description, "f_test.go:4"), "an error comes with its location")
		}
		if spec.State.Is(types.SpecStateFailureStates) {
			failing++
		}
		switch spec.State {
		case types.SpecStateSkipped:
			skipped++
			vf.Reach("skipped")
			vf.Assert(vf.EqStr(tc.Skipped.Message, "skipped - "+spec.Failure.Message), "a skipped case comes with its reason")
		case types.SpecStatePending:
			pending++
			vf.Reach("pending")
			vf.Assert(tc.Skipped.Message == "pending", "a pending case is said to be pending")
		case types.SpecStatePassed:
			vf.Reach("passed")
		}
	}
	vf.Assert(len(s.TestCases) == c, "there is nothing but the cases of the specs")
	vf.Assert(s.Tests == c && got.Tests == c, "the number of tests is the number of cases")
	vf.Assert(s.Failures+s.Errors == failing && got.Failures+got.Errors == failing, "failures and errors add up to the specs that failed")
	vf.Assert(s.Skipped == skipped && s.Disabled == pending, "skipped and pending specs are counted")
	vf.Assert(got.Disabled == skipped+pending, "the total counts what did not run")
}

// What the JSON report says about a suite and its specs is what a program reads back.
//
//verif:quick 30s
//verif:thorough 200s
//verif:bounds one spec with every exported field; numbers, flags and one byte of every text symbolic; eight states; report entries, progress reports, additional failures and events present or not
//verif:reach failure entries progress additional events
func VerifC27_JSON() {
	state := vzStates[vf.Concrete(vf.Pick("state", len(vzStates)))]
	s := vf.StringN("text", 1, "")
	vf.Assume(s[0] < 128)
	r := types.SpecReport{
		ContainerHierarchyTexts: []string{"a", s}, ContainerHierarchyLocations: []types.CodeLocation{{FileName: "c" + s, LineNumber: vf.Int("container line", 0, 1<<20)}, {}},
		ContainerHierarchyLabels: [][]string{{s, "b"}, nil},
		LeafNodeType:             types.NodeTypeIt, LeafNodeLocation: types.CodeLocation{FileName: "f", LineNumber: vf.Int("line", 0, 1<<20)}, LeafNodeLabels: []string{"l" + s}, LeafNodeText: "x" + s,
		State: state, IsSerial: vf.Bool("serial"), IsInOrderedContainer: vf.Bool("ordered"), RunningInParallel: vf.Bool("parallel"),
		StartTime: vzTime, EndTime: vzTime.Add(time.Second), RunTime: time.Duration(vf.Int("run time", 0, 1<<40)), ParallelProcess: vf.Int("process", 0, 99),
		NumAttempts: vf.Int("attempts", 0, 99), MaxFlakeAttempts: vf.Int("flake attempts", 0, 99), MaxMustPassRepeatedly: vf.Int("must pass", 0, 99),
		CapturedGinkgoWriterOutput: "w" + s, CapturedStdOutErr: "o" + s,
	}
	where := types.TimelineLocation{Offset: vf.Int("offset", 0, 99), Order: vf.Int("order", 0, 99), Time: vzTime}
	if vf.Concrete(vf.Pick("failure", 2)) == 1 {
		r.Failure = types.Failure{Message: "m" + s, Location: types.CodeLocation{FileName: "g", LineNumber: 7, FullStackTrace: "trace"}, TimelineLocation: where, ForwardedPanic: "p",
			FailureNodeContext: types.FailureNodeInContainer, FailureNodeType: types.NodeTypeBeforeEach, FailureNodeLocation: types.CodeLocation{FileName: "h", LineNumber: 8}, FailureNodeContainerIndex: vf.Int("container", 0, 9)}
		r.Failure.AdditionalFailure = &types.AdditionalFailure{State: types.SpecStateFailed, Failure: types.Failure{Message: "more"}}
		r.Failure.ProgressReport = types.ProgressReport{Message: "stuck", CurrentNodeType: types.NodeTypeIt}
		vf.Reach("failure")
	}
	more := vf.Concrete(vf.Pick("more", 5))
	switch more {
	case 1:
		r.ReportEntries = types.ReportEntries{{Visibility: types.ReportEntryVisibility(vf.Concrete(vf.Pick("visibility", 3))), Name: "e" + s, Value: types.WrapEntryValue("v"), TimelineLocation: where, Time: vzTime}, {Name: "no value"}}
		vf.Reach("entries")
	case 2:
		r.ProgressReports = []types.ProgressReport{{Message: "pr" + s, ParallelProcess: 2, RunningInParallel: vf.Bool("pr parallel"), LeafNodeText: "x", CurrentNodeType: types.NodeTypeIt, CurrentStepText: "step", AdditionalReports: []string{"r"}, TimelineLocation: where,
			Goroutines: []types.Goroutine{{ID: 5, State: "running", Stack: []types.FunctionCall{{Function: "f", Filename: "g", Line: 3, Highlight: true}}, IsSpecGoroutine: true}}}}
		vf.Reach("progress")
	case 3:
		r.AdditionalFailures = []types.AdditionalFailure{{State: types.SpecStatePanicked, Failure: types.Failure{Message: "af" + s, ForwardedPanic: "q"}}}
		vf.Reach("additional")
	case 4:
		r.SpecEvents = types.SpecEvents{{SpecEventType: types.SpecEventByStart, Message: "by" + s, TimelineLocation: where}, {SpecEventType: types.SpecEventSpecRetry, Attempt: vf.Int("attempt", 0, 9), Duration: time.Second, NodeType: types.NodeTypeIt}}
		vf.Reach("events")
	}
	report := types.Report{SuitePath: "/p" + s, SuiteDescription: "d" + s, SuiteLabels: []string{"sl" + s}, SuiteSucceeded: vf.Bool("ok"), SuiteHasProgrammaticFocus: vf.Bool("focus"),
		SpecialSuiteFailureReasons: []string{"why" + s}, PreRunStats: types.PreRunStats{TotalSpecs: vf.Int("total", 0, 99), SpecsThatWillRun: vf.Int("will run", 0, 99)},
		StartTime: vzTime, EndTime: vzTime.Add(time.Hour), RunTime: time.Hour, SpecReports: types.SpecReports{r}}
	report.SuiteConfig.RandomSeed = vf.Int64("seed")
	report.SuiteConfig.LabelFilter = "lf" + s

	dst := vf.Dir() + "/deep/er/report.json"
	vf.Assert(GenerateJSONReport(report, dst) == nil, "the report is written")
	data, err := os.ReadFile(dst)
	vf.Assert(err == nil, "the report is there")
	reports := []types.Report{}
	err = json.Unmarshal(data, &reports)
	vf.Assert(err == nil && len(reports) == 1, "the report can be read")
	if err != nil || len(reports) != 1 {
		return
	}
	g := reports[0]
	vf.Assert(vf.EqStr(g.SuitePath, report.SuitePath) && vf.EqStr(g.SuiteDescription, report.SuiteDescription) && len(g.SuiteLabels) == 1 && vf.EqStr(g.SuiteLabels[0], report.SuiteLabels[0]), "the suite is identified")
	vf.Assert(vf.And(g.SuiteSucceeded == report.SuiteSucceeded, g.SuiteHasProgrammaticFocus == report.SuiteHasProgrammaticFocus), "the outcome of the suite is kept")
	vf.Assert(len(g.SpecialSuiteFailureReasons) == 1 && vf.EqStr(g.SpecialSuiteFailureReasons[0], "why"+s), "the reasons for failure are kept")
	vf.Assert(g.PreRunStats == report.PreRunStats && g.RunTime == report.RunTime && g.StartTime.Equal(report.StartTime) && g.EndTime.Equal(report.EndTime), "the statistics and times of the suite are kept")
	vf.Assert(vf.And(g.SuiteConfig.RandomSeed == report.SuiteConfig.RandomSeed, vf.EqStr(g.SuiteConfig.LabelFilter, report.SuiteConfig.LabelFilter)), "the configuration of the suite is kept")
	vf.Assert(len(g.SpecReports) == 1, "every spec is reported once")
	q := g.SpecReports[0]
	vf.Assert(len(q.ContainerHierarchyTexts) == 2 && vf.EqStr(q.ContainerHierarchyTexts[1], s) && vf.EqStr(q.LeafNodeText, r.LeafNodeText), "the texts of the spec are kept")
	vf.Assert(len(q.ContainerHierarchyLocations) == 2 && q.ContainerHierarchyLocations[0] == r.ContainerHierarchyLocations[0] && q.LeafNodeLocation == r.LeafNodeLocation, "the locations of the spec are kept")
	vf.Assert(len(q.ContainerHierarchyLabels) == 2 && len(q.ContainerHierarchyLabels[0]) == 2 && vf.EqStr(q.ContainerHierarchyLabels[0][0], s) && len(q.LeafNodeLabels) == 1 && vf.EqStr(q.LeafNodeLabels[0], r.LeafNodeLabels[0]), "the labels of the spec are kept")
	vf.Assert(q.LeafNodeType == r.LeafNodeType && q.State == r.State, "the kind and the state of the spec are kept")
	vf.Assert(vf.And(vf.And(q.IsSerial == r.IsSerial, q.IsInOrderedContainer == r.IsInOrderedContainer), q.RunningInParallel == r.RunningInParallel), "it is kept whether the spec is serial, ordered and run in parallel")
	vf.Assert(vf.And(q.RunTime == r.RunTime, q.ParallelProcess == r.ParallelProcess) && q.StartTime.Equal(r.StartTime) && q.EndTime.Equal(r.EndTime), "the time and the process of the spec are kept")
	vf.Assert(vf.And(vf.And(q.NumAttempts == r.NumAttempts, q.MaxFlakeAttempts == r.MaxFlakeAttempts), q.MaxMustPassRepeatedly == r.MaxMustPassRepeatedly), "the attempts are kept")
	vf.Assert(vf.EqStr(q.CapturedGinkgoWriterOutput, r.CapturedGinkgoWriterOutput) && vf.EqStr(q.CapturedStdOutErr, r.CapturedStdOutErr), "the output is kept")
	sameFailure := func(a, b types.Failure) bool {
		if (a.AdditionalFailure == nil) != (b.AdditionalFailure == nil) {
			return false
		}
		if a.AdditionalFailure != nil && (a.AdditionalFailure.State != b.AdditionalFailure.State || a.AdditionalFailure.Failure.Message != b.AdditionalFailure.Failure.Message) {
			return false
		}
		return vf.EqStr(a.Message, b.Message) && a.Location == b.Location && a.ForwardedPanic == b.ForwardedPanic && a.FailureNodeContext == b.FailureNodeContext && a.FailureNodeType == b.FailureNodeType &&
			a.FailureNodeLocation == b.FailureNodeLocation && a.FailureNodeContainerIndex == b.FailureNodeContainerIndex && a.ProgressReport.Message == b.ProgressReport.Message &&
			a.TimelineLocation.Offset == b.TimelineLocation.Offset && a.TimelineLocation.Order == b.TimelineLocation.Order
	}
	vf.Assert(sameFailure(q.Failure, r.Failure), "the failure is kept")
	vf.Assert(len(q.ReportEntries) == len(r.ReportEntries) && len(q.ProgressReports) == len(r.ProgressReports) && len(q.AdditionalFailures) == len(r.AdditionalFailures) && len(q.SpecEvents) == len(r.SpecEvents), "entries, progress reports, further failures and events are kept")
	switch more {
	case 1:
		e := q.ReportEntries[0]
		vf.Assert(e.Visibility == r.ReportEntries[0].Visibility && vf.EqStr(e.Name, "e"+s) && e.TimelineLocation.Offset == where.Offset, "a report entry is kept")
		vf.Assert(e.StringRepresentation() == "v" && q.ReportEntries[1].StringRepresentation() == "", "the value of a report entry is kept")
		v, _ := e.GetRawValue().(string)
		vf.Assert(v == "v" && q.ReportEntries[1].GetRawValue() == nil, "the value of a report entry can be decoded")
	case 2:
		a, b := q.ProgressReports[0], r.ProgressReports[0]
		vf.Assert(vf.EqStr(a.Message, b.Message) && a.ParallelProcess == 2 && a.RunningInParallel == b.RunningInParallel && a.LeafNodeText == "x" && a.CurrentNodeType == b.CurrentNodeType && a.CurrentStepText == "step" && len(a.AdditionalReports) == 1, "a progress report is kept")
		vf.Assert(len(a.Goroutines) == 1 && a.Goroutines[0].ID == 5 && a.Goroutines[0].IsSpecGoroutine && len(a.Goroutines[0].Stack) == 1 && a.Goroutines[0].Stack[0].Highlight, "the goroutines of a progress report are kept")
	case 3:
		vf.Assert(q.AdditionalFailures[0].State == types.SpecStatePanicked && sameFailure(q.AdditionalFailures[0].Failure, r.AdditionalFailures[0].Failure), "a further failure is kept")
	case 4:
		a, b := q.SpecEvents[0], r.SpecEvents[0]
		vf.Assert(a.SpecEventType == b.SpecEventType && vf.EqStr(a.Message, b.Message) && a.TimelineLocation.Order == b.TimelineLocation.Order, "an event is kept")
		a, b = q.SpecEvents[1], r.SpecEvents[1]
		vf.Assert(a.SpecEventType == b.SpecEventType && a.Attempt == b.Attempt && a.Duration == b.Duration && a.NodeType == b.NodeType, "a retry is kept")
	}
}
