package ginkgo

import (
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
	"os"
)

type vzT struct{ fails int }

func (t *vzT) Fail() { t.fails++ }

type vzSuite struct {
	ran     []string
	reports []types.Report
	before  int
}

type vzSpec struct {
	name, label    string
	focus, pending bool
	selected       bool
	outcome        int // 0 passes, 1 fails, 2 skips, 3 panics
}

// declare declares the specs, in two containers.
func (s *vzSuite) declare(specs []vzSpec, setup int, report bool) {
	leaf := func(x vzSpec) {
		args := []any{Label(x.label), func() {
			s.ran = append(s.ran, x.name)
			switch x.outcome {
			case 1:
				Fail("no")
			case 2:
				Skip("not now")
			case 3:
				panic("boom")
			}
		}}
		switch {
		case x.focus:
			FIt(x.name, args...)
		case x.pending:
			PIt(x.name, args...)
		default:
			It(x.name, args...)
		}
	}
	Describe("first", func() { leaf(specs[0]) })
	Describe("second", func() {
		for _, x := range specs[1:] {
			leaf(x)
		}
	})
	switch setup {
	case 1:
		BeforeSuite(func() { s.before++ })
	case 2:
		BeforeSuite(func() { s.before++; Fail("setup") })
	}
	if report {
		ReportAfterSuite("collect", func(r types.Report) { s.reports = append(s.reports, r) })
	}
}

// RunSpecs says, in every way it can, that the suite failed exactly when it did.
//
//verif:quick 100s
//verif:thorough 300s
//verif:bounds suites of two containers with 2 (thorough: 3) specs that pass, fail, skip, panic, are pending or focused; no, passing or failing BeforeSuite; labels of the suite and a label filter; --dry-run, --fail-on-pending, --fail-on-empty, --v; inside an editor or not
//verif:exit
//verif:reach passed failed focus editor filtered dry
func VerifC22_RunSpecs() {
	vzFresh()
	s := &vzSuite{}
	n := 2 + vf.Tier()
	specs := []vzSpec{}
	for i := 0; i < n; i++ {
		x := vzSpec{name: []string{"a", "b", "c"}[i], label: []string{"one", "two", "three"}[i]}
		switch vf.Concrete(vf.Pick("spec", 6)) {
		case 1:
			x.outcome = 1
		case 2:
			x.outcome = 2
		case 3:
			x.outcome = 3
		case 4:
			x.pending = true
		case 5:
			x.focus = true
			if vf.Bool("focused spec fails") {
				x.outcome = 1
			}
		}
		specs = append(specs, x)
	}
	setup := vf.Concrete(vf.Pick("suite setup", 3))
	s.declare(specs, setup, true)

	conf, rconf := GinkgoConfiguration()
	filter := 0
	switch vf.Concrete(vf.Pick("configuration", 7)) {
	case 1:
		conf.DryRun = true
	case 2:
		conf.FailOnPending = true
	case 3:
		conf.FailOnEmpty = true
	case 4:
		filter = 1 + vf.Concrete(vf.Pick("filter", 3))
		conf.LabelFilter = []string{"one", "suite", "!suite"}[filter-1]
	case 5:
		rconf.Verbose = true
	case 6:
		conf.FailFast = true
	}
	editor := vf.Bool("inside an editor")
	if editor {
		os.Setenv("GINKGO_EDITOR_INTEGRATION", "true")
		vf.Reach("editor")
	} else {
		os.Unsetenv("GINKGO_EDITOR_INTEGRATION")
	}

	// what is to happen
	focused := false
	for _, x := range specs {
		focused = focused || x.focus
	}
	toRun, pending := 0, false
	failed := false
	for i, x := range specs {
		pending = pending || x.pending
		if x.pending || focused && !x.focus || filter == 1 && i > 0 || filter == 3 {
			continue
		}
		specs[i].selected = true
		toRun++
		if (x.outcome == 1 || x.outcome == 3) && !conf.DryRun {
			failed = true
		}
	}
	if filter != 0 {
		vf.Reach("filtered")
	}
	if setup == 2 && toRun > 0 && !conf.DryRun {
		failed = true
	}
	if conf.FailOnPending && pending || conf.FailOnEmpty && toRun == 0 {
		failed = true
	}
	if conf.DryRun {
		vf.Reach("dry")
	}

	t := &vzT{}
	check := func() {
		vf.Assert((t.fails > 0) == failed, "the test fails exactly when the suite does")
		vf.Assert(len(s.reports) == 1, "the suite is reported once")
		r := s.reports[0]
		did, stop := 0, setup == 2 || conf.DryRun
		seen := 0
		for _, sr := range r.SpecReports {
			if !sr.LeafNodeType.Is(types.NodeTypeIt) {
				continue
			}
			seen++
			for _, x := range specs {
				if x.name != sr.LeafNodeText || !x.selected || stop {
					continue
				}
				vf.Assert(did < len(s.ran) && s.ran[did] == x.name, "the selected specs run, in the order reported")
				did++
				stop = conf.FailFast && (x.outcome == 1 || x.outcome == 3)
			}
		}
		vf.Assert(seen == n || setup == 2, "every spec is reported")
		vf.Assert(did == len(s.ran), "only selected specs run, once")
		vf.Assert(r.SuiteDescription == "the suite" && len(r.SuiteLabels) == 1 && r.SuiteLabels[0] == "suite", "the report carries the suite's description and labels")
		vf.Assert(r.SuiteSucceeded == !failed, "the report has the suite's verdict")
		vf.Assert(r.SuiteHasProgrammaticFocus == focused, "the report says whether specs are focused")
	}
	exits := !failed && focused && !editor
	vf.OnExit(func(code int) {
		vf.Assert(exits, "the process exits only when focused specs pass outside of an editor")
		vf.Assert(code == types.GINKGO_FOCUS_EXIT_CODE, "the exit code says that specs are focused")
		vf.Reach("focus")
		check()
	})
	ok := RunSpecs(t, "the suite", conf, rconf, Label("suite"))
	vf.Assert(!exits, "the process exits when focused specs pass outside of an editor")
	vf.Assert(ok == !failed, "RunSpecs returns whether the suite succeeded")
	check()
	if failed {
		vf.Reach("failed")
	} else {
		vf.Reach("passed")
	}
	vf.Observe("verdict", ok)
}

// PreviewSpecs says which specs RunSpecs is going to run, and in which order, runs nothing and changes nothing.
//
//verif:quick 100s
//verif:thorough 300s
//verif:bounds suites of two containers with 3 specs and possibly a top-level one that are pending, focused or skipped by label, focus or skip filters, BeforeSuite, AfterSuite, top-level setup and reporting nodes; all orders of containers and specs; parallel and dry-run configurations
//verif:reach run skipped pending randomized parallel twice
func VerifC22_Preview() {
	vzFresh()
	s := &vzSuite{}
	specs := []vzSpec{}
	for i := 0; i < 3; i++ {
		x := vzSpec{name: []string{"a", "b", "c"}[i], label: []string{"one", "two", "three"}[i]}
		switch vf.Concrete(vf.Pick("spec", 3)) {
		case 1:
			x.pending = true
		case 2:
			x.focus = true
		}
		specs = append(specs, x)
	}
	s.declare(specs, vf.Concrete(vf.Pick("suite setup", 2)), true)
	others := 0
	AfterSuite(func() { others++ })
	ReportBeforeSuite(func(types.Report) { others++ })
	ReportAfterEach(func(types.SpecReport) { others++ })
	// quick: one variation at a time
	vary := -1
	if vf.Tier() == 0 {
		vary = vf.Concrete(vf.Pick("variation", 5))
	}
	may := func(k int, name string) bool { return vary == k || vary < 0 && vf.Bool(name) }
	top, each := may(1, "top-level spec"), 0
	BeforeEach(func() { each++ })
	if top {
		It("top", Label("top"), func() { s.ran = append(s.ran, "top") })
	}
	conf, rconf := GinkgoConfiguration()
	filter := vf.Concrete(vf.Pick("filter", 5))
	switch filter {
	case 1:
		conf.LabelFilter = "!one"
	case 2:
		conf.LabelFilter = "!suite"
	case 3:
		conf.FocusStrings = []string{"second"}
	case 4:
		conf.SkipStrings = []string{"b"}
	}
	if vf.Bool("randomize all") {
		conf.RandomizeAllSpecs = true
		vf.Reach("randomized")
	}
	par := may(2, "parallel")
	if par {
		conf.ParallelTotal, conf.ParallelProcess, conf.ParallelHost = 3, 2, "127.0.0.1:1"
		vf.Reach("parallel")
	}
	conf.DryRun = may(3, "dry run")
	os.Setenv("GINKGO_EDITOR_INTEGRATION", "true")

	args := []any{conf, rconf, Label("suite")}
	p := PreviewSpecs("the suite", args...)
	vf.Assert(len(s.ran) == 0 && s.before == 0, "a preview runs nothing")
	c2, _ := GinkgoConfiguration()
	vf.Assert(c2.ParallelTotal == conf.ParallelTotal && c2.ParallelProcess == conf.ParallelProcess && c2.DryRun == conf.DryRun, "a preview leaves the configuration as it was")
	vf.Assert(p.SuiteDescription == "the suite" && len(p.SuiteLabels) == 1 && p.SuiteLabels[0] == "suite", "a preview carries the suite's description and labels")
	if may(4, "preview twice") {
		q := PreviewSpecs("the suite", args...)
		vf.Assert(len(q.SpecReports) == len(p.SpecReports), "a preview can be repeated")
		for i := range q.SpecReports {
			vf.Assert(q.SpecReports[i].LeafNodeText == p.SpecReports[i].LeafNodeText && q.SpecReports[i].State == p.SpecReports[i].State, "a preview can be repeated")
		}
		vf.Reach("twice")
	}
	if par { // the run itself would need the other processes
		conf.ParallelTotal, conf.ParallelProcess = 1, 1
	}
	conf.DryRun = false
	s.ran, s.reports, others, s.before = nil, nil, 0, 0
	t := &vzT{}
	ok := RunSpecs(t, "the suite", conf, rconf, Label("suite"))
	vf.Assert(ok && t.fails == 0, "the suite runs after a preview")
	vf.Assert(len(s.reports) == 1, "the suite is reported once")
	r := s.reports[0]
	vf.Assert(r.SuiteHasProgrammaticFocus == p.SuiteHasProgrammaticFocus, "a preview says whether specs are focused")
	its := func(l types.SpecReports) (out types.SpecReports) {
		for _, x := range l {
			if x.LeafNodeType.Is(types.NodeTypeIt) {
				out = append(out, x)
			}
		}
		return
	}
	n := 3
	if top {
		n++
	}
	want, got := its(p.SpecReports), its(r.SpecReports)
	vf.Assert(len(want) == n && len(got) == n, "a preview has every spec")
	k := 0
	for i := range want {
		w, g := want[i], got[i]
		vf.Assert(w.LeafNodeText == g.LeafNodeText && len(w.ContainerHierarchyTexts) == len(g.ContainerHierarchyTexts) && (w.LeafNodeText == "top") == (len(w.ContainerHierarchyTexts) == 0), "a preview has the specs in the order of the run")
		vf.Assert(len(w.LeafNodeLabels) == 1 && len(g.LeafNodeLabels) == 1 && w.LeafNodeLabels[0] == g.LeafNodeLabels[0], "a preview has the specs' labels")
		if g.State == types.SpecStatePassed {
			vf.Assert(k < len(s.ran) && s.ran[k] == g.LeafNodeText, "passed specs ran")
			k++
		}
		switch {
		case w.State.Is(types.SpecStatePending):
			vf.Reach("pending")
			vf.Assert(g.State == types.SpecStatePending, "specs previewed as pending are pending")
		case w.State.Is(types.SpecStateSkipped):
			vf.Reach("skipped")
			vf.Assert(g.State == types.SpecStateSkipped, "specs previewed as skipped are skipped")
		default:
			vf.Reach("run")
			vf.Assert(w.State == types.SpecStatePassed && g.State == types.SpecStatePassed, "specs previewed as to be run run")
		}
	}
	vf.Assert(k == len(s.ran), "only reported specs ran")
	suites := 1
	if k > 0 {
		suites = 2
	}
	vf.Assert(others == suites+n && each == k, "the other nodes run after a preview")
	vf.Observe("ran", k)
}

// Misuse is reported, with exit code 1 and before anything runs.
//
//verif:quick 60s
//verif:thorough 60s
//verif:bounds running a suite twice, unknown arguments, single unsound settings, nested misuse of the tree
//verif:exit
//verif:reach exit fine
func VerifC22_Misuse() {
	vzFresh()
	s := &vzSuite{}
	s.declare([]vzSpec{{name: "a", label: "x"}, {name: "b", label: "y"}}, 1, false)
	conf, rconf := GinkgoConfiguration()
	args := []any{}
	bad := true
	again := false
	switch vf.Concrete(vf.Pick("misuse", 10)) {
	case 0:
		bad = false
	case 1:
		again = true
	case 2:
		args = append(args, "a text")
	case 3:
		args = append(args, Label("l"), 5)
	case 4:
		conf.LabelFilter = "("
	case 5:
		conf.ParallelProcess = 2
	case 6:
		conf.ParallelTotal = 2
	case 7:
		rconf.Succinct, rconf.Verbose = true, true
	case 8:
		conf.OutputInterceptorMode = "other"
	case 9:
		conf.FocusFiles = []string{"a:b:c"}
	}
	args = append(args, conf, rconf)
	preview := !again && vf.Bool("preview")
	os.Setenv("GINKGO_EDITOR_INTEGRATION", "true")
	ran := 0
	vf.OnExit(func(code int) {
		vf.Reach("exit")
		vf.Assert(bad, "only misuse ends the process")
		vf.Assert(code == 1, "misuse ends the process with exit code 1")
		vf.Assert(len(s.ran) == ran && s.before <= 1, "nothing runs after misuse")
	})
	t := &vzT{}
	if preview {
		PreviewSpecs("suite", args...)
		vf.Assert(!bad, "misuse ends the process")
		return
	}
	RunSpecs(t, "suite", args...)
	if again {
		ran = 2
		RunSpecs(t, "suite again", args...)
	}
	vf.Assert(!bad, "misuse ends the process")
	vf.Assert(t.fails == 0 && len(s.ran) == 2, "a sound suite runs")
	vf.Reach("fine")
}
