package ginkgo

import (
	"runtime"
	"strconv"
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// vzLine is the line it is called on.
func vzLine() int {
	_, _, line, _ := runtime.Caller(1)
	return line
}

// vzPlace is a use of ginkgo from a function called by a function called by the user's.
type vzPlace struct {
	op      int
	skip    int    // the offset asked for
	given   bool   // whether one is given
	helper  [2]int // how the functions are marked as helpers, 0: not
	at      [3]int // the lines of the use and of the calls that lead to it
	callers []any
}

var vzWhere *vzPlace

// here notes where ginkgo is used.
func (p *vzPlace) here(line int) string {
	p.at[0] = line
	return "here"
}

func (p *vzPlace) fn(line int) func() {
	p.at[0] = line
	return func() {}
}

// want is the line ginkgo is to report.
func (p *vzPlace) want() int {
	for k := p.skip; k < 2; k++ {
		if p.helper[k] == 0 {
			return p.at[k]
		}
	}
	return p.at[2]
}

func (p *vzPlace) skips(base int) []int {
	if !p.given {
		return nil
	}
	return []int{base + p.skip}
}

func (p *vzPlace) args(args ...any) []any {
	if p.given {
		args = append(args, Offset(p.skip))
	}
	return args
}

func vzMark() { types.MarkAsHelper(1) }

func vzOuter() {
	vzMid(vzLine())
}

func vzMid(line int) {
	p := vzWhere
	switch p.helper[1] {
	case 1:
		GinkgoHelper()
	case 2:
		GinkgoT().Helper()
	case 3:
		GinkgoTB().Helper()
	case 4:
		vzMark()
	}
	p.at[2] = line
	vzInner(vzLine())
}

func vzInner(line int) {
	p := vzWhere
	switch p.helper[0] {
	case 1:
		GinkgoHelper()
	case 2:
		GinkgoT().Helper()
	case 3:
		GinkgoTB().Helper()
	case 4:
		vzMark()
	}
	p.at[1] = line
	switch p.op {
	case 0:
		Fail(p.here(vzLine()), p.skips(0)...)
	case 1:
		Skip(p.here(vzLine()), p.skips(0)...)
	case 2:
		AbortSuite(p.here(vzLine()), p.skips(0)...)
	case 3:
		GinkgoT(p.skips(1)...).Error(p.here(vzLine()))
	case 4:
		GinkgoT(p.skips(1)...).Errorf(p.here(vzLine()))
	case 5:
		GinkgoT(p.skips(1)...).Fatal(p.here(vzLine()))
	case 6:
		GinkgoT(p.skips(1)...).Fatalf(p.here(vzLine()))
	case 7:
		GinkgoT(p.skips(1)...).Skip(p.here(vzLine()))
	case 8:
		GinkgoT(p.skips(1)...).Skipf(p.here(vzLine()))
	case 9:
		p.fn(vzLine() + 1)
		GinkgoT(p.skips(1)...).FailNow()
	case 10:
		p.fn(vzLine() + 1)
		GinkgoT(p.skips(1)...).Fail()
	case 11:
		p.fn(vzLine() + 1)
		GinkgoT(p.skips(1)...).SkipNow()
	case 12:
		GinkgoTB(p.skips(2)...).Error(p.here(vzLine()))
	case 13:
		GinkgoTB(p.skips(2)...).Errorf(p.here(vzLine()))
	case 14:
		GinkgoTB(p.skips(2)...).Fatal(p.here(vzLine()))
	case 15:
		GinkgoTB(p.skips(2)...).Fatalf(p.here(vzLine()))
	case 16:
		GinkgoTB(p.skips(2)...).Skip(p.here(vzLine()))
	case 17:
		GinkgoTB(p.skips(2)...).Skipf(p.here(vzLine()))
	case 18:
		p.fn(vzLine() + 1)
		GinkgoTB(p.skips(2)...).FailNow()
	case 19:
		p.fn(vzLine() + 1)
		GinkgoTB(p.skips(2)...).Fail()
	case 20:
		p.fn(vzLine() + 1)
		GinkgoTB(p.skips(2)...).SkipNow()
	case 21:
		AddReportEntry(p.here(vzLine()), p.args()...)
	case 22:
		GinkgoT().AddReportEntryVisibilityAlways(p.here(vzLine()))
	case 23:
		GinkgoT().AddReportEntryVisibilityFailureOrVerbose(p.here(vzLine()))
	case 24:
		GinkgoT().AddReportEntryVisibilityNever(p.here(vzLine()))
	case 25:
		By(p.here(vzLine()))
	case 26:
		By(p.here(vzLine()), func() {})
	case 27:
		DeferCleanup(p.args(p.fn(vzLine()))...)
	case 28:
		GinkgoT().Cleanup(p.fn(vzLine()))
	case 29:
		GinkgoT().DeferCleanup(p.fn(vzLine()))
	case 30:
		GinkgoT().Setenv("VF_HERE", p.here(vzLine()))
	case 31:
		p.fn(vzLine() + 1)
		GinkgoT().Context()
	case 32:
		p.fn(vzLine() + 1)
		GinkgoT().TempDir()
	case 33:
		GinkgoTB().Cleanup(p.fn(vzLine()))
	case 34:
		GinkgoTB().Setenv("VF_HERE", p.here(vzLine()))
	case 35:
		p.fn(vzLine() + 1)
		GinkgoTB().Context()
	case 36:
		p.fn(vzLine() + 1)
		GinkgoTB().TempDir()
	case 37:
		It(p.here(vzLine()), p.args(func() {})...)
	case 38:
		FIt(p.here(vzLine()), p.args(func() {})...)
	case 39:
		PIt(p.here(vzLine()), p.args()...)
	case 40:
		Describe(p.here(vzLine()), p.args(func() { It("spec", func() {}) })...)
	case 41:
		FContext(p.here(vzLine()), p.args(func() { It("spec", func() {}) })...)
	case 42:
		PWhen(p.here(vzLine()), p.args(func() { It("spec", func() {}) })...)
	case 43:
		BeforeEach(p.args(p.fn(vzLine()))...)
	case 44:
		JustBeforeEach(p.args(p.fn(vzLine()))...)
	case 45:
		AfterEach(p.args(p.fn(vzLine()))...)
	case 46:
		JustAfterEach(p.args(p.fn(vzLine()))...)
	case 47:
		BeforeAll(p.args(p.fn(vzLine()))...)
	case 48:
		AfterAll(p.args(p.fn(vzLine()))...)
	case 49:
		p.fn(vzLine() + 1)
		ReportBeforeEach(func(SpecReport) {}, p.args()...)
	case 50:
		p.fn(vzLine() + 1)
		ReportAfterEach(func(SpecReport) {}, p.args()...)
	case 51:
		DescribeTable(p.here(vzLine()), func(int) {}, Entry("spec", 1))
	case 52:
		FDescribeTable(p.here(vzLine()), func(int) {}, Entry("spec", 1))
	case 53:
		DescribeTableSubtree(p.here(vzLine()), func(int) { It("spec", func() {}) }, Entry("entry", 1))
	case 54:
		p.callers = []any{Entry(p.here(vzLine()), p.args(1)...)}
	case 55:
		p.callers = []any{FEntry(p.here(vzLine()), p.args(1)...)}
	case 56:
		p.callers = []any{PEntry(p.here(vzLine()), p.args(1)...)}
	case 57:
		BeforeSuite(p.fn(vzLine()), p.args()...)
	case 58:
		AfterSuite(p.fn(vzLine()), p.args()...)
	case 59:
		p.fn(vzLine() + 1)
		SynchronizedBeforeSuite(func() []byte { return nil }, func([]byte) {}, p.args()...)
	case 60:
		SynchronizedAfterSuite(func() {}, p.fn(vzLine()), p.args()...)
	case 61:
		p.fn(vzLine() + 1)
		ReportBeforeSuite(func(Report) {}, p.args()...)
	case 62:
		p.fn(vzLine() + 1)
		ReportAfterSuite("here", func(Report) {}, p.args()...)
	}
}

func vzPlaces(op int, skips bool) *vzPlace {
	p := &vzPlace{op: op}
	vzWhere = p
	if skips && vf.Bool("offset given") {
		p.given = true
		p.skip = vf.Concrete(vf.Pick("offset", 3))
		vf.Reach("offset")
	}
	for k := range p.helper {
		p.helper[k] = vf.Concrete(vf.Pick("helper", 5))
		if p.helper[k] > 0 {
			vf.Reach("helper")
		}
	}
	return p
}

func vzNear(p *vzPlace, cl types.CodeLocation, what string) {
	_, file, _, _ := runtime.Caller(0)
	vf.Assertf(cl.FileName == file && cl.LineNumber == p.want(), what+": got %s:%d, want line %d", cl.FileName, cl.LineNumber, p.want())
}

// Wherever a spec fails, skips, aborts the suite, begins a step, adds an entry to the report or registers a cleanup, what
// is reported of it is located at the line of the user's that asked for it, past helpers and as far up as asked for.
//
//verif:quick 100s
//verif:thorough 300s
//verif:bounds a use of Fail, Skip, AbortSuite, the failing and skipping functions of GinkgoT and GinkgoTB, AddReportEntry, By, DeferCleanup and what registers a cleanup, in a function called by a function called by the spec, each marked as a helper or not (in any of four ways), with an offset of 0..2 or none, from the spec's goroutine or another
//verif:reach failure skipped aborted entry step cleanup offset helper goroutine
func VerifC30_Specs() {
	vzFresh()
	vf.Frames(true)
	op := vf.Concrete(vf.Pick("use", 37))
	p := vzPlaces(op, op <= 21 || op == 27)
	other := op <= 20 && vf.Bool("another goroutine")
	It("spec", func() {
		if !other {
			vzOuter()
			return
		}
		vf.Reach("goroutine")
		done := make(chan bool)
		go func() {
			defer close(done)
			defer GinkgoRecover()
			vzOuter()
		}()
		<-done
	})
	rep, _, _ := vzRunGlobal(suiteConfig)
	vf.Assert(len(rep.did) == 1, "the spec is reported")
	r := rep.did[0]
	switch {
	case op <= 20:
		state := types.SpecStateFailed
		switch op {
		case 1, 7, 8, 11, 16, 17, 20:
			state = types.SpecStateSkipped
			vf.Reach("skipped")
		case 2:
			state = types.SpecStateAborted
			vf.Reach("aborted")
		default:
			vf.Reach("failure")
		}
		vf.Assert(r.State == state, "the spec ends as it asked to")
		vzNear(p, r.Failure.Location, "a failure is located where the user's code failed")
		stack := strings.Split(r.Failure.Location.FullStackTrace, "\n")
		vf.Assert(len(stack) > 1 && strings.Contains(stack[1], "zz_verif_c30.go:"+strconv.Itoa(p.at[p.skip])+" "), "its stack trace begins with the call asked for")
	case op <= 24:
		vf.Reach("entry")
		vf.Assert(len(r.ReportEntries) == 1, "the entry is reported")
		vzNear(p, r.ReportEntries[0].Location, "a report entry is located where the user's code added it")
	case op <= 26:
		vf.Reach("step")
		n := 0
		for _, e := range r.SpecEvents {
			if e.SpecEventType == types.SpecEventByStart || e.SpecEventType == types.SpecEventByEnd {
				n++
				vzNear(p, e.CodeLocation, "a step is located where the user's code began it")
			}
		}
		vf.Assert(n == op-24, "the step is reported")
	default:
		vf.Reach("cleanup")
		n := 0
		for _, e := range r.SpecEvents {
			if e.NodeType == types.NodeTypeCleanupAfterEach && e.SpecEventType == types.SpecEventNodeStart {
				n++
				vzNear(p, e.CodeLocation, "a cleanup is located where the user's code registered it")
			}
		}
		vf.Assert(n == 1, "the cleanup is reported")
	}
}

// Whatever node is declared, it is located at the line of the user's that declares it, past helpers and as far up as asked for.
//
//verif:quick 100s
//verif:thorough 300s
//verif:bounds each kind of container, spec, setup, teardown, reporting and suite node, table and entry, declared in a function called by a function called by the user's, each marked as a helper or not (in any of four ways), with an offset of 0..2 or none
//verif:reach spec container setup table entry suite offset helper
func VerifC30_Nodes() {
	vzFresh()
	vf.Frames(true)
	op := 37 + vf.Concrete(vf.Pick("node", 26))
	p := vzPlaces(op, op < 51 || op > 56)
	switch {
	case op <= 42 || op >= 51 && op <= 53:
		vzOuter()
	case op <= 50:
		Describe("container", Ordered, func() {
			vzOuter()
			It("spec", func() {})
		})
	case op <= 56:
		vzOuter()
		DescribeTable("table", append([]any{func(int) {}}, p.callers...)...)
	default:
		vzOuter()
		It("spec", func() {})
	}
	rep, _, _ := vzRunGlobal(suiteConfig)
	var spec, suite types.SpecReport
	for _, r := range rep.did {
		if r.LeafNodeType.Is(types.NodeTypeIt) {
			spec = r
		} else {
			suite = r
		}
	}
	const text = "a node is located where the user's code declares it"
	switch {
	case op <= 39:
		vf.Reach("spec")
		vzNear(p, spec.LeafNodeLocation, text)
	case op <= 42:
		vf.Reach("container")
		vzNear(p, spec.ContainerHierarchyLocations[0], text)
	case op <= 50:
		vf.Reach("setup")
		n := 0
		for _, e := range spec.SpecEvents {
			if e.SpecEventType == types.SpecEventNodeStart && !e.NodeType.Is(types.NodeTypeIt) {
				n++
				vzNear(p, e.CodeLocation, text)
			}
		}
		vf.Assert(n == 1 || op == 50 && n == 0, "the node is reported")
	case op <= 53:
		vf.Reach("table")
		vzNear(p, spec.ContainerHierarchyLocations[0], text)
	case op <= 56:
		vf.Reach("entry")
		vzNear(p, spec.LeafNodeLocation, text)
	default:
		vf.Reach("suite")
		vzNear(p, suite.LeafNodeLocation, text)
	}
}
