package internal

import (
	"context"
	"io"
	"sync"

	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

// vzReporter records what the suite reports.
type vzReporter struct {
	reporters.NoopReporter
	begin   []types.Report
	will    []types.SpecReport
	did     []types.SpecReport
	end     []types.Report
	entries []types.ReportEntry
	events  []types.SpecEvent
	fails   []types.Failure
	order   []string
	mu      sync.Mutex

	onProgress func(types.ProgressReport)
	next       reporters.Reporter // told everything as well
}

func (r *vzReporter) EmitProgressReport(report types.ProgressReport) {
	if r.onProgress != nil {
		r.onProgress(report)
	}
	if r.next != nil {
		r.next.EmitProgressReport(report)
	}
}

func (r *vzReporter) SuiteWillBegin(report types.Report) {
	r.begin = append(r.begin, report)
	r.order = append(r.order, "begin")
	if r.next != nil {
		r.next.SuiteWillBegin(report)
	}
}
func (r *vzReporter) WillRun(report types.SpecReport) {
	r.will = append(r.will, report)
	r.order = append(r.order, "will")
	if r.next != nil {
		r.next.WillRun(report)
	}
}
func (r *vzReporter) DidRun(report types.SpecReport) {
	r.did = append(r.did, report)
	r.order = append(r.order, "did")
	if r.next != nil {
		r.next.DidRun(report)
	}
}
func (r *vzReporter) SuiteDidEnd(report types.Report) {
	r.end = append(r.end, report)
	r.order = append(r.order, "end")
	if r.next != nil {
		r.next.SuiteDidEnd(report)
	}
}
func (r *vzReporter) EmitFailure(state types.SpecState, failure types.Failure) {
	r.mu.Lock()
	r.fails = append(r.fails, failure)
	r.mu.Unlock()
	if r.next != nil {
		r.next.EmitFailure(state, failure)
	}
}
func (r *vzReporter) EmitReportEntry(entry types.ReportEntry) {
	r.mu.Lock()
	r.entries = append(r.entries, entry)
	r.mu.Unlock()
	if r.next != nil {
		r.next.EmitReportEntry(entry)
	}
}
func (r *vzReporter) EmitSpecEvent(event types.SpecEvent) {
	r.mu.Lock()
	r.events = append(r.events, event)
	r.mu.Unlock()
	if r.next != nil {
		r.next.EmitSpecEvent(event)
	}
}

// vzInterrupts is an interrupt handler whose status the harness controls.
type vzInterrupts struct {
	level interrupt_handler.InterruptLevel
	cause interrupt_handler.InterruptCause
	c     chan any
}

func (i *vzInterrupts) Status() interrupt_handler.InterruptStatus {
	return interrupt_handler.InterruptStatus{Channel: i.c, Level: i.level, Cause: i.cause}
}

func (i *vzInterrupts) raise(cause interrupt_handler.InterruptCause) {
	if i.level < interrupt_handler.InterruptLevelBailOut {
		i.level++
	}
	i.cause = cause
	close(i.c)
	i.c = make(chan any)
}

const (
	vzPass = iota
	vzFail
	vzPanic
	vzSkip
	vzAbort
)

type vzWorld struct {
	suite    *Suite
	failer   *Failer
	rep      *vzReporter
	ih       *vzInterrupts
	conf     types.SuiteConfig
	client   parallel_support.Client
	icept    OutputInterceptor
	out      io.Writer
	stream   bool // whether the writer streams
	w        *Writer
	log      []string       // the nodes that ran, in order
	outcome  map[string]int // the outcome each node had on its last run
	allowed  map[string][]int
	fallback []int
	maxBad   int // at most this many node runs do not pass (0: any number)
	bad      int
	succ     bool
	focus    bool
	labels   Labels
	signal   func(func()) // told what to call to ask for a progress report
}

func vzNewWorld(fallback ...int) *vzWorld {
	w := &vzWorld{
		suite:    NewSuite(),
		failer:   NewFailer(),
		rep:      &vzReporter{},
		ih:       &vzInterrupts{c: make(chan any)},
		conf:     types.SuiteConfig{ParallelTotal: 1, ParallelProcess: 1, RandomSeed: vf.Seed("seed")},
		icept:    NoopOutputInterceptor{},
		out:      io.Discard,
		outcome:  map[string]int{},
		allowed:  map[string][]int{},
		fallback: fallback,
	}
	return w
}

// pick decides how a node run ends.
func (w *vzWorld) pick(name string) int {
	opts := w.allowed[name]
	if opts == nil {
		opts = w.fallback
	}
	if len(opts) == 0 {
		return vzPass
	}
	if w.maxBad > 0 && w.bad >= w.maxBad {
		return opts[0]
	}
	o := opts[vf.Pick("outcome of "+name, len(opts))]
	if o != opts[0] {
		w.bad++
	}
	return o
}

func (w *vzWorld) conclude(name string, o int) {
	w.outcome[name] = o
	cl := types.CodeLocation{FileName: "fail_test.go", LineNumber: 1}
	switch o {
	case vzFail:
		w.failer.Fail("fail "+name, cl)
		panic("ginkgo panic")
	case vzPanic:
		panic("boom " + name)
	case vzSkip:
		w.failer.Skip("skip "+name, cl)
		panic("ginkgo panic")
	case vzAbort:
		w.failer.AbortSuite("abort "+name, cl)
		panic("ginkgo panic")
	}
}

func (w *vzWorld) body(name string) func() {
	return func() {
		w.log = append(w.log, name)
		w.conclude(name, w.pick(name))
	}
}

func (w *vzWorld) push(n Node, errs []error) {
	vf.Assert(len(errs) == 0, "a valid node declaration is accepted")
	err := w.suite.PushNode(n)
	vf.Assert(err == nil, "a valid node is accepted into the tree")
}

func (w *vzWorld) add(t types.NodeType, name string, args ...any) {
	args = append([]any{types.CodeLocation{FileName: "file_test.go", LineNumber: 1}}, args...)
	n, errs := NewNode(nil, t, name, args...)
	w.push(n, errs)
}

// run builds the tree and runs the suite.
func (w *vzWorld) run() {
	err := w.suite.BuildTree()
	vf.Assert(err == nil, "a valid tree is built")
	w.w = NewWriter(w.out)
	if !w.stream {
		w.w.SetMode(WriterModeBufferOnly)
	}
	w.succ, w.focus = w.suite.Run("suite", w.labels, "/suite", w.failer, w.rep, w.w, w.icept, w.ih, w.client, func(ask func()) context.CancelFunc {
		if w.signal != nil {
			w.signal(ask)
		}
		return func() {}
	}, w.conf)
}

func (w *vzWorld) report(text string) types.SpecReport {
	for _, r := range w.rep.did {
		if r.LeafNodeText == text && r.LeafNodeType.Is(types.NodeTypeIt) {
			return r
		}
	}
	return types.SpecReport{}
}

func vzJoin(l []string) string {
	s := ""
	for i := range l {
		if i > 0 {
			s += " "
		}
		s += l[i]
	}
	return s
}

var vzStates = []types.SpecState{types.SpecStatePassed, types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateSkipped, types.SpecStateAborted}
