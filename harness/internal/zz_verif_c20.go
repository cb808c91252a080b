package internal

import (
	"context"
	"time"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

type vzTypeTraits struct {
	t         types.NodeType
	container bool // container
	spec      bool // It
	each      bool // BeforeEach, JustBeforeEach, AfterEach or JustAfterEach
	body      int  // 0 func([ctx]), 1 func([ctx,] SpecReport), 2 func([ctx,] Report), 3 two for SynchronizedBeforeSuite, 4 two for SynchronizedAfterSuite
}

var vzAllTypes = []vzTypeTraits{
	{t: types.NodeTypeContainer, container: true},
	{t: types.NodeTypeIt, spec: true},
	{t: types.NodeTypeBeforeEach, each: true},
	{t: types.NodeTypeJustBeforeEach, each: true},
	{t: types.NodeTypeAfterEach, each: true},
	{t: types.NodeTypeJustAfterEach, each: true},
	{t: types.NodeTypeBeforeAll},
	{t: types.NodeTypeAfterAll},
	{t: types.NodeTypeBeforeSuite},
	{t: types.NodeTypeAfterSuite},
	{t: types.NodeTypeCleanupInvalid},
	{t: types.NodeTypeReportBeforeEach, body: 1},
	{t: types.NodeTypeReportAfterEach, body: 1},
	{t: types.NodeTypeReportBeforeSuite, body: 2},
	{t: types.NodeTypeReportAfterSuite, body: 2},
	{t: types.NodeTypeSynchronizedBeforeSuite, body: 3},
	{t: types.NodeTypeSynchronizedAfterSuite, body: 4},
}

// vzDeco is what a declaration's decorators ask for.
type vzDeco struct {
	focus, pending, serial, ordered, cof, once bool
	flake, must                                int
	after, interval, nodeTO, specTO, grace     time.Duration
	labels                                     []string
	bad, withTimeout                           bool
}

type vzUnknown struct{ a int }

func (d *vzDeco) add(tr vzTypeTraits, k int) any {
	cs := tr.container || tr.spec
	need := func(ok bool) {
		if !ok {
			d.bad = true
		}
	}
	switch k {
	case 0:
		need(cs)
		d.focus = true
		return Focus
	case 1:
		need(cs)
		d.pending = true
		return Pending
	case 2:
		need(cs)
		d.serial = true
		return Serial
	case 3:
		need(tr.container)
		d.ordered = true
		return Ordered
	case 4:
		need(tr.container)
		d.cof = true
		return ContinueOnFailure
	case 5:
		need(tr.each)
		d.once = true
		return OncePerOrdered
	case 6:
		need(cs)
		d.flake = 3
		return FlakeAttempts(3)
	case 7:
		need(cs)
		d.must = 2
		return MustPassRepeatedly(2)
	case 8:
		need(!tr.container)
		d.after = 0
		return PollProgressAfter(0)
	case 9:
		need(!tr.container)
		d.interval = 7
		return PollProgressInterval(7)
	case 10:
		need(!tr.container)
		d.nodeTO, d.withTimeout = 4, true
		return NodeTimeout(4)
	case 11:
		need(tr.spec)
		d.specTO, d.withTimeout = 5, true
		return SpecTimeout(5)
	case 12:
		need(!tr.container)
		d.grace, d.withTimeout = 6, true
		return GracePeriod(6)
	case 13:
		need(cs)
		d.labels = append(d.labels, "one", "two")
		return Labels{" one", "two "}
	case 14:
		need(false)
		return Labels{"ok", []string{"", "  ", "a,b", "a&b", "a|b", "!a", "(a", "a)", "a/", ":a", "a:"}[vf.Concrete(vf.Pick("invalid label", 11))]}
	case 15:
		need(false)
		return vzUnknown{3}
	case 16:
		need(cs)
		d.labels = append(d.labels, "k:v:w")
		return []any{Labels{"k:v:w"}}
	case 17:
		need(cs)
		d.focus = true
		d.flake = 3
		return []any{[]any{Focus}, []any{FlakeAttempts(3)}}
	case 18:
		return SuppressProgressReporting
	}
	need(false)
	return "a text"
}

// A declaration is accepted exactly when the documentation allows its decorators and functions on that kind of node,
// and then the node carries every one of them.
//
//verif:quick 60s
//verif:thorough 300s
//verif:bounds all 17 kinds of node with up to 2 (thorough: 3) of 20 decorators (including nested lists, invalid labels and things that are no decorator) before or after the function; no function, two functions, or one of all accepted and several unaccepted signatures
//verif:reach accepted rejected context
func VerifC20_NewNode() {
	tr := vzAllTypes[vf.Concrete(vf.Pick("kind of node", len(vzAllTypes)))]
	d := vzDeco{after: -1, interval: -1, grace: -1}
	args := []any{}
	n := vf.Concrete(vf.Pick("decorators", 3+vf.Tier()))
	last := -1
	for i := 0; i < n; i++ {
		k := vf.Concrete(vf.Pick("decorator", 20))
		vf.Assume(k > last)
		last = k
		args = append(args, d.add(tr, k))
	}
	if n >= 2 && vf.Bool("other order") {
		args[0], args[n-1] = args[n-1], args[0]
		if len(d.labels) == 3 {
			d.labels = []string{"k:v:w", "one", "two"}
		}
	}

	// the function
	ran := 0
	var gotCtx any
	var gotBytes []byte
	var gotReport string
	context_, missing := false, false
	ctx := NewSpecContext(nil)
	var body []any
	plain := func(which int) any {
		switch which {
		case 0:
			return func() { ran++ }
		case 1:
			context_ = true
			return func(c SpecContext) { ran++; gotCtx = c }
		case 2:
			context_ = true
			return func(c context.Context) { ran++; gotCtx = c }
		case 3:
			d.bad = true
			return func() int { ran++; return 1 }
		case 4:
			d.bad = true
			return func(int) { ran++ }
		}
		d.bad = true
		return func(SpecContext, int) { ran++ }
	}
	switch tr.body {
	case 0:
		k := vf.Concrete(vf.Pick("function", 8))
		switch k {
		case 6:
			missing = true
		case 7:
			body = []any{func() { ran++ }, func() {}}
			d.bad = true
		default:
			body = []any{plain(k)}
			if tr.container && k != 0 {
				d.bad = true
			}
		}
	case 1:
		switch vf.Concrete(vf.Pick("function", 3)) {
		case 0:
			body = []any{func(r types.SpecReport) { ran++; gotReport = r.LeafNodeText }}
		case 1:
			context_ = true
			body = []any{func(c SpecContext, r types.SpecReport) { ran++; gotCtx = c; gotReport = r.LeafNodeText }}
		case 2:
			body = []any{func(r types.SpecReport) {}, func(r types.SpecReport) {}}
			d.bad = true
		}
	case 2:
		switch vf.Concrete(vf.Pick("function", 3)) {
		case 0:
			body = []any{func(r types.Report) { ran++; gotReport = r.SuiteDescription }}
		case 1:
			context_ = true
			body = []any{func(c SpecContext, r types.Report) { ran++; gotCtx = c; gotReport = r.SuiteDescription }}
		case 2:
			body = []any{func(r types.Report) {}, func(r types.Report) {}}
			d.bad = true
		}
	case 3:
		first := vf.Concrete(vf.Pick("first function", 6))
		switch first {
		case 0:
			body = append(body, func() { ran++ })
		case 1:
			body = append(body, func() []byte { ran++; return []byte("data") })
		case 2:
			context_ = true
			body = append(body, func(c SpecContext) []byte { ran++; gotCtx = c; return []byte("data") })
		case 3:
			context_ = true
			body = append(body, func(c context.Context) { ran++; gotCtx = c })
		case 4:
			d.bad = true
			body = append(body, func() string { return "" })
		case 5:
			d.bad = true
			body = append(body, func(int) []byte { return nil })
		}
		switch vf.Concrete(vf.Pick("second function", 8)) {
		case 0:
			body = append(body, func() { ran++ })
		case 1:
			body = append(body, func(b []byte) { ran++; gotBytes = b })
		case 2:
			context_ = true
			body = append(body, func(c SpecContext, b []byte) { ran++; gotCtx = c; gotBytes = b })
		case 3:
			context_ = true
			body = append(body, func(c context.Context) { ran++; gotCtx = c })
		case 4:
			d.bad = true
			body = append(body, func(b string) {})
		case 5:
			d.bad = true
			body = append(body, func() int { return 0 })
		case 6:
			d.bad = true // missing
		case 7:
			d.bad = true
			body = append(body, func() {}, func() {})
		}
	case 4:
		body = append(body, plain(vf.Concrete(vf.Pick("first function", 6))))
		switch vf.Concrete(vf.Pick("second function", 5)) {
		case 0:
			body = append(body, func() { ran++ })
		case 1:
			context_ = true
			body = append(body, func(c SpecContext) { ran++; gotCtx = c })
		case 2:
			d.bad = true
		case 3:
			d.bad = true
			body = append(body, func(string) {})
		case 4:
			d.bad = true
			body = append(body, func() {}, func() {})
		}
	}
	if (n < 2 || vf.Tier() > 0) && vf.Bool("function first") {
		args = append(append([]any{}, body...), args...)
	} else {
		args = append(args, body...)
	}

	want := !d.bad && !(d.focus && d.pending) && !(d.cof && !d.ordered) && !(d.flake > 0 && d.must > 0) && !(missing && !d.pending)
	if want && d.withTimeout && !context_ {
		want = false
	}
	cl := types.CodeLocation{FileName: "some_test.go", LineNumber: 12}
	node, errs := NewNode(types.NewDeprecationTracker(), tr.t, "the text", append(args, cl)...)
	vf.Observe("errors", len(errs))
	if !want {
		vf.Reach("rejected")
		vf.Assert(len(errs) > 0, "a declaration that the documentation does not allow is rejected")
		return
	}
	vf.Reach("accepted")
	vf.Assert(len(errs) == 0, "a declaration that the documentation allows is accepted")
	vf.Assert(node.NodeType == tr.t && node.Text == "the text" && node.CodeLocation.LineNumber == 12 && node.CodeLocation.FileName == "some_test.go" && node.ID > 0, "a node has its kind, text and location")
	vf.Assert(node.MarkedFocus == d.focus && node.MarkedPending == d.pending && node.MarkedSerial == d.serial && node.MarkedOrdered == d.ordered &&
		node.MarkedContinueOnFailure == d.cof && node.MarkedOncePerOrdered == d.once, "a node carries its decorators")
	vf.Assert(node.FlakeAttempts == d.flake && node.MustPassRepeatedly == d.must, "a node carries its attempts")
	vf.Assert(node.PollProgressAfter == d.after && node.PollProgressInterval == d.interval && node.NodeTimeout == d.nodeTO && node.SpecTimeout == d.specTO && node.GracePeriod == d.grace, "a node carries its durations")
	labels, serial := []string{}, 0
	for _, l := range node.Labels {
		if l == "Serial" {
			serial++
		} else {
			labels = append(labels, l)
		}
	}
	vf.Assert((serial > 0) == d.serial && len(labels) == len(d.labels), "a node carries its labels")
	for i := range labels {
		vf.Assert(labels[i] == d.labels[i], "a node carries its labels")
	}

	// the function is the one given, called with what it asks for
	wantRuns := 1
	switch {
	case missing:
		wantRuns = 0
	case tr.body == 0:
		vf.Assert(node.HasContext == context_, "a node knows whether its function takes a context")
		node.Body(ctx)
	case tr.body == 1:
		vf.Assert(node.HasContext == context_, "a node knows whether its function takes a context")
		node.ReportEachBody(ctx, types.SpecReport{LeafNodeText: "leaf"})
		vf.Assert(gotReport == "leaf", "a reporting function gets the report")
	case tr.body == 2:
		vf.Assert(node.HasContext == context_, "a node knows whether its function takes a context")
		node.ReportSuiteBody(ctx, types.Report{SuiteDescription: "suite"})
		vf.Assert(gotReport == "suite", "a reporting function gets the report")
	case tr.body == 3:
		wantRuns = 2
		out := node.SynchronizedBeforeSuiteProc1Body(ctx)
		node.SynchronizedBeforeSuiteAllProcsBody(ctx, []byte("sent"))
		vf.Assert(string(out) == "data" || len(out) == 0, "the first function's data is kept")
		vf.Assert(gotBytes == nil || string(gotBytes) == "sent", "the second function gets the data")
		vf.Assert((node.SynchronizedBeforeSuiteProc1BodyHasContext || node.SynchronizedBeforeSuiteAllProcsBodyHasContext) == context_, "a node knows whether its function takes a context")
	case tr.body == 4:
		wantRuns = 2
		node.SynchronizedAfterSuiteAllProcsBody(ctx)
		vf.Assert(ran == 1, "both functions are kept")
		node.SynchronizedAfterSuiteProc1Body(ctx)
		vf.Assert((node.SynchronizedAfterSuiteAllProcsBodyHasContext || node.SynchronizedAfterSuiteProc1BodyHasContext) == context_, "a node knows whether its function takes a context")
	}
	vf.Assert(ran == wantRuns, "a node runs the function it was declared with")
	if context_ && !missing {
		vf.Reach("context")
		vf.Assert(gotCtx == any(ctx), "a function that takes a context gets the spec's context")
	}
}

func vzAnyNode(tr vzTypeTraits, text string, body func(), deco ...any) Node {
	cl := types.CodeLocation{FileName: "file_test.go", LineNumber: 3}
	args := append([]any{cl}, deco...)
	switch tr.body {
	case 0:
		args = append(args, body)
	case 1:
		args = append(args, func(types.SpecReport) { body() })
	case 2:
		args = append(args, func(types.Report) { body() })
	case 3:
		args = append(args, body, func() {})
	case 4:
		args = append(args, func() {}, body)
	}
	n, errs := NewNode(types.NewDeprecationTracker(), tr.t, text, args...)
	vf.Assert(len(errs) == 0, "a valid node declaration is accepted")
	return n
}

// Where a node may be declared: containers, specs and setup nodes anywhere but while specs run, BeforeAll and AfterAll
// only inside an Ordered container, suite nodes only at the top level and only one before and one after the suite,
// Serial inside an Ordered container only if that container is Serial, ContinueOnFailure only on an outermost Ordered
// container, cleanups never while the tree is built. What is accepted is in the tree where it was declared.
//
//verif:quick 60s
//verif:thorough 200s
//verif:bounds a node of every kind, with or without Serial, Ordered and ContinueOnFailure, declared at the top level or in one or two containers with every combination of the same decorators, with or without suite nodes before it, in a container that may panic afterwards
//verif:reach accepted rejected panics
func VerifC20_Tree() {
	s := NewSuite()
	type flags struct{ ordered, serial, cof bool }
	pick := func(tr vzTypeTraits) (flags, []any) {
		f, d := flags{}, []any{}
		if tr.container && vf.Bool("Ordered") {
			f.ordered = true
			d = append(d, Ordered)
			if vf.Bool("ContinueOnFailure") {
				f.cof = true
				d = append(d, ContinueOnFailure)
			}
		}
		if (tr.container || tr.spec) && vf.Bool("Serial") {
			f.serial = true
			d = append(d, Serial)
		}
		return f, d
	}
	depth := vf.Concrete(vf.Pick("depth", 3))
	tr := vzAllTypes[vf.Concrete(vf.Pick("kind of node", len(vzAllTypes)))]
	f, d := pick(tr)
	x := vzAnyNode(tr, "x", func() {}, d...)
	before, after := false, false
	switch vf.Concrete(vf.Pick("suite node before", 5)) {
	case 1:
		before = true
		vf.Assert(s.PushNode(vzAnyNode(vzTypeTraits{t: types.NodeTypeBeforeSuite}, "", func() {})) == nil, "a suite node at the top level is accepted")
	case 2:
		before = true
		vf.Assert(s.PushNode(vzAnyNode(vzTypeTraits{t: types.NodeTypeSynchronizedBeforeSuite, body: 3}, "", func() {})) == nil, "a suite node at the top level is accepted")
	case 3:
		after = true
		vf.Assert(s.PushNode(vzAnyNode(vzTypeTraits{t: types.NodeTypeAfterSuite}, "", func() {})) == nil, "a suite node at the top level is accepted")
	case 4:
		after = true
		vf.Assert(s.PushNode(vzAnyNode(vzTypeTraits{t: types.NodeTypeSynchronizedAfterSuite, body: 4}, "", func() {})) == nil, "a suite node at the top level is accepted")
	}
	suiteNode := tr.t.Is(types.NodeTypeBeforeSuite | types.NodeTypeAfterSuite | types.NodeTypeSynchronizedBeforeSuite | types.NodeTypeSynchronizedAfterSuite | types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite)
	boom := depth > 0 && vf.Bool("panics")

	var got error
	pushed := false
	push := func() {
		got = s.PushNode(x)
		pushed = true
		s.PushNode(vzAnyNode(vzTypeTraits{t: types.NodeTypeIt, spec: true}, "sibling", func() {}))
		if boom {
			vf.Reach("panics")
			panic("in a container")
		}
	}
	ordered, orderedSerial, anyBad := false, false, false
	var e1, e2 error
	switch depth {
	case 0:
		push()
	default:
		f1, d1 := pick(vzAllTypes[0])
		ordered, orderedSerial = f1.ordered, f1.serial
		outer := push
		if depth == 2 {
			f2, d2 := pick(vzAllTypes[0])
			wantBad := (f2.serial && f1.ordered && !f1.serial) || (f2.cof && f1.ordered)
			inner := vzAnyNode(vzAllTypes[0], "inner", push, d2...)
			outer = func() {
				e2 = s.PushNode(inner)
				vf.Assert(!wantBad || e2 != nil, "a declaration out of place is rejected")
				vf.Assert(wantBad == !pushed, "a container's function runs exactly if it is accepted")
			}
			anyBad = wantBad
			if !f1.ordered {
				ordered, orderedSerial = f2.ordered, f2.serial
			}
		}
		e1 = s.PushNode(vzAnyNode(vzAllTypes[0], "outer", outer, d1...))
		vf.Assert(e1 == nil && !pushed, "a top-level container's function does not run before the tree is built")
	}
	err := s.BuildTree()
	if anyBad {
		vf.Reach("rejected")
		return
	}
	vf.Assert(pushed, "a container's function runs when the tree is built")
	switch {
	case boom && depth == 1:
		vf.Assert(err != nil, "a panic in a container is reported")
	case boom:
		vf.Assert(e2 != nil, "a panic in a container is reported")
	default:
		vf.Assert(err == nil && e2 == nil, "a valid tree is built")
	}
	want := true
	switch {
	case tr.t.Is(types.NodeTypeCleanupInvalid):
		want = false
	case suiteNode && depth > 0:
		want = false
	case before && tr.t.Is(types.NodeTypeBeforeSuite|types.NodeTypeSynchronizedBeforeSuite), after && tr.t.Is(types.NodeTypeAfterSuite|types.NodeTypeSynchronizedAfterSuite):
		want = false
	case tr.t.Is(types.NodeTypeBeforeAll | types.NodeTypeAfterAll):
		want = ordered
	case f.serial && ordered && !orderedSerial, f.cof && ordered:
		want = false
	}
	vf.Observe("rejected", got != nil)
	vf.Assert((got == nil) == want, "a declaration is accepted exactly where it is allowed")
	if !want {
		vf.Reach("rejected")
	} else {
		vf.Reach("accepted")
	}
	// where it is
	t := s.tree
	for i := 0; i < depth; i++ {
		vf.Assert(len(t.Children) == 1 || (i == 0 && len(t.Children) == 2), "containers are nested as declared")
		t = t.Children[len(t.Children)-1]
	}
	if depth == 0 && tr.container { // entered when the tree is built, after what is not a container
		vf.Assert(len(t.Children) == 2 && t.Children[1].Node.Text == "x" == want, "a node is in the tree where it was declared")
		return
	}
	if suiteNode {
		l := s.suiteNodes.WithType(tr.t)
		vf.Assert(!want || len(l) == 1 && l[0].ID == x.ID, "a suite node is kept")
	}
	n := 1
	if want && !suiteNode {
		n = 2
		vf.Assert(t.Children[0].Node.ID == x.ID, "a node is in the tree where it was declared")
	}
	vf.Assert(len(t.Children) == n && t.Children[n-1].Node.Text == "sibling", "a node is in the tree where it was declared")
}

// While specs run nothing can be declared but cleanups, and those not in reporting nodes or in cleanups; steps exist
// only while specs run.
//
//verif:quick 60s
//verif:thorough 200s
//verif:bounds every kind of node declared while any of 16 kinds of node runs
//verif:reach accepted rejected
func VerifC20_RunPhase() {
	w := vzNewWorld()
	tr := vzAllTypes[vf.Concrete(vf.Pick("kind of node", len(vzAllTypes)))]
	x := vzAnyNode(tr, "x", func() { w.log = append(w.log, "x") })
	var errs []error
	did := false
	declare := func() {
		if !did {
			did = true
			errs = append(errs, w.suite.PushNode(x))
			vf.Assert(w.suite.By("step") == nil, "steps are allowed while specs run")
		}
	}
	vf.Assert(w.suite.By("step") != nil, "steps are rejected while nothing runs")
	where := vf.Concrete(vf.Pick("running", 16))
	at := func(i int) func() {
		return func() {
			if where == i {
				declare()
			}
		}
	}
	cleanup := func(i int) {
		if where == i {
			n, e := NewCleanupNode(nil, func(string, types.CodeLocation) {}, declare)
			w.push(n, e)
		}
	}
	w.add(types.NodeTypeBeforeSuite, "", func() { at(0)(); cleanup(13) })
	w.add(types.NodeTypeAfterSuite, "", at(1))
	w.add(types.NodeTypeReportBeforeSuite, "", func(types.Report) { at(2)() })
	w.add(types.NodeTypeReportAfterSuite, "", func(types.Report) { at(3)() })
	w.add(types.NodeTypeReportBeforeEach, "", func(types.SpecReport) { at(4)() })
	w.add(types.NodeTypeReportAfterEach, "", func(types.SpecReport) { at(5)() })
	w.add(types.NodeTypeContainer, "c", Ordered, func() {
		vf.Assert(w.suite.By("step") != nil, "steps are rejected while the tree is built")
		w.add(types.NodeTypeBeforeAll, "", func() { at(6)(); cleanup(14) })
		w.add(types.NodeTypeAfterAll, "", at(7))
		w.add(types.NodeTypeBeforeEach, "", at(8))
		w.add(types.NodeTypeJustBeforeEach, "", at(9))
		w.add(types.NodeTypeJustAfterEach, "", at(10))
		w.add(types.NodeTypeAfterEach, "", at(11))
		w.add(types.NodeTypeIt, "i", func() { at(12)(); cleanup(15) })
	})
	w.run()
	vf.Assert(did && len(errs) == 1, "the running node ran")
	reporting := where >= 2 && where <= 5
	want := tr.t.Is(types.NodeTypeCleanupInvalid) && !reporting && where < 13
	vf.Observe("rejected", errs[0] != nil)
	vf.Assert((errs[0] == nil) == want, "while specs run only cleanups are accepted, and not in reporting nodes or cleanups")
	if want {
		vf.Reach("accepted")
		vf.Assert(vzCount(w.log, "x") == 1, "an accepted cleanup runs once")
	} else {
		vf.Reach("rejected")
		vf.Assert(vzCount(w.log, "x") == 0, "a rejected node does not run")
	}
}
