package internal

import (
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// An interrupt ends the running node and the suite: after the first, remaining specs are skipped but cleanup and
// reporting nodes run; after the second only reporting nodes run; after the third nothing does.
//
//verif:quick 200s
//verif:thorough 300s
//verif:bounds BeforeSuite with a DeferCleanup, AfterSuite, two specs with BeforeEach, AfterEach, a DeferCleanup, ReportBeforeEach and ReportAfterEach, and ReportAfterSuite; up to 3 interrupts by the user, or one abort by another process, each while any of these nodes runs; a node that is interrupted hangs, or takes a context and returns, possibly after failing, once it is cancelled
//verif:reach once twice thrice insetup incleanup carriedon
func VerifC13_Interrupts() {
	w := vzNewWorld(vzPass)
	raises := 0
	level := 0
	raisedIn := []string{} // the nodes in which an interrupt was raised
	raisedAt := []int{}    // and at which run of the node
	hang := make(chan any)
	withCtx := vf.Bool("context")
	cause, most := interrupt_handler.InterruptCauseSignal, 3
	if vf.Bool("abortedElsewhere") {
		cause, most = interrupt_handler.InterruptCauseAbortByOtherProcess, 1
	}
	abort := most == 1
	setup := func(name string) bool { return vzIndex([]string{"bs", "be", "i1", "i2"}, name) >= 0 }
	body := func(name string, sc SpecContext) {
		w.log = append(w.log, name)
		if raises < most && vf.Bool("interrupt in "+name) {
			raises++
			raisedIn = append(raisedIn, name)
			raisedAt = append(raisedAt, vzCount(w.log, name))
			w.ih.raise(cause)
			if abort && !setup(name) {
				return // cleanup and reporting carry on
			}
			if sc != nil {
				<-sc.Done()
				if vf.Bool("failsAfterwards") {
					w.failer.Fail("late", types.CodeLocation{})
				}
				return
			}
			<-hang
		}
	}
	fn := func(name string) any {
		if withCtx {
			return func(sc SpecContext) { body(name, sc) }
		}
		return func() { body(name, nil) }
	}
	w.add(types.NodeTypeBeforeSuite, "", func(sc SpecContext) {
		nd, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, fn("sclean"))
		w.push(nd, errs)
		if withCtx {
			body("bs", sc)
		} else {
			body("bs", nil)
		}
	})
	w.add(types.NodeTypeAfterSuite, "", fn("as"))
	w.add(types.NodeTypeReportAfterSuite, "ras", func(types.Report) { body("ras", nil) })
	w.add(types.NodeTypeReportBeforeEach, "", func(types.SpecReport) { body("rbe", nil) })
	w.add(types.NodeTypeReportAfterEach, "", func(types.SpecReport) { body("rae", nil) })
	w.add(types.NodeTypeBeforeEach, "", fn("be"))
	w.add(types.NodeTypeAfterEach, "", fn("ae"))
	w.conf.GracePeriod = time.Millisecond
	if withCtx { // every such node returns
		w.conf.GracePeriod = 10 * time.Second
	}
	for _, name := range []string{"i1", "i2"} {
		w.add(types.NodeTypeIt, name, func(sc SpecContext) {
			nd, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, fn("clean"))
			w.push(nd, errs)
			if withCtx {
				body(name, sc)
			} else {
				body(name, nil)
			}
		})
	}
	w.run()
	vf.Observe("log", vzJoin(w.log))

	// the reference
	want := []string{}
	k := 0
	run := func(name string, kind int) int { // kind 0: spec node, 1: cleanup, 2: reporting
		if level > kind {
			return vzSkip
		}
		want = append(want, name)
		if k < len(raisedIn) && raisedIn[k] == name && vzCount(want, name) == raisedAt[k] {
			k++
			level++
			if abort && kind > 0 {
				return vzPass
			}
			return vzFail
		}
		return vzPass
	}
	if run("bs", 0) == vzPass {
		order := []string{}
		for _, r := range w.rep.did {
			if r.LeafNodeType.Is(types.NodeTypeIt) {
				order = append(order, r.LeafNodeText)
			}
		}
		vf.Assert(len(order) == 2, "every spec is reported even when the suite is interrupted")
		for _, name := range order {
			r := w.report(name)
			skip := level > 0
			bad := false
			bad = run("rbe", 2) == vzFail || bad
			if !skip && !bad {
				ran := run("be", 0)
				if ran == vzPass {
					ran = run(name, 0)
					bad = ran == vzFail || bad
					bad = run("ae", 1) == vzFail || bad
					bad = run("clean", 1) == vzFail || bad
				} else {
					bad, skip = ran == vzFail, ran == vzSkip
					bad = run("ae", 1) == vzFail || bad
				}
			}
			bad = run("rae", 2) == vzFail || bad
			if bad {
				vf.Assert(r.State == types.SpecStateInterrupted, "a spec that was interrupted is reported as interrupted")
				vf.Assert(strings.Contains(r.Failure.Message, cause.String()), "the report says who interrupted")
			} else if skip {
				vf.Assert(r.State == types.SpecStateSkipped, "specs after an interrupt are skipped")
			} else {
				vf.Assert(r.State == types.SpecStatePassed, "specs before an interrupt keep their state")
			}
		}
	} else {
		vf.Reach("insetup")
	}
	run("as", 1)
	run("sclean", 1)
	run("ras", 2)
	vf.Assert(vzJoin(w.log) == vzJoin(want), "after an interrupt exactly the nodes that its level allows run")
	vf.Assert(w.succ == (raises == 0 || abort && raisedIn[0] == "ras"), "an interrupted suite fails")
	vf.Assert(len(w.rep.end) == 1, "an interrupted suite still reports its end")
	if raises > 0 {
		found := false
		for _, r := range w.rep.end[0].SpecialSuiteFailureReasons {
			found = found || r == cause.String()
		}
		lastNode := raisedIn[0] == "ras"
		vf.Assert(found || lastNode, "an interrupted suite says that it was interrupted")
	}
	switch raises {
	case 1:
		vf.Reach("once")
	case 2:
		vf.Reach("twice")
	case 3:
		vf.Reach("thrice")
	}
	for _, n := range raisedIn {
		if n == "ae" || n == "clean" || n == "as" || n == "sclean" {
			vf.Reach("incleanup")
			if abort {
				vf.Reach("carriedon")
			}
		}
	}
}

// Interrupts and timeouts of one node: whichever comes first cancels it and starts its grace period, and an interrupt
// during the grace period ends it at once.
//
//verif:quick 120s
//verif:thorough 300s
//verif:synctest
//verif:bounds a spec (or its AfterEach) that takes 1..9 units of time, or 1..9 after its context is cancelled (or takes no context), with a node timeout of 1..9 or none and a grace period of 1..9; up to 3 interrupts at symbolic times, no two events at the same instant; two further specs
//verif:reach passed timedout interrupted cutshort twice leaked returned
func VerifC13_Grace() {
	w := vzNewWorld(vzPass)
	t0 := time.Now()
	now := func() int { return int(time.Since(t0)) }
	slow := []string{"i1", "ae"}[vf.Pick("slow node", 2)]
	ctx := vf.Bool("context")
	dur, rest, grace := vf.Int("duration", 1, 9), 1, 0
	timeout := 0
	if ctx {
		rest, grace = vf.Int("rest", 1, 9), vf.Int("grace period", 1, 9)
		if vf.Bool("node timeout") {
			timeout = vf.Int("timeout", 1, 9)
		}
	}
	w.conf.GracePeriod = time.Duration(grace)
	ints := vf.Pick("interrupts", 3+vf.Tier())
	at := []int{0, 0, 0}
	prev := 0
	for k := 0; k < ints; k++ {
		at[k] = prev + vf.Int("wait", 1, 9)
		prev = at[k]
	}
	started := map[string]int{}
	first := true
	body := func(name string, sc SpecContext) {
		if _, again := started[name]; !again {
			started[name] = now()
		}
		if name != slow || !first {
			return
		}
		first = false
		if sc == nil {
			time.Sleep(time.Duration(dur))
			return
		}
		select {
		case <-time.After(time.Duration(dur)):
		case <-sc.Done():
			time.Sleep(time.Duration(rest))
		}
	}
	fn := func(name string) []any {
		a := []any{}
		if name == slow && timeout > 0 {
			a = append(a, NodeTimeout(timeout))
		}
		if name == slow && ctx {
			return append(a, func(sc SpecContext) { body(name, sc) })
		}
		return append(a, func() { body(name, nil) })
	}
	w.add(types.NodeTypeContainer, "C", Ordered, func() { // keeps the order
		w.add(types.NodeTypeIt, "i1", fn("i1")...)
		w.add(types.NodeTypeIt, "i2", fn("i2")...)
		w.add(types.NodeTypeAfterEach, "", fn("ae")...)
		w.add(types.NodeTypeAfterAll, "", fn("aa")...)
	})
	w.add(types.NodeTypeReportAfterSuite, "ras", func(types.Report) { body("ras", nil) })
	go func() {
		for k := 0; k < ints; k++ {
			time.Sleep(time.Duration(at[k]) - time.Since(t0))
			w.ih.raise(interrupt_handler.InterruptCauseSignal)
		}
	}()
	w.run()
	total := now()

	cancel, state := dur, types.SpecStatePassed
	if timeout > 0 {
		vf.Assume(timeout != dur)
		if timeout < cancel {
			cancel, state = timeout, types.SpecStateTimedout
		}
	}
	if ints > 0 {
		vf.Assume(at[0] != cancel)
		if at[0] < cancel {
			cancel, state = at[0], types.SpecStateInterrupted
		}
	}
	end := cancel
	level := 0
	if state != types.SpecStatePassed {
		end = cancel + grace
		if ctx {
			vf.Assume(rest != grace)
			if rest < grace {
				end = cancel + rest
			} else {
				vf.Reach("leaked")
			}
		}
		for k := 0; k < ints; k++ {
			vf.Assume(at[k] != cancel+grace && at[k] != cancel+rest && (k == 0 && state == types.SpecStateInterrupted || at[k] != cancel))
			if at[k] > cancel && at[k] < end {
				end = at[k]
				vf.Reach("cutshort")
			}
		}
		if ctx && end == cancel+rest {
			vf.Reach("returned")
		}
	}
	for k := 0; k < ints; k++ {
		if at[k] <= end {
			level++
		}
	}
	if level > 1 {
		vf.Reach("twice")
	}
	r := w.report("i1")
	vf.Assert(r.State == state, "the node's outcome is that of the timeout or interrupt that came first")
	switch state {
	case types.SpecStatePassed:
		vf.Reach("passed")
	case types.SpecStateTimedout:
		vf.Reach("timedout")
	default:
		vf.Reach("interrupted")
	}
	has := func(name string) bool { _, ok := started[name]; return ok }
	vf.Assert(total == end, "a node ends when it returns, its grace period is over, or an interrupt arrives during its grace period")
	if slow == "i1" {
		vf.Assert(has("ae") == (level <= 1), "cleanup runs after the first interrupt but not after the second")
		if has("ae") {
			vf.Assert(started["ae"] == end, "cleanup starts once the node has ended")
		}
	}
	vf.Assert(has("aa") == (level <= 1), "cleanup of the container runs after the first interrupt but not after the second")
	vf.Assert(has("i2") == (state == types.SpecStatePassed && level == 0), "no spec starts after an interrupt")
	vf.Assert(has("ras") == (level <= 2), "reporting runs unless there was a third interrupt")
	vf.Assert(w.succ == (state == types.SpecStatePassed && level == 0), "the suite fails exactly when a node did not pass")
}
