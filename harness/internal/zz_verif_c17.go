package internal

import (
	"fmt"
	"strings"
	"time"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// An abort, or a failure with fail-fast, on one process stops all processes: what runs is interrupted, no further spec
// starts anywhere, teardown and reporting still happen, and the run fails.
//
//verif:use internal/parallel_support/zz_verif_server.go internal/zz_verif_par.go
//verif:quick 200s
//verif:thorough 600s
//verif:synctest
//verif:bounds 2 (thorough: 3) processes with the real server handler, client and interrupt handler; three specs with a BeforeEach or not and an AfterEach, suite teardown and a ReportAfterSuite; one of the nodes fails, with or without fail-fast, or aborts the suite; every order in which the processes reach their nodes and exit
//verif:reach abort failfast goeson interrupted between
func VerifC17_Stop() {
	p := vzNewPar(2 + vf.Tier())
	p.aborts = true
	kind := vf.Pick("kind", 3) // a failure, a failure with fail-fast, an abort
	bad := []string{"i1", "i2", "ae", "be"}[vf.Pick("site", 4)]
	be := bad == "be" || bad == "i1" && vf.Bool("BeforeEach")
	specs := []string{"i1", "i2", "i3"}
	type event struct {
		proc       int
		name, spec string
		end        bool
		hit        int
	}
	var events []event
	badAt := -1
	interrupted := map[string]int{}
	p.run(func(k int, w *vzWorld) {
		w.conf.FailFast = kind == 1
		w.conf.GracePeriod = time.Hour
		body := func(name string) func(SpecContext) {
			return func(ctx SpecContext) {
				events = append(events, event{proc: k, name: name, spec: w.suite.currentSpecReport.LeafNodeText})
				if !p.gateOr(k, name, ctx) {
					interrupted[name] = k
					events = append(events, event{proc: k, name: name, spec: w.suite.currentSpecReport.LeafNodeText, end: true})
					return
				}
				events = append(events, event{proc: k, name: name, spec: w.suite.currentSpecReport.LeafNodeText, end: true})
				if name == bad && badAt < 0 {
					badAt = len(events)
					w.conclude(name, []int{vzFail, vzFail, vzAbort}[kind])
				}
			}
		}
		w.add(types.NodeTypeContainer, "D", func() {
			if be {
				w.add(types.NodeTypeBeforeEach, "", body("be"))
			}
			w.add(types.NodeTypeAfterEach, "", body("ae"))
			for _, name := range specs {
				w.add(types.NodeTypeIt, name, body(name))
			}
		})
		w.add(types.NodeTypeAfterSuite, "", body("after"))
		w.add(types.NodeTypeReportAfterSuite, "ras", func(ctx SpecContext, r types.Report) {
			body("ras")(ctx)
		})
	})
	vf.Assert(badAt >= 0, "the failing node runs")
	for _, e := range events {
		what := "begin"
		if e.end {
			what = "end"
		}
		vf.Observe("event", fmt.Sprint(e.proc)+" "+e.name+" "+what)
	}
	culprit := events[badAt-1]
	for i, e := range events { // the failure takes effect when its spec has been torn down
		if e.spec == culprit.spec {
			badAt = i + 1
		}
	}
	agg := p.server.end
	vf.Assert(len(agg) == 1, "the end of the suite is announced once")
	vf.Assert(!agg[0].SuiteSucceeded, "a run with a failure fails")
	begun := map[string]int{} // by spec, on process
	setupBegun := map[string]bool{}
	afters := map[int]int{}
	before := map[int]bool{} // who had finished before the failure took effect
	ras := 0
	for i, e := range events {
		if e.end {
			if e.name == "after" && i < badAt {
				before[e.proc] = true
			}
			continue
		}
		switch e.name {
		case "after":
			afters[e.proc]++
			continue
		case "ras":
			ras++
			vf.Assert(e.proc == 1, "ReportAfterSuite runs on process 1")
			continue
		}
		if e.name == e.spec {
			vf.Assert(begun[e.spec] == 0, "no spec runs twice")
			begun[e.spec] = e.proc
		}
		if kind > 0 && i >= badAt {
			// only the teardown of a spec that had begun
			vf.Assert(e.name == "ae", "no spec and no setup starts after the run was stopped")
			vf.Assert(setupBegun[e.spec], "only the teardown of specs that had begun runs after the run was stopped")
		}
		setupBegun[e.spec] = true
	}
	for k := 1; k <= p.total; k++ {
		vf.Assert(afters[k] == 1, "the suite's teardown runs once on every process")
	}
	vf.Assert(ras == 1, "ReportAfterSuite runs once")
	// states
	state := map[string]types.SpecReport{}
	for _, r := range agg[0].SpecReports {
		if r.LeafNodeType == types.NodeTypeIt {
			vf.Assert(state[r.LeafNodeText].LeafNodeText == "", "no spec is reported twice")
			state[r.LeafNodeText] = r
		}
	}
	for _, name := range specs {
		r := state[name]
		want := types.SpecState(types.SpecStatePassed)
		switch {
		case name == culprit.spec:
			want = types.SpecStateFailed
			if kind == 2 {
				want = types.SpecStateAborted
			}
		case vzAny(interrupted, name, setupBegun[name], r.ParallelProcess, interrupted["be"] == r.ParallelProcess && begun[name] == 0):
			want = types.SpecStateInterrupted
			vf.Assert(kind > 0, "only a stopped run interrupts specs")
			vf.Assert(r.Failure.Message != "" && strings.Contains(r.Failure.Message, "Other Ginkgo Process"), "an interrupted spec says why")
			vf.Reach("interrupted")
		case !setupBegun[name]:
			if r.LeafNodeText == "" { // never handed out
				vf.Assert(kind > 0, "every spec is reported unless the run was stopped")
				continue
			}
			want = types.SpecStateSkipped
			vf.Assert(kind > 0, "only a stopped run skips specs")
			vf.Reach("between")
		}
		vf.Observe("state "+name, r.State.String())
		vf.Assert(r.State == want, "every spec is reported in the state it ended in")
	}
	switch kind {
	case 0:
		for _, name := range specs {
			vf.Assert(begun[name] > 0 || culprit.spec == name && bad == "be", "a failure without fail-fast stops nothing else")
		}
		vf.Reach("goeson")
	case 1:
		vf.Reach("failfast")
	case 2:
		vf.Reach("abort")
	}
	if kind > 0 {
		for k := 1; k <= p.total; k++ {
			vf.Assert(!p.worlds[k].succ || before[k], "every process that was still running fails when the run is stopped")
		}
	}
}

func vzAny(interrupted map[string]int, name string, begun bool, proc int, be bool) bool {
	return begun && (interrupted[name] > 0 || be)
}

// A failure of a suite-level node on one process stops all processes in the same way.
//
//verif:use internal/parallel_support/zz_verif_server.go internal/zz_verif_par.go
//verif:quick 100s
//verif:thorough 300s
//verif:synctest
//verif:bounds 2 (thorough: 3) processes with the real server handler, client and interrupt handler; two specs, and a BeforeSuite (plain, or both parts of a synchronized one), an AfterSuite or a DeferCleanup of the suite that fails on one of the processes, with or without fail-fast, or aborts the suite; every order in which the processes reach their nodes and exit
//verif:reach abort failfast goeson interrupted setup teardown cleanup first
func VerifC17_SuiteNodes() {
	p := vzNewPar(2 + vf.Tier())
	p.aborts = true
	kind := vf.Pick("kind", 3) // a failure, a failure with fail-fast, an abort
	bad := []string{"setup", "after", "clean", "first"}[vf.Pick("site", 4)]
	on := 1
	if bad != "first" {
		on = 1 + vf.Pick("on", p.total)
	}
	cl := types.CodeLocation{FileName: "file_test.go", LineNumber: 1}
	type event struct {
		proc int
		name string
	}
	var begun []event
	badAt := -1
	interrupted := map[int]bool{}
	finished := map[int]bool{}
	p.run(func(k int, w *vzWorld) {
		w.conf.FailFast = kind == 1
		w.conf.GracePeriod = time.Hour
		body := func(name string) func(SpecContext) {
			return func(ctx SpecContext) {
				begun = append(begun, event{k, name})
				if !p.gateOr(k, name, ctx) {
					interrupted[k] = true
					return
				}
				if name == bad && k == on {
					badAt = len(begun)
					for j := 1; j <= p.total; j++ {
						finished[j] = p.where[j] == "exit"
					}
					w.conclude(name, []int{vzFail, vzFail, vzAbort}[kind])
				}
			}
		}
		setup := func(ctx SpecContext) {
			n, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, cl, body("clean"))
			w.push(n, errs)
			body("setup")(ctx)
		}
		if bad == "first" {
			w.add(types.NodeTypeSynchronizedBeforeSuite, "", func(ctx SpecContext) []byte {
				body("first")(ctx)
				return nil
			}, func(ctx SpecContext, _ []byte) { setup(ctx) })
		} else {
			w.add(types.NodeTypeBeforeSuite, "", setup)
		}
		w.add(types.NodeTypeAfterSuite, "", body("after"))
		w.add(types.NodeTypeIt, "i1", body("i1"))
		w.add(types.NodeTypeIt, "i2", body("i2"))
	})
	vf.Assert(badAt >= 0, "the failing node runs")
	agg := p.server.end
	vf.Assert(len(agg) == 1 && !agg[0].SuiteSucceeded, "a run with a failure fails")
	count := func(name string, proc int) int {
		n := 0
		for _, e := range begun {
			if e.name == name && (proc == 0 || e.proc == proc) {
				n++
			}
		}
		return n
	}
	for _, name := range []string{"i1", "i2"} {
		vf.Assert(count(name, 0) <= 1, "no spec runs twice")
	}
	if kind > 0 {
		for _, e := range begun[badAt:] {
			vf.Assert(e.name == "after" || e.name == "clean", "only teardown starts after the run was stopped")
		}
		for k := 1; k <= p.total; k++ {
			vf.Assert(!p.worlds[k].succ || finished[k], "every process that was still running fails when the run is stopped")
		}
	} else {
		vf.Assert(len(interrupted) == 0, "a failure without fail-fast stops nothing else")
		for k := 1; k <= p.total; k++ {
			vf.Assert(p.worlds[k].succ == (k != on && bad != "first"), "only the process whose node failed fails")
		}
		if bad != "first" {
			vf.Assert(count("setup", 0) == p.total, "a failure without fail-fast stops nothing else")
			vf.Assert(count("i1", 0)+count("i2", 0) == 2 || bad == "setup", "a failure without fail-fast stops nothing else")
		}
		if bad == "setup" {
			vf.Assert(count("i1", on)+count("i2", on) == 0, "no spec runs on a process whose setup failed")
			vf.Assert(count("i1", 0)+count("i2", 0) == 2, "the other processes run all specs")
		}
		vf.Reach("goeson")
	}
	for k := 1; k <= p.total; k++ {
		vf.Assert(count("after", k) == 1, "the suite's teardown runs once on every process")
		vf.Assert(count("clean", k) == count("setup", k), "the suite's cleanups run once on every process that registered them")
	}
	if len(interrupted) > 0 {
		vf.Reach("interrupted")
	}
	vf.Reach([]string{"goeson", "failfast", "abort"}[kind])
	vf.Reach(map[string]string{"setup": "setup", "after": "teardown", "clean": "cleanup", "first": "first"}[bad])
}
