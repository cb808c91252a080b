package internal

import (
	"time"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// vzParSuite is a suite with every kind of suite-level node and one spec per process, run in parallel.
type vzParSuite struct {
	p       *vzPar
	outcome map[string]int // by node, except
	on      int            // the process on which nodes of all processes have their outcome
	rbs     bool           // whether there are reporting nodes
	clean   bool           // whether the suite's setup registers cleanups
	data    []byte
	got     [][]byte
	alive   map[string]bool // whether another process was alive while a node ran
	reports map[string]types.Report
	timeout string // the part of the synchronized setup that times out
	suite   bool   // simple BeforeSuite and AfterSuite instead of synchronized ones
}

func (s *vzParSuite) body(k int, name string, all bool) func() {
	return func() {
		s.p.gate(k, name)
		s.p.hit(k, name)
		if !s.p.crashed[k] {
			for j := 1; j <= s.p.total; j++ {
				if j != k && s.p.alive[j] {
					s.alive[name] = true
				}
			}
		}
		if o := s.outcome[name]; o != vzPass && (!all || k == s.on) {
			s.p.worlds[k].conclude(name, o)
		}
	}
}

func (s *vzParSuite) decl(k int, w *vzWorld) {
	cleanup := func(name string, all bool) {
		if s.clean && !s.p.crashed[k] {
			n, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, types.CodeLocation{FileName: "file_test.go", LineNumber: 1}, s.body(k, name, all))
			w.push(n, errs)
		}
	}
	if s.rbs {
		w.add(types.NodeTypeReportBeforeSuite, "", func(r types.Report) { s.body(k, "rbs", false)() })
		for _, name := range []string{"ras1", "ras2"} {
			w.add(types.NodeTypeReportAfterSuite, name, func(r types.Report) {
				s.reports[name] = r
				s.body(k, name, false)()
			})
		}
	}
	if s.suite {
		w.add(types.NodeTypeBeforeSuite, "", func() {
			cleanup("clean2", true)
			s.body(k, "all", true)()
		})
		w.add(types.NodeTypeAfterSuite, "", s.body(k, "after", true))
	} else if s.timeout != "" {
		late := func(ctx SpecContext, name string) {
			if name == s.timeout && (name == "first" || k == s.on) {
				s.p.hit(k, name)
				<-ctx.Done()
				return
			}
			s.body(k, name, false)()
		}
		w.add(types.NodeTypeSynchronizedBeforeSuite, "", NodeTimeout(55*time.Second), func(ctx SpecContext) []byte {
			cleanup("clean1", true)
			late(ctx, "first")
			return s.data
		}, func(ctx SpecContext, data []byte) {
			s.got[k] = append([]byte{}, data...)
			cleanup("clean2", true)
			late(ctx, "all")
		})
		w.add(types.NodeTypeSynchronizedAfterSuite, "", s.body(k, "after", true), s.body(k, "last", false))
	} else {
		w.add(types.NodeTypeSynchronizedBeforeSuite, "", func() []byte {
			cleanup("clean1", true)
			s.body(k, "first", false)()
			return s.data
		}, func(data []byte) {
			s.got[k] = append([]byte{}, data...)
			cleanup("clean2", true)
			s.body(k, "all", true)()
		})
		w.add(types.NodeTypeSynchronizedAfterSuite, "", s.body(k, "after", true), s.body(k, "last", false))
	}
	w.add(types.NodeTypeContainer, "D", func() {
		w.add(types.NodeTypeIt, "i1", s.body(k, "i1", false))
		w.add(types.NodeTypeIt, "i2", s.body(k, "i2", false))
	})
}

func vzNewParSuite(n int) *vzParSuite {
	return &vzParSuite{
		p: vzNewPar(n), outcome: map[string]int{}, got: make([][]byte, n+1), alive: map[string]bool{}, reports: map[string]types.Report{},
	}
}

// pos is the place of the first run of a node on a process (0: any), or -1.
func (s *vzParSuite) pos(name string, proc int) int {
	for i, h := range s.p.hits {
		if h.name == name && (proc == 0 || h.proc == proc) {
			return i
		}
	}
	return -1
}

func (s *vzParSuite) count(name string, proc int) int {
	n := 0
	for _, h := range s.p.hits {
		if h.name == name && (proc == 0 || h.proc == proc) {
			n++
		}
	}
	return n
}

func (s *vzParSuite) state(k int, t types.NodeType, text string) types.SpecState {
	for _, r := range s.p.worlds[k].rep.did {
		if r.LeafNodeType == t && (text == "" || r.LeafNodeText == text) {
			return r.State
		}
	}
	return types.SpecStateInvalid
}

// The suite-level nodes of a parallel run keep their protocol: the first part of the synchronized setup runs once, on
// process 1, and everybody waits for it and gets its data; the last part of the synchronized teardown, cleanups of
// process 1 and the reporting nodes run on process 1 after everybody else has finished.
//
//verif:use internal/parallel_support/zz_verif_server.go internal/zz_verif_par.go
//verif:quick 200s
//verif:thorough 600s
//verif:synctest
//verif:bounds 2 (thorough: 3) processes sharing the real server handler through the real client; a suite with setup and teardown (synchronized or plain), with or without reporting nodes and cleanups, and two specs; one node that does not pass (failing, panicking, skipping, aborting or timing out), on one process; two bytes of data; every order in which the processes reach their nodes and exit
//verif:reach timedout passed rbs firstfail firstskip allfail afterfail lastfail rasfail specfail cleanfail plain
func VerifC16_SuiteNodes() {
	s := vzNewParSuite(2 + vf.Tier())
	p := s.p
	s.suite = vf.Bool("plain")
	s.rbs = vf.Bool("reporting nodes")
	s.clean = vf.Bool("cleanups")
	sites := []string{"", "rbs", "first", "all", "after", "last", "ras1", "i1", "clean1", "clean2"}
	bad := sites[vf.Pick("site", len(sites))]
	vf.Assume(s.rbs || bad != "rbs" && bad != "ras1")
	vf.Assume(!s.suite || bad != "first" && bad != "last" && bad != "clean1")
	vf.Assume(s.clean || bad != "clean1" && bad != "clean2")
	out := vzPass
	if bad != "" {
		out = vzFail
		if bad == "first" || bad == "all" {
			out = []int{vzFail, vzPanic, vzSkip, vzAbort, vzPass}[vf.Pick("how", 5)]
		}
		s.outcome[bad] = out
		if out == vzPass {
			vf.Assume(!s.suite)
			out = vzFail
			s.timeout = bad
			delete(s.outcome, bad)
			vf.Reach("timedout")
		}
	}
	s.on = 1
	if bad == "all" || bad == "after" || bad == "clean2" {
		s.on = 1 + vf.Pick("on", p.total)
	}
	s.data = []byte{vf.Byte("data"), vf.Byte("data")}
	p.run(s.decl)

	N := p.total
	failed := out == vzFail || out == vzPanic || out == vzAbort
	agg := p.server.end
	vf.Assert(len(agg) == 1, "the server announces the end of the suite once")
	vf.Assert(agg[0].SuiteSucceeded == !failed, "the run succeeds exactly when no node on any process failed")
	last := len(p.hits) - 1

	// reporting nodes
	rbsOK := true
	if s.rbs {
		vf.Assert(s.count("rbs", 0) == 1 && s.count("rbs", 1) == 1 && s.pos("rbs", 1) == 0, "ReportBeforeSuite runs once, on process 1, before anything else on any process")
		vf.Reach("rbs")
		for j, name := range []string{"ras1", "ras2"} {
			vf.Assert(s.count(name, 0) == 1 && s.count(name, 1) == 1 && s.pos(name, 1) == last-1+j, "each ReportAfterSuite runs once, on process 1, after everything else, in order")
			vf.Assert(!s.alive[name], "ReportAfterSuite runs after every other process has finished")
		}
		rbsOK = bad != "rbs"
		r := s.reports["ras1"]
		vf.Assert(r.SuiteSucceeded == (!failed || bad == "ras1"), "ReportAfterSuite gets the verdict of all processes")
		vf.Assert(s.reports["ras2"].SuiteSucceeded == !failed, "a later ReportAfterSuite gets the verdict including the earlier one's")
		vf.Assert(len(s.reports["ras2"].SpecReports) == len(r.SpecReports)+1, "a later ReportAfterSuite also gets the earlier one's report")
		vf.Assert(len(r.SpecReports) == len(agg[0].SpecReports)-2, "ReportAfterSuite gets the reports of all processes")
		n := map[string]int{}
		for _, sr := range r.SpecReports {
			n[sr.LeafNodeText]++
		}
		for _, name := range []string{"i1", "i2"} {
			vf.Assert(n[name] <= 1 && n[name] == s.inReport(agg[0], name), "ReportAfterSuite gets each spec's report once")
		}
		if bad == "ras1" {
			vf.Reach("rasfail")
		}
	}
	for k := 1; k <= N; k++ {
		w := p.worlds[k]
		// setup
		setupRan := s.pos("all", k) >= 0
		for _, h := range p.hits {
			if h.proc == k && (h.name == "i1" || h.name == "i2") {
				vf.Assert(setupRan && s.pos("all", k) < s.pos(h.name, k), "no spec runs on a process before the process's setup")
			}
		}
		if s.suite {
			vf.Assert(setupRan == rbsOK && s.count("all", k) <= 1, "the plain setup runs once on every process")
			vf.Reach("plain")
		} else {
			vf.Assert(s.count("first", k) == vzOneIf(k == 1 && rbsOK), "the first part of the synchronized setup runs once, on process 1")
			vf.Assert(s.count("all", k) == vzOneIf(rbsOK && bad != "first"), "the second part of the synchronized setup runs once on every process exactly when the first one passed")
			if setupRan {
				vf.Assert(s.pos("first", 1) < s.pos("all", k), "the second part of the setup runs after the first part")
				vf.Assert(len(s.got[k]) == 2 && vf.And(s.got[k][0] == s.data[0], s.got[k][1] == s.data[1]), "every process gets the data the first part returned")
			}
		}
		setupBad := !rbsOK || bad == "first" || bad == "all" && s.on == k
		if setupBad {
			vf.Assert(s.count("i1", k)+s.count("i2", k) == 0, "no spec runs on a process whose setup did not pass")
		}
		if bad == "first" {
			if out == vzSkip {
				vf.Assert(w.succ, "a suite skipped in its setup does not fail")
				vf.Reach("firstskip")
			} else {
				vf.Assert(!w.succ, "every process fails when the first part of the setup failed")
				vf.Reach("firstfail")
			}
		}
		if bad == "all" {
			vf.Assert(w.succ == (s.on != k || out == vzSkip), "a process fails when its part of the setup failed")
			vf.Reach("allfail")
		}
		if bad == "rbs" {
			vf.Assert(!w.succ, "every process fails when ReportBeforeSuite failed")
		}
		// teardown
		vf.Assert(s.count("after", k) == vzOneIf(rbsOK), "the teardown runs once on every process")
		for _, name := range []string{"first", "all", "i1", "i2"} {
			vf.Assert(!rbsOK || s.pos(name, k) < s.pos("after", k), "the teardown runs after the process's setup and specs")
		}
		if !s.suite {
			vf.Assert(s.count("last", k) == vzOneIf(k == 1 && rbsOK), "the last part of the synchronized teardown runs once, on process 1")
		}
		if s.clean {
			vf.Assert(s.count("clean2", k) == s.count("all", k), "cleanups of the setup run once on every process that registered them")
			vf.Assert(s.count("clean1", k) == s.count("first", k), "cleanups of the setup run once on every process that registered them")
			if c2 := s.pos("clean2", k); c2 >= 0 {
				vf.Assert(c2 > s.pos("after", k) && c2 > s.pos("last", k), "cleanups of the suite run after its teardown")
				vf.Assert(s.pos("clean1", k) < 0 || s.pos("clean1", k) > c2, "cleanups of the suite run in reverse order")
			}
		}
	}
	for _, name := range []string{"last", "clean1"} {
		vf.Assert(!s.alive[name], "the last part of the teardown and cleanups run on process 1 after every other process has finished")
	}
	if s.clean {
		for i, h := range p.hits {
			if h.name == "clean2" && h.proc == 1 {
				for j := i; j < len(p.hits); j++ {
					vf.Assert(p.hits[j].proc == 1, "cleanups of the suite run on process 1 after every other process has finished")
				}
			}
		}
	}
	stopped := !rbsOK || bad == "first" || out == vzAbort
	for _, name := range []string{"i1", "i2"} {
		vf.Assert(s.count(name, 0) <= 1, "no spec runs twice")
		if !stopped && !(bad == "all") {
			vf.Assert(s.count(name, 0) == 1, "every spec runs")
		}
	}
	switch bad {
	case "":
		vf.Reach("passed")
	case "after":
		vf.Assert(p.worlds[s.on].succ == false, "a failing teardown fails the process")
		vf.Reach("afterfail")
	case "last":
		vf.Assert(p.worlds[1].succ == false, "a failing teardown fails the process")
		vf.Reach("lastfail")
	case "i1":
		vf.Reach("specfail")
	case "clean1", "clean2":
		vf.Assert(p.worlds[s.on].succ == false, "a failing cleanup fails the process")
		vf.Reach("cleanfail")
	}
}

// When a process dies, the others neither wait for it for ever nor carry on as if nothing had happened.
//
//verif:use internal/parallel_support/zz_verif_server.go internal/zz_verif_par.go
//verif:quick 200s
//verif:thorough 600s
//verif:synctest
//verif:bounds 2 (thorough: 3) processes sharing the real server handler through the real client; a suite with setup and teardown (synchronized or plain), with or without reporting nodes, and two specs; one process dies at its start or in any node that it runs; every order in which the processes reach their nodes and exit
//verif:reach early firstgone later secondary unavailable
func VerifC16_Death() {
	s := vzNewParSuite(2 + vf.Tier())
	p := s.p
	s.suite = vf.Bool("plain")
	s.rbs = vf.Bool("reporting nodes")
	s.clean = vf.Bool("cleanups")
	p.crash = 1
	s.data = []byte{1, 2}
	p.run(s.decl)
	vf.Assume(p.crashedProc > 0)
	c, at := p.crashedProc, p.crashedAt
	vf.Observe("crash", at)
	vf.Assert(len(p.server.end) == 0, "a run in which a process died is not announced as completed")
	// do the others learn that process 1 died before they could start?
	early := c == 1 && (s.rbs && (at == "start" || at == "rbs") || !s.suite && (at == "start" || at == "rbs" || at == "first"))
	for k := 1; k <= p.total; k++ {
		if k == c {
			continue
		}
		w := p.worlds[k]
		if early {
			vf.Assert(s.count("i1", k)+s.count("i2", k) == 0, "no spec runs when process 1 dies in the setup everybody waits for")
			vf.Assert(!w.succ, "every process fails when process 1 dies in the setup everybody waits for")
			vf.Reach("early")
			if at == "first" {
				vf.Reach("firstgone")
			}
			continue
		}
		vf.Assert(s.count("all", k) == 1 && s.count("after", k) == 1, "the other processes run their setup and teardown")
		vf.Assert(w.succ == !(k == 1 && s.rbs), "the other processes pass, except that process 1 cannot report on the run")
		if k == 1 {
			vf.Reach("secondary")
			if !s.suite {
				vf.Assert(s.count("last", 1) == 1, "the last part of the teardown still runs on process 1")
			}
			if s.clean {
				vf.Assert(s.count("clean2", 1) == 1, "the cleanups still run on process 1")
			}
			if s.rbs {
				vf.Assert(s.count("ras1", 1) == 0, "ReportAfterSuite does not run without the reports of all processes")
				vf.Assert(s.state(1, types.NodeTypeReportAfterSuite, "ras1") == types.SpecStateFailed, "ReportAfterSuite fails when a process's report is missing")
				vf.Reach("unavailable")
			}
		} else {
			vf.Reach("later")
		}
	}
	for _, name := range []string{"last", "clean1"} {
		vf.Assert(!s.alive[name], "the last part of the teardown and cleanups run on process 1 after every other process has finished")
	}
	for _, name := range []string{"i1", "i2"} {
		vf.Assert(s.count(name, 0) <= 1, "no spec runs twice")
		if !early && at != name {
			vf.Assert(s.count(name, 0) == 1, "the surviving processes run every spec the dead one had not taken")
		}
	}
}

func (s *vzParSuite) inReport(r types.Report, name string) int {
	n := 0
	for _, sr := range r.SpecReports {
		if sr.LeafNodeText == name {
			n++
		}
	}
	return n
}

func vzOneIf(b bool) int {
	if b {
		return 1
	}
	return 0
}
