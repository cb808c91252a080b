package internal

import (
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

// Whatever goes wrong in a suite, its console output names each failing spec and setup node, gives its message once
// where it failed and again in no other place, and shows what it wrote.
//
//verif:quick 60s
//verif:thorough 300s
//verif:bounds two specs in a container with a BeforeEach, an AfterEach and a cleanup, BeforeSuite, AfterSuite and ReportAfterSuite; each node passes, fails, panics or skips, at most two (thorough: three) not passing; one spec possibly with two attempts; four verbosities; the writer and the reporter share the console
//verif:use internal/zz_verif_c18.go
//verif:reach failed retried suite streamed passed
func VerifC29_Console() {
	level := vf.Concrete(vf.Pick("verbosity", 4))
	conf := types.ReporterConfig{NoColor: true, Succinct: level == 0, Verbose: level == 2, VeryVerbose: level == 3}
	w := vzNewWorld(vzPass, vzFail, vzPanic, vzSkip)
	w.conf.RandomSeed = 17
	w.maxBad = 2 + vf.Tier()
	for _, name := range []string{"bs", "as", "ras"} {
		w.allowed[name] = []int{vzPass, vzFail, vzPanic}
	}
	out := &vzSink{}
	w.rep.next = reporters.NewDefaultReporterUnderTest(conf, out)
	w.out = out
	w.stream = level >= 2
	type note struct{ spec, text, name string }
	var notes []note
	runs := map[string]int{}
	body := func(name string) func() {
		return func() {
			spec := w.suite.currentSpecReport.LeafNodeText
			id := name + "-" + spec
			runs[id]++
			if runs[id] > 1 {
				id += "-again"
			}
			text := "wrote-" + id + "."
			w.w.Write([]byte(text + "\n"))
			o := w.pick(name)
			if o != vzPass {
				notes = append(notes, note{spec, text, id})
			}
			w.conclude(id+".", o)
		}
	}
	cl := types.CodeLocation{FileName: "file_test.go", LineNumber: 1}
	w.add(types.NodeTypeBeforeSuite, "", body("bs"))
	w.add(types.NodeTypeAfterSuite, "", body("as"))
	w.add(types.NodeTypeReportAfterSuite, "report", func(types.Report) { body("ras")() })
	flaky := vf.Concrete(vf.Pick("flaky", 2)) == 1
	w.add(types.NodeTypeContainer, "container", func() {
		w.add(types.NodeTypeBeforeEach, "", func() {
			n, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, cl, body("clean"))
			w.push(n, errs)
			body("be")()
		})
		w.add(types.NodeTypeAfterEach, "", body("ae"))
		if flaky {
			w.add(types.NodeTypeIt, "one", FlakeAttempts(2), body("it"))
		} else {
			w.add(types.NodeTypeIt, "one", body("it"))
		}
		w.add(types.NodeTypeIt, "two", body("it"))
	})
	w.run()
	s := string(out.all)
	once := func(t string, want bool, msg string) {
		n := 0
		if want {
			n = 1
		}
		vf.Assert(strings.Count(s, t) == n, msg)
	}
	failing := 0
	for _, r := range w.rep.did {
		if r.State.Is(types.SpecStatePassed) && r.NumAttempts > 1 {
			vf.Reach("retried")
			vf.Assert(strings.Contains(s, "[FLAKEY TEST - TOOK 2 ATTEMPTS TO PASS]"), "a spec that passed only after a retry is pointed out")
		}
		if !r.Failed() {
			continue
		}
		failing++
		vf.Reach("failed")
		if r.LeafNodeType.Is(types.NodeTypesForSuiteLevelNodes) {
			vf.Reach("suite")
			vf.Assert(strings.Contains(s, "["+r.LeafNodeType.String()+"]"), "a failing setup or teardown node is named")
		} else {
			vf.Assert(strings.Contains(s, "container") && strings.Contains(s, r.LeafNodeText), "a failing spec is named")
		}
		if r.State == types.SpecStatePanicked {
			once(r.Failure.ForwardedPanic, true, "the value of a panic is shown once")
		} else {
			once(r.Failure.Message, true, "the message of a failure is shown once")
		}
		for _, l := range strings.Split(r.CapturedGinkgoWriterOutput, "\n") {
			if l != "" {
				once(l, true, "what a failing spec wrote is shown once")
			}
		}
	}
	for _, r := range w.rep.did {
		if r.Failed() {
			continue
		}
		for _, l := range strings.Split(r.CapturedGinkgoWriterOutput, "\n") {
			if l != "" {
				once(l, level >= 2, "what a passing spec wrote is shown if the run is verbose")
			}
		}
	}
	if level == 3 {
		vf.Reach("streamed")
		for _, n := range notes {
			if w.outcome[n.name+"."] == vzFail {
				once("fail "+n.name+".", true, "the most verbose output has the message of every failure")
			}
		}
	}
	if failing == 0 {
		vf.Reach("passed")
	}
	vf.Assert(strings.Contains(s, "SUCCESS!") == w.succ && strings.Contains(s, "FAIL!") != w.succ, "the console's verdict is the suite's")
}

// The console output of a parallel run has each spec's account in one piece, each failing spec's message and output
// once, and a summary of all processes.
//
//verif:use internal/zz_verif_c18.go internal/parallel_support/zz_verif_server.go internal/zz_verif_par.go
//verif:quick 60s
//verif:thorough 300s
//verif:synctest
//verif:bounds 2 processes sharing the real server handler through the real client, the handler reporting to the console; BeforeSuite, three specs and an AfterSuite, at most one node not passing (failing, panicking or skipping) on each process; four verbosities; every order in which the processes start, reach their specs and exit
//verif:reach failed suite verbose both
func VerifC29_ParallelConsole() {
	level := vf.Concrete(vf.Pick("verbosity", 4))
	conf := types.ReporterConfig{NoColor: true, Succinct: level == 0, Verbose: level == 2, VeryVerbose: level == 3}
	p := vzNewPar(2)
	out := &vzSink{}
	p.server.next = reporters.NewDefaultReporterUnderTest(conf, out)
	bad := []string{"", "bs", "a", "b", "as"}[vf.Pick("bad", 5)]
	kind := vzFail
	if bad == "a" || bad == "b" {
		kind = []int{vzFail, vzPanic, vzSkip}[vf.Pick("kind", 3)]
	} else if bad != "" {
		kind = []int{vzFail, vzPanic}[vf.Pick("kind", 2)]
	}
	first := vf.Pick("process with the failing suite node", 3)
	p.run(func(k int, w *vzWorld) {
		w.conf.RandomSeed = 17
		body := func(name string) func() {
			return func() {
				if name != "bs" && name != "as" {
					p.gate(k, name)
				}
				id := name + "-" + w.suite.currentSpecReport.LeafNodeText + "-" + string(rune('0'+k)) + "."
				w.w.Write([]byte("wrote-" + id + "\nand-" + id + "\n"))
				if name == bad && (name != "bs" && name != "as" || first == 0 || first == k) {
					w.conclude(id, kind)
				}
			}
		}
		w.add(types.NodeTypeBeforeSuite, "", body("bs"))
		w.add(types.NodeTypeAfterSuite, "", body("as"))
		w.add(types.NodeTypeContainer, "container", func() {
			w.add(types.NodeTypeIt, "a", body("a"))
			w.add(types.NodeTypeIt, "b", body("b"))
			w.add(types.NodeTypeIt, "c", body("c"))
		})
	})
	s := string(out.all)
	failing, succ := 0, true
	for k := 1; k <= 2; k++ {
		succ = succ && p.worlds[k].succ
		for _, r := range p.worlds[k].rep.did {
			lo, hi := -1, -1
			for _, l := range strings.Split(r.CapturedGinkgoWriterOutput, "\n") {
				if l == "" {
					continue
				}
				n := 0
				if r.Failed() || level >= 2 {
					n = 1
				}
				vf.Assert(strings.Count(s, l) == n, "what a spec wrote is shown once if it failed or the run is verbose, on whatever process it ran")
				if lo = hi; n == 1 {
					hi = strings.Index(s, l)
				}
			}
			if lo >= 0 && hi >= 0 {
				vf.Assert(!strings.Contains(s[lo:hi], "-----"), "a spec's output is in one piece")
				vf.Reach("verbose")
			}
			if !r.Failed() {
				continue
			}
			failing++
			vf.Reach("failed")
			if r.LeafNodeType.Is(types.NodeTypesForSuiteLevelNodes) {
				vf.Reach("suite")
			} else {
				vf.Assert(strings.Contains(s, "container") && strings.Contains(s, r.LeafNodeText), "a failing spec is named")
			}
			if r.State == types.SpecStatePanicked {
				vf.Assert(strings.Count(s, r.Failure.ForwardedPanic) == 1, "the value of a panic is shown once")
			} else {
				vf.Assert(strings.Count(s, r.Failure.Message) == 1, "the message of a failure is shown once")
			}
		}
	}
	if failing == 2 {
		vf.Reach("both")
		vf.Assert(strings.Contains(s, "Summarizing 2 Failures:"), "the summary has the failures of every process")
	}
	if failing == 1 {
		vf.Assert(strings.Contains(s, "Summarizing 1 Failure:"), "the summary has the failures of every process")
	}
	vf.Assert(strings.Contains(s, "SUCCESS!") == succ && strings.Contains(s, "FAIL!") != succ, "the console's verdict is that of all processes")
}
