package internal

import (
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// In an ordered container a failing spec skips the specs after it, unless the container continues on failure; a
// failing or skipping BeforeAll skips every spec; nothing else is affected.
//
//verif:quick 120s
//verif:thorough 300s
//verif:bounds an ordered container (ContinueOnFailure or not) of 3 (thorough: 4) specs, each run or pending, with a BeforeEach outside it and a BeforeAll, BeforeEach, AfterEach and AfterAll inside; one spec outside; every outcome pass/fail/skip of at most 3 node runs (thorough: also panic)
//verif:reach continued skippedrest skippedall
func VerifC09_OrderedFailure() {
	w := vzNewWorld(vzPass, vzFail, vzSkip)
	w.maxBad = 3
	n := 3
	if vf.Tier() == 1 {
		w.fallback = []int{vzPass, vzFail, vzSkip, vzPanic}
		n = 4
	}
	cont := vf.Bool("continueOnFailure")
	outerFirst := vf.Bool("outsideFirst")
	args := []any{Ordered}
	if cont {
		args = append(args, ContinueOnFailure)
	}
	type run struct{ beforeAll, outcome int } // of one spec
	names := []string{"i1", "i2", "i3", "i4"}[:n]
	cur := ""
	reached := map[string]bool{}
	bad := map[string]bool{}     // some node of the spec failed
	skipped := map[string]bool{} // and none failed but one was skipped
	inBA := map[string]int{}
	body := func(name string) func() {
		return func() {
			cur = w.suite.CurrentSpecReport().LeafNodeText
			reached[cur] = true
			o := w.pick(name)
			if o == vzSkip && !bad[cur] {
				skipped[cur] = true
			}
			if (o == vzFail || o == vzPanic) && !skipped[cur] {
				bad[cur] = true
			}
			if name == "ba" {
				inBA[cur] = o
			}
			w.log = append(w.log, name)
			w.conclude(name, o)
		}
	}
	pend := make([]bool, n)
	w.add(types.NodeTypeBeforeEach, "", body("be0"))
	outside := func() { w.add(types.NodeTypeIt, "out", body("out")) }
	if outerFirst {
		outside()
	}
	args = append(args, func() {
		w.add(types.NodeTypeBeforeAll, "", body("ba"))
		w.add(types.NodeTypeBeforeEach, "", body("be"))
		w.add(types.NodeTypeAfterEach, "", body("ae"))
		w.add(types.NodeTypeAfterAll, "", body("aa"))
		for k, name := range names {
			a := []any{}
			pend[k] = vf.Bool("pending")
			if pend[k] {
				a = append(a, Pending)
			}
			w.add(types.NodeTypeIt, name, append(a, body(name))...)
		}
	})
	w.add(types.NodeTypeContainer, "C", args...)
	if !outerFirst {
		outside()
	}
	w.run()

	stop := false   // a spec failed and the container does not continue
	baBad := false  // BeforeAll failed
	baSkip := false // BeforeAll was skipped
	baDone := false
	for k, name := range names {
		r := w.report(name)
		if pend[k] {
			vf.Assert(r.State == types.SpecStatePending, "a pending spec is reported as pending")
			vf.Assert(!reached[name], "a pending spec does not run")
			continue
		}
		blocked := baSkip || (stop && !cont) || (baBad && cont)
		if blocked {
			vf.Assert(!reached[name], "after a failure in an ordered container nothing of its later specs runs")
			vf.Assert(r.State == types.SpecStateSkipped, "after a failure in an ordered container its later specs are skipped")
			vf.Assert(r.NumAttempts == 0, "a blocked spec is not attempted")
			vf.Assert(r.Failure.Message != "", "a blocked spec says why it was skipped")
			if baSkip {
				vf.Reach("skippedall")
			} else {
				vf.Reach("skippedrest")
			}
			continue
		}
		vf.Assert(reached[name], "a spec that nothing blocks is attempted")
		want := types.SpecState(0)
		switch {
		case bad[name]:
			want = types.SpecStateFailureStates
			if stop && cont {
				vf.Reach("continued")
			}
		case skipped[name]:
			want = types.SpecStateSkipped
		default:
			want = types.SpecStatePassed
			if stop && cont {
				vf.Reach("continued")
			}
		}
		vf.Assert(r.State.Is(want), "a spec's state reflects its own nodes")
		if bad[name] {
			stop = true
		}
		if o, ok := inBA[name]; ok {
			vf.Assert(!baDone, "a BeforeAll is not run again once it has passed")
			switch o {
			case vzPass:
				baDone = true
			case vzSkip:
				baSkip = true
			default:
				baBad = true
			}
		}
	}
	r := w.report("out")
	vf.Assert(reached["out"] && r.NumAttempts == 1, "failures in an ordered container do not affect other specs")
	vf.Assert(w.succ == (len(bad) == 0), "the suite fails exactly when some spec failed")
	vf.Observe("log", vzJoin(w.log))
}

// A setup or teardown node decorated OncePerOrdered runs once around an ordered container and once around every spec
// outside ordered containers.
//
//verif:quick 120s
//verif:thorough 300s
//verif:bounds BeforeEach, JustBeforeEach, AfterEach or JustAfterEach nodes (any two of them OncePerOrdered) outside an ordered container of 3 specs (each run, pending or filtered) and a plain spec, with an optional unordered container around the ordered one; at most 2 node runs fail or skip
//verif:reach around failed plain
func VerifC07_OncePerOrdered() {
	w := vzNewWorld(vzPass, vzFail, vzSkip)
	w.maxBad = 1 + vf.Tier()
	nested := vf.Bool("nested")
	once := make([]bool, 4)
	kinds := []types.NodeType{types.NodeTypeBeforeEach, types.NodeTypeJustBeforeEach, types.NodeTypeAfterEach, types.NodeTypeJustAfterEach}
	short := []string{"be", "jbe", "ae", "jae"}
	anyOnce := false
	type hit struct{ node, spec string }
	hits := []hit{}
	body := func(name string) func() {
		return func() {
			hits = append(hits, hit{name, w.suite.CurrentSpecReport().LeafNodeText})
			w.log = append(w.log, name)
			w.conclude(name, w.pick(name))
		}
	}
	w.conf.LabelFilter = "!out"
	names := []string{"i1", "i2", "i3"}
	mode := make([]int, 3)
	decl := func() {
		for k := range kinds {
			once[k] = vf.Bool("once")
			anyOnce = anyOnce || once[k]
			if once[k] {
				w.add(kinds[k], "", OncePerOrdered, body(short[k]))
			} else {
				w.add(kinds[k], "", body(short[k]))
			}
		}
		w.add(types.NodeTypeContainer, "C", Ordered, func() {
			for k, name := range names {
				a := []any{}
				mode[k] = vf.Pick("mode", 3)
				if mode[k] == 1 {
					a = append(a, Pending)
				}
				if mode[k] == 2 {
					a = append(a, Labels{"out"})
				}
				w.add(types.NodeTypeIt, name, append(a, body(name))...)
			}
		})
		w.add(types.NodeTypeIt, "plain", body("plain"))
	}
	if nested {
		w.add(types.NodeTypeContainer, "U", decl)
	} else {
		decl()
	}
	vf.Assume(anyOnce)
	w.run()
	vf.Observe("log", vzJoin(w.log))
	anyBad := w.bad > 0
	for k := range kinds {
		if !once[k] {
			continue
		}
		inC, inPlain, entered := 0, 0, false
		first, last := -1, -1
		firstSpec, lastSpec := -1, -1
		for i, h := range hits {
			isIt := h.node == "i1" || h.node == "i2" || h.node == "i3"
			switch {
			case h.node == short[k] && h.spec == "plain":
				inPlain++
			case h.node == short[k]:
				inC++
				if first < 0 {
					first = i
				}
				last = i
			case h.spec != "plain":
				entered = true
				if isIt {
					if firstSpec < 0 {
						firstSpec = i
					}
					lastSpec = i
				}
			}
		}
		vf.Assert(inPlain <= 1, "a node decorated OncePerOrdered runs at most once around a plain spec")
		vf.Assert(inC <= 1, "a node decorated OncePerOrdered runs at most once around an ordered container")
		if firstSpec >= 0 {
			vf.Reach("around")
			if k < 2 {
				vf.Assert(inC == 1 && first < firstSpec, "a OncePerOrdered setup node runs before the specs of the ordered container")
				vf.Assert(w.outcome[short[k]] == vzPass || anyBad, "specs run only after their setup")
			} else {
				vf.Assert(inC == 1 && last > lastSpec, "a OncePerOrdered teardown node runs after the specs of the ordered container")
			}
		}
		if k >= 2 && entered {
			vf.Assert(inC == 1, "a OncePerOrdered teardown node runs whenever its ordered container was entered")
		}
		if !entered && inC == 0 {
			vf.Reach("plain")
		}
	}
	if anyBad {
		vf.Reach("failed")
	}
}

// Failures of reporting nodes count as failures of their spec, and never let specs run that an earlier failure blocks.
//
//verif:quick 120s
//verif:thorough 200s
//verif:bounds an ordered container (ContinueOnFailure or not) of 3 (thorough: 4) specs, with ReportBeforeEach, BeforeAll and ReportAfterEach; every pass/fail of each of their runs and of each spec; the BeforeAll may also skip
//verif:reach blocked ba continued
func VerifC09_ReportFailures() {
	w := vzNewWorld(vzPass, vzFail)
	w.allowed["ba"] = []int{vzPass, vzFail, vzSkip}
	cont := vf.Bool("continueOnFailure")
	args := []any{Ordered}
	if cont {
		args = append(args, ContinueOnFailure)
	}
	names := []string{"i1", "i2", "i3", "i4"}[:3+vf.Tier()]
	type hit struct {
		node, spec string
		outcome    int
	}
	hits := []hit{}
	do := func(name, spec string) {
		o := w.pick(name)
		hits = append(hits, hit{name, spec, o})
		w.conclude(name, o)
	}
	fn := func(name string) func() {
		return func() { do(name, w.suite.CurrentSpecReport().LeafNodeText) }
	}
	args = append(args, func() {
		w.add(types.NodeTypeReportBeforeEach, "", func(r types.SpecReport) { do("rbe", r.LeafNodeText) })
		w.add(types.NodeTypeReportAfterEach, "", func(r types.SpecReport) { do("rae", r.LeafNodeText) })
		w.add(types.NodeTypeBeforeAll, "", fn("ba"))
		for _, name := range names {
			w.add(types.NodeTypeIt, name, fn(name))
		}
	})
	w.add(types.NodeTypeContainer, "C", args...)
	w.run()
	ba := -1
	failed := false // some earlier spec
	anyFailed := false
	for _, name := range names {
		got := map[string]int{}
		for _, h := range hits {
			if h.spec == name {
				_, twice := got[h.node]
				vf.Assert(!twice, "a node runs at most once for a spec")
				got[h.node] = h.outcome
			}
		}
		r := w.report(name)
		rbe, ok := got["rbe"]
		_, ok2 := got["rae"]
		vf.Assert(ok && ok2, "the reporting nodes run for every spec, also a skipped one")
		_, baRan := got["ba"]
		it, itRan := got[name]
		blocked := ba == vzSkip || failed && !cont || ba == vzFail && cont
		if blocked {
			vf.Reach("blocked")
			vf.Assert(!baRan && !itRan, "after a failure in an ordered container nothing of its later specs runs")
			vf.Assert(r.State == types.SpecStateSkipped || r.State == types.SpecStateFailed && (rbe == vzFail || got["rae"] == vzFail), "a blocked spec is skipped")
		} else if rbe == vzPass {
			vf.Assert(baRan == (ba != vzPass), "the BeforeAll runs for the first spec that is not blocked")
			if baRan {
				vf.Reach("ba")
				ba = got["ba"]
			}
			vf.Assert(itRan == (ba == vzPass), "a spec runs once its setup has passed")
			if failed && itRan {
				vf.Reach("continued")
			}
		} else {
			vf.Assert(!baRan && !itRan, "a spec whose ReportBeforeEach fails does not run")
		}
		bad := rbe == vzFail || got["rae"] == vzFail || baRan && ba == vzFail || itRan && it == vzFail
		vf.Assert(r.State.Is(types.SpecStateFailureStates) == bad, "a spec fails exactly when one of its nodes does")
		failed = failed || bad
		anyFailed = anyFailed || bad
	}
	vf.Assert(w.succ == !anyFailed, "the suite fails exactly when some spec failed")
}
