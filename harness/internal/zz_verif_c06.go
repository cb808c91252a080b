package internal

import (
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

type vzLevel struct {
	be, jbe, ae, jae int // how many of each setup node the level declares
	cleanup          bool
}

// The nodes around one spec run in the documented order: BeforeEach outermost first, then JustBeforeEach outermost
// first, the spec, JustAfterEach innermost first, AfterEach innermost first, then cleanups most recent first; a node
// that does not pass ends the setup, and only the teardown of the levels already entered runs.
//
//verif:quick 200s
//verif:thorough 400s
//verif:bounds one spec below 0-2 containers with at most 5 (thorough: 6) setup nodes, at most 2 (3) of the node runs not passing; at each level 0-1 (thorough: 0-2) BeforeEach, JustBeforeEach, AfterEach and JustAfterEach; every outcome pass/fail/skip of every node (thorough: also panic); a DeferCleanup in the outermost BeforeEach and in the spec
//verif:reach passed setupfailed teardownfailed cleanups
func VerifC06_Order() {
	w := vzNewWorld(vzPass, vzFail, vzSkip)
	w.maxBad = 2 + vf.Tier()
	if vf.Tier() == 1 {
		w.fallback = []int{vzPass, vzFail, vzPanic, vzSkip}
	}
	depth := vf.Pick("depth", 3)
	levels := make([]vzLevel, depth+1)
	max := 2
	clean := vf.Bool("cleanups")
	for i := range levels {
		if vf.Tier() == 1 && i == depth {
			max = 3
		}
		levels[i] = vzLevel{be: vf.Pick("be", max), jbe: vf.Pick("jbe", 2), ae: vf.Pick("ae", max), jae: vf.Pick("jae", 2)}
	}
	total := 0
	for i := range levels {
		total += levels[i].be + levels[i].jbe + levels[i].ae + levels[i].jae
	}
	vf.Assume(total <= 5+vf.Tier())
	w.allowed["clean-it"] = []int{vzPass, vzFail}
	w.allowed["clean-be"] = []int{vzPass}
	name := func(kind string, level, k int) string { return kind + vzNames[level] + vzNames[k] }
	withCleanup := func(n string) func() {
		return func() {
			w.log = append(w.log, n)
			if clean {
				c := "clean-it"
				if n != "it" {
					c = "clean-be"
				}
				node, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, w.body(c))
				w.push(node, errs)
			}
			w.conclude(n, w.pick(n))
		}
	}
	outer := "" // the outermost BeforeEach also registers a cleanup
	for i := 0; i <= depth && outer == ""; i++ {
		if levels[i].be > 0 {
			outer = name("be", i, 0)
		}
	}
	var declare func(level int)
	declare = func(level int) {
		l := levels[level]
		for k := 0; k < l.ae; k++ {
			w.add(types.NodeTypeAfterEach, "", w.body(name("ae", level, k)))
		}
		for k := 0; k < l.jae; k++ {
			w.add(types.NodeTypeJustAfterEach, "", w.body(name("jae", level, k)))
		}
		if level == depth {
			w.add(types.NodeTypeIt, "it", withCleanup("it"))
		} else {
			w.add(types.NodeTypeContainer, "C", func() { declare(level + 1) })
		}
		for k := 0; k < l.jbe; k++ {
			w.add(types.NodeTypeJustBeforeEach, "", w.body(name("jbe", level, k)))
		}
		for k := 0; k < l.be; k++ {
			n := name("be", level, k)
			if n == outer {
				w.add(types.NodeTypeBeforeEach, "", withCleanup(n))
			} else {
				w.add(types.NodeTypeBeforeEach, "", w.body(n))
			}
		}
	}
	declare(0)
	w.run()

	// the reference order
	want := []string{}
	failedAt := -1
	state := vzPass
	cleanups := []string{}
	step := func(n string, level int) {
		if failedAt >= 0 {
			return
		}
		want = append(want, n)
		if clean && n == "it" {
			cleanups = append(cleanups, "clean-it")
		}
		if clean && n == outer {
			cleanups = append(cleanups, "clean-be")
		}
		if o := w.outcome[n]; o != vzPass {
			failedAt, state = level, o
		}
	}
	for i := range levels {
		for k := 0; k < levels[i].be; k++ {
			step(name("be", i, k), i)
		}
	}
	for i := range levels {
		for k := 0; k < levels[i].jbe; k++ {
			step(name("jbe", i, k), i)
		}
	}
	setupFailed := failedAt >= 0
	step("it", depth)
	top := depth
	if failedAt >= 0 {
		top = failedAt
	}
	extra := 0
	after := func(n string) {
		want = append(want, n)
		o := w.outcome[n]
		if state == vzPass {
			state = o
		} else if o == vzFail || o == vzPanic {
			extra++
		}
		if o != vzPass {
			vf.Reach("teardownfailed")
		}
	}
	for i := top; i >= 0; i-- {
		for k := 0; k < levels[i].jae; k++ {
			after(name("jae", i, k))
		}
	}
	for i := top; i >= 0; i-- {
		for k := 0; k < levels[i].ae; k++ {
			after(name("ae", i, k))
		}
	}
	for i := len(cleanups) - 1; i >= 0; i-- {
		vf.Reach("cleanups")
		after(cleanups[i])
	}
	vf.Observe("log", vzJoin(w.log))
	vf.Assert(vzJoin(w.log) == vzJoin(want), "setup, subject and teardown nodes run in the documented order")
	r := w.report("it")
	vf.Assert(r.State == vzStates[state], "the spec's state is that of the first node that did not pass")
	vf.Assert(len(r.AdditionalFailures) == extra, "every later failure is kept as an additional failure")
	vf.Assert(w.succ == (state == vzPass || state == vzSkip), "the suite succeeds exactly when no spec failed")
	if setupFailed {
		vf.Reach("setupfailed")
	}
	if state == vzPass {
		vf.Reach("passed")
	}
}
