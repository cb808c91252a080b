package internal

import (
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// BeforeAll and AfterAll nodes run once around the specs of their ordered container: BeforeAll before the first spec
// that gets to its level, AfterAll after the last one, whatever fails, is skipped, pending or filtered out.
//
//verif:quick 200s
//verif:thorough 400s
//verif:bounds an ordered container of 3 specs (the first or last one or two optionally in a nested container with its own BeforeAll/AfterAll), each spec run, pending or filtered; a BeforeEach outside and inside the container and an AfterEach inside; ContinueOnFailure or not; at most 2 (thorough: 3) node runs end in fail or skip
//verif:reach ranall setupfailed skippedinall
func VerifC07_BeforeAfterAll() {
	w := vzNewWorld(vzPass, vzFail, vzSkip)
	w.maxBad = 2 + vf.Tier()
	lo, hi := 3, 3 // the specs that live in a nested container: none, the first or last one or two
	switch vf.Pick("nested", 5) {
	case 1:
		lo, hi = 2, 3
	case 2:
		lo, hi = 1, 3
	case 3:
		lo, hi = 0, 1
	case 4:
		lo, hi = 0, 2
	}
	outerBE, innerBE, ae := vf.Bool("outerBeforeEach"), vf.Bool("innerBeforeEach"), vf.Bool("afterEach")
	args := []any{Ordered}
	if vf.Bool("continueOnFailure") {
		args = append(args, ContinueOnFailure)
	}
	mode := make([]int, 3)
	names := []string{"i1", "i2", "i3"}
	spec := func(k int) {
		a := []any{}
		mode[k] = vf.Pick("mode", 3)
		if mode[k] == 1 {
			a = append(a, Pending)
		}
		if mode[k] == 2 {
			a = append(a, Labels{"out"})
		}
		a = append(a, w.body(names[k]))
		w.add(types.NodeTypeIt, names[k], a...)
	}
	w.conf.LabelFilter = "!out"
	if outerBE {
		w.add(types.NodeTypeBeforeEach, "", w.body("be0"))
	}
	args = append(args, func() {
		w.add(types.NodeTypeBeforeAll, "", w.body("ba1"))
		w.add(types.NodeTypeAfterAll, "", w.body("aa1"))
		if innerBE {
			w.add(types.NodeTypeBeforeEach, "", w.body("be1"))
		}
		if ae {
			w.add(types.NodeTypeAfterEach, "", w.body("ae1"))
		}
		for k := 0; k < lo; k++ {
			spec(k)
		}
		if lo < hi {
			w.add(types.NodeTypeContainer, "N", func() {
				w.add(types.NodeTypeBeforeAll, "", w.body("ba2"))
				w.add(types.NodeTypeAfterAll, "", w.body("aa2"))
				for k := lo; k < hi; k++ {
					spec(k)
				}
			})
			for k := hi; k < 3; k++ {
				spec(k)
			}
		}
	})
	w.add(types.NodeTypeContainer, "C", args...)
	w.run()
	vf.Observe("log", vzJoin(w.log))

	check := func(ba, aa string, level int, inside []string, inner []string) {
		nb, na := vzCount(w.log, ba), vzCount(w.log, aa)
		vf.Assert(nb <= 1, "a BeforeAll runs at most once")
		vf.Assert(na <= 1, "an AfterAll runs at most once")
		b, a := vzIndex(w.log, ba), vzIndex(w.log, aa)
		entered := false
		for _, x := range append(append([]string{}, inside...), inner...) {
			if i := vzIndex(w.log, x); i >= 0 {
				entered = true
				vf.Assert(a < 0 || vzLast(w.log, x) < a, "an AfterAll runs after everything else in its container")
			}
		}
		for _, x := range inside {
			if i := vzIndex(w.log, x); i >= 0 {
				vf.Assert(b >= 0 && b < i && w.outcome[ba] == vzPass, "specs run only after their BeforeAll has passed")
				vf.Reach("ranall")
			}
		}
		if nb == 1 {
			entered = true
			if w.outcome[ba] == vzFail {
				vf.Reach("setupfailed")
			}
			if w.outcome[ba] == vzSkip {
				vf.Reach("skippedinall")
			}
		}
		if entered {
			// known finding: nothing tears the outer container down when its last spec is skipped because a nested
			// BeforeAll called Skip()
			last := -1
			for k := range names {
				if mode[k] == 0 {
					last = k
				}
			}
			r := w.report(names[last])
			if level == 1 && lo <= last && last < hi && w.outcome["ba2"] == vzSkip && r.State == types.SpecStateSkipped && vzIndex(w.log, "ba2") >= 0 && r.NumAttempts == 0 && na == 0 {
				vf.Assert(false, "the AfterAll of a container runs even if its last spec is skipped because a nested BeforeAll called Skip()")
			} else {
				vf.Assert(na == 1, "the AfterAll of a container that was entered runs")
			}
		}
		if na == 1 {
			vf.Assert(entered, "the AfterAll of a container that was not entered does not run")
		}
	}
	check("ba1", "aa1", 1, names, []string{"be1", "ae1", "ba2", "aa2"})
	if lo < hi {
		check("ba2", "aa2", 2, names[lo:hi], nil)
	}
}
