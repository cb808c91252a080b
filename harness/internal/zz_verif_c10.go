package internal

import (
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// A spec is attempted as often as the retry configuration in force says: repeatedly until it fails (must pass
// repeatedly, which takes precedence), or until it passes (flake attempts), and reports the last attempt's outcome.
//
//verif:quick 120s
//verif:thorough 200s
//verif:bounds one spec with BeforeEach and AfterEach in a container; suite-level and container- and spec-level FlakeAttempts and MustPassRepeatedly of 1..3; every outcome pass/fail/skip of every node run (thorough: also panic)
//verif:reach once flaked repeated gaveup
func VerifC10_Attempts() {
	w := vzNewWorld(vzPass, vzFail, vzSkip)
	if vf.Tier() == 1 {
		w.fallback = []int{vzPass, vzFail, vzPanic, vzSkip}
	}
	w.allowed["ae"] = []int{vzPass, vzFail}
	w.conf.FlakeAttempts = []int{0, 2}[vf.Pick("suiteFlake", 2)]
	w.conf.MustPassRepeatedly = []int{0, 2}[vf.Pick("suiteRepeat", 2)]
	fa, mpr := 0, 0
	deco := func(vals []int) []any {
		switch vf.Pick("decorator", 3) {
		case 1:
			n := vals[vf.Pick("flake", len(vals))]
			fa = n
			return []any{FlakeAttempts(n)}
		case 2:
			n := vals[vf.Pick("repeat", len(vals))]
			mpr = n
			return []any{MustPassRepeatedly(n)}
		}
		return nil
	}
	cArgs := deco([]int{2})
	iArgs := deco([]int{1, 3})
	type attempt struct{ be, it, ae int }
	atts := []attempt{}
	cArgs = append(cArgs, func() {
		w.add(types.NodeTypeBeforeEach, "", func() {
			o := w.pick("be")
			atts = append(atts, attempt{be: o, it: -1, ae: -1})
			w.conclude("be", o)
		})
		iArgs = append(iArgs, func() {
			o := w.pick("it")
			atts[len(atts)-1].it = o
			w.conclude("it", o)
		})
		w.add(types.NodeTypeIt, "it", iArgs...)
		w.add(types.NodeTypeAfterEach, "", func() {
			o := w.pick("ae")
			atts[len(atts)-1].ae = o
			w.conclude("ae", o)
		})
	})
	w.add(types.NodeTypeContainer, "C", cArgs...)
	w.run()
	vf.Observe("attempts", len(atts))

	repeat, n := false, 1
	switch {
	case w.conf.MustPassRepeatedly > 0:
		repeat, n = true, w.conf.MustPassRepeatedly
	case mpr > 0:
		repeat, n = true, mpr
	case w.conf.FlakeAttempts > 0:
		n = w.conf.FlakeAttempts
	case fa > 0:
		n = fa
	}
	state := vzPass
	retried := 0
	k := 0
	for k < n {
		vf.Assert(k < len(atts), "a spec is attempted until its retry policy is satisfied")
		if k >= len(atts) {
			return
		}
		a := atts[k]
		vf.Assert((a.it >= 0) == (a.be == vzPass), "each attempt runs the spec exactly when its setup passed")
		vf.Assert(a.ae >= 0, "each attempt runs its teardown")
		state = a.be
		if state == vzPass {
			state = a.it
		}
		if state == vzPass {
			state = a.ae
		}
		k++
		if repeat && state != vzPass {
			break
		}
		if !repeat {
			if state == vzPass || state == vzSkip {
				break
			}
			if k < n {
				retried++
			}
		}
	}
	vf.Assert(len(atts) == k, "a spec is attempted no more often than its retry policy says")
	r := w.report("it")
	vf.Assert(r.State == vzStates[state], "the spec reports the outcome of its last attempt")
	vf.Assert(r.NumAttempts == k, "the spec reports the number of attempts made")
	kept := 0
	for _, f := range r.AdditionalFailures {
		if strings.HasPrefix(f.Failure.Message, "Failure recorded during attempt") {
			kept++
		}
	}
	vf.Assert(kept == retried, "the failure of every retried attempt is kept")
	vf.Assert(w.succ == (state == vzPass || state == vzSkip), "the suite's verdict is that of the last attempt")
	flaked := !repeat && k > 1 && state == vzPass
	vf.Assert((types.SpecReports(w.rep.did).CountOfFlakedSpecs() == 1) == flaked, "exactly the specs that passed after a failed attempt count as flaked")
	switch {
	case k == 1:
		vf.Reach("once")
	case flaked:
		vf.Reach("flaked")
	case repeat && state == vzPass:
		vf.Reach("repeated")
	case state == vzFail:
		vf.Reach("gaveup")
	}
}
