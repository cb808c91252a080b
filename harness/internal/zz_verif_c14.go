package internal

import (
	"context"
	"fmt"
	"strings"
	"time"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// vzTimed is what the documentation says about one node: when it ends, how, and which timeout it blames.
type vzTimed struct {
	start, end int
	timedOut   bool
	leaked     bool
	blame      string
}

// vzTime computes it, for a node that starts at start and needs dur, or returns rest after its context is cancelled.
func vzTime(start, dur, rest, suiteDeadline, specDeadline, nodeTimeout, grace int, ctx bool) vzTimed {
	eff, blame := 0, ""
	if suiteDeadline > 0 {
		eff, blame = suiteDeadline, "suite"
	}
	if specDeadline > 0 {
		vf.Assume(specDeadline != eff)
		if eff == 0 || specDeadline < eff {
			eff, blame = specDeadline, "spec"
		}
	}
	if eff > 0 {
		vf.Assume(eff != start)
	}
	if eff > 0 && eff < start { // out of time: cleanup gets its own timeout, or else the grace period
		eff = 0
		if nodeTimeout == 0 {
			eff, blame = start+grace, "grace period"
		}
	}
	if nodeTimeout > 0 {
		vf.Assume(start+nodeTimeout != eff)
		if eff == 0 || start+nodeTimeout < eff {
			eff, blame = start+nodeTimeout, "node"
		}
	}
	if eff > 0 {
		vf.Assume(start+dur != eff)
	}
	if eff == 0 || start+dur < eff {
		return vzTimed{start: start, end: start + dur, blame: ""}
	}
	if !ctx {
		return vzTimed{start: start, end: eff, timedOut: true, leaked: true, blame: blame}
	}
	vf.Assume(rest != grace)
	if rest < grace {
		return vzTimed{start: start, end: eff + rest, timedOut: true, blame: blame}
	}
	return vzTimed{start: start, end: eff + grace, timedOut: true, leaked: true, blame: blame}
}

// A node runs until it returns or until the nearest of the timeouts that apply to it, then its context is cancelled and
// it gets one grace period; cleanup still runs when time is up, with a timeout of its own.
//
//verif:quick 200s
//verif:thorough 400s
//verif:synctest
//verif:bounds two specs in one container, with BeforeEach and AfterEach, all durations symbolic (1..9 units of time) and no two events at the same instant: suite timeout, spec timeout, node timeout of one of the nodes, grace period (suite-wide, or its own of one node), how long each node of the first spec takes, and takes to return after cancellation; nodes with or without a context; retried up to once
//verif:reach intime suite spec node grace leaked ctxless failslate overdue nodeoverdue
func VerifC14_Timeouts() { vzTimeouts(false) }

// A spec that times out is retried with a fresh spec timeout.
//
//verif:quick 90s
//verif:thorough 100s
//verif:synctest
//verif:bounds as VerifC14_Timeouts, with a symbolic spec timeout, FlakeAttempts=2, and a node timeout on the spec or nowhere
//verif:reach intime spec node leaked retried
func VerifC14_Retried() { vzTimeouts(true) }

func vzTimeouts(retry bool) {
	w := vzNewWorld(vzPass)
	t0 := time.Now()
	now := func() int { return int(time.Since(t0)) }
	dur := func(name string) int { return vf.Int(name, 1, 9) }
	sec := func(n int) time.Duration { return time.Duration(n) }
	const grace = 3
	w.conf.GracePeriod = sec(grace)
	suiteT, specT := 0, 0
	kind := 2
	if !retry {
		kind = vf.Pick("timeouts", 4)
	}
	if kind == 1 || kind == 3 {
		suiteT = vf.Int("suite timeout", 1, 30)
		w.conf.Timeout = sec(suiteT)
	}
	if kind >= 2 {
		specT = vf.Int("spec timeout", 1, 20)
	}
	names := []string{"be", "i1", "ae"}
	timeoutOn := 3 // none
	if !retry {
		timeoutOn = vf.Pick("node with a timeout", 4)
	} else if vf.Bool("node timeout on the spec") {
		timeoutOn = 1
	}
	graceOn := timeoutOn
	nodeT, ownGrace := 0, -1
	if timeoutOn < 3 {
		nodeT = dur("node timeout")
		if !retry && vf.Bool("own grace period") {
			ownGrace = vf.Int("grace period", 0, 5)
		}
	}
	ctxless := 3
	if timeoutOn == 3 && !retry {
		ctxless = vf.Pick("node without a context", 4)
	}
	slow, late := 1, false
	if !retry {
		slow = vf.Pick("node that returns late", 3)
		late = (vf.Tier() == 1 || ownGrace < 0 && ctxless == 3 && kind < 3) && vf.Bool("it fails then")
	}
	durs, rests := []int{1, 1, 1}, []int{1, 1, 1}
	durs[slow] = dur("duration")
	rests[slow] = dur("rest")
	other := (slow + 1) % 3
	if vf.Tier() == 1 || kind < 3 && !(retry && timeoutOn == 1) {
		durs[other] = dur("duration")
	}
	if vf.Tier() == 1 {
		rests[other] = dur("rest")
	}
	if retry {
		w.conf.FlakeAttempts = 2
	}

	starts := []int{}
	startNames := []string{}
	runningNow := ""
	causes := map[int]string{}
	run := func(k int, sc SpecContext) {
		name := names[k]
		first := w.report("i1").LeafNodeText == ""
		starts = append(starts, now())
		startNames = append(startNames, name)
		if !first {
			return
		}
		run := len(starts)
		runningNow = fmt.Sprint(run)
		defer func() {
			if runningNow != fmt.Sprint(run) {
				<-make(chan int) // leaked: stay out of the way
			}
		}()
		if sc == nil {
			time.Sleep(sec(durs[k]))
			return
		}
		select {
		case <-time.After(sec(durs[k])):
		case <-sc.Done():
			causes[run-1] = context.Cause(sc).Error()
			time.Sleep(sec(rests[k]))
			if late && k == slow {
				if runningNow != fmt.Sprint(run) {
					<-make(chan int)
				}
				w.failer.Fail("late failure", types.CodeLocation{})
				panic("ginkgo panic")
			}
		}
	}
	args := func(k int) []any {
		a := []any{}
		if k == timeoutOn {
			a = append(a, NodeTimeout(sec(nodeT)))
		}
		if k == graceOn && ownGrace >= 0 {
			a = append(a, GracePeriod(sec(ownGrace)))
		}
		if k == 1 && specT > 0 {
			a = append(a, SpecTimeout(sec(specT)))
		}
		if k == ctxless {
			if k == 1 && specT > 0 {
				vf.Exit() // timeouts need a context
			}
			return append(a, func() { run(k, nil) })
		}
		return append(a, func(sc SpecContext) { run(k, sc) })
	}
	i2ran := -1
	w.add(types.NodeTypeContainer, "C", func() {
		w.add(types.NodeTypeBeforeEach, "", args(0)...)
		w.add(types.NodeTypeAfterEach, "", args(2)...)
		w.add(types.NodeTypeIt, "i1", args(1)...)
		w.add(types.NodeTypeIt, "i2", func() {
			runningNow = "i2"
			i2ran = now()
		})
	})
	w.run()
	total := now()

	// the reference
	pos := 0
	at := 0
	state := types.SpecStatePassed
	attempts := 0
	failures := []types.Failure{}
	late2 := 0
	check := func(k int, specDeadline int) vzTimed {
		g := grace
		nt := 0
		if k == timeoutOn {
			nt = nodeT
		}
		if k == graceOn && ownGrace >= 0 {
			g = ownGrace
		}
		t := vzTime(at, durs[k], rests[k], suiteT, specDeadline, nt, g, k != ctxless)
		vf.Assert(pos < len(starts) && startNames[pos] == names[k], "setup, spec and cleanup run in order, cleanup also after a timeout")
		if pos < len(starts) {
			vf.Assert(starts[pos] == at, "a node starts as soon as the one before it is done, or has used up its grace period")
		}
		if t.timedOut {
			if k != ctxless {
				vf.Assert(causes[pos] == t.blame+" timeout occurred", "a node's context is cancelled because of the timeout that is up first")
			}
			f := types.Failure{Message: "A " + t.blame + " timeout occurred"}
			if !t.leaked && late && k == slow {
				f.AdditionalFailure = &types.AdditionalFailure{}
				late2++
				vf.Reach("failslate")
			}
			failures = append(failures, f)
			if state == types.SpecStatePassed {
				state = types.SpecStateTimedout
			}
			switch t.blame {
			case "suite", "spec", "node":
				vf.Reach(t.blame)
			case "grace period":
				vf.Reach("grace")
			}
			if t.leaked {
				vf.Reach("leaked")
				if k == ctxless {
					vf.Reach("ctxless")
				}
			}
			if specDeadline > 0 && specDeadline < t.start {
				vf.Reach("overdue")
				if t.blame == "node" {
					vf.Reach("nodeoverdue")
				}
			}
		}
		pos++
		at = t.end
		return t
	}
	for {
		attempts++
		state = types.SpecStatePassed
		failures = nil
		sd := 0
		if specT > 0 {
			sd = at + specT
		}
		if !check(0, sd).timedOut {
			check(1, sd)
		}
		check(2, sd)
		if state == types.SpecStatePassed || !retry || attempts == 2 {
			break
		}
		vf.Reach("retried")
	}
	r := w.report("i1")
	vf.Assert(r.State == state, "a spec times out exactly when one of its nodes does")
	vf.Assert(r.NumAttempts == attempts, "a spec that timed out is retried like one that failed")
	if state == types.SpecStatePassed {
		vf.Reach("intime")
	} else {
		vf.Assert(r.Failure.Message == failures[0].Message, "the failure names the timeout that was up first")
		vf.Assert((r.Failure.AdditionalFailure != nil) == (failures[0].AdditionalFailure != nil), "a failure after the timeout, within the grace period, is kept")
		if r.Failure.AdditionalFailure != nil {
			vf.Assert(strings.HasSuffix(r.Failure.AdditionalFailure.Failure.Message, "late failure"), "a failure after the timeout keeps its message")
		}
		extra := 0
		for _, f := range r.AdditionalFailures {
			if !strings.HasPrefix(f.Failure.Message, "Failure recorded during attempt") {
				extra++
				vf.Assert(attempts > 1 || len(failures) > 1 && f.Failure.Message == failures[1].Message, "a later timeout is reported as well")
			}
		}
		vf.Assert(extra == len(failures)-1 || attempts > 1 && extra > len(failures)-1, "every timeout of a spec is reported")
	}
	// the second spec, and the suite's verdict
	if suiteT > 0 {
		vf.Assume(at != suiteT)
	}
	if suiteT > 0 && suiteT < at {
		vf.Assert(i2ran < 0 && w.report("i2").State == types.SpecStateSkipped, "no spec starts after the suite's timeout")
		vf.Assert(len(starts) == pos, "nothing runs for a spec that is skipped")
		vf.Assert(total == at, "the suite ends once its nodes have")
		vf.Assert(!w.succ, "a suite that times out fails")
		found := false
		for _, f := range w.rep.end[0].SpecialSuiteFailureReasons {
			found = found || f == "Suite Timeout Elapsed"
		}
		vf.Assert(found, "a suite that times out says so")
	} else {
		vf.Assert(i2ran == at && w.report("i2").State == types.SpecStatePassed, "a spec that times out does not keep the next from running")
		vf.Assert(w.succ == (state == types.SpecStatePassed), "the suite passes exactly when nothing timed out")
	}
}
