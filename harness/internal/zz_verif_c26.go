package internal

import (
	"strings"
	"time"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

type vzProgress struct {
	at   int
	node types.NodeType
	leaf string
	step string
	more string
	out  string
	poll bool
}

// Progress reports come when they are due, asked for or polled, and show what is running then.
//
//verif:quick 100s
//verif:thorough 400s
//verif:synctest
//verif:bounds a spec with BeforeEach and AfterEach that take symbolic times (1..9 units; thorough 1..14), polled after a symbolic time and in symbolic intervals (or not), overridden by decorators on the spec (or turned off), a report asked for at any moment; steps, output and attached reporters come and go; no two events at the same instant
//verif:reach polled repeated requested override off attached detached step
func VerifC26_Progress() {
	w := vzNewWorld(vzPass)
	t0 := time.Now()
	now := func() int { return int(time.Since(t0)) }
	top := 9 + 5*vf.Tier()
	after, interval := 0, 0
	if vf.Bool("poll") {
		after, interval = vf.Int("after", 1, 6), vf.Int("interval", 0, 5)
	}
	w.conf.PollProgressAfter, w.conf.PollProgressInterval = time.Duration(after), time.Duration(interval)
	itAfter, itInterval := after, interval
	decor := []any{}
	decorators := vf.Concrete(vf.Pick("decorators", 4))
	full := vf.Tier() > 0 || decorators == 0
	switch decorators {
	case 1:
		itAfter = vf.Int("own after", 0, 5)
		decor = append(decor, PollProgressAfter(time.Duration(itAfter)))
	case 2:
		itInterval = vf.Int("own interval", 0, 4)
		decor = append(decor, PollProgressInterval(time.Duration(itInterval)))
	case 3:
		itAfter, itInterval = vf.Int("own after", 0, 5), vf.Int("own interval", 0, 4)
		decor = append(decor, PollProgressAfter(time.Duration(itAfter)), PollProgressInterval(time.Duration(itInterval)))
	}
	durs := []int{0, vf.Int("duration", 1, top), 0}
	if vf.Tier() > 0 || decorators == 1 {
		long := 2 * vf.Concrete(vf.Pick("other node that takes time", 2))
		durs[long] = vf.Int("duration", 1, top)
	} else {
		durs[2] = 2
	}
	stepAt := 0 // when the spec's step begins, after the spec began
	callback := false
	if full && vf.Bool("a step") {
		stepAt = vf.Int("step", 1, top)
		vf.Assume(stepAt < durs[1])
		callback = vf.Bool("with a callback")
	}
	asked := -1
	if full && vf.Bool("asked for") {
		asked = vf.Int("asked for at", 1, 3*top)
		w.signal = func(ask func()) {
			go func() {
				time.Sleep(time.Duration(asked))
				ask()
			}()
		}
	}
	kind := 0
	if full {
		kind = vf.Concrete(vf.Pick("attached", 3))
	}
	// 1: to the suite, for the spec's time, 2: to the spec's context as well
	got := []vzProgress{}
	w.rep.onProgress = func(r types.ProgressReport) {
		got = append(got, vzProgress{now(), r.CurrentNodeType, r.LeafNodeText, r.CurrentStepText, strings.Join(r.AdditionalReports, "+"), r.CapturedGinkgoWriterOutput, strings.Contains(r.Message, "olling")})
		vf.Assert(r.SpecStartTime.Equal(t0) == (r.LeafNodeText != ""), "a progress report tells when the spec began")
		if r.CurrentNodeType != types.NodeTypeInvalid {
			vf.Assert(int(r.CurrentNodeStartTime.Sub(t0)) == now()-vzSince(w, now()), "a progress report tells when the node began")
		}
	}
	starts := []int{}
	node := func(k int, sc SpecContext) {
		starts = append(starts, now())
		w.w.Write([]byte{byte('a' + k)})
		var detach func()
		if k == 1 && kind > 0 {
			detach = w.suite.AttachProgressReporter(func() string {
				return "suite"
			})
			w.suite.AttachProgressReporter(func() string { return " \n" })
			if kind == 2 {
				sc.AttachProgressReporter(func() string { return "context" })
			}
		}
		if k == 1 && stepAt > 0 {
			time.Sleep(time.Duration(stepAt))
			if callback {
				w.suite.By("step", func() { time.Sleep(time.Duration(durs[1] - stepAt)) })
			} else {
				w.suite.By("step")
				time.Sleep(time.Duration(durs[1] - stepAt))
			}
		} else {
			time.Sleep(time.Duration(durs[k]))
		}
		if detach != nil {
			detach()
		}
	}
	vzStarts = &starts
	w.add(types.NodeTypeBeforeEach, "", func(sc SpecContext) { node(0, sc) })
	w.add(types.NodeTypeAfterEach, "", func(sc SpecContext) { node(2, sc) })
	w.add(types.NodeTypeIt, "spec", append([]any{func(sc SpecContext) { node(1, sc) }}, decor...)...)
	w.run()
	total := now()
	// the reports that are due
	types_ := []types.NodeType{types.NodeTypeBeforeEach, types.NodeTypeIt, types.NodeTypeAfterEach}
	want := []vzProgress{}
	begin := []int{0, durs[0], durs[0] + durs[1], durs[0] + durs[1] + durs[2]}
	show := func(k, at int, poll bool) vzProgress {
		p := vzProgress{at: at, node: types_[k], leaf: "spec", out: "abc"[:k+1], poll: poll}
		if k == 1 && stepAt > 0 {
			vf.Assume(at != begin[1]+stepAt)
			if at > begin[1]+stepAt {
				vf.Reach("step")
				p.step = "step"
			}
		}
		if k == 1 {
			p.more = []string{"", "suite", "context+suite"}[kind]
			if kind > 0 {
				vf.Reach("attached")
			}
		} else if kind > 0 && k == 2 {
			vf.Reach("detached")
		}
		return p
	}
	for k := 0; k < 3; k++ {
		a, i := after, interval
		if k == 1 {
			a, i = itAfter, itInterval
		}
		at := begin[k] + a
		n := 0
		for a > 0 {
			vf.Assume(at != begin[k+1])
			if at > begin[k+1] {
				break
			}
			if asked >= 0 {
				vf.Assume(at != asked)
			}
			if asked > begin[k] && asked < at && (n == 0 || asked > at-i) {
				want = append(want, show(k, asked, false))
			}
			n++
			vf.Reach("polled")
			if n == 2 {
				vf.Reach("repeated")
			}
			if k == 1 && len(decor) > 0 {
				vf.Reach("override")
			}
			want = append(want, show(k, at, true))
			if i == 0 {
				break
			}
			at += i
		}
		if k == 1 && a == 0 && after > 0 {
			vf.Reach("off")
		}
		last := begin[k]
		if len(want) > 0 && want[len(want)-1].at > last {
			last = want[len(want)-1].at
		}
		if asked >= 0 {
			vf.Assume(asked != begin[k] && asked != begin[k+1])
		}
		if asked > last && asked < begin[k+1] {
			vf.Reach("requested")
			want = append(want, show(k, asked, false))
		}
	}
	vf.Assert(total == begin[3], "progress reports take no time")
	vf.Assert(len(got) == len(want), "as many progress reports as are due")
	for i := range want {
		g, e := got[i], want[i]
		vf.Assert(g.at == e.at && g.poll == e.poll, "a progress report comes when it is due")
		vf.Assert(g.node == e.node && g.leaf == e.leaf, "a progress report names the spec and the node that is running")
		vf.Assert(g.step == e.step, "a progress report names the step that is under way")
		vf.Assert(g.more == e.more, "a progress report has what is attached, and only that")
		vf.Assert(g.out == e.out, "a progress report has the output so far")
	}
	r := w.report("spec")
	vf.Assert(len(r.ProgressReports) == len(want) && r.State == types.SpecStatePassed, "progress reports are kept with their spec, which passes")
	vf.Observe("reports", len(got))
}

var vzStarts *[]int

// vzSince is how long the running node has been running.
func vzSince(w *vzWorld, now int) int { return now - (*vzStarts)[len(*vzStarts)-1] }

// What is attached to progress reports may ask for the current spec's report, and a report that asks does not hold up
// the spec.
//
//verif:quick 20s
//verif:thorough 20s
//verif:bounds a spec of 200 ms with a reporter attached to the suite or to its context that asks for the current spec's report, a progress report polled or asked for after 50 ms
//verif:reach polled requested
func VerifC26_Asks() {
	w := vzNewWorld(vzPass)
	got := []types.ProgressReport{}
	w.rep.onProgress = func(r types.ProgressReport) { got = append(got, r) }
	if vf.Bool("poll") {
		w.conf.PollProgressAfter = 50 * time.Millisecond
		vf.Reach("polled")
	} else {
		vf.Reach("requested")
		w.signal = func(ask func()) {
			go func() {
				time.Sleep(50 * time.Millisecond)
				ask()
			}()
		}
	}
	own := vf.Bool("attached to the spec's context")
	t0 := time.Now()
	w.add(types.NodeTypeIt, "spec", func(sc SpecContext) {
		attach := w.suite.AttachProgressReporter
		if own {
			attach = sc.AttachProgressReporter
		}
		attach(func() string { return "during " + w.suite.CurrentSpecReport().LeafNodeText })
		time.Sleep(100 * time.Millisecond)
		w.suite.By("step")
		time.Sleep(100 * time.Millisecond)
	})
	w.run()
	vf.Assert(time.Since(t0) < 2*time.Second, "a progress report does not hold up the spec")
	vf.Assert(len(got) == 1 && len(got[0].AdditionalReports) == 1 && got[0].AdditionalReports[0] == "during spec", "a progress report has what is attached to it")
}

// What is attached before the suite runs stays attached, whether the specs were previewed first or not.
//
//verif:quick 20s
//verif:thorough 20s
//verif:synctest
//verif:bounds two reporters attached before the suite runs, one of them detached again before or after the preview, or while the suite runs
//verif:reach previewed detached
func VerifC26_Preview() {
	w := vzNewWorld(vzPass)
	got := []types.ProgressReport{}
	w.rep.onProgress = func(r types.ProgressReport) { got = append(got, r) }
	w.conf.PollProgressAfter, w.conf.PollProgressInterval = 2, 3
	detach := w.suite.AttachProgressReporter(func() string { return "first" })
	w.suite.AttachProgressReporter(func() string { return "second" })
	w.add(types.NodeTypeIt, "spec", func() {
		time.Sleep(4)
		if detach != nil {
			detach()
		}
		time.Sleep(3)
	})
	want := []string{"first+second", "second"}
	early := vf.Bool("detached early")
	if early && vf.Bool("before the preview") {
		detach()
	}
	if vf.Bool("previewed") {
		vf.Reach("previewed")
		clone, err := w.suite.Clone()
		vf.Assert(err == nil, "a suite can be previewed before it runs")
		w.suite = clone
	}
	if early {
		detach()
		detach = nil
		want[0] = "second"
		vf.Reach("detached")
	}
	w.run()
	vf.Assert(len(got) == 2, "as many progress reports as are due")
	for i := range got {
		vf.Assert(strings.Join(got[i].AdditionalReports, "+") == want[i], "a progress report has what is attached, and only that")
	}
}

// A progress reporter that panics fails the spec, as any panic in it does; one that does not return is given up after
// five seconds. Either way the report is delivered and the following specs are not affected.
//
//verif:quick 20s
//verif:thorough 60s
//verif:synctest
//verif:bounds two reporters attached to the suite or a spec, one of which returns, returns only blanks, panics or never returns; one report polled or asked for during the first of two specs
//verif:reach panics blocks blank returns
func VerifC26_Misbehaves() {
	w := vzNewWorld(vzPass)
	got := []types.ProgressReport{}
	w.rep.onProgress = func(r types.ProgressReport) { got = append(got, r) }
	poll := vf.Concrete(vf.Pick("poll", 2)) == 1
	var ask func()
	w.signal = func(f func()) { ask = f }
	kind := vf.Concrete(vf.Pick("misbehaves", 4))
	vf.Reach([]string{"returns", "blank", "panics", "blocks"}[kind])
	never := make(chan bool)
	bad := func() string {
		switch kind {
		case 1:
			return " \n"
		case 2:
			panic("reporter panics")
		case 3:
			<-never
		}
		return "bad"
	}
	good := func() string { return "good" }
	first := vf.Concrete(vf.Pick("first", 2)) == 1
	own := vf.Concrete(vf.Pick("attached to the spec's context", 2)) == 1
	t0 := time.Now()
	attach := func(sc SpecContext) {
		a := w.suite.AttachProgressReporter
		if own {
			a = sc.AttachProgressReporter
		}
		if first {
			a(bad)
			a(good)
		} else {
			a(good)
			a(bad)
		}
	}
	decor := []any{func(sc SpecContext) {
		attach(sc)
		if !poll {
			go func() {
				time.Sleep(50 * time.Millisecond)
				ask()
			}()
		}
		time.Sleep(100 * time.Millisecond)
	}}
	if poll {
		decor = append(decor, PollProgressAfter(50*time.Millisecond))
	}
	w.add(types.NodeTypeIt, "one", decor...)
	w.add(types.NodeTypeIt, "two", func() { time.Sleep(100 * time.Millisecond) })
	w.run()
	took := time.Since(t0)
	if kind == 3 {
		time.Sleep(6 * time.Second) // one that was asked for comes when its reporter is given up
	}
	close(never)
	vf.Assert(len(got) == 1 && got[0].LeafNodeText == "one", "the report is delivered, once")
	want := []string{}
	if kind != 3 || !first {
		want = append(want, "good")
	}
	at := len(want)
	if first {
		at = 0
	}
	line := map[int]string{0: "bad", 2: "failed to query attached progress reporter"}[kind]
	if line != "" {
		want = append(want[:at], append([]string{line}, want[at:]...)...)
	}
	vf.Assert(strings.Join(got[0].AdditionalReports, "+") == strings.Join(want, "+"), "the report has what the reporters said")
	state := types.SpecStatePassed
	if kind == 2 {
		state = types.SpecStatePanicked
	}
	r := w.report("one")
	vf.Assert(r.State == state, "a reporter that panics fails the spec; nothing else does")
	vf.Assert(kind != 2 || r.Failure.ForwardedPanic == "reporter panics", "the panic is in the report")
	vf.Assert(w.report("two").State == types.SpecStatePassed, "the next spec is not affected")
	if kind == 3 {
		vf.Assert(took < 6*time.Second, "a reporter that does not return is given up")
	} else {
		vf.Assert(took == 200*time.Millisecond, "a progress report takes none of the specs' time")
	}
}
