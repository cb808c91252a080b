package internal

import (
	"strconv"
	"sync"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// The first recorded outcome wins, whatever is recorded concurrently: draining yields one of the recorded outcomes,
// whole, and leaves nothing behind.
//
//verif:quick 120s
//verif:thorough 200s
//verif:bounds 3 goroutines that each record a failure, skip, abort or panic (the kinds are symbolic), then drain while another reads; up to 2 (thorough: 3) preemptions at synchronisation operations
//verif:reach failed skipped aborted panicked
func VerifC12_FirstOutcome() {
	f := NewFailer()
	kinds := make([]int, 3)
	for i := range kinds {
		kinds[i] = vf.Pick("kind", 4)
	}
	vf.Races(true)
	vf.Schedules(2, 2+vf.Tier())
	var wg sync.WaitGroup
	record := func(i int) {
		cl := types.CodeLocation{FileName: "f", LineNumber: i}
		msg := "m" + strconv.Itoa(i)
		switch kinds[i] {
		case 0:
			f.Fail(msg, cl)
		case 1:
			f.Skip(msg, cl)
		case 2:
			f.AbortSuite(msg, cl)
		case 3:
			f.Panic(cl, msg)
		}
	}
	states := []types.SpecState{types.SpecStateFailed, types.SpecStateSkipped, types.SpecStateAborted, types.SpecStatePanicked}
	whole := func(s types.SpecState, fl types.Failure) bool {
		for i := range kinds {
			msg := "m" + strconv.Itoa(i)
			if fl.Location.LineNumber != i || s != states[kinds[i]] {
				continue
			}
			if kinds[i] == 3 && fl.ForwardedPanic == msg || kinds[i] != 3 && fl.Message == msg {
				return true
			}
		}
		return false
	}
	first := vf.Bool("firstAlone")
	if first {
		record(0)
	}
	for i := vzOne(first); i < 3; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			record(i)
		}(i)
	}
	st := f.GetState()
	fl := f.GetFailure()
	wg.Wait()
	s, d := f.Drain()
	vf.Assert(whole(s, d), "the outcome is one of the recorded outcomes, whole")
	if first {
		vf.Assert(s == states[kinds[0]] && d.Location.LineNumber == 0, "the first recorded outcome wins")
	}
	vf.Assert(st == types.SpecStatePassed || st == s, "an outcome that was observed does not change")
	vf.Assert(fl.IsZero() || (fl.Message == d.Message && fl.Location.LineNumber == d.Location.LineNumber && fl.ForwardedPanic == d.ForwardedPanic), "a failure that was observed does not change")
	s2, d2 := f.Drain()
	vf.Assert(s2 == types.SpecStatePassed && d2.IsZero(), "draining leaves nothing behind")
	vf.Assert(f.GetState() == types.SpecStatePassed, "draining resets the state")
	vf.Assert(vf.RaceCount() == 0, "recording outcomes is free of data races")
	switch s {
	case types.SpecStateFailed:
		vf.Reach("failed")
	case types.SpecStateSkipped:
		vf.Reach("skipped")
	case types.SpecStateAborted:
		vf.Reach("aborted")
	case types.SpecStatePanicked:
		vf.Reach("panicked")
	}
}

// An outcome that is recorded while another one is being drained is drained then or afterwards, whole.
//
//verif:quick 60s
//verif:thorough 100s
//verif:bounds 2 goroutines that each record a failure, skip, abort or panic (the kinds are symbolic) while the outcome is drained, then drained again; up to 3 (thorough: 4) preemptions at synchronisation operations
//verif:reach nothing early late
func VerifC12_Drain() {
	f := NewFailer()
	kinds := []int{vf.Pick("kind", 4), vf.Pick("kind", 4)}
	vf.Races(true)
	vf.Schedules(2, 3+vf.Tier())
	var wg sync.WaitGroup
	for i := range kinds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl := types.CodeLocation{FileName: "f", LineNumber: 1 + i}
			msg := "m" + strconv.Itoa(i)
			switch kinds[i] {
			case 0:
				f.Fail(msg, cl)
			case 1:
				f.Skip(msg, cl)
			case 2:
				f.AbortSuite(msg, cl)
			case 3:
				f.Panic(cl, msg)
			}
		}()
	}
	s1, d1 := f.Drain()
	wg.Wait()
	vf.Schedules(0, 0)
	s2, d2 := f.Drain()
	states := []types.SpecState{types.SpecStateFailed, types.SpecStateSkipped, types.SpecStateAborted, types.SpecStatePanicked}
	who := func(s types.SpecState, d types.Failure) int {
		if s == types.SpecStatePassed {
			vf.Assert(d.IsZero(), "nothing is reported when nothing was recorded")
			return -1
		}
		i := d.Location.LineNumber - 1
		vf.Assert(i >= 0 && i < 2, "a drained outcome comes with its failure")
		vf.Assert(s == states[kinds[i]], "a drained outcome comes with its failure")
		if kinds[i] == 3 {
			vf.Assert(d.ForwardedPanic == "m"+strconv.Itoa(i), "a drained outcome comes with its failure")
		} else {
			vf.Assert(d.Message == "m"+strconv.Itoa(i), "a drained outcome comes with its failure")
		}
		return i
	}
	first, second := who(s1, d1), who(s2, d2)
	vf.Assert(first >= 0 || second >= 0, "an outcome that is recorded while another is drained is not lost")
	vf.Assert(first != second, "no outcome is drained twice")
	if first < 0 {
		vf.Reach("nothing")
	} else {
		vf.Reach("early")
	}
	if first >= 0 && second >= 0 {
		vf.Reach("late")
	}
	vf.Assert(vf.RaceCount() == 0, "recording outcomes is free of data races")
}

func vzOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

// A failure recorded by a goroutine of a spec is the spec's outcome, and whatever goroutines add to the report while
// the spec runs is in the report exactly once and in a consistent order.
//
//verif:quick 200s
//verif:thorough 300s
//verif:bounds a spec with 2 goroutines that each add a report entry and may fail, while the spec itself announces a step, reads the current report and may fail; up to 2 (thorough: 3) preemptions at synchronisation operations
//verif:reach goroutinefailed specfailed passed
func VerifC12_Goroutines() {
	w := vzNewWorld()
	fails := []bool{vf.Bool("fails"), vf.Bool("fails"), vf.Bool("fails")}
	cl := types.CodeLocation{FileName: "file_test.go", LineNumber: 1}
	fail := func(i int) {
		if fails[i] {
			w.failer.Fail("fail "+strconv.Itoa(i), cl)
			panic("ginkgo panic")
		}
	}
	seen := 0
	w.add(types.NodeTypeIt, "it", func() {
		vf.Races(true)
		vf.Schedules(2, 2+vf.Tier())
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { recover() }()
				e, _ := NewReportEntry("entry"+strconv.Itoa(i), cl, i)
				w.suite.AddReportEntry(e)
				fail(i)
			}(i)
		}
		w.suite.By("step")
		seen = len(w.suite.CurrentSpecReport().ReportEntries)
		if fails[2] {
			defer wg.Wait()
		} else {
			wg.Wait()
		}
		fail(2)
	})
	w.run()
	vf.Schedules(0, 0)
	r := w.report("it")
	any := fails[0] || fails[1] || fails[2]
	vf.Assert(r.State.Is(types.SpecStateFailed) == any, "a spec fails exactly when it or one of its goroutines failed")
	vf.Assert(w.succ == !any, "the suite fails exactly when a spec failed")
	if any {
		ok := false
		for i := range fails {
			ok = ok || fails[i] && r.Failure.Message == "fail "+strconv.Itoa(i)
		}
		vf.Assert(ok, "the failure that is reported is one that was recorded")
		vf.Assert(len(w.rep.fails) == 1, "the failure is reported once")
		if fails[2] {
			vf.Reach("specfailed")
		} else {
			vf.Reach("goroutinefailed")
		}
	} else {
		vf.Reach("passed")
	}
	vf.Assert(seen <= 2, "the current report shows entries that were added")
	vf.Assert(len(r.ReportEntries) == 2, "every report entry is kept")
	names := map[string]int{}
	for _, e := range r.ReportEntries {
		names[e.Name]++
	}
	vf.Assert(names["entry0"] == 1 && names["entry1"] == 1, "every report entry is kept once")
	vf.Assert(len(w.rep.entries) == 2, "every report entry is announced once")
	orders := map[int]bool{}
	for _, e := range r.ReportEntries {
		vf.Assert(!orders[e.TimelineLocation.Order], "no two events share a place in the timeline")
		orders[e.TimelineLocation.Order] = true
	}
	steps := 0
	for _, e := range r.SpecEvents {
		vf.Assert(!orders[e.TimelineLocation.Order], "no two events share a place in the timeline")
		orders[e.TimelineLocation.Order] = true
		if e.SpecEventType == types.SpecEventByStart {
			steps++
		}
	}
	vf.Assert(steps == 1, "the step is in the report")
	vf.Assert(vf.RaceCount() == 0, "reporting from goroutines is free of data races")
}
