package internal

import (
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// The suite's verdict and reports account for everything that happened: success exactly when nothing failed, every
// spec reported once, suite setup before and suite teardown after everything, no spec after an abort or fail-fast.
//
//verif:quick 200s
//verif:thorough 400s
//verif:bounds 3 top-level specs, each run, pending or filtered out, each with a ReportBeforeEach and a ReportAfterEach, BeforeSuite (optionally registering a cleanup), AfterSuite, ReportBeforeSuite and ReportAfterSuite each present or not; fail-fast, fail-on-pending, fail-on-empty, dry-run; at most 2 node runs end in fail, skip or abort (thorough: 3, also panic)
//verif:reach passed failed aborted suiteskipped beforefailed dryrun empty
func VerifC11_Verdict() {
	w := vzNewWorld(vzPass, vzFail, vzSkip, vzAbort)
	w.maxBad = 2 + vf.Tier()
	n := 3
	w.allowed["as"] = []int{vzPass, vzFail}
	w.allowed["clean"] = []int{vzPass, vzFail}
	w.allowed["rbs"] = []int{vzPass, vzFail}
	w.allowed["ras"] = []int{vzPass, vzFail}
	w.allowed["rae"] = []int{vzPass, vzFail}
	if vf.Tier() == 1 {
		w.fallback = []int{vzPass, vzFail, vzSkip, vzAbort, vzPanic}
		w.allowed["rae"] = []int{vzPass, vzFail, vzAbort}
		w.allowed["rbe"] = []int{vzPass, vzFail}
	} else {
		w.allowed["rbe"] = []int{vzPass}
	}
	w.conf.LabelFilter = "!out"
	w.conf.FailFast = vf.Bool("failFast")
	w.conf.FailOnPending = vf.Bool("failOnPending")
	w.conf.FailOnEmpty = vf.Bool("failOnEmpty")
	w.conf.DryRun = vf.Bool("dryRun")
	hasBS, hasAS, hasR := vf.Bool("beforeSuite"), vf.Bool("afterSuite"), vf.Bool("reportNodes")
	clean := hasBS && vf.Bool("cleanup")
	names := []string{"i1", "i2", "i3"}[:n]
	mode := make([]int, n)
	failing := 0 // node runs that must fail the suite
	var rasReport types.Report
	body := func(name string) func() {
		return func() {
			w.log = append(w.log, name)
			if name == "bs" && clean {
				nd, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, func() {
					w.log = append(w.log, "clean")
					w.conclude("clean", w.pick("clean"))
				})
				w.push(nd, errs)
			}
			o := w.pick(name)
			w.conclude(name, o)
		}
	}
	if hasBS {
		w.add(types.NodeTypeBeforeSuite, "", body("bs"))
	}
	if hasAS {
		w.add(types.NodeTypeAfterSuite, "", body("as"))
	}
	reported := map[string]int{}
	if hasR {
		w.add(types.NodeTypeReportBeforeSuite, "", func(r types.Report) { body("rbs")() })
		w.add(types.NodeTypeReportAfterSuite, "", func(r types.Report) {
			rasReport = r
			body("ras")()
		})
		w.add(types.NodeTypeReportBeforeEach, "", func(r types.SpecReport) {
			reported["before "+r.LeafNodeText]++
			body("rbe")()
		})
		w.add(types.NodeTypeReportAfterEach, "", func(r types.SpecReport) {
			reported["after "+r.LeafNodeText]++
			body("rae")()
		})
	}
	willRun, pending := 0, 0
	for k, name := range names {
		a := []any{}
		mode[k] = vf.Pick("mode", 3)
		switch mode[k] {
		case 0:
			willRun++
		case 1:
			a = append(a, Pending)
			pending++
		case 2:
			a = append(a, Labels{"out"})
		}
		w.add(types.NodeTypeIt, name, append(a, body(name))...)
	}
	w.run()
	vf.Observe("log", vzJoin(w.log))
	at := func(x string) int { return vzIndex(w.log, x) }

	// what is reported
	vf.Assert(len(w.rep.begin) == 1 && len(w.rep.end) == 1, "the suite's start and end are reported once")
	vf.Assert(w.rep.order[0] == "begin" && w.rep.order[len(w.rep.order)-1] == "end", "everything is reported between the suite's start and end")
	for i := 1; i+1 < len(w.rep.order); i++ {
		vf.Assert(w.rep.order[i] == []string{"did", "will"}[i%2], "each spec's start and end are reported one after the other")
	}
	vf.Assert(w.rep.begin[0].PreRunStats.TotalSpecs == n && w.rep.begin[0].PreRunStats.SpecsThatWillRun == willRun, "the number of specs that will run is announced")
	final := w.rep.end[0]
	vf.Assert(len(final.SpecReports) == len(w.rep.did), "the final report contains every spec report")
	for i := range w.rep.did {
		vf.Assert(i >= len(final.SpecReports) || (final.SpecReports[i].LeafNodeText == w.rep.did[i].LeafNodeText && final.SpecReports[i].State == w.rep.did[i].State && final.SpecReports[i].LeafNodeType == w.rep.did[i].LeafNodeType), "the final report repeats what was reported")
	}
	vf.Assert(final.SuiteSucceeded == w.succ, "the final report carries the suite's verdict")

	// what runs
	if w.conf.DryRun {
		vf.Reach("dryrun")
		for _, name := range append([]string{"bs", "as", "clean"}, names...) {
			vf.Assert(at(name) < 0, "a dry run runs no spec and no suite setup")
		}
	}
	rbsFailed := hasR && w.outcome["rbs"] == vzFail
	bsRan := at("bs") >= 0
	bsFailed := bsRan && w.outcome["bs"] != vzPass && w.outcome["bs"] != vzSkip
	bsSkipped := bsRan && w.outcome["bs"] == vzSkip
	vf.Assert(bsRan == (hasBS && willRun > 0 && !rbsFailed && !w.conf.DryRun), "the suite's setup runs exactly when some spec will run")
	vf.Assert((at("as") >= 0) == (hasAS && willRun > 0 && !rbsFailed && !w.conf.DryRun), "the suite's teardown runs exactly when some spec was to run")
	if clean {
		vf.Assert((at("clean") >= 0) == bsRan, "the suite setup's cleanups run")
		vf.Assert(at("clean") < 0 || at("clean") > at("as"), "the suite setup's cleanups run after the suite's teardown")
	}
	for _, name := range append([]string{"bs", "as", "rbs", "ras", "clean"}, names...) {
		vf.Assert(vzCount(w.log, name) <= 1, "nothing runs twice")
	}
	if hasR {
		vf.Assert(at("rbs") == 0, "ReportBeforeSuite runs first")
		vf.Assert(at("ras") == len(w.log)-1, "ReportAfterSuite runs last")
		vf.Assert(len(rasReport.SpecReports) == len(w.rep.did)-1, "ReportAfterSuite receives every spec report before it")
	}
	stopped := false // after fail-fast or abort
	order := []string{}
	for _, r := range w.rep.did {
		if r.LeafNodeType.Is(types.NodeTypeIt) {
			order = append(order, r.LeafNodeText)
		}
	}
	specsRun := !rbsFailed && !bsFailed
	if specsRun {
		vf.Assert(len(order) == n, "every spec is reported once")
	} else {
		vf.Assert(len(order) == 0, "no spec is run after the suite's setup failed")
		vf.Reach("beforefailed")
	}
	if bsSkipped {
		vf.Reach("suiteskipped")
		stopped = true
	}
	for _, name := range order {
		k := vzIndex(names, name)
		r := w.report(name)
		rbeBad, raeBad, raeAbort := false, false, false
		isRun := mode[k] == 0 && !stopped && !w.conf.DryRun
		// report nodes run for every spec
		if hasR {
			vf.Assert(reported["before "+name] == 1 && reported["after "+name] == 1, "the report nodes run once for every spec, run or not")
			rbeBad = strings.Contains(r.Failure.Message, "rbe")
			raeBad = strings.Contains(r.Failure.Message, "rae")
			raeAbort = raeBad && r.State == types.SpecStateAborted
		}
		if !rbeBad {
			vf.Assert((at(name) >= 0) == isRun, "a spec runs exactly when it is selected and nothing has stopped the suite")
		}
		want := vzStates[vzPass]
		switch {
		case rbeBad:
			want = types.SpecStateFailed
		case mode[k] == 1:
			want = types.SpecStatePending
		case mode[k] == 2 || stopped:
			want = types.SpecStateSkipped
		case w.conf.DryRun:
			want = types.SpecStatePassed
		default:
			want = vzStates[w.outcome[name]]
		}
		if raeBad {
			want = types.SpecStateFailed
			if raeAbort {
				want = types.SpecStateAborted
			}
		}
		vf.Assert(r.State == want, "a spec is reported with the state it ended in")
		if r.State.Is(types.SpecStateFailureStates) {
			failing++
			if w.conf.FailFast || r.State == types.SpecStateAborted {
				stopped = true
			}
			if r.State == types.SpecStateAborted {
				vf.Reach("aborted")
			}
		}
	}
	// the verdict
	for _, name := range []string{"bs", "as", "rbs", "ras", "clean"} {
		if at(name) >= 0 {
			o := w.outcome[name]
			if o != vzPass && o != vzSkip {
				failing++
			}
		}
	}
	if specsRun && w.conf.FailOnPending && pending > 0 {
		failing++
	}
	if specsRun && w.conf.FailOnEmpty && willRun == 0 {
		failing++
		vf.Reach("empty")
	}
	vf.Assert(w.succ == (failing == 0), "the suite succeeds exactly when nothing failed")
	if w.succ {
		vf.Reach("passed")
	} else {
		vf.Reach("failed")
	}
}
