package internal

import (
	"errors"
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

type vzEntry struct {
	what    string // "node", "reg" or "clean"
	name    string
	id      int
	spec    int // which spec was running
	attempt int
}

// Every function handed to DeferCleanup runs exactly once: after the spec, the ordered container or the suite that
// registered it, most recent first, before anything of the next spec runs, whatever fails.
//
//verif:quick 200s
//verif:thorough 300s
//verif:bounds an ordered container of 2 specs (with or without ContinueOnFailure, FlakeAttempts(2) or not) followed by another spec, plus BeforeSuite/AfterSuite; cleanups registered from 2 of BeforeSuite, AfterSuite, BeforeAll, AfterAll, BeforeEach, AfterEach, It (two from each); at most 2 node or cleanup runs end in fail or skip (thorough: 3)
//verif:reach each all suite failedcleanup retried
func VerifC08_Cleanups() {
	w := vzNewWorld(vzPass, vzFail, vzSkip)
	w.maxBad = 2 + vf.Tier()
	log := []vzEntry{}
	note := func(what, name string, id int) {
		log = append(log, vzEntry{what, name, id, len(w.rep.will), w.suite.currentSpecReport.NumAttempts})
	}
	sites := []string{"bs", "as", "ba", "aa", "be", "ae", "i2", "i3"}
	w.allowed["as"] = []int{vzPass, vzFail}
	w.allowed["aa"] = []int{vzPass, vzFail}
	w.allowed["ae"] = []int{vzPass, vzFail}
	w.allowed["clean"] = []int{vzPass, vzFail}
	a := vf.Pick("site", len(sites))
	b := vf.Pick("site2", len(sites))
	vf.Assume(a <= b)
	if vf.Tier() == 0 {
		vf.Assume(b <= a+2 || a == 2)
	}
	nextID := 0
	ran := map[int]int{}
	body := func(name string) func() {
		return func() {
			note("node", name, 0)
			if name == sites[a] || name == sites[b] {
				for k := 0; k < 2; k++ {
					nextID++
					id := nextID
					note("reg", name, id)
					n, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, types.CodeLocation{FileName: "file_test.go", LineNumber: 1}, func() {
						note("clean", name, id)
						ran[id]++
						w.conclude("clean", w.pick("clean"))
					})
					w.push(n, errs)
				}
			}
			w.conclude(name, w.pick(name))
		}
	}
	args := []any{Ordered}
	if vf.Bool("continueOnFailure") {
		args = append(args, ContinueOnFailure)
	}
	if (a == b || vf.Tier() == 1) && vf.Bool("flake") {
		args = append(args, FlakeAttempts(2))
	}
	w.add(types.NodeTypeBeforeSuite, "", body("bs"))
	w.add(types.NodeTypeAfterSuite, "", body("as"))
	args = append(args, func() {
		w.add(types.NodeTypeBeforeAll, "", body("ba"))
		w.add(types.NodeTypeAfterAll, "", body("aa"))
		w.add(types.NodeTypeBeforeEach, "", body("be"))
		w.add(types.NodeTypeAfterEach, "", body("ae"))
		w.add(types.NodeTypeIt, "i1", body("i1"))
		w.add(types.NodeTypeIt, "i2", body("i2"))
	})
	w.add(types.NodeTypeContainer, "C", args...)
	w.add(types.NodeTypeIt, "i3", body("i3"))
	w.run()

	inScope := func(site string) string {
		switch site {
		case "bs", "as":
			return "suite"
		case "ba", "aa":
			return "all"
		}
		return "each"
	}
	at := func(what string, id int) int {
		for i := range log {
			if log[i].what == what && log[i].id == id {
				return i
			}
		}
		return -1
	}
	badCleanups := 0
	for id := 1; id <= nextID; id++ {
		vf.Assert(ran[id] == 1, "every registered cleanup runs exactly once")
		if ran[id] != 1 {
			return
		}
		r, c := at("reg", id), at("clean", id)
		scope := inScope(log[r].name)
		vf.Assert(r < c, "a cleanup runs after it was registered")
		vf.Reach(scope)
		retriedAll := false // the spec it ran for was attempted again
		for i := c; i < len(log); i++ {
			if log[i].spec == log[c].spec && log[i].attempt > log[c].attempt {
				retriedAll = true
				vf.Reach("retried")
			}
		}
		for i := range log {
			e := log[i]
			if e.what != "node" {
				continue
			}
			switch scope {
			case "each":
				if i > r && i < c {
					vf.Assert(e.spec == log[r].spec && e.attempt == log[r].attempt, "a cleanup runs before anything of a later spec or attempt")
				}
				if i > c && e.name != "aa" {
					vf.Assert(e.spec != log[r].spec || e.attempt != log[r].attempt, "a spec's cleanups run after its teardown nodes")
				}
			case "all":
				if !retriedAll && i > c {
					vf.Assert(e.name == "i3" || e.name == "as", "a container's cleanups run after everything else in the container")
				}
				if i > r && i < c {
					vf.Assert(e.name != "i3" && e.name != "as", "a container's cleanups run before anything outside the container")
				}
			case "suite":
				vf.Assert(i < c, "the suite's cleanups run after everything else")
			}
		}
		for j := id + 1; j <= nextID; j++ {
			r2, c2 := at("reg", j), at("clean", j)
			if inScope(log[r2].name) == scope && r2 < c {
				vf.Assert(c2 < c, "cleanups of one scope run most recently registered first")
			}
		}
	}
	for _, r := range w.rep.did {
		for _, f := range r.AdditionalFailures {
			if strings.Contains(f.Failure.Message, "fail clean") {
				badCleanups++
			}
		}
		if strings.Contains(r.Failure.Message, "fail clean") {
			badCleanups++
		}
	}
	skipped := false // failures of the teardown of a skipped spec leave the spec skipped
	for _, r := range w.rep.did {
		skipped = skipped || r.State == types.SpecStateSkipped
	}
	names := []string{}
	for _, e := range log {
		names = append(names, e.what+":"+e.name)
	}
	vf.Observe("log", vzJoin(names))
	failed := 0
	for _, f := range w.rep.fails {
		if f.Message == "fail clean" {
			failed++
			vf.Reach("failedcleanup")
		}
	}
	if failed > 0 {
		vf.Assert(badCleanups >= 1, "a failing cleanup is reported")
		if args[len(args)-2] != FlakeAttempts(2) {
			vf.Assert(badCleanups == failed, "every failing cleanup is reported on the spec it ran for")
			vf.Assert(skipped || !w.succ, "a failing cleanup fails the suite")
		}
	}
}

// A cleanup function is called with exactly the arguments it was registered with, gets a context exactly when it asks
// for one and was not given one, and fails the spec exactly when its last result is a non-nil error.
//
//verif:quick 20s
//verif:thorough 60s
//verif:bounds cleanup functions with and without a context, with up to two arguments (symbolic integers) and up to two results; every error result nil or not
//verif:reach failed clean ctx
func VerifC08_CleanupCall() {
	w := vzNewWorld()
	x, y := vf.Int("x", -1000, 1000), vf.Int("y", -1000, 1000)
	fails := vf.Bool("fails")
	var err error
	if fails {
		err = errors.New("cleanup went wrong")
	}
	var gotX, gotY, calls int
	gotCtx := false
	kind := vf.Pick("kind", 8)
	canFail := false
	var args []any
	switch kind {
	case 0:
		args = []any{func() { calls++; gotX, gotY = x, y }}
	case 1:
		args = []any{func() error { calls++; gotX, gotY = x, y; return err }}
		canFail = true
	case 2:
		args = []any{func(a, b int) (int, error) { calls++; gotX, gotY = a, b; return a, err }, x, y}
		canFail = true
	case 3:
		args = []any{func(c SpecContext, a int, b int) error { calls++; gotX, gotY, gotCtx = a, b, c != nil; return err }, x, y}
		canFail = true
	case 4:
		args = []any{func(a int, b int) (error, int) { calls++; gotX, gotY = a, b; return err, a }, x, y}
	case 5:
		args = []any{func(c SpecContext) { calls++; gotX, gotY, gotCtx = x, y, c != nil }}
	case 6:
		args = []any{func(v ...int) error {
			calls++
			if len(v) == 2 {
				gotX, gotY = v[0], v[1]
			}
			return err
		}, x, y}
		canFail = true
	case 7:
		args = []any{types.CodeLocation{FileName: "file_test.go", LineNumber: 7}, func(a int, s string, b int) { calls++; gotX, gotY = a, b }, x, "s", y}
	}
	var before []any
	if vf.Bool("decorated") {
		before = []any{Offset(0)}
	}
	args = append(before, args...)
	w.add(types.NodeTypeIt, "it", func() {
		n, errs := NewCleanupNode(nil, w.failer.Fail, args...)
		vf.Assert(len(errs) == 0, "a function with matching arguments is accepted as a cleanup")
		w.push(n, errs)
	})
	w.run()
	vf.Assert(calls == 1, "the cleanup function is called once")
	vf.Assert(gotX == x && gotY == y, "the cleanup function gets its arguments")
	if kind == 3 || kind == 5 {
		vf.Assert(gotCtx, "a cleanup function that takes a context gets one")
		vf.Reach("ctx")
	}
	vf.Assert(w.succ == !(canFail && fails), "the spec fails exactly when the cleanup's last result is an error")
	if w.succ {
		vf.Reach("clean")
	} else {
		vf.Reach("failed")
		vf.Assert(strings.Contains(w.report("it").Failure.Message, "cleanup went wrong"), "the cleanup's error is reported")
	}
}
