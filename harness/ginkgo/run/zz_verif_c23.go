package run

import (
	"os"
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
)

// vzPlan says what is to happen when the suites are run in the given order.
type vzPlan struct {
	keepGoing, require, timeout, until bool
	repeats                            int

	runs, hooks                []string
	failed, focus, interrupted bool
	labels                     []string
}

func (w *vzPlan) run(order []vzSuite) {
	slept := false
	for it := 0; it <= w.repeats || w.until; it++ {
		w.focus = false
		for _, s := range order {
			if w.interrupted {
				w.labels = append(w.labels, "interrupted")
				return
			}
			if s.compile == "empty" && !s.precompiled {
				if !w.failed || w.keepGoing {
					continue
				}
			}
			if w.failed && !w.keepGoing {
				w.labels = append(w.labels, "skipped")
				continue
			}
			if s.compile == "fail" || s.compile == "nothing" {
				w.failed = true
				continue
			}
			if w.timeout && slept {
				w.labels = append(w.labels, "timeout")
				w.failed = true
				continue
			}
			w.runs = append(w.runs, s.name)
			slept = slept || s.sleeps
			w.interrupted = s.interrupts
			passed := true
			switch s.exits[it] {
			case "0":
				passed = !s.warns || !w.require
			case "197":
				w.focus = w.focus || !s.foreign
			default:
				passed = false
			}
			if !passed {
				w.failed = true
				w.hooks = append(w.hooks, s.name+"[FAIL]")
			} else {
				w.hooks = append(w.hooks, s.name+"[PASS]")
			}
		}
		if it > 0 {
			w.labels = append(w.labels, "repeated")
		}
		if w.failed {
			w.labels = append(w.labels, "failed")
			break
		}
		// an interruption by the last suite finds nothing left to do unless there is another iteration
		if w.interrupted && it >= w.repeats && !w.until {
			w.interrupted = false
		}
	}
}

// ginkgo runs exactly the suites it is to run, in order, and its exit code says how they went.
//
//verif:quick 100s
//verif:thorough 400s
//verif:bounds 2 (thorough: 3) suites that pass, fail, have focused specs, die of a signal, do not compile, have no tests or are filtered, precompiled or not Ginkgo's; --keep-going, --repeat, --until-it-fails, --require-suite, --randomize-suites, --timeout, --compilers, --cpuprofile, --after-run-hook, an interrupt while any of the suites run; inside an editor or not
//verif:reach passed failed focus skipped timeout repeated interrupted
func VerifC23_Run() {
	n := 2 + vf.Tier()
	keepGoing := vf.Bool("keep going")
	flag := vf.Concrete(vf.Pick("flag", 11))
	repeats, until := 0, false
	args := []string{}
	if keepGoing {
		args = append(args, "--keep-going")
	}
	timeout, require, keepBinaries, editor, random, hook := false, false, false, false, false, false
	switch flag {
	case 1:
		repeats = 2
		args = append(args, "--repeat=2")
	case 2:
		until = true
		args = append(args, "--until-it-fails")
	case 3:
		require = true
		args = append(args, "--require-suite")
	case 4:
		random = true
		args = append(args, "--randomize-suites", "--seed=5")
	case 5:
		timeout = true
		args = append(args, "--timeout=300ms")
	case 6:
		args = append(args, "--compilers=1")
	case 7:
		keepBinaries = true
		args = append(args, "--cpuprofile=cpu")
	case 8:
		editor = true
	case 10:
		hook = true
		args = append(args, "--after-run-hook=hook (ginkgo-suite-name) (ginkgo-suite-passed)")
	}
	suites := []vzSuite{}
	filters := []string{}
	for i := 0; i < n; i++ {
		s := vzSuite{name: []string{"alpha", "beta", "gamma"}[i], compile: "ok", exits: []string{"0"}}
		kinds := 12
		if until || flag == 9 {
			kinds = 2
		}
		switch vf.Concrete(vf.Pick("suite", kinds)) {
		case 1:
			s.exits = []string{"1"}
		case 2:
			s.exits = []string{"197"}
		case 3:
			s.compile = "fail"
		case 4:
			s.compile = "empty"
		case 5:
			s.compile = "nothing"
		case 6:
			s.exits = []string{"kill"}
		case 7:
			s.foreign = true
		case 8:
			s.foreign = true
			s.exits = []string{"2"}
		case 9:
			s.warns = true
		case 10:
			s.filtered = true
			filters = append(filters, s.name)
		case 11:
			s.precompiled = true
		}
		s.interrupts = flag == 9 && vf.Bool("interrupts")
		s.sleeps = timeout && vf.Bool("slow")
		if repeats > 0 || until {
			for len(s.exits) < 3 {
				s.exits = append(s.exits, s.exits[0])
			}
			if s.exits[0] == "0" && vf.Bool("fails later") {
				s.exits[1+vf.Concrete(vf.Pick("in iteration", 2))] = "1"
			}
			if until && i == n-1 {
				s.exits[2] = "1"
			}
		}
		suites = append(suites, s)
	}
	if len(filters) > 0 {
		args = append(args, "--skip-package="+strings.Join(filters, ","))
	}
	for _, s := range suites {
		if s.precompiled {
			args = append(args, s.name+"/"+s.name+".test")
		} else {
			args = append(args, s.name)
		}
	}
	args = append(args, "--", "passed-on")
	if editor {
		os.Setenv("GINKGO_EDITOR_INTEGRATION", "true")
	} else {
		os.Unsetenv("GINKGO_EDITOR_INTEGRATION")
	}
	dir := vzWorld(suites)
	code := vzGinkgo(args...)

	// what is to happen
	compiled := map[string]int{}
	var ran, hooks []string
	for _, l := range strings.Split(strings.TrimSpace(vzRead(dir+"/log")), "\n") {
		f := strings.Split(l, " ")
		switch f[0] {
		case "compile":
			compiled[f[1]]++
		case "hook":
			hooks = append(hooks, f[1]+f[2])
		case "run":
			ran = append(ran, f[1])
			for _, s := range suites {
				vf.Assert(s.name != f[1] || s.foreign || len(f) == 3 && f[2] == "passed-on", "arguments after -- are passed on")
			}
		}
	}
	var order []vzSuite
	for _, s := range suites {
		if !s.filtered {
			order = append(order, s)
		}
	}
	w := vzPlan{keepGoing: keepGoing, require: require, timeout: timeout, repeats: repeats, until: until}
	w.run(order)
	if random && len(order) > 1 { // any order will do
		ok := false
		for i := 0; i < len(order); i++ {
			for j := 0; j < len(order); j++ {
				o := []vzSuite{order[i]}
				if j == i {
					continue
				}
				o = append(o, order[j])
				for k := range order {
					if k != i && k != j {
						o = append(o, order[k])
					}
				}
				p := vzPlan{keepGoing: keepGoing, require: require}
				p.run(o)
				if strings.Join(p.runs, " ") == strings.Join(ran, " ") {
					w, ok = p, true
				}
			}
		}
		vf.Assert(ok, "the suites run in some order")
	}
	vf.Assert(strings.Join(w.runs, " ") == strings.Join(ran, " "), "the suites run in order, and no other")
	if hook {
		vf.Assert(strings.Join(w.hooks, " ") == strings.Join(hooks, " "), "the hook runs after each suite and is told how it went")
	}
	for _, s := range order {
		vf.Assert(compiled[s.name] <= 1 || s.compile == "empty", "a suite is compiled once")
		left := vzHas(dir + "/" + s.name + "/" + s.name + ".test")
		vf.Assert(left == s.precompiled || keepBinaries, "compiled suites are removed, precompiled ones are not")
	}
	for _, l := range w.labels {
		vf.Reach(l)
	}
	switch {
	case len(order) == 0:
		vf.Assert(code == 0, "all suites filtered is success")
	case w.failed || w.interrupted:
		vf.Assert(code == 1, "the exit code says that a suite failed or did not run")
	case w.focus && !editor:
		vf.Reach("focus")
		vf.Assert(code == 197, "the exit code says that specs are focused")
	default:
		vf.Reach("passed")
		vf.Assert(code == 0, "the exit code says that every suite passed")
	}
	if !random {
		vf.Observe("exit code", code)
		vf.Observe("runs", len(ran))
	}
}
