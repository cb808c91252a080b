package run

import (
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// A process of a parallel suite: natively a shell that notes its arguments and waits to be told how to end, while the
// harness talks to the server in its place.
const vzProcSh = `#!/bin/sh
for a in "$@"; do case "$a" in --ginkgo.parallel.process=*) n="${a#*=}";; esac; done
printf '%s\n' "$@" > ../args-$n.tmp
mv ../args-$n.tmp ../args-$n
i=0
while [ ! -f ../exit-$n ] && [ $i -lt 1500 ]; do sleep 0.02; i=$((i+1)); done
code=$(cat ../exit-$n)
[ "$code" = kill ] && kill -KILL $$
exit $code
`

type vzProc struct {
	dies  int    // 0: it does not, 1: before the suite begins, 2: at work, 3: after the suite
	exit  string // its exit code, or kill
	waits int    // process 1: 1 for the others to finish, 2 for their report; others: 1 for the synchronized data, 2 for the verdict of ReportBeforeSuite
}

// play is what the process says to the server; it returns how it ends.
func (p vzProc) play(n, total int, host string) string {
	c := parallel_support.NewClient(host)
	vf.Assert(c.Connect(), "a process reaches the server")
	if p.dies == 1 {
		return p.exit
	}
	r := types.Report{SuitePath: "/alpha", SuiteDescription: "alpha", SuiteSucceeded: p.exit == "0" || p.exit == "197",
		SuiteConfig: types.SuiteConfig{ParallelProcess: n, ParallelTotal: total}}
	c.PostSuiteWillBegin(r)
	if n == 1 && p.dies != 2 {
		c.PostReportBeforeSuiteCompleted(types.SpecStatePassed)
		c.PostSynchronizedBeforeSuiteCompleted(types.SpecStatePassed, []byte("data"))
	}
	spec := types.SpecReport{LeafNodeType: types.NodeTypeIt, LeafNodeText: "spec", State: types.SpecStatePassed, ParallelProcess: n}
	c.PostDidRun(spec)
	r.SpecReports = append(r.SpecReports, spec)
	if p.dies == 2 {
		return p.exit
	}
	if p.waits > 0 {
		released := make(chan error, 1)
		go func() {
			var err error
			switch {
			case n == 1 && p.waits == 1:
				err = c.BlockUntilNonprimaryProcsHaveFinished()
			case n == 1:
				_, err = c.BlockUntilAggregatedNonprimaryProcsReport()
			case p.waits == 1:
				_, _, err = c.BlockUntilSynchronizedBeforeSuiteData()
			default:
				_, err = c.BlockUntilReportBeforeSuiteCompleted()
			}
			released <- err
		}()
		select {
		case <-released:
			vf.Reach("released")
		case <-time.After(8 * time.Second):
			vf.Assert(false, "a process does not wait for a process that has ended")
		}
	}
	if p.dies == 0 {
		c.PostSuiteDidEnd(r)
	}
	c.Close()
	return p.exit
}

func vzArg(args []string, name string) string {
	for _, a := range args {
		if strings.HasPrefix(a, "--ginkgo."+name+"=") {
			return a[len("--ginkgo."+name+"="):]
		}
	}
	return ""
}

// vzPlay checks the arguments of a process and plays it.
func vzPlay(procs []vzProc, n int, args []string) string {
	vf.Assert(vzArg(args, "parallel.process") == strconv.Itoa(n) && vzArg(args, "parallel.total") == strconv.Itoa(len(procs)), "a process knows which of how many it is")
	vf.Assert(args[len(args)-1] == "passed-on", "arguments after -- reach every process")
	return procs[n-1].play(n, len(procs), vzArg(args, "parallel.host"))
}

// The processes of a parallel suite all run, learn when another has ended, and all have to succeed.
//
//verif:quick 100s
//verif:thorough 400s
//verif:bounds 2 (thorough: up to 3) processes that end well, fail, have focused specs or die - by themselves or by a signal - at the start, at work or after the suite, while the others wait for them or not; followed by a second suite that is not Ginkgo's; --keep-going, --require-suite and the warning that there are no tests
//verif:reach passed failed focus released
func VerifC24_Parallel() {
	total := 2
	if vf.Tier() > 0 {
		total += vf.Concrete(vf.Pick("processes", 2))
	}
	procs := make([]vzProc, total)
	failed, focus := false, false
	for i := range procs {
		p := &procs[i]
		p.exit = []string{"0", "1", "197", "kill", "2"}[vf.Concrete(vf.Pick("exit", 5))]
		if p.exit == "kill" || p.exit == "2" {
			p.dies = 1 + vf.Concrete(vf.Pick("dies", 3))
		}
		if p.dies == 0 || p.dies == 3 {
			p.waits = vf.Concrete(vf.Pick("waits", 3))
		}
		switch p.exit {
		case "0":
		case "197":
			focus = true
		default:
			failed = true
		}
	}
	keepGoing := vf.Bool("keep going")
	suites := []vzSuite{{name: "alpha", compile: "ok", exits: []string{"0"}}, {name: "beta", compile: "ok", foreign: true, exits: []string{"0"}}}
	dir := vzWorld(suites)
	os.WriteFile(dir+"/bin/parallel", []byte(vzProcSh), 0o755)
	started := make([]int, total+1)
	os.Unsetenv("GINKGO_EDITOR_INTEGRATION")
	serial := vf.Exec
	vf.Exec = func(c *exec.Cmd) int {
		if filepath.Base(c.Dir) != "alpha" || c.Path == "go" {
			return serial(c)
		}
		n, _ := strconv.Atoi(vzArg(c.Args, "parallel.process"))
		vf.Assert(n >= 1 && n <= total && started[n] == 0, "each process is started once")
		started[n]++
		switch vzPlay(procs, n, c.Args) {
		case "0":
			return 0
		case "1":
			return 1
		case "2":
			return 2
		case "197":
			return 197
		}
		return -9
	}
	if !vf.Engine() {
		os.WriteFile(dir+"/alpha/vf-compile", []byte("parallel"), 0o644)
		for n := 1; n <= total; n++ {
			n := n
			go func() {
				at := dir + "/args-" + strconv.Itoa(n)
				for !vzHas(at) {
					time.Sleep(10 * time.Millisecond)
				}
				started[n]++
				end := vzPlay(procs, n, strings.Split(strings.TrimSpace(vzRead(at)), "\n"))
				os.WriteFile(dir+"/end", []byte(end), 0o644)
				os.WriteFile(dir+"/tmp-"+strconv.Itoa(n), []byte(end), 0o644)
				os.Rename(dir+"/tmp-"+strconv.Itoa(n), dir+"/exit-"+strconv.Itoa(n))
			}()
		}
	}
	args := []string{"--procs=" + strconv.Itoa(total)}
	if keepGoing {
		args = append(args, "--keep-going")
	}
	code := vzGinkgo(append(args, "alpha", "beta", "--", "passed-on")...)
	for n := 1; n <= total; n++ {
		vf.Assert(started[n] == 1, "every process is started")
	}
	beta := strings.Contains(vzRead(dir+"/log"), "run beta")
	vf.Assert(beta == (!failed || keepGoing), "the next suite runs unless this one failed")
	switch {
	case failed:
		vf.Reach("failed")
		vf.Assert(code == 1, "the suite fails when any of its processes does")
	case focus:
		vf.Reach("focus")
		vf.Assert(code == 197, "the exit code says that specs are focused")
	default:
		vf.Reach("passed")
		vf.Assert(code == 0, "the suite passes when all of its processes do")
	}
	vf.Observe("exit code", code)
}
