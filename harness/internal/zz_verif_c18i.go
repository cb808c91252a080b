package internal

import (
	"bytes"
	"io"
	"os"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
	"golang.org/x/sys/unix"
)

// vzConsole makes files of its own what the process's standard output and error lead to, and returns what was
// written to them, and how to undo this.
func vzConsole() (out, errs func() string, undo func()) {
	f, err := os.Create(vf.Dir() + "/console")
	vf.Assert(err == nil, "harness: the console is created")
	g, err := os.Create(vf.Dir() + "/console-err")
	vf.Assert(err == nil, "harness: the console is created")
	r, w, _ := os.Pipe() // the runtime opens what it needs for polling
	sout, _ := unix.Dup(1)
	serr, _ := unix.Dup(2)
	unix.Dup2(int(f.Fd()), 1)
	unix.Dup2(int(g.Fd()), 2)
	r.Close()
	w.Close()
	read := func(name string) func() string {
		return func() string {
			data, _ := os.ReadFile(vf.Dir() + "/" + name)
			return string(data)
		}
	}
	return read("console"), read("console-err"), func() {
		unix.Dup2(sout, 1)
		unix.Dup2(serr, 2)
	}
}

// vzFree returns the next descriptors that the process would get.
func vzFree() []int {
	var fds []int
	for i := 0; i < 12; i++ {
		fd, _ := unix.Dup(1)
		fds = append(fds, fd)
	}
	for _, fd := range fds {
		os.NewFile(uintptr(fd), "probe").Close()
	}
	return fds
}

// Whatever is done with the output interceptor, and in whatever order: what is written to standard output and error
// while it intercepts - and only that - is what it returns, once and in order, and what it forwards; everything else
// goes to the console. A program that holds on to the intercepted output does not stop it, and everything is given
// back at the end.
//
//verif:quick 60s
//verif:thorough 300s
//verif:bounds every sequence of 4 (thorough: 5) of: start, start with forwarding, pause, resume, stop, write to standard output, to standard error, shut down, hand the output to another program, which ends at the end; for the interceptor of this platform and the one that reassigns os.Stdout
//verif:reach captured forwarded held restarted passed
func VerifC18_Interceptor() {
	console, consoleErr, undo := vzConsole()
	defer undo()
	global := vf.Bool("os global")
	var ic OutputInterceptor
	if global {
		ic = NewOSGlobalReassigningOutputInterceptor()
	} else {
		ic = NewOutputInterceptor()
	}
	outs, errs := os.Stdout, os.Stderr
	before := vzFree()
	on, held, down := false, false, false
	acc, seg, passed, passedErr, forwarded := "", "", "", "", ""
	sink := &bytes.Buffer{}
	toSink := false
	var holders []*os.File
	n := 0
	end := func() {
		if on {
			acc += seg
			on = false
		}
	}
	write := func(f *os.File, isErr bool) {
		s := string(rune('a' + n))
		n++
		k, err := f.Write([]byte(s))
		vf.Assert(k == 1 && err == nil, "writing to the standard streams succeeds")
		if on {
			seg += s
			if toSink {
				forwarded += s
			}
		} else if isErr {
			passedErr += s
		} else {
			passed += s
		}
	}
	check := func(got string) {
		if held {
			vf.Assert(strings.Contains(got, "Ginkgo detected an issue while intercepting output"), "the user is told that another program holds on to the output")
			vf.Reach("held")
			acc = got
			held = false
			return
		}
		vf.Assertf(got == acc, "what is returned is what was written while intercepting: got=%q want=%q", got, acc)
		if got != "" {
			vf.Reach("captured")
		}
	}
	begin := func(fwd bool) {
		if fwd {
			ic.StartInterceptingOutputAndForwardTo(sink)
		} else {
			ic.StartInterceptingOutput()
		}
		if !on {
			on, toSink, acc, seg, held = true, fwd, "", "", false
			if down {
				vf.Reach("restarted")
			}
		}
	}
	begin(vf.Bool("forward"))
	for i := 0; i < 4+vf.Tier(); i++ {
		switch vf.Pick("op", 9) {
		case 0:
			begin(false)
		case 1:
			begin(true)
		case 2:
			ic.PauseIntercepting()
			end()
		case 3:
			ic.ResumeIntercepting()
			if !on {
				on, seg = true, ""
			}
		case 4:
			end()
			check(ic.StopInterceptingAndReturnOutput())
		case 5:
			write(os.Stdout, false)
		case 6:
			write(os.Stderr, true)
		case 7:
			ic.Shutdown()
			end()
			down = true
		case 8:
			vf.Assume(on)
			fd, err := unix.Dup(int(os.Stdout.Fd()))
			vf.Assert(err == nil, "harness: another program gets the output")
			holders = append(holders, os.NewFile(uintptr(fd), "holder"))
			held = true
		}
	}
	end()
	check(ic.StopInterceptingAndReturnOutput())
	check(ic.StopInterceptingAndReturnOutput())
	ic.Shutdown()
	for _, h := range holders {
		k, err := h.Write([]byte("held"))
		vf.Assert(k == 4 && err == nil, "the other program can go on writing")
		h.Close()
	}
	write(os.Stdout, false)
	write(os.Stderr, true)
	vf.Assertf(console() == passed, "what is not intercepted goes to the console: got=%q want=%q", console(), passed)
	vf.Assertf(consoleErr() == passedErr, "what is not intercepted goes to the console: got=%q want=%q", consoleErr(), passedErr)
	time.Sleep(time.Second)
	if len(holders) == 0 {
		vf.Assert(sink.String() == forwarded, "what is intercepted is forwarded")
		if forwarded != "" {
			vf.Reach("forwarded")
		}
	}
	if len(passed) > 2 {
		vf.Reach("passed")
	}
	vf.Assert(os.Stdout == outs && os.Stderr == errs, "the standard streams are restored")
	after := vzFree()
	for i, fd := range before {
		vf.Assert(after[i] == fd, "every file descriptor is given back")
	}
}

// Whatever goroutines write while interception starts and stops, nothing is lost: it is either returned or on the
// console.
//
//verif:quick 60s
//verif:thorough 200s
//verif:bounds a goroutine that writes 2 texts to standard output while interception starts, stops, starts again and is shut down; up to 2 (thorough: 3) preemptions at synchronisation and descriptor operations
//verif:reach both
func VerifC18_InterceptorSchedules() {
	console, _, undo := vzConsole()
	defer undo()
	ic := NewOutputInterceptor()
	out := os.Stdout
	vf.Schedules(2, 2+vf.Tier())
	done := make(chan bool)
	go func() {
		for _, s := range []string{"a", "b"} {
			out.Write([]byte(s))
		}
		close(done)
	}()
	sink := &bytes.Buffer{}
	ic.StartInterceptingOutput()
	got := []string{ic.StopInterceptingAndReturnOutput()}
	ic.StartInterceptingOutputAndForwardTo(sink)
	got = append(got, ic.StopInterceptingAndReturnOutput())
	ic.Shutdown()
	<-done
	vf.Schedules(0, 0)
	vf.Assert(sink.String() == got[1], "what is intercepted is forwarded")
	all := console() + got[0] + got[1]
	vf.Assertf(len(all) == 2, "nothing is lost or doubled: %q", all)
	for _, part := range append(got, console()) {
		vf.Assert(strings.Contains("ab", part), "what is written stays in order")
	}
	for _, s := range []string{"a", "b"} {
		vf.Assert(strings.Count(all, s) == 1, "everything that is written is returned or on the console")
	}
	if console() != "" && got[0]+got[1] != "" {
		vf.Reach("both")
	}
}

// Whatever the nodes of a spec write to standard output and error is in the spec's captured output.
//
//verif:quick 60s
//verif:thorough 200s
//verif:bounds two specs in one process with intercepted output, with ReportBeforeEach, BeforeEach, AfterEach, ReportAfterEach and a cleanup, one of the specs with up to 3 attempts of which all but the last may fail, and suite-level nodes; one of the nodes (thorough: two) writes, before and after it may have paused and resumed the interception
//verif:reach retried suite paused
func VerifC18_StdOut() {
	console, _, undo := vzConsole()
	defer undo()
	w := vzNewWorld()
	if vf.Bool("os global") {
		w.icept = NewOSGlobalReassigningOutputInterceptor()
	} else {
		w.icept = NewOutputInterceptor()
	}
	written := map[string]string{}
	passed := ""
	cl := types.CodeLocation{FileName: "file_test.go", LineNumber: 1}
	nodes := []string{"rbe", "be", "it", "ae", "rae", "clean", "bs", "as", "ras", "rbs", "sclean"}
	noisy := nodes[vf.Pick("noisy", len(nodes))]
	also := ""
	if vf.Tier() == 1 {
		also = nodes[vf.Pick("also", len(nodes))]
	}
	pause := vf.Bool("pause")
	attempts := vf.Pick("attempts", 3) + 1
	body := func(name string) func() {
		return func() {
			if name == noisy || name == also {
				key := name
				if w.suite.currentSpecReport.LeafNodeText != "" {
					key = w.suite.currentSpecReport.LeafNodeText
				}
				io.WriteString(os.Stdout, "<"+name)
				written[key] += "<" + name
				if pause {
					w.icept.PauseIntercepting()
					io.WriteString(os.Stdout, "outside")
					passed += "outside"
					w.icept.ResumeIntercepting()
					vf.Reach("paused")
				}
				io.WriteString(os.Stderr, name+">")
				written[key] += name + ">"
			}
			if name == "it" && w.suite.currentSpecReport.NumAttempts < attempts && w.suite.currentSpecReport.LeafNodeText == "i1" {
				w.conclude("it", vzFail)
			}
		}
	}
	w.add(types.NodeTypeReportBeforeSuite, "", func(types.Report) { body("rbs")() })
	w.add(types.NodeTypeBeforeSuite, "", func() {
		body("bs")()
		n, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, cl, body("sclean"))
		w.push(n, errs)
	})
	w.add(types.NodeTypeAfterSuite, "", body("as"))
	w.add(types.NodeTypeReportAfterSuite, "", func(types.Report) { body("ras")() })
	w.add(types.NodeTypeReportBeforeEach, "", func(types.SpecReport) { body("rbe")() })
	w.add(types.NodeTypeReportAfterEach, "", func(types.SpecReport) { body("rae")() })
	w.add(types.NodeTypeBeforeEach, "", func() {
		body("be")()
		n, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, cl, body("clean"))
		w.push(n, errs)
	})
	w.add(types.NodeTypeAfterEach, "", body("ae"))
	w.add(types.NodeTypeIt, "i1", FlakeAttempts(3), body("it"))
	w.add(types.NodeTypeIt, "i2", body("it"))
	w.run()
	w.icept.Shutdown()
	vf.Assert(w.succ, "the suite passes")
	if attempts > 1 {
		vf.Reach("retried")
	}
	names := map[types.NodeType]string{types.NodeTypeReportBeforeSuite: "rbs", types.NodeTypeBeforeSuite: "bs", types.NodeTypeAfterSuite: "as", types.NodeTypeReportAfterSuite: "ras", types.NodeTypeCleanupAfterSuite: "sclean"}
	seen := 0
	for _, r := range w.rep.did {
		name := r.LeafNodeText
		if name == "" {
			name = names[r.LeafNodeType]
			if written[name] != "" {
				vf.Reach("suite")
			}
		}
		vf.Assertf(r.CapturedStdOutErr == written[name], "a spec's captured standard output is what was written to it while the spec ran: %s got=%q want=%q", name, r.CapturedStdOutErr, written[name])
		if written[name] != "" {
			seen++
		}
	}
	vf.Assert(seen == len(written), "no output is lost")
	vf.Assert(console() == passed, "what is not intercepted goes to the console")
}

// In a parallel run, what the suite-level nodes of process 1 write to standard output is in their reports, and what
// the parts that only run there write is also shown while they run.
//
//verif:use internal/parallel_support/zz_verif_server.go internal/zz_verif_par.go internal/zz_verif_c18.go
//verif:quick 60s
//verif:thorough 200s
//verif:nonative
//verif:bounds two processes, process 1 with intercepted output, with synchronized setup and teardown, a cleanup and two specs, each of which writes a text; at most one node of process 1 writes nothing or fails; every order in which the processes reach their nodes
//verif:reach shown reported failed
func VerifC18_ParallelStdOut() {
	_, _, undo := vzConsole()
	defer undo()
	p := vzNewPar(2)
	shown := &vzSink{}
	parallel_support.VzSetOutput(p.handler, shown)
	p.worlds[1].icept = NewOutputInterceptor()
	nodes := []string{"sb1", "sb*", "sa*", "sa1", "clean", "i1", "i2"}
	quiet, fails := "", ""
	switch vf.Pick("how", 3) {
	case 1:
		quiet = nodes[vf.Pick("quiet", len(nodes))]
	case 2:
		fails = nodes[vf.Pick("fails", len(nodes))]
	}
	cl := types.CodeLocation{FileName: "file_test.go", LineNumber: 1}
	written := map[string]string{}
	direct := ""
	p.run(func(k int, w *vzWorld) {
		body := func(name string) func() {
			return func() {
				if k == 1 {
					if name != quiet {
						io.WriteString(os.Stdout, "<"+name+">")
						written[name] += "<" + name + ">"
						if name == "sb1" || name == "sa1" {
							direct += "<" + name + ">"
						}
					}
					p.gate(k, name)
					if name == "sb1" || name == "sa1" {
						vf.Assertf(string(shown.all) == direct, "what runs only on process 1 is shown while it runs: got=%q want=%q", string(shown.all), direct)
						vf.Reach("shown")
					}
					if fails == name {
						vf.Reach("failed")
						w.conclude(name, vzFail)
					}
					return
				}
				if vf.Tier() == 1 {
					p.gate(k, name)
				}
			}
		}
		w.add(types.NodeTypeSynchronizedBeforeSuite, "", func() []byte {
			body("sb1")()
			return nil
		}, func([]byte) {
			n, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, cl, body("clean"))
			w.push(n, errs)
			body("sb*")()
		})
		w.add(types.NodeTypeSynchronizedAfterSuite, "", body("sa*"), body("sa1"))
		w.add(types.NodeTypeIt, "i1", body("i1"))
		w.add(types.NodeTypeIt, "i2", body("i2"))
	})
	p.worlds[1].icept.Shutdown()
	vf.Assert(string(shown.all) == direct, "only what runs on process 1 alone is shown")
	seen := ""
	for _, r := range p.worlds[1].rep.did {
		want := written[r.LeafNodeText]
		switch r.LeafNodeType {
		case types.NodeTypeSynchronizedBeforeSuite:
			want = written["sb1"] + written["sb*"]
		case types.NodeTypeSynchronizedAfterSuite:
			want = written["sa*"] + written["sa1"]
		case types.NodeTypeCleanupAfterSuite:
			want = written["clean"]
		}
		vf.Assertf(r.CapturedStdOutErr == want, "the report has what was written to standard output: got=%q want=%q", r.CapturedStdOutErr, want)
		seen += want
	}
	n := 0
	for _, s := range written {
		n += len(s)
	}
	vf.Assert(len(seen) == n, "nothing that was written is missing in the report")
	vf.Reach("reported")
}
