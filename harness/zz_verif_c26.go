package ginkgo

import (
	"context"
	"io"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

type vzProgress struct {
	vzReporter
	reports []types.ProgressReport
}

func (r *vzProgress) EmitProgressReport(report types.ProgressReport) {
	r.reports = append(r.reports, report)
}

// vzStuck is where a spec is stuck: so many calls deep, in its own code or in a library.
type vzStuck struct {
	deep    int
	library bool
	release chan bool
}

var vzSource = "/vf/spec/spec_test.go"

// What a progress report shows of the goroutines is what they are doing: it can be made however deep their stacks are and
// whatever has become of the source files, and the goroutine shown as the spec's is the one running the current node.
//
//verif:quick 100s
//verif:thorough 300s
//verif:synctest
//verif:bounds a progress report asked for while a spec, its AfterEach or a cleanup is stuck, up to 210 calls deep, in its own code or in a library's, beside up to 9 deep goroutines it started, others the library started and the goroutine of a node that was given up; nodes with their own or a custom location; the source found by way of --source-root, shorter than it was when compiled, or missing
//verif:reach deep library given-up short missing other
func VerifC26_Goroutines() {
	vzFresh()
	vf.Frames(true)
	s := &vzStuck{deep: []int{1, 40, 210}[vf.Concrete(vf.Pick("depth", 3))], library: vf.Bool("in a library"), release: make(chan bool)}
	node := vf.Concrete(vf.Pick("stuck in", 3))
	others := vf.Concrete(vf.Pick("other goroutines", 5))
	vf.Assume(others < 4 || s.deep == 1 && node == 0)
	given := node > 0 && vf.Bool("the spec was given up")
	source := vf.Concrete(vf.Pick("source", 3))
	dir := vf.Dir()
	suiteConfig.SourceRoots = []string{"/nowhere", dir}
	if source < 2 {
		os.MkdirAll(dir+"/vf/spec", 0o755)
		text := ""
		for i := 1; i <= []int{400, 31}[source]; i++ {
			text += "line " + strconv.Itoa(i) + "\n"
		}
		os.WriteFile(dir+vzSource, []byte(text), 0o644)
	}
	leaked := make(chan bool)
	vzDeclareStuck(s, node, others, given, leaked)
	rep := &vzProgress{}
	w := internal.NewWriter(io.Discard)
	w.SetMode(internal.WriterModeBufferOnly)
	vf.Assert(global.Suite.BuildTree() == nil, "a valid tree is built")
	global.Suite.Run("suite", nil, "/suite", global.Failer, rep, w, internal.NoopOutputInterceptor{}, &vzInterrupts{make(chan any)}, nil, func(ask func()) context.CancelFunc {
		go func() {
			time.Sleep(10 * time.Second)
			ask()
			close(s.release)
			close(leaked)
		}()
		return func() {}
	}, suiteConfig)
	if given {
		vf.Reach("given-up")
		vf.Assert(len(rep.did) == 1 && len(rep.did[0].Failure.ProgressReport.Goroutines) > 0, "the time-out's report shows what the spec was doing")
		vzShows(rep.did[0].Failure.ProgressReport.SpecGoroutine(), "vzSpecGivenUp", 1)
	}
	vf.Assert(len(rep.reports) == map[bool]int{false: 1, true: 2}[given], "the report asked for comes")
	r := rep.reports[len(rep.reports)-1]
	vf.Assert(r.CurrentNodeType == []types.NodeType{types.NodeTypeIt, types.NodeTypeAfterEach, types.NodeTypeCleanupAfterEach}[node], "the report says what is running")
	g := r.SpecGoroutine()
	vzShows(g, "vzSpecStuck", s.deep)
	if s.library {
		vf.Reach("library")
	}
	top := g.Stack
	for len(top) > 0 && !strings.Contains(top[0].Filename, "/vf/") {
		top = top[1:]
	}
	if s.library {
		vf.Assert(len(top) > 0 && strings.HasPrefix(top[0].Function, "github.com/onsi/ginkgo/v2.vzLibraryWait(") && top[0].Filename == "/vf/lib/lib.go" && top[0].Line == 102 && !top[0].Highlight && len(top[0].Source) == 0, "the call in the library is shown, not highlighted")
	} else {
		vf.Assert(len(top) > 0 && strings.HasPrefix(top[0].Function, "github.com/onsi/ginkgo/v2.vzSpecStuck(") && top[0].Highlight, "the call it is stuck in comes first")
	}
	vzSources(g, source)
	if s.deep > 100 {
		vf.Reach("deep")
	}
	// goroutines the spec's code takes part in are shown as well, others are not
	background, crowd, started := 0, 0, 0
	for _, h := range r.HighlightedGoroutines() {
		vzSources(h, source)
		for _, c := range h.Stack {
			if strings.HasPrefix(c.Function, "github.com/onsi/ginkgo/v2.vzBackground(") {
				background++
			}
			if strings.HasPrefix(c.Function, "github.com/onsi/ginkgo/v2.vzCrowd(") {
				crowd++
			}
			if strings.HasPrefix(c.Function, "github.com/onsi/ginkgo/v2.vzLibraryStart.func1(") {
				started++
			}
		}
	}
	if others > 0 {
		vf.Reach("other")
	}
	vf.Assert(background == map[bool]int{true: 1}[others == 1], "a goroutine in the spec's code is shown")
	vf.Assert(crowd == map[bool]int{true: 810}[others == 4], "however many there are")
	vf.Assert(started == 0, "a goroutine that is the library's alone is not shown")
}

func vzSources(g types.Goroutine, source int) {
	for _, c := range g.Stack {
		if c.Filename != vzSource {
			vf.Assert(!c.Highlight, "only the spec's own code is highlighted")
			continue
		}
		vf.Assert(c.Highlight, "the spec's own code is highlighted")
		switch {
		case source == 0 || source == 1 && c.Line <= 29:
			vf.Assert(len(c.Source) > c.SourceHighlight && c.Source[c.SourceHighlight] == "line "+strconv.Itoa(c.Line), "the source shown is that of the line")
		case source == 1:
			vf.Reach("short")
		default:
			vf.Reach("missing")
			vf.Assert(len(c.Source) == 0, "no source is shown if there is none")
		}
	}
}

func vzShows(g types.Goroutine, name string, deep int) {
	vf.Assert(!g.IsZero(), "the goroutine of the spec is shown")
	n := 0
	for _, c := range g.Stack {
		if strings.HasPrefix(c.Function, "github.com/onsi/ginkgo/v2."+name+"(") {
			n++
		}
	}
	vf.Assertf(n > 0 && (n == deep || deep > 90), "the goroutine shown is the one that runs the current node: %s %d", name, n)
}

//line /vf/spec/spec_test.go:1
func vzBackground(c chan bool) {
	<-c
}

func vzCrowd(c chan bool, deep int) {
	if deep > 1 {
		vzCrowd(c, deep-1)
		return
	}
	<-c
}

func vzSpecStuck(s *vzStuck, deep int) {
	if deep > 1 {
		vzSpecStuck(s, deep-1)
		return
	}
	if s.library {
		vzLibraryWait(s.release)
		return
	}
	<-s.release
}

func vzDeclareStuck(s *vzStuck, node, others int, given bool, leaked chan bool) {
	spec := func() {
		switch others {
		case 1:
			go vzBackground(s.release)
		case 2:
			vzLibraryStart(s.release)
		case 3:
			go vzLibraryStart(s.release)
		case 4:
			for i := 0; i < 9; i++ {
				go vzCrowd(s.release, 90)
			}
		}
		if node == 0 {
			vzSpecStuck(s, s.deep)
		} else if given {
			vzSpecGivenUp(leaked)
		}
		if node == 2 {
			DeferCleanup(func() { vzSpecStuck(s, s.deep) })
		}
	}
	cl := types.CodeLocation{FileName: vzSource, LineNumber: 5}
	if vf.Bool("custom location") {
		cl = types.NewCustomCodeLocation("elsewhere")
	}
	Describe("container", cl, func() {
		if given {
			It("spec", cl, func(SpecContext) { spec() }, NodeTimeout(time.Second), GracePeriod(time.Second))
		} else {
			It("spec", cl, spec)
		}
		if node == 1 {
			AfterEach(cl, func() { vzSpecStuck(s, s.deep) })
		}
		if node == 2 && given {
			BeforeEach(cl, func() { DeferCleanup(func() { vzSpecStuck(s, s.deep) }) })
		}
	})
}

func vzSpecGivenUp(c chan bool) {
	<-c
}

//line /vf/lib/lib.go:101
func vzLibraryWait(c chan bool) {
	<-c
}

func vzLibraryStart(c chan bool) {
	go func() {
		<-c
	}()
}
