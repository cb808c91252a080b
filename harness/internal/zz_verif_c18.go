package internal

import (
	"strconv"
	"strings"
	"sync"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

type vzSink struct {
	mu  sync.Mutex
	all []byte
	n   int
}

func (s *vzSink) Write(b []byte) (int, error) {
	s.mu.Lock()
	s.all = append(s.all, b...)
	s.n++
	s.mu.Unlock()
	return len(b), nil
}

// However a text is cut into writes, the writer keeps it, passes it to every tee, and streams it with its lines
// indented.
//
//verif:quick 60s
//verif:thorough 200s
//verif:bounds every text of up to 6 (thorough: 8) bytes cut into up to 3 writes, in both modes, with tees attached, cleared and attached again and the buffer truncated between the writes
//verif:reach streamed buffered tee truncated
func VerifC18_Writer() {
	n := vf.Concrete(vf.Int("length", 0, 6+2*vf.Tier()))
	text := make([]byte, n)
	for i := range text {
		text[i] = vf.Byte("byte")
	}
	a := vf.Concrete(vf.Int("cut1", 0, n))
	b := vf.Concrete(vf.Int("cut2", a, n))
	stream := vf.Bool("stream")
	out, tee1, tee2 := &vzSink{}, &vzSink{}, &vzSink{}
	w := NewWriter(out)
	if !stream {
		w.SetMode(WriterModeBufferOnly)
	}
	between := vf.Pick("between", 4)
	parts := [][]byte{text[:a], text[a:b], text[b:]}
	w.TeeTo(tee1)
	for i, p := range parts {
		k, err := w.Write(p)
		vf.Assert(k == len(p) && err == nil, "a write accepts all of its bytes")
		if i == 0 {
			switch between {
			case 1:
				w.TeeTo(tee2)
			case 2:
				w.ClearTeeWriters()
				w.TeeTo(tee2)
			case 3:
				w.Truncate()
				vf.Assert(w.Len() == 0, "truncating empties the buffer")
			}
		}
	}
	rest := text[a:]
	want := text
	if between == 3 {
		want = rest
		vf.Reach("truncated")
	}
	got := w.Bytes()
	vf.Assert(vf.EqStr(string(got), string(want)), "the buffer has everything that was written since it was truncated")
	vf.Assert(w.Len() == len(want), "the writer knows how much it holds")
	if len(got) > 0 {
		got[0] ^= 1
		vf.Assert(vf.EqStr(string(w.Bytes()), string(want)), "the buffer handed out is a copy")
	}
	switch between {
	case 2:
		vf.Assert(vf.EqStr(string(tee1.all), string(text[:a])), "a cleared tee receives nothing more")
		vf.Assert(vf.EqStr(string(tee2.all), string(rest)), "a tee receives what is written while it is attached")
	case 1:
		vf.Assert(vf.EqStr(string(tee2.all), string(rest)), "a tee receives what is written while it is attached")
		fallthrough
	default:
		vf.Assert(vf.EqStr(string(tee1.all), string(text)), "a tee receives everything that is written")
		vf.Reach("tee")
	}
	if !stream {
		vf.Assert(len(out.all) == 0, "nothing is streamed in buffer-only mode")
		vf.Reach("buffered")
		return
	}
	vf.Reach("streamed")
	// the reference: each non-empty line is preceded by the indentation
	ref := []byte{}
	begin := true
	for _, c := range text {
		if c == '\n' {
			begin = true
		} else if begin {
			ref = append(ref, "  "...)
			begin = false
		}
		ref = append(ref, c)
	}
	vf.Assert(vf.EqStr(string(out.all), string(ref)), "the stream has every line, indented")
}

// Concurrent writes are neither lost nor mixed.
//
//verif:quick 60s
//verif:thorough 200s
//verif:bounds 2 goroutines that write two lines each while a third reads the buffer and attaches a tee; up to 4 (thorough: 5) preemptions at synchronisation operations
//verif:reach done
func VerifC18_WriterSchedules() {
	out, tee := &vzSink{}, &vzSink{}
	w := NewWriter(out)
	if vf.Bool("buffer") {
		w.SetMode(WriterModeBufferOnly)
	}
	vf.Races(true)
	vf.Schedules(2, 4+vf.Tier())
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.Write([]byte("a" + strconv.Itoa(i) + "\n"))
			w.Write([]byte("b" + strconv.Itoa(i) + "\n"))
		}()
	}
	part := string(w.Bytes())
	w.TeeTo(tee)
	wg.Wait()
	vf.Schedules(0, 0)
	all := string(w.Bytes())
	vf.Assert(strings.HasPrefix(all, part), "what was read stays")
	lines := strings.Split(all, "\n")
	vf.Assert(len(lines) == 5 && lines[4] == "", "no write is lost or doubled")
	for i := 0; i < 2; i++ {
		p, q := -1, -1
		for j, l := range lines {
			if l == "a"+strconv.Itoa(i) {
				p = j
			}
			if l == "b"+strconv.Itoa(i) {
				q = j
			}
		}
		vf.Assert(p >= 0 && q > p, "each goroutine's writes are kept whole and in order")
	}
	vf.Assert(strings.HasSuffix(all, string(tee.all)), "a tee receives what is written after it was attached")
	if len(out.all) > 0 {
		vf.Assert(strings.ReplaceAll(string(out.all), "  ", "") == all, "what is streamed is what was written")
	}
	vf.Assert(vf.RaceCount() == 0, "the writer is free of data races")
	vf.Reach("done")
}

// Whatever a spec writes is in its own captured output, once and in order, and every event of its timeline points to
// the place in that output at which it happened.
//
//verif:quick 120s
//verif:thorough 300s
//verif:bounds two specs with ReportBeforeEach, BeforeEach, AfterEach, ReportAfterEach and a cleanup, one of the specs with up to 3 attempts of which all but the last may fail; each node writes nothing or a text, makes a step or report entry, and writes again; suite-level nodes likewise
//verif:reach retried suite reporters
func VerifC18_Timeline() {
	w := vzNewWorld()
	type mark struct {
		spec   string
		offset int
		order  int
		name   string
	}
	written := map[string]string{} // by what is running
	var marks []mark
	kind := vf.Pick("writes", 3)
	noisy := []string{"rbe", "be", "it", "ae", "rae", "clean", "bs", "as", "ras"}[vf.Pick("noisy", 9)]
	cl := types.CodeLocation{FileName: "file_test.go", LineNumber: 1}
	emit := func(name, s string) {
		if name != noisy && kind == 0 {
			s = ""
		}
		if name == noisy && kind == 2 {
			s += s
		}
		key := name
		if w.suite.currentSpecReport.LeafNodeText != "" {
			key = w.suite.currentSpecReport.LeafNodeText
		}
		w.w.Write([]byte(s))
		written[key] += s
	}
	key := func(name string) string {
		if w.suite.currentSpecReport.LeafNodeText != "" {
			return w.suite.currentSpecReport.LeafNodeText
		}
		return name
	}
	attempts := vf.Pick("attempts", 3) + 1
	body := func(name string) func() {
		return func() {
			emit(name, "<"+name)
			if vf.Tier() == 1 || name == noisy || name == "it" {
				if kind == 1 {
					w.suite.By("step")
				} else {
					e, _ := NewReportEntry("entry "+name, cl, 1)
					w.suite.AddReportEntry(e)
				}
				marks = append(marks, mark{key(name), len(written[key(name)]), len(marks), name})
			}
			emit(name, name+">")
			if name == "it" && w.suite.currentSpecReport.NumAttempts < attempts && w.suite.currentSpecReport.LeafNodeText == "i1" {
				w.conclude("it", vzFail)
			}
		}
	}
	w.add(types.NodeTypeBeforeSuite, "", body("bs"))
	w.add(types.NodeTypeAfterSuite, "", body("as"))
	w.add(types.NodeTypeReportAfterSuite, "", func(types.Report) { body("ras")() })
	w.add(types.NodeTypeReportBeforeEach, "", func(types.SpecReport) { body("rbe")() })
	w.add(types.NodeTypeReportAfterEach, "", func(types.SpecReport) { body("rae")() })
	w.add(types.NodeTypeBeforeEach, "", func() {
		body("be")()
		n, errs := NewCleanupNode(nil, func(string, types.CodeLocation) {}, cl, body("clean"))
		w.push(n, errs)
	})
	w.add(types.NodeTypeAfterEach, "", body("ae"))
	w.add(types.NodeTypeIt, "i1", FlakeAttempts(3), body("it"))
	w.add(types.NodeTypeIt, "i2", body("it"))
	w.run()
	vf.Assert(w.succ, "the suite passes")
	if attempts > 1 {
		vf.Reach("retried")
	}
	names := map[types.NodeType]string{types.NodeTypeBeforeSuite: "bs", types.NodeTypeAfterSuite: "as", types.NodeTypeReportAfterSuite: "ras"}
	i := 0
	last := 0
	for _, r := range w.rep.did {
		name := r.LeafNodeText
		if name == "" {
			name = names[r.LeafNodeType]
			vf.Reach("suite")
		}
		vf.Assert(r.CapturedGinkgoWriterOutput == written[name], "a spec's captured output is what was written while it ran")
		for _, ev := range r.Timeline() {
			loc := ev.GetTimelineLocation()
			if _, ok := ev.(types.AdditionalFailure); ok {
				continue // ordered like the failure it repeats
			}
			vf.Assert(loc.Order > last, "events have increasing places in the timeline")
			last = loc.Order
			vf.Assert(loc.Offset <= len(written[name]), "an event's place is within the captured output")
			step := false
			switch e := ev.(type) {
			case types.ReportEntry:
				step = true
			case types.SpecEvent:
				step = e.SpecEventType == types.SpecEventByStart
			}
			if step {
				vf.Assert(i < len(marks) && marks[i].spec == name, "an event is in the timeline of the spec that it belongs to")
				vf.Assert(loc.Offset == marks[i].offset, "an event points to the place in the output at which it happened")
				if marks[i].name == "rbe" || marks[i].name == "rae" {
					vf.Reach("reporters")
				}
				i++
			}
		}
	}
	vf.Assert(i == len(marks), "every event is in some spec's timeline")
}
