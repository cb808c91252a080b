package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// harness is one symbolic entry point, declared in /verif/harness.
type harness struct {
	name     string // Go function name
	pkg      string // import path
	rel      string // directory below the repository
	file     string
	quick    time.Duration
	thorough time.Duration
	synctest bool
	onlyThor bool
	bounds   []string
	reach    []string
	merges   []string
	paths    int64
	uses     []string
	noNative bool
	exits    bool
	gover    string
}

var fnRe = regexp.MustCompile(`^Verif([A-Z][0-9]{2,3})_(\w+)$`)

func findHarnesses(prop string) ([]*harness, []string, error) {
	root := filepath.Join(verifDir, "harness")
	var out []*harness
	var files []string
	err := filepath.Walk(root, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if st.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		files = append(files, p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			m := fnRe.FindStringSubmatch(fd.Name.Name)
			if m == nil || m[1] != prop {
				continue
			}
			h := &harness{name: fd.Name.Name, rel: rel, file: p, quick: 25 * time.Second, thorough: 200 * time.Second, gover: "1.24"}
			h.pkg = modPath
			if rel != "." {
				h.pkg += "/" + rel
			}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if !strings.HasPrefix(t, "verif:") {
						continue
					}
					kv := strings.SplitN(strings.TrimPrefix(t, "verif:"), " ", 2)
					arg := ""
					if len(kv) > 1 {
						arg = strings.TrimSpace(kv[1])
					}
					switch kv[0] {
					case "quick":
						h.quick, _ = time.ParseDuration(arg)
					case "thorough":
						h.thorough, _ = time.ParseDuration(arg)
					case "synctest":
						h.synctest = true
						h.gover = "1.26"
					case "thorough-only":
						h.onlyThor = true
					case "bounds":
						h.bounds = append(h.bounds, arg)
					case "reach":
						h.reach = append(h.reach, strings.Fields(arg)...)
					case "merge":
						h.merges = append(h.merges, strings.Fields(arg)...)
					case "paths":
						h.paths, _ = strconv.ParseInt(arg, 10, 64)
					case "use":
						h.uses = append(h.uses, strings.Fields(arg)...)
					case "exit":
						h.exits = true
					case "nonative":
						h.noNative = true
					default:
						return fmt.Errorf("%s: unknown directive %s", p, t)
					}
				}
			}
			out = append(out, h)
		}
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out, files, err
}

// overlayFor maps the harness files of the needed directories and the vf package into the repository.
func overlayFor(hs []*harness, files []string) map[string]string {
	root := filepath.Join(verifDir, "harness")
	// the files with the harnesses, the files they ask for, and the common helpers of their directories
	need := map[string]bool{}
	for _, h := range hs {
		need[h.file] = true
		for _, base := range []string{"zz_verif_common.go", "zz_verif_world.go"} {
			need[filepath.Join(root, h.rel, base)] = true
		}
		for _, u := range h.uses {
			need[filepath.Join(root, u)] = true
		}
	}
	ov := map[string]string{filepath.Join(repoDir, "internal/vf/vf.go"): filepath.Join(verifDir, "vf/vf.go"),
		filepath.Join(repoDir, "internal/vf/fs.go"):   filepath.Join(verifDir, "vf/fs.go"),
		filepath.Join(repoDir, "internal/vf/fd.go"):   filepath.Join(verifDir, "vf/fd.go"),
		filepath.Join(repoDir, "internal/vf/exec.go"): filepath.Join(verifDir, "vf/exec.go"),
		filepath.Join(repoDir, "internal/vf/net.go"):  filepath.Join(verifDir, "vf/net.go"),
		filepath.Join(repoDir, "internal/vf/doc.go"):  filepath.Join(verifDir, "vf/doc.go")}
	for _, f := range files {
		rel, _ := filepath.Rel(root, filepath.Dir(f))
		if need[f] {
			ov[filepath.Join(repoDir, rel, filepath.Base(f))] = f
		}
	}
	return ov
}

var misfits []string

// trimHarnesses removes the declarations with errors from the harness files, so that the others can be used; it
// reports whether it removed anything. The errors of the removed harness functions are put into dropped.
func trimHarnesses(ov map[string][]byte, err error, dropped map[string]string) bool {
	le, ok := err.(loadErrors)
	if !ok {
		return false
	}
	did := false
	type span struct{ from, to int }
	cuts := map[string][]span{}
	for _, e := range le {
		parts := strings.Split(e.Pos, ":")
		if len(parts) < 2 {
			continue
		}
		b, ok := ov[parts[0]]
		if !ok || strings.Contains(parts[0], "/internal/vf/") {
			continue
		}
		line, _ := strconv.Atoi(parts[1])
		fs := token.NewFileSet()
		f, perr := parser.ParseFile(fs, parts[0], b, parser.ParseComments)
		if perr != nil {
			continue
		}
		at := func(p token.Pos) int { return fs.Position(p).Line }
		for _, d := range f.Decls {
			if line < at(d.Pos()) || line > at(d.End()) {
				continue
			}
			var n ast.Node = d
			if gd, ok := d.(*ast.GenDecl); ok {
				for _, sp := range gd.Specs {
					if line >= at(sp.Pos()) && line <= at(sp.End()) && gd.Lparen.IsValid() {
						n = sp
					}
				}
			}
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				if _, ok := dropped[fd.Name.Name]; !ok {
					dropped[fd.Name.Name] = e.Msg
				}
			} else if _, ok := dropped[""]; !ok {
				dropped[""] = e.Msg
			}
			cuts[parts[0]] = append(cuts[parts[0]], span{fs.Position(n.Pos()).Offset, fs.Position(n.End()).Offset})
		}
	}
	for file, spans := range cuts {
		b := append([]byte{}, ov[file]...)
		for _, s := range spans {
			for i := s.from; i < s.to; i++ {
				if b[i] != '\n' {
					b[i] = ' '
					did = true
				}
			}
		}
		ov[file] = b
	}
	return did
}

func mainCheck() {
	prop := flag.String("check", "", "property id")
	tierS := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "only the harness with this name")
	budgetX := flag.Float64("budget", 1, "multiply the time budgets")
	workers := flag.Int("workers", runtime.NumCPU(), "")
	replay := flag.String("replay", "", "replay this violation file natively")
	noEvidence := flag.Bool("no-evidence", false, "")
	printPaths := flag.Bool("samples", false, "print samples")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.StringVar(&verifDir, "verif", verifDir, "")
	flag.Parse()
	if *replay != "" {
		os.Exit(replayFile(*replay))
	}
	if *prop == "" {
		fmt.Fprintln(os.Stderr, "usage: gosym -check ID [-tier quick|thorough]")
		os.Exit(2)
	}
	os.Exit(runCheck(*prop, *tierS, *only, *budgetX, *workers, *noEvidence, *printPaths))
}

type report struct {
	h     *harness
	r     *Run
	conf  []*Violation
	unc   []*Violation
	valid int
	mism  []string
	skip  int
	note  string
}

func runCheck(prop, tierS, only string, bx float64, workers int, noEv, printSamples bool) int {
	t0 := time.Now()
	for _, kv := range goEnv("1.24") {
		p := strings.SplitN(kv, "=", 2)
		os.Setenv(p[0], p[1])
	}
	hs, files, err := findHarnesses(prop)
	if err != nil {
		fmt.Println("harness error:", err)
		return 2
	}
	tier := 0
	if tierS == "thorough" {
		tier = 1
	}
	var use []*harness
	for _, h := range hs {
		if only != "" && !strings.Contains(h.name, only) {
			continue
		}
		if h.onlyThor && tier == 0 {
			continue
		}
		use = append(use, h)
	}
	if len(use) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	ovFiles := overlayFor(use, files)
	ov := map[string][]byte{}
	for dst, src := range ovFiles {
		b, err := os.ReadFile(src)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		ov[dst] = b
	}
	scratch, err := os.MkdirTemp("", "gosym-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)

	// native binaries are built while the symbolic exploration runs
	nat := newNative(use, ovFiles, scratch)
	pats := map[string]bool{}
	for _, h := range use {
		pats[h.pkg] = true
	}
	var patterns []string
	for p := range pats {
		patterns = append(patterns, p)
	}
	sort.Strings(patterns)
	e := &Engine{merges: map[string]bool{}, tier: tier}
	for _, h := range use {
		for _, m := range h.merges {
			e.merges[m] = true
		}
	}
	err = e.load(patterns, ov)
	dropped := map[string]string{}
	for round := 0; round < 12 && err != nil && trimHarnesses(ov, err, dropped); round++ {
		err = e.load(patterns, ov)
	}
	if err == nil && len(dropped) > 0 {
		// the rest goes on with what fits
		dir := filepath.Join(scratch, "trimmed")
		os.MkdirAll(dir, 0o755)
		n := 0
		for dst, b := range ov {
			if src, e := os.ReadFile(ovFiles[dst]); e == nil && string(src) != string(b) {
				n++
				f := filepath.Join(dir, strconv.Itoa(n)+"_"+filepath.Base(dst))
				os.WriteFile(f, b, 0o644)
				ovFiles[dst] = f
			}
		}
		var rest []*harness
		for _, h := range use {
			if why, ok := dropped[h.name]; ok {
				fmt.Printf("%s: INCOMPLETE (does not fit the tree: %s)\n", h.name, why)
				misfits = append(misfits, h.name+" does not fit the tree: "+why)
				continue
			}
			rest = append(rest, h)
		}
		use = rest
		nat = newNative(use, ovFiles, scratch)
		if len(use) == 0 {
			err = fmt.Errorf("no harness fits the tree")
		}
	}
	if err != nil {
		fmt.Printf("INCOMPLETE: the tree could not be loaded with the harnesses: %v\n", err)
		writeEvidence(prop, tierS, tier, nil, nil, time.Since(t0), []string{"the tree could not be loaded: " + err.Error()}, noEv)
		return 0
	}
	nat.start()
	e.maxSteps = 60_000_000
	for i := 0; i < workers; i++ {
		s, err := NewSolver([]string{"z3", "-in"}, 10000)
		if err != nil {
			fmt.Println("solver:", err)
			return 2
		}
		solvers = append(solvers, s)
	}
	every := 200
	if tier == 1 {
		every = 40
	}
	if cs, err := NewSolver([]string{"cvc5", "--lang=smt2", "--incremental", "--produce-models", "--tlimit-per=5000"}, 5000); err == nil {
		crossSolver = &cross{s: cs, every: every}
	}
	defer func() {
		for _, s := range solvers {
			s.Close()
		}
		if crossSolver != nil {
			crossSolver.s.Close()
		}
	}()
	known := loadKnown(prop)
	var reps []*report
	code := 0
	for _, h := range use {
		var fn *ssa.Function
		if sp := e.prog.ImportedPackage(h.pkg); sp != nil {
			fn = sp.Func(h.name)
		}
		if fn == nil {
			fmt.Println("harness function missing:", h.name)
			continue
		}
		budget := h.quick
		if tier == 1 {
			budget = h.thorough
		}
		budget = time.Duration(float64(budget) * bx)
		q0 := atomic.LoadInt64(&Stats.queries)
		r := e.explore(fn, h.pkg+"."+h.name, budget, h.paths, workers)
		rep := &report{h: h, r: r}
		reps = append(reps, rep)
		state := "exhaustive within bounds"
		if !r.exhausted() {
			state = "INCOMPLETE"
			if r.stopped {
				state += " (" + r.why + ")"
			}
		}
		fmt.Printf("%s: %d paths, %d pruned, depth %d, %d steps, %d queries, %.1fs: %s\n", h.name, r.paths, sum(r.kills), r.maxDepth, r.steps, atomic.LoadInt64(&Stats.queries)-q0, r.wall.Seconds(), state)
		for k, n := range r.incompl {
			fmt.Printf("  incomplete: %d x %s\n", n, k)
			if verbose {
				fmt.Printf("      %s\n", r.incomplWhere[k])
			}
		}
		for k, n := range r.unknown {
			fmt.Printf("  unknown: %d x %s\n", n, k)
		}
		for _, l := range h.reach {
			if !r.reached[l] {
				fmt.Printf("  NOT REACHED: %s\n", l)
			}
		}
		if printSamples {
			for _, s := range r.samples {
				fmt.Printf("  sample %v %v %v\n", s.Values, s.Perms, s.obs)
			}
		}
	}
	// confirm violations and sampled paths against the real code
	for _, rep := range reps {
		rep.settle(nat)
	}
	ce := filepath.Join(verifDir, "counterexamples")
	for _, rep := range reps {
		done := map[string]bool{}
		for i, v := range rep.conf {
			if done[v.Msg] {
				continue
			}
			done[v.Msg] = true
			if k := known.match(v); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
				continue
			}
			os.MkdirAll(ce, 0o755)
			p := filepath.Join(ce, fmt.Sprintf("%s-%s-%d.json", prop, rep.h.name, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			fmt.Printf("  %s: %s\n", rep.h.name, v.Msg)
			for _, l := range v.Inputs {
				if len(v.Inputs) < 60 {
					fmt.Printf("    %s\n", l)
				}
			}
			if v.Note != "" {
				fmt.Println("  ", v.Note)
			}
			code = 1
		}
		for _, v := range rep.unc {
			if done[v.Msg] {
				continue
			}
			done[v.Msg] = true
			fmt.Printf("UNCONFIRMED (not reported): %s: %s: %s\n", rep.h.name, v.Msg, v.Note)
			if verbose {
				fmt.Println("    ", strings.Join(v.Inputs, " "))
				fmt.Println("    ", strings.Join(v.Trace, "\n     "))
			}
		}
		for _, m := range rep.mism {
			fmt.Printf("TRACE MISMATCH: %s: %s\n", rep.h.name, m)
		}
	}
	if nat.err != "" {
		fmt.Println("native build:", nat.err)
	}
	if verbose && len(e.initNotes) > 0 {
		for _, n := range e.initNotes {
			logf("%s", n)
		}
	}
	if covFile != "" {
		e.dumpCoverage()
	}
	writeEvidence(prop, tierS, tier, reps, nat, time.Since(t0), misfits, noEv)
	fmt.Printf("%s %s: %d queries (%d unsat, %d sat), solver %.1fs, wall %.1fs, exit %d\n", prop, tierS, Stats.queries, Stats.unsat, Stats.sat, float64(Stats.solverNs)/1e9, time.Since(t0).Seconds(), code)
	return code
}

func sum(m map[string]int64) int64 {
	var n int64
	for _, v := range m {
		n += v
	}
	return n
}

// settle replays the violations and a sample of the passing paths natively.
func (rep *report) settle(nat *native) {
	byMsg := map[string][]*Violation{}
	var order []string
	for _, v := range rep.r.viols {
		if byMsg[v.Msg] == nil {
			order = append(order, v.Msg)
		}
		byMsg[v.Msg] = append(byMsg[v.Msg], v)
	}
	for _, m := range order {
		ok := false
		for i, v := range byMsg[m] {
			if i >= 4 {
				break
			}
			res := nat.confirm(rep.h, v)
			if res == "" {
				v.Note = "reproduced by a native run of the real code"
				rep.conf = append(rep.conf, v)
				ok = true
				break
			}
			v.Note = res
		}
		if ok {
			continue
		}
		v := byMsg[m][0]
		if v.Nondet {
			v.Note = "depends on the goroutine schedule; the file records the schedule (" + v.Note + ")"
			rep.conf = append(rep.conf, v)
			continue
		}
		if rep.h.noNative {
			v.Note = "this harness cannot run natively"
			rep.conf = append(rep.conf, v)
			continue
		}
		if os.Getenv("GOSYM_TRACE") != "" {
			res, err := nat.runOnce(rep.h, v.Values, v.Perms, v.Tier)
			fmt.Println("TRACE", v.Msg, err)
			for _, l := range v.obs {
				fmt.Println("   symbolic", l)
			}
			if res != nil {
				fmt.Printf("   native %q %q %v\n", res.Panic, res.crash, res.Missing)
				for _, l := range res.Trace {
					fmt.Println("   native  ", l)
				}
			}
		}
		rep.unc = append(rep.unc, v)
	}
	if len(rep.r.viols) > 0 || rep.h.noNative {
		return
	}
	n := 0
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 8)
	for _, s := range rep.r.samples {
		if s.nondet || n >= 24 {
			rep.skip++
			continue
		}
		n++
		wg.Add(1)
		sem <- true
		go func(s *Sample) {
			defer wg.Done()
			defer func() { <-sem }()
			res, err := nat.runOnce(rep.h, s.Values, s.Perms, s.Tier)
			mu.Lock()
			defer mu.Unlock()
			if err != "" {
				rep.mism = append(rep.mism, "native run: "+err)
				return
			}
			if len(res.Missing) > 0 {
				rep.skip++
				return
			}
			if len(res.Failures) > 0 || res.Panic != "" {
				rep.mism = append(rep.mism, fmt.Sprintf("native run fails %v %s where the symbolic path passes; inputs %v %v", res.Failures, res.Panic, s.Values, s.Perms))
				return
			}
			if d := diffTrace(s.obs, res.Trace); d != "" {
				rep.mism = append(rep.mism, d+fmt.Sprintf("; inputs %v", s.Values))
				return
			}
			rep.valid++
		}(s)
	}
	wg.Wait()
}

func diffTrace(sym, nat []string) string {
	if len(sym) != len(nat) {
		return fmt.Sprintf("trace lengths differ: symbolic %d native %d: %q vs %q", len(sym), len(nat), sym, nat)
	}
	for i := range sym {
		if strings.Contains(sym[i], "\x00skip") {
			continue
		}
		if sym[i] != nat[i] {
			return fmt.Sprintf("observation %d differs: symbolic %q native %q", i, sym[i], nat[i])
		}
	}
	return ""
}

// ---- native runs ----

type natBin struct {
	bin  string
	err  string
	done chan bool
}

type native struct {
	hs      []*harness
	ov      map[string]string
	scratch string
	bins    map[string]*natBin
	err     string
	seq     int64
}

func newNative(hs []*harness, ov map[string]string, scratch string) *native {
	n := &native{hs: hs, ov: ov, scratch: scratch, bins: map[string]*natBin{}}
	for _, h := range hs {
		if h.noNative {
			continue
		}
		if n.bins[h.gover] == nil {
			n.bins[h.gover] = &natBin{done: make(chan bool)}
		}
	}
	return n
}

func (n *native) start() {
	for ver, b := range n.bins {
		go func(ver string, b *natBin) {
			defer close(b.done)
			n.build(ver, b)
		}(ver, b)
	}
}

func (n *native) build(ver string, b *natBin) {
	dir := filepath.Join(n.scratch, "n"+ver)
	os.MkdirAll(dir, 0o755)
	var sb strings.Builder
	pk := map[string]string{}
	var imports []string
	for _, h := range n.hs {
		if h.gover != ver || h.noNative {
			continue
		}
		if pk[h.pkg] == "" {
			pk[h.pkg] = fmt.Sprintf("p%d", len(pk))
			imports = append(imports, fmt.Sprintf("%s %q", pk[h.pkg], h.pkg))
		}
	}
	st := ver != "1.24"
	fmt.Fprintf(&sb, "package zzvfmain\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\t\"testing\"\n")
	if st {
		fmt.Fprintf(&sb, "\t\"testing/synctest\"\n\t\"os/signal\"\n\t\"syscall\"\n")
	}
	fmt.Fprintf(&sb, "\tvf %q\n", modPath+"/internal/vf")
	for _, i := range imports {
		fmt.Fprintf(&sb, "\t%s\n", i)
	}
	fmt.Fprintf(&sb, ")\n\nvar table = map[string]func(){\n")
	exits := false
	for _, h := range n.hs {
		if h.gover != ver || h.noNative {
			continue
		}
		fmt.Fprintf(&sb, "\t%q: %s.%s,\n", h.name, pk[h.pkg], h.name)
		exits = exits || h.exits
	}
	sb.WriteString("}\n" + nativeMain)
	if exits {
		sb.WriteString("\nfunc init() { onFinish = func(f func()) { vf.Finish = f } }\n")
	}
	if st {
		sb.WriteString("\nfunc launch(t *testing.T, f func()) {\n\tc := make(chan os.Signal, 1) // the runtime's own goroutine stays outside of the bubble\n\tsignal.Notify(c, syscall.SIGUSR2)\n\tsignal.Stop(c)\n\tsynctest.Test(t, func(t *testing.T) { f() })\n}\n")
	} else {
		sb.WriteString("\nfunc launch(t *testing.T, f func()) { f() }\n")
	}
	mainSrc := filepath.Join(dir, "main_test.go")
	os.WriteFile(mainSrc, []byte(sb.String()), 0o644)
	rep := map[string]string{}
	for k, v := range n.ov {
		rep[k] = v
	}
	rep[filepath.Join(repoDir, "ginkgo/zzvfmain/main_test.go")] = mainSrc
	if exits { // os.Exit tells the harness before it ends the process
		cmd := exec.Command("go", "env", "GOROOT")
		cmd.Env = goEnv(ver)
		cmd.Path = goTool(cmd.Env, cmd.Path)
		out, _ := cmd.Output()
		proc := filepath.Join(strings.TrimSpace(string(out)), "src/os/proc.go")
		src, err := os.ReadFile(proc)
		at := "func Exit(code int) {\n"
		if err != nil || strings.Count(string(src), at) != 1 {
			n.err = "no os.Exit to hook"
			b.err = n.err
			return
		}
		hooked := strings.Replace(string(src), at, "// VfExitHook is called first.\nvar VfExitHook func(int)\n\n"+at+"\tif h := VfExitHook; h != nil {\n\t\tVfExitHook = nil\n\t\th(code)\n\t}\n", 1)
		hf := filepath.Join(dir, "proc.go")
		os.WriteFile(hf, []byte(hooked), 0o644)
		rep[proc] = hf
		rep[filepath.Join(repoDir, "internal/vf/exit_native.go")] = filepath.Join(verifDir, "vf/exit_native.go.txt")
	}
	ovb, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ovb, 0o644)
	bin := filepath.Join(dir, "verif.test")
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./ginkgo/zzvfmain")
	cmd.Dir = repoDir
	cmd.Env = goEnv(ver)
	cmd.Path, cmd.Err = goTool(cmd.Env, cmd.Path), nil
	out, err := cmd.CombinedOutput()
	if err != nil {
		b.err = fmt.Sprintf("%v: %s", err, out)
		n.err = b.err
		return
	}
	b.bin = bin
}

// goTool is the go command of the environment.
func goTool(env []string, def string) string {
	for _, kv := range env {
		if strings.HasPrefix(kv, "PATH=") {
			g := strings.SplitN(strings.TrimPrefix(kv, "PATH="), ":", 2)[0] + "/go"
			if _, err := os.Stat(g); err == nil {
				return g
			}
		}
	}
	return def
}

const nativeMain = `
type outcome struct {
	Failures []string
	Trace    []string
	Missing  []string
	Panic    string
	Stopped  string
	Done     bool
}

func TestVerif(t *testing.T) {
	if err := vf.Reset(os.Getenv("VERIF_INPUT")); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	f := table[os.Getenv("VERIF_HARNESS")]
	launch(t, func() {
		o := outcome{}
		finish := func() {
			o.Failures, o.Trace, o.Missing, o.Done = vf.Failures, vf.Trace, vf.Missing, true
			b, _ := json.Marshal(o)
			os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644)
			vf.OnExit(nil)
			os.Exit(0)
		}
		if onFinish != nil {
			onFinish(func() { o.Stopped = "exit"; finish() })
		}
		func() {
			fin := false
			defer func() {
				if fin {
					return
				}
				r := recover()
				if s, ok := r.(vf.StopRun); ok {
					o.Stopped = s.Why
					return
				}
				o.Panic = fmt.Sprint("panic: ", r)
			}()
			f()
			fin = true
		}()
		finish()
	})
}

var onFinish func(func())
`

type outcome struct {
	Failures []string
	Trace    []string
	Missing  []string
	Panic    string
	Stopped  string
	Done     bool
	crash    string
}

func (n *native) runOnce(h *harness, vals map[string]uint64, perms []permRec, tier int) (*outcome, string) {
	b := n.bins[h.gover]
	if b == nil {
		return nil, "no native binary"
	}
	<-b.done
	if b.err != "" {
		return nil, "native build failed"
	}
	id := atomic.AddInt64(&n.seq, 1)
	dir := filepath.Join(n.scratch, fmt.Sprintf("r%d", id))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	in, _ := json.Marshal(map[string]any{"values": vals, "perms": perms, "tier": tier})
	inf := filepath.Join(dir, "in.json")
	outf := filepath.Join(dir, "out.json")
	os.WriteFile(inf, in, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, b.bin, "-test.run", "^TestVerif$", "-test.timeout", "15s")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_INPUT="+inf, "VERIF_OUT="+outf, "VERIF_HARNESS="+h.name)
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	err := cmd.Run()
	o := &outcome{}
	if bts, e2 := os.ReadFile(outf); e2 == nil && json.Unmarshal(bts, o) == nil && o.Done {
		return o, ""
	}
	txt := ob.String()
	if len(txt) > 4000 {
		txt = txt[:4000]
	}
	o.crash = fmt.Sprintf("%v: %s", err, txt)
	return o, ""
}

// confirm returns "" when the native run shows the violation.
func (n *native) confirm(h *harness, v *Violation) string {
	if h.noNative {
		return "no native run"
	}
	tries := 1
	if v.Nondet {
		tries = 40
	}
	last := ""
	deadline := time.Now().Add(25 * time.Second)
	for i := 0; i < tries; i++ {
		if i > 0 && time.Now().After(deadline) {
			break
		}
		o, err := n.runOnce(h, v.Values, v.Perms, v.Tier)
		if err != "" {
			return err
		}
		switch v.Kind {
		case "assert":
			for _, f := range o.Failures {
				if f == v.Msg {
					return ""
				}
			}
			if o.Panic != "" || strings.Contains(o.crash, "panic:") {
				// the harness never reached the assertion natively, but broke
				last = "native run panicked: " + o.Panic + o.crash
				continue
			}
			last = fmt.Sprintf("native run did not fail the assertion (failures %v, stopped %q, missing %v)", o.Failures, o.Stopped, o.Missing)
		case "panic":
			if o.Panic != "" || strings.Contains(o.crash, "panic:") || strings.Contains(o.crash, "fatal error:") {
				return ""
			}
			last = fmt.Sprintf("native run did not panic (stopped %q)", o.Stopped)
		case "deadlock":
			if strings.Contains(o.crash, "deadlock") || strings.Contains(o.crash, "timed out") || strings.Contains(o.crash, "killed") {
				return ""
			}
			last = "native run did not hang"
		}
	}
	return last
}

func replayFile(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	v := &Violation{}
	if json.Unmarshal(b, v) != nil {
		return 2
	}
	fn := v.Harness[strings.LastIndex(v.Harness, ".")+1:]
	m := fnRe.FindStringSubmatch(fn)
	hs, files, err := findHarnesses(m[1])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var use []*harness
	for _, h := range hs {
		if h.name == fn {
			use = append(use, h)
		}
	}
	scratch, _ := os.MkdirTemp("", "gosym-replay-")
	defer os.RemoveAll(scratch)
	nat := newNative(use, overlayFor(use, files), scratch)
	nat.start()
	res := nat.confirm(use[0], v)
	if res == "" {
		fmt.Printf("REPRODUCED: %s: %s\n", fn, v.Msg)
		return 1
	}
	fmt.Printf("not reproduced: %s\n", res)
	return 0
}

// ---- known findings ----

type knownFinding struct {
	Status   string `json:"status"`
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Message  string `json:"message"`
	What     string `json:"what"`
}

type knownList []knownFinding

func loadKnown(prop string) knownList {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out knownList
	for _, l := range strings.Split(string(b), "\n") {
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Status == "known" {
			out = append(out, k)
		}
	}
	return out
}

func (k knownList) match(v *Violation) string {
	for _, f := range k {
		if strings.HasSuffix(v.Harness, "."+f.Harness) && f.Message == v.Msg {
			return f.What
		}
	}
	return ""
}

// ---- evidence ----

func writeEvidence(prop, tierS string, tier int, reps []*report, nat *native, wall time.Duration, notes []string, skip bool) {
	if skip {
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var states, trans, valid, paths int64
	viols := 0
	var samples []any
	var hsum []any
	fns := map[string]int{}
	exhaustive := len(reps) > 0
	var assume []string
	for _, rep := range reps {
		r := rep.r
		paths += r.paths
		states += r.paths + sum(r.kills) + sum(r.incompl)
		trans += r.steps
		valid += int64(rep.valid)
		viols += len(rep.conf)
		for fi := range r.covered {
			if fi.repo && !strings.Contains(fi.name, "internal/vf") && !isHarnessFn(fi.name, rep.h) {
				fns[fi.name] = fi.ninstr
			}
		}
		if !r.exhausted() {
			exhaustive = false
		}
		missing := []string{}
		for _, l := range rep.h.reach {
			if !r.reached[l] {
				missing = append(missing, l)
			}
		}
		ma := map[string]int64{}
		for k, v := range r.asserts {
			ma[k] = v
		}
		hsum = append(hsum, map[string]any{
			"harness": rep.h.name, "package": rep.h.pkg, "bounds": rep.h.bounds,
			"paths_completed": r.paths, "paths_pruned": r.kills, "paths_incomplete": r.incompl, "unknown": r.unknown,
			"exhausted": r.exhausted(), "stopped": r.why, "dropped_states": r.dropped,
			"assertions": ma, "assertions_settled_syntactically": r.trivial,
			"obligations_unsat": r.oblig[Unsat], "obligations_sat": r.oblig[Sat], "obligations_unknown": r.oblig[Unknown],
			"reached": keys(r.reached), "not_reached": missing,
			"max_fork_depth": r.maxDepth, "instructions": r.steps, "max_instructions_on_a_path": r.maxSteps,
			"wall_s": r.wall.Seconds(), "native_traces_validated": rep.valid, "native_trace_mismatches": rep.mism,
			"unconfirmed": len(rep.unc),
		})
		for i, s := range r.samples {
			if i >= 4 {
				break
			}
			samples = append(samples, map[string]any{"harness": rep.h.name, "inputs": s.Values, "permutations": s.Perms, "observations": s.obs})
		}
		for _, v := range rep.conf {
			samples = append(samples, map[string]any{"harness": rep.h.name, "violation": v.Msg, "inputs": v.Values})
		}
	}
	var fl []string
	for k, n := range fns {
		fl = append(fl, fmt.Sprintf("%s (%d SSA instructions)", k, n))
	}
	sort.Strings(fl)
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
		"exhaustive": exhaustive, "paths": paths,
		"functions_encoded": fl, "functions_encoded_count": len(fl),
		"harnesses":      hsum,
		"solver_queries": Stats.queries, "queries_unsat": Stats.unsat, "queries_sat": Stats.sat, "queries_unknown": Stats.unknown,
		"query_cache_hits": Stats.cacheHits, "query_core_hits": Stats.coreHits, "query_model_hits": Stats.modelHits, "solver_s": float64(Stats.solverNs) / 1e9,
		"cross_checked_with_cvc5": Stats.crossChecked, "cross_disagreements": Stats.crossDisagree,
		"explanation": "states = symbolic paths explored to an end (each stands for every input satisfying its path condition); transitions = SSA instructions of the real code executed symbolically",
	}
	assume = append(assume, "symbolic execution of the SSA form of /repo's current source by gosym (/verif/engine); library functions listed in DESIGN.md are replaced by models", "inputs range over the bounds stated per harness; nothing outside them is claimed")
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev := map[string]any{"property": prop, "tier": tierS, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assume, "wall_s": wall.Seconds(), "violations": viols}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
}

func isHarnessFn(name string, h *harness) bool {
	return strings.Contains(name, ".Verif") || strings.Contains(name, ".vz")
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
