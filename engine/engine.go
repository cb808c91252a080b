package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/onsi/ginkgo/v2"

// Engine holds the program and the state shared by all workers.
type Engine struct {
	prog    *ssa.Program
	pkgs    []*packages.Package
	spkgs   []*ssa.Package
	modPath string
	models  map[string]*ssa.Function
	merges  map[string]bool
	globals map[*ssa.Global]ObjID
	base    *State

	ssaMu     sync.Mutex
	implCache sync.Map
	shims     sync.Map

	maxSteps   int64
	tier       int
	forks      int64
	specMerges int64

	rtErr, errString, timeT, rtypeT, rvalueT, rngSource *TInfo

	run *Run

	initNotes []string
}

// Run is the exploration of one harness.
type Run struct {
	name     string
	short    string
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*State
	active   int
	deadline time.Time
	maxPaths int64
	stopped  bool
	why      string

	paths        int64
	kills        map[string]int64
	incompl      map[string]int64
	incomplWhere map[string]string
	unknown      map[string]int64
	viols        []*Violation
	violKeys     map[string]int
	asserts      map[string]int64
	trivial      int64
	oblig        [3]int64
	reached      map[string]bool
	covered      map[*FnInfo]bool
	samples      []*Sample
	nsample      int64
	steps        int64
	maxDepth     int
	wall         time.Duration
	maxSteps     int64
	dropped      int64
}

// Violation is an assertion the solver could falsify.
type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"message"`
	Values  map[string]uint64 `json:"values"`
	Perms   []permRec         `json:"perms"`
	Tier    int               `json:"tier"`
	Trace   []string          `json:"stack"`
	Sched   []int             `json:"schedule,omitempty"`
	Inputs  []string          `json:"inputs"`
	Nondet  bool              `json:"schedule_dependent"`
	Kind    string            `json:"kind"`
	Races   []string          `json:"races,omitempty"`
	Note    string            `json:"note,omitempty"`
	obs     []string
}

type permRec struct {
	Op   string `json:"op"`
	N    int    `json:"n"`
	Perm []int  `json:"perm"`
}

// Sample is a completed path kept for comparison with a native run.
type Sample struct {
	Values map[string]uint64 `json:"values"`
	Perms  []permRec         `json:"perms"`
	Tier   int               `json:"tier"`
	obs    []string
	nondet bool
}

var stdInit = []string{"strings", "bytes", "unicode", "unicode/utf8", "strconv", "errors", "sort", "slices", "maps", "math", "math/bits", "io", "io/fs", "bufio", "context", "time", "path", "path/filepath", "regexp", "regexp/syntax", "fmt", "sync", "internal/oserror", "encoding", "encoding/json", "encoding/xml", "encoding/base64", "text/tabwriter", "flag", "container/list", "html", "cmp", "iter", "net/url", "internal/errors", "internal/stringslite", "internal/itoa", "unicode/utf16", "go/token", "go/ast", "go/scanner", "go/parser", "go/build/constraint", "go/build", "internal/buildcfg", "internal/goversion", "internal/platform", "internal/syslist", "internal/goexperiment", "go/internal/typeparams", "internal/filepathlite", "internal/bisect", "internal/fmtsort"}

func (e *Engine) load(patterns []string, overlay map[string][]byte) error {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repoDir,
		Overlay: overlay,
		Env:     goEnv("1.24"),
	}
	t0 := time.Now()
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	var errs []packages.Error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		errs = append(errs, p.Errors...)
	})
	if len(errs) > 0 {
		return loadErrors(errs)
	}
	logf("packages loaded in %v", time.Since(t0))
	t0 = time.Now()
	e.pkgs = pkgs
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e.prog = prog
	e.spkgs = sp
	e.modPath = modPath
	logf("ssa created in %v", time.Since(t0))
	t0 = time.Now()
	e.setup()
	logf("initialised in %v", time.Since(t0))
	return nil
}

// loadErrors are the errors in the packages that were loaded.
type loadErrors []packages.Error

func (l loadErrors) Error() string {
	var errs []string
	for i, e := range l {
		if i == 8 {
			break
		}
		errs = append(errs, e.Error())
	}
	return "load: " + strings.Join(errs, "\n")
}

func (e *Engine) buildPkg(p *ssa.Package) { p.Build() }

func (e *Engine) mergeable(name string) bool { return e.merges[name] }

func (e *Engine) globalObj(g *ssa.Global) ObjID {
	id, ok := e.globals[g]
	if !ok {
		panic(unsupported("unknown global %v", g))
	}
	return id
}

func (e *Engine) shim(in *Intrinsic) *FnInfo {
	if v, ok := e.shims.Load(in); ok {
		return v.(*FnInfo)
	}
	fi := &FnInfo{name: in.name, recov: -1}
	fi.once.Do(func() {})
	fi.blocks = []blk{{code: []ins{{op: iShim, dst: -1, shim: in}}, join: -1}}
	v, _ := e.shims.LoadOrStore(in, fi)
	return v.(*FnInfo)
}

func (e *Engine) typ(pkg, name string, ptr bool) *TInfo {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if ptr {
		return TI(types.NewPointer(o.Type()))
	}
	return TI(o.Type())
}

var modelNames = map[string]string{
	"runtime.CallersFrames": "mCallersFrames", "(*runtime.Frames).Next": "mFramesNext",
	"fmt.Sprintf": "mSprintf", "fmt.Sprint": "mSprint", "fmt.Sprintln": "mSprintln", "fmt.Errorf": "mErrorf",
	"fmt.Fprintf": "mFprintf", "fmt.Fprint": "mFprint", "fmt.Fprintln": "mFprintln",
	"fmt.Printf": "mPrintf", "fmt.Print": "mPrint", "fmt.Println": "mPrint",
	"sort.Slice": "mSortSlice", "sort.SliceStable": "mSortSlice", "(*sync.Pool).Get": "mPoolGet",
	"os/signal.Notify": "mSignalNotify", "os/signal.Stop": "mSignalStop",
	"encoding/json.Marshal": "mJSONMarshal", "encoding/json.Unmarshal": "mJSONUnmarshal", "encoding/json.Valid": "mJSONValid", "encoding/json.NewEncoder": "mJSONNewEncoder", "encoding/json.NewDecoder": "mJSONNewDecoder",
	"(*encoding/json.Encoder).SetIndent": "mJSONSetIndent", "(*encoding/json.Encoder).Encode": "mJSONEncode", "(*encoding/json.Decoder).Decode": "mJSONDecode",
	"encoding/xml.NewEncoder": "mXMLNewEncoder", "encoding/xml.NewDecoder": "mXMLNewDecoder", "(*encoding/xml.Encoder).Indent": "mXMLIndent", "(*encoding/xml.Encoder).Encode": "mXMLEncode", "(*encoding/xml.Decoder).Decode": "mXMLDecode",
	"net/rpc.DialHTTPPath": "mRPCDial", "net.Listen": "mListen", "net/rpc.NewServer": "mRPCNewServer", "(*net/rpc.Server).RegisterName": "mRPCRegisterName", "(*net/http.Server).Serve": "mHTTPServe", "(*net/rpc.Client).Call": "mRPCCall", "(*net/rpc.Client).Close": "mRPCClose",
	"(*regexp.Regexp).ReplaceAllStringFunc": "mReplaceAllStringFunc",
	"os.Open":                               "mOpen", "os.OpenFile": "mOpenFile", "os.Create": "mCreate", "os.CreateTemp": "mCreateTemp", "os.MkdirTemp": "mMkdirTemp",
	"os.Stat": "mStat", "os.Lstat": "mStat", "os.ReadFile": "mReadFile", "os.WriteFile": "mWriteFile", "os.ReadDir": "mReadDir",
	"os.Mkdir": "mMkdir", "os.MkdirAll": "mMkdirAll", "os.Remove": "mRemove", "os.RemoveAll": "mRemoveAll", "os.Rename": "mRename", "os.Chtimes": "mChtimes",
	"os.Getwd": "mGetwd", "path/filepath.Abs": "mAbs", "os.Chdir": "mChdir", "os.IsNotExist": "mIsNotExist", "os.Exit": "mOsExit", "os.IsExist": "mIsExist", "os.Getenv": "mGetenv",
	"os.LookupEnv": "mLookupEnv", "os.Setenv": "mSetenv", "os.Unsetenv": "mUnsetenv", "(*os.File).Name": "mFileName", "(*os.File).Write": "mFileWrite",
	"(*os.File).WriteString": "mFileWriteString", "(*os.File).Read": "mFileRead", "(*os.File).WriteTo": "mFileWriteTo", "(*os.File).ReadFrom": "mFileReadFrom", "(*os.File).Sync": "mFileSync",
	"(*os.File).Close": "mFileClose", "(*os.File).Stat": "mFileStat",
	"os.Pipe": "mPipe", "os.NewFile": "mNewFile", "(*os.File).Fd": "mFd", "golang.org/x/sys/unix.Dup": "mDup", "golang.org/x/sys/unix.Dup2": "mDup2", "golang.org/x/sys/unix.FcntlInt": "mFcntlInt",
	modPath + "/internal/vf.Dir": "mDir",
	"os/exec.Command":            "mCommand", "(*os/exec.Cmd).Start": "mCmdStart", "(*os/exec.Cmd).Wait": "mCmdWait", "(*os/exec.Cmd).Run": "mCmdRun",
	"(*os/exec.Cmd).CombinedOutput": "mCmdCombinedOutput", "(*os/exec.Cmd).Output": "mCmdOutput", "(*os/exec.ExitError).Error": "mExitErrorError", "(*os.ProcessState).Exited": "mPSExited",
	"(*os.ProcessState).ExitCode": "mPSExitCode", "(*os.ProcessState).Success": "mPSSuccess", "(*os.ProcessState).Pid": "mPSPid", "(*os.ProcessState).Sys": "mPSSys",
	"(*sync.Map).Load": "mMapLoad", "(*sync.Map).Store": "mMapStore", "(*sync.Map).LoadOrStore": "mMapLoadOrStore",
}

// setup allocates the globals and runs the package initialisers concretely.
func (e *Engine) setup() {
	e.errString = e.typ("errors", "errorString", true)
	e.timeT = e.typ("time", "Time", false)
	e.rtypeT = e.typ("reflect", "rtype", true)
	e.rvalueT = e.typ("reflect", "Value", false)
	vfPkg := modPath + "/internal/vf"
	e.rtErr = e.typ(vfPkg, "RuntimeError", false)
	e.rngSource = e.typ(vfPkg, "rngSource", true)
	e.models = map[string]*ssa.Function{}
	if vp := e.prog.ImportedPackage(vfPkg); vp != nil {
		for k, v := range modelNames {
			if f := vp.Func(v); f != nil {
				e.models[k] = f
			}
		}
	}
	// profiles are written without compression
	if pp := e.prog.ImportedPackage("github.com/google/pprof/profile"); pp != nil {
		if t := pp.Type("Profile"); t != nil {
			e.models["(*github.com/google/pprof/profile.Profile).Write"] = e.prog.LookupMethod(types.NewPointer(t.Type()), pp.Pkg, "WriteUncompressed")
		}
	}
	s := &State{own: &owner{}, model: Model{}, now: BV(1_000_000_000_000, 64), names: map[string]int{}, stopG: -1}
	e.base = s
	e.globals = map[*ssa.Global]ObjID{}
	allow := map[string]bool{}
	for _, p := range stdInit {
		allow[p] = true
	}
	skipVars := map[types.Object]bool{}
	var order []*packages.Package
	packages.Visit(e.pkgs, nil, func(p *packages.Package) { order = append(order, p) })
	runInit := func(p *packages.Package) bool {
		return allow[p.PkgPath] || strings.Contains(strings.Split(p.PkgPath, "/")[0], ".")
	}
	for _, p := range order {
		if !runInit(p) && p.TypesInfo != nil {
			for _, in := range p.TypesInfo.InitOrder {
				for _, v := range in.Lhs {
					skipVars[v] = true
				}
			}
		}
	}
	all := e.prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			ti := TI(g.Type().Underlying().(*types.Pointer).Elem())
			cells := make([]Value, ti.slots)
			if skipVars[g.Object()] && g.Object() != nil {
				for i := range cells {
					cells[i] = Value{P: uninit{g.String()}}
				}
			}
			e.globals[g] = s.alloc(&Obj{cells: cells, el: ti})
		}
	}
	// special values
	setG := func(pkg, name string, v Value) {
		if p := e.prog.ImportedPackage(pkg); p != nil {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				s.wobj(e.globals[g]).cells[0] = v
			}
		}
	}
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		id := s.alloc(&Obj{cells: []Value{{}}})
		setG("os", n, Value{P: Ptr{Obj: id}})
	}
	if st := e.typ("syscall", "Signal", false); st != nil {
		setG("os", "Interrupt", Value{P: &Iface{T: st, V: Value{N: 2}}})
		setG("os", "Kill", Value{P: &Iface{T: st, V: Value{N: 9}}})
	}
	argv := s.alloc(&Obj{cells: []Value{strV("verif.test")}, el: TI(types.Typ[types.String])})
	setG("os", "Args", Value{P: &Slice{Obj: argv, Len: 1, Cap: 1}})
	x := &Exec{e: e, s: s, cov: map[*FnInfo]bool{}}
	e.maxSteps = 1 << 62
	e.run = newRun("init")
	e.run.deadline = time.Now().Add(time.Hour)
	// a bottom frame
	nop := &FnInfo{name: "bottom", recov: -1, nregs: 1}
	nop.once.Do(func() {})
	nop.blocks = []blk{{code: []ins{{op: iNop}, {op: iReturn}}, join: -1}}
	for _, p := range order {
		sp := e.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		guard, _ := sp.Members["init$guard"].(*ssa.Global)
		if !runInit(p) {
			if guard != nil {
				s.wobj(e.globals[guard]).cells[0] = boolV(true)
			}
			continue
		}
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		t0 := time.Now()
		if os.Getenv("GOSYM_V") == "2" {
			logf("init %s", p.PkgPath)
		}
		e.runInit(x, nop, fn)
		if d := time.Since(t0); d > 300*time.Millisecond {
			logf("init of %s took %v", p.PkgPath, d)
		}
		if guard != nil {
			x.s.wobj(e.globals[guard]).cells[0] = boolV(true)
		}
	}
	if p := e.prog.ImportedPackage("time"); p != nil {
		if g, ok := p.Members["startNano"].(*ssa.Global); ok {
			x.s.wobj(e.globals[g]).cells[0] = Value{} // time.Now's monotonic reading is the virtual clock itself
		}
	}
	e.base = x.s
	e.base.gs = nil
	e.base.cur = 0
	e.base.steps = 0
	e.base.syncs = nil
	e.base.timers = nil
}

func (e *Engine) runInit(x *Exec, nop *FnInfo, fn *ssa.Function) {
	s := x.s
	g := &G{own: s.own, id: 0}
	s.gs = []*G{g}
	s.cur = 0
	e.buildPkg(fn.Pkg)
	x.pushFrame(g, nop, nil, nil, -1, false)
	fi := e.fnInfo(fn)
	if fi.blocks == nil {
		return
	}
	nf := x.pushFrame(g, fi, nil, nil, -1, false)
	nf.stop = true
	fails := 0
	for {
		done := func() (done bool) {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				fails++
				st := x.stack()
				msg := fmt.Sprintf("%v", r)
				if len(st) > 4 {
					st = st[:4]
				}
				if len(msg) > 200 {
					msg = msg[:200]
				}
				e.initNotes = append(e.initNotes, fmt.Sprintf("init of %s: %s at %s", fn.Pkg.Pkg.Path(), msg, strings.Join(st, " <- ")))
				s.cur = 0
				g := s.wg(0)
				g.status = gRun
				if len(g.frames) < 2 {
					done = true
					return
				}
				g.frames = g.frames[:2]
				f := s.wframe(g, 1)
				f.panic = nil
				f.defers = nil
				f.running = false
				in := &f.fn.blocks[f.block].code[f.pc]
				switch in.op {
				case iIf, iJump, iReturn, iPanic, iRunDefers:
					done = true
					return
				}
				if in.dst >= 0 {
					f.regs[in.dst] = Value{P: uninit{"(initialiser of " + fn.Pkg.Pkg.Path() + ")"}}
				}
				f.pc++
			}()
			for {
				if x.step() {
					return true
				}
			}
		}()
		if done || fails > 1000 {
			return
		}
	}
}

func newRun(name string) *Run {
	r := &Run{name: name, kills: map[string]int64{}, incompl: map[string]int64{}, incomplWhere: map[string]string{}, unknown: map[string]int64{}, violKeys: map[string]int{},
		asserts: map[string]int64{}, reached: map[string]bool{}, covered: map[*FnInfo]bool{}}
	r.cond = sync.NewCond(&r.mu)
	return r
}

// ---- callbacks from Exec ----

func (e *Engine) push(s *State) {
	r := e.run
	r.mu.Lock()
	r.stack = append(r.stack, s)
	r.mu.Unlock()
	r.cond.Signal()
}

func (e *Engine) checkBudget() {
	if time.Now().After(e.run.deadline) || e.run.isStopped() {
		panic(sigKill{"budget"})
	}
}

func (r *Run) isStopped() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stopped
}

func (r *Run) stop(why string) {
	r.mu.Lock()
	if !r.stopped {
		r.stopped = true
		r.why = why
	}
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (e *Engine) pathEnd(x *Exec, why string) {
	r := e.run
	r.mu.Lock()
	r.kills[why]++
	r.mu.Unlock()
	r.finishStats(x)
}

func (r *Run) finishStats(x *Exec) {
	atomic.AddInt64(&r.steps, x.s.steps)
	r.mu.Lock()
	if d := x.s.depth & 0xffffff; d > r.maxDepth {
		r.maxDepth = d
	}
	if x.s.steps > r.maxSteps {
		r.maxSteps = x.s.steps
	}
	for k := range x.s.reached {
		r.reached[k] = true
	}
	r.mu.Unlock()
}

func (e *Engine) incomplete(x *Exec, msg string) {
	r := e.run
	if i := strings.Index(msg, "\n"); i >= 0 {
		msg = msg[:i]
	}
	if len(msg) > 300 {
		msg = msg[:300]
	}
	where := ""
	func() {
		defer func() { recover() }()
		where = strings.Join(x.stack(), "\n      ")
	}()
	r.mu.Lock()
	r.incompl[msg]++
	if _, ok := r.incomplWhere[msg]; !ok {
		r.incomplWhere[msg] = where
	}
	r.mu.Unlock()
	r.finishStats(x)
}

func (e *Engine) noteUnknown(msg string) {
	e.run.mu.Lock()
	e.run.unknown[msg]++
	e.run.mu.Unlock()
}

func (e *Engine) noteAssert(msg string) {
	e.run.mu.Lock()
	e.run.asserts[msg]++
	e.run.mu.Unlock()
}

func (e *Engine) noteTrivial() { atomic.AddInt64(&e.run.trivial, 1) }

func (e *Engine) noteObligation(res Result) { atomic.AddInt64(&e.run.oblig[res], 1) }

func (e *Engine) cover(fi *FnInfo) {
	e.run.mu.Lock()
	e.run.covered[fi] = true
	fi.ran = true
	e.run.mu.Unlock()
}

const maxSamples = 64

func (e *Engine) pathComplete(x *Exec) {
	r := e.run
	if x.nest > 0 {
		return
	}
	n := atomic.AddInt64(&r.paths, 1)
	r.finishStats(x)
	// keep a spread of samples
	keep := n <= 8 || (n&(n-1)) == 0 || n%997 == 0
	if keep && x.s.depth&(1<<30) == 0 {
		r.mu.Lock()
		ok := len(r.samples) < maxSamples
		r.mu.Unlock()
		if ok {
			sm := &Sample{Tier: e.tier}
			sm.Values, sm.Perms, sm.nondet = exportModel(x.s, x.s.model)
			sm.obs = evalObs(x.s, x.s.model)
			r.mu.Lock()
			r.samples = append(r.samples, sm)
			r.mu.Unlock()
		}
	}
	if r.maxPaths > 0 && n >= r.maxPaths {
		r.stop("path bound")
	}
}

func evalObs(s *State, m Model) []string {
	var out []string
	memo := map[*Term]uint64{}
	for _, o := range s.obs {
		i, ok := o.val.P.(*Iface)
		if !ok {
			out = append(out, o.label+"=<nil>")
			continue
		}
		var txt string
		switch i.T.kind {
		case kBool:
			txt = fmt.Sprint(asTerm(i.V, 0).Eval(m, memo) == 1)
		case kInt:
			v := asTerm(i.V, i.T.w).Eval(m, memo)
			if i.T.sgn {
				txt = fmt.Sprint(sx(v, i.T.w))
			} else {
				txt = fmt.Sprint(v)
			}
		case kString:
			if isOpaque(i.V) {
				txt = "\x00skip"
				break
			}
			bs := strBytes(i.V)
			b := make([]byte, len(bs))
			for k := range bs {
				b[k] = byte(asTerm(bs[k], 8).Eval(m, memo))
			}
			txt = string(b)
		default:
			txt = "\x00skip"
		}
		out = append(out, o.label+"="+txt)
	}
	return out
}

// exportModel turns a model into named input values.
func exportModel(s *State, m Model) (map[string]uint64, []permRec, bool) {
	vals := map[string]uint64{}
	nondet := false
	ids := map[int]bool{}
	for p := s.pc; p != nil; p = p.up {
		for _, v := range p.t.vars {
			ids[v.id] = true
		}
	}
	for id := range m {
		ids[id] = true
	}
	varTab.mu.Lock()
	for id := range ids {
		v := varTab.all[id]
		name := v.name
		if i := strings.IndexByte(name, '['); i >= 0 && strings.HasSuffix(name, "]") && strings.Contains(name[i:], "..") {
			name = name[:i]
		}
		if x, ok := m[id]; ok {
			vals[name] = x
		} else if v.lo > 0 {
			vals[name] = v.lo
		}
		base := name
		if i := strings.IndexByte(base, '#'); i >= 0 {
			base = base[:i]
		}
		switch base {
		case "sched", "next", "select", "maporder":
			nondet = true
		}
	}
	varTab.mu.Unlock()
	var perms []permRec
	if v, ok := s.ext["permlog"]; ok && v.P != nil {
		perms = v.P.([]permRec)
	}
	return vals, perms, nondet
}

// fullModel makes sure the model satisfies the whole path condition and extra.
func (x *Exec) fullModel(m Model, extra *Term) (Model, bool) {
	memo := map[*Term]uint64{}
	ok := true
	for p := x.s.pc; p != nil; p = p.up {
		if p.t.Eval(m, memo) != 1 {
			ok = false
			break
		}
	}
	if ok && extra != nil && extra.Eval(m, memo) != 1 {
		ok = false
	}
	if ok {
		return m, true
	}
	cs := x.s.pcList()
	if extra != nil {
		cs = append(cs, extra)
	}
	res, m2 := x.sol.Query(cs)
	if res != Sat {
		return m, false
	}
	return mergeModel(m, m2), true
}

func (e *Engine) addViolation(x *Exec, kind, msg string, model Model, extra *Term) {
	r := e.run
	key := kind + ":" + msg
	r.mu.Lock()
	n := r.violKeys[key]
	r.violKeys[key]++
	r.mu.Unlock()
	if n >= 6 {
		return
	}
	m, ok := x.fullModel(model, extra)
	if !ok {
		e.noteUnknown("a violation's model could not be completed")
		return
	}
	v := &Violation{Harness: r.name, Msg: msg, Kind: kind, Tier: e.tier}
	v.Values, v.Perms, v.Nondet = exportModel(x.s, m)
	v.Trace = x.stack()
	v.obs = evalObs(x.s, m)
	v.Sched = append([]int(nil), x.s.schedLog...)
	v.Races = append([]string(nil), x.s.races...)
	if x.s.raceOn {
		v.Nondet = true
	}
	var names []string
	for k := range v.Values {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		v.Inputs = append(v.Inputs, fmt.Sprintf("%s=%d", k, int64(v.Values[k])))
	}
	r.mu.Lock()
	r.viols = append(r.viols, v)
	tot := len(r.viols)
	r.mu.Unlock()
	if tot >= 24 {
		r.stop("violations found")
	}
}

func (e *Engine) violation(x *Exec, msg string, model Model, neg *Term) {
	e.addViolation(x, "assert", msg, model, neg)
}

func (e *Engine) uncaughtPanic(x *Exec, pr *panicRec) {
	if x.s.depth&(1<<30) != 0 {
		// no witness so far
	}
	e.addViolation(x, "panic", "panic: "+x.panicText(pr.val)+" at "+shortSite(pr.site), x.s.model, nil)
	e.pathEnd(x, "panic")
}

func shortSite(s string) string {
	if i := strings.LastIndex(s, "/repo/"); i >= 0 {
		return strings.TrimSuffix(s[i+6:], ")")
	}
	return s
}

func (e *Engine) deadlock(x *Exec) {
	e.addViolation(x, "deadlock", "all goroutines are blocked forever", x.s.model, nil)
	e.pathEnd(x, "deadlock")
}

func (e *Engine) fatal(x *Exec, msg string) {
	e.addViolation(x, "panic", msg, x.s.model, nil)
}

// ---- exploration ----

func (e *Engine) explore(fn *ssa.Function, name string, budget time.Duration, maxPaths int64, workers int) *Run {
	r := newRun(name)
	r.deadline = time.Now().Add(budget)
	r.maxPaths = maxPaths
	e.run = r
	t0 := time.Now()
	e.base.clone()
	s := e.base.clone()
	s.gs = nil
	s.cur = 0
	s.raceBase = 0
	s.names = map[string]int{}
	g := &G{own: s.own, id: 0, name: "main"}
	s.gs = []*G{g}
	fi := e.fnInfo(fn)
	x0 := &Exec{e: e, s: s, cov: map[*FnInfo]bool{}}
	x0.pushFrame(g, fi, nil, nil, -1, false)
	r.stack = []*State{s}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			x := &Exec{e: e, id: w, sol: solvers[w], cov: map[*FnInfo]bool{}}
			for {
				r.mu.Lock()
				for len(r.stack) == 0 && r.active > 0 && !r.stopped {
					r.cond.Wait()
				}
				if len(r.stack) == 0 || r.stopped {
					r.dropped += int64(len(r.stack))
					r.stack = nil
					r.mu.Unlock()
					r.cond.Broadcast()
					return
				}
				st := r.stack[len(r.stack)-1]
				r.stack = r.stack[:len(r.stack)-1]
				r.active++
				over := time.Now().After(r.deadline)
				r.mu.Unlock()
				if over {
					r.stop("time bound")
				} else {
					x.nest = 0
					x.local = nil
					x.runState(st)
				}
				r.mu.Lock()
				r.active--
				r.mu.Unlock()
				r.cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
	r.wall = time.Since(t0)
	return r
}

func (r *Run) exhausted() bool {
	return !r.stopped && r.kills["budget"] == 0 && len(r.incompl) == 0 && len(r.unknown) == 0
}

var solvers []*Solver

var repoDir = "/repo"
var verifDir = "/verif"

func goEnv(ver string) []string {
	var env []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "GOROOT", "GOTOOLCHAIN", "GOPROXY", "GOENV", "GOPATH", "GOMODCACHE", "GOCACHE", "HOME", "GINKGO_EDITOR_INTEGRATION", "GOWORK", "CGO_ENABLED":
			continue
		}
		env = append(env, kv)
	}
	dirs, _ := filepath.Glob("/opt/veriftools/go" + ver + "*/bin")
	path := "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
	if len(dirs) > 0 {
		path = dirs[len(dirs)-1] + ":" + path
	}
	return append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOENV=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build", "HOME=/root", "CGO_ENABLED=1", "GOFLAGS=", "GOWORK=off")
}

var verbose = os.Getenv("GOSYM_V") != ""

func logf(f string, a ...any) {
	if verbose {
		fmt.Fprintf(os.Stderr, "[gosym] "+f+"\n", a...)
	}
}

var covFile = os.Getenv("GOSYM_COV")

// dumpCoverage appends the source lines of the repository's blocks, executed or not, to covFile.
func (e *Engine) dumpCoverage() {
	f, err := os.OpenFile(covFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	fnInfos.Range(func(_, v any) bool {
		fi := v.(*FnInfo)
		if fi.fn == nil || !fi.repo || strings.Contains(fi.name, "internal/vf") {
			return true
		}
		for bi, b := range fi.fn.Blocks {
			if bi >= len(fi.blocks) {
				break
			}
			seen := fi.blocks[bi].seen || bi == 0 && fi.ran
			for _, in := range b.Instrs {
				if p := e.prog.Fset.Position(in.Pos()); p.IsValid() && !strings.Contains(p.Filename, "zz_verif") {
					fmt.Fprintf(f, "%v %s:%d\n", seen, p.Filename, p.Line)
				}
			}
		}
		return true
	})
}
