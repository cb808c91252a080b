// Package vf is the interface between the verification harnesses and whoever runs them.
//
// Under the symbolic executor (gosym) the primitives below are intrinsics: inputs are solver variables, Assert is an
// obligation for the solver. Compiled natively (through go's -overlay) they read one concrete assignment from the
// file named by VERIF_INPUT, so that a counterexample or a sampled path is replayed against the real code.
package vf

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

type permRec struct {
	Op   string `json:"op"` // "p" or "i"
	N    int    `json:"n"`
	Perm []int  `json:"perm"`
}

type input struct {
	Values map[string]uint64 `json:"values"`
	Perms  []permRec         `json:"perms"`
	Tier   int               `json:"tier"`
}

var (
	mu       sync.Mutex
	in       input
	counts   = map[string]int{}
	Failures []string
	Trace    []string
	Missing  []string
	start    = time.Now()
)

// StopRun is the panic value that ends a native replay early.
type StopRun struct{ Why string }

// Reset loads an assignment (native only).
func Reset(file string) error {
	in = input{}
	counts = map[string]int{}
	Failures, Trace, Missing = nil, nil, nil
	start = time.Now()
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, &in)
}

func next(name string) string {
	mu.Lock()
	defer mu.Unlock()
	k := counts[name]
	counts[name]++
	return fmt.Sprintf("%s#%d", name, k)
}

func get(key string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	return in.Values[key]
}

// Tier is 0 for the quick and 1 for the thorough tier.
func Tier() int { return in.Tier }

// Bool is an arbitrary bool.
func Bool(name string) bool { return get(next(name)) != 0 }

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	k := next(name)
	if lo == hi {
		return lo
	}
	mu.Lock()
	v, ok := in.Values[k]
	mu.Unlock()
	if !ok {
		return lo
	}
	return int(int64(v))
}

func Byte(name string) byte     { return byte(get(next(name))) }
func Uint64(name string) uint64 { return get(next(name)) }
func Int64(name string) int64   { return int64(get(next(name))) }

// Pick is an arbitrary value in [0,n).
func Pick(name string, n int) int {
	k := next(name)
	if n <= 1 {
		return 0
	}
	return int(get(k))
}

// Concrete forks over the feasible values of v.
func Concrete(v int) int { return v }

// String is an arbitrary string of at most max bytes over alphabet ("" means all bytes).
func String(name string, max int, alphabet string) string {
	n := 0
	if max > 0 {
		n = int(get(next("in:" + name + ".len")))
	}
	return StringN(name, n, alphabet)
}

// StringN is an arbitrary string of exactly n bytes over alphabet.
func StringN(name string, n int, alphabet string) string {
	base := next(name)
	b := make([]byte, n)
	for i := range b {
		mu.Lock()
		v, ok := in.Values[fmt.Sprintf("%s.%d", base, i)]
		mu.Unlock()
		if !ok && alphabet != "" {
			v = uint64(alphabet[0])
		}
		b[i] = byte(v)
	}
	return string(b)
}

// Seed is an arbitrary random seed. Natively it is a seed whose generator reproduces the recorded draws.
func Seed(name string) int64 {
	next(name)
	if len(in.Perms) == 0 {
		return 1
	}
	for seed := int64(1); seed < 3000000; seed++ {
		r := rand.New(rand.NewSource(seed))
		ok := true
		for _, p := range in.Perms {
			if p.Op == "i" {
				if r.Intn(p.N) != p.Perm[0] {
					ok = false
				}
			} else {
				q := r.Perm(p.N)
				for i := range q {
					if q[i] != p.Perm[i] {
						ok = false
						break
					}
				}
			}
			if !ok {
				break
			}
		}
		if ok {
			return seed
		}
	}
	mu.Lock()
	Missing = append(Missing, "no seed reproduces the recorded permutations")
	mu.Unlock()
	return 1
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(StopRun{"assumption not met"})
	}
}

// Assert is a proof obligation.
func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		Failures = append(Failures, msg)
		mu.Unlock()
	}
}

// Assertf builds the message only when needed natively; symbolically it is formatted once.
func Assertf(c bool, format string, args ...any) { Assert(c, format) }

// Reach marks a situation that the exploration must reach (vacuity check).
func Reach(name string) {}

// Observe records a value for comparing the symbolic path with a native run.
func Observe(name string, v any) {
	mu.Lock()
	defer mu.Unlock()
	Trace = append(Trace, name+"="+fmt.Sprint(v))
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteBool(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func EqStr(a, b string) bool { return a == b }

// Schedules selects how goroutines are scheduled: 0 deterministic, 1 every choice at blocking points, 2 additionally
// up to preempt preemptions at synchronisation operations.
func Schedules(mode, preempt int) {}

// Races switches the happens-before race detector on.
func Races(on bool)      {}
func RaceCount() int     { return 0 }
func RaceReport() string { return "" }

// Wall makes the wall clock move, along with the monotonic clock, as long as the time is concrete.
func Wall(on bool) {}

// Frames makes call stacks visible: runtime.Callers, runtime.Stack and the locations and progress reports made from them.
func Frames(on bool) {}

func pcInfo(pc uintptr) (string, string, int) { return "", "", 0 }

var framesLeft = map[*runtime.Frames][]uintptr{}

func mCallersFrames(pcs []uintptr) *runtime.Frames {
	f := &runtime.Frames{}
	framesLeft[f] = pcs
	return f
}

func mFramesNext(f *runtime.Frames) (runtime.Frame, bool) {
	left := framesLeft[f]
	if len(left) == 0 {
		return runtime.Frame{}, false
	}
	pc := left[0]
	framesLeft[f] = left[1:]
	name, file, line := pcInfo(pc)
	return runtime.Frame{PC: pc, Func: runtime.FuncForPC(pc), Function: name, File: file, Line: line}, len(left) > 1
}

// MapOrder makes iteration over maps visit the entries in every order.
func MapOrder(on bool) {}

// Engine reports whether the symbolic executor is running.
func Engine() bool { return false }

// NowNanos is the virtual clock.
func NowNanos() int64 { return int64(time.Since(start)) }

// Exit ends this path without judging it.
func Exit() { panic(StopRun{"exit"}) }

func Log(v any) {}

// Signal delivers a signal to this process.
func Signal(sig syscall.Signal) {
	if !Engine() {
		syscall.Kill(os.Getpid(), sig)
		return
	}
	for _, r := range sigRegs {
		hit := len(r.sigs) == 0
		for _, s := range r.sigs {
			hit = hit || s == os.Signal(sig)
		}
		if hit {
			select {
			case r.c <- sig:
			default:
			}
		}
	}
}

// RPC serves the remote calls that the code under test makes (symbolically; natively they use the network).
var RPC func(addr, method string, args, reply any) error

// Dispatch calls the method that net/rpc would call on receiver.
func Dispatch(receiver any, method string, args, reply any) error {
	dot := strings.LastIndex(method, ".")
	m := reflect.ValueOf(receiver).MethodByName(method[dot+1:])
	if !m.IsValid() {
		return rpcError("rpc: can't find method " + method)
	}
	t := m.Type()
	if t.NumIn() != 2 || t.NumOut() != 1 || !reflect.TypeOf(args).AssignableTo(t.In(0)) {
		return rpcError("rpc: bad signature of " + method)
	}
	out := m.Call([]reflect.Value{reflect.ValueOf(args), reflect.ValueOf(reply)})
	if err, _ := out[0].Interface().(error); err != nil {
		return rpcError(err.Error())
	}
	return nil
}

type rpcError string

func (e rpcError) Error() string { return string(e) }

// ---- Go-level models of library functions, used only by the symbolic executor ----

// RuntimeError stands for the run-time's own panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (RuntimeError) RuntimeError()   {}

type rngSource struct{ seed int64 }

func (r *rngSource) Int63() int64    { return 0 }
func (r *rngSource) Seed(seed int64) {}

var keepRng rand.Source = &rngSource{}

func fmtVerbs(format string) string             { return "" }
func sprintf(format string, args ...any) string { return "" }
func swapElems(slice any, i, j int)             {}
func sliceLen(slice any) int                    { return 0 }
func rawError(s string) error                   { return nil }

func textOf(a any) (string, bool) {
	switch v := a.(type) {
	case error:
		return v.Error(), true
	case fmt.Stringer:
		return v.String(), true
	}
	return "", false
}

func isNilPtr(a any) bool { return false }

func resolve(format string, args []any) []any {
	verbs := fmtVerbs(format)
	var out []any
	for i, a := range args {
		if rv, ok := a.(reflect.Value); ok && rv.IsValid() {
			a = rv.Interface()
		}
		if i < len(verbs) && a != nil && !isNilPtr(a) {
			switch verbs[i] {
			case 'v', 's', 'q', 'x', 'X', 'w':
				if t, ok := textOf(a); ok {
					a = t
				}
			}
		}
		out = append(out, a)
	}
	return out
}

func mSprintf(format string, args ...any) string {
	return sprintf(format, resolve(format, args)...)
}

func mSprint(args ...any) string {
	s := ""
	prevString := true
	for i, a := range args {
		_, isString := a.(string)
		if i > 0 && !isString && !prevString {
			s += " "
		}
		s += mSprintf("%v", a)
		prevString = isString
	}
	return s
}

func mSprintln(args ...any) string {
	s := ""
	for i, a := range args {
		if i > 0 {
			s += " "
		}
		s += mSprintf("%v", a)
	}
	return s + "\n"
}

type fmtError struct {
	msg string
	err error
}

func (e *fmtError) Error() string { return e.msg }

type fmtWrapError struct {
	msg string
	err error
}

func (e *fmtWrapError) Error() string { return e.msg }
func (e *fmtWrapError) Unwrap() error { return e.err }

func mErrorf(format string, args ...any) error {
	verbs := fmtVerbs(format)
	var wrapped error
	has := false
	for i := range args {
		if i < len(verbs) && verbs[i] == 'w' {
			if e, ok := args[i].(error); ok {
				wrapped = e
				has = true
			}
		}
	}
	s := mSprintf(strings.ReplaceAll(format, "%w", "%v"), args...)
	if has {
		return &fmtWrapError{s, wrapped}
	}
	return &fmtError{s, nil}
}

type writer interface {
	Write(p []byte) (int, error)
}

type stringWriter interface {
	WriteString(s string) (int, error)
}

func put(w writer, s string) (int, error) {
	switch b := w.(type) {
	case *strings.Builder:
		return b.WriteString(s)
	}
	return w.Write([]byte(s))
}

func mFprintf(w writer, format string, args ...any) (int, error) {
	return put(w, mSprintf(format, args...))
}
func mFprint(w writer, args ...any) (int, error)   { return put(w, mSprint(args...)) }
func mFprintln(w writer, args ...any) (int, error) { return put(w, mSprintln(args...)) }
func mPrintf(format string, args ...any) (int, error) {
	mSprintf(format, args...)
	return 0, nil
}
func mPrint(args ...any) (int, error) { return 0, nil }

func mSortSlice(x any, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapElems(x, j, j-1)
		}
	}
}

type sigReg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var sigRegs []sigReg

func mSignalNotify(c chan<- os.Signal, sigs ...os.Signal) {
	sigRegs = append(sigRegs, sigReg{c, sigs})
}

func mSignalStop(c chan<- os.Signal) {
	var kept []sigReg
	for _, r := range sigRegs {
		if r.c != c {
			kept = append(kept, r)
		}
	}
	sigRegs = kept
}

func mReplaceAllStringFunc(re *regexp.Regexp, src string, f func(string) string) string {
	out, at := "", 0
	for _, m := range re.FindAllStringIndex(src, -1) {
		out += src[at:m[0]] + f(src[m[0]:m[1]])
		at = m[1]
	}
	return out + src[at:]
}

func mPoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

// sync.Map as an insertion-ordered association list.
type smEntry struct{ k, v any }

var smaps = map[*sync.Map]*[]smEntry{}

func smOf(m *sync.Map) *[]smEntry {
	e := smaps[m]
	if e == nil {
		e = new([]smEntry)
		smaps[m] = e
	}
	return e
}

func mMapLoad(m *sync.Map, k any) (any, bool) {
	for _, e := range *smOf(m) {
		if e.k == k {
			return e.v, true
		}
	}
	return nil, false
}

func mMapStore(m *sync.Map, k, v any) {
	es := smOf(m)
	for i := range *es {
		if (*es)[i].k == k {
			(*es)[i].v = v
			return
		}
	}
	*es = append(*es, smEntry{k, v})
}

func mMapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	if o, ok := mMapLoad(m, k); ok {
		return o, true
	}
	mMapStore(m, k, v)
	return v, false
}
