package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int8

const (
	Unknown Result = iota
	Sat
	Unsat
)

// Stats are global counters for the evidence.
var Stats struct {
	queries, sat, unsat, unknown, cacheHits, modelHits int64
	solverNs                                           int64
	coreHits                                           int64
	crossChecked, crossDisagree                        int64
}

type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	w        io.WriteCloser
	declared map[int]bool
	defined  map[uint32]bool
	nq       int
	bin      []string
	timeout  int // ms
	core     []*Term
}

func NewSolver(bin []string, timeoutMs int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.w = w
	var wr io.Writer = w
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		if f, err := os.CreateTemp(d, "session"); err == nil {
			wr = io.MultiWriter(w, f)
		}
	}
	s.in = bufio.NewWriterSize(wr, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.declared = map[int]bool{}
	s.defined = map[uint32]bool{}
	s.nq = 0
	if err := s.cmd.Start(); err != nil {
		return err
	}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :produce-unsat-cores true)\n")
	if strings.Contains(s.bin[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.w.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		v := t.vars[0]
		if !s.declared[v.id] {
			s.declared[v.id] = true
			fmt.Fprintf(s.in, "(declare-const v%d %s)\n", v.id, sortName(v.w))
		}
		return fmt.Sprintf("v%d", v.id)
	}
	if s.defined[t.id] {
		return fmt.Sprintf("t%d", t.id)
	}
	var e string
	switch t.op {
	case OZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OExtract:
		e = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s.ref(t.a))
	default:
		var sb strings.Builder
		sb.WriteString("(" + opSMT[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" ")
				sb.WriteString(s.ref(x))
			}
		}
		sb.WriteString(")")
		e = sb.String()
	}
	s.defined[t.id] = true
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), e)
	return fmt.Sprintf("t%d", t.id)
}

// Check decides the conjunction of cs.
func (s *Solver) Check(cs []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&Stats.solverNs, int64(time.Since(t0))) }()
	if s.nq > 20000 {
		s.Close()
		if s.start() != nil {
			return Unknown, nil
		}
	}
	s.nq++
	var vars []*VarInfo
	refs := make([]string, len(cs))
	for i, c := range cs {
		refs[i] = s.ref(c)
		vars = mergeVars(vars, c.vars)
	}
	s.in.WriteString("(push 1)\n")
	for _, v := range vars {
		r := s.ref(v.term)
		if v.w > 0 {
			if v.lo > 0 {
				fmt.Fprintf(s.in, "(assert (bvuge %s (_ bv%d %d)))\n", r, v.lo, v.w)
			}
			if v.hi < mask(v.w) {
				fmt.Fprintf(s.in, "(assert (bvule %s (_ bv%d %d)))\n", r, v.hi, v.w)
			}
		}
	}
	for i, r := range refs {
		fmt.Fprintf(s.in, "(assert (! %s :named a%d_%d))\n", r, s.nq, i)
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	res := Unknown
	var model Model
	if err == nil {
		switch line {
		case "sat":
			res = Sat
			model = Model{}
			if len(vars) > 0 {
				s.in.WriteString("(get-value (")
				for _, v := range vars {
					fmt.Fprintf(s.in, "v%d ", v.id)
				}
				s.in.WriteString("))\n")
				s.in.Flush()
				txt, e2 := s.readSexp()
				if e2 != nil || !parseModel(txt, model) {
					res = Unknown
				}
			}
		case "unsat":
			res = Unsat
			if len(cs) > 1 {
				s.in.WriteString("(get-unsat-core)\n")
				s.in.Flush()
				if txt, e2 := s.readSexp(); e2 == nil {
					s.core = s.core[:0]
					pre := fmt.Sprintf("a%d_", s.nq)
					for _, f := range strings.Fields(strings.Trim(txt, "() \n")) {
						if i, e3 := strconv.Atoi(strings.TrimPrefix(f, pre)); e3 == nil && i < len(cs) {
							s.core = append(s.core, cs[i])
						}
					}
				}
			} else {
				s.core = append(s.core[:0], cs...)
			}
		default:
			if strings.HasPrefix(line, "(error") {
				err = fmt.Errorf("solver: %s", line)
			}
		}
	}
	if err != nil {
		s.Close()
		s.start()
		return Unknown, nil
	}
	s.in.WriteString("(pop 1)\n")
	return res, model
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if started && depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseModel(txt string, m Model) bool {
	// ((v1 #x00) (v2 true) (v3 (_ bv3 8)))
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i < len(f); {
		if !strings.HasPrefix(f[i], "v") {
			return false
		}
		id, err := strconv.Atoi(f[i][1:])
		if err != nil || i+1 >= len(f) {
			return false
		}
		v := f[i+1]
		i += 2
		var val uint64
		switch {
		case v == "true":
			val = 1
		case v == "false":
			val = 0
		case strings.HasPrefix(v, "#x"):
			val, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			val, err = strconv.ParseUint(v[2:], 2, 64)
		case v == "_":
			val, err = strconv.ParseUint(f[i][2:], 10, 64)
			i += 2
		default:
			return false
		}
		if err != nil {
			return false
		}
		m[id] = val
	}
	return true
}

// ---- cached, sliced queries ----

type qentry struct {
	res   Result
	model Model
}

var qcache struct {
	mu sync.RWMutex
	m  map[string]qentry
}

func qkey(cs []*Term) string {
	b := make([]byte, 0, len(cs)*4)
	for _, c := range cs {
		b = append(b, byte(c.id), byte(c.id>>8), byte(c.id>>16), byte(c.id>>24))
	}
	return string(b)
}

// sliceFor returns the constraints of pc transitively sharing variables with cond.
func sliceFor(pc []*Term, cond *Term) []*Term {
	out := []*Term{cond}
	vs := map[int]bool{}
	for _, v := range cond.vars {
		vs[v.id] = true
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.vars {
				if vs[v.id] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for _, v := range p.vars {
					vs[v.id] = true
				}
			}
		}
	}
	return out
}

func (s *Solver) Query(cs []*Term) (Result, Model) {
	cond := cs[0]
	cs = sortedTerms(cs)
	key := qkey(cs)
	qcache.mu.RLock()
	e, ok := qcache.m[key]
	qcache.mu.RUnlock()
	if ok {
		atomic.AddInt64(&Stats.cacheHits, 1)
		return e.res, e.model
	}
	if coreHit(cs) {
		atomic.AddInt64(&Stats.coreHits, 1)
		return Unsat, nil
	}
	vkey, vars := varKey(cs)
	if m := modelHit(vkey, vars, cond, cs); m != nil {
		atomic.AddInt64(&Stats.modelHits, 1)
		return Sat, m
	}
	t0 := time.Now()
	res, model := s.Check(cs)
	if res == Unsat && len(s.core) > 0 {
		addCore(s.core)
	} else if res == Sat {
		addModel(vkey, model)
	}
	if slowQ > 0 && time.Since(t0) > slowQ {
		fmt.Fprintf(os.Stderr, "SLOW %v %v\n", time.Since(t0), res)
		for _, c := range cs {
			fmt.Fprintf(os.Stderr, "   %v\n", c)
		}
	}
	atomic.AddInt64(&Stats.queries, 1)
	switch res {
	case Sat:
		atomic.AddInt64(&Stats.sat, 1)
	case Unsat:
		atomic.AddInt64(&Stats.unsat, 1)
	default:
		atomic.AddInt64(&Stats.unknown, 1)
	}
	if crossSolver != nil {
		crossSolver.check(cs, res)
	}
	if res != Unknown {
		qcache.mu.Lock()
		if qcache.m == nil {
			qcache.m = map[string]qentry{}
		}
		qcache.m[key] = qentry{res, model}
		qcache.mu.Unlock()
	}
	return res, model
}

// crossSolver re-asks a sample of the queries to a second solver.
type cross struct {
	mu    sync.Mutex
	s     *Solver
	every int
	n     int
	msgs  []string
}

var crossSolver *cross

// slowQ reports queries that take longer (debugging).
var slowQ = func() time.Duration { d, _ := time.ParseDuration(os.Getenv("GOSYM_SLOW")); return d }()

func (c *cross) check(cs []*Term, res Result) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	if c.n%c.every != 0 || res == Unknown {
		return
	}
	r2, _ := c.s.Check(cs)
	if r2 == Unknown {
		return
	}
	atomic.AddInt64(&Stats.crossChecked, 1)
	if r2 != res {
		atomic.AddInt64(&Stats.crossDisagree, 1)
		c.msgs = append(c.msgs, fmt.Sprintf("solvers disagree: %v vs %v on %v", res, r2, cs))
	}
}

// ---- unsatisfiable cores and models of earlier queries ----

// Cores are indexed by their newest term; a query containing all terms of a core is unsatisfiable.
var cores struct {
	mu sync.RWMutex
	m  map[uint32][][]*Term
}

func addCore(core []*Term) {
	c := sortedTerms(append([]*Term(nil), core...))
	cores.mu.Lock()
	defer cores.mu.Unlock()
	if cores.m == nil {
		cores.m = map[uint32][][]*Term{}
	}
	k := c[len(c)-1].id
	if len(cores.m[k]) < 64 {
		cores.m[k] = append(cores.m[k], c)
	}
}

func coreHit(cs []*Term) bool {
	cores.mu.RLock()
	defer cores.mu.RUnlock()
	for i, t := range cs {
	next:
		for _, c := range cores.m[t.id] {
			j := 0
			for _, x := range c {
				for j <= i && cs[j].id < x.id {
					j++
				}
				if j > i || cs[j] != x {
					continue next
				}
			}
			return true
		}
	}
	return false
}

// Models are kept per set of variables; a query they satisfy is satisfiable.
var models struct {
	mu sync.RWMutex
	m  map[string][]Model
}

const keepModels = 256

func varKey(cs []*Term) (string, []*VarInfo) {
	var vars []*VarInfo
	for _, c := range cs {
		vars = mergeVars(vars, c.vars)
	}
	b := make([]byte, 0, 4*len(vars))
	for _, v := range vars {
		b = append(b, byte(v.id), byte(v.id>>8), byte(v.id>>16), byte(v.id>>24))
	}
	return string(b), vars
}

func addModel(key string, m Model) {
	models.mu.Lock()
	defer models.mu.Unlock()
	if models.m == nil {
		models.m = map[string][]Model{}
	}
	l := models.m[key]
	if len(l) >= keepModels {
		l = append(make([]Model, 0, keepModels+1), l[keepModels/4:]...)
	}
	models.m[key] = append(l, m)
}

func modelHit(key string, vars []*VarInfo, cond *Term, cs []*Term) Model {
	models.mu.RLock()
	l := models.m[key]
	models.mu.RUnlock()
next:
	for i := len(l) - 1; i >= 0; i-- {
		m := l[i]
		if cond.Eval(m, nil) != 1 {
			continue
		}
		for _, c := range cs {
			if c.Eval(m, nil) != 1 {
				continue next
			}
		}
		full := Model{}
		for _, v := range vars {
			full[v.id] = m.get(v)
		}
		return full
	}
	return nil
}
