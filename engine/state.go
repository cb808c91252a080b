package main

import (
	"golang.org/x/tools/go/ssa"
)

type owner struct{ _ byte }

const pageSize = 32

type page struct {
	own  *owner
	objs [pageSize]*Obj
}

type objKind uint8

const (
	okPlain objKind = iota
	okMap
	okChan
	okSync
)

// Obj is a heap object: a flat vector of leaf cells, or a map, or a channel.
type Obj struct {
	own   *owner
	kind  objKind
	cells []Value
	m     *MapData
	ch    *ChanData
	el    *TInfo
	site  ssa.Instruction
	race  map[int32]*raceCell
}

type MapData struct {
	keys  []Value
	vals  []Value
	dead  []bool
	live  int
	index map[string]int // canonical concrete key -> position
	nsym  int            // entries whose key is symbolic
}

type ChanData struct {
	buf    []Value
	cap    int
	closed bool
	// waiting counters are derived from goroutine states
	vc    []vclock // clocks of buffered messages
	close vclock
	rvc   vclock // receiver clocks (for cap>0 the k-th receive happens before k+C-th send)
}

type deferred struct {
	fn   Value
	inv  *ssa.CallCommon
	args []Value
}

type panicRec struct {
	val       Value // interface value
	recovered bool
	goexit    bool
	site      string
	calls     []callAt // where it was raised
}

type Frame struct {
	own     *owner
	fn      *FnInfo
	regs    []Value
	block   int
	pc      int
	prev    int
	dst     int // register in the caller
	defers  []deferred
	panic   *panicRec // being unwound through this frame
	running bool      // running defers for normal return
	recRet  bool      // recovered: after defers go to Recover block
	isDefer bool      // this frame is a deferred call
	binds   []Value
	loops   map[int]int
	native  func(x *Exec, rets Value) // continuation for native code calling back (on return)
	stop    bool
}

type gstatus uint8

const (
	gRun gstatus = iota
	gBlocked
	gDone
)

type G struct {
	own    *owner
	id     int
	frames []*Frame
	status gstatus
	why    blockReason
	vc     vclock
	name   string
	// result of a completed select/recv performed by another goroutine
	ready   bool
	readyV  Value
	readyOK bool
	readyIx int
	// a panic to raise on resumption
	sendPanic bool
	preempt   int
	passed    bool
	seq       int
	by        callAt // the go statement
	byID      int
}

type blockKind uint8

const (
	bNone blockKind = iota
	bChan           // blocked in send/recv/select on cases
	bMutex
	bRMutex
	bWait
	bCond
	bSleep
	bForever
)

type blockReason struct {
	kind  blockKind
	obj   ObjID
	off   int32
	cases []selCase
	until *Term
}

type selCase struct {
	ch   ObjID // -1 when nil
	send bool
	val  Value
	idx  int
}

type timer struct {
	id     int
	when   *Term // 64-bit ns
	kind   int   // 0: send on channel obj, 1: call func in new goroutine, 2: wake goroutine
	ch     ObjID
	fn     Value
	g      int
	period *Term
	dead   bool
	obj    ObjID // the timer object (for Stop/Reset)
	seq    int
}

type pcNode struct {
	t    *Term
	up   *pcNode
	size int
}

type obsRec struct {
	label string
	val   Value
}

type State struct {
	own           *owner
	heap          []*page
	nobj          int
	gs            []*G
	cur           int
	pc            *pcNode
	fixed         map[int]uint64
	fixOwn        *owner
	model         Model
	now           *Term
	timers        []*timer
	timSeq        int
	steps         int64
	names         map[string]int
	namOwn        *owner
	obs           []obsRec
	trace         []string
	preempts      int
	depth         int
	sched         int // scheduling mode
	framesOn      bool
	raceOn        bool
	mapOrd        bool
	stopG         int
	ext           map[string]Value // engine-side mutable globals (e.g. rand state)
	extOwn        *owner
	reached       map[string]bool
	rchOwn        *owner
	schedLog      []int
	races         []string
	finished      bool
	pendingUnwind bool
	resume        bool
	blockSeq      int
	raceBase      int
	syncs         map[syncKey]*syncObj
	syncOwn       *owner
}

type syncKey struct {
	obj ObjID
	off int32
}

// syncObj is the state of a mutex / waitgroup / condition variable at an address.
type syncObj struct {
	locked  bool
	readers int
	count   int // waitgroup
	owner   int
	vc      vclock
	rvc     vclock
	gen     int
}

func (s *State) syncAt(k syncKey) *syncObj {
	if s.syncOwn != s.own {
		m := make(map[syncKey]*syncObj, len(s.syncs)+1)
		for a, b := range s.syncs {
			c := *b
			c.vc = c.vc.clone()
			c.rvc = c.rvc.clone()
			m[a] = &c
		}
		s.syncs = m
		s.syncOwn = s.own
	}
	o := s.syncs[k]
	if o == nil {
		o = &syncObj{owner: -1}
		s.syncs[k] = o
	}
	return o
}

func (s *State) clone() *State {
	n := *s
	s.own = &owner{}
	n.own = &owner{}
	n.heap = append([]*page(nil), s.heap...)
	n.gs = append([]*G(nil), s.gs...)
	n.timers = append([]*timer(nil), s.timers...)
	n.obs = s.obs[:len(s.obs):len(s.obs)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.schedLog = s.schedLog[:len(s.schedLog):len(s.schedLog)]
	n.races = s.races[:len(s.races):len(s.races)]
	return &n
}

func (s *State) obj(id ObjID) *Obj {
	return s.heap[id/pageSize].objs[id%pageSize]
}

func (s *State) wobj(id ObjID) *Obj {
	p := s.heap[id/pageSize]
	if p.own != s.own {
		q := *p
		q.own = s.own
		p = &q
		s.heap[id/pageSize] = p
	}
	o := p.objs[id%pageSize]
	if o.own != s.own {
		q := *o
		q.own = s.own
		q.cells = append([]Value(nil), o.cells...)
		if o.m != nil {
			q.m = o.m.clone()
		}
		if o.ch != nil {
			c := *o.ch
			c.buf = append([]Value(nil), o.ch.buf...)
			c.vc = append([]vclock(nil), o.ch.vc...)
			c.close = o.ch.close.clone()
			c.rvc = o.ch.rvc.clone()
			q.ch = &c
		}
		if o.race != nil {
			q.race = make(map[int32]*raceCell, len(o.race))
			for k, v := range o.race {
				c := *v
				c.reads = v.reads.clone()
				q.race[k] = &c
			}
		}
		o = &q
		p.objs[id%pageSize] = o
	}
	return o
}

func (s *State) alloc(o *Obj) ObjID {
	id := s.nobj
	s.nobj++
	o.own = s.own
	if id/pageSize >= len(s.heap) {
		s.heap = append(s.heap, &page{own: s.own})
	}
	p := s.heap[id/pageSize]
	if p.own != s.own {
		q := *p
		q.own = s.own
		p = &q
		s.heap[id/pageSize] = p
	}
	p.objs[id%pageSize] = o
	return ObjID(id)
}

func (s *State) allocCells(n int) ObjID {
	return s.alloc(&Obj{cells: make([]Value, n)})
}

func (s *State) g() *G { return s.gs[s.cur] }

// wg returns the current goroutine, writable.
func (s *State) wg(i int) *G {
	g := s.gs[i]
	if g.own != s.own {
		q := *g
		q.own = s.own
		q.frames = append([]*Frame(nil), g.frames...)
		q.vc = g.vc.clone()
		g = &q
		s.gs[i] = g
	}
	return g
}

func (s *State) top() *Frame {
	g := s.wg(s.cur)
	return s.wframe(g, len(g.frames)-1)
}

func (s *State) wframe(g *G, i int) *Frame {
	f := g.frames[i]
	if f.own != s.own {
		q := *f
		q.own = s.own
		q.regs = append([]Value(nil), f.regs...)
		q.defers = append([]deferred(nil), f.defers...)
		if f.loops != nil {
			q.loops = make(map[int]int, len(f.loops))
			for k, v := range f.loops {
				q.loops[k] = v
			}
		}
		f = &q
		g.frames[i] = f
	}
	return f
}

func (s *State) addPC(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OAnd {
		s.addPC(t.a)
		s.addPC(t.b)
		return
	}
	if t.op == ONot && t.a.op == OOr {
		s.addPC(Not(t.a.a))
		s.addPC(Not(t.a.b))
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.size + 1
	}
	s.pc = &pcNode{t, s.pc, n}
	// record fixed variables
	if t.op == OEq && t.a.op == OVar && t.b.op == OConst {
		s.fix(t.a.vars[0].id, t.b.k)
	} else if t.op == OVar {
		s.fix(t.vars[0].id, 1)
	} else if t.op == ONot && t.a.op == OVar {
		s.fix(t.a.vars[0].id, 0)
	}
}

func (s *State) fix(id int, v uint64) {
	if s.fixOwn != s.own {
		m := make(map[int]uint64, len(s.fixed)+1)
		for k, x := range s.fixed {
			m[k] = x
		}
		s.fixed = m
		s.fixOwn = s.own
	}
	s.fixed[id] = v
}

func (s *State) pcList() []*Term {
	n := s.pc
	var out []*Term
	for n != nil {
		out = append(out, n.t)
		n = n.up
	}
	return out
}

func (s *State) nextName(name string) int {
	if s.namOwn != s.own {
		m := make(map[string]int, len(s.names)+1)
		for k, v := range s.names {
			m[k] = v
		}
		s.names = m
		s.namOwn = s.own
	}
	n := s.names[name]
	s.names[name] = n + 1
	return n
}

func (s *State) setExt(k string, v Value) {
	if s.extOwn != s.own {
		m := make(map[string]Value, len(s.ext)+1)
		for a, b := range s.ext {
			m[a] = b
		}
		s.ext = m
		s.extOwn = s.own
	}
	s.ext[k] = v
}

func (s *State) reach(k string) {
	if s.reached[k] {
		return
	}
	if s.rchOwn != s.own {
		m := make(map[string]bool, len(s.reached)+1)
		for a := range s.reached {
			m[a] = true
		}
		s.reached = m
		s.rchOwn = s.own
	}
	s.reached[k] = true
}

func (m *MapData) clone() *MapData {
	n := &MapData{live: m.live, nsym: m.nsym}
	n.keys = append([]Value(nil), m.keys...)
	n.vals = append([]Value(nil), m.vals...)
	n.dead = append([]bool(nil), m.dead...)
	n.index = make(map[string]int, len(m.index))
	for k, v := range m.index {
		n.index[k] = v
	}
	return n
}

// ---- vector clocks ----

type vclock []uint32

func (v vclock) clone() vclock { return append(vclock(nil), v...) }
func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v *vclock) set(i int, x uint32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = x
}
func (v *vclock) join(o vclock) {
	for i, x := range o {
		if x > v.get(i) {
			v.set(i, x)
		}
	}
}
func (v vclock) leq(o vclock) bool {
	for i, x := range v {
		if x > o.get(i) {
			return false
		}
	}
	return true
}

type raceCell struct {
	wg    int
	wt    uint32
	wsite string
	reads vclock
	rsite string
}
