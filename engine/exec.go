package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Exec struct {
	e      *Engine
	s      *State
	sol    *Solver
	id     int
	local  *[]*State // when non-nil forks go here (merged calls)
	steps  int64
	nest   int
	inSpec bool
	cov    map[*FnInfo]bool
	merges int64
}

// control signals
type sigKill struct{ why string }
type sigThrow struct {
	val    Value
	goexit bool
}
type sigSwitch struct{} // the current goroutine changed; refetch
type sigSpecFail struct{}
type sigRestart struct{}
type sigStopPanic struct{}

func (x *Exec) kill(why string) { panic(sigKill{why}) }

// throw raises a Go run-time panic inside the interpreted program.
func (x *Exec) throw(msg string) {
	if x.inSpec {
		panic(sigSpecFail{})
	}
	panic(sigThrow{val: x.errorValue(msg)})
}

func (x *Exec) errorValue(msg string) Value {
	if x.e.rtErr != nil {
		return Value{P: &Iface{T: x.e.rtErr, V: strV(msg)}}
	}
	return Value{P: &Iface{T: TI(types.Typ[types.String]), V: strV(msg)}}
}

// known reports whether the path condition syntactically settles cond.
func (x *Exec) known(c *Term) (bool, bool) {
	s := x.s
	if len(s.fixed) > 0 {
		all := true
		for _, v := range c.vars {
			if _, ok := s.fixed[v.id]; !ok {
				all = false
				break
			}
		}
		if all {
			return c.Eval(Model(s.fixed), map[*Term]uint64{}) == 1, true
		}
	}
	n := Not(c)
	for p := s.pc; p != nil; p = p.up {
		if p.t == c {
			return true, true
		}
		if p.t == n {
			return false, true
		}
	}
	return false, false
}

// feasible checks pc && c with the solver.
func (x *Exec) feasible(c *Term) (Result, Model) {
	return x.sol.Query(sliceFor(x.s.pcList(), c))
}

func mergeModel(base, over Model) Model {
	m := make(Model, len(base)+len(over))
	for k, v := range base {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

// decide picks a truth value for c on this path, forking the other one when it is feasible too.
func (x *Exec) decide(c *Term) bool {
	if c.op == OConst {
		return c.k == 1
	}
	if x.inSpec {
		panic(sigSpecFail{})
	}
	if v, ok := x.known(c); ok {
		return v
	}
	s := x.s
	side := c.Eval(s.model, map[*Term]uint64{}) == 1
	keep, other := c, Not(c)
	if !side {
		keep, other = other, keep
	}
	res, model := x.feasible(other)
	if res == Unsat {
		s.addPC(keep)
		return side
	}
	n := s.clone()
	n.addPC(other)
	if res == Sat {
		n.model = mergeModel(n.model, model)
	} else {
		// undecided: keep exploring, but the state carries no witness
		x.e.noteUnknown("solver answered unknown at a branch; both sides explored")
		n.model = mergeModel(n.model, nil)
		n.depth |= 1 << 30
	}
	n.depth++
	s.depth++
	s.addPC(keep)
	x.push(n)
	return side
}

func (x *Exec) push(n *State) {
	atomic.AddInt64(&x.e.forks, 1)
	if x.local != nil {
		*x.local = append(*x.local, n)
		return
	}
	x.e.push(n)
}

// choose forks n ways with a fresh symbolic choice (no solver needed: the choice is unconstrained).
func (x *Exec) choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	if x.inSpec {
		panic(sigSpecFail{})
	}
	s := x.s
	if v, ok := s.ext["choice:"+label]; ok && v.P != nil {
		// resumed after a fork at this instruction
		c := v.P.(int)
		s.setExt("choice:"+label, Value{})
		return c
	}
	k := s.nextName("#" + label)
	w := uint8(1)
	for (1 << w) < n {
		w++
	}
	name := fmt.Sprintf("%s#%d", label, k)
	t := NewVar(name, w)
	for i := n - 1; i >= 1; i-- {
		o := s.clone()
		o.addPC(Eq(t, BV(uint64(i), w)))
		o.model = mergeModel(o.model, Model{t.vars[0].id: uint64(i)})
		o.depth++
		o.setExt("choice:"+label, Value{P: i})
		x.push(o)
	}
	s.addPC(Eq(t, BV(0, w)))
	s.model = mergeModel(s.model, Model{t.vars[0].id: 0})
	s.depth++
	return 0
}

// concretize returns a concrete value for a scalar, forking over the feasible ones.
func (x *Exec) concretize(v Value, w uint8) uint64 {
	if v.P == nil {
		return v.N
	}
	t, ok := v.P.(*Term)
	if !ok {
		panic(unsupported("concretize %T", v.P))
	}
	if w == 0 {
		if x.decide(t) {
			return 1
		}
		return 0
	}
	for i := 0; ; i++ {
		c := t.Eval(x.s.model, map[*Term]uint64{})
		if x.decide(Eq(t, BV(c, t.w))) {
			return c
		}
		if i > 4096 {
			panic(unsupported("too many values when concretizing"))
		}
	}
}

func (x *Exec) concInt(v Value) int { return int(int64(x.concretize(v, 64))) }

// ---- memory ----

func (x *Exec) sliceCells(sl *Slice, esz int) []Value {
	if sl == nil || sl.Len == 0 {
		return nil
	}
	o := x.s.obj(sl.Obj)
	if x.s.raceOn {
		for i := 0; i < int(sl.Len)*esz; i++ {
			x.raceRead(sl.Obj, sl.Off+int32(i))
		}
	}
	return o.cells[sl.Off : int(sl.Off)+int(sl.Len)*esz]
}

func (x *Exec) load(p Value, ti *TInfo) Value {
	switch q := p.P.(type) {
	case nil:
		x.throw("runtime error: invalid memory address or nil pointer dereference")
	case Ptr:
		o := x.s.obj(q.Obj)
		if o == nil {
			panic(unsupported("load from unknown object"))
		}
		if x.s.raceOn {
			for i := 0; i < ti.slots; i++ {
				x.raceRead(q.Obj, q.Off+int32(i))
			}
		}
		if ti.isAgg() {
			if int(q.Off)+ti.slots > len(o.cells) {
				panic(unsupported("load shape mismatch (unsafe cast?) of %v", ti.T))
			}
			return Value{P: &Agg{append([]Value(nil), o.cells[q.Off:int(q.Off)+ti.slots]...)}}
		}
		if int(q.Off) >= len(o.cells) {
			panic(unsupported("load shape mismatch of %v", ti.T))
		}
		v := o.cells[q.Off]
		if v.P != nil {
			if u, ok := v.P.(uninit); ok {
				panic(unsupported("read of uninitialised package variable %s", u.name))
			}
		}
		return v
	case SymPtr:
		o := x.s.obj(q.Obj)
		w := ti.w
		if ti.kind != kInt && ti.kind != kBool {
			panic(unsupported("symbolic index into non-scalar array"))
		}
		var r *Term
		for i := q.Len - 1; i >= 0; i-- {
			c := asTerm(o.cells[int(q.Base)+i*q.Esz], w)
			if r == nil {
				r = c
			} else {
				r = Ite(Eq(q.Idx, BV(uint64(i), q.Idx.w)), c, r)
			}
		}
		return termV(r)
	}
	panic(unsupported("load through %T", p.P))
}

type uninit struct{ name string }

func (x *Exec) store(p Value, ti *TInfo, v Value) {
	switch q := p.P.(type) {
	case nil:
		x.throw("runtime error: invalid memory address or nil pointer dereference")
	case Ptr:
		if x.s.raceOn {
			for i := 0; i < ti.slots; i++ {
				x.raceWrite(q.Obj, q.Off+int32(i))
			}
		}
		o := x.s.wobj(q.Obj)
		if ti.isAgg() {
			if int(q.Off)+ti.slots > len(o.cells) {
				panic(unsupported("store shape mismatch"))
			}
			copy(o.cells[q.Off:], v.P.(*Agg).V)
		} else {
			if int(q.Off) >= len(o.cells) {
				panic(unsupported("store shape mismatch"))
			}
			o.cells[q.Off] = v
		}
		return
	}
	panic(unsupported("store through %T", p.P))
}

func (x *Exec) allocT(ti *TInfo) Value {
	id := x.s.alloc(&Obj{cells: make([]Value, ti.slots), el: ti})
	return Value{P: Ptr{Obj: id}}
}

func (x *Exec) newSlice(el *TInfo, cells []Value) Value {
	n := 0
	if el.slots > 0 {
		n = len(cells) / el.slots
	}
	id := x.s.alloc(&Obj{cells: cells, el: el})
	return Value{P: &Slice{Obj: id, Len: int32(n), Cap: int32(n)}}
}

// ---- registers ----

func (f *Frame) val(o *opnd) Value {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	return o.v
}

func (x *Exec) set(dst int32, v Value) {
	f := x.s.top()
	f.regs[dst] = v
	f.pc++
}

func (x *Exec) next() { x.s.top().pc++ }

func (f *Frame) where() string {
	if f.fn == nil || f.fn.fn == nil {
		return "?"
	}
	p := token.NoPos
	if f.block < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.block].code) {
		in := f.fn.blocks[f.block].code[f.pc].in
		if in != nil {
			p = in.Pos()
		}
	}
	if !p.IsValid() {
		p = f.fn.fn.Pos()
	}
	return fmt.Sprintf("%s (%s)", f.fn.name, f.fn.fn.Prog.Fset.Position(p))
}

func (x *Exec) stack() []string {
	var out []string
	if x.s.cur >= len(x.s.gs) {
		return nil
	}
	g := x.s.gs[x.s.cur]
	for i := len(g.frames) - 1; i >= 0; i-- {
		out = append(out, g.frames[i].where())
	}
	return out
}

// runState executes until the state dies, finishes or (in a merged call) returns from the stop frame.
// It reports true when the stop frame returned.
func (x *Exec) runState(s *State) (stopped bool) {
	x.s = s
	if s.pendingUnwind {
		s.pendingUnwind = false
		s.resume = true
	}
	for {
		done, st := x.guarded()
		if done {
			return st
		}
	}
}

// guarded runs the loop, translating signals.
func (x *Exec) guarded() (done, stopped bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		x.inSpec = false
		switch sg := r.(type) {
		case sigKill:
			x.e.pathEnd(x, sg.why)
			done = true
		case sigThrow:
			defer func() {
				if r2 := recover(); r2 != nil {
					switch q := r2.(type) {
					case sigKill:
						x.e.pathEnd(x, q.why)
					case unsupErr:
						x.e.incomplete(x, q.msg)
					case sigStopPanic:
						stopped = true
					default:
						x.e.incomplete(x, fmt.Sprintf("engine: %v\n%s", r2, debug.Stack()))
					}
					done = true
				}
			}()
			x.startPanic(sg.val, sg.goexit)
			if x.s.finished {
				done = true
			}
		case sigSwitch:
		case sigRestart:
		case sigStopPanic:
			done, stopped = true, true
		case unsupErr:
			x.e.incomplete(x, sg.msg)
			done = true
		default:
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n%s\n", r, strings.Join(x.stack(), "\n  "), debug.Stack())
			}
			x.e.incomplete(x, fmt.Sprintf("engine: %v at %v", r, x.stack()))
			done = true
		}
	}()
	if x.s.resume {
		x.s.resume = false
		g := x.s.wg(x.s.cur)
		x.continueDefers(g, x.s.wframe(g, len(g.frames)-1))
	}
	if !x.s.finished && x.s.gs[x.s.cur].status != gRun {
		// forked while choosing who runs next
		x.schedule()
	}
	for {
		if x.s.finished {
			return true, false
		}
		if x.step() {
			return true, true
		}
	}
}

const stepMask = 0xffff

// step executes one instruction; true means the stop frame has returned.
func (x *Exec) step() bool {
	s := x.s
	s.steps++
	x.steps++
	if s.steps&stepMask == 0 {
		if s.steps > x.e.maxSteps {
			panic(unsupported("step bound %d reached", x.e.maxSteps))
		}
		x.e.checkBudget()
	}
	f := s.top()
	in := &f.fn.blocks[f.block].code[f.pc]
	switch in.op {
	case iBin:
		a, b := f.val(&in.a), f.val(&in.b)
		x.set(in.dst, x.binop(in.tok, in.ti, in.ti2, a, b))
	case iLoad:
		x.set(in.dst, x.load(f.val(&in.a), in.ti))
	case iStore:
		x.store(f.val(&in.a), in.ti, f.val(&in.b))
		x.next()
	case iFieldAddr:
		x.set(in.dst, x.fieldAddr(f.val(&in.a), in.k))
	case iIndexAddr:
		x.set(in.dst, x.indexAddr(in, f.val(&in.a), f.val(&in.b)))
	case iJump:
		x.jump(f, f.fn.blocks[f.block].succs[0])
	case iIf:
		c := f.val(&in.a)
		if c.P == nil {
			if c.N != 0 {
				x.jump(f, f.fn.blocks[f.block].succs[0])
			} else {
				x.jump(f, f.fn.blocks[f.block].succs[1])
			}
			return false
		}
		t := c.P.(*Term)
		if v, ok := x.known(t); ok {
			if v {
				x.jump(f, f.fn.blocks[f.block].succs[0])
			} else {
				x.jump(f, f.fn.blocks[f.block].succs[1])
			}
			return false
		}
		if f.fn.blocks[f.block].join >= 0 && x.speculate(f, t) {
			return false
		}
		v := x.decide(t)
		f = x.s.top()
		if v {
			x.jump(f, f.fn.blocks[f.block].succs[0])
		} else {
			x.jump(f, f.fn.blocks[f.block].succs[1])
		}
	case iCall:
		return x.doCall(f, in)
	case iReturn:
		var rv Value
		switch len(in.args) {
		case 0:
		case 1:
			rv = f.val(&in.args[0])
		default:
			a := &Agg{make([]Value, len(in.args))}
			for i := range in.args {
				a.V[i] = f.val(&in.args[i])
			}
			rv = Value{P: a}
		}
		return x.ret(rv)
	case iAlloc:
		id := s.alloc(&Obj{cells: make([]Value, in.ti.slots), el: in.ti})
		x.set(in.dst, Value{P: Ptr{Obj: id}})
	case iUnNot:
		x.set(in.dst, termV(Not(asTerm(f.val(&in.a), 0))))
	case iUnNeg:
		v := f.val(&in.a)
		switch in.ti.kind {
		case kFloat:
			x.set(in.dst, mkFloat(-fl(v), in.ti.w))
		default:
			x.set(in.dst, termV(BVNeg(asTerm(v, in.ti.w))))
		}
	case iUnXor:
		x.set(in.dst, termV(BVNot(asTerm(f.val(&in.a), in.ti.w))))
	case iCopy:
		x.set(in.dst, f.val(&in.a))
	case iConvert:
		x.set(in.dst, x.convert(in.ti, in.ti2, f.val(&in.a)))
	case iMakeIface:
		x.set(in.dst, Value{P: &Iface{T: in.ti, V: f.val(&in.a)}})
	case iMakeClosure:
		b := make([]Value, len(in.args))
		for i := range in.args {
			b[i] = f.val(&in.args[i])
		}
		x.set(in.dst, Value{P: &Closure{Fn: in.fn, Binds: b}})
	case iMakeMap:
		id := s.alloc(&Obj{kind: okMap, m: newMapData(), el: in.ti})
		x.set(in.dst, Value{P: MapRef{id}})
	case iMakeChan:
		n := x.concInt(f.val(&in.a))
		id := x.s.alloc(&Obj{kind: okChan, ch: &ChanData{cap: n}, el: in.ti})
		x.set(in.dst, Value{P: ChanRef{id}})
	case iMakeSlice:
		ln, cp := x.concInt(f.val(&in.a)), x.concInt(f.val(&in.b))
		if ln < 0 || cp < ln {
			x.throw("runtime error: makeslice: len out of range")
		}
		if cp*in.ti.slots > 1<<24 {
			panic(unsupported("huge slice"))
		}
		id := x.s.alloc(&Obj{cells: make([]Value, cp*in.ti.slots), el: in.ti})
		x.set(in.dst, Value{P: &Slice{Obj: id, Len: int32(ln), Cap: int32(cp)}})
	case iSlice:
		x.set(in.dst, x.slice(in, f))
	case iField:
		a := f.val(&in.a).P.(*Agg)
		x.set(in.dst, regOf(in.ti, a.V[in.k:in.k+in.ti.slots]))
	case iIndex:
		x.set(in.dst, x.index(in, f.val(&in.a), f.val(&in.b)))
	case iLookup:
		x.set(in.dst, x.lookup(in, f.val(&in.a), f.val(&in.b)))
	case iExtract:
		a := f.val(&in.a)
		x.set(in.dst, a.P.(*Agg).V[in.k])
	case iTypeAssert:
		x.set(in.dst, x.typeAssert(in, f.val(&in.a)))
	case iMapUpdate:
		m := f.val(&in.a)
		k, v := f.val(&in.b), f.val(&in.c)
		mr, ok := m.P.(MapRef)
		if !ok {
			panic(sigThrow{val: x.errorValue("assignment to entry in nil map")})
		}
		if x.s.raceOn {
			x.raceWrite(mr.Obj, -1)
		}
		x.mapSet(mr.Obj, in.ti, k, v)
		x.next()
	case iRange:
		v := f.val(&in.a)
		lim := 0
		if mr, ok := v.P.(MapRef); ok {
			lim = len(s.obj(mr.Obj).m.keys)
		}
		id := s.alloc(&Obj{cells: []Value{v, {}, intV(lim)}})
		x.set(in.dst, Value{P: Ptr{Obj: id}})
	case iNext:
		x.set(in.dst, x.nextIter(in, f.val(&in.a)))
	case iRunDefers:
		x.runDefers()
	case iPanic:
		v := f.val(&in.a)
		if v.P == nil {
			v = x.errorValue("panic called with nil argument")
		}
		panic(sigThrow{val: v})
	case iDefer:
		d := deferred{args: make([]Value, len(in.args))}
		for i := range in.args {
			d.args[i] = f.val(&in.args[i])
		}
		d.inv = in.call
		d.fn = f.val(&in.a)
		f.defers = append(f.defers, d)
		x.next()
	case iGo:
		x.doGo(f, in)
	case iSend:
		x.chanSend(f.val(&in.a), f.val(&in.b))
	case iRecv:
		x.chanRecv(in, f.val(&in.a))
	case iSelect:
		x.doSelect(in, f)
	case iSliceToArr:
		sl, _ := f.val(&in.a).P.(*Slice)
		n := 0
		if sl != nil {
			n = int(sl.Len)
		}
		if n < in.k {
			x.throw("runtime error: cannot convert slice to array pointer")
		}
		if sl == nil {
			x.set(in.dst, Value{})
		} else {
			x.set(in.dst, Value{P: Ptr{sl.Obj, sl.Off}})
		}
	case iNop:
		x.next()
	case iShim:
		args := append([]Value(nil), f.regs...)
		v, adv := in.shim.fn(&Ctx{x: x, args: args, dst: -1, fi: f.fn})
		if adv {
			return x.ret(v)
		}
	default:
		panic(unsupported("instruction %T", in.in))
	}
	return false
}

func (x *Exec) fieldAddr(p Value, k int) Value {
	switch q := p.P.(type) {
	case Ptr:
		return Value{P: Ptr{q.Obj, q.Off + int32(k)}}
	case nil:
		x.throw("runtime error: invalid memory address or nil pointer dereference")
	case *RType:
		panic(unsupported("field of *reflect.rtype"))
	}
	panic(unsupported("field address of %T", p.P))
}

func (x *Exec) jump(f *Frame, to int) {
	from := f.block
	b := &f.fn.blocks[to]
	if len(b.phis) > 0 {
		x.phis(f, from, to, b)
	}
	f.prev = from
	f.block = to
	f.pc = 0
	if covFile != "" {
		b.seen = true
	}
}

func (x *Exec) phis(f *Frame, from, to int, b *blk) {
	ei := -1
	for i, p := range b.preds {
		if p == from {
			ei = i
			break
		}
	}
	if len(b.phis) == 1 {
		f.regs[b.phis[0].dst] = f.val(&b.phis[0].edges[ei])
		return
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := range b.phis {
		vals = append(vals, f.val(&b.phis[i].edges[ei]))
	}
	for i := range b.phis {
		f.regs[b.phis[i].dst] = vals[i]
	}
}

// iteValue merges two values under a guard; ok=false when not representable.
func iteValue(c *Term, a, b Value) (Value, bool) {
	if a == b {
		return a, true
	}
	switch pa := a.P.(type) {
	case nil:
		switch pb := b.P.(type) {
		case nil:
			return Value{}, false // width unknown: caller supplies it
		case *Term:
			return termV(Ite(c, asTerm(a, pb.w), pb)), true
		}
	case *Term:
		switch pb := b.P.(type) {
		case nil:
			return termV(Ite(c, pa, asTerm(b, pa.w))), true
		case *Term:
			if pa.w == pb.w {
				return termV(Ite(c, pa, pb)), true
			}
		}
	}
	return Value{}, false
}

// iteTyped merges at a known type.
func iteTyped(ti *TInfo, c *Term, a, b Value) (Value, bool) {
	switch ti.kind {
	case kBool:
		return termV(Ite(c, asTerm(a, 0), asTerm(b, 0))), true
	case kInt:
		if _, ok := a.P.(Ptr); ok {
			return a, a == b
		}
		if _, ok := b.P.(Ptr); ok {
			return a, false
		}
		return termV(Ite(c, asTerm(a, ti.w), asTerm(b, ti.w))), true
	case kString:
		if sameValue(a, b) {
			return a, true
		}
		if isOpaque(a) || isOpaque(b) || strLen(a) != strLen(b) {
			return Value{}, false
		}
		x, y := strBytes(a), strBytes(b)
		out := make([]Value, len(x))
		for i := range x {
			out[i] = termV(Ite(c, asTerm(x[i], 8), asTerm(y[i], 8)))
		}
		return mkStr(out), true
	}
	if sameValue(a, b) {
		return a, true
	}
	return Value{}, false
}

// sameValue is structural identity of values (conservative).
func sameValue(a, b Value) bool {
	if a.N != b.N {
		return false
	}
	switch p := a.P.(type) {
	case nil:
		return b.P == nil
	case *Agg:
		q, ok := b.P.(*Agg)
		if !ok || len(p.V) != len(q.V) {
			return false
		}
		for i := range p.V {
			if !sameValue(p.V[i], q.V[i]) {
				return false
			}
		}
		return true
	case *Iface:
		q, ok := b.P.(*Iface)
		return ok && p.T == q.T && sameValue(p.V, q.V)
	case *Slice:
		q, ok := b.P.(*Slice)
		return ok && *p == *q
	case *Closure:
		q, ok := b.P.(*Closure)
		if !ok || p.Fn != q.Fn || len(p.Binds) != len(q.Binds) || p.Nat != q.Nat {
			return false
		}
		for i := range p.Binds {
			if !sameValue(p.Binds[i], q.Binds[i]) {
				return false
			}
		}
		return true
	case *SymStr:
		q, ok := b.P.(*SymStr)
		if !ok || p.Opaque != q.Opaque || len(p.B) != len(q.B) {
			return false
		}
		for i := range p.B {
			if !sameValue(p.B[i], q.B[i]) {
				return false
			}
		}
		return true
	case *RType:
		q, ok := b.P.(*RType)
		return ok && p.T == q.T
	case string:
		q, ok := b.P.(string)
		return ok && p == q
	case *Term, Ptr, MapRef, ChanRef, Opaque:
		return a.P == b.P
	}
	return false
}

// speculate executes the pure region after an If under guards and merges at its join. Reports success.
func (x *Exec) speculate(f *Frame, cond *Term) (ok bool) {
	b := &f.fn.blocks[f.block]
	join := b.join
	start := f.block
	saveBlock, savePC, savePrev := f.block, f.pc, f.prev
	guards := map[[2]int]*Term{} // edge -> guard
	addEdge := func(from, to int, g *Term) {
		if o, ok := guards[[2]int{from, to}]; ok {
			guards[[2]int{from, to}] = Or(o, g)
		} else {
			guards[[2]int{from, to}] = g
		}
	}
	addEdge(start, b.succs[0], cond)
	addEdge(start, b.succs[1], Not(cond))
	x.inSpec = true
	defer func() {
		x.inSpec = false
		if r := recover(); r != nil {
			switch r.(type) {
			case sigSpecFail, sigThrow:
			case unsupErr:
			default:
				panic(r)
			}
			f := x.s.top()
			f.block, f.pc, f.prev = saveBlock, savePC, savePrev
			ok = false
		}
	}()
	mergePhis := func(bi int) bool {
		bk := &f.fn.blocks[bi]
		type ev struct {
			g  *Term
			ei int
		}
		var es []ev
		for ei, p := range bk.preds {
			if g, ok := guards[[2]int{p, bi}]; ok {
				es = append(es, ev{g, ei})
			}
		}
		if len(es) == 0 {
			return false
		}
		vals := make([]Value, len(bk.phis))
		for pi := range bk.phis {
			ph := &bk.phis[pi]
			ti := x.regType(f.fn, ph.dst)
			v := f.val(&ph.edges[es[len(es)-1].ei])
			for k := len(es) - 2; k >= 0; k-- {
				w := f.val(&ph.edges[es[k].ei])
				r, ok := iteTyped(ti, es[k].g, w, v)
				if !ok {
					return false
				}
				v = r
			}
			vals[pi] = v
		}
		for pi := range bk.phis {
			f.regs[bk.phis[pi].dst] = vals[pi]
		}
		return true
	}
	for _, bi := range b.regn {
		bk := &f.fn.blocks[bi]
		var g *Term
		for _, p := range bk.preds {
			if eg, ok := guards[[2]int{p, bi}]; ok {
				if g == nil {
					g = eg
				} else {
					g = Or(g, eg)
				}
			}
		}
		if g == nil || g == TFalse {
			for _, sc := range bk.succs {
				_ = sc
			}
			if g == nil {
				continue
			}
		}
		if len(bk.phis) > 0 && !mergePhis(bi) {
			panic(sigSpecFail{})
		}
		f.block = bi
		if covFile != "" {
			bk.seen = true
		}
		for i := range bk.code {
			in := &bk.code[i]
			f.pc = i
			switch in.op {
			case iJump:
				addEdge(bi, bk.succs[0], g)
			case iIf:
				c := asTerm(f.val(&in.a), 0)
				addEdge(bi, bk.succs[0], And(g, c))
				addEdge(bi, bk.succs[1], And(g, Not(c)))
			case iBin:
				if in.tok == token.QUO || in.tok == token.REM {
					if d := f.val(&in.b); d.P != nil || d.N == 0 {
						panic(sigSpecFail{})
					}
				}
				x.step()
			default:
				x.step()
			}
		}
	}
	if !mergePhis(join) && len(f.fn.blocks[join].phis) > 0 {
		panic(sigSpecFail{})
	}
	f.prev = start
	f.block = join
	f.pc = 0
	atomic.AddInt64(&x.e.specMerges, 1)
	return true
}

func (x *Exec) regType(fi *FnInfo, reg int32) *TInfo {
	fi.once2.Do(func() {
		fi.rtypes = make([]*TInfo, fi.nregs)
		i := 0
		add := func(v ssa.Value) {
			if t := v.Type(); t != nil {
				if _, isT := t.(*types.Tuple); !isT {
					func() {
						defer func() { recover() }()
						fi.rtypes[i] = TI(t)
					}()
				}
			}
			i++
		}
		for _, p := range fi.fn.Params {
			add(p)
		}
		for _, p := range fi.fn.FreeVars {
			add(p)
		}
		for _, b := range fi.fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					add(v)
				}
			}
		}
	})
	return fi.rtypes[reg]
}

func (x *Exec) indexAddr(in *ins, base, idx Value) Value {
	var obj ObjID
	var off int32
	var n int
	switch b := base.P.(type) {
	case *Slice:
		obj, off, n = b.Obj, b.Off, int(b.Len)
	case Ptr:
		obj, off, n = b.Obj, b.Off, in.k
	case nil:
		if in.flag {
			n = 0
		} else {
			x.throw("runtime error: invalid memory address or nil pointer dereference")
		}
	default:
		panic(unsupported("indexAddr of %T", base.P))
	}
	esz := in.ti.slots
	if idx.P == nil {
		i := sx(idx.N, in.ti2.w)
		if !in.ti2.sgn && in.ti2.w < 64 {
			i = int64(idx.N)
		}
		if i < 0 || i >= int64(n) {
			x.throw(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return Value{P: Ptr{obj, off + int32(int(i)*esz)}}
	}
	t := x.idxTerm(idx, in.ti2)
	if x.decide(Not(Ult(t, BV(uint64(n), 64)))) {
		x.throw(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	if in.peep && (in.ti.kind == kInt || in.ti.kind == kBool) && n <= 1024 {
		return Value{P: SymPtr{obj, off, t, n, esz}}
	}
	i := x.concretize(termV(t), 64)
	return Value{P: Ptr{obj, off + int32(int(i)*esz)}}
}

func (x *Exec) idxTerm(idx Value, ti *TInfo) *Term {
	t := asTerm(idx, ti.w)
	if ti.sgn {
		return SExt(t, 64)
	}
	return ZExt(t, 64)
}

func (x *Exec) index(in *ins, base, idx Value) Value {
	if in.ti.kind == kString {
		return x.strIndex(base, idx, in.ti2)
	}
	a := base.P.(*Agg)
	i := x.concretize(idx, in.ti2.w)
	if int(i) >= in.ti.alen {
		x.throw("runtime error: index out of range")
	}
	e := in.ti.elem
	return regOf(e, a.V[int(i)*e.slots:(int(i)+1)*e.slots])
}

func (x *Exec) strIndex(base, idx Value, it *TInfo) Value {
	n := strLen(base)
	if idx.P == nil {
		i := sx(idx.N, it.w)
		if i < 0 || i >= int64(n) {
			x.throw(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return strByte(base, int(i))
	}
	t := x.idxTerm(idx, it)
	if x.decide(Not(Ult(t, BV(uint64(n), 64)))) {
		x.throw("runtime error: index out of range")
	}
	var r *Term
	for i := n - 1; i >= 0; i-- {
		c := asTerm(strByte(base, i), 8)
		if r == nil {
			r = c
		} else {
			r = Ite(Eq(t, BV(uint64(i), 64)), c, r)
		}
	}
	return termV(r)
}

func (x *Exec) lookup(in *ins, base, key Value) Value {
	if in.ti.kind == kString {
		return x.strIndex(base, key, in.ti2)
	}
	mt := in.ti.T.Underlying().(*types.Map)
	vt, kt := TI(mt.Elem()), TI(mt.Key())
	var v Value
	found := false
	if mr, ok := base.P.(MapRef); ok {
		if x.s.raceOn {
			x.raceRead(mr.Obj, -1)
		}
		m := x.s.obj(mr.Obj).m
		if p := x.mapFind(m, kt, key); p >= 0 {
			v = x.s.obj(mr.Obj).m.vals[p]
			found = true
		}
	}
	if !found {
		v = vt.zero()
	}
	if in.flag {
		return Value{P: &Agg{[]Value{v, boolV(found)}}}
	}
	return v
}

func (x *Exec) slice(in *ins, f *Frame) Value {
	base := f.val(&in.a)
	get := func(o *opnd, def int) int {
		if o.reg == -2 {
			return def
		}
		return x.concInt(f.val(o))
	}
	if in.ti.kind == kString {
		if isOpaque(base) && in.b.reg == -2 && in.c.reg == -2 {
			return base
		}
		n := strLen(base)
		lo, hi := get(&in.b, 0), get(&in.c, n)
		if lo < 0 || hi > n || lo > hi {
			x.throw(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return subStr(base, lo, hi)
	}
	var obj ObjID
	var off int32
	var ln, cp int
	var esz int
	switch b := base.P.(type) {
	case *Slice:
		obj, off, ln, cp = b.Obj, b.Off, int(b.Len), int(b.Cap)
		esz = in.ti.elem.slots
	case Ptr:
		obj, off, ln, cp = b.Obj, b.Off, in.k, in.k
		esz = in.ti2.slots
	case nil:
		if in.ti.kind == kPtr {
			x.throw("runtime error: invalid memory address or nil pointer dereference")
		}
		lo, hi := get(&in.b, 0), get(&in.c, 0)
		if lo != 0 || hi != 0 {
			x.throw(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
		}
		return Value{}
	default:
		panic(unsupported("slice of %T", base.P))
	}
	lo, hi := get(&in.b, 0), get(&in.c, ln)
	mx := get(&in.d, cp)
	if lo < 0 || hi < lo || mx < hi || mx > cp {
		x.throw(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, cp))
	}
	return Value{P: &Slice{Obj: obj, Off: off + int32(lo*esz), Len: int32(hi - lo), Cap: int32(mx - lo)}}
}

func (x *Exec) nextIter(in *ins, it Value) Value {
	id := it.P.(Ptr).Obj
	o := x.s.obj(id)
	coll := o.cells[0]
	pos := int(o.cells[1].N)
	if in.flag { // string
		n := strLen(coll)
		if pos >= n {
			return Value{P: &Agg{[]Value{{}, {}, {}}}}
		}
		r, sz := x.decodeRune(coll, pos)
		x.s.wobj(id).cells[1] = Value{N: uint64(pos + sz)}
		return Value{P: &Agg{[]Value{boolV(true), intV(pos), r}}}
	}
	mr, ok := coll.P.(MapRef)
	if !ok {
		return Value{P: &Agg{[]Value{{}, in.ti.zeroSafe(), in.ti2.zeroSafe()}}}
	}
	if x.s.raceOn {
		x.raceRead(mr.Obj, -1)
	}
	m := x.s.obj(mr.Obj).m
	if x.s.mapOrd && m.live > 1 && m.live <= 5 && x.callerIsRepo() {
		var cand []int
		seen := map[uint64]bool{}
		for _, c := range o.cells[3:] {
			seen[c.N] = true
		}
		for i := range m.keys[:o.cells[2].N] {
			if !m.dead[i] && !seen[uint64(i)] {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return Value{P: &Agg{[]Value{{}, in.ti.zeroSafe(), in.ti2.zeroSafe()}}}
		}
		p := cand[x.choose("maporder", len(cand))]
		w := x.s.wobj(id)
		w.cells = append(w.cells, Value{N: uint64(p)})
		m = x.s.obj(mr.Obj).m
		return Value{P: &Agg{[]Value{boolV(true), m.keys[p], m.vals[p]}}}
	}
	// entries added during the iteration are not visited (the language allows either)
	lim := int(o.cells[2].N)
	for pos < lim && m.dead[pos] {
		pos++
	}
	if pos >= lim {
		return Value{P: &Agg{[]Value{{}, in.ti.zeroSafe(), in.ti2.zeroSafe()}}}
	}
	x.s.wobj(id).cells[1] = Value{N: uint64(pos + 1)}
	return Value{P: &Agg{[]Value{boolV(true), m.keys[pos], m.vals[pos]}}}
}

func (ti *TInfo) zeroSafe() Value {
	if ti.kind == kInvalid {
		return Value{}
	}
	return ti.zero()
}

func (x *Exec) callerIsRepo() bool {
	g := x.s.g()
	return g.frames[len(g.frames)-1].fn.repo
}

func (x *Exec) implements(t *TInfo, iface *TInfo) bool {
	type key struct{ a, b int }
	k := key{t.id, iface.id}
	if v, ok := x.e.implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t.T, iface.T.Underlying().(*types.Interface))
	x.e.implCache.Store(k, r)
	return r
}

func (x *Exec) typeAssert(in *ins, v Value) Value {
	i, ok := v.P.(*Iface)
	var res Value
	good := false
	if ok {
		if in.ti.kind == kIface {
			if x.implements(i.T, in.ti) {
				good = true
				res = v
			}
		} else if i.T == in.ti {
			good = true
			res = i.V
		}
	}
	if in.flag {
		if !good {
			res = in.ti.zero()
		}
		return Value{P: &Agg{[]Value{res, boolV(good)}}}
	}
	if !good {
		d := "nil"
		if ok {
			d = i.T.T.String()
		}
		x.throw(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.ti.T))
	}
	return res
}

// ---- calls ----

func (x *Exec) method(t *TInfo, m *types.Func) *ssa.Function {
	type mk struct {
		pkg  *types.Package
		name string
	}
	k := mk{nil, m.Name()}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if v, ok := t.msets.Load(k); ok {
		return v.(*ssa.Function)
	}
	x.e.ssaMu.Lock()
	sel := x.e.prog.MethodSets.MethodSet(t.T).Lookup(k.pkg, m.Name())
	if sel == nil {
		sel = x.e.prog.MethodSets.MethodSet(t.T).Lookup(m.Pkg(), m.Name())
	}
	var fn *ssa.Function
	if sel != nil {
		fn = x.e.prog.MethodValue(sel)
	}
	x.e.ssaMu.Unlock()
	if fn == nil {
		panic(unsupported("no method %s on %v", m.Name(), t.T))
	}
	t.msets.Store(k, fn)
	return fn
}

func (x *Exec) doCall(f *Frame, in *ins) bool {
	if in.bi != nil {
		v, adv := x.builtin(in, f)
		if adv {
			if in.dst >= 0 {
				x.set(in.dst, v)
			} else {
				x.next()
			}
		}
		return false
	}
	args := make([]Value, len(in.args), len(in.args)+1)
	for i := range in.args {
		args[i] = f.val(&in.args[i])
	}
	var fn *ssa.Function
	var binds []Value
	if in.call.IsInvoke() {
		fn, args = x.resolveInvoke(f.val(&in.a), in.call.Method, args)
	} else if in.fn != nil {
		fn = in.fn
	} else {
		c, ok := f.val(&in.a).P.(*Closure)
		if !ok {
			x.throw("runtime error: invalid memory address or nil pointer dereference")
		}
		if c.Nat != nil {
			x.callIntr(c.Nat, append(append([]Value(nil), c.Binds...), args...), int(in.dst), nil)
			return false
		}
		fn, binds = c.Fn, c.Binds
	}
	return x.enter(fn, binds, args, int(in.dst), false)
}

func (x *Exec) resolveInvoke(recv Value, m *types.Func, args []Value) (*ssa.Function, []Value) {
	i, ok := recv.P.(*Iface)
	if !ok {
		x.throw("runtime error: invalid memory address or nil pointer dereference")
	}
	fn := x.method(i.T, m)
	return fn, append([]Value{i.V}, args...)
}

// enter starts a call of fn; the result will land in register dst of the current frame and its pc advances on return.
func (x *Exec) enter(fn *ssa.Function, binds, args []Value, dst int, isDefer bool) bool {
	fi := x.e.fnInfo(fn)
	if fi.intr != nil {
		if fi.intr.model != nil {
			fi = x.e.fnInfo(fi.intr.model)
		} else {
			x.callIntr(fi.intr, args, dst, fi)
			return false
		}
	}
	if fi.blocks == nil {
		if fi.repo || true {
			panic(unsupported("call of function without a body: %s", fi.name))
		}
	}
	if fi.repo && !x.cov[fi] {
		x.cov[fi] = true
		x.e.cover(fi)
	}
	g := x.s.wg(x.s.cur)
	if len(g.frames) > 2000 {
		panic(unsupported("call depth bound reached"))
	}
	if fi.merge && !isDefer && x.nest < 3 {
		return x.mergedCall(fi, binds, args, dst)
	}
	x.pushFrame(g, fi, binds, args, dst, isDefer)
	return false
}

func (x *Exec) pushFrame(g *G, fi *FnInfo, binds, args []Value, dst int, isDefer bool) *Frame {
	nf := &Frame{own: x.s.own, fn: fi, regs: make([]Value, fi.nregs), dst: dst, isDefer: isDefer}
	copy(nf.regs, args)
	copy(nf.regs[fi.nparam:], binds)
	g.frames = append(g.frames, nf)
	return nf
}

// ret returns rv from the top frame.
func (x *Exec) ret(rv Value) bool {
	g := x.s.wg(x.s.cur)
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	return x.afterPop(g, f, rv)
}

func (x *Exec) afterPop(g *G, f *Frame, rv Value) bool {
	if len(g.frames) == 0 {
		x.goroutineDone(g)
		return false
	}
	p := x.s.wframe(g, len(g.frames)-1)
	if f.isDefer {
		// a deferred call of p finished
		x.continueDefers(g, p)
		return f.stop
	}
	if f.native != nil {
		f.native(x, rv)
		return f.stop
	}
	if f.dst >= 0 {
		p.regs[f.dst] = rv
	}
	p.pc++
	return f.stop
}

// runDefers implements the RunDefers instruction.
func (x *Exec) runDefers() {
	g := x.s.wg(x.s.cur)
	f := x.s.wframe(g, len(g.frames)-1)
	f.running = true
	x.continueDefers(g, f)
}

// continueDefers runs the next deferred call of f or completes.
func (x *Exec) continueDefers(g *G, f *Frame) {
	if f.panic != nil && f.panic.recovered {
		f.panic = nil
		f.recRet = true
		f.running = true
	}
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		x.callDeferred(d)
		return
	}
	if f.panic != nil {
		x.unwind()
		return
	}
	if f.recRet {
		// recovered: return the named results
		f.recRet = false
		f.running = false
		if f.fn.recov >= 0 {
			f.block = f.fn.recov
			f.pc = 0
			return
		}
		var rv Value
		switch len(f.fn.res) {
		case 0:
		case 1:
			rv = f.fn.res[0].zero()
		default:
			a := &Agg{}
			for _, r := range f.fn.res {
				a.V = append(a.V, r.zero())
			}
			rv = Value{P: a}
		}
		if x.ret(rv) {
			panic(unsupported("recovered return through a merge boundary"))
		}
		return
	}
	f.running = false
	f.pc++
}

func (x *Exec) callDeferred(d deferred) {
	if b, ok := d.inv.Value.(*ssa.Builtin); ok && !d.inv.IsInvoke() {
		x.deferredBuiltin(b, d)
		g := x.s.wg(x.s.cur)
		x.continueDefers(g, x.s.wframe(g, len(g.frames)-1))
		return
	}
	var fn *ssa.Function
	var binds []Value
	args := d.args
	if d.inv.IsInvoke() {
		fn, args = x.resolveInvoke(d.fn, d.inv.Method, args)
	} else {
		c, ok := d.fn.P.(*Closure)
		if !ok {
			x.throw("runtime error: invalid memory address or nil pointer dereference")
		}
		if c.Nat != nil {
			x.callIntrDeferred(c.Nat, append(append([]Value(nil), c.Binds...), args...))
			return
		}
		fn, binds = c.Fn, c.Binds
	}
	fi := x.e.fnInfo(fn)
	if fi.intr != nil && fi.intr.model == nil {
		x.callIntrDeferred(fi.intr, args)
		return
	}
	x.enter(fn, binds, args, -1, true)
}

func (x *Exec) callIntrDeferred(in *Intrinsic, args []Value) {
	// run the intrinsic as if called by a tiny frame so that blocking/forking restarts work
	fi := x.e.shim(in)
	g := x.s.wg(x.s.cur)
	nf := x.pushFrame(g, fi, nil, nil, -1, true)
	nf.regs = append([]Value(nil), args...)
}

func (x *Exec) deferredBuiltin(b *ssa.Builtin, d deferred) {
	switch b.Name() {
	case "close":
		x.chanClose(d.args[0])
	case "delete":
		if mr, ok := d.args[0].P.(MapRef); ok {
			x.mapDelete(mr.Obj, TI(d.inv.Args[0].Type().Underlying().(*types.Map).Key()), d.args[1])
		}
	case "recover":
	case "print", "println":
	default:
		panic(unsupported("deferred builtin %s", b.Name()))
	}
}

// startPanic begins unwinding the current goroutine with val.
func (x *Exec) startPanic(val Value, goexit bool) {
	g := x.s.wg(x.s.cur)
	site := ""
	if len(g.frames) > 0 {
		site = g.frames[len(g.frames)-1].where()
	}
	var calls []callAt
	if x.s.framesOn {
		calls = x.calls(g)
	}
	f := x.s.wframe(g, len(g.frames)-1)
	f.panic = &panicRec{val: val, goexit: goexit, site: site}
	if x.s.framesOn {
		f.panic.calls = calls
	}
	f.running = false
	f.recRet = false
	x.continueDefers(g, f)
}

// unwind pops the top frame, which has no more defers, passing its panic on to the caller.
func (x *Exec) unwind() {
	g := x.s.wg(x.s.cur)
	f := g.frames[len(g.frames)-1]
	pr := f.panic
	if f.stop {
		// leaving a merged call by panic: the state continues on its own, unmerged
		g.frames = g.frames[:len(g.frames)-1]
		p := x.s.wframe(g, len(g.frames)-1)
		p.panic = &panicRec{val: pr.val, goexit: pr.goexit, site: pr.site, calls: pr.calls}
		p.running = false
		p.recRet = false
		x.s.pendingUnwind = true
		panic(sigStopPanic{})
	}
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		if pr.goexit {
			x.goroutineDone(g)
			return
		}
		x.e.uncaughtPanic(x, pr)
		x.s.finished = true
		return
	}
	p := x.s.wframe(g, len(g.frames)-1)
	p.panic = &panicRec{val: pr.val, goexit: pr.goexit, site: pr.site, calls: pr.calls}
	p.running = false
	p.recRet = false
	x.continueDefers(g, p)
}

func (x *Exec) panicText(v Value) string {
	i, ok := v.P.(*Iface)
	if !ok {
		return "nil"
	}
	if s, ok := concStr(i.V); ok && i.T.kind == kString {
		return s
	}
	return i.T.T.String() + " " + fmtValue(i.V)
}

func (x *Exec) recoverVal() Value {
	g := x.s.wg(x.s.cur)
	n := len(g.frames)
	// the caller of recover must be a deferred call
	f := g.frames[n-1]
	if !f.isDefer || n < 2 {
		return Value{}
	}
	p := x.s.wframe(g, n-2)
	if p.panic == nil || p.panic.recovered || p.panic.goexit {
		return Value{}
	}
	v := p.panic.val
	p.panic = &panicRec{val: v, recovered: true, site: p.panic.site, calls: p.panic.calls}
	return v
}

// mergedCall explores the callee completely and merges the resulting states.
func (x *Exec) mergedCall(fi *FnInfo, binds, args []Value, dst int) bool {
	base := x.s
	baseObjs := base.nobj
	basePC := base.pc
	baseOwnG := base.cur
	base.clone() // freeze sharing so that pages can be compared by pointer
	baseHeap := append([]*page(nil), base.heap...)
	g := base.wg(base.cur)
	depth := len(g.frames)
	nf := x.pushFrame(g, fi, binds, args, -1, false)
	nf.stop = true
	nf.native = func(x *Exec, rv Value) { x.s.setExt("merge-ret", Value{P: &Agg{[]Value{rv}}}) }
	saved := x.local
	var list []*State
	x.local = &list
	x.nest++
	list = append(list, base)
	var results []*State
	var rvals []Value
	killed := 0
	for len(list) > 0 {
		st := list[len(list)-1]
		list = list[:len(list)-1]
		if len(results) > 20000 {
			x.local = saved
			x.nest--
			panic(unsupported("merged call explodes: %s", fi.name))
		}
		if x.runState(st) {
			if x.s.pendingUnwind {
				saved2 := x.local
				x.local = saved
				x.push(x.s)
				x.local = saved2
				killed++
				continue
			}
			rv := x.s.ext["merge-ret"].P.(*Agg).V[0]
			x.s.setExt("merge-ret", Value{})
			if x.s.cur != baseOwnG || len(x.s.gs[x.s.cur].frames) != depth {
				panic("merged call: bad frame depth")
			}
			results = append(results, x.s)
			rvals = append(rvals, rv)
		} else {
			killed++
		}
	}
	x.nest--
	x.local = saved
	if len(results) == 0 {
		x.s = base
		x.s.finished = true
		panic(sigKill{"merged-empty"})
	}
	// merge greedily
	type grp struct {
		s    *State
		rv   Value
		cond *Term
	}
	var groups []*grp
	for i, st := range results {
		c := TTrue
		for p := st.pc; p != basePC; p = p.up {
			c = And(c, p.t)
		}
		merged := false
		for _, gr := range groups {
			if x.tryMerge(fi, gr.s, st, &gr.rv, rvals[i], gr.cond, c, baseHeap, baseObjs) {
				gr.cond = Or(gr.cond, c)
				merged = true
				x.merges++
				break
			}
		}
		if !merged {
			groups = append(groups, &grp{st, rvals[i], c})
		}
	}
	for _, gr := range groups {
		gr.s.pc = basePC
		// fixed facts learnt inside are only valid for unmerged groups: rebuild
		gr.s.fixed = nil
		gr.s.fixOwn = nil
		for p := basePC; p != nil; p = p.up {
			if p.t.op == OEq && p.t.a.op == OVar && p.t.b.op == OConst {
				gr.s.fix(p.t.a.vars[0].id, p.t.b.k)
			} else if p.t.op == OVar {
				gr.s.fix(p.t.vars[0].id, 1)
			} else if p.t.op == ONot && p.t.a.op == OVar {
				gr.s.fix(p.t.a.vars[0].id, 0)
			}
		}
		if len(groups) > 1 || killed > 0 {
			gr.s.addPC(gr.cond)
		}
		gg := gr.s.wg(gr.s.cur)
		pf := gr.s.wframe(gg, len(gg.frames)-1)
		if dst >= 0 {
			pf.regs[dst] = gr.rv
		}
		pf.pc++
	}
	for _, gr := range groups[1:] {
		x.push(gr.s)
	}
	x.s = groups[0].s
	return false
}

// tryMerge folds b into a. Their conditions are disjoint.
func (x *Exec) tryMerge(fi *FnInfo, a, b *State, ra *Value, rb Value, ca, cb *Term, baseHeap []*page, baseObjs int) bool {
	if len(a.gs) != len(b.gs) || len(a.timers) != len(b.timers) || len(a.obs) != len(b.obs) || a.now != b.now || len(a.races) != len(b.races) {
		return false
	}
	// result
	var rv Value
	ptrIntoNew := false
	note := func(v Value) {
		if refsNew(v, baseObjs) {
			ptrIntoNew = true
		}
	}
	switch len(fi.res) {
	case 0:
	case 1:
		v, ok := mergeReg(fi.res[0], ca, *ra, rb)
		if !ok {
			return false
		}
		rv = v
		note(v)
	default:
		pa, pb := ra.P.(*Agg), rb.P.(*Agg)
		out := &Agg{make([]Value, len(fi.res))}
		for i := range fi.res {
			v, ok := mergeReg(fi.res[i], ca, pa.V[i], pb.V[i])
			if !ok {
				return false
			}
			out.V[i] = v
			note(v)
		}
		rv = Value{P: out}
	}
	type ch struct {
		id  ObjID
		off int
		v   Value
	}
	var changes []ch
	for pi := range baseHeap {
		pa, pb := a.heap[pi], b.heap[pi]
		if pa == pb {
			continue
		}
		for k := 0; k < pageSize; k++ {
			id := pi*pageSize + k
			if id >= baseObjs {
				break
			}
			oa, ob := pa.objs[k], pb.objs[k]
			if oa == ob {
				continue
			}
			if oa.kind != okPlain || ob.kind != okPlain || len(oa.cells) != len(ob.cells) {
				if oa.kind == okMap && ob.kind == okMap && sameMap(oa.m, ob.m) {
					for i := range oa.m.vals {
						note(oa.m.vals[i])
						note(oa.m.keys[i])
					}
					continue
				}
				return false
			}
			for i := range oa.cells {
				va, vb := oa.cells[i], ob.cells[i]
				if sameValue(va, vb) {
					note(va)
					continue
				}
				v, ok := iteCell(oa, i, ca, va, vb)
				if !ok {
					return false
				}
				changes = append(changes, ch{ObjID(id), i, v})
			}
		}
	}
	if ptrIntoNew {
		// new objects must agree
		if a.nobj != b.nobj {
			return false
		}
		for id := baseObjs; id < a.nobj; id++ {
			oa, ob := a.obj(ObjID(id)), b.obj(ObjID(id))
			if oa == ob {
				continue
			}
			if oa.kind != ob.kind || len(oa.cells) != len(ob.cells) || oa.kind != okPlain {
				if oa.kind == okMap && ob.kind == okMap && sameMap(oa.m, ob.m) {
					continue
				}
				return false
			}
			for i := range oa.cells {
				va, vb := oa.cells[i], ob.cells[i]
				if sameValue(va, vb) {
					continue
				}
				v, ok := iteCell(oa, i, ca, va, vb)
				if !ok {
					return false
				}
				changes = append(changes, ch{ObjID(id), i, v})
			}
		}
	}
	for _, c := range changes {
		a.wobj(c.id).cells[c.off] = c.v
	}
	*ra = rv
	// keep a's model: it satisfies ca
	if b.nobj > a.nobj {
		// ids beyond a's count are garbage of b; nothing refers to them
	}
	for k := range b.reached {
		a.reach(k)
	}
	if b.steps > a.steps {
		a.steps = b.steps
	}
	return true
}

func iteCell(o *Obj, i int, c *Term, a, b Value) (Value, bool) {
	if o.el == nil || o.el.slots == 0 {
		return iteValue(c, a, b)
	}
	ls := leafTypes(o.el)
	return iteTyped(ls[i%len(ls)], c, a, b)
}

func sameMap(a, b *MapData) bool {
	if a == b {
		return true
	}
	if len(a.keys) != len(b.keys) || a.live != b.live {
		return false
	}
	for i := range a.keys {
		if a.dead[i] != b.dead[i] || !sameValue(a.keys[i], b.keys[i]) || !sameValue(a.vals[i], b.vals[i]) {
			return false
		}
	}
	return true
}

func refsNew(v Value, base int) bool {
	switch p := v.P.(type) {
	case Ptr:
		return int(p.Obj) >= base
	case *Slice:
		return int(p.Obj) >= base
	case MapRef:
		return int(p.Obj) >= base
	case ChanRef:
		return int(p.Obj) >= base
	case *Iface:
		return refsNew(p.V, base)
	case *Agg:
		for _, e := range p.V {
			if refsNew(e, base) {
				return true
			}
		}
	case *Closure:
		for _, e := range p.Binds {
			if refsNew(e, base) {
				return true
			}
		}
	}
	return false
}

func mergeReg(ti *TInfo, c *Term, a, b Value) (Value, bool) {
	if ti.isAgg() {
		pa, pb := a.P.(*Agg), b.P.(*Agg)
		out := &Agg{make([]Value, len(pa.V))}
		ls := leafTypes(ti)
		for i := range pa.V {
			v, ok := iteTyped(ls[i], c, pa.V[i], pb.V[i])
			if !ok {
				return Value{}, false
			}
			out.V[i] = v
		}
		return Value{P: out}, true
	}
	return iteTyped(ti, c, a, b)
}

func leafTypes(ti *TInfo) []*TInfo {
	switch ti.kind {
	case kStruct:
		var out []*TInfo
		st := ti.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, leafTypes(TI(st.Field(i).Type()))...)
		}
		return out
	case kArray:
		var out []*TInfo
		l := leafTypes(ti.elem)
		for i := 0; i < ti.alen; i++ {
			out = append(out, l...)
		}
		return out
	}
	return []*TInfo{ti}
}
