package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Scheduling modes.
const (
	schedBlock = 0 // switch only when the running goroutine blocks; fixed order
	schedCoop  = 1 // switch only when blocking; every choice of successor explored
	schedFull  = 2 // a switch may happen at every synchronisation operation (bounded number of preemptions)
)

func (x *Exec) doGo(f *Frame, in *ins) {
	x.visible()
	f = x.s.top()
	args := make([]Value, len(in.args))
	for i := range in.args {
		args[i] = f.val(&in.args[i])
	}
	var fn *ssa.Function
	var binds []Value
	if in.bi != nil {
		panic(unsupported("go builtin"))
	}
	if in.call.IsInvoke() {
		fn, args = x.resolveInvoke(f.val(&in.a), in.call.Method, args)
	} else {
		c, ok := f.val(&in.a).P.(*Closure)
		if !ok {
			x.throw("go of nil func value")
		}
		fn, binds = c.Fn, c.Binds
		if c.Nat != nil {
			x.spawnIntr(c.Nat, append(append([]Value(nil), c.Binds...), args...))
			x.next()
			return
		}
	}
	by := callAt{f.fn.fn, in.in.Pos()}
	x.next()
	g := x.spawn(fn, binds, args)
	g.by, g.byID = by, x.s.cur
}

func (x *Exec) spawn(fn *ssa.Function, binds, args []Value) *G {
	fi := x.e.fnInfo(fn)
	if fi.intr != nil {
		if fi.intr.model != nil {
			fi = x.e.fnInfo(fi.intr.model)
		} else {
			return x.spawnIntr(fi.intr, args)
		}
	}
	if fi.blocks == nil {
		panic(unsupported("go of function without a body: %s", fi.name))
	}
	if fi.repo && !x.cov[fi] {
		x.cov[fi] = true
		x.e.cover(fi)
	}
	s := x.s
	if len(s.gs) > 200 {
		panic(unsupported("goroutine bound reached"))
	}
	g := &G{own: s.own, id: len(s.gs), name: fi.name}
	s.gs = append(s.gs, g)
	if s.raceOn {
		me := s.wg(s.cur)
		g.vc = me.vc.clone()
		g.vc.set(g.id, 1)
		me.vc.set(me.id, me.vc.get(me.id)+1)
	}
	x.pushFrame(g, fi, binds, args, -1, false)
	return g
}

func (x *Exec) spawnIntr(in *Intrinsic, args []Value) *G {
	s := x.s
	fi := x.e.shim(in)
	g := &G{own: s.own, id: len(s.gs), name: in.name}
	s.gs = append(s.gs, g)
	if s.raceOn {
		me := s.wg(s.cur)
		g.vc = me.vc.clone()
		g.vc.set(g.id, 1)
		me.vc.set(me.id, me.vc.get(me.id)+1)
	}
	nf := x.pushFrame(g, fi, nil, nil, -1, false)
	nf.regs = append([]Value(nil), args...)
	return g
}

func (x *Exec) goroutineDone(g *G) {
	g = x.s.wg(g.id)
	g.status = gDone
	if g.id == 0 {
		// the harness returned
		x.e.pathComplete(x)
		x.s.finished = true
		return
	}
	if g.id == x.s.stopG && false {
		return
	}
	x.schedule()
}

// visible marks a synchronisation operation: a scheduling point in full mode.
func (x *Exec) visible() {
	s := x.s
	if s.sched != schedFull {
		return
	}
	if x.nest > 0 {
		panic(unsupported("synchronisation inside a merged call"))
	}
	g := s.wg(s.cur)
	if g.passed {
		g.passed = false
		return
	}
	run := x.runnable()
	if len(run) <= 1 {
		return
	}
	if s.preempts <= 0 {
		return
	}
	// candidate 0 is to continue with the current goroutine
	cand := []int{s.cur}
	for _, r := range run {
		if r != s.cur {
			cand = append(cand, r)
		}
	}
	c := cand[x.choose("sched", len(cand))]
	s = x.s
	if c != s.cur {
		s.preempts--
		s.wg(s.cur).passed = false
		s.cur = c
		cg := s.wg(c)
		cg.passed = true
		cg.status = gRun
		cg.why = blockReason{}
		s.schedLog = append(s.schedLog, c)
		panic(sigSwitch{})
	}
}

func (x *Exec) runnable() []int {
	var out []int
	for i, g := range x.s.gs {
		if g.status == gRun {
			out = append(out, i)
		} else if g.status == gBlocked && x.canResume(g) {
			out = append(out, i)
		}
	}
	return out
}

// canResume: blocked on a lock-like object that is available now.
func (x *Exec) canResume(g *G) bool {
	k := syncKey{g.why.obj, g.why.off}
	o := x.s.syncs[k]
	switch g.why.kind {
	case bMutex:
		return o == nil || (!o.locked && o.readers == 0)
	case bRMutex:
		return o == nil || !o.locked
	case bWait:
		return o == nil || o.count == 0
	}
	return false
}

// block parks the current goroutine (its instruction will be re-executed) and schedules another.
func (x *Exec) block(why blockReason) {
	if x.nest > 0 {
		panic(unsupported("blocking inside a merged call"))
	}
	g := x.s.wg(x.s.cur)
	g.status = gBlocked
	g.why = why
	x.s.blockSeq++
	g.seq = x.s.blockSeq
	x.schedule()
	panic(sigSwitch{})
}

// schedule picks the next goroutine to run.
func (x *Exec) schedule() {
	for {
		run := x.runnable()
		if len(run) > 0 {
			var c int
			if x.s.sched == schedBlock {
				// round robin after the current one
				c = run[0]
				for _, r := range run {
					if r > x.s.cur {
						c = r
						break
					}
				}
			} else {
				c = run[x.choose("next", len(run))]
			}
			s := x.s
			g := s.wg(c)
			g.status = gRun
			g.why = blockReason{}
			g.passed = true
			if s.cur != c {
				s.schedLog = append(s.schedLog, c)
			}
			s.cur = c
			return
		}
		if !x.fireTimer() {
			x.e.deadlock(x)
			x.s.finished = true
			return
		}
	}
}

// fireTimer advances the virtual clock to the earliest pending timer and fires it.
func (x *Exec) fireTimer() bool {
	s := x.s
	best := -1
	for i, t := range s.timers {
		if t.dead {
			continue
		}
		if best < 0 {
			best = i
			continue
		}
		b := s.timers[best]
		if t.when == b.when {
			continue
		}
		if x.decide(Slt(t.when, b.when)) {
			best = i
		}
		s = x.s
	}
	if best < 0 {
		return false
	}
	s = x.s
	t := *s.timers[best]
	if t.when != s.now {
		if x.decide(Slt(s.now, t.when)) {
			s = x.s
			s.now = t.when
		}
	}
	s = x.s
	if t.period != nil {
		nt := t
		nt.when = Bin(OAdd, t.when, t.period)
		s.timers[best] = &nt
	} else {
		s.timers = append(append([]*timer(nil), s.timers[:best]...), s.timers[best+1:]...)
	}
	s.trace = append(s.trace, fmt.Sprintf("timer %d fires", t.id))
	switch t.kind {
	case 0:
		ch := s.obj(t.ch).ch
		if w := x.findRecv(t.ch, -1); w >= 0 {
			x.handToReceiver(w, t.ch, x.timeValue(), s.now)
		} else if len(ch.buf) < ch.cap {
			c := s.wobj(t.ch).ch
			c.buf = append(c.buf, x.timeValue())
			c.vc = append(c.vc, nil)
		}
	case 1:
		c := t.fn.P.(*Closure)
		save := s.cur
		if c.Nat != nil {
			x.spawnIntr(c.Nat, c.Binds)
		} else {
			x.spawn(c.Fn, c.Binds, nil)
		}
		s.cur = save
	case 2:
		g := s.wg(t.g)
		g.status = gRun
		g.ready = true
	}
	return true
}

func (x *Exec) addTimer(t *timer) {
	x.s.timSeq++
	t.id = x.s.timSeq
	x.s.timers = append(x.s.timers[:len(x.s.timers):len(x.s.timers)], t)
}

// ---- channels ----

// findRecv finds the goroutine blocked longest on a receive from ch (excluding ex); returns -1 when none.
func (x *Exec) findRecv(ch ObjID, ex int) int { return x.findWaiter(ch, ex, false) }
func (x *Exec) findSend(ch ObjID, ex int) int { return x.findWaiter(ch, ex, true) }

func (x *Exec) findWaiter(ch ObjID, ex int, send bool) int {
	best := -1
	for i, g := range x.s.gs {
		if i == ex || g.status != gBlocked || g.why.kind != bChan {
			continue
		}
		for _, c := range g.why.cases {
			if c.ch == ch && c.send == send {
				if best < 0 || g.seq < x.s.gs[best].seq {
					best = i
				}
			}
		}
	}
	return best
}

func (x *Exec) caseFor(g *G, ch ObjID, send bool) selCase {
	for _, c := range g.why.cases {
		if c.ch == ch && c.send == send {
			return c
		}
	}
	panic("caseFor")
}

func (x *Exec) handToReceiver(w int, ch ObjID, v Value, _ *Term) {
	g := x.s.wg(w)
	c := x.caseFor(g, ch, false)
	g.ready, g.readyV, g.readyOK, g.readyIx = true, v, true, c.idx
	g.status = gRun
	g.why = blockReason{}
}

func (x *Exec) syncEdge(from, to int) {
	if !x.s.raceOn {
		return
	}
	a, b := x.s.wg(from), x.s.wg(to)
	b.vc.join(a.vc)
	a.vc.set(a.id, a.vc.get(a.id)+1)
}

func (x *Exec) tick() vclock {
	if !x.s.raceOn {
		return nil
	}
	g := x.s.wg(x.s.cur)
	v := g.vc.clone()
	g.vc.set(g.id, g.vc.get(g.id)+1)
	return v
}

func (x *Exec) acquire(v vclock) {
	if x.s.raceOn && v != nil {
		x.s.wg(x.s.cur).vc.join(v)
	}
}

// trySend attempts a send without blocking.
func (x *Exec) trySend(id ObjID, v Value) bool {
	s := x.s
	ch := s.obj(id).ch
	if ch.closed {
		panic(sigThrow{val: x.errorValue("send on closed channel")})
	}
	if w := x.findRecv(id, s.cur); w >= 0 {
		x.handToReceiver(w, id, v, nil)
		x.syncEdge(s.cur, w)
		x.syncEdge(w, s.cur)
		return true
	}
	if len(ch.buf) < ch.cap {
		c := s.wobj(id).ch
		c.buf = append(c.buf, v)
		x.acquire(c.rvc)
		c.vc = append(c.vc, x.tick())
		return true
	}
	return false
}

func (x *Exec) tryRecv(id ObjID) (v Value, ok, done bool) {
	s := x.s
	o := s.obj(id)
	ch := o.ch
	if len(ch.buf) > 0 {
		c := s.wobj(id).ch
		v = c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if len(c.vc) > 0 {
			x.acquire(c.vc[0])
			c.vc = append([]vclock(nil), c.vc[1:]...)
		}
		if s.raceOn {
			c.rvc.join(x.tick())
		}
		// a blocked sender can now proceed
		if w := x.findSend(id, s.cur); w >= 0 {
			g := s.wg(w)
			cs := x.caseFor(g, id, true)
			c = s.wobj(id).ch
			c.buf = append(c.buf, cs.val)
			c.vc = append(c.vc, g.vc.clone())
			g.ready, g.readyIx = true, cs.idx
			g.status = gRun
			g.why = blockReason{}
		}
		return v, true, true
	}
	if w := x.findSend(id, s.cur); w >= 0 {
		g := s.wg(w)
		cs := x.caseFor(g, id, true)
		v = cs.val
		g.ready, g.readyIx = true, cs.idx
		g.status = gRun
		g.why = blockReason{}
		x.syncEdge(w, s.cur)
		x.syncEdge(s.cur, w)
		return v, true, true
	}
	if ch.closed {
		x.acquire(ch.close)
		return o.el.zero(), false, true
	}
	return Value{}, false, false
}

func (x *Exec) chanSend(c, v Value) {
	x.visible()
	g := x.s.wg(x.s.cur)
	if g.ready {
		g.ready = false
		x.next()
		return
	}
	if g.sendPanic {
		g.sendPanic = false
		panic(sigThrow{val: x.errorValue("send on closed channel")})
	}
	cr, ok := c.P.(ChanRef)
	if !ok {
		x.block(blockReason{kind: bForever})
	}
	if x.trySend(cr.Obj, v) {
		x.next()
		return
	}
	x.block(blockReason{kind: bChan, cases: []selCase{{ch: cr.Obj, send: true, val: v}}})
}

func (x *Exec) chanRecv(in *ins, c Value) {
	x.visible()
	g := x.s.wg(x.s.cur)
	fin := func(v Value, ok bool) {
		if in.flag {
			x.set(in.dst, Value{P: &Agg{[]Value{v, boolV(ok)}}})
		} else {
			x.set(in.dst, v)
		}
	}
	if g.ready {
		g.ready = false
		v, ok := g.readyV, g.readyOK
		g.readyV = Value{}
		fin(v, ok)
		return
	}
	cr, ok := c.P.(ChanRef)
	if !ok {
		x.block(blockReason{kind: bForever})
	}
	if v, ok, done := x.tryRecv(cr.Obj); done {
		fin(v, ok)
		return
	}
	x.block(blockReason{kind: bChan, cases: []selCase{{ch: cr.Obj}}})
}

func (x *Exec) chanReady(id ObjID, send bool) bool {
	ch := x.s.obj(id).ch
	if send {
		return ch.closed || len(ch.buf) < ch.cap || x.findRecv(id, x.s.cur) >= 0
	}
	return ch.closed || len(ch.buf) > 0 || x.findSend(id, x.s.cur) >= 0
}

func (x *Exec) doSelect(in *ins, f *Frame) {
	x.visible()
	f = x.s.top()
	g := x.s.wg(x.s.cur)
	nrecv := 0
	for _, c := range in.sel {
		if !c.send {
			nrecv++
		}
	}
	finish := func(idx int, v Value, ok bool) {
		a := &Agg{make([]Value, 2+nrecv)}
		a.V[0] = intV(idx)
		a.V[1] = boolV(ok)
		k := 2
		for i, c := range in.sel {
			if c.send {
				continue
			}
			if i == idx {
				a.V[k] = v
			} else {
				a.V[k] = c.el.zero()
			}
			k++
		}
		x.set(in.dst, Value{P: a})
	}
	if g.ready {
		g.ready = false
		v, ok := g.readyV, g.readyOK
		g.readyV = Value{}
		finish(g.readyIx, v, ok)
		return
	}
	if g.sendPanic {
		g.sendPanic = false
		panic(sigThrow{val: x.errorValue("send on closed channel")})
	}
	var ready []int
	for i, c := range in.sel {
		cr, ok := f.val(&c.ch).P.(ChanRef)
		if !ok {
			continue
		}
		if x.chanReady(cr.Obj, c.send) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		if len(ready) > 1 && x.s.sched == schedFull {
			// a fork resumes at this instruction: do not offer the preemption again
			x.s.wg(x.s.cur).passed = true
		}
		i := ready[x.choose("select", len(ready))]
		x.s.wg(x.s.cur).passed = false
		f = x.s.top()
		c := in.sel[i]
		id := f.val(&c.ch).P.(ChanRef).Obj
		if c.send {
			if !x.trySend(id, f.val(&c.val)) {
				panic("select send")
			}
			finish(i, Value{}, false)
			return
		}
		v, ok, _ := x.tryRecv(id)
		finish(i, v, ok)
		return
	}
	if !in.flag {
		finish(-1, Value{}, false)
		return
	}
	var cases []selCase
	for i, c := range in.sel {
		cr, ok := f.val(&c.ch).P.(ChanRef)
		if !ok {
			continue
		}
		sc := selCase{ch: cr.Obj, send: c.send, idx: i}
		if c.send {
			sc.val = f.val(&c.val)
		}
		cases = append(cases, sc)
	}
	x.block(blockReason{kind: bChan, cases: cases})
}

func (x *Exec) chanClose(c Value) {
	cr, ok := c.P.(ChanRef)
	if !ok {
		panic(sigThrow{val: x.errorValue("close of nil channel")})
	}
	s := x.s
	if s.obj(cr.Obj).ch.closed {
		panic(sigThrow{val: x.errorValue("close of closed channel")})
	}
	o := s.wobj(cr.Obj)
	o.ch.closed = true
	o.ch.close = x.tick()
	for i, g := range s.gs {
		if g.status != gBlocked || g.why.kind != bChan {
			continue
		}
		for _, cs := range g.why.cases {
			if cs.ch != cr.Obj {
				continue
			}
			w := s.wg(i)
			w.status = gRun
			w.why = blockReason{}
			if cs.send {
				w.sendPanic = true
			} else {
				w.ready, w.readyV, w.readyOK, w.readyIx = true, o.el.zero(), false, cs.idx
				if s.raceOn {
					w.vc.join(o.ch.close)
				}
			}
			break
		}
	}
}

// ---- races ----

func (x *Exec) raceSite() string {
	g := x.s.gs[x.s.cur]
	for i := len(g.frames) - 1; i >= 0; i-- {
		if g.frames[i].fn.repo {
			return g.frames[i].where()
		}
	}
	return g.frames[len(g.frames)-1].where()
}

func (x *Exec) raceRead(id ObjID, off int32) {
	s := x.s
	if len(s.gs) < 2 || int(id) < s.raceBase {
		return
	}
	o := s.obj(id)
	g := s.gs[s.cur]
	c := o.race[off]
	if c != nil && c.wg >= 0 && c.wg != g.id && c.wt > g.vc.get(c.wg) {
		x.race("read", c.wsite)
	}
	if c != nil && c.reads.get(g.id) == g.vc.get(g.id) {
		return
	}
	w := s.wobj(id)
	if w.race == nil {
		w.race = map[int32]*raceCell{}
	}
	c = w.race[off]
	if c == nil {
		c = &raceCell{wg: -1}
		w.race[off] = c
	}
	c.reads.set(g.id, g.vc.get(g.id))
	c.rsite = x.raceSite()
}

func (x *Exec) raceWrite(id ObjID, off int32) {
	s := x.s
	if int(id) < s.raceBase {
		return
	}
	g := s.gs[s.cur]
	o := s.wobj(id)
	if o.race == nil {
		if len(s.gs) < 2 {
			// single goroutine so far: remember nothing; later goroutines are ordered after their creation
			return
		}
		o.race = map[int32]*raceCell{}
	}
	c := o.race[off]
	if c == nil {
		c = &raceCell{wg: -1}
		o.race[off] = c
	}
	if c.wg >= 0 && c.wg != g.id && c.wt > g.vc.get(c.wg) {
		x.race("write", c.wsite)
	}
	for i := range c.reads {
		if i != g.id && c.reads[i] > g.vc.get(i) {
			x.race("write", c.rsite)
			break
		}
	}
	c.wg, c.wt, c.wsite = g.id, g.vc.get(g.id), x.raceSite()
	c.reads = nil
}

func (x *Exec) race(kind, other string) {
	msg := fmt.Sprintf("data race: %s at %s conflicts with an unordered access at %s", kind, x.raceSite(), other)
	for _, r := range x.s.races {
		if r == msg {
			return
		}
	}
	x.s.races = append(x.s.races[:len(x.s.races):len(x.s.races)], msg)
}

// timeValue builds a time.Time for the current virtual instant.
func (x *Exec) timeValue() Value {
	// struct { wall uint64; ext int64; loc *Location }
	// the wall clock moves on request (vf.Wall) and while the time is concrete; the monotonic clock always does
	wall := uint64(1<<63 | 5000000000<<30)
	if t := x.s.now; t.isConst() && x.s.ext["u:wall"].N != 0 {
		wall += t.k/1e9<<30 + t.k%1e9
	}
	return Value{P: &Agg{[]Value{{N: wall}, termV(x.s.now), {}}}}
}

var _ = types.Typ
