package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func key(v Value) syncKey {
	p, ok := v.P.(Ptr)
	if !ok {
		panic(unsupported("sync object behind %T", v.P))
	}
	return syncKey{p.Obj, p.Off}
}

func (c *Ctx) recv() syncKey {
	if c.args[0].P == nil {
		c.x.throw("runtime error: invalid memory address or nil pointer dereference")
	}
	return key(c.args[0])
}

func (x *Exec) acq(o *syncObj) { x.acquire(o.vc) }

func init() {
	lock := func(c *Ctx) (Value, bool) {
		x := c.x
		k := c.recv()
		x.visible()
		o := x.s.syncs[k]
		if o != nil && (o.locked || o.readers > 0) {
			x.block(blockReason{kind: bMutex, obj: k.obj, off: k.off})
		}
		w := x.s.syncAt(k)
		w.locked = true
		w.owner = x.s.cur
		x.acquire(w.vc)
		x.acquire(w.rvc)
		return Value{}, true
	}
	unlock := func(c *Ctx) (Value, bool) {
		x := c.x
		k := c.recv()
		o := x.s.syncAt(k)
		if !o.locked {
			x.e.fatal(x, "fatal error: sync: unlock of unlocked mutex")
			x.kill("fatal")
		}
		o.locked = false
		o.vc = x.tick()
		return Value{}, true
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	tryLock := func(c *Ctx) (Value, bool) {
		x := c.x
		k := c.recv()
		x.visible()
		o := x.s.syncAt(k)
		if o.locked || o.readers > 0 {
			return boolV(false), true
		}
		o.locked = true
		x.acquire(o.vc)
		x.acquire(o.rvc)
		return boolV(true), true
	}
	reg("(*sync.Mutex).TryLock", tryLock)
	reg("(*sync.RWMutex).TryLock", tryLock)
	reg("(*sync.RWMutex).RLock", func(c *Ctx) (Value, bool) {
		x := c.x
		k := c.recv()
		x.visible()
		o := x.s.syncs[k]
		if o != nil && o.locked {
			x.block(blockReason{kind: bRMutex, obj: k.obj, off: k.off})
		}
		w := x.s.syncAt(k)
		w.readers++
		x.acquire(w.vc)
		return Value{}, true
	})
	reg("(*sync.RWMutex).RUnlock", func(c *Ctx) (Value, bool) {
		x := c.x
		o := x.s.syncAt(c.recv())
		if o.readers <= 0 {
			x.e.fatal(x, "fatal error: sync: RUnlock of unlocked RWMutex")
			x.kill("fatal")
		}
		o.readers--
		o.rvc.join(x.tick())
		return Value{}, true
	})
	reg("(*sync.WaitGroup).Add", func(c *Ctx) (Value, bool) {
		x := c.x
		k := c.recv()
		n := c.int(1)
		x.visible()
		o := x.s.syncAt(k)
		if o.count+n < 0 {
			panic(sigThrow{val: x.errorValue("sync: negative WaitGroup counter")})
		}
		o.count += n
		o.vc.join(x.tick())
		return Value{}, true
	})
	reg("(*sync.WaitGroup).Done", func(c *Ctx) (Value, bool) {
		x := c.x
		x.visible()
		o := x.s.syncAt(c.recv())
		if o.count-1 < 0 {
			panic(sigThrow{val: x.errorValue("sync: negative WaitGroup counter")})
		}
		o.count--
		o.vc.join(x.tick())
		return Value{}, true
	})
	reg("(*sync.WaitGroup).Wait", func(c *Ctx) (Value, bool) {
		x := c.x
		k := c.recv()
		x.visible()
		o := x.s.syncs[k]
		if o != nil && o.count > 0 {
			x.block(blockReason{kind: bWait, obj: k.obj, off: k.off})
		}
		if o != nil {
			x.acquire(o.vc)
		}
		return Value{}, true
	})
	pure("(*sync.Pool).Put", func(c *Ctx) Value { return Value{} })
	for _, n := range []string{"sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "internal/race.Enable", "internal/race.Disable", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors"} {
		pure(n, func(c *Ctx) Value { return Value{} })
	}

	// atomics
	at := func(c *Ctx) syncKey {
		k := c.recv()
		c.x.visible()
		if c.x.s.raceOn {
			o := c.x.s.syncAt(k)
			c.x.acquire(o.vc)
			o.vc.join(c.x.tick())
		}
		return k
	}
	ld := func(c *Ctx, k syncKey) Value { return c.x.s.obj(k.obj).cells[k.off] }
	st := func(c *Ctx, k syncKey, v Value) { c.x.s.wobj(k.obj).cells[k.off] = v }
	type atn struct {
		name string
		w    uint8
	}
	for _, a := range []atn{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}} {
		a := a
		load := func(c *Ctx) (Value, bool) { return ld(c, at(c)), true }
		store := func(c *Ctx) (Value, bool) { st(c, at(c), c.args[1]); return Value{}, true }
		add := func(c *Ctx) (Value, bool) {
			k := at(c)
			v := termV(Bin(OAdd, asTerm(ld(c, k), a.w), asTerm(c.args[1], a.w)))
			st(c, k, v)
			return v, true
		}
		swap := func(c *Ctx) (Value, bool) {
			k := at(c)
			v := ld(c, k)
			st(c, k, c.args[1])
			return v, true
		}
		cas := func(c *Ctx) (Value, bool) {
			k := at(c)
			if c.x.decide(Eq(asTerm(ld(c, k), a.w), asTerm(c.args[1], a.w))) {
				st(c, k, c.args[2])
				return boolV(true), true
			}
			return boolV(false), true
		}
		bop := func(op Op) func(c *Ctx) (Value, bool) {
			return func(c *Ctx) (Value, bool) {
				k := at(c)
				old := ld(c, k)
				st(c, k, termV(Bin(op, asTerm(old, a.w), asTerm(c.args[1], a.w))))
				return old, true
			}
		}
		for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
			t := "(*" + pk + "." + a.name + ")."
			reg(t+"Load", load)
			reg(t+"Store", store)
			reg(t+"Add", add)
			reg(t+"Swap", swap)
			reg(t+"CompareAndSwap", cas)
			reg(t+"And", bop(OBAnd))
			reg(t+"Or", bop(OBOr))
		}
		reg("sync/atomic.Load"+a.name, load)
		reg("sync/atomic.Store"+a.name, store)
		reg("sync/atomic.Add"+a.name, add)
		reg("sync/atomic.Swap"+a.name, swap)
		reg("sync/atomic.CompareAndSwap"+a.name, cas)
	}
	reg("(*sync/atomic.Bool).Load", func(c *Ctx) (Value, bool) {
		v := ld(c, at(c))
		return v, true
	})
	reg("(*sync/atomic.Bool).Store", func(c *Ctx) (Value, bool) { st(c, at(c), c.args[1]); return Value{}, true })
	reg("(*sync/atomic.Bool).Swap", func(c *Ctx) (Value, bool) {
		k := at(c)
		v := ld(c, k)
		st(c, k, c.args[1])
		return v, true
	})
	reg("(*sync/atomic.Bool).CompareAndSwap", func(c *Ctx) (Value, bool) {
		k := at(c)
		if c.x.decide(Eq(asTerm(ld(c, k), 0), asTerm(c.args[1], 0))) {
			st(c, k, c.args[2])
			return boolV(true), true
		}
		return boolV(false), true
	})
	for _, pre := range []string{"(*sync/atomic.Pointer[T]).", "(*sync/atomic.Value)."} {
		reg(pre+"Load", func(c *Ctx) (Value, bool) { return ld(c, at(c)), true })
		reg(pre+"Store", func(c *Ctx) (Value, bool) { st(c, at(c), c.args[1]); return Value{}, true })
		reg(pre+"Swap", func(c *Ctx) (Value, bool) {
			k := at(c)
			v := ld(c, k)
			st(c, k, c.args[1])
			return v, true
		})
		reg(pre+"CompareAndSwap", func(c *Ctx) (Value, bool) {
			k := at(c)
			if sameValue(ld(c, k), c.args[1]) {
				st(c, k, c.args[2])
				return boolV(true), true
			}
			return boolV(false), true
		})
	}
	reg("sync/atomic.LoadPointer", func(c *Ctx) (Value, bool) { return ld(c, at(c)), true })
	reg("sync/atomic.StorePointer", func(c *Ctx) (Value, bool) { st(c, at(c), c.args[1]); return Value{}, true })
	reg("sync/atomic.CompareAndSwapPointer", func(c *Ctx) (Value, bool) {
		k := at(c)
		if sameValue(ld(c, k), c.args[1]) {
			st(c, k, c.args[2])
			return boolV(true), true
		}
		return boolV(false), true
	})

	// ---- time ----
	pure("time.Now", func(c *Ctx) Value {
		if c.x.s.ext["u:tickclock"].N != 0 {
			c.x.s.now = Bin(OAdd, c.x.s.now, BV(1, 64))
		}
		return c.x.timeValue()
	})
	pure("time.runtimeNano", func(c *Ctx) Value { return termV(c.x.s.now) })
	pure("time.runtimeNow", func(c *Ctx) Value { panic(unsupported("runtimeNow")) })
	pure("time.now", func(c *Ctx) Value { panic(unsupported("time.now")) })
	reg("time.Sleep", func(c *Ctx) (Value, bool) {
		x := c.x
		x.visible()
		g := x.s.wg(x.s.cur)
		if g.ready {
			g.ready = false
			return Value{}, true
		}
		d := asTerm(c.args[0], 64)
		x.addTimer(&timer{when: Bin(OAdd, x.s.now, d), kind: 2, g: x.s.cur})
		x.block(blockReason{kind: bSleep})
		return Value{}, true
	})
	timeT := func(x *Exec) *TInfo { return x.e.timeT }
	newTimerChan := func(x *Exec) ObjID {
		return x.s.alloc(&Obj{kind: okChan, ch: &ChanData{cap: 1}, el: timeT(x)})
	}
	clamp := func(x *Exec, d Value) *Term {
		t := asTerm(d, 64)
		return Ite(Slt(t, BV(0, 64)), BV(0, 64), t)
	}
	pure("time.After", func(c *Ctx) Value {
		x := c.x
		ch := newTimerChan(x)
		x.addTimer(&timer{when: Bin(OAdd, x.s.now, clamp(x, c.args[0])), kind: 0, ch: ch})
		return Value{P: ChanRef{ch}}
	})
	mk := func(c *Ctx, period bool) Value {
		x := c.x
		ch := newTimerChan(x)
		id := x.s.alloc(&Obj{cells: []Value{{P: ChanRef{ch}}, boolV(true)}})
		t := &timer{when: Bin(OAdd, x.s.now, clamp(x, c.args[0])), kind: 0, ch: ch, obj: id}
		if period {
			t.period = asTerm(c.args[0], 64)
		}
		x.addTimer(t)
		return Value{P: Ptr{Obj: id}}
	}
	pure("time.NewTimer", func(c *Ctx) Value { return mk(c, false) })
	pure("time.NewTicker", func(c *Ctx) Value { return mk(c, true) })
	pure("time.Tick", func(c *Ctx) Value {
		v := mk(c, true)
		return c.x.s.obj(v.P.(Ptr).Obj).cells[0]
	})
	pure("time.AfterFunc", func(c *Ctx) Value {
		x := c.x
		id := x.s.alloc(&Obj{cells: []Value{{}, boolV(true)}})
		x.addTimer(&timer{when: Bin(OAdd, x.s.now, clamp(x, c.args[0])), kind: 1, fn: c.args[1], obj: id})
		x.s.setExt(fmt.Sprintf("timerfn:%d", id), c.args[1])
		return Value{P: Ptr{Obj: id}}
	})
	stop := func(c *Ctx) bool {
		x := c.x
		p := c.args[0].P.(Ptr)
		for i, t := range x.s.timers {
			if t.obj == p.Obj && t.obj != 0 && !t.dead {
				x.s.timers = append(append([]*timer(nil), x.s.timers[:i]...), x.s.timers[i+1:]...)
				return true
			}
		}
		return false
	}
	drain := func(c *Ctx) {
		// since Go 1.23 Stop/Reset discard a stale value
		p := c.args[0].P.(Ptr)
		if ch, ok := c.x.s.obj(p.Obj).cells[0].P.(ChanRef); ok {
			if len(c.x.s.obj(ch.Obj).ch.buf) > 0 {
				w := c.x.s.wobj(ch.Obj).ch
				w.buf, w.vc = nil, nil
			}
		}
	}
	pure("(*time.Timer).Stop", func(c *Ctx) Value { r := stop(c); drain(c); return boolV(r) })
	pure("(*time.Ticker).Stop", func(c *Ctx) Value { stop(c); return Value{} })
	reset := func(c *Ctx) Value {
		x := c.x
		p := c.args[0].P.(Ptr)
		r := stop(c)
		drain(c)
		t := &timer{when: Bin(OAdd, x.s.now, clamp(x, c.args[1])), obj: p.Obj}
		if ch, ok := x.s.obj(p.Obj).cells[0].P.(ChanRef); ok {
			t.kind, t.ch = 0, ch.Obj
		} else {
			t.kind, t.fn = 1, x.s.ext[fmt.Sprintf("timerfn:%d", p.Obj)]
		}
		x.addTimer(t)
		return boolV(r)
	}
	pure("(*time.Timer).Reset", reset)
	pure("(*time.Ticker).Reset", func(c *Ctx) Value {
		v := reset(c)
		x := c.x
		t := *x.s.timers[len(x.s.timers)-1]
		t.period = asTerm(c.args[1], 64)
		x.s.timers[len(x.s.timers)-1] = &t
		_ = v
		return Value{}
	})
	// the text of a time: the modelled clock's wall reading is constant, only its monotonic reading advances
	goTime := func(v Value) (time.Time, bool) {
		a, ok := v.P.(*Agg)
		if !ok || a.V[0].P != nil || a.V[1].P != nil && a.V[0].N>>63 == 0 {
			return time.Time{}, false
		}
		var t time.Time
		p := (*struct {
			wall uint64
			ext  int64
			loc  *time.Location
		})(unsafe.Pointer(&t))
		p.wall = a.V[0].N
		if a.V[1].P == nil {
			p.ext = int64(a.V[1].N)
		}
		return t.UTC(), true
	}
	pure("(time.Time).Format", func(c *Ctx) Value {
		if t, ok := goTime(c.args[0]); ok {
			return strV(t.Format(c.str(1)))
		}
		return Value{P: &SymStr{Opaque: "«time»"}}
	})
	pure("(time.Time).String", func(c *Ctx) Value {
		if t, ok := goTime(c.args[0]); ok {
			return strV(t.String())
		}
		return Value{P: &SymStr{Opaque: "«time»"}}
	})
	pure("(time.Time).Round", func(c *Ctx) Value { return c.args[0] })
	pure("(time.Time).UTC", func(c *Ctx) Value { return c.args[0] })
	pure("(time.Time).Local", func(c *Ctx) Value { return c.args[0] })
	durString := func(c *Ctx) (Value, bool) {
		if c.args[0].P != nil {
			return Value{P: &SymStr{Opaque: fmt.Sprintf("«dur:%d»", c.args[0].P.(*Term).id)}}, true
		}
		return strV(timeDurString(int64(c.args[0].N))), true
	}
	reg("(time.Duration).String", durString)

	// ---- math/rand ----
	// the generator is replaced by an arbitrary permutation / number: see vf.RandMode
	pure("math/rand.NewSource", func(c *Ctx) Value {
		id := c.x.s.alloc(&Obj{cells: []Value{c.args[0]}})
		return Value{P: &Iface{T: c.x.e.rngSource, V: Value{P: Ptr{Obj: id}}}}
	})
	pure("math/rand.New", func(c *Ctx) Value {
		// remember the seed and a draw counter in the Rand object
		var seed Value
		if i, ok := c.args[0].P.(*Iface); ok {
			seed = c.x.s.obj(i.V.P.(Ptr).Obj).cells[0]
		}
		id := c.x.s.alloc(&Obj{cells: []Value{seed, {}, {}, {}, {}, {}}})
		return Value{P: Ptr{Obj: id}}
	})
	perm := func(c *Ctx, n int) []int { return c.x.randPerm(c, n) }
	pure("(*math/rand.Rand).Perm", func(c *Ctx) Value {
		n := c.int(1)
		p := perm(c, n)
		cells := make([]Value, n)
		for i := range p {
			cells[i] = intV(p[i])
		}
		return c.x.newSlice(TI(types.Typ[types.Int]), cells)
	})
	pure("(*math/rand.Rand).Intn", func(c *Ctx) Value {
		n := c.int(1)
		return intV(c.x.randInt(c, n))
	})

	// ---- errors / misc ----
	pure("errors.New", func(c *Ctx) Value {
		id := c.x.s.alloc(&Obj{cells: []Value{c.args[0]}})
		return Value{P: &Iface{T: c.x.e.errString, V: Value{P: Ptr{Obj: id}}}}
	})
	pure("internal/godebug.New", func(c *Ctx) Value { return Value{P: Ptr{Obj: c.x.s.allocCells(4)}} })
	pure("(*internal/godebug.Setting).Value", func(c *Ctx) Value { return Value{} })
	pure("(*internal/godebug.Setting).IncNonDefault", func(c *Ctx) Value { return Value{} })
	pure("(*internal/godebug.Setting).Name", func(c *Ctx) Value { return Value{} })
	pure("internal/reflectlite.TypeOf", func(c *Ctx) Value { return c.x.rtypeOf(c.args[0]) })
	initReflect()
}

func timeDurString(d int64) string {
	return durString(d)
}

// randPerm: an arbitrary permutation of n elements, drawn from fresh symbolic choices; equal (seed, draw index, n)
// give the same permutation on a path, as a deterministic generator does.
func (x *Exec) randPerm(c *Ctx, n int) []int {
	p := c.args[0].P.(Ptr)
	o := x.s.obj(p.Obj)
	seed := fmtValue(o.cells[0])
	draws := o.cells[1].N
	k := fmt.Sprintf("perm:%s:%d:%s", seed, n, histKey(o.cells[2]))
	_ = draws
	if v, ok := x.s.ext[k]; ok {
		w := x.s.wobj(p.Obj)
		w.cells[1] = Value{N: draws + 1}
		w.cells[2] = strV(histKey(w.cells[2]) + fmt.Sprintf("p%d,", n))
		return v.P.([]int)
	}
	// choose a permutation number: n! choices for small n
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	lim := 120
	var idx int
	if f <= lim {
		idx = x.choose("perm", f)
	} else {
		panic(unsupported("permutation of %d elements", n))
	}
	out := nthPerm(n, idx)
	x.s.setExt(k, Value{P: out})
	x.permLog(permRec{"p", n, out})
	w := x.s.wobj(p.Obj)
	w.cells[1] = Value{N: draws + 1}
	w.cells[2] = strV(histKey(w.cells[2]) + fmt.Sprintf("p%d,", n))
	return out
}

func (x *Exec) permLog(p permRec) {
	var l []permRec
	if v, ok := x.s.ext["permlog"]; ok && v.P != nil {
		l = v.P.([]permRec)
	}
	x.s.setExt("permlog", Value{P: append(l[:len(l):len(l)], p)})
}

func histKey(v Value) string {
	s, _ := concStr(v)
	return s
}

func (x *Exec) randInt(c *Ctx, n int) int {
	p := c.args[0].P.(Ptr)
	o := x.s.obj(p.Obj)
	k := fmt.Sprintf("rint:%s:%d:%s", fmtValue(o.cells[0]), n, histKey(o.cells[2]))
	v, ok := x.s.ext[k]
	var r int
	if ok {
		r = int(v.N)
	} else {
		if n > 64 {
			panic(unsupported("random number below %d", n))
		}
		r = x.choose("rand", n)
		x.s.setExt(k, intV(r))
		x.permLog(permRec{"i", n, []int{r}})
	}
	w := x.s.wobj(p.Obj)
	w.cells[2] = strV(histKey(w.cells[2]) + fmt.Sprintf("i%d,", n))
	return r
}

func nthPerm(n, k int) []int {
	el := make([]int, n)
	for i := range el {
		el[i] = i
	}
	f := 1
	for i := 2; i < n; i++ {
		f *= i
	}
	var out []int
	for m := n; m > 0; m-- {
		i := 0
		if m > 1 {
			i = k / f
			k %= f
			f /= (m - 1)
		}
		out = append(out, el[i])
		el = append(append([]int(nil), el[:i]...), el[i+1:]...)
	}
	return out
}

// ---- reflect ----

// RVal is the payload of a reflect.Value.
type RVal struct {
	V    Value
	Addr Value // pointer when addressable
}

func (x *Exec) mkRType(t *TInfo) Value {
	return Value{P: &Iface{T: x.e.rtypeT, V: Value{P: &RType{t}}}}
}

func (x *Exec) rtypeOf(v Value) Value {
	i, ok := v.P.(*Iface)
	if !ok {
		return Value{}
	}
	return x.mkRType(i.T)
}

func (x *Exec) mkRValue(t *TInfo, v Value, addr Value) Value {
	return Value{P: &Agg{[]Value{{P: &RType{t}}, {P: &RVal{v, addr}}, {N: 1}}}}
}

func rvT(v Value) *TInfo {
	a := v.P.(*Agg)
	r, ok := a.V[0].P.(*RType)
	if !ok {
		return nil
	}
	return r.T
}

func (x *Exec) rvV(v Value) Value {
	a := v.P.(*Agg)
	r, ok := a.V[1].P.(*RVal)
	if !ok {
		x.throw("reflect: call on zero Value")
	}
	if r.Addr.P != nil {
		return x.load(r.Addr, rvT(v))
	}
	return r.V
}

func reflectKind(t *TInfo) int {
	switch u := t.T.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (c *Ctx) rt(i int) *TInfo {
	v := c.args[i]
	if ifc, ok := v.P.(*Iface); ok {
		v = ifc.V
	}
	r, ok := v.P.(*RType)
	if !ok {
		c.x.throw("runtime error: invalid memory address or nil pointer dereference")
	}
	return r.T
}

func (x *Exec) toIface(t *TInfo, v Value) Value {
	if t.kind == kIface {
		return v
	}
	return Value{P: &Iface{T: t, V: v}}
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func initReflect() {
	pure("reflect.TypeOf", func(c *Ctx) Value { return c.x.rtypeOf(c.args[0]) })
	pure("reflect.ValueOf", func(c *Ctx) Value {
		i, ok := c.args[0].P.(*Iface)
		if !ok {
			return Value{P: &Agg{make([]Value, 3)}}
		}
		return c.x.mkRValue(i.T, i.V, Value{})
	})
	pure("reflect.Zero", func(c *Ctx) Value {
		t := c.rt(0)
		return c.x.mkRValue(t, t.zero(), Value{})
	})
	pure("reflect.New", func(c *Ctx) Value {
		t := c.rt(0)
		return c.x.mkRValue(TI(types.NewPointer(t.T)), c.x.allocT(t), Value{})
	})
	pure("reflect.Indirect", func(c *Ctx) Value {
		if rvT(c.args[0]).kind == kPtr {
			return c.x.rvElem(c.args[0])
		}
		return c.args[0]
	})
	pure("reflect.DeepEqual", func(c *Ctx) Value { return termV(c.x.deepEq(c.args[0], c.args[1], 0)) })
	T := "(*reflect.rtype)."
	pure(T+"Kind", func(c *Ctx) Value { return intV(reflectKind(c.rt(0))) })
	pure(T+"Name", func(c *Ctx) Value {
		if n, ok := c.rt(0).T.(*types.Named); ok {
			return strV(n.Obj().Name())
		}
		if b, ok := c.rt(0).T.(*types.Basic); ok {
			return strV(b.Name())
		}
		return Value{}
	})
	pure(T+"PkgPath", func(c *Ctx) Value {
		if n, ok := c.rt(0).T.(*types.Named); ok && n.Obj().Pkg() != nil {
			return strV(n.Obj().Pkg().Path())
		}
		return Value{}
	})
	pure(T+"String", func(c *Ctx) Value { return strV(typeString(c.rt(0).T)) })
	pure(T+"Elem", func(c *Ctx) Value {
		switch u := c.rt(0).T.Underlying().(type) {
		case *types.Pointer:
			return c.x.mkRType(TI(u.Elem()))
		case *types.Slice:
			return c.x.mkRType(TI(u.Elem()))
		case *types.Array:
			return c.x.mkRType(TI(u.Elem()))
		case *types.Chan:
			return c.x.mkRType(TI(u.Elem()))
		case *types.Map:
			return c.x.mkRType(TI(u.Elem()))
		}
		c.x.throw("reflect: Elem of invalid type " + typeString(c.rt(0).T))
		return Value{}
	})
	pure(T+"Key", func(c *Ctx) Value { return c.x.mkRType(TI(c.rt(0).T.Underlying().(*types.Map).Key())) })
	sig := func(c *Ctx) *types.Signature {
		s, ok := c.rt(0).T.Underlying().(*types.Signature)
		if !ok {
			c.x.throw("reflect: In/NumIn of non-func type " + typeString(c.rt(0).T))
		}
		return s
	}
	pure(T+"NumIn", func(c *Ctx) Value { return intV(sig(c).Params().Len()) })
	pure(T+"NumOut", func(c *Ctx) Value { return intV(sig(c).Results().Len()) })
	pure(T+"IsVariadic", func(c *Ctx) Value { return boolV(sig(c).Variadic()) })
	pure(T+"In", func(c *Ctx) Value {
		s, i := sig(c), c.int(1)
		if i < 0 || i >= s.Params().Len() {
			c.x.throw("reflect: Func index out of bounds")
		}
		return c.x.mkRType(TI(s.Params().At(i).Type()))
	})
	pure(T+"Out", func(c *Ctx) Value {
		s, i := sig(c), c.int(1)
		if i < 0 || i >= s.Results().Len() {
			c.x.throw("reflect: Func index out of bounds")
		}
		return c.x.mkRType(TI(s.Results().At(i).Type()))
	})
	pure(T+"Implements", func(c *Ctx) Value {
		u := c.rt(1)
		if u.kind != kIface {
			c.x.throw("reflect: non-interface type passed to Type.Implements")
		}
		return boolV(types.Implements(c.rt(0).T, u.T.Underlying().(*types.Interface)))
	})
	pure(T+"AssignableTo", func(c *Ctx) Value { return boolV(types.AssignableTo(c.rt(0).T, c.rt(1).T)) })
	pure(T+"ConvertibleTo", func(c *Ctx) Value { return boolV(types.ConvertibleTo(c.rt(0).T, c.rt(1).T)) })
	pure(T+"Comparable", func(c *Ctx) Value { return boolV(types.Comparable(c.rt(0).T)) })
	pure(T+"NumField", func(c *Ctx) Value { return intV(c.rt(0).T.Underlying().(*types.Struct).NumFields()) })
	pure(T+"NumMethod", func(c *Ctx) Value { return intV(types.NewMethodSet(c.rt(0).T).Len()) })
	pure(T+"Len", func(c *Ctx) Value { return intV(c.rt(0).alen) })
	pure(T+"Field", func(c *Ctx) Value {
		st := c.rt(0).T.Underlying().(*types.Struct)
		i := c.int(1)
		f := st.Field(i)
		pk := ""
		if !f.Exported() && f.Pkg() != nil {
			pk = f.Pkg().Path()
		}
		idx := c.x.newSlice(TI(types.Typ[types.Int]), []Value{intV(i)})
		return Value{P: &Agg{[]Value{strV(f.Name()), strV(pk), c.x.mkRType(TI(f.Type())), strV(st.Tag(i)), {}, idx, boolV(f.Anonymous())}}}
	})

	V := "(reflect.Value)."
	pure(V+"Kind", func(c *Ctx) Value {
		t := rvT(c.args[0])
		if t == nil {
			return Value{}
		}
		return intV(reflectKind(t))
	})
	pure(V+"IsValid", func(c *Ctx) Value { return boolV(rvT(c.args[0]) != nil) })
	pure(V+"Type", func(c *Ctx) Value {
		t := rvT(c.args[0])
		if t == nil {
			c.x.throw("reflect: call of reflect.Value.Type on zero Value")
		}
		return c.x.mkRType(t)
	})
	pure(V+"IsNil", func(c *Ctx) Value {
		t := rvT(c.args[0])
		if t == nil {
			c.x.throw("reflect: call of reflect.Value.IsNil on zero Value")
		}
		switch t.kind {
		case kPtr, kMap, kSlice, kFunc, kChan, kIface, kUnsafe:
		default:
			c.x.throw("reflect: call of reflect.Value.IsNil on " + typeString(t.T) + " Value")
		}
		return boolV(c.x.rvV(c.args[0]).P == nil)
	})
	pure(V+"IsZero", func(c *Ctx) Value {
		t := rvT(c.args[0])
		v := c.x.rvV(c.args[0])
		switch t.kind {
		case kSlice, kMap, kFunc:
			return boolV(v.P == nil)
		}
		return termV(c.x.eq(t, v, t.zero()))
	})
	pure(V+"CanInterface", func(c *Ctx) Value { return boolV(true) })
	pure(V+"CanSet", func(c *Ctx) Value { return boolV(c.args[0].P.(*Agg).V[1].P.(*RVal).Addr.P != nil) })
	pure(V+"CanAddr", func(c *Ctx) Value { return boolV(c.args[0].P.(*Agg).V[1].P.(*RVal).Addr.P != nil) })
	pure(V+"Addr", func(c *Ctx) Value {
		r := c.args[0].P.(*Agg).V[1].P.(*RVal)
		return c.x.mkRValue(TI(types.NewPointer(rvT(c.args[0]).T)), r.Addr, Value{})
	})
	pure(V+"Interface", func(c *Ctx) Value {
		t := rvT(c.args[0])
		if t == nil {
			c.x.throw("reflect: call of reflect.Value.Interface on zero Value")
		}
		return c.x.toIface(t, c.x.rvV(c.args[0]))
	})
	pure(V+"Elem", func(c *Ctx) Value { return c.x.rvElem(c.args[0]) })
	pure(V+"Len", func(c *Ctx) Value {
		t, v := rvT(c.args[0]), c.x.rvV(c.args[0])
		switch t.kind {
		case kString:
			return intV(strLen(v))
		case kSlice:
			if s, ok := v.P.(*Slice); ok {
				return intV(int(s.Len))
			}
			return Value{}
		case kArray:
			return intV(t.alen)
		case kMap:
			if m, ok := v.P.(MapRef); ok {
				return intV(c.x.s.obj(m.Obj).m.live)
			}
			return Value{}
		}
		c.x.throw("reflect: call of reflect.Value.Len on " + typeString(t.T) + " Value")
		return Value{}
	})
	pure(V+"Index", func(c *Ctx) Value {
		t, v := rvT(c.args[0]), c.x.rvV(c.args[0])
		i := c.int(1)
		switch t.kind {
		case kSlice:
			s, _ := v.P.(*Slice)
			if s == nil || i < 0 || i >= int(s.Len) {
				c.x.throw("reflect: slice index out of range")
			}
			return c.x.mkRValue(t.elem, Value{}, Value{P: Ptr{s.Obj, s.Off + int32(i*t.elem.slots)}})
		case kArray:
			return c.x.mkRValue(t.elem, regOf(t.elem, v.P.(*Agg).V[i*t.elem.slots:(i+1)*t.elem.slots]), Value{})
		case kString:
			return c.x.mkRValue(TI(types.Typ[types.Uint8]), strByte(v, i), Value{})
		}
		c.x.throw("reflect: call of reflect.Value.Index on " + typeString(t.T) + " Value")
		return Value{}
	})
	pure(V+"NumField", func(c *Ctx) Value { return intV(rvT(c.args[0]).T.Underlying().(*types.Struct).NumFields()) })
	pure(V+"Field", func(c *Ctx) Value { return c.x.rvField(c.args[0], c.int(1)) })
	pure(V+"FieldByName", func(c *Ctx) Value {
		st, ok := rvT(c.args[0]).T.Underlying().(*types.Struct)
		if !ok {
			c.x.throw("reflect: FieldByName of non-struct")
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == c.str(1) {
				return c.x.rvField(c.args[0], i)
			}
		}
		return Value{P: &Agg{make([]Value, 3)}}
	})
	pure(V+"Bool", func(c *Ctx) Value { return c.x.rvV(c.args[0]) })
	pure(V+"Int", func(c *Ctx) Value {
		t := rvT(c.args[0])
		return termV(SExt(asTerm(c.x.rvV(c.args[0]), t.w), 64))
	})
	pure(V+"Uint", func(c *Ctx) Value {
		t := rvT(c.args[0])
		return termV(ZExt(asTerm(c.x.rvV(c.args[0]), t.w), 64))
	})
	pure(V+"Float", func(c *Ctx) Value { return c.x.rvV(c.args[0]) })
	pure(V+"String", func(c *Ctx) Value {
		t := rvT(c.args[0])
		if t == nil {
			return strV("<invalid Value>")
		}
		if t.kind == kString {
			return c.x.rvV(c.args[0])
		}
		return strV("<" + typeString(t.T) + " Value>")
	})
	pure(V+"Pointer", func(c *Ctx) Value {
		switch p := c.x.rvV(c.args[0]).P.(type) {
		case Ptr:
			return Value{N: 0xc000000000 + uint64(p.Obj)*4096 + uint64(p.Off)*8}
		case *Closure:
			return Value{N: 0x400000 + uint64(len(p.Fn.String()))}
		case nil:
			return Value{}
		}
		panic(unsupported("reflect Pointer"))
	})
	set := func(c *Ctx, v Value) Value {
		r := c.args[0].P.(*Agg).V[1].P.(*RVal)
		if r.Addr.P == nil {
			c.x.throw("reflect: reflect.Value.Set using unaddressable value")
		}
		c.x.store(r.Addr, rvT(c.args[0]), v)
		return Value{}
	}
	pure(V+"Set", func(c *Ctx) Value {
		v := c.x.rvV(c.args[1])
		if rvT(c.args[0]).kind == kIface {
			v = c.x.toIface(rvT(c.args[1]), v)
		}
		return set(c, v)
	})
	pure(V+"SetInt", func(c *Ctx) Value { return set(c, termV(Trunc(asTerm(c.args[1], 64), rvT(c.args[0]).w))) })
	pure(V+"SetUint", func(c *Ctx) Value { return set(c, termV(Trunc(asTerm(c.args[1], 64), rvT(c.args[0]).w))) })
	pure(V+"SetBool", func(c *Ctx) Value { return set(c, c.args[1]) })
	pure(V+"SetString", func(c *Ctx) Value { return set(c, c.args[1]) })
	pure(V+"SetFloat", func(c *Ctx) Value { return set(c, c.args[1]) })
	pure("reflect.Append", func(c *Ctx) Value {
		t := rvT(c.args[0])
		s := c.x.rvV(c.args[0])
		for _, e := range c.rvSlice(1) {
			v := c.x.rvV(e)
			if t.elem.kind == kIface {
				v = c.x.toIface(rvT(e), v)
			}
			tmp := c.x.newSlice(t.elem, append([]Value(nil), cellsOf(t.elem, v)...))
			s = c.x.appendSlice(t, t, s, tmp)
		}
		return c.x.mkRValue(t, s, Value{})
	})
	pure("reflect.AppendSlice", func(c *Ctx) Value {
		t := rvT(c.args[0])
		return c.x.mkRValue(t, c.x.appendSlice(t, t, c.x.rvV(c.args[0]), c.x.rvV(c.args[1])), Value{})
	})
	pure("reflect.MakeSlice", func(c *Ctx) Value {
		t := c.rt(0)
		n, cp := c.int(1), c.int(2)
		id := c.x.s.alloc(&Obj{cells: make([]Value, cp*t.elem.slots), el: t.elem})
		return c.x.mkRValue(t, Value{P: &Slice{Obj: id, Len: int32(n), Cap: int32(cp)}}, Value{})
	})
	pure(V+"MapKeys", func(c *Ctx) Value {
		t := rvT(c.args[0])
		kt := TI(t.T.Underlying().(*types.Map).Key())
		var cells []Value
		if m, ok := c.x.rvV(c.args[0]).P.(MapRef); ok {
			md := c.x.s.obj(m.Obj).m
			for i := range md.keys {
				if !md.dead[i] {
					cells = append(cells, c.x.mkRValue(kt, md.keys[i], Value{}).P.(*Agg).V...)
				}
			}
		}
		return c.x.newSlice(c.x.e.rvalueT, cells)
	})
	pure(V+"MapIndex", func(c *Ctx) Value {
		t := rvT(c.args[0])
		mt := t.T.Underlying().(*types.Map)
		if m, ok := c.x.rvV(c.args[0]).P.(MapRef); ok {
			md := c.x.s.obj(m.Obj).m
			if p := c.x.mapFind(md, TI(mt.Key()), c.x.rvV(c.args[1])); p >= 0 {
				return c.x.mkRValue(TI(mt.Elem()), md.vals[p], Value{})
			}
		}
		return Value{P: &Agg{make([]Value, 3)}}
	})
	pure(V+"NumMethod", func(c *Ctx) Value { return intV(types.NewMethodSet(rvT(c.args[0]).T).Len()) })
	pure(V+"Convert", func(c *Ctx) Value {
		to := c.rt(1)
		return c.x.mkRValue(to, c.x.convert(to, rvT(c.args[0]), c.x.rvV(c.args[0])), Value{})
	})
	pure(V+"MethodByName", func(c *Ctx) Value {
		t := rvT(c.args[0])
		sel := types.NewMethodSet(t.T).Lookup(nil, c.str(1))
		if sel == nil || !sel.Obj().Exported() {
			return Value{P: &Agg{make([]Value, 3)}}
		}
		m := sel.Obj().(*types.Func)
		sig := m.Type().(*types.Signature)
		ft := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		fn := c.x.method(t, m)
		return c.x.mkRValue(TI(ft), Value{P: &Closure{Fn: fn, Binds: []Value{c.x.rvV(c.args[0])}, Recv: true}}, Value{})
	})
	reg(V+"Call", func(c *Ctx) (Value, bool) { return c.x.reflectCall(c) })
	pure("(reflect.Kind).String", func(c *Ctx) Value {
		names := []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}
		return strV(names[c.int(0)])
	})
}

func (c *Ctx) rvSlice(i int) []Value {
	sl, _ := c.args[i].P.(*Slice)
	if sl == nil {
		return nil
	}
	cells := c.x.sliceCells(sl, 3)
	var out []Value
	for k := 0; k < int(sl.Len); k++ {
		out = append(out, Value{P: &Agg{append([]Value(nil), cells[3*k:3*k+3]...)}})
	}
	return out
}

func (x *Exec) rvElem(v Value) Value {
	t := rvT(v)
	if t == nil {
		x.throw("reflect: Elem of zero Value")
	}
	p := x.rvV(v)
	switch t.kind {
	case kPtr:
		if p.P == nil {
			return Value{P: &Agg{make([]Value, 3)}}
		}
		return x.mkRValue(TI(t.T.Underlying().(*types.Pointer).Elem()), Value{}, p)
	case kIface:
		i, ok := p.P.(*Iface)
		if !ok {
			return Value{P: &Agg{make([]Value, 3)}}
		}
		return x.mkRValue(i.T, i.V, Value{})
	}
	x.throw("reflect: call of reflect.Value.Elem on " + typeString(t.T) + " Value")
	return Value{}
}

func (x *Exec) rvField(v Value, i int) Value {
	t := rvT(v)
	st := t.T.Underlying().(*types.Struct)
	ft := TI(st.Field(i).Type())
	r := v.P.(*Agg).V[1].P.(*RVal)
	if r.Addr.P != nil {
		p := r.Addr.P.(Ptr)
		return x.mkRValue(ft, Value{}, Value{P: Ptr{p.Obj, p.Off + int32(t.offs[i])}})
	}
	a := r.V.P.(*Agg)
	return x.mkRValue(ft, regOf(ft, a.V[t.offs[i]:t.offs[i]+ft.slots]), Value{})
}

// reflectCall implements reflect.Value.Call.
func (x *Exec) reflectCall(c *Ctx) (Value, bool) {
	t := rvT(c.args[0])
	fv := x.rvV(c.args[0])
	cl, ok := fv.P.(*Closure)
	if !ok {
		x.throw("reflect: call of nil function")
	}
	sig := t.T.Underlying().(*types.Signature)
	in := c.rvSlice(1)
	np := sig.Params().Len()
	if sig.Variadic() {
		if len(in) < np-1 {
			x.throw("reflect: Call with too few input arguments")
		}
	} else if len(in) != np {
		if len(in) < np {
			x.throw("reflect: Call with too few input arguments")
		}
		x.throw("reflect: Call with too many input arguments")
	}
	conv := func(v Value, pt *TInfo) Value {
		vt := rvT(v)
		if vt == nil {
			x.throw("reflect: Call using zero Value argument")
		}
		if !types.AssignableTo(vt.T, pt.T) {
			x.throw("reflect: Call using " + typeString(vt.T) + " as type " + typeString(pt.T))
		}
		val := x.rvV(v)
		if pt.kind == kIface {
			return x.toIface(vt, val)
		}
		return val
	}
	var args []Value
	for i := 0; i < np; i++ {
		pt := TI(sig.Params().At(i).Type())
		if sig.Variadic() && i == np-1 {
			var cells []Value
			for _, v := range in[i:] {
				cells = append(cells, cellsOf(pt.elem, conv(v, pt.elem))...)
			}
			if len(in[i:]) == 0 {
				args = append(args, Value{})
			} else {
				args = append(args, x.newSlice(pt.elem, cells))
			}
			break
		}
		args = append(args, conv(in[i], pt))
	}
	if cl.Recv {
		args = append(append([]Value(nil), cl.Binds[0]), args...)
		cl = &Closure{Fn: cl.Fn}
	}
	dst := c.dst
	finish := func(x *Exec, rv Value) {
		var cells []Value
		n := sig.Results().Len()
		for i := 0; i < n; i++ {
			v := rv
			if n > 1 {
				v = rv.P.(*Agg).V[i]
			}
			cells = append(cells, x.mkRValue(TI(sig.Results().At(i).Type()), v, Value{}).P.(*Agg).V...)
		}
		var out Value
		if n > 0 {
			out = x.newSlice(x.e.rvalueT, cells)
		}
		f := x.s.top()
		if dst >= 0 {
			f.regs[dst] = out
		}
		f.pc++
	}
	if cl.Nat != nil {
		v, adv := cl.Nat.fn(&Ctx{x: x, args: append(append([]Value(nil), cl.Binds...), args...), dst: -1})
		if !adv {
			panic(unsupported("reflect call of blocking native"))
		}
		finish(x, v)
		return Value{}, false
	}
	fi := x.e.fnInfo(cl.Fn)
	if fi.intr != nil {
		if fi.intr.model == nil {
			v, adv := fi.intr.fn(&Ctx{x: x, args: args, dst: -1, fi: fi})
			if !adv {
				panic(unsupported("reflect call of intrinsic"))
			}
			finish(x, v)
			return Value{}, false
		}
		fi = x.e.fnInfo(fi.intr.model)
	}
	if fi.blocks == nil {
		panic(unsupported("reflect call of external %s", fi.name))
	}
	if fi.repo && !x.cov[fi] {
		x.cov[fi] = true
		x.e.cover(fi)
	}
	g := x.s.wg(x.s.cur)
	nf := x.pushFrame(g, fi, cl.Binds, args, -1, false)
	nf.native = finish
	return Value{}, false
}

func (x *Exec) deepEq(a, b Value, d int) *Term {
	ia, ok1 := a.P.(*Iface)
	ib, ok2 := b.P.(*Iface)
	if !ok1 || !ok2 {
		return BoolT(!ok1 && !ok2)
	}
	if ia.T != ib.T {
		return TFalse
	}
	return x.deepEqT(ia.T, ia.V, ib.V, d)
}

func (x *Exec) deepEqT(t *TInfo, a, b Value, d int) *Term {
	if d > 20 {
		panic(unsupported("DeepEqual depth"))
	}
	switch t.kind {
	case kIface:
		return x.deepEq(a, b, d+1)
	case kPtr:
		if sameValue(a, b) {
			return TTrue
		}
		if a.P == nil || b.P == nil {
			return TFalse
		}
		et := TI(t.T.Underlying().(*types.Pointer).Elem())
		return x.deepEqT(et, x.load(a, et), x.load(b, et), d+1)
	case kSlice:
		sa, _ := a.P.(*Slice)
		sb, _ := b.P.(*Slice)
		if (sa == nil) != (sb == nil) {
			return TFalse
		}
		if sa == nil {
			return TTrue
		}
		if sa.Len != sb.Len {
			return TFalse
		}
		r := TTrue
		es := t.elem.slots
		ca, cb := x.sliceCells(sa, es), x.sliceCells(sb, es)
		for i := 0; i < int(sa.Len); i++ {
			r = And(r, x.deepEqT(t.elem, regOf(t.elem, ca[i*es:(i+1)*es]), regOf(t.elem, cb[i*es:(i+1)*es]), d+1))
		}
		return r
	case kStruct:
		st := t.T.Underlying().(*types.Struct)
		av, bv := a.P.(*Agg).V, b.P.(*Agg).V
		r := TTrue
		for i := 0; i < st.NumFields(); i++ {
			ft := TI(st.Field(i).Type())
			o := t.offs[i]
			r = And(r, x.deepEqT(ft, regOf(ft, av[o:o+ft.slots]), regOf(ft, bv[o:o+ft.slots]), d+1))
		}
		return r
	case kArray:
		av, bv := a.P.(*Agg).V, b.P.(*Agg).V
		r := TTrue
		es := t.elem.slots
		for i := 0; i < t.alen; i++ {
			r = And(r, x.deepEqT(t.elem, regOf(t.elem, av[i*es:(i+1)*es]), regOf(t.elem, bv[i*es:(i+1)*es]), d+1))
		}
		return r
	case kMap:
		ma, ok1 := a.P.(MapRef)
		mb, ok2 := b.P.(MapRef)
		if ok1 != ok2 {
			return TFalse
		}
		if !ok1 {
			return TTrue
		}
		da, db := x.s.obj(ma.Obj).m, x.s.obj(mb.Obj).m
		if da.live != db.live {
			return TFalse
		}
		mt := t.T.Underlying().(*types.Map)
		r := TTrue
		for i := range da.keys {
			if da.dead[i] {
				continue
			}
			p := x.mapFind(db, TI(mt.Key()), da.keys[i])
			if p < 0 {
				return TFalse
			}
			r = And(r, x.deepEqT(TI(mt.Elem()), da.vals[i], db.vals[p], d+1))
		}
		return r
	case kFunc:
		return BoolT(a.P == nil && b.P == nil)
	}
	return x.eq(t, a, b)
}

// ---- fmt ----

// fmtVerbs lists the verb of each successive argument of a format ("*" for a width taken from the arguments).
func fmtVerbs(f string) string {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0 {
			if f[i] == '*' {
				out = append(out, '*')
			}
			i++
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return string(out)
}

// sprintf formats; symbolic text is spliced for plain %s/%v and anything else symbolic becomes opaque.
func (x *Exec) sprintf(f string, args []Value) Value {
	var r Value
	lit := func(s string) { r = strConcat(r, strV(s)) }
	ai := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			lit(f[i:])
			break
		}
		lit(f[i : i+j])
		i += j
		k := i + 1
		var star []any
		for k < len(f) && strings.IndexByte("+-# 0123456789.*", f[k]) >= 0 {
			if f[k] == '*' {
				if ai < len(args) {
					if n, ok := args[ai].P.(*Iface); ok {
						star = append(star, x.concInt(n.V))
					}
					ai++
				}
			}
			k++
		}
		if k >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := f[k]
		spec := f[i : k+1]
		i = k + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		plain := len(spec) == 2
		r = strConcat(r, x.fmtOne(spec, verb, plain, star, a))
	}
	if ai < len(args) {
		lit("%!(EXTRA ")
		for n, a := range args[ai:] {
			if n > 0 {
				lit(", ")
			}
			if ifc, ok := a.P.(*Iface); ok {
				lit(typeString(ifc.T.T) + "=")
			}
			r = strConcat(r, x.fmtOne("%v", 'v', true, nil, a))
		}
		lit(")")
	}
	return r
}

func (x *Exec) fmtOne(spec string, verb byte, plain bool, star []any, a Value) Value {
	ifc, ok := a.P.(*Iface)
	if !ok {
		if verb == 'T' || verb == 'v' {
			return strV(fmt.Sprintf(spec, append(star, nil)...))
		}
		return strV(fmt.Sprintf(spec, append(star, nil)...))
	}
	if verb == 'T' {
		return strV(fmt.Sprintf(strings.Replace(spec, "T", "s", 1), append(star, typeString(ifc.T.T))...))
	}
	if verb == 'p' {
		return strV("0xc000010000")
	}
	if ifc.T.kind == kString && plain && (verb == 's' || verb == 'v') {
		return ifc.V
	}
	nat, sym := x.native(ifc.T, ifc.V, verb == 'v' && strings.Contains(spec, "+"), 0)
	if sym != "" {
		if verb == 'q' || len(spec) > 2 {
			sym = spec + "(" + sym + ")"
		}
		return Value{P: &SymStr{Opaque: "«" + sym + "»"}}
	}
	if s, ok := nat.(rawText); ok {
		return strV(fmt.Sprintf(strings.Map(func(r rune) rune {
			if r == '+' || r == '#' {
				return -1
			}
			return r
		}, spec[:len(spec)-1])+"s", append(star, string(s))...))
	}
	return strV(fmt.Sprintf(spec, append(star, nat)...))
}

type rawText string

// native turns a concrete scalar into a Go value for formatting; composites become their %v text.
func (x *Exec) native(t *TInfo, v Value, plus bool, d int) (any, string) {
	if tm, ok := v.P.(*Term); ok {
		return nil, fmt.Sprintf("t%d", tm.id)
	}
	switch t.kind {
	case kBool:
		return v.N != 0, ""
	case kInt:
		if t.sgn {
			switch t.w {
			case 32:
				return int32(v.N), ""
			case 8:
				return int8(v.N), ""
			case 16:
				return int16(v.N), ""
			}
			return int64(v.N), ""
		}
		switch t.w {
		case 8:
			return uint8(v.N), ""
		}
		return v.N, ""
	case kFloat:
		if _, ok := v.P.(Opaque); ok {
			return nil, "float"
		}
		return fl(v), ""
	case kString:
		if s, ok := concStr(v); ok {
			return s, ""
		}
		return nil, opaqueTag(v)
	}
	if d > 4 {
		return rawText("..."), ""
	}
	sub := func(t *TInfo, v Value) (string, string) {
		n, sym := x.native(t, v, plus, d+1)
		if sym != "" {
			return "", sym
		}
		return fmt.Sprint(n), ""
	}
	switch t.kind {
	case kPtr, kUnsafe:
		if v.P == nil {
			return rawText("<nil>"), ""
		}
		et := TI(t.T.Underlying().(*types.Pointer).Elem())
		if d == 0 && (et.kind == kStruct || et.kind == kSlice || et.kind == kArray || et.kind == kMap) {
			if _, ok := v.P.(Ptr); ok {
				s, sym := sub(et, x.load(v, et))
				if sym != "" {
					return nil, sym
				}
				return rawText("&" + s), ""
			}
		}
		return rawText("0xc000010000"), ""
	case kFunc, kChan:
		if v.P == nil {
			return rawText("<nil>"), ""
		}
		return rawText("0x401000"), ""
	case kIface:
		i, ok := v.P.(*Iface)
		if !ok {
			return rawText("<nil>"), ""
		}
		return x.native(i.T, i.V, plus, d+1)
	case kSlice:
		s, _ := v.P.(*Slice)
		var parts []string
		if s != nil {
			cells := x.sliceCells(s, t.elem.slots)
			es := t.elem.slots
			for i := 0; i < int(s.Len); i++ {
				p, sym := sub(t.elem, regOf(t.elem, cells[i*es:(i+1)*es]))
				if sym != "" {
					return nil, sym
				}
				parts = append(parts, p)
			}
		}
		if t.elem.kind == kString && d == 0 {
			// keep %q working on []string
			if s != nil {
				var ss []string
				for _, c := range x.sliceCells(s, 1) {
					q, _ := concStr(c)
					ss = append(ss, q)
				}
				return ss, ""
			}
			return []string(nil), ""
		}
		return rawText("[" + strings.Join(parts, " ") + "]"), ""
	case kArray:
		var parts []string
		es := t.elem.slots
		for i := 0; i < t.alen; i++ {
			p, sym := sub(t.elem, regOf(t.elem, v.P.(*Agg).V[i*es:(i+1)*es]))
			if sym != "" {
				return nil, sym
			}
			parts = append(parts, p)
		}
		return rawText("[" + strings.Join(parts, " ") + "]"), ""
	case kStruct:
		st := t.T.Underlying().(*types.Struct)
		var parts []string
		for i := 0; i < st.NumFields(); i++ {
			ft := TI(st.Field(i).Type())
			o := t.offs[i]
			p, sym := sub(ft, regOf(ft, v.P.(*Agg).V[o:o+ft.slots]))
			if sym != "" {
				return nil, sym
			}
			if plus {
				p = st.Field(i).Name() + ":" + p
			}
			parts = append(parts, p)
		}
		return rawText("{" + strings.Join(parts, " ") + "}"), ""
	case kMap:
		m, ok := v.P.(MapRef)
		if !ok {
			return rawText("map[]"), ""
		}
		md := x.s.obj(m.Obj).m
		mt := t.T.Underlying().(*types.Map)
		var parts []string
		for i := range md.keys {
			if md.dead[i] {
				continue
			}
			k, s1 := sub(TI(mt.Key()), md.keys[i])
			w, s2 := sub(TI(mt.Elem()), md.vals[i])
			if s1+s2 != "" {
				return nil, s1 + s2
			}
			parts = append(parts, k+":"+w)
		}
		sort.Strings(parts)
		return rawText("map[" + strings.Join(parts, " ") + "]"), ""
	}
	return nil, "?" + t.T.String()
}

func durString(d int64) string {
	return strings.TrimSpace(strconv.Quote("")[:0] + goDur(d))
}

var _ *ssa.Function
