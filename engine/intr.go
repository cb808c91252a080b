package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Intrinsic replaces a function body.
type Intrinsic struct {
	name  string
	fn    func(c *Ctx) (Value, bool)
	model *ssa.Function
}

// Ctx is one intrinsic call.
type Ctx struct {
	x    *Exec
	args []Value
	dst  int
	fi   *FnInfo
}

var intrinsics = map[string]*Intrinsic{}

func reg(name string, fn func(c *Ctx) (Value, bool)) {
	intrinsics[name] = &Intrinsic{name: name, fn: fn}
}

// pure registers a function that always completes.
func pure(name string, fn func(c *Ctx) Value) {
	reg(name, func(c *Ctx) (Value, bool) { return fn(c), true })
}

func (x *Exec) callIntr(in *Intrinsic, args []Value, dst int, fi *FnInfo) {
	v, adv := in.fn(&Ctx{x: x, args: args, dst: dst, fi: fi})
	if adv {
		if dst >= 0 {
			x.set(int32(dst), v)
		} else {
			x.next()
		}
	}
}

// str fetches a concrete string argument.
func (c *Ctx) str(i int) string {
	return c.x.concString(c.args[i])
}

// concString forks over the values of a symbolic string.
func (x *Exec) concString(v Value) string {
	if s, ok := concStr(v); ok {
		return s
	}
	if isOpaque(v) {
		panic(unsupported("opaque string where a concrete one is needed: %s", opaqueTag(v)))
	}
	b := strBytes(v)
	bs := make([]byte, len(b))
	for i, c := range b {
		bs[i] = byte(x.concretize(c, 8))
	}
	return string(bs)
}

func (c *Ctx) int(i int) int { return c.x.concInt(c.args[i]) }

func tuple(vs ...Value) Value { return Value{P: &Agg{vs}} }

func (c *Ctx) variadic(i int) []Value {
	sl, _ := c.args[i].P.(*Slice)
	if sl == nil {
		return nil
	}
	o := c.x.s.obj(sl.Obj)
	return o.cells[sl.Off : int(sl.Off)+int(sl.Len)]
}

func (x *Exec) builtin(in *ins, f *Frame) (Value, bool) {
	arg := func(i int) Value { return f.val(&in.args[i]) }
	switch in.bi.Name() {
	case "len":
		v := arg(0)
		switch in.ti.kind {
		case kString:
			return intV(strLen(v)), true
		case kSlice:
			if s, ok := v.P.(*Slice); ok {
				return intV(int(s.Len)), true
			}
			return Value{}, true
		case kMap:
			if m, ok := v.P.(MapRef); ok {
				if x.s.raceOn {
					x.raceRead(m.Obj, -1)
				}
				return intV(x.s.obj(m.Obj).m.live), true
			}
			return Value{}, true
		case kChan:
			if c, ok := v.P.(ChanRef); ok {
				return intV(len(x.s.obj(c.Obj).ch.buf)), true
			}
			return Value{}, true
		case kArray:
			return intV(in.ti.alen), true
		case kPtr:
			return intV(TI(in.ti.T.Underlying().(*types.Pointer).Elem()).alen), true
		}
	case "cap":
		v := arg(0)
		switch in.ti.kind {
		case kSlice:
			if s, ok := v.P.(*Slice); ok {
				return intV(int(s.Cap)), true
			}
			return Value{}, true
		case kChan:
			if c, ok := v.P.(ChanRef); ok {
				return intV(x.s.obj(c.Obj).ch.cap), true
			}
			return Value{}, true
		case kArray:
			return intV(in.ti.alen), true
		case kPtr:
			return intV(TI(in.ti.T.Underlying().(*types.Pointer).Elem()).alen), true
		}
	case "append":
		return x.appendSlice(in.ti, in.ti2, arg(0), arg(1)), true
	case "copy":
		dst, _ := arg(0).P.(*Slice)
		if dst == nil {
			return Value{}, true
		}
		var src []Value
		esz := in.ti.elem.slots
		if in.ti2.kind == kString {
			src = strBytes(arg(1))
		} else {
			sl, _ := arg(1).P.(*Slice)
			src = x.sliceCells(sl, esz)
		}
		n := int(dst.Len) * esz
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			tmp := append([]Value(nil), src[:n]...)
			if x.s.raceOn {
				for i := range tmp {
					x.raceWrite(dst.Obj, dst.Off+int32(i))
				}
			}
			copy(x.s.wobj(dst.Obj).cells[dst.Off:], tmp)
		}
		if esz == 0 {
			return Value{}, true
		}
		return intV(n / esz), true
	case "delete":
		if m, ok := arg(0).P.(MapRef); ok {
			if x.s.raceOn {
				x.raceWrite(m.Obj, -1)
			}
			x.mapDelete(m.Obj, TI(in.ti.T.Underlying().(*types.Map).Key()), arg(1))
		}
		return Value{}, true
	case "clear":
		switch v := arg(0).P.(type) {
		case MapRef:
			x.s.wobj(v.Obj).m = newMapData()
		case *Slice:
			o := x.s.wobj(v.Obj)
			for i := 0; i < int(v.Len)*in.ti.elem.slots; i++ {
				o.cells[int(v.Off)+i] = Value{}
			}
		}
		return Value{}, true
	case "close":
		x.visible()
		x.chanClose(x.s.top().val(&in.args[0]))
		return Value{}, true
	case "panic":
		panic(sigThrow{val: arg(0)})
	case "recover":
		return x.recoverVal(), true
	case "print", "println":
		return Value{}, true
	case "min", "max":
		v := arg(0)
		for i := 1; i < len(in.args); i++ {
			w := arg(i)
			switch in.ti.kind {
			case kInt:
				p, q := asTerm(v, in.ti.w), asTerm(w, in.ti.w)
				lt := Ult(p, q)
				if in.ti.sgn {
					lt = Slt(p, q)
				}
				if in.bi.Name() == "min" {
					v = termV(Ite(lt, p, q))
				} else {
					v = termV(Ite(lt, q, p))
				}
			case kFloat:
				a, b := fl(v), fl(w)
				if in.bi.Name() == "min" {
					v = floatV(math.Min(a, b))
				} else {
					v = floatV(math.Max(a, b))
				}
			default:
				panic(unsupported("min/max of %v", in.ti.T))
			}
		}
		return v, true
	case "ssa:wrapnilchk":
		if arg(0).P == nil {
			x.throw("value method called using nil pointer")
		}
		return arg(0), true
	case "String": // unsafe.String(ptr, len)
		n := x.concInt(arg(1))
		if n == 0 {
			return Value{}, true
		}
		p := arg(0).P.(Ptr)
		o := x.s.obj(p.Obj)
		return mkStr(append([]Value(nil), o.cells[p.Off:int(p.Off)+n]...)), true
	case "StringData":
		b := strBytes(arg(0))
		if len(b) == 0 {
			return Value{}, true
		}
		id := x.s.alloc(&Obj{cells: append([]Value(nil), b...), el: TI(types.Typ[types.Uint8])})
		return Value{P: Ptr{Obj: id}}, true
	case "SliceData":
		s, ok := arg(0).P.(*Slice)
		if !ok {
			return Value{}, true
		}
		return Value{P: Ptr{s.Obj, s.Off}}, true
	case "Slice": // unsafe.Slice
		n := x.concInt(arg(1))
		p, ok := arg(0).P.(Ptr)
		if !ok {
			return Value{}, true
		}
		return Value{P: &Slice{Obj: p.Obj, Off: p.Off, Len: int32(n), Cap: int32(n)}}, true
	}
	panic(unsupported("builtin %s on %v", in.bi.Name(), in.ti.T))
}

func (x *Exec) appendSlice(ti, ti2 *TInfo, a, b Value) Value {
	esz := ti.elem.slots
	var add []Value
	n := 0
	if ti2 != nil && ti2.kind == kString {
		add = strBytes(b)
		n = len(add)
	} else {
		sl, _ := b.P.(*Slice)
		add = x.sliceCells(sl, esz)
		if sl != nil {
			n = int(sl.Len)
		}
	}
	if n == 0 {
		return a
	}
	s, isS := a.P.(*Slice)
	if !isS && a.P != nil {
		panic(unsupported("append to opaque buffer"))
	}
	if s != nil && int(s.Len)+n <= int(s.Cap) {
		tmp := append([]Value(nil), add...)
		if x.s.raceOn {
			for i := range tmp {
				x.raceWrite(s.Obj, s.Off+int32(int(s.Len)*esz+i))
			}
		}
		o := x.s.wobj(s.Obj)
		copy(o.cells[int(s.Off)+int(s.Len)*esz:], tmp)
		return Value{P: &Slice{Obj: s.Obj, Off: s.Off, Len: s.Len + int32(n), Cap: s.Cap}}
	}
	oldLen := 0
	var old []Value
	if s != nil {
		oldLen = int(s.Len)
		old = x.sliceCells(s, esz)
	}
	need := oldLen + n
	cp := growCap(oldCap(s), need, ti.elem)
	cells := make([]Value, cp*esz)
	copy(cells, old)
	copy(cells[oldLen*esz:], add)
	id := x.s.alloc(&Obj{cells: cells, el: ti.elem})
	return Value{P: &Slice{Obj: id, Len: int32(need), Cap: int32(cp)}}
}

func oldCap(s *Slice) int {
	if s == nil {
		return 0
	}
	return int(s.Cap)
}

// growCap follows the runtime's growth rule (including size-class rounding for the common element sizes), because
// programs can observe aliasing through spare capacity.
func growCap(old, need int, el *TInfo) int {
	newcap := old
	if need > 2*old {
		newcap = need
	} else if old < 256 {
		newcap = 2 * old
	} else {
		for newcap < need {
			newcap += (newcap + 3*256) / 4
		}
	}
	sz := int(stdSizes.Sizeof(el.T))
	if sz == 0 {
		return newcap
	}
	return roundupsize(newcap*sz) / sz
}

var stdSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

// ---- vf primitives ----

func (x *Exec) inputName(name string) string {
	return fmt.Sprintf("%s#%d", name, x.s.nextName(name))
}

func boundedVar(name string, w uint8, lo, hi uint64) *Term {
	t := NewVar(fmt.Sprintf("%s[%d..%d]", name, lo, hi), w)
	v := t.vars[0]
	varTab.mu.Lock()
	v.lo, v.hi = lo, hi
	varTab.mu.Unlock()
	return t
}

const vfp = "github.com/onsi/ginkgo/v2/internal/vf."

func init() {
	pure(vfp+"Tier", func(c *Ctx) Value { return intV(c.x.e.tier) })
	pure(vfp+"Bool", func(c *Ctx) Value {
		n := c.x.inputName(c.str(0))
		return Value{P: NewVar(n, 0)}
	})
	pure(vfp+"Int", func(c *Ctx) Value {
		n := c.x.inputName(c.str(0))
		lo, hi := int64(c.args[1].N), int64(c.args[2].N)
		if lo == hi {
			return Value{N: uint64(lo)}
		}
		if lo >= 0 {
			w := uint8(1)
			for w < 64 && mask(w) < uint64(hi) {
				w++
			}
			t := boundedVar(n, w, uint64(lo), uint64(hi))
			if lo > 0 {
				c.x.s.model = mergeModel(c.x.s.model, Model{t.vars[0].id: uint64(lo)})
			}
			return termV(ZExt(t, 64))
		}
		t := NewVar(n, 64)
		c.x.assume(And(Not(Slt(t, BV(uint64(lo), 64))), Not(Slt(BV(uint64(hi), 64), t))))
		return termV(t)
	})
	pure(vfp+"Byte", func(c *Ctx) Value { return termV(NewVar(c.x.inputName(c.str(0)), 8)) })
	pure(vfp+"Uint64", func(c *Ctx) Value { return termV(NewVar(c.x.inputName(c.str(0)), 64)) })
	pure(vfp+"Int64", func(c *Ctx) Value { return termV(NewVar(c.x.inputName(c.str(0)), 64)) })
	pure(vfp+"Pick", func(c *Ctx) Value {
		hi := uint64(c.args[1].N) - 1
		nm := c.x.inputName(c.str(0))
		if hi == 0 {
			return Value{}
		}
		w := uint8(1)
		for w < 64 && mask(w) < hi {
			w++
		}
		t := boundedVar(nm, w, 0, hi)
		return termV(ZExt(t, 64))
	})
	pure(vfp+"Seed", func(c *Ctx) Value { return Value{P: NewVar("seed:"+c.x.inputName(c.str(0)), 64)} })
	pure(vfp+"Assertf", func(c *Ctx) Value {
		x := c.x
		t := asTerm(c.args[0], 0)
		if t == TTrue {
			x.e.noteAssert(c.str(1))
			x.e.noteTrivial()
			return Value{}
		}
		x.assert(t, c.str(1))
		return Value{}
	})
	pure(vfp+"isNilPtr", func(c *Ctx) Value {
		i, ok := c.args[0].P.(*Iface)
		return boolV(ok && i.T.kind == kPtr && i.V.P == nil)
	})
	pure(vfp+"Concrete", func(c *Ctx) Value { return Value{N: c.x.concretize(c.args[0], 64)} })
	pure(vfp+"String", func(c *Ctx) Value {
		name, mx, alpha := c.str(0), int(c.args[1].N), c.str(2)
		n := c.x.choose("in:"+name+".len", mx+1)
		return c.x.symString(name, n, alpha)
	})
	pure(vfp+"StringN", func(c *Ctx) Value {
		return c.x.symString(c.str(0), int(c.args[1].N), c.str(2))
	})
	reg(vfp+"Assume", func(c *Ctx) (Value, bool) {
		c.x.assume(asTerm(c.args[0], 0))
		return Value{}, true
	})
	reg(vfp+"Assert", func(c *Ctx) (Value, bool) {
		msg := opaqueTag(c.args[1])
		c.x.assert(asTerm(c.args[0], 0), msg)
		return Value{}, true
	})
	pure(vfp+"Reach", func(c *Ctx) Value {
		c.x.s.reach(c.str(0))
		return Value{}
	})
	pure(vfp+"Observe", func(c *Ctx) Value {
		v := c.args[1]
		if i, ok := v.P.(*Iface); ok {
			v = i.V
		}
		c.x.s.obs = append(c.x.s.obs[:len(c.x.s.obs):len(c.x.s.obs)], obsRec{c.str(0), c.args[1]})
		return Value{}
	})
	pure(vfp+"And", func(c *Ctx) Value { return termV(And(asTerm(c.args[0], 0), asTerm(c.args[1], 0))) })
	pure(vfp+"Or", func(c *Ctx) Value { return termV(Or(asTerm(c.args[0], 0), asTerm(c.args[1], 0))) })
	pure(vfp+"Implies", func(c *Ctx) Value { return termV(Or(Not(asTerm(c.args[0], 0)), asTerm(c.args[1], 0))) })
	pure(vfp+"Iff", func(c *Ctx) Value { return termV(Eq(asTerm(c.args[0], 0), asTerm(c.args[1], 0))) })
	pure(vfp+"IteInt", func(c *Ctx) Value {
		return termV(Ite(asTerm(c.args[0], 0), asTerm(c.args[1], 64), asTerm(c.args[2], 64)))
	})
	pure(vfp+"IteBool", func(c *Ctx) Value {
		return termV(Ite(asTerm(c.args[0], 0), asTerm(c.args[1], 0), asTerm(c.args[2], 0)))
	})
	pure(vfp+"EqStr", func(c *Ctx) Value { return termV(strEq(c.args[0], c.args[1])) })
	pure(vfp+"Schedules", func(c *Ctx) Value {
		c.x.s.sched = int(c.args[0].N)
		c.x.s.preempts = int(c.args[1].N)
		return Value{}
	})
	pure(vfp+"Races", func(c *Ctx) Value {
		on := c.args[0].N != 0
		c.x.s.raceOn = on
		if on {
			g := c.x.s.wg(c.x.s.cur)
			g.vc.set(g.id, 1)
		}
		return Value{}
	})
	pure(vfp+"RaceCount", func(c *Ctx) Value { return intV(len(c.x.s.races)) })
	pure(vfp+"RaceReport", func(c *Ctx) Value { return strV(strings.Join(c.x.s.races, "; ")) })
	pure(vfp+"MapOrder", func(c *Ctx) Value { c.x.s.mapOrd = c.args[0].N != 0; return Value{} })
	pure(vfp+"Engine", func(c *Ctx) Value { return boolV(true) })
	pure(vfp+"fmtVerbs", func(c *Ctx) Value { return strV(fmtVerbs(c.str(0))) })
	pure(vfp+"sprintf", func(c *Ctx) Value { return c.x.sprintf(c.str(0), c.variadic(1)) })
	pure(vfp+"NowNanos", func(c *Ctx) Value { return termV(c.x.s.now) })
	pure(vfp+"Exit", func(c *Ctx) Value { c.x.kill("exit"); return Value{} })
	pure(vfp+"Log", func(c *Ctx) Value {
		if os.Getenv("GOSYM_LOG") != "" {
			fmt.Fprintln(os.Stderr, "LOG", fmtValue(c.args[0]))
		}
		return Value{}
	})
	pure(vfp+"Wall", func(c *Ctx) Value { c.x.s.setExt("u:wall", c.args[0]); return Value{} })
	pure(vfp+"setExt", func(c *Ctx) Value { c.x.s.setExt("u:"+c.str(0), c.args[1]); return Value{} })
	pure(vfp+"getExt", func(c *Ctx) Value { return c.x.s.ext["u:"+c.str(0)] })
	pure(vfp+"swapElems", func(c *Ctx) Value { // (slice any, i, j)
		i := c.args[0].P.(*Iface)
		sl, _ := i.V.P.(*Slice)
		p, q := c.int(1), c.int(2)
		esz := i.T.elem.slots
		o := c.x.s.wobj(sl.Obj)
		for k := 0; k < esz; k++ {
			a, b := int(sl.Off)+p*esz+k, int(sl.Off)+q*esz+k
			o.cells[a], o.cells[b] = o.cells[b], o.cells[a]
		}
		return Value{}
	})
	pure(vfp+"sliceLen", func(c *Ctx) Value {
		i, ok := c.args[0].P.(*Iface)
		if !ok {
			return Value{}
		}
		sl, _ := i.V.P.(*Slice)
		if sl == nil {
			return Value{}
		}
		return intV(int(sl.Len))
	})
}

func (x *Exec) symString(name string, n int, alpha string) Value {
	bs := make([]Value, n)
	base := x.inputName(name)
	for i := range bs {
		t := NewVar(fmt.Sprintf("%s.%d", base, i), 8)
		if alpha != "" {
			c := TFalse
			for k := 0; k < len(alpha); k++ {
				c = Or(c, Eq(t, BV(uint64(alpha[k]), 8)))
			}
			x.assumeNew(c, t, uint64(alpha[0]))
		}
		bs[i] = Value{P: t}
	}
	return mkStr(bs)
}

// assumeNew constrains a fresh variable, for which val is known to satisfy c.
func (x *Exec) assumeNew(c *Term, v *Term, val uint64) {
	x.s.addPC(c)
	x.s.model = mergeModel(x.s.model, Model{v.vars[0].id: val})
}

func (x *Exec) assume(c *Term) {
	if c == TFalse {
		x.kill("assume")
	}
	if c == TTrue {
		return
	}
	if v, ok := x.known(c); ok {
		if !v {
			x.kill("assume")
		}
		return
	}
	if c.Eval(x.s.model, map[*Term]uint64{}) == 1 {
		x.s.addPC(c)
		return
	}
	res, m := x.feasible(c)
	switch res {
	case Unsat:
		x.kill("assume")
	case Unknown:
		panic(unsupported("solver unknown on an assumption"))
	}
	x.s.model = mergeModel(x.s.model, m)
	x.s.addPC(c)
}

func (x *Exec) assert(c *Term, msg string) {
	x.e.noteAssert(msg)
	if c == TTrue {
		x.e.noteTrivial()
		return
	}
	if v, ok := x.known(c); ok && v {
		x.e.noteTrivial()
		return
	}
	res, m := Unknown, Model(nil)
	if c == TFalse || c.Eval(x.s.model, map[*Term]uint64{}) == 0 {
		res, m = Sat, x.s.model
	} else {
		res, m = x.feasible(Not(c))
		x.e.noteObligation(res)
	}
	switch res {
	case Unsat:
		x.s.addPC(c)
		return
	case Unknown:
		panic(unsupported("solver unknown on assertion: %s", msg))
	}
	full := mergeModel(x.s.model, m)
	x.e.violation(x, msg, full, Not(c))
	// continue where it holds
	if c == TFalse {
		x.kill("assert")
	}
	x.assume(c)
}

// ---- models of the run-time library ----

func init() {
	noop := func(c *Ctx) Value { return Value{} }
	// strings and bytes kernels written in assembly
	pure("internal/bytealg.IndexByteString", func(c *Ctx) Value { return c.x.indexByte(strBytes(c.args[0]), c.args[1]) })
	pure("internal/bytealg.IndexByte", func(c *Ctx) Value { return c.x.indexByte(c.x.bytesOf(c.args[0]), c.args[1]) })
	pure("internal/bytealg.LastIndexByteString", func(c *Ctx) Value { return c.x.lastIndexByte(strBytes(c.args[0]), c.args[1]) })
	pure("internal/bytealg.LastIndexByte", func(c *Ctx) Value { return c.x.lastIndexByte(c.x.bytesOf(c.args[0]), c.args[1]) })
	pure("internal/bytealg.CountString", func(c *Ctx) Value { return c.x.countByte(strBytes(c.args[0]), c.args[1]) })
	pure("internal/bytealg.Count", func(c *Ctx) Value { return c.x.countByte(c.x.bytesOf(c.args[0]), c.args[1]) })
	pure("internal/bytealg.Equal", func(c *Ctx) Value {
		return termV(strEq(mkStr(c.x.bytesOf(c.args[0])), mkStr(c.x.bytesOf(c.args[1]))))
	})
	pure("bytes.Equal", func(c *Ctx) Value {
		return termV(strEq(mkStr(c.x.bytesOf(c.args[0])), mkStr(c.x.bytesOf(c.args[1]))))
	})
	pure("internal/bytealg.Compare", func(c *Ctx) Value {
		return c.x.cmpStr(mkStr(c.x.bytesOf(c.args[0])), mkStr(c.x.bytesOf(c.args[1])))
	})
	pure("internal/bytealg.CompareString", func(c *Ctx) Value { return c.x.cmpStr(c.args[0], c.args[1]) })
	pure("internal/bytealg.IndexString", func(c *Ctx) Value { return c.x.indexStr(strBytes(c.args[0]), strBytes(c.args[1])) })
	pure("internal/bytealg.Index", func(c *Ctx) Value {
		return c.x.indexStr(c.x.bytesOf(c.args[0]), c.x.bytesOf(c.args[1]))
	})
	pure("strings.Index", func(c *Ctx) Value { return c.x.indexStr(strBytes(c.args[0]), strBytes(c.args[1])) })
	pure("strings.IndexByte", func(c *Ctx) Value { return c.x.indexByte(strBytes(c.args[0]), c.args[1]) })
	pure("strings.HasPrefix", func(c *Ctx) Value {
		if isOpaque(c.args[0]) {
			if p, ok := concStr(c.args[1]); ok {
				if strings.HasPrefix(opaqueTag(c.args[0]), p) && !strings.Contains(p, "«") {
					return boolV(true)
				}
			}
		}
		n, m := strLen(c.args[0]), strLen(c.args[1])
		if m > n {
			return boolV(false)
		}
		return termV(strEq(subStr(c.args[0], 0, m), c.args[1]))
	})
	pure("strings.HasSuffix", func(c *Ctx) Value {
		n, m := strLen(c.args[0]), strLen(c.args[1])
		if m > n {
			return boolV(false)
		}
		return termV(strEq(subStr(c.args[0], n-m, n), c.args[1]))
	})
	pure("strings.ToLower", func(c *Ctx) Value { return c.x.mapCase(c.args[0], false) })
	pure("strings.ToUpper", func(c *Ctx) Value { return c.x.mapCase(c.args[0], true) })
	pure("strings.Repeat", func(c *Ctx) Value {
		n := c.int(1)
		if n < 0 {
			c.x.throw("strings: negative Repeat count")
		}
		if s, ok := concStr(c.args[0]); ok {
			return strV(strings.Repeat(s, n))
		}
		var r Value
		for i := 0; i < n; i++ {
			r = strConcat(r, c.args[0])
		}
		return r
	})
	pure("strings.Clone", func(c *Ctx) Value { return c.args[0] })
	pure("internal/stringslite.Clone", func(c *Ctx) Value { return c.args[0] })
	pure("strings.Contains", func(c *Ctx) Value {
		if isOpaque(c.args[0]) {
			if p, ok := concStr(c.args[1]); ok && strings.Contains(opaqueTag(c.args[0]), p) {
				return boolV(true)
			}
		}
		return termV(c.x.containsTerm(strBytes(c.args[0]), strBytes(c.args[1])))
	})
	pure("strings.Join", func(c *Ctx) Value {
		var r Value
		for i, v := range c.variadic(0) {
			if i > 0 {
				r = strConcat(r, c.args[1])
			}
			r = strConcat(r, v)
		}
		return r
	})
	pure("internal/bytealg.MakeNoZero", func(c *Ctx) Value {
		n := c.int(0)
		return c.x.newSlice(TI(types.Typ[types.Uint8]), make([]Value, n))
	})
	pure("internal/abi.NoEscape", func(c *Ctx) Value { return c.args[0] })
	pure("internal/abi.Escape", func(c *Ctx) Value { return c.args[0] })
	pure("(*strings.Builder).copyCheck", noop)
	pure("(*strings.Builder).String", func(c *Ctx) Value {
		p := c.args[0].P.(Ptr)
		o := c.x.s.obj(p.Obj)
		v := o.cells[int(p.Off)+1]
		if ext, ok := v.P.(*SymStr); ok {
			return Value{P: ext}
		}
		sl, _ := v.P.(*Slice)
		return mkStr(append([]Value(nil), c.x.sliceCells(sl, 1)...))
	})
	pure("(*strings.Builder).WriteString", func(c *Ctx) Value {
		p, ok := c.args[0].P.(Ptr)
		if !ok {
			c.x.throw("runtime error: invalid memory address or nil pointer dereference")
		}
		o := c.x.s.obj(p.Obj)
		v := o.cells[int(p.Off)+1]
		if isOpaque(c.args[1]) || func() bool { _, ok := v.P.(*SymStr); return ok }() {
			// the buffer is replaced by an opaque text
			var cur Value
			if s, ok := v.P.(*Slice); ok {
				cur = mkStr(append([]Value(nil), c.x.sliceCells(s, 1)...))
			} else if v.P != nil {
				cur = v
			}
			r := strConcat(cur, c.args[1])
			c.x.s.wobj(p.Obj).cells[int(p.Off)+1] = r
			return tuple(Value{}, Value{})
		}
		bt := TI(types.NewSlice(types.Typ[types.Uint8]))
		r := c.x.appendSlice(bt, TI(types.Typ[types.String]), v, c.args[1])
		c.x.s.wobj(p.Obj).cells[int(p.Off)+1] = r
		return tuple(intV(strLen(c.args[1])), Value{})
	})
	// unicode fast paths
	for name, f := range map[string]func(rune) bool{"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsPrint": unicode.IsPrint} {
		f := f
		pure(name, func(c *Ctx) Value {
			if c.args[0].P == nil {
				return boolV(f(rune(int32(c.args[0].N))))
			}
			t := c.args[0].P.(*Term)
			x := c.x
			if x.decide(Ult(t, BV(0x100, 32))) {
				r := TFalse
				for i := 0; i < 256; {
					if !f(rune(i)) {
						i++
						continue
					}
					j := i
					for j < 256 && f(rune(j)) {
						j++
					}
					lo, hi := uint64(i), uint64(j-1)
					in := Eq(t, BV(lo, 32))
					if hi > lo {
						in = And(Not(Ult(t, BV(lo, 32))), Not(Ult(BV(hi, 32), t)))
					}
					r = Or(r, in)
					i = j
				}
				return termV(r)
			}
			return boolV(f(rune(int32(x.concretize(c.args[0], 32)))))
		})
	}
	for name, f := range map[string]func(rune) rune{"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper} {
		f := f
		pure(name, func(c *Ctx) Value {
			if c.args[0].P == nil {
				return Value{N: uint64(uint32(f(rune(int32(c.args[0].N)))))}
			}
			t := c.args[0].P.(*Term)
			if c.x.decide(Ult(t, BV(0x80, 32))) {
				if f('a') == 'A' {
					return termV(Ite(And(Not(Ult(t, BV('a', 32))), Not(Ult(BV('z', 32), t))), Bin(OSub, t, BV(32, 32)), t))
				}
				return termV(Ite(And(Not(Ult(t, BV('A', 32))), Not(Ult(BV('Z', 32), t))), Bin(OAdd, t, BV(32, 32)), t))
			}
			return Value{N: uint64(uint32(f(rune(int32(c.x.concretize(c.args[0], 32))))))}
		})
	}
	// strconv on concrete values
	pure("strconv.Itoa", func(c *Ctx) Value { return c.x.itoa(c.args[0]) })
	pure("strconv.FormatFloat", func(c *Ctx) Value {
		if _, ok := c.args[0].P.(Opaque); ok {
			return Value{P: &SymStr{Opaque: "«float»"}}
		}
		return strV(strconv.FormatFloat(fl(c.args[0]), byte(c.args[1].N), int(int64(c.args[2].N)), int(c.args[3].N)))
	})
	pure("strconv.ParseFloat", func(c *Ctx) Value {
		f, err := strconv.ParseFloat(c.str(0), int(c.args[1].N))
		if err != nil {
			return tuple(floatV(f), c.x.goError(err.Error()))
		}
		return tuple(floatV(f), Value{})
	})
	pure("strconv.Quote", func(c *Ctx) Value {
		if s, ok := concStr(c.args[0]); ok {
			return strV(strconv.Quote(s))
		}
		return Value{P: &SymStr{Opaque: "quote(" + opaqueTag(c.args[0]) + ")"}}
	})
	// os
	pure("os.Environ", func(c *Ctx) Value { return Value{} })
	pure("os.Getpid", func(c *Ctx) Value { return intV(4242) })
	pure(vfp+"exitNow", func(c *Ctx) Value {
		c.x.s.reach(fmt.Sprintf("os.Exit(%s)", fmtValue(c.args[0])))
		c.x.kill("exit")
		return Value{}
	})
	pure("os.runtime_args", func(c *Ctx) Value { return Value{} })
	pure("os/signal.Reset", noop)
	pure("os/signal.Ignore", noop)
	// runtime
	pure("runtime.Gosched", func(c *Ctx) Value { c.x.visible(); return Value{} })
	pure("runtime.GC", noop)
	pure("runtime.KeepAlive", noop)
	pure("runtime.SetFinalizer", noop)
	pure("runtime.NumCPU", func(c *Ctx) Value { return intV(4) })
	pure("runtime.NumGoroutine", func(c *Ctx) Value { return intV(1) })
	pure("runtime.GOMAXPROCS", func(c *Ctx) Value { return intV(4) })
	pure("runtime.GOROOT", func(c *Ctx) Value { return strV("/vf/go") })
	pure("runtime.Version", func(c *Ctx) Value { return strV("go1.24") })
	pure("runtime/debug.SetGCPercent", func(c *Ctx) Value { return intV(100) })
	reg("runtime.Goexit", func(c *Ctx) (Value, bool) { panic(sigThrow{goexit: true}) })
	pure("runtime/pprof.StartCPUProfile", noop)
	// hashes etc.
	pure("internal/runtime/sys.Bswap64", func(c *Ctx) Value { panic(unsupported("bswap")) })
	pure("math.Float64bits", func(c *Ctx) Value { return Value{N: math.Float64bits(fl(c.args[0]))} })
	pure("math.Float64frombits", func(c *Ctx) Value { return Value{N: c.args[0].N} })
	pure("math.Float32bits", func(c *Ctx) Value { return Value{N: uint64(math.Float32bits(float32(fl(c.args[0]))))} })
	for n, f := range map[string]func(float64) float64{"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Sqrt": math.Sqrt, "math.Trunc": math.Trunc, "math.Abs": math.Abs, "math.Log": math.Log, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Round": math.Round, "math.Exp": math.Exp} {
		f := f
		pure(n, func(c *Ctx) Value { return floatV(f(fl(c.args[0]))) })
	}
	pure("math.Max", func(c *Ctx) Value { return floatV(math.Max(fl(c.args[0]), fl(c.args[1]))) })
	pure("math.Min", func(c *Ctx) Value { return floatV(math.Min(fl(c.args[0]), fl(c.args[1]))) })
	pure("math.Pow", func(c *Ctx) Value { return floatV(math.Pow(fl(c.args[0]), fl(c.args[1]))) })
	// regexp
	pure("regexp.MustCompile", func(c *Ctx) Value {
		s := c.str(0)
		re, err := regexp.Compile(s)
		if err != nil {
			c.x.throw("regexp: Compile(" + strconv.Quote(s) + "): " + err.Error())
		}
		return c.x.mkRegexp(re)
	})
	pure("regexp.Compile", func(c *Ctx) Value {
		re, err := regexp.Compile(c.str(0))
		if err != nil {
			return tuple(Value{}, c.x.goError(err.Error()))
		}
		return tuple(c.x.mkRegexp(re), Value{})
	})
	pure("regexp.QuoteMeta", func(c *Ctx) Value { return strV(regexp.QuoteMeta(c.str(0))) })
	pure("(*regexp.Regexp).String", func(c *Ctx) Value { return c.x.reSource(c.args[0]) })
	match := func(c *Ctx, text Value) Value {
		if c.args[0].P == nil {
			c.x.throw("runtime error: invalid memory address or nil pointer dereference")
		}
		return c.x.reMatch(c.args[0], text)
	}
	pure("(*regexp.Regexp).MatchString", func(c *Ctx) Value { return match(c, c.args[1]) })
	pure("(*regexp.Regexp).Match", func(c *Ctx) Value {
		return match(c, mkStr(append([]Value(nil), c.x.bytesOf(c.args[1])...)))
	})
	pure("(*regexp.Regexp).ReplaceAllString", func(c *Ctx) Value {
		return strV(c.x.re(c.args[0]).ReplaceAllString(c.str(1), c.str(2)))
	})
	pure("(*regexp.Regexp).FindStringSubmatch", func(c *Ctx) Value {
		m := c.x.re(c.args[0]).FindStringSubmatch(c.str(1))
		if m == nil {
			return Value{}
		}
		var vs []Value
		for _, s := range m {
			vs = append(vs, strV(s))
		}
		return c.x.newSlice(TI(types.Typ[types.String]), vs)
	})
	pure("(*regexp.Regexp).FindAllStringSubmatch", func(c *Ctx) Value {
		m := c.x.re(c.args[0]).FindAllStringSubmatch(c.str(1), c.int(2))
		if m == nil {
			return Value{}
		}
		var outer []Value
		for _, sm := range m {
			var vs []Value
			for _, s := range sm {
				vs = append(vs, strV(s))
			}
			outer = append(outer, c.x.newSlice(TI(types.Typ[types.String]), vs))
		}
		return c.x.newSlice(TI(types.NewSlice(types.Typ[types.String])), outer)
	})
	pure("(*regexp.Regexp).FindAllString", func(c *Ctx) Value {
		m := c.x.re(c.args[0]).FindAllString(c.str(1), c.int(2))
		if m == nil {
			return Value{}
		}
		var vs []Value
		for _, s := range m {
			vs = append(vs, strV(s))
		}
		return c.x.newSlice(TI(types.Typ[types.String]), vs)
	})
	pure("(*regexp.Regexp).FindAllStringIndex", func(c *Ctx) Value {
		m := c.x.re(c.args[0]).FindAllStringIndex(c.str(1), c.int(2))
		if m == nil {
			return Value{}
		}
		var vs []Value
		for _, ix := range m {
			vs = append(vs, c.x.newSlice(TI(types.Typ[types.Int]), []Value{intV(ix[0]), intV(ix[1])}))
		}
		return c.x.newSlice(TI(types.NewSlice(types.Typ[types.Int])), vs)
	})
	pure("(*regexp.Regexp).FindStringIndex", func(c *Ctx) Value {
		m := c.x.re(c.args[0]).FindStringIndex(c.str(1))
		if m == nil {
			return Value{}
		}
		return c.x.newSlice(TI(types.Typ[types.Int]), []Value{intV(m[0]), intV(m[1])})
	})
	_ = debug.Stack
}

func (x *Exec) bytesOf(v Value) []Value {
	sl, _ := v.P.(*Slice)
	return x.sliceCells(sl, 1)
}

func (x *Exec) indexByte(b []Value, c Value) Value {
	ct := asTerm(c, 8)
	for i := range b {
		if x.decide(Eq(asTerm(b[i], 8), ct)) {
			return intV(i)
		}
	}
	return intV(-1)
}

func (x *Exec) lastIndexByte(b []Value, c Value) Value {
	ct := asTerm(c, 8)
	for i := len(b) - 1; i >= 0; i-- {
		if x.decide(Eq(asTerm(b[i], 8), ct)) {
			return intV(i)
		}
	}
	return intV(-1)
}

func (x *Exec) countByte(b []Value, c Value) Value {
	ct := asTerm(c, 8)
	r := BV(0, 64)
	for i := range b {
		r = Bin(OAdd, r, Ite(Eq(asTerm(b[i], 8), ct), BV(1, 64), BV(0, 64)))
	}
	return termV(r)
}

func (x *Exec) cmpStr(a, b Value) Value {
	if x.decide(strEq(a, b)) {
		return Value{}
	}
	if x.decide(strLt(a, b)) {
		return intV(-1)
	}
	return intV(1)
}

func matchAt(b, sub []Value, i int) *Term {
	r := TTrue
	for k := range sub {
		r = And(r, Eq(asTerm(b[i+k], 8), asTerm(sub[k], 8)))
		if r == TFalse {
			return r
		}
	}
	return r
}

func (x *Exec) indexStr(b, sub []Value) Value {
	for i := 0; i+len(sub) <= len(b); i++ {
		if x.decide(matchAt(b, sub, i)) {
			return intV(i)
		}
	}
	return intV(-1)
}

func (x *Exec) containsTerm(b, sub []Value) *Term {
	r := TFalse
	for i := 0; i+len(sub) <= len(b); i++ {
		r = Or(r, matchAt(b, sub, i))
		if r == TTrue {
			return r
		}
	}
	return r
}

func (x *Exec) mapCase(v Value, up bool) Value {
	if s, ok := concStr(v); ok {
		if up {
			return strV(strings.ToUpper(s))
		}
		return strV(strings.ToLower(s))
	}
	if isOpaque(v) {
		t := opaqueTag(v)
		return Value{P: &SymStr{Opaque: fmt.Sprintf("case%v(%s)", up, t)}}
	}
	b := strBytes(v)
	// all-ASCII fast path
	asc := TTrue
	for _, c := range b {
		asc = And(asc, Ult(asTerm(c, 8), BV(0x80, 8)))
	}
	if x.decide(asc) {
		out := make([]Value, len(b))
		for i, c := range b {
			t := asTerm(c, 8)
			if up {
				out[i] = termV(Ite(And(Not(Ult(t, BV('a', 8))), Not(Ult(BV('z', 8), t))), Bin(OSub, t, BV(32, 8)), t))
			} else {
				out[i] = termV(Ite(And(Not(Ult(t, BV('A', 8))), Not(Ult(BV('Z', 8), t))), Bin(OAdd, t, BV(32, 8)), t))
			}
		}
		return mkStr(out)
	}
	// concretize the non-ASCII case byte by byte
	bs := make([]byte, len(b))
	for i, c := range b {
		bs[i] = byte(x.concretize(c, 8))
	}
	if up {
		return strV(strings.ToUpper(string(bs)))
	}
	return strV(strings.ToLower(string(bs)))
}

func (x *Exec) itoa(v Value) Value {
	if v.P == nil {
		return strV(strconv.FormatInt(int64(v.N), 10))
	}
	t := v.P.(*Term)
	return Value{P: &SymStr{Opaque: fmt.Sprintf("«int:%d»", t.id)}}
}

// goError builds an error value with the given text.
func (x *Exec) goError(msg string) Value {
	id := x.s.alloc(&Obj{cells: []Value{strV(msg)}})
	return Value{P: &Iface{T: x.e.errString, V: Value{P: Ptr{Obj: id}}}}
}

// ---- regexp ----

type reObj struct{ re *regexp.Regexp }

func (x *Exec) mkRegexp(re *regexp.Regexp) Value {
	id := x.s.alloc(&Obj{cells: []Value{{P: &reObj{re}}}})
	return Value{P: Ptr{Obj: id}}
}

func (x *Exec) symRegexp(src Value) Value {
	id := x.s.alloc(&Obj{cells: []Value{src}})
	return Value{P: Ptr{Obj: id}}
}

func (x *Exec) re(v Value) *regexp.Regexp {
	p, ok := v.P.(Ptr)
	if !ok {
		x.throw("runtime error: invalid memory address or nil pointer dereference")
	}
	r, ok := x.s.obj(p.Obj).cells[p.Off].P.(*reObj)
	if !ok {
		panic(unsupported("operation on symbolic regexp"))
	}
	return r.re
}

func (x *Exec) reSource(v Value) Value {
	p := v.P.(Ptr)
	if r, ok := x.s.obj(p.Obj).cells[p.Off].P.(*reObj); ok {
		return strV(r.re.String())
	}
	return x.s.obj(p.Obj).cells[p.Off]
}

// reMatch: native when everything is concrete; literal patterns become containment terms.
func (x *Exec) reMatch(re, text Value) Value {
	src := x.reSource(re)
	if s, ok := concStr(src); ok {
		if t, ok := concStr(text); ok {
			return boolV(regexp.MustCompile(s).MatchString(t))
		}
		r := regexp.MustCompile(s)
		if lit, full := r.LiteralPrefix(); full && !isOpaque(text) {
			return termV(x.containsTerm(strBytes(text), strBytes(strV(lit))))
		}
		if m := reCharAlt(s); m != nil && !isOpaque(text) {
			// (a|b|c): alternatives of literals
			r := TFalse
			for _, lit := range m {
				r = Or(r, x.containsTerm(strBytes(text), strBytes(strV(lit))))
			}
			return termV(r)
		}
		if !isOpaque(text) {
			// concretize the text
			b := strBytes(text)
			bs := make([]byte, len(b))
			for i, c := range b {
				bs[i] = byte(x.concretize(c, 8))
			}
			return boolV(r.MatchString(string(bs)))
		}
	}
	panic(unsupported("symbolic regexp match"))
}

func reCharAlt(s string) []string {
	t := strings.TrimSuffix(strings.TrimPrefix(s, "("), ")")
	parts := strings.Split(t, "|")
	for i, p := range parts {
		p = strings.TrimSuffix(strings.TrimPrefix(p, "("), ")")
		if p == "" || regexp.QuoteMeta(p) != p {
			return nil
		}
		parts[i] = p
	}
	return parts
}
