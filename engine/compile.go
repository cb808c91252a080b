package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	reg int32 // >=0 register, -1 constant
	v   Value
}

type iop uint8

const (
	iNop iop = iota
	iAlloc
	iCall
	iGo
	iDefer
	iBin
	iUnNot
	iUnNeg
	iUnXor
	iLoad
	iRecv
	iCopy // ChangeType, ChangeInterface handled separately
	iConvert
	iMakeIface
	iMakeClosure
	iMakeMap
	iMakeChan
	iMakeSlice
	iSlice
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iSelect
	iRange
	iNext
	iTypeAssert
	iExtract
	iJump
	iIf
	iReturn
	iRunDefers
	iPanic
	iSend
	iStore
	iMapUpdate
	iSliceToArr
	iChangeIface
	iShim
	iUnsupported
)

type ins struct {
	op   iop
	tok  token.Token
	dst  int32
	a, b opnd
	c, d opnd
	args []opnd
	ti   *TInfo // result / operand type as the op needs
	ti2  *TInfo
	k    int
	n    int
	flag bool
	in   ssa.Instruction
	call *ssa.CallCommon
	fn   *ssa.Function // static callee
	bi   *ssa.Builtin
	sel  []selIns
	shim *Intrinsic
	peep bool // IndexAddr immediately and only loaded
}

type selIns struct {
	ch   opnd
	send bool
	val  opnd
	el   *TInfo
}

type phiIns struct {
	dst   int32
	edges []opnd
}

type blk struct {
	phis  []phiIns
	code  []ins
	succs []int
	preds []int
	pure  bool // no side effects: candidate for speculative merging
	join  int  // for an If: the block at which a small pure region rejoins, or -1
	regn  []int
	seen  bool // executed (developer coverage)
}

type FnInfo struct {
	fn     *ssa.Function
	name   string
	nregs  int
	blocks []blk
	repo   bool
	intr   *Intrinsic
	recov  int
	res    []*TInfo
	merge  bool
	nparam int
	nfree  int
	ninstr int
	once   sync.Once
	once2  sync.Once
	rtypes []*TInfo
	nores  bool
	hits   int64
	ran    bool
}

var fnInfos sync.Map // *ssa.Function -> *FnInfo

func (e *Engine) fnInfo(fn *ssa.Function) *FnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		fi := v.(*FnInfo)
		fi.once.Do(func() { e.compile(fi) })
		return fi
	}
	v, _ := fnInfos.LoadOrStore(fn, &FnInfo{fn: fn})
	fi := v.(*FnInfo)
	fi.once.Do(func() { e.compile(fi) })
	return fi
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) isRepoFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), e.modPath)
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return strings.HasPrefix(o.Pkg.Pkg.Path(), e.modPath)
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), e.modPath)
		}
	}
	return false
}

func (e *Engine) compile(fi *FnInfo) {
	fn := fi.fn
	fi.name = fnName(fn)
	fi.repo = e.isRepoFn(fn)
	fi.recov = -1
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in
	}
	fi.merge = e.mergeable(fi.name)
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		fi.res = append(fi.res, TI(sig.Results().At(i).Type()))
	}
	if fi.intr != nil {
		return
	}
	if sub, ok := e.models[fi.name]; ok && sub != fn {
		// replaced by a Go-level model
		fi.intr = &Intrinsic{name: fi.name, model: sub}
		return
	}
	if fn.Pkg != nil && fn.Synthetic == "" {
		e.buildPkg(fn.Pkg)
	} else if p := fn.Parent(); p != nil && p.Pkg != nil {
		e.buildPkg(p.Pkg)
	}
	if fn.Blocks == nil {
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			e.buildPkg(o.Pkg)
		}
	}
	if fn.Blocks == nil && fn.Synthetic == "package initializer" {
		fi.intr = &Intrinsic{name: fi.name, fn: func(c *Ctx) (Value, bool) { return Value{}, true }}
		return
	}
	if fn.Blocks == nil {
		return // external: unsupported at call time
	}
	regs := map[ssa.Value]int32{}
	nr := int32(0)
	add := func(v ssa.Value) {
		regs[v] = nr
		nr++
	}
	for _, p := range fn.Params {
		add(p)
	}
	fi.nparam = len(fn.Params)
	for _, p := range fn.FreeVars {
		add(p)
	}
	fi.nfree = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = int(nr)
	op := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{reg: -1}
		}
		if r, ok := regs[v]; ok {
			return opnd{reg: r}
		}
		return opnd{reg: -1, v: e.constant(v)}
	}
	ops := func(vs []ssa.Value) []opnd {
		out := make([]opnd, len(vs))
		for i, v := range vs {
			out[i] = op(v)
		}
		return out
	}
	fi.blocks = make([]blk, len(fn.Blocks))
	if fn.Recover != nil {
		fi.recov = fn.Recover.Index
	}
	for bi, b := range fn.Blocks {
		bk := &fi.blocks[bi]
		bk.join = -1
		for _, s := range b.Succs {
			bk.succs = append(bk.succs, s.Index)
		}
		for _, s := range b.Preds {
			bk.preds = append(bk.preds, s.Index)
		}
		for _, in := range b.Instrs {
			c := ins{dst: -1, in: in}
			if v, ok := in.(ssa.Value); ok {
				c.dst = regs[v]
			}
			fi.ninstr++
			switch t := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				ph := phiIns{dst: regs[t]}
				for _, ed := range t.Edges {
					ph.edges = append(ph.edges, op(ed))
				}
				bk.phis = append(bk.phis, ph)
				continue
			case *ssa.Alloc:
				c.op = iAlloc
				c.ti = TI(t.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.Call, *ssa.Go, *ssa.Defer:
				var cc *ssa.CallCommon
				switch q := t.(type) {
				case *ssa.Call:
					cc = &q.Call
					c.op = iCall
				case *ssa.Go:
					cc = &q.Call
					c.op = iGo
				case *ssa.Defer:
					cc = &q.Call
					c.op = iDefer
					if q.DeferStack != nil {
						c.op = iUnsupported
					}
				}
				c.call = cc
				c.args = ops(cc.Args)
				if cc.IsInvoke() {
					c.a = op(cc.Value)
				} else if b, ok := cc.Value.(*ssa.Builtin); ok {
					c.bi = b
					if len(cc.Args) > 0 {
						c.ti = TI(cc.Args[0].Type())
					}
					if len(cc.Args) > 1 {
						c.ti2 = TI(cc.Args[1].Type())
					}
				} else {
					c.fn, _ = cc.Value.(*ssa.Function)
					c.a = op(cc.Value)
				}
			case *ssa.BinOp:
				c.op = iBin
				c.tok = t.Op
				c.a, c.b = op(t.X), op(t.Y)
				c.ti = TI(t.X.Type())
				c.ti2 = TI(t.Y.Type())
			case *ssa.UnOp:
				c.a = op(t.X)
				c.ti = TI(t.Type())
				switch t.Op {
				case token.MUL:
					c.op = iLoad
				case token.NOT:
					c.op = iUnNot
				case token.SUB:
					c.op = iUnNeg
				case token.XOR:
					c.op = iUnXor
				case token.ARROW:
					c.op = iRecv
					c.flag = t.CommaOk
					c.ti = TI(t.X.Type().Underlying().(*types.Chan).Elem())
				}
			case *ssa.ChangeType:
				c.op = iCopy
				c.a = op(t.X)
			case *ssa.ChangeInterface:
				c.op = iCopy
				c.a = op(t.X)
			case *ssa.Convert:
				c.op = iConvert
				c.a = op(t.X)
				c.ti = TI(t.Type())
				c.ti2 = TI(t.X.Type())
			case *ssa.MultiConvert:
				c.op = iUnsupported
			case *ssa.SliceToArrayPointer:
				c.op = iSliceToArr
				c.a = op(t.X)
				c.k = int(t.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.MakeInterface:
				c.op = iMakeIface
				c.a = op(t.X)
				c.ti = TI(t.X.Type())
			case *ssa.MakeClosure:
				c.op = iMakeClosure
				c.fn = t.Fn.(*ssa.Function)
				c.args = ops(t.Bindings)
			case *ssa.MakeMap:
				c.op = iMakeMap
				c.ti = TI(t.Type())
			case *ssa.MakeChan:
				c.op = iMakeChan
				c.a = op(t.Size)
				c.ti = TI(t.Type().Underlying().(*types.Chan).Elem())
			case *ssa.MakeSlice:
				c.op = iMakeSlice
				c.a, c.b = op(t.Len), op(t.Cap)
				c.ti = TI(t.Type().Underlying().(*types.Slice).Elem())
			case *ssa.Slice:
				c.op = iSlice
				c.a, c.b, c.c, c.d = op(t.X), op(t.Low), op(t.High), op(t.Max)
				if t.Low == nil {
					c.b.reg = -2
				}
				if t.High == nil {
					c.c.reg = -2
				}
				if t.Max == nil {
					c.d.reg = -2
				}
				c.ti = TI(t.X.Type())
				if p, ok := t.X.Type().Underlying().(*types.Pointer); ok {
					a := p.Elem().Underlying().(*types.Array)
					c.ti2 = TI(a.Elem())
					c.k = int(a.Len())
				}
			case *ssa.FieldAddr:
				c.op = iFieldAddr
				c.a = op(t.X)
				st := TI(t.X.Type().Underlying().(*types.Pointer).Elem())
				c.k = st.offs[t.Field]
			case *ssa.Field:
				c.op = iField
				c.a = op(t.X)
				st := TI(t.X.Type())
				c.k = st.offs[t.Field]
				c.ti = TI(t.Type())
			case *ssa.IndexAddr:
				c.op = iIndexAddr
				c.a, c.b = op(t.X), op(t.Index)
				c.ti2 = TI(t.Index.Type())
				switch u := t.X.Type().Underlying().(type) {
				case *types.Slice:
					c.ti = TI(u.Elem())
					c.flag = true
				case *types.Pointer:
					a := u.Elem().Underlying().(*types.Array)
					c.ti = TI(a.Elem())
					c.k = int(a.Len())
				}
				if rs := t.Referrers(); rs != nil && c.ti != nil && !c.ti.isAgg() {
					ok := true
					for _, r := range *rs {
						if u, isU := r.(*ssa.UnOp); isU && u.Op == token.MUL {
							continue
						}
						if _, isD := r.(*ssa.DebugRef); isD {
							continue
						}
						ok = false
					}
					c.peep = ok
				}
			case *ssa.Index:
				c.op = iIndex
				c.a, c.b = op(t.X), op(t.Index)
				c.ti = TI(t.X.Type())
				c.ti2 = TI(t.Index.Type())
			case *ssa.Lookup:
				c.op = iLookup
				c.a, c.b = op(t.X), op(t.Index)
				c.flag = t.CommaOk
				c.ti = TI(t.X.Type())
				c.ti2 = TI(t.Index.Type())
			case *ssa.Select:
				c.op = iSelect
				c.flag = t.Blocking
				for _, st := range t.States {
					c.sel = append(c.sel, selIns{ch: op(st.Chan), send: st.Dir == types.SendOnly, val: op(st.Send), el: TI(st.Chan.Type().Underlying().(*types.Chan).Elem())})
				}
			case *ssa.Range:
				c.op = iRange
				c.a = op(t.X)
				c.ti = TI(t.X.Type())
			case *ssa.Next:
				c.op = iNext
				c.a = op(t.Iter)
				c.flag = t.IsString
				c.ti = TI(t.Type().(*types.Tuple).At(1).Type())
				c.ti2 = TI(t.Type().(*types.Tuple).At(2).Type())
			case *ssa.TypeAssert:
				c.op = iTypeAssert
				c.a = op(t.X)
				c.ti = TI(t.AssertedType)
				c.flag = t.CommaOk
			case *ssa.Extract:
				c.op = iExtract
				c.a = op(t.Tuple)
				c.k = t.Index
			case *ssa.Jump:
				c.op = iJump
			case *ssa.If:
				c.op = iIf
				c.a = op(t.Cond)
			case *ssa.Return:
				c.op = iReturn
				c.args = ops(t.Results)
			case *ssa.RunDefers:
				c.op = iRunDefers
			case *ssa.Panic:
				c.op = iPanic
				c.a = op(t.X)
			case *ssa.Send:
				c.op = iSend
				c.a, c.b = op(t.Chan), op(t.X)
			case *ssa.Store:
				c.op = iStore
				c.a, c.b = op(t.Addr), op(t.Val)
				c.ti = TI(t.Val.Type())
			case *ssa.MapUpdate:
				c.op = iMapUpdate
				c.a, c.b, c.c = op(t.Map), op(t.Key), op(t.Value)
				c.ti = TI(t.Map.Type().Underlying().(*types.Map).Key())
			default:
				c.op = iUnsupported
			}
			bk.code = append(bk.code, c)
		}
		bk.pure = true
		for i := range bk.code {
			switch bk.code[i].op {
			case iNop, iBin, iUnNot, iUnNeg, iUnXor, iLoad, iCopy, iField, iExtract, iJump, iIf, iFieldAddr, iIndexAddr, iIndex, iMakeIface:
			case iConvert:
				if bk.code[i].ti.kind == kString || bk.code[i].ti.kind == kSlice {
					bk.pure = false
				}
			case iCall:
				if bk.code[i].bi == nil || (bk.code[i].bi.Name() != "len" && bk.code[i].bi.Name() != "cap") {
					bk.pure = false
				}
			default:
				bk.pure = false
			}
		}
	}
	for bi := range fi.blocks {
		fi.findRegion(bi)
	}
}

// findRegion looks for a small acyclic region of pure blocks hanging off the If of block b and rejoining at one block.
func (fi *FnInfo) findRegion(b int) {
	bk := &fi.blocks[b]
	if len(bk.succs) != 2 || bk.succs[0] == bk.succs[1] {
		return
	}
	// candidate joins: try breadth-first growth
	const maxR = 12
	for _, join := range fi.joinCandidates(b) {
		region := map[int]bool{}
		ok := true
		var order []int
		var visit func(n int) bool
		onpath := map[int]bool{}
		visit = func(n int) bool {
			if n == join {
				return true
			}
			if n == b || onpath[n] {
				return false
			}
			if region[n] {
				return true
			}
			q := &fi.blocks[n]
			if !q.pure || len(q.code) > 24 || len(q.succs) == 0 || len(region) >= maxR {
				return false
			}
			region[n] = true
			onpath[n] = true
			for _, s := range q.succs {
				if !visit(s) {
					return false
				}
			}
			delete(onpath, n)
			order = append(order, n)
			return true
		}
		for _, s := range bk.succs {
			if !visit(s) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		// every predecessor of a region block is in the region or b
		for n := range region {
			for _, p := range fi.blocks[n].preds {
				if p != b && !region[p] {
					ok = false
				}
			}
		}
		if !ok {
			continue
		}
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
		bk.join = join
		bk.regn = order
		return
	}
}

func (fi *FnInfo) joinCandidates(b int) []int {
	seen := map[int]int{}
	var q []int
	for _, s := range fi.blocks[b].succs {
		q = append(q, s)
	}
	var out []int
	for i := 0; i < len(q) && i < 40; i++ {
		n := q[i]
		if seen[n] > 0 {
			if seen[n] == 1 {
				out = append(out, n)
			}
			seen[n]++
			continue
		}
		seen[n] = 1
		if fi.blocks[n].pure || true {
			q = append(q, fi.blocks[n].succs...)
		}
	}
	return out
}

func (e *Engine) constant(v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return e.constVal(c)
	case *ssa.Global:
		return Value{P: Ptr{Obj: e.globalObj(c)}}
	case *ssa.Function:
		return Value{P: e.fnVal(c)}
	case *ssa.Builtin:
		return Value{}
	}
	panic(fmt.Sprintf("constant: %T %v", v, v))
}

var fnVals sync.Map

func (e *Engine) fnVal(fn *ssa.Function) *Closure {
	if v, ok := fnVals.Load(fn); ok {
		return v.(*Closure)
	}
	v, _ := fnVals.LoadOrStore(fn, &Closure{Fn: fn})
	return v.(*Closure)
}

func (e *Engine) constVal(c *ssa.Const) Value {
	ti := TI(c.Type())
	if c.Value == nil {
		return ti.zero()
	}
	switch ti.kind {
	case kBool:
		return boolV(constant.BoolVal(c.Value))
	case kInt:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Value{N: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return Value{N: u & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if ti.w == 32 {
			f = float64(float32(f))
		}
		return floatV(f)
	case kString:
		if c.Value.Kind() == constant.String {
			return strV(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return strV(string(rune(i)))
	case kComplex:
		return Value{P: Opaque{"complex"}}
	case kUnsafe:
		return Value{}
	case kIface:
		return Value{}
	}
	panic(fmt.Sprintf("constVal %v %v", c, c.Type()))
}
