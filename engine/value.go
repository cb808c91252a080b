package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one leaf (or an aggregate in a register).
//   - P == nil: a concrete scalar N; also the zero value of every leaf type.
//   - *Term: symbolic scalar.       - string: concrete non-empty string.
//   - *SymStr: symbolic string.     - Ptr: pointer.   - *Slice   - *Iface
//   - *Closure  - MapRef  - ChanRef  - *Agg (struct/array/tuple in a register)
type Value struct {
	P any
	N uint64
}

type ObjID int32

type Ptr struct {
	Obj ObjID
	Off int32
}

// SymPtr is a pointer at a symbolic element of an array of scalars.
type SymPtr struct {
	Obj  ObjID
	Base int32
	Idx  *Term
	Len  int
	Esz  int
}

// FnPtr is the address of something opaque (used for identity only).
type Opaque struct{ name string }

type Slice struct {
	Obj      ObjID
	Off      int32 // slot offset
	Len, Cap int32
}

type Iface struct {
	T *TInfo
	V Value
}

type Closure struct {
	Fn    *ssa.Function
	Binds []Value
	Nat   *Intrinsic // native closure
	Recv  bool       // Binds[0] is the receiver (a method obtained by reflection)
}

type MapRef struct{ Obj ObjID }
type ChanRef struct{ Obj ObjID }

type Agg struct{ V []Value }

// SymStr: bytes, or pieces that include opaque text.
type SymStr struct {
	B      []Value // each a byte (concrete N or *Term of width 8)
	Opaque string  // non-empty: contents unknown, identity is this tag
}

// RType is the payload of *reflect.rtype values.
type RType struct{ T *TInfo }

// TInfo is a canonical type.
type TInfo struct {
	T     types.Type
	id    int
	slots int // flattened slot count
	kind  tkind
	w     uint8 // bit width for scalars
	sgn   bool
	offs  []int // struct field offsets
	elem  *TInfo
	alen  int
	isF   bool
	once  sync.Once
	msets sync.Map // methodKey -> *ssa.Function
}

type tkind uint8

const (
	kBool tkind = iota
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kUnsafe
	kTuple
	kInvalid
)

var canonMu sync.Mutex
var canonMap typeutil.Map
var canonFast sync.Map // types.Type -> *TInfo
var canonN int

func TI(t types.Type) *TInfo {
	if v, ok := canonFast.Load(t); ok {
		return v.(*TInfo)
	}
	canonMu.Lock()
	var ti *TInfo
	if v := canonMap.At(t); v != nil {
		ti = v.(*TInfo)
	} else {
		canonN++
		ti = &TInfo{T: t, id: canonN}
		canonMap.Set(t, ti)
	}
	canonMu.Unlock()
	ti.once.Do(func() { ti.fill() })
	canonFast.Store(t, ti)
	return ti
}

func (ti *TInfo) fill() {
	t := ti.T
	ti.slots = 1
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = kBool
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.sgn = kInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.sgn = kInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.sgn = kInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.sgn = kInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = kInt, 64
		case types.Uint8:
			ti.kind, ti.w = kInt, 8
		case types.Uint16:
			ti.kind, ti.w = kInt, 16
		case types.Uint32:
			ti.kind, ti.w = kInt, 32
		case types.Float32:
			ti.kind, ti.w, ti.isF = kFloat, 32, true
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w, ti.isF = kFloat, 64, true
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = kComplex
		case types.String, types.UntypedString:
			ti.kind = kString
		case types.UnsafePointer, types.UntypedNil:
			ti.kind = kUnsafe
		default:
			ti.kind = kInvalid
		}
	case *types.Pointer:
		ti.kind = kPtr
	case *types.Slice:
		ti.kind = kSlice
		ti.elem = TI(u.Elem())
	case *types.Map:
		ti.kind = kMap
	case *types.Chan:
		ti.kind = kChan
	case *types.Signature:
		ti.kind = kFunc
	case *types.Interface:
		ti.kind = kIface
	case *types.Struct:
		ti.kind = kStruct
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			ti.offs = append(ti.offs, n)
			n += TI(u.Field(i).Type()).slots
		}
		ti.slots = n
	case *types.Array:
		ti.kind = kArray
		ti.elem = TI(u.Elem())
		ti.alen = int(u.Len())
		ti.slots = ti.alen * ti.elem.slots
	case *types.Tuple:
		ti.kind = kTuple
	case *types.TypeParam:
		ti.kind = kInvalid
	default:
		ti.kind = kInvalid
	}
}

func (ti *TInfo) isAgg() bool { return ti.kind == kStruct || ti.kind == kArray }

func (ti *TInfo) zero() Value {
	if ti.isAgg() {
		return Value{P: &Agg{make([]Value, ti.slots)}}
	}
	return Value{}
}

func intV(i int) Value { return Value{N: uint64(int64(i))} }
func boolV(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}
func floatV(f float64) Value { return Value{N: math.Float64bits(f)} }

// termV wraps a term, collapsing constants (sign-extended storage is not used: N holds the raw masked bits).
func termV(t *Term) Value {
	if t.op == OConst {
		return Value{N: t.k}
	}
	return Value{P: t}
}

// Concrete integers are stored masked to their width.

func (v Value) isNil() bool { return v.P == nil }

func asTerm(v Value, w uint8) *Term {
	switch x := v.P.(type) {
	case nil:
		if w == 0 {
			return BoolT(v.N != 0)
		}
		return BV(v.N, w)
	case *Term:
		return x
	}
	panic(unsupported("asTerm of %T", v.P))
}

func isSym(v Value) bool {
	_, ok := v.P.(*Term)
	return ok
}

type unsupErr struct{ msg string }

func (u unsupErr) Error() string { return u.msg }

func unsupported(f string, a ...any) unsupErr { return unsupErr{fmt.Sprintf(f, a...)} }

// ---- strings ----

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		if s.Opaque != "" {
			panic(unsupported("length of opaque string"))
		}
		return len(s.B)
	}
	panic(unsupported("strLen of %T", v.P))
}

func strByte(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		return s.B[i]
	}
	panic("strByte")
}

func strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = Value{N: uint64(s[i])}
		}
		return out
	case *SymStr:
		if s.Opaque != "" {
			panic(unsupported("bytes of opaque string"))
		}
		return s.B
	}
	panic(unsupported("strBytes of %T", v.P))
}

func mkStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	conc := true
	for _, x := range b {
		if x.P != nil {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.N)
		}
		return Value{P: string(bs)}
	}
	return Value{P: &SymStr{B: b}}
}

func subStr(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return Value{}
	case string:
		return strV(s[lo:hi])
	case *SymStr:
		if s.Opaque != "" {
			panic(unsupported("substring of opaque string"))
		}
		return mkStr(s.B[lo:hi:hi])
	}
	panic("subStr")
}

func concStr(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func isOpaque(v Value) bool {
	s, ok := v.P.(*SymStr)
	return ok && s.Opaque != ""
}

func opaqueTag(v Value) string {
	switch s := v.P.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		if s.Opaque != "" {
			return s.Opaque
		}
		var sb strings.Builder
		for _, b := range s.B {
			if b.P == nil {
				sb.WriteByte(byte(b.N))
			} else {
				fmt.Fprintf(&sb, "«%d»", b.P.(*Term).id)
			}
		}
		return sb.String()
	}
	return "?"
}

func strConcat(a, b Value) Value {
	if a.P == nil {
		return b
	}
	if b.P == nil {
		return a
	}
	x, ok1 := a.P.(string)
	y, ok2 := b.P.(string)
	if ok1 && ok2 {
		return Value{P: x + y}
	}
	if isOpaque(a) || isOpaque(b) {
		return Value{P: &SymStr{Opaque: opaqueTag(a) + opaqueTag(b)}}
	}
	ba, bb := strBytes(a), strBytes(b)
	out := make([]Value, 0, len(ba)+len(bb))
	out = append(out, ba...)
	out = append(out, bb...)
	return mkStr(out)
}

// strEq returns the term "a == b".
func strEq(a, b Value) *Term {
	x, ok1 := concStr(a)
	y, ok2 := concStr(b)
	if ok1 && ok2 {
		return BoolT(x == y)
	}
	if isOpaque(a) || isOpaque(b) {
		if opaqueTag(a) == opaqueTag(b) {
			return TTrue
		}
		// an opaque text is known non-empty when its tag holds literal text
		if (ok1 && x == "") || (ok2 && y == "") {
			return TFalse
		}
		panic(unsupported("comparison of opaque string"))
	}
	if strLen(a) != strLen(b) {
		return TFalse
	}
	r := TTrue
	n := strLen(a)
	for i := 0; i < n; i++ {
		r = And(r, Eq(asTerm(strByte(a, i), 8), asTerm(strByte(b, i), 8)))
		if r == TFalse {
			return r
		}
	}
	return r
}

// strLt returns "a < b" lexicographically.
func strLt(a, b Value) *Term {
	x, ok1 := concStr(a)
	y, ok2 := concStr(b)
	if ok1 && ok2 {
		return BoolT(x < y)
	}
	ba, bb := strBytes(a), strBytes(b)
	r := BoolT(len(ba) < len(bb))
	for i := min(len(ba), len(bb)) - 1; i >= 0; i-- {
		p, q := asTerm(ba[i], 8), asTerm(bb[i], 8)
		r = Or(Ult(p, q), And(Eq(p, q), r))
	}
	return r
}

// fmtValue renders a value for debugging and observations.
func fmtValue(v Value) string {
	switch x := v.P.(type) {
	case nil:
		return fmt.Sprint(v.N)
	case string:
		return fmt.Sprintf("%q", x)
	case *Term:
		return x.String()
	case *SymStr:
		return "sym:" + opaqueTag(v)
	case *Iface:
		return fmt.Sprintf("(%s)%s", x.T.T, fmtValue(x.V))
	case *Agg:
		var s []string
		for _, e := range x.V {
			s = append(s, fmtValue(e))
		}
		return "{" + strings.Join(s, " ") + "}"
	case Ptr:
		return fmt.Sprintf("&%d+%d", x.Obj, x.Off)
	}
	return fmt.Sprintf("%T", v.P)
}
