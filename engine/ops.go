package main

import (
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
)

func fl(v Value) float64 {
	if v.P != nil {
		panic(unsupported("symbolic float"))
	}
	return math.Float64frombits(v.N)
}

func mkFloat(f float64, w uint8) Value {
	if w == 32 {
		f = float64(float32(f))
	}
	return floatV(f)
}

func (x *Exec) binop(tok token.Token, ti, ti2 *TInfo, a, b Value) Value {
	switch tok {
	case token.EQL:
		return termV(x.eq(ti, a, b))
	case token.NEQ:
		return termV(Not(x.eq(ti, a, b)))
	}
	switch ti.kind {
	case kBool:
		p, q := asTerm(a, 0), asTerm(b, 0)
		switch tok {
		case token.AND, token.LAND:
			return termV(And(p, q))
		case token.OR, token.LOR:
			return termV(Or(p, q))
		}
	case kString:
		switch tok {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return termV(strLt(a, b))
		case token.GTR:
			return termV(strLt(b, a))
		case token.LEQ:
			return termV(Not(strLt(b, a)))
		case token.GEQ:
			return termV(Not(strLt(a, b)))
		}
	case kFloat:
		if _, ok := a.P.(Opaque); ok {
			return opaqueFloat(tok)
		}
		if _, ok := b.P.(Opaque); ok {
			return opaqueFloat(tok)
		}
		p, q := fl(a), fl(b)
		switch tok {
		case token.ADD:
			return mkFloat(p+q, ti.w)
		case token.SUB:
			return mkFloat(p-q, ti.w)
		case token.MUL:
			return mkFloat(p*q, ti.w)
		case token.QUO:
			return mkFloat(p/q, ti.w)
		case token.LSS:
			return boolV(p < q)
		case token.GTR:
			return boolV(p > q)
		case token.LEQ:
			return boolV(p <= q)
		case token.GEQ:
			return boolV(p >= q)
		}
	case kInt:
		if a.P == nil && b.P == nil {
			return x.binConc(tok, ti, ti2, a.N, b.N)
		}
		w := ti.w
		if tok == token.SHL || tok == token.SHR {
			p := asTerm(a, w)
			var q *Term
			if b.P == nil {
				n := b.N
				if ti2.sgn && sx(n, ti2.w) < 0 {
					x.throw("runtime error: negative shift amount")
				}
				if n > 200 {
					n = 200
				}
				if n >= uint64(w) {
					if tok == token.SHR && ti.sgn {
						n = uint64(w) - 1
					} else {
						return Value{}
					}
				}
				q = BV(n, w)
			} else {
				bt := b.P.(*Term)
				if ti2.sgn && x.decide(Slt(bt, BV(0, bt.w))) {
					x.throw("runtime error: negative shift amount")
				}
				if bt.w > w {
					if x.decide(Not(Ult(bt, BV(uint64(w), bt.w)))) {
						q = BV(uint64(w), w)
						if uint64(w) > mask(w) {
							q = BV(mask(w), w)
						}
					} else {
						q = Trunc(bt, w)
					}
				} else {
					q = ZExt(bt, w)
				}
			}
			op := OShl
			if tok == token.SHR {
				op = OLShr
				if ti.sgn {
					op = OAShr
				}
			}
			return termV(Bin(op, p, q))
		}
		p, q := asTerm(a, w), asTerm(b, w)
		switch tok {
		case token.ADD:
			return termV(Bin(OAdd, p, q))
		case token.SUB:
			return termV(Bin(OSub, p, q))
		case token.MUL:
			return termV(Bin(OMul, p, q))
		case token.QUO, token.REM:
			if x.decide(Eq(q, BV(0, w))) {
				x.throw("runtime error: integer divide by zero")
			}
			op := OUDiv
			switch {
			case tok == token.QUO && ti.sgn:
				op = OSDiv
			case tok == token.REM && ti.sgn:
				op = OSRem
			case tok == token.REM:
				op = OURem
			}
			if ti.sgn {
				// non-negative operands: unsigned is cheaper
				_, h1 := urange(p)
				_, h2 := urange(q)
				if h1 < uint64(1)<<(w-1) && h2 < uint64(1)<<(w-1) {
					if op == OSDiv {
						op = OUDiv
					} else {
						op = OURem
					}
				}
			}
			return termV(Bin(op, p, q))
		case token.AND:
			return termV(Bin(OBAnd, p, q))
		case token.OR:
			return termV(Bin(OBOr, p, q))
		case token.XOR:
			return termV(Bin(OBXor, p, q))
		case token.AND_NOT:
			return termV(Bin(OBAnd, p, BVNot(q)))
		}
		var lt func(a, b *Term) *Term = Ult
		if ti.sgn {
			lt = Slt
		}
		switch tok {
		case token.LSS:
			return termV(lt(p, q))
		case token.GTR:
			return termV(lt(q, p))
		case token.LEQ:
			return termV(Not(lt(q, p)))
		case token.GEQ:
			return termV(Not(lt(p, q)))
		}
	}
	panic(unsupported("binop %v on %v", tok, ti.T))
}

func opaqueFloat(tok token.Token) Value {
	switch tok {
	case token.ADD, token.SUB, token.MUL, token.QUO:
		return Value{P: Opaque{"float"}}
	}
	panic(unsupported("comparison of symbolic float"))
}

func (x *Exec) binConc(tok token.Token, ti, ti2 *TInfo, a, b uint64) Value {
	w := ti.w
	m := mask(w)
	switch tok {
	case token.ADD:
		return Value{N: (a + b) & m}
	case token.SUB:
		return Value{N: (a - b) & m}
	case token.MUL:
		return Value{N: (a * b) & m}
	case token.QUO, token.REM:
		if b == 0 {
			x.throw("runtime error: integer divide by zero")
		}
		op := OUDiv
		switch {
		case tok == token.QUO && ti.sgn:
			op = OSDiv
		case tok == token.REM && ti.sgn:
			op = OSRem
		case tok == token.REM:
			op = OURem
		}
		return Value{N: evalOp(op, w, a, b)}
	case token.AND:
		return Value{N: a & b}
	case token.OR:
		return Value{N: a | b}
	case token.XOR:
		return Value{N: a ^ b}
	case token.AND_NOT:
		return Value{N: a &^ b}
	case token.SHL, token.SHR:
		n := b
		if ti2.sgn && sx(b, ti2.w) < 0 {
			x.throw("runtime error: negative shift amount")
		}
		if tok == token.SHL {
			if n >= 64 {
				return Value{}
			}
			return Value{N: (a << n) & m}
		}
		if ti.sgn {
			if n > 63 {
				n = 63
			}
			return Value{N: uint64(sx(a, w)>>n) & m}
		}
		if n >= 64 {
			return Value{}
		}
		return Value{N: a >> n}
	}
	if ti.sgn {
		p, q := sx(a, w), sx(b, w)
		switch tok {
		case token.LSS:
			return boolV(p < q)
		case token.GTR:
			return boolV(p > q)
		case token.LEQ:
			return boolV(p <= q)
		case token.GEQ:
			return boolV(p >= q)
		}
	}
	switch tok {
	case token.LSS:
		return boolV(a < b)
	case token.GTR:
		return boolV(a > b)
	case token.LEQ:
		return boolV(a <= b)
	case token.GEQ:
		return boolV(a >= b)
	}
	panic(unsupported("binConc %v", tok))
}

// eq builds the term for a == b at type ti.
func (x *Exec) eq(ti *TInfo, a, b Value) *Term {
	switch ti.kind {
	case kBool:
		return Eq(asTerm(a, 0), asTerm(b, 0))
	case kInt:
		if a.P == nil && b.P == nil {
			return BoolT(a.N == b.N)
		}
		return Eq(asTerm(a, ti.w), asTerm(b, ti.w))
	case kFloat:
		return BoolT(fl(a) == fl(b))
	case kString:
		return strEq(a, b)
	case kPtr, kUnsafe, kChan:
		if _, ok := a.P.(SymPtr); ok {
			panic(unsupported("symbolic pointer comparison"))
		}
		return BoolT(a.P == b.P && a.N == b.N)
	case kMap, kFunc, kSlice:
		// only comparison with nil is legal
		return BoolT(a.P == nil && b.P == nil)
	case kIface:
		return x.ifaceEq(a, b)
	case kStruct:
		st := ti.T.Underlying().(*types.Struct)
		av, bv := a.P.(*Agg).V, b.P.(*Agg).V
		r := TTrue
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "_" {
				continue
			}
			ft := TI(st.Field(i).Type())
			o := ti.offs[i]
			r = And(r, x.eq(ft, regOf(ft, av[o:o+ft.slots]), regOf(ft, bv[o:o+ft.slots])))
			if r == TFalse {
				return r
			}
		}
		return r
	case kArray:
		av, bv := a.P.(*Agg).V, b.P.(*Agg).V
		r := TTrue
		for i := 0; i < ti.alen; i++ {
			o := i * ti.elem.slots
			r = And(r, x.eq(ti.elem, regOf(ti.elem, av[o:o+ti.elem.slots]), regOf(ti.elem, bv[o:o+ti.elem.slots])))
			if r == TFalse {
				return r
			}
		}
		return r
	}
	panic(unsupported("eq at %v", ti.T))
}

// regOf turns leaf cells into a register value.
func regOf(ti *TInfo, cells []Value) Value {
	if ti.isAgg() {
		return Value{P: &Agg{append([]Value(nil), cells...)}}
	}
	return cells[0]
}

func cellsOf(ti *TInfo, v Value) []Value {
	if ti.isAgg() {
		return v.P.(*Agg).V
	}
	return []Value{v}
}

func (x *Exec) ifaceEq(a, b Value) *Term {
	ia, ok1 := a.P.(*Iface)
	ib, ok2 := b.P.(*Iface)
	if !ok1 || !ok2 {
		return BoolT(!ok1 && !ok2)
	}
	if ia.T != ib.T {
		return TFalse
	}
	// *reflect.rtype compare by type
	if ra, ok := ia.V.P.(*RType); ok {
		rb, _ := ib.V.P.(*RType)
		return BoolT(rb != nil && ra.T == rb.T)
	}
	if !types.Comparable(ia.T.T) {
		x.throw("runtime error: comparing uncomparable type " + ia.T.T.String())
	}
	return x.eq(ia.T, ia.V, ib.V)
}

func (x *Exec) convert(to, from *TInfo, v Value) Value {
	switch {
	case to.kind == kInt && from.kind == kInt:
		if v.P == nil {
			if from.sgn {
				return Value{N: uint64(sx(v.N, from.w)) & mask(to.w)}
			}
			return Value{N: v.N & mask(to.w)}
		}
		if p, ok := v.P.(Ptr); ok { // uintptr carrying a pointer
			return Value{P: p}
		}
		t := asTerm(v, from.w)
		if to.w > from.w {
			if from.sgn {
				return termV(SExt(t, to.w))
			}
			return termV(ZExt(t, to.w))
		}
		return termV(Trunc(t, to.w))
	case to.kind == kFloat && from.kind == kInt:
		if v.P != nil {
			return Value{P: Opaque{"float"}}
		}
		if from.sgn {
			return mkFloat(float64(sx(v.N, from.w)), to.w)
		}
		return mkFloat(float64(v.N), to.w)
	case to.kind == kInt && from.kind == kFloat:
		f := fl(v)
		if to.sgn {
			return Value{N: uint64(int64(f)) & mask(to.w)}
		}
		return Value{N: uint64(f) & mask(to.w)}
	case to.kind == kFloat && from.kind == kFloat:
		if _, ok := v.P.(Opaque); ok {
			return v
		}
		return mkFloat(fl(v), to.w)
	case to.kind == kString && from.kind == kInt:
		if v.P == nil {
			r := sx(v.N, from.w)
			if r < 0 || r > utf8.MaxRune {
				r = utf8.RuneError
			}
			return strV(string(rune(r)))
		}
		t := asTerm(v, from.w)
		if from.w < 32 {
			t = ZExt(t, 32)
		} else {
			t = Trunc(t, 32)
		}
		return mkStr(x.encodeRune(termV(t)))
	case to.kind == kString && from.kind == kSlice:
		sl, _ := v.P.(*Slice)
		if sl == nil {
			return Value{}
		}
		cells := x.sliceCells(sl, 1)
		if from.elem.w == 8 {
			return mkStr(append([]Value(nil), cells...))
		}
		var out []Value
		for _, c := range cells {
			out = append(out, x.encodeRune(c)...)
		}
		return mkStr(out)
	case to.kind == kSlice && from.kind == kString:
		if to.elem.w == 8 {
			b := strBytes(v)
			o := &Obj{cells: append([]Value(nil), b...), el: to.elem}
			id := x.s.alloc(o)
			return Value{P: &Slice{Obj: id, Len: int32(len(b)), Cap: int32(len(b))}}
		}
		var out []Value
		n := strLen(v)
		for i := 0; i < n; {
			r, sz := x.decodeRune(v, i)
			out = append(out, r)
			i += sz
		}
		id := x.s.alloc(&Obj{cells: out, el: to.elem})
		return Value{P: &Slice{Obj: id, Len: int32(len(out)), Cap: int32(len(out))}}
	case to.kind == kUnsafe || from.kind == kUnsafe:
		return v
	case to.kind == kString && from.kind == kString, to.kind == from.kind:
		return v
	}
	panic(unsupported("convert %v -> %v", from.T, to.T))
}

// encodeRune gives the UTF-8 bytes of an int32 rune.
func (x *Exec) encodeRune(r Value) []Value {
	if r.P == nil {
		var out []Value
		rr := rune(int32(r.N))
		for _, b := range []byte(string(rr)) {
			out = append(out, Value{N: uint64(b)})
		}
		return out
	}
	t := r.P.(*Term)
	lt := func(n uint64) *Term { return Ult(t, BV(n, 32)) }
	bt := func(sh uint64, m, or uint64) Value {
		q := t
		if sh > 0 {
			q = Bin(OLShr, t, BV(sh, 32))
		}
		return termV(Bin(OBOr, Trunc(Bin(OBAnd, q, BV(m, 32)), 8), BV(or, 8)))
	}
	if x.decide(lt(0x80)) {
		return []Value{termV(Trunc(t, 8))}
	}
	if x.decide(lt(0x800)) {
		return []Value{bt(6, 0x1f, 0xC0), bt(0, 0x3f, 0x80)}
	}
	bad := Or(Not(lt(0x110000)), And(Not(lt(0xD800)), lt(0xE000)))
	if x.decide(bad) {
		return []Value{{N: 0xEF}, {N: 0xBF}, {N: 0xBD}}
	}
	if x.decide(lt(0x10000)) {
		return []Value{bt(12, 0xf, 0xE0), bt(6, 0x3f, 0x80), bt(0, 0x3f, 0x80)}
	}
	return []Value{bt(18, 7, 0xF0), bt(12, 0x3f, 0x80), bt(6, 0x3f, 0x80), bt(0, 0x3f, 0x80)}
}

// decodeRune decodes one rune at i, deciding the class of symbolic bytes.
func (x *Exec) decodeRune(s Value, i int) (Value, int) {
	if cs, ok := s.P.(string); ok {
		r, n := utf8.DecodeRuneInString(cs[i:])
		return Value{N: uint64(uint32(r))}, n
	}
	b := strBytes(s)[i:]
	b0 := b[0]
	if b0.P == nil && b0.N < 0x80 {
		return Value{N: b0.N}, 1
	}
	all := true
	var conc []byte
	for k := 0; k < len(b) && k < 4; k++ {
		if b[k].P != nil {
			all = false
			break
		}
		conc = append(conc, byte(b[k].N))
	}
	if all || (b0.P == nil && utf8.FullRune(conc)) {
		r, n := utf8.DecodeRune(conc)
		return Value{N: uint64(uint32(r))}, n
	}
	t0 := asTerm(b0, 8)
	lt := func(t *Term, n uint64) *Term { return Ult(t, BV(n, 8)) }
	if x.decide(lt(t0, 0x80)) {
		return termV(ZExt(t0, 32)), 1
	}
	bad := Value{N: utf8.RuneError}
	in := func(t *Term, lo, hi uint64) *Term { return And(Not(lt(t, lo)), Not(Ult(BV(hi, 8), t))) }
	if x.decide(Or(lt(t0, 0xC2), Ult(BV(0xF4, 8), t0))) {
		return bad, 1
	}
	cont := func(k int, lo, hi uint64) bool {
		if k >= len(b) {
			return false
		}
		return x.decide(in(asTerm(b[k], 8), lo, hi))
	}
	z := func(v Value, m uint64) *Term { return Bin(OBAnd, ZExt(asTerm(v, 8), 32), BV(m, 32)) }
	sh := func(t *Term, n uint64) *Term { return Bin(OShl, t, BV(n, 32)) }
	if x.decide(lt(t0, 0xE0)) {
		if !cont(1, 0x80, 0xBF) {
			return bad, 1
		}
		return termV(Bin(OBOr, sh(z(b0, 0x1F), 6), z(b[1], 0x3F))), 2
	}
	if x.decide(lt(t0, 0xF0)) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if x.decide(Eq(t0, BV(0xE0, 8))) {
			lo = 0xA0
		} else if x.decide(Eq(t0, BV(0xED, 8))) {
			hi = 0x9F
		}
		if !cont(1, lo, hi) || !cont(2, 0x80, 0xBF) {
			return bad, 1
		}
		return termV(Bin(OBOr, Bin(OBOr, sh(z(b0, 0xF), 12), sh(z(b[1], 0x3F), 6)), z(b[2], 0x3F))), 3
	}
	lo, hi := uint64(0x80), uint64(0xBF)
	if x.decide(Eq(t0, BV(0xF0, 8))) {
		lo = 0x90
	} else if x.decide(Eq(t0, BV(0xF4, 8))) {
		hi = 0x8F
	}
	if !cont(1, lo, hi) || !cont(2, 0x80, 0xBF) || !cont(3, 0x80, 0xBF) {
		return bad, 1
	}
	return termV(Bin(OBOr, Bin(OBOr, sh(z(b0, 7), 18), sh(z(b[1], 0x3F), 12)), Bin(OBOr, sh(z(b[2], 0x3F), 6), z(b[3], 0x3F)))), 4
}

// ---- maps ----

// mapKey gives a canonical string for concrete keys.
func mapKey(ti *TInfo, v Value) (string, bool) {
	switch ti.kind {
	case kString:
		s, ok := concStr(v)
		if !ok {
			if isOpaque(v) {
				return "o:" + opaqueTag(v), true
			}
			return "", false
		}
		return "s" + s, true
	case kBool, kInt, kFloat:
		if v.P != nil {
			if _, ok := v.P.(*Term); ok {
				return "", false
			}
		}
		var b [9]byte
		b[0] = 'n'
		for i := 0; i < 8; i++ {
			b[i+1] = byte(v.N >> (8 * i))
		}
		return string(b[:]), true
	case kPtr, kUnsafe, kChan:
		switch p := v.P.(type) {
		case nil:
			return "nil", true
		case Ptr:
			return keyf("p", uint64(p.Obj), uint64(p.Off)), true
		case ChanRef:
			return keyf("c", uint64(p.Obj), 0), true
		case *RType:
			return keyf("t", uint64(p.T.id), 0), true
		}
		return "", false
	case kIface:
		i, ok := v.P.(*Iface)
		if !ok {
			return "nil", true
		}
		if r, ok := i.V.P.(*RType); ok {
			return keyf("t", uint64(r.T.id), 0), true
		}
		k, ok := mapKey(i.T, i.V)
		return keyf("i", uint64(i.T.id), 0) + k, ok
	case kStruct:
		st := ti.T.Underlying().(*types.Struct)
		av := v.P.(*Agg).V
		out := "{"
		for i := 0; i < st.NumFields(); i++ {
			ft := TI(st.Field(i).Type())
			k, ok := mapKey(ft, regOf(ft, av[ti.offs[i]:ti.offs[i]+ft.slots]))
			if !ok {
				return "", false
			}
			out += keyf("", uint64(len(k)), 0) + k
		}
		return out, true
	case kArray:
		av := v.P.(*Agg).V
		out := "["
		for i := 0; i < ti.alen; i++ {
			k, ok := mapKey(ti.elem, regOf(ti.elem, av[i*ti.elem.slots:(i+1)*ti.elem.slots]))
			if !ok {
				return "", false
			}
			out += keyf("", uint64(len(k)), 0) + k
		}
		return out, true
	}
	return "", false
}

func keyf(p string, a, b uint64) string {
	buf := make([]byte, 0, len(p)+16)
	buf = append(buf, p...)
	for i := 0; i < 8; i++ {
		buf = append(buf, byte(a>>(8*i)))
	}
	for i := 0; i < 4; i++ {
		buf = append(buf, byte(b>>(8*i)))
	}
	return string(buf)
}

// mapFind returns the position of key, or -1; it may decide (fork) on symbolic equality.
func (x *Exec) mapFind(m *MapData, kt *TInfo, key Value) int {
	ks, conc := mapKey(kt, key)
	if conc {
		if p, ok := m.index[ks]; ok && !m.dead[p] {
			return p
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i, k := range m.keys {
		if m.dead[i] {
			continue
		}
		if conc {
			if _, c2 := mapKey(kt, k); c2 {
				continue
			}
		}
		if x.decide(x.eq(kt, k, key)) {
			return i
		}
	}
	return -1
}

func (x *Exec) mapSet(id ObjID, kt *TInfo, key, val Value) {
	m := x.s.obj(id).m
	p := x.mapFind(m, kt, key)
	m = x.s.wobj(id).m
	if p >= 0 {
		m.vals[p] = val
		return
	}
	ks, conc := mapKey(kt, key)
	if conc {
		m.index[ks] = len(m.keys)
	} else {
		m.nsym++
	}
	m.keys = append(m.keys, key)
	m.vals = append(m.vals, val)
	m.dead = append(m.dead, false)
	m.live++
}

func (x *Exec) mapDelete(id ObjID, kt *TInfo, key Value) {
	m := x.s.obj(id).m
	p := x.mapFind(m, kt, key)
	if p < 0 {
		return
	}
	m = x.s.wobj(id).m
	m.dead[p] = true
	m.live--
	if ks, conc := mapKey(kt, m.keys[p]); conc {
		delete(m.index, ks)
	} else {
		m.nsym--
	}
	m.keys[p] = Value{}
	m.vals[p] = Value{}
}

func newMapData() *MapData { return &MapData{index: map[string]int{}} }
