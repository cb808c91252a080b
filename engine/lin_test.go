package main

import (
	"math/rand"
	"testing"
)

// Differential test of the linear normaliser: every rewritten term evaluates like the direct semantics.
func TestLin(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	var vs []*Term
	for i := 0; i < 4; i++ {
		v := NewVar("lt"+string(rune('a'+i)), 64)
		v.vars[0].lo = uint64(r.Intn(3))
		v.vars[0].hi = v.vars[0].lo + uint64(r.Intn(50))
		vs = append(vs, v)
	}
	bl := NewVar("ltb", 0)
	var gen func(d int) (*Term, func(m Model) int64)
	gen = func(d int) (*Term, func(m Model) int64) {
		switch k := r.Intn(7); {
		case d == 0 || k == 0:
			if r.Intn(3) == 0 {
				c := int64(r.Intn(41) - 20)
				return BV(uint64(c), 64), func(Model) int64 { return c }
			}
			v := vs[r.Intn(4)]
			return v, func(m Model) int64 { return int64(m.get(v.vars[0])) }
		case k <= 2:
			a, fa := gen(d - 1)
			b, fb := gen(d - 1)
			return Bin(OAdd, a, b), func(m Model) int64 { return fa(m) + fb(m) }
		case k <= 4:
			a, fa := gen(d - 1)
			b, fb := gen(d - 1)
			return Bin(OSub, a, b), func(m Model) int64 { return fa(m) - fb(m) }
		case k == 5:
			a, fa := gen(d - 1)
			c := int64(r.Intn(9) - 4)
			return Bin(OMul, a, BV(uint64(c), 64)), func(m Model) int64 { return fa(m) * c }
		default:
			a, fa := gen(d - 1)
			b, fb := gen(d - 1)
			return Ite(bl, a, b), func(m Model) int64 {
				if m.get(bl.vars[0]) == 1 {
					return fa(m)
				}
				return fb(m)
			}
		}
	}
	for n := 0; n < 200000; n++ {
		a, fa := gen(3)
		b, fb := gen(3)
		lt, eq, sub := Slt(a, b), Eq(a, b), Bin(OSub, a, b)
		ul := Ult(a, b)
		for i := 0; i < 8; i++ {
			m := Model{}
			for _, v := range append(vs, bl) {
				x := v.vars[0]
				hi := x.hi
				m[x.id] = x.lo + uint64(r.Int63n(int64(hi-x.lo)+1))
			}
			x, y := fa(m), fb(m)
			b2 := func(b bool) uint64 {
				if b {
					return 1
				}
				return 0
			}
			if lt.Eval(m, nil) != b2(x < y) || eq.Eval(m, nil) != b2(x == y) || int64(sub.Eval(m, nil)) != x-y || ul.Eval(m, nil) != b2(uint64(x) < uint64(y)) {
				t.Fatalf("mismatch %v %v: %v %v %v %v model %v", a, b, lt, eq, sub, ul, m)
			}
		}
	}
}

// Differential test of all term constructors, over mixed widths.
func TestTerms(t *testing.T) {
	r := rand.New(rand.NewSource(2))
	var vs []*Term
	for i := 0; i < 3; i++ {
		v := NewVar("tt"+string(rune('a'+i)), 64)
		v.vars[0].lo = uint64(r.Intn(3))
		v.vars[0].hi = v.vars[0].lo + uint64(r.Intn(50))
		vs = append(vs, v)
	}
	v := NewVar("ttw", 64)
	vs = append(vs, v)
	v32 := NewVar("ttn", 32)
	v8 := NewVar("tt8", 8)
	bl := NewVar("ttbl", 0)
	consts := []uint64{0, 1, 2, 3, 7, 8, 255, 256, 1000, 1 << 30, 1<<30 - 1, 1 << 31, 1 << 33, 1 << 62, 1 << 63, ^uint64(0), ^uint64(1), 0xf0f0}
	type ev func(m Model) uint64
	var gen func(w uint8, d int) (*Term, ev)
	var genB func(d int) (*Term, ev)
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	genB = func(d int) (*Term, ev) {
		if d <= 0 {
			return bl, func(m Model) uint64 { return m.get(bl.vars[0]) }
		}
		w := []uint8{8, 32, 64}[r.Intn(3)]
		a, fa := gen(w, d-1)
		b, fb := gen(w, d-1)
		switch r.Intn(4) {
		case 0:
			return Slt(a, b), func(m Model) uint64 { return b2(sx(fa(m), w) < sx(fb(m), w)) }
		case 1:
			return Ult(a, b), func(m Model) uint64 { return b2(fa(m) < fb(m)) }
		case 2:
			return Eq(a, b), func(m Model) uint64 { return b2(fa(m) == fb(m)) }
		}
		x, fx := genB(d - 1)
		y, fy := genB(d - 1)
		if r.Intn(2) == 0 {
			return And(x, Not(y)), func(m Model) uint64 { return fx(m) & (1 - fy(m)) }
		}
		return Or(x, y), func(m Model) uint64 { return fx(m) | fy(m) }
	}
	gen = func(w uint8, d int) (*Term, ev) {
		if d <= 0 || r.Intn(6) == 0 {
			if r.Intn(3) == 0 {
				c := consts[r.Intn(len(consts))] & mask(w)
				return BV(c, w), func(Model) uint64 { return c }
			}
			var x *Term
			switch w {
			case 64:
				x = vs[r.Intn(4)]
			case 32:
				x = v32
			default:
				x = v8
			}
			return x, func(m Model) uint64 { return m.get(x.vars[0]) }
		}
		switch r.Intn(10) {
		case 0:
			c, fc := genB(d - 1)
			a, fa := gen(w, d-1)
			b, fb := gen(w, d-1)
			return Ite(c, a, b), func(m Model) uint64 {
				if fc(m) == 1 {
					return fa(m)
				}
				return fb(m)
			}
		case 1:
			if w > 8 {
				w2 := uint8(8)
				if w == 64 && r.Intn(2) == 0 {
					w2 = 32
				}
				a, fa := gen(w2, d-1)
				if r.Intn(2) == 0 {
					return ZExt(a, w), fa
				}
				return SExt(a, w), func(m Model) uint64 { return uint64(sx(fa(m), w2)) & mask(w) }
			}
			fallthrough
		case 2:
			if w < 64 {
				a, fa := gen(64, d-1)
				return Trunc(a, w), func(m Model) uint64 { return fa(m) & mask(w) }
			}
			fallthrough
		default:
			op := OAdd + Op(r.Intn(int(OAShr-OAdd)+1))
			a, fa := gen(w, d-1)
			b, fb := gen(w, d-1)
			if r.Intn(2) == 0 {
				c := consts[r.Intn(len(consts))] & mask(w)
				if op >= OShl {
					c = uint64(r.Intn(int(w) + 2))
				}
				b, fb = BV(c, w), func(Model) uint64 { return c }
			}
			return Bin(op, a, b), func(m Model) uint64 { return evalOp(op, w, fa(m), fb(m)) }
		}
	}
	for n := 0; n < 300000; n++ {
		w := []uint8{8, 32, 64}[r.Intn(3)]
		x, fx := gen(w, 4)
		y, fy := genB(4)
		for i := 0; i < 6; i++ {
			m := Model{}
			for _, v := range append(vs, bl, v32, v8) {
				q := v.vars[0]
				if q.hi-q.lo == ^uint64(0) {
					m[q.id] = r.Uint64() >> uint(r.Intn(64))
				} else {
					m[q.id] = q.lo + uint64(r.Int63n(int64(q.hi-q.lo)+1))
				}
				if v.w == 32 || v.w == 8 {
					m[q.id] = r.Uint64() >> uint(r.Intn(64)) & mask(v.w)
				}
			}
			if x.Eval(m, nil) != fx(m) {
				t.Fatalf("mismatch %v: %v want %v model %v", x, x.Eval(m, nil), fx(m), m)
			}
			if y.Eval(m, nil) != fy(m) {
				t.Fatalf("mismatch %v: %v want %v model %v", y, y.Eval(m, nil), fy(m), m)
			}
		}
	}
}
