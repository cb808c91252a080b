package main

import "math/bits"

// Linear normalisation of 64-bit arithmetic. A 64-bit term is read as the exact signed integer
// k + Σ cᵢ·atomᵢ when every intermediate value provably stays within ±2^62 (so nothing wraps).
// Comparisons between such terms are decided from bounds, or rewritten to a canonical comparison
// of the minimal width, which keeps solver queries over times and durations small.

const linLim = int64(1) << 62

type linAtom struct {
	t      *Term
	c      int64
	lo, hi int64
}

type lin struct {
	k      int64
	at     []linAtom
	lo, hi int64
}

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	ua, ub := a, b
	if ua < 0 {
		ua = -ua
	}
	if ub < 0 {
		ub = -ub
	}
	hi, lo := bits.Mul64(uint64(ua), uint64(ub))
	if hi != 0 || lo > uint64(linLim) {
		return 0, false
	}
	return a * b, true
}

func (l *lin) bound() bool {
	lo, hi := l.k, l.k
	if lo > linLim || lo < -linLim {
		return false
	}
	for _, a := range l.at {
		x, ok1 := mulOK(a.c, a.lo)
		y, ok2 := mulOK(a.c, a.hi)
		if !ok1 || !ok2 {
			return false
		}
		if x > y {
			x, y = y, x
		}
		lo += x
		hi += y
		if lo < -linLim || lo > linLim || hi > linLim || hi < -linLim {
			return false
		}
	}
	l.lo, l.hi = lo, hi
	return true
}

func linComb(a *lin, b *lin, s int64) (*lin, bool) {
	r := &lin{k: a.k + s*b.k}
	i, j := 0, 0
	for i < len(a.at) || j < len(b.at) {
		switch {
		case j >= len(b.at) || (i < len(a.at) && a.at[i].t.id < b.at[j].t.id):
			r.at = append(r.at, a.at[i])
			i++
		case i >= len(a.at) || b.at[j].t.id < a.at[i].t.id:
			x := b.at[j]
			x.c *= s
			r.at = append(r.at, x)
			j++
		default:
			x := a.at[i]
			x.c += s * b.at[j].c
			if x.c > linLim || x.c < -linLim {
				return nil, false
			}
			if x.c != 0 {
				r.at = append(r.at, x)
			}
			i++
			j++
		}
	}
	if !r.bound() {
		return nil, false
	}
	return r, true
}

func linAtomOf(t *Term, lo, hi int64) (*lin, bool) {
	if lo < -linLim || hi > linLim || lo > hi {
		return nil, false
	}
	return &lin{at: []linAtom{{t, 1, lo, hi}}, lo: lo, hi: hi}, true
}

// linForm reads t as an exact signed linear form; the value also fits t's own width as a signed number.
func linForm(t *Term, depth int) (*lin, bool) {
	l, ok := linForm1(t, depth)
	if !ok {
		return nil, false
	}
	if t.w < 64 {
		lim := int64(1) << (t.w - 2)
		if l.lo < -lim || l.hi > lim {
			return nil, false
		}
	}
	return l, true
}

func linForm1(t *Term, depth int) (*lin, bool) {
	if depth > 24 || t.w < 4 {
		return nil, false
	}
	switch t.op {
	case OZExt:
		l, ok := linForm(t.a, depth+1)
		if ok && l.lo >= 0 {
			return l, true
		}
	case OSExt:
		return linForm(t.a, depth+1)
	case OExtract:
		if l, ok := linForm(t.a, depth+1); ok && l.hi <= int64(1)<<(t.w-2) && l.lo >= -(int64(1)<<(t.w-2)) {
			return l, true
		}
	case OConst:
		k := sx(t.k, t.w)
		if k > linLim || k < -linLim {
			return nil, false
		}
		return &lin{k: k, lo: k, hi: k}, true
	case OAdd, OSub:
		a, ok := linForm(t.a, depth+1)
		if !ok {
			return nil, false
		}
		b, ok := linForm(t.b, depth+1)
		if !ok {
			return nil, false
		}
		if t.op == OSub {
			return linComb(a, b, -1)
		}
		return linComb(a, b, 1)
	case OMul, OShl:
		if t.b.op != OConst {
			return nil, false
		}
		c := sx(t.b.k, t.w)
		if t.op == OShl {
			if t.b.k > 60 {
				return nil, false
			}
			c = int64(1) << t.b.k
		}
		a, ok := linForm(t.a, depth+1)
		if !ok {
			return nil, false
		}
		r := &lin{}
		if r.k, ok = mulOK(a.k, c); !ok {
			return nil, false
		}
		for _, x := range a.at {
			if x.c, ok = mulOK(x.c, c); !ok {
				return nil, false
			}
			r.at = append(r.at, x)
		}
		if !r.bound() {
			return nil, false
		}
		return r, true
	case OIte:
		if depth > 4 {
			return nil, false
		}
		a, ok := linForm(t.b, depth+1)
		if !ok {
			return nil, false
		}
		b, ok := linForm(t.c, depth+1)
		if !ok {
			return nil, false
		}
		return linAtomOf(t, min(a.lo, b.lo), max(a.hi, b.hi))
	}
	lo, hi := urange(t)
	if hi > uint64(linLim) {
		return nil, false
	}
	return linAtomOf(t, int64(lo), int64(hi))
}

func isArith(t *Term) bool {
	switch t.op {
	case OAdd, OSub, OMul, OShl:
		return true
	case OSExt, OZExt, OExtract:
		return isArith(t.a)
	}
	return false
}

// fit gives the atom at width w.
func fit(a linAtom, w uint8) *Term {
	if a.t.w >= w {
		return narrow(a.t, w)
	}
	if a.lo >= 0 {
		return ZExt(a.t, w)
	}
	return SExt(a.t, w)
}

// narrow keeps the low w bits, pushing the truncation through operators whose low bits depend only on low bits.
func narrow(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	switch t.op {
	case OAdd, OSub, OMul:
		return Bin(t.op, narrow(t.a, w), narrow(t.b, w))
	case OShl:
		if t.b.op == OConst {
			if t.b.k >= uint64(w) {
				return BV(0, w)
			}
			return Bin(OShl, narrow(t.a, w), BV(t.b.k, w))
		}
	case OIte:
		return Ite(t.a, narrow(t.b, w), narrow(t.c, w))
	case OZExt, OSExt:
		if t.a.w < w {
			if t.op == OZExt {
				return ZExt(t.a, w)
			}
			return SExt(t.a, w)
		}
		return narrow(t.a, w)
	}
	return Trunc(t, w)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// emit builds (K < Σ c·x) or (K == Σ c·x) at the minimal width.
func (l *lin) emit(K int64, eq bool) *Term {
	if len(l.at) == 1 && l.at[0].c == 1 && !isArith(l.at[0].t) {
		x := l.at[0]
		if eq {
			return Eq(x.t, BV(uint64(K), x.t.w))
		}
		if x.lo >= 0 && K >= 0 {
			return Ult(BV(uint64(K), x.t.w), x.t)
		}
	}
	abs := func(x int64) int64 {
		if x < 0 {
			return -x
		}
		return x
	}
	tot := uint64(abs(K))
	for _, a := range l.at {
		m := max(abs(a.lo), abs(a.hi))
		p, ok := mulOK(abs(a.c), m)
		if !ok {
			return nil
		}
		tot += uint64(p) + uint64(abs(a.c))
		if tot > uint64(linLim) {
			return nil
		}
	}
	w := uint8(bits.Len64(tot) + 1)
	if w >= 64 {
		return nil
	}
	if w < 4 {
		w = 4
	}
	// positive part on one side, negative part on the other: no multiplications by -1
	var sum, sub *Term
	plus := func(acc, t *Term) *Term {
		if acc == nil {
			return t
		}
		return Bin(OAdd, acc, t)
	}
	for _, a := range l.at {
		if a.c > 0 {
			sum = plus(sum, Bin(OMul, fit(a, w), BV(uint64(a.c), w)))
		} else {
			sub = plus(sub, Bin(OMul, fit(a, w), BV(uint64(-a.c), w)))
		}
	}
	if sub != nil {
		if sum == nil {
			sum = BV(0, w)
		}
		k := BV(uint64(K), w)
		if sub.op != OConst {
			l := mkraw(OAdd, w, sub, k, nil, 0)
			if K == 0 {
				l = sub
			}
			if eq {
				if l.id > sum.id {
					l, sum = sum, l
				}
				return mkraw(OEq, 0, l, sum, nil, 0)
			}
			return mkraw(OSlt, 0, l, sum, nil, 0)
		}
		sum = Bin(OSub, sum, sub)
	}
	if sum == nil {
		return nil
	}
	k := BV(uint64(K), w)
	if sum.op == OConst {
		if eq {
			return BoolT(sum.k == k.k)
		}
		return BoolT(sx(k.k, w) < sx(sum.k, w))
	}
	if eq {
		return eqRaw(sum, k)
	}
	return mkraw(OSlt, 0, k, sum, nil, 0)
}

// linGt decides b - a > 0 over signed integers; nil when not applicable.
func linLess(a, b *Term) *Term {
	la, ok := linForm(a, 0)
	if !ok {
		return nil
	}
	lb, ok := linForm(b, 0)
	if !ok {
		return nil
	}
	d, ok := linComb(lb, la, -1)
	if !ok {
		return nil
	}
	if d.lo > 0 {
		return TTrue
	}
	if d.hi <= 0 {
		return TFalse
	}
	if len(d.at) == 0 {
		return BoolT(d.k > 0)
	}
	g := int64(0)
	for _, x := range d.at {
		g = gcd64(x.c, g)
	}
	K := floorDiv(-d.k, g) // Σ' > K
	s := &lin{}
	neg := d.at[0].c < 0
	for _, x := range d.at {
		x.c /= g
		if neg {
			x.c = -x.c
		}
		s.at = append(s.at, x)
	}
	if neg {
		r := s.emit(-K-1, false)
		if r == nil {
			return nil
		}
		return Not(r)
	}
	return s.emit(K, false)
}

func linEqual(a, b *Term) *Term {
	la, ok := linForm(a, 0)
	if !ok {
		return nil
	}
	lb, ok := linForm(b, 0)
	if !ok {
		return nil
	}
	d, ok := linComb(lb, la, -1)
	if !ok {
		return nil
	}
	if d.lo > 0 || d.hi < 0 {
		return TFalse
	}
	if len(d.at) == 0 {
		return BoolT(d.k == 0)
	}
	g := int64(0)
	for _, x := range d.at {
		g = gcd64(x.c, g)
	}
	if d.k%g != 0 {
		return TFalse
	}
	K := -d.k / g
	s := &lin{}
	neg := d.at[0].c < 0
	for _, x := range d.at {
		x.c /= g
		if neg {
			x.c = -x.c
		}
		s.at = append(s.at, x)
	}
	if neg {
		K = -K
	}
	return s.emit(K, true)
}

// linSub simplifies a-b when terms cancel; nil when nothing is gained.
func linSub(a, b *Term) *Term {
	la, ok := linForm(a, 0)
	if !ok || len(la.at) == 0 {
		return nil
	}
	lb, ok := linForm(b, 0)
	if !ok || len(lb.at) == 0 {
		return nil
	}
	d, ok := linComb(la, lb, -1)
	if !ok || len(d.at) >= len(la.at)+len(lb.at) {
		return nil
	}
	var sum *Term
	for _, x := range d.at {
		t := Bin(OMul, fit(x, 64), BV(uint64(x.c), 64))
		if sum == nil {
			sum = t
		} else {
			sum = Bin(OAdd, sum, t)
		}
	}
	if sum == nil {
		return BV(uint64(d.k), 64)
	}
	return Bin(OAdd, sum, BV(uint64(d.k), 64))
}

func linNonNeg(t *Term) bool {
	l, ok := linForm(t, 0)
	return ok && l.lo >= 0
}

// maybe gives the bits of t that can be one.
func maybe(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.k
	case OZExt:
		return maybe(t.a)
	case OExtract:
		return maybe(t.a) & m
	case OBAnd:
		return maybe(t.a) & maybe(t.b)
	case OBOr, OBXor:
		return maybe(t.a) | maybe(t.b)
	case OShl:
		if t.b.op == OConst && t.b.k < 64 {
			return maybe(t.a) << t.b.k & m
		}
	case OLShr:
		if t.b.op == OConst && t.b.k < 64 {
			return maybe(t.a) >> t.b.k
		}
	}
	_, h := urange(t)
	return fill(h)
}

func fill(h uint64) uint64 {
	if h == 0 {
		return 0
	}
	n := bits.Len64(h)
	if n >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<n - 1
}

// bitRules simplifies bit operations with constants; nil when nothing applies.
func bitRules(op Op, a, b *Term) *Term {
	w := a.w
	if b.op != OConst {
		if op == OBOr && a.op == OConst {
			return bitRules(op, b, a)
		}
		return nil
	}
	switch op {
	case OBAnd:
		may := maybe(a)
		if may&b.k == 0 {
			return BV(0, w)
		}
		if may&^b.k == 0 {
			return a
		}
		switch a.op {
		case OBOr, OBXor:
			return Bin(a.op, Bin(OBAnd, a.a, b), Bin(OBAnd, a.b, b))
		case OBAnd:
			if a.b.op == OConst {
				return Bin(OBAnd, a.a, BV(a.b.k&b.k, w))
			}
			x, y := Bin(OBAnd, a.a, b), Bin(OBAnd, a.b, b)
			if x.op == OConst || y.op == OConst {
				return Bin(OBAnd, x, y)
			}
		}
	case OBOr:
		if a.op == OBOr && a.b.op == OConst {
			return Bin(OBOr, a.a, BV(a.b.k|b.k, w))
		}
	case OShl, OLShr:
		if b.k >= uint64(w) {
			return nil
		}
		if op == OLShr && maybe(a)>>b.k == 0 {
			return BV(0, w)
		}
		switch a.op {
		case OBOr, OBXor, OBAnd:
			if a.b.op == OConst {
				return Bin(a.op, Bin(op, a.a, b), Bin(op, a.b, b))
			}
			if a.op == OBOr {
				x, y := Bin(op, a.a, b), Bin(op, a.b, b)
				return Bin(a.op, x, y)
			}
		case OShl:
			if op == OLShr && a.b.op == OConst && a.b.k < uint64(w) {
				if may := maybe(a.a); may<<a.b.k&mask(w)>>a.b.k == may {
					if a.b.k >= b.k {
						return Bin(OShl, a.a, BV(a.b.k-b.k, w))
					}
					return Bin(OLShr, a.a, BV(b.k-a.b.k, w))
				}
			}
			if op == OShl && a.b.op == OConst && a.b.k+b.k < uint64(w) {
				return Bin(OShl, a.a, BV(a.b.k+b.k, w))
			}
		}
	case OURem:
		if _, h := urange(a); h < b.k {
			return a
		}
	case OUDiv:
		if _, h := urange(a); h < b.k {
			return BV(0, w)
		}
	case OSRem, OSDiv:
		d := sx(b.k, w)
		if d <= 0 {
			return nil
		}
		if l, ok := linForm(a, 0); ok && l.lo > -d && l.hi < d {
			if op == OSRem {
				return a
			}
			return BV(0, w)
		}
	}
	return nil
}

func linApplies(a, b *Term) bool {
	return a.w >= 4 && (isArith(a) || isArith(b) || (a.w == 64 && a.op != OConst && b.op != OConst))
}
