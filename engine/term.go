package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// Term is a hash-consed SMT term. Width 0 is Bool, otherwise a bit-vector of that width (1..64).
type Term struct {
	id      uint32
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	vars    []*VarInfo // sorted by id, distinct
}

// VarInfo describes a symbolic input.
type VarInfo struct {
	id   int
	name string
	w    uint8
	lo   uint64
	hi   uint64
	term *Term
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OUlt
	OSlt
	OZExt
	OSExt
	OExtract // k = lo; width = w
)

var opSMT = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OSlt: "bvslt"}

type tkey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

const nshard = 64

var termShards [nshard]struct {
	mu sync.Mutex
	m  map[tkey]*Term
}
var termCount uint32

var TTrue, TFalse *Term

func init() {
	for i := range termShards {
		termShards[i].m = map[tkey]*Term{}
	}
	TFalse = mkraw(OConst, 0, nil, nil, nil, 0)
	TTrue = mkraw(OConst, 0, nil, nil, nil, 1)
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mkraw(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k}
	h := (uint64(key.a)*0x9E3779B1 ^ uint64(key.b)*0x85EBCA77 ^ uint64(key.c)*0xC2B2AE3D ^ k*0x27D4EB2F ^ uint64(op)*131 ^ uint64(w)) % nshard
	sh := &termShards[h]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if t, ok := sh.m[key]; ok {
		return t
	}
	t := &Term{id: atomic.AddUint32(&termCount, 1), op: op, w: w, a: a, b: b, c: c, k: k}
	t.vars = mergeVars(mergeVars(varsOf(a), varsOf(b)), varsOf(c))
	sh.m[key] = t
	return t
}

func varsOf(t *Term) []*VarInfo {
	if t == nil {
		return nil
	}
	return t.vars
}

func mergeVars(x, y []*VarInfo) []*VarInfo {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	// subset checks to share
	out := make([]*VarInfo, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i].id == y[j].id:
			out = append(out, x[i])
			i++
			j++
		case x[i].id < y[j].id:
			out = append(out, x[i])
			i++
		default:
			out = append(out, y[j])
			j++
		}
	}
	out = append(out, x[i:]...)
	out = append(out, y[j:]...)
	if len(out) == len(x) {
		return x
	}
	if len(out) == len(y) {
		return y
	}
	return out
}

var varTab struct {
	mu     sync.Mutex
	byName map[string]*VarInfo
	all    []*VarInfo
}

// NewVar returns the variable with this name, creating it when needed. Names identify inputs across paths.
func NewVar(name string, w uint8) *Term {
	varTab.mu.Lock()
	defer varTab.mu.Unlock()
	if varTab.byName == nil {
		varTab.byName = map[string]*VarInfo{}
	}
	key := fmt.Sprintf("%s|%d", name, w)
	if v, ok := varTab.byName[key]; ok {
		return v.term
	}
	v := &VarInfo{id: len(varTab.all), name: name, w: w, hi: mask(w)}
	varTab.all = append(varTab.all, v)
	varTab.byName[key] = v
	t := &Term{id: atomic.AddUint32(&termCount, 1), op: OVar, w: w, k: uint64(v.id)}
	t.vars = []*VarInfo{v}
	v.term = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func BV(v uint64, w uint8) *Term { return mkraw(OConst, w, nil, nil, nil, v&mask(w)) }
func BoolT(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func Not(a *Term) *Term {
	if a.op == OConst {
		return BoolT(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return mkraw(ONot, 0, a, nil, nil, 0)
}

func And(a, b *Term) *Term {
	if a.op == OConst {
		if a.k == 0 {
			return TFalse
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return TFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if Not(a) == b {
		return TFalse
	}
	// x==c1 & x==c2
	if a.op == OEq && b.op == OEq && a.a == b.a && a.b.op == OConst && b.b.op == OConst {
		return TFalse
	}
	if a.op == OEq && b.op == ONot && b.a.op == OEq && a.a == b.a.a && a.b.op == OConst && b.a.b.op == OConst {
		return a
	}
	if b.op == OEq && a.op == ONot && a.a.op == OEq && b.a == a.a.a && b.b.op == OConst && a.a.b.op == OConst {
		return b
	}
	// absorption
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkraw(OAnd, 0, a, b, nil, 0)
}

func Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.k == 1 {
			return TTrue
		}
		return b
	}
	if b.op == OConst {
		if b.k == 1 {
			return TTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if Not(a) == b {
		return TTrue
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return b
	}
	// (c & x) | (!c & x) = x
	if a.op == OAnd && b.op == OAnd {
		for _, p := range [][4]*Term{{a.a, a.b, b.a, b.b}, {a.b, a.a, b.a, b.b}, {a.a, a.b, b.b, b.a}, {a.b, a.a, b.b, b.a}} {
			if p[1] == p[3] && Not(p[0]) == p[2] {
				return p[1]
			}
		}
	}
	// c | (!c & x) = c | x
	if b.op == OAnd {
		if b.a == Not(a) {
			return Or(a, b.b)
		}
		if b.b == Not(a) {
			return Or(a, b.a)
		}
	}
	if a.op == OAnd {
		if a.a == Not(b) {
			return Or(b, a.b)
		}
		if a.b == Not(b) {
			return Or(b, a.a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkraw(OOr, 0, a, b, nil, 0)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.op == OConst && b.op == OConst {
		return BoolT(a.k == b.k)
	}
	if linApplies(a, b) {
		if r := linEqual(a, b); r != nil {
			return r
		}
	}
	return eqRaw(a, b)
}

func eqRaw(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.w == 0 {
			if b.k == 1 {
				return a
			}
			return Not(a)
		}
		switch a.op {
		case OVar:
			v := a.vars[0]
			if b.k < v.lo || b.k > v.hi {
				return TFalse
			}
		case OZExt:
			if b.k > mask(a.a.w) {
				return TFalse
			}
			return Eq(a.a, BV(b.k, a.a.w))
		case OSExt:
			n := BV(b.k, a.a.w)
			if uint64(sx(n.k, n.w))&mask(a.w) != b.k {
				return TFalse
			}
			return Eq(a.a, n)
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return Ite(a.a, Eq(a.b, b), Eq(a.c, b))
			}
		case OAdd:
			if a.b.op == OConst {
				return Eq(a.a, BV(b.k-a.b.k, a.w))
			}
		case OBXor:
			if a.b.op == OConst {
				return Eq(a.a, BV(b.k^a.b.k, a.w))
			}
		}
	} else if a.w == 0 {
		// bool equality kept
		if Not(a) == b {
			return TFalse
		}
	} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return Eq(a.a, b.a)
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return mkraw(OEq, 0, a, b, nil, 0)
}

func Ite(c, x, y *Term) *Term {
	if c.op == OConst {
		if c.k == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if c.op == ONot {
		return Ite(c.a, y, x)
	}
	if x.w == 0 {
		if x.op == OConst {
			if x.k == 1 {
				return Or(c, y)
			}
			return And(Not(c), y)
		}
		if y.op == OConst {
			if y.k == 1 {
				return Or(Not(c), x)
			}
			return And(c, x)
		}
		if x == c {
			return Or(c, y)
		}
		if y == c {
			return And(c, x)
		}
	}
	if x.op == OIte && x.a == c {
		x = x.b
	}
	if y.op == OIte && y.a == c {
		y = y.c
	}
	if x == y {
		return x
	}
	if y.op == OIte && y.b == x {
		return Ite(Or(c, y.a), x, y.c)
	}
	return mkraw(OIte, x.w, c, x, y, 0)
}

func evalOp(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	x &= m
	y &= m
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		if y == 0 {
			if sx(x, w) >= 0 {
				return m
			}
			return 1
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		if y == 0 {
			return x
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(s>>y) & m
	}
	panic("evalOp")
}

// Bin builds an arithmetic bit-vector term.
func Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return BV(evalOp(op, w, a.k, b.k), w)
	}
	if op >= OUDiv {
		if op == OBAnd && a.op == OConst {
			a, b = b, a
		}
		if r := bitRules(op, a, b); r != nil {
			return r
		}
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return Bin(OAdd, a.a, BV(a.b.k+b.k, w))
			}
			if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
				return Ite(a.a, BV(a.b.k+b.k, w), BV(a.c.k+b.k, w))
			}
		}
	case OSub:
		if b.op == OConst {
			return Bin(OAdd, a, BV(-b.k, w))
		}
		if a == b {
			return BV(0, w)
		}
		// (x + c) - x
		if a.op == OAdd && a.b.op == OConst && a.a == b {
			return a.b
		}
		if a.op == OAdd && b.op == OAdd && a.a == b.a && a.b.op == OConst && b.b.op == OConst {
			return BV(a.b.k-b.b.k, w)
		}
		if b.op == OAdd && b.b.op == OConst && b.a == a {
			return BV(-b.b.k, w)
		}
		if w == 64 {
			if r := linSub(a, b); r != nil {
				return r
			}
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			switch b.k {
			case 0:
				return b
			case 1:
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return Bin(OShl, a, BV(uint64(bits.TrailingZeros64(b.k)), w))
			}
		}
	case OUDiv:
		if b.op == OConst && b.k == 1 {
			return a
		}
		if b.op == OConst && bits.OnesCount64(b.k) == 1 {
			return Bin(OLShr, a, BV(uint64(bits.TrailingZeros64(b.k)), w))
		}
	case OURem:
		if b.op == OConst && bits.OnesCount64(b.k) == 1 {
			return Bin(OBAnd, a, BV(b.k-1, w))
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OZExt && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
		if a == b {
			return BV(0, w)
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.k == 0 {
			return a
		}
		if b.op == OConst && b.k >= uint64(w) && op != OAShr {
			return BV(0, w)
		}
	}
	return mkraw(op, w, a, b, nil, 0)
}

func urange(t *Term) (uint64, uint64) {
	switch t.op {
	case OConst:
		return t.k, t.k
	case OVar:
		return t.vars[0].lo, t.vars[0].hi
	case OZExt:
		return urange(t.a)
	case OExtract:
		if l, h := urange(t.a); h <= mask(t.w) {
			return l, h
		}
	case OBOr:
		if t.b.op == OConst {
			_, h := urange(t.a)
			return t.b.k, fill(h) | t.b.k
		}
	case OLShr:
		if t.b.op == OConst && t.b.k < 64 {
			l, h := urange(t.a)
			return l >> t.b.k, h >> t.b.k
		}
	case OURem:
		if t.b.op == OConst && t.b.k > 0 {
			return 0, t.b.k - 1
		}
	case OIte:
		if t.b.op == OConst || t.c.op == OConst || t.b.op == OVar {
			l1, h1 := urange(t.b)
			l2, h2 := urange(t.c)
			return min(l1, l2), max(h1, h2)
		}
	case OBAnd:
		if t.b.op == OConst {
			return 0, t.b.k
		}
	case OAdd:
		if t.b.op == OConst {
			l, h := urange(t.a)
			if h+t.b.k >= h && h+t.b.k <= mask(t.w) {
				return l + t.b.k, h + t.b.k
			}
			// adding a negative constant
			nk := (-t.b.k) & mask(t.w)
			if l >= nk {
				return l - nk, h - nk
			}
		}
	}
	return 0, mask(t.w)
}

func Ult(a, b *Term) *Term {
	if a == b {
		return TFalse
	}
	if a.op == OConst && b.op == OConst {
		return BoolT(a.k < b.k)
	}
	if linApplies(a, b) && linNonNeg(a) && linNonNeg(b) {
		if r := linLess(a, b); r != nil {
			return r
		}
	}
	l1, h1 := urange(a)
	l2, h2 := urange(b)
	if h1 < l2 {
		return TTrue
	}
	if l1 >= h2 {
		return TFalse
	}
	if b.op == OConst {
		if b.k == 1 {
			return Eq(a, BV(0, a.w))
		}
		if a.op == OZExt && b.k <= mask(a.a.w) {
			return Ult(a.a, BV(b.k, a.a.w))
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return Ite(a.a, Ult(a.b, b), Ult(a.c, b))
		}
	}
	if a.op == OConst {
		if b.op == OZExt && a.k <= mask(b.a.w) {
			return Ult(BV(a.k, b.a.w), b.a)
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return Ult(a.a, b.a)
	}
	return mkraw(OUlt, 0, a, b, nil, 0)
}
func Slt(a, b *Term) *Term {
	if a == b {
		return TFalse
	}
	if a.op == OConst && b.op == OConst {
		return BoolT(sx(a.k, a.w) < sx(b.k, b.w))
	}
	if linApplies(a, b) {
		if r := linLess(a, b); r != nil {
			return r
		}
	}
	// when both are known non-negative use unsigned
	sm := uint64(1) << (a.w - 1)
	l1, h1 := urange(a)
	l2, h2 := urange(b)
	if h1 < sm && h2 < sm {
		return Ult(a, b)
	}
	// b constant negative / a non negative
	if h1 < sm && l2 >= sm {
		return TFalse
	}
	if l1 >= sm && h2 < sm {
		return TTrue
	}
	if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return Slt(a.a, b.a)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst && b.op == OConst {
		return Ite(a.a, Slt(a.b, b), Slt(a.c, b))
	}
	return mkraw(OSlt, 0, a, b, nil, 0)
}

func ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return BV(a.k, w)
	}
	if a.op == OZExt {
		return ZExt(a.a, w)
	}
	if a.op == OExtract && a.a.w <= w {
		if _, h := urange(a.a); h <= mask(a.w) {
			return ZExt(a.a, w)
		}
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return Ite(a.a, ZExt(a.b, w), ZExt(a.c, w))
	}
	return mkraw(OZExt, w, a, nil, nil, 0)
}
func SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return BV(uint64(sx(a.k, a.w)), w)
	}
	if a.op == OZExt {
		return ZExt(a.a, w)
	}
	_, h := urange(a)
	if h < uint64(1)<<(a.w-1) {
		return ZExt(a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return Ite(a.a, SExt(a.b, w), SExt(a.c, w))
	}
	return mkraw(OSExt, w, a, nil, nil, 0)
}

// Trunc keeps the low w bits.
func Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return BV(a.k, w)
	}
	if a.op == OZExt || a.op == OSExt {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return Trunc(a.a, w)
		}
		if a.op == OZExt {
			return ZExt(a.a, w)
		}
		return SExt(a.a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return Ite(a.a, Trunc(a.b, w), Trunc(a.c, w))
	}
	return mkraw(OExtract, w, a, nil, nil, 0)
}

func BVNot(a *Term) *Term { return Bin(OBXor, a, BV(mask(a.w), a.w)) }
func BVNeg(a *Term) *Term { return Bin(OSub, BV(0, a.w), a) }

// BoolToBV turns a Bool into 0/1 of width w.
func BoolToBV(a *Term, w uint8) *Term { return Ite(a, BV(1, w), BV(0, w)) }

// Eval evaluates under a total assignment (missing variables are their lower bound).
func (t *Term) Eval(m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m.get(t.vars[0])
	}
	if memo != nil {
		if v, ok := memo[t]; ok {
			return v
		}
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = 1 - t.a.Eval(m, memo)
	case OAnd:
		r = t.a.Eval(m, memo)
		if r == 1 {
			r = t.b.Eval(m, memo)
		}
	case OOr:
		r = t.a.Eval(m, memo)
		if r == 0 {
			r = t.b.Eval(m, memo)
		}
	case OEq:
		r = b2u(t.a.Eval(m, memo) == t.b.Eval(m, memo))
	case OIte:
		if t.a.Eval(m, memo) == 1 {
			r = t.b.Eval(m, memo)
		} else {
			r = t.c.Eval(m, memo)
		}
	case OUlt:
		r = b2u(t.a.Eval(m, memo) < t.b.Eval(m, memo))
	case OSlt:
		r = b2u(sx(t.a.Eval(m, memo), t.a.w) < sx(t.b.Eval(m, memo), t.a.w))
	case OZExt:
		r = t.a.Eval(m, memo)
	case OSExt:
		r = uint64(sx(t.a.Eval(m, memo), t.a.w)) & mask(t.w)
	case OExtract:
		r = t.a.Eval(m, memo) & mask(t.w)
	default:
		r = evalOp(t.op, t.w, t.a.Eval(m, memo), t.b.Eval(m, memo))
	}
	if memo != nil {
		memo[t] = r
	}
	return r
}

// Model maps variable id to value.
type Model map[int]uint64

func (m Model) get(v *VarInfo) uint64 {
	if x, ok := m[v.id]; ok {
		return x
	}
	return v.lo
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	if d > 12 {
		sb.WriteString("...")
		return
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.k == 1)
		} else {
			fmt.Fprintf(sb, "%d", sx(t.k, t.w))
		}
	case OVar:
		sb.WriteString(t.vars[0].name)
	default:
		name := opSMT[t.op]
		if name == "" {
			name = fmt.Sprintf("op%d_%d", t.op, t.w)
		}
		sb.WriteString("(" + name)
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" ")
				x.str(sb, d+1)
			}
		}
		sb.WriteString(")")
	}
}

func sortedTerms(ts []*Term) []*Term {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}
