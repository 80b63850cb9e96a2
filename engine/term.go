package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"
)

// Sort: 0 = Bool, 1..64 = bit-vector of that width, sFP = float64.
type Sort uint8

const (
	sBool Sort = 0
	sFP   Sort = 100
)

type Op uint8

const (
	oConst Op = iota
	oVar
	oNot
	oAnd
	oOr
	oIte
	oEq
	oAdd
	oSub
	oMul
	oUDiv
	oURem
	oSDiv
	oSRem
	oBAnd
	oBOr
	oBXor
	oBNot
	oNeg
	oShl
	oLShr
	oAShr
	oULt
	oULe
	oSLt
	oSLe
	oExtract // p = hi<<8|lo
	oZExt
	oSExt
	oConcat
	// floating point (float64)
	oFAdd
	oFSub
	oFMul
	oFDiv
	oFNeg
	oFAbs
	oFSqrt
	oFLt
	oFLe
	oFEq
	oFIsNaN
	oFFloor // round to integral toward -inf
	oFCeil
	oFTrunc
	oFRoundEven
	oFFromS // signed bv -> fp
	oFFromU // unsigned bv -> fp
	oFToS   // fp -> signed bv64 (amd64 semantics)
	oFToU   // fp -> unsigned bv64 (amd64 semantics)
	oFFromBits
	oUF // uninterpreted float function; name
)

var opNames = map[Op]string{
	oNot: "not", oAnd: "and", oOr: "or", oIte: "ite", oEq: "=",
	oAdd: "bvadd", oSub: "bvsub", oMul: "bvmul", oUDiv: "bvudiv", oURem: "bvurem", oSDiv: "bvsdiv", oSRem: "bvsrem",
	oBAnd: "bvand", oBOr: "bvor", oBXor: "bvxor", oBNot: "bvnot", oNeg: "bvneg", oShl: "bvshl", oLShr: "bvlshr", oAShr: "bvashr",
	oULt: "bvult", oULe: "bvule", oSLt: "bvslt", oSLe: "bvsle", oConcat: "concat",
	oFAdd: "fp.add RNE", oFSub: "fp.sub RNE", oFMul: "fp.mul RNE", oFDiv: "fp.div RNE", oFNeg: "fp.neg", oFAbs: "fp.abs", oFSqrt: "fp.sqrt RNE",
	oFLt: "fp.lt", oFLe: "fp.leq", oFEq: "fp.eq", oFIsNaN: "fp.isNaN",
	oFFloor: "fp.roundToIntegral RTN", oFCeil: "fp.roundToIntegral RTP", oFTrunc: "fp.roundToIntegral RTZ", oFRoundEven: "fp.roundToIntegral RNE",
	oFFromS: "(_ to_fp 11 53) RNE", oFFromU: "(_ to_fp_unsigned 11 53) RNE", oFFromBits: "(_ to_fp 11 53)",
}

type Term struct {
	op   Op
	s    Sort
	a    []*Term
	v    uint64
	name string
	id   int
	defd bool // defined in the solver
	gen  int  // eval memo generation
	ev   uint64
}

type tkey struct {
	op      Op
	s       Sort
	a, b, c int
	v       uint64
	name    string
}

type TermTable struct {
	tab  map[tkey]*Term
	next int
	gen  int
	T, F *Term
}

func NewTerms() *TermTable {
	t := &TermTable{tab: map[tkey]*Term{}, next: 1}
	t.T = t.mk(oConst, sBool, 1, "")
	t.F = t.mk(oConst, sBool, 0, "")
	return t
}

func (t *TermTable) mk(op Op, s Sort, v uint64, name string, a ...*Term) *Term {
	k := tkey{op: op, s: s, v: v, name: name}
	if len(a) > 0 {
		k.a = a[0].id
	}
	if len(a) > 1 {
		k.b = a[1].id
	}
	if len(a) > 2 {
		k.c = a[2].id
	}
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := &Term{op: op, s: s, a: a, v: v, name: name, id: t.next}
	t.next++
	t.tab[k] = x
	return x
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}
func sext(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (t *TermTable) Const(s Sort, v uint64) *Term {
	if s == sBool {
		if v != 0 {
			return t.T
		}
		return t.F
	}
	if s != sFP {
		v &= mask(s)
	}
	return t.mk(oConst, s, v, "")
}
func (t *TermTable) Bool(b bool) *Term {
	if b {
		return t.T
	}
	return t.F
}
func (t *TermTable) Var(s Sort, name string) *Term { return t.mk(oVar, s, 0, name) }

func (x *Term) isConst() bool { return x.op == oConst }

func (t *TermTable) Not(x *Term) *Term {
	if x == t.T {
		return t.F
	}
	if x == t.F {
		return t.T
	}
	if x.op == oNot {
		return x.a[0]
	}
	return t.mk(oNot, sBool, 0, "", x)
}
func (t *TermTable) And(x, y *Term) *Term {
	if x == t.F || y == t.F {
		return t.F
	}
	if x == t.T {
		return y
	}
	if y == t.T || x == y {
		return x
	}
	if t.Not(x) == y {
		return t.F
	}
	if x.id > y.id {
		x, y = y, x
	}
	return t.mk(oAnd, sBool, 0, "", x, y)
}
func (t *TermTable) Or(x, y *Term) *Term {
	if x == t.T || y == t.T {
		return t.T
	}
	if x == t.F {
		return y
	}
	if y == t.F || x == y {
		return x
	}
	if t.Not(x) == y {
		return t.T
	}
	if x.id > y.id {
		x, y = y, x
	}
	return t.mk(oOr, sBool, 0, "", x, y)
}
func (t *TermTable) Ite(c, x, y *Term) *Term {
	if c == t.T || x == y {
		return x
	}
	if c == t.F {
		return y
	}
	if x.s == sBool {
		if x == t.T {
			return t.Or(c, y)
		}
		if x == t.F {
			return t.And(t.Not(c), y)
		}
		if y == t.T {
			return t.Or(t.Not(c), x)
		}
		if y == t.F {
			return t.And(c, x)
		}
	}
	if c.op == oNot {
		return t.Ite(c.a[0], y, x)
	}
	return t.mk(oIte, x.s, 0, "", c, x, y)
}
func (t *TermTable) Eq(x, y *Term) *Term {
	if x == y {
		return t.T
	}
	if x.isConst() && y.isConst() {
		return t.Bool(x.v == y.v)
	}
	if x.s == sBool {
		if x.isConst() {
			x, y = y, x
		}
		if y == t.T {
			return x
		}
		if y == t.F {
			return t.Not(x)
		}
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		// push equality with a constant through simple structure
		switch x.op {
		case oIte:
			if x.a[1].isConst() || x.a[2].isConst() {
				return t.Ite(x.a[0], t.Eq(x.a[1], y), t.Eq(x.a[2], y))
			}
		case oZExt:
			w := x.a[0].s
			if y.v&^mask(w) != 0 {
				return t.F
			}
			return t.Eq(x.a[0], t.Const(w, y.v))
		case oSExt:
			w := x.a[0].s
			if uint64(sext(y.v&mask(w), w))&mask(x.s) != y.v {
				return t.F
			}
			return t.Eq(x.a[0], t.Const(w, y.v))
		case oAdd:
			if x.a[1].isConst() {
				return t.Eq(x.a[0], t.Const(x.s, y.v-x.a[1].v))
			}
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return t.mk(oEq, sBool, 0, "", x, y)
}

func foldBV(op Op, s Sort, a, b uint64) (uint64, bool) {
	m := mask(s)
	switch op {
	case oAdd:
		return (a + b) & m, true
	case oSub:
		return (a - b) & m, true
	case oMul:
		return (a * b) & m, true
	case oUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case oURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case oSDiv:
		x, y := sext(a, s), sext(b, s)
		if y == 0 {
			if x >= 0 {
				return m, true
			}
			return 1, true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case oSRem:
		x, y := sext(a, s), sext(b, s)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case oBAnd:
		return a & b, true
	case oBOr:
		return a | b, true
	case oBXor:
		return a ^ b, true
	case oShl:
		if b >= uint64(s) {
			return 0, true
		}
		return (a << b) & m, true
	case oLShr:
		if b >= uint64(s) {
			return 0, true
		}
		return a >> b, true
	case oAShr:
		x := sext(a, s)
		if b >= uint64(s) {
			b = 63
		}
		return uint64(x>>b) & m, true
	}
	return 0, false
}

func (t *TermTable) Bin(op Op, x, y *Term) *Term {
	s := x.s
	if x.isConst() && y.isConst() {
		if v, ok := foldBV(op, s, x.v, y.v); ok {
			return t.Const(s, v)
		}
	}
	switch op {
	case oAdd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.v == 0 {
				return x
			}
			if x.op == oAdd && x.a[1].isConst() {
				return t.Bin(oAdd, x.a[0], t.Const(s, x.a[1].v+y.v))
			}
			if x.op == oIte && x.a[1].isConst() && x.a[2].isConst() {
				return t.Ite(x.a[0], t.Bin(oAdd, x.a[1], y), t.Bin(oAdd, x.a[2], y))
			}
		} else if x.id > y.id {
			x, y = y, x
		}
	case oSub:
		if x == y {
			return t.Const(s, 0)
		}
		if y.isConst() {
			return t.Bin(oAdd, x, t.Const(s, -y.v))
		}
		if x.op == oAdd && x.a[0] == y {
			return x.a[1]
		}
		if x.op == oAdd && x.a[1] == y {
			return x.a[0]
		}
	case oMul:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.v == 0 {
				return y
			}
			if y.v == 1 {
				return x
			}
		} else if x.id > y.id {
			x, y = y, x
		}
	case oBAnd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.v == 0 {
				return y
			}
			if y.v == mask(s) {
				return x
			}
		}
		if x == y {
			return x
		}
	case oBOr:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.v == 0 {
			return x
		}
		if x == y {
			return x
		}
	case oBXor:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.v == 0 {
			return x
		}
		if x == y {
			return t.Const(s, 0)
		}
	case oShl, oLShr, oAShr:
		if y.isConst() && y.v == 0 {
			return x
		}
	case oUDiv, oSDiv:
		if y.isConst() && y.v == 1 {
			return x
		}
	}
	return t.mk(op, s, 0, "", x, y)
}

func cmpBV(op Op, s Sort, a, b uint64) bool {
	switch op {
	case oULt:
		return a < b
	case oULe:
		return a <= b
	case oSLt:
		return sext(a, s) < sext(b, s)
	case oSLe:
		return sext(a, s) <= sext(b, s)
	}
	panic("cmpBV")
}

func (t *TermTable) Cmp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return t.Bool(cmpBV(op, x.s, x.v, y.v))
	}
	if x == y {
		return t.Bool(op == oULe || op == oSLe)
	}
	// canonical: a<=b  =>  not (b<a)
	if op == oULe {
		return t.Not(t.Cmp(oULt, y, x))
	}
	if op == oSLe {
		return t.Not(t.Cmp(oSLt, y, x))
	}
	if op == oULt && y.isConst() && y.v == 0 {
		return t.F
	}
	if op == oULt && x.isConst() && x.v == mask(x.s) {
		return t.F
	}
	if x.op == oZExt && y.isConst() && op == oSLt && x.s > x.a[0].s {
		w := x.a[0].s
		yv := sext(y.v, x.s)
		if yv <= 0 {
			return t.F
		}
		if uint64(yv) > mask(w) {
			return t.T
		}
	}
	if y.op == oZExt && x.isConst() && op == oSLt && y.s > y.a[0].s {
		w := y.a[0].s
		xv := sext(x.v, y.s)
		if xv < 0 {
			return t.T
		}
		if uint64(xv) >= mask(w) {
			return t.F
		}
	}
	return t.mk(op, sBool, 0, "", x, y)
}

func (t *TermTable) BNot(x *Term) *Term {
	if x.isConst() {
		return t.Const(x.s, ^x.v)
	}
	return t.mk(oBNot, x.s, 0, "", x)
}
func (t *TermTable) Neg(x *Term) *Term {
	if x.isConst() {
		return t.Const(x.s, -x.v)
	}
	return t.mk(oNeg, x.s, 0, "", x)
}

func (t *TermTable) Extract(x *Term, hi, lo uint) *Term {
	w := Sort(hi - lo + 1)
	if w == x.s {
		return x
	}
	if x.isConst() {
		return t.Const(w, x.v>>lo)
	}
	if lo == 0 && (x.op == oZExt || x.op == oSExt) {
		iw := x.a[0].s
		if w == iw {
			return x.a[0]
		}
		if w < iw {
			return t.Extract(x.a[0], hi, 0)
		}
		if x.op == oZExt {
			return t.ZExt(x.a[0], w)
		}
		return t.SExt(x.a[0], w)
	}
	return t.mk(oExtract, w, uint64(hi)<<8|uint64(lo), "", x)
}
func (t *TermTable) ZExt(x *Term, w Sort) *Term {
	if x.s == w {
		return x
	}
	if x.isConst() {
		return t.Const(w, x.v)
	}
	if x.op == oIte && x.a[1].isConst() && x.a[2].isConst() {
		return t.Ite(x.a[0], t.ZExt(x.a[1], w), t.ZExt(x.a[2], w))
	}
	return t.mk(oZExt, w, uint64(w-x.s), "", x)
}
func (t *TermTable) SExt(x *Term, w Sort) *Term {
	if x.s == w {
		return x
	}
	if x.isConst() {
		return t.Const(w, uint64(sext(x.v, x.s)))
	}
	return t.mk(oSExt, w, uint64(w-x.s), "", x)
}

func f64(v uint64) float64   { return math.Float64frombits(v) }
func bitsf(f float64) uint64 { return math.Float64bits(f) }

func goF2S(f float64) uint64 { // amd64 CVTTSD2SQ
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return 1 << 63
	}
	return uint64(int64(f))
}
func goF2U(f float64) uint64 { // amd64: if f < 2^63 then int64(f) else int64(f-2^63)^1<<63
	if f < 9223372036854775808.0 {
		return goF2S(f)
	}
	return goF2S(f-9223372036854775808.0) ^ (1 << 63)
}

func foldF(op Op, a, b float64) (float64, bool) {
	switch op {
	case oFAdd:
		return a + b, true
	case oFSub:
		return a - b, true
	case oFMul:
		return a * b, true
	case oFDiv:
		return a / b, true
	}
	return 0, false
}

func (t *TermTable) FConst(f float64) *Term { return t.Const(sFP, bitsf(f)) }
func (t *TermTable) FBin(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		if r, ok := foldF(op, f64(x.v), f64(y.v)); ok {
			return t.FConst(r)
		}
	}
	return t.mk(op, sFP, 0, "", x, y)
}
func (t *TermTable) FCmp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		a, b := f64(x.v), f64(y.v)
		switch op {
		case oFLt:
			return t.Bool(a < b)
		case oFLe:
			return t.Bool(a <= b)
		case oFEq:
			return t.Bool(a == b)
		}
	}
	return t.mk(op, sBool, 0, "", x, y)
}
func (t *TermTable) FUn(op Op, x *Term) *Term {
	if x.isConst() {
		f := f64(x.v)
		switch op {
		case oFNeg:
			return t.FConst(-f)
		case oFAbs:
			return t.FConst(math.Abs(f))
		case oFSqrt:
			return t.FConst(math.Sqrt(f))
		case oFFloor:
			return t.FConst(math.Floor(f))
		case oFCeil:
			return t.FConst(math.Ceil(f))
		case oFTrunc:
			return t.FConst(math.Trunc(f))
		case oFRoundEven:
			return t.FConst(math.RoundToEven(f))
		case oFIsNaN:
			return t.Bool(f != f)
		case oFToS:
			return t.Const(64, goF2S(f))
		case oFToU:
			return t.Const(64, goF2U(f))
		}
	}
	s := sFP
	switch op {
	case oFIsNaN:
		s = sBool
	case oFToS, oFToU:
		s = 64
	}
	return t.mk(op, s, 0, "", x)
}
func (t *TermTable) FFrom(signed bool, x *Term) *Term {
	if x.isConst() {
		if signed {
			return t.FConst(float64(sext(x.v, x.s)))
		}
		return t.FConst(float64(x.v))
	}
	if signed {
		return t.mk(oFFromS, sFP, 0, "", x)
	}
	return t.mk(oFFromU, sFP, 0, "", x)
}
func (t *TermTable) FFromBits(x *Term) *Term {
	if x.isConst() {
		return t.Const(sFP, x.v)
	}
	return t.mk(oFFromBits, sFP, 0, "", x)
}

// ---- evaluation under a model ----

type Model map[*Term]uint64 // vars only; missing = 0
// UF values: keyed by term (application) since args vary; missing = 0

func (t *TermTable) Eval(x *Term, m Model) uint64 {
	t.gen++
	return t.eval(x, m)
}
func (t *TermTable) eval(x *Term, m Model) uint64 {
	if x.op == oConst {
		return x.v
	}
	if x.gen == t.gen {
		return x.ev
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch x.op {
	case oVar, oUF:
		r = m[x]
	case oIte:
		if t.eval(x.a[0], m) != 0 {
			r = t.eval(x.a[1], m)
		} else {
			r = t.eval(x.a[2], m)
		}
	case oAnd:
		r = b2u(t.eval(x.a[0], m) != 0 && t.eval(x.a[1], m) != 0)
	case oOr:
		r = b2u(t.eval(x.a[0], m) != 0 || t.eval(x.a[1], m) != 0)
	default:
		a := t.eval(x.a[0], m)
		var b uint64
		if len(x.a) > 1 {
			b = t.eval(x.a[1], m)
		}
		as := x.a[0].s
		switch x.op {
		case oNot:
			r = a ^ 1
		case oEq:
			r = b2u(a == b)
			if as == sFP && f64(a) != f64(a) && f64(b) != f64(b) {
				r = 1
			}
		case oULt, oULe, oSLt, oSLe:
			r = b2u(cmpBV(x.op, as, a, b))
		case oBNot:
			r = ^a & mask(x.s)
		case oNeg:
			r = -a & mask(x.s)
		case oExtract:
			r = (a >> (x.v & 0xff)) & mask(x.s)
		case oZExt:
			r = a
		case oSExt:
			r = uint64(sext(a, as)) & mask(x.s)
		case oConcat:
			r = (a<<uint(x.a[1].s) | b) & mask(x.s)
		case oFAdd, oFSub, oFMul, oFDiv:
			f, _ := foldF(x.op, f64(a), f64(b))
			r = bitsf(f)
		case oFNeg:
			r = bitsf(-f64(a))
		case oFAbs:
			r = bitsf(math.Abs(f64(a)))
		case oFSqrt:
			r = bitsf(math.Sqrt(f64(a)))
		case oFFloor:
			r = bitsf(math.Floor(f64(a)))
		case oFCeil:
			r = bitsf(math.Ceil(f64(a)))
		case oFTrunc:
			r = bitsf(math.Trunc(f64(a)))
		case oFRoundEven:
			r = bitsf(math.RoundToEven(f64(a)))
		case oFIsNaN:
			r = b2u(f64(a) != f64(a))
		case oFLt:
			r = b2u(f64(a) < f64(b))
		case oFLe:
			r = b2u(f64(a) <= f64(b))
		case oFEq:
			r = b2u(f64(a) == f64(b))
		case oFFromS:
			r = bitsf(float64(sext(a, as)))
		case oFFromU:
			r = bitsf(float64(a))
		case oFToS:
			r = goF2S(f64(a))
		case oFToU:
			r = goF2U(f64(a))
		case oFFromBits:
			r = a
		default:
			v, ok := foldBV(x.op, x.s, a, b)
			if !ok {
				panic("eval op")
			}
			r = v
		}
	}
	x.gen, x.ev = t.gen, r
	return r
}

// ---- printing ----

func sortStr(s Sort) string {
	switch s {
	case sBool:
		return "Bool"
	case sFP:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func (x *Term) ref() string {
	switch x.op {
	case oConst:
		switch x.s {
		case sBool:
			if x.v != 0 {
				return "true"
			}
			return "false"
		case sFP:
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", x.v)
		}
		if x.s%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(x.s)/4, x.v)
		}
		return fmt.Sprintf("#b%0*b", int(x.s), x.v)
	case oVar:
		if x.s == sFP {
			return fmt.Sprintf("((_ to_fp 11 53) |%s|)", x.name)
		}
		return "|" + x.name + "|"
	}
	return fmt.Sprintf("t%d", x.id)
}

func (x *Term) body() string {
	switch x.op {
	case oExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", x.v>>8, x.v&0xff, x.a[0].ref())
	case oZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", x.v, x.a[0].ref())
	case oSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", x.v, x.a[0].ref())
	case oFToS:
		a := x.a[0].ref()
		return fmt.Sprintf("(ite (and (not (fp.isNaN %s)) (fp.lt %s ((_ to_fp 11 53) #x43e0000000000000)) (fp.geq %s ((_ to_fp 11 53) #xc3e0000000000000))) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", a, a, a, a)
	case oFToU:
		a := x.a[0].ref()
		k := "((_ to_fp 11 53) #x43e0000000000000)"
		conv := func(e string) string {
			return fmt.Sprintf("(ite (and (not (fp.isNaN %s)) (fp.lt %s %s) (fp.geq %s ((_ to_fp 11 53) #xc3e0000000000000))) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", e, e, k, e, e)
		}
		return fmt.Sprintf("(ite (fp.lt %s %s) %s (bvxor #x8000000000000000 %s))", a, k, conv(a), conv(fmt.Sprintf("(fp.sub RNE %s %s)", a, k)))
	}
	var sb strings.Builder
	sb.WriteString("(")
	if x.op == oUF {
		sb.WriteString("|" + x.name + "|")
	} else {
		n, ok := opNames[x.op]
		if !ok {
			panic(fmt.Sprintf("no op name %d", x.op))
		}
		sb.WriteString(n)
	}
	for _, a := range x.a {
		sb.WriteString(" ")
		sb.WriteString(a.ref())
	}
	sb.WriteString(")")
	return sb.String()
}

func (x *Term) String() string { return x.show(4) }
func (x *Term) show(d int) string {
	if x.op == oConst {
		if x.s == sFP {
			return fmt.Sprint(f64(x.v))
		}
		if x.s == sBool {
			return x.ref()
		}
		return fmt.Sprint(sext(x.v, x.s))
	}
	if x.op == oVar {
		return x.name
	}
	if d == 0 {
		return "…"
	}
	n := opNames[x.op]
	if x.op == oExtract {
		n = fmt.Sprintf("extract[%d:%d]", x.v>>8, x.v&0xff)
	}
	if n == "" {
		n = fmt.Sprintf("op%d%s", x.op, x.name)
	}
	var sb strings.Builder
	sb.WriteString("(" + n)
	for _, a := range x.a {
		sb.WriteString(" " + a.show(d-1))
	}
	return sb.String() + ")"
}

var _ = bits.Len
var _ = big.NewInt
