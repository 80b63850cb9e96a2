package main

import (
	"fmt"
	"math"
)

// Monotone floating point (harness option fp=mono).
//
// A float64 computed from one symbolic integer by operations that do not decrease
// (conversion, adding a constant, multiplying or dividing by a positive constant,
// math.Log) is kept as the composed host function of that integer. A comparison with
// a constant is then exactly a comparison of the integer with a threshold, found by
// binary search over its domain, and a conversion back to an integer is a choice of
// one interval of it: the solver sees bit-vectors only. Correctly rounded operations
// do not decrease; that math.Log does not is an assumption the evidence notes.

type monoInfo struct {
	base *Term
	f    func(uint64) float64
}

const monoMax = 1 << 53

func (w *Worker) monoOf(t *Term) *monoInfo {
	if m, ok := w.side[fmt.Sprintf("monoinfo:%d", t.id)]; ok {
		return m.(*monoInfo)
	}
	return nil
}

func (w *Worker) monoVar(of *monoInfo, f func(uint64) float64) *Term {
	if w.spec != nil {
		panic(specAbort{})
	}
	v := w.newVar(sFP, "mono")
	w.side[fmt.Sprintf("monoinfo:%d", v.id)] = &monoInfo{of.base, f}
	w.note("monotone-fp")
	return v
}

// monoFirst returns the least v in [0, monoMax+1] for which p holds; p does not go from true to false.
func monoFirst(p func(v uint64) bool) uint64 {
	lo, hi := uint64(0), uint64(monoMax+1)
	for lo < hi {
		m := lo + (hi-lo)/2
		if p(m) {
			hi = m
		} else {
			lo = m + 1
		}
	}
	return lo
}

// monoStep handles an operation on a monotone value.
func (w *Worker) monoStep(t *Term) (value, bool) {
	tt := w.tt
	key := fmt.Sprintf("monostep:%d", t.id)
	if v, ok := w.side[key]; ok {
		return v, true
	}
	done := func(v value) (value, bool) {
		w.side[key] = v
		return v, true
	}
	switch t.op {
	case oFFromS, oFFromU:
		x := t.a[0]
		if x.s != 64 {
			return nil, false
		}
		if w.spec != nil {
			panic(specAbort{})
		}
		if !w.branch(tt.Cmp(oULe, x, tt.Const(64, monoMax))) {
			w.unsupported("fp=mono: conversion of an integer outside [0, 2^53]")
		}
		signed := t.op == oFFromS
		return done(w.monoVar(&monoInfo{base: x}, func(v uint64) float64 {
			if signed {
				return float64(int64(v))
			}
			return float64(v)
		}))
	case oFAdd, oFSub, oFMul, oFDiv:
		x, y := t.a[0], t.a[1]
		var m *monoInfo
		var c float64
		swap := false
		switch {
		case y.isConst():
			m, c = w.monoOf(x), f64(y.v)
		case x.isConst():
			m, c, swap = w.monoOf(y), f64(x.v), true
		}
		if m == nil {
			if w.monoOf(x) != nil || w.monoOf(y) != nil {
				w.unsupported("fp=mono: operation %s of two symbolic values", t)
			}
			return nil, false
		}
		op := t.op
		if op == oFMul && c > 0 || op == oFDiv && c > 0 && !swap || op == oFAdd || op == oFSub && !swap {
			return done(w.monoVar(m, func(v uint64) float64 {
				a := m.f(v)
				switch op {
				case oFAdd:
					return a + c
				case oFSub:
					return a - c
				case oFMul:
					return a * c
				}
				return a / c
			}))
		}
		w.unsupported("fp=mono: operation %s", t)
	case oFLt, oFLe, oFEq:
		x, y := t.a[0], t.a[1]
		mx, my := w.monoOf(x), w.monoOf(y)
		switch {
		case mx == nil && my == nil:
			return nil, false
		case mx != nil && my != nil || mx != nil && !y.isConst() || my != nil && !x.isConst():
			w.unsupported("fp=mono: comparison of two symbolic values")
		}
		var m *monoInfo
		var c float64
		if mx != nil {
			m, c = mx, f64(y.v)
		} else {
			m, c = my, f64(x.v)
		}
		if c != c {
			return done(false)
		}
		ge := monoFirst(func(v uint64) bool { return m.f(v) >= c })
		gt := monoFirst(func(v uint64) bool { return m.f(v) > c })
		from := func(n uint64) *Term { return tt.Not(tt.Cmp(oULt, m.base, tt.Const(64, n))) }
		var r *Term
		switch {
		case t.op == oFEq:
			r = tt.And(from(ge), tt.Not(from(gt)))
		case mx != nil && t.op == oFLt: // m < c
			r = tt.Not(from(ge))
		case mx != nil: // m <= c
			r = tt.Not(from(gt))
		case t.op == oFLt: // c < m
			r = from(gt)
		default:
			r = from(ge)
		}
		return done(w.simp(r))
	case oFToS, oFToU, oExtract:
		x := t.a[0]
		conv := goF2S
		if t.op == oExtract {
			if x.op != oFToS {
				return nil, false
			}
			x = x.a[0]
		} else if t.op == oFToU {
			conv = goF2U
		}
		m := w.monoOf(x)
		if m == nil {
			return nil, false
		}
		if w.spec != nil {
			panic(specAbort{})
		}
		// intervals of equal converted value: truncation does not decrease
		type iv struct{ start, val uint64 }
		var ivs []iv
		for v := uint64(0); v <= monoMax; {
			f := m.f(v)
			ivs = append(ivs, iv{v, conv(f)})
			if len(ivs) > 4096 {
				w.unsupported("fp=mono: more than 4096 integer values")
			}
			tr := math.Trunc(f)
			v = monoFirst(func(u uint64) bool { return u > v && math.Trunc(m.f(u)) != tr })
		}
		lo, hi := 0, len(ivs)
		for hi-lo > 1 {
			mid := (lo + hi) / 2
			if w.branch(tt.Cmp(oULt, m.base, tt.Const(64, ivs[mid].start))) {
				hi = mid
			} else {
				lo = mid
			}
		}
		r := ivs[lo].val
		if t.op == oExtract {
			r &= mask(t.s)
		}
		return done(r)
	}
	return nil, false
}
