package main

import (
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}
var pureIntr = map[string]bool{}

func reg(name string, f intrinsic)  { intrinsics[name] = f }
func regP(name string, f intrinsic) { intrinsics[name] = f; pureIntr[name] = true }

const vp = "github.com/square/finch/zzverif/verif."

func cstr(w *Worker, v value) string {
	s, ok := v.(string)
	if !ok {
		w.unsupported("concrete string needed, got %v", v)
	}
	return s
}

func cint(w *Worker, v value) int64 {
	switch x := v.(type) {
	case uint64:
		return int64(x)
	case *Term:
		return int64(w.concretize(w.tt.SExt(x, 64), 64))
	}
	w.unsupported("concrete int needed, got %T", v)
	return 0
}

func (w *Worker) goError(msg value) value {
	p := w.e.prog.ImportedPackage("errors")
	t := p.Type("errorString").Type()
	c := new(value)
	*c = structV{msg}
	return iface{types.NewPointer(t), c}
}

func nilErr() value { return iface{} }

// hostFn registers a host implementation used when all arguments are concrete.
func hostFn(name string, fn any, sym intrinsic) {
	rv := reflect.ValueOf(fn)
	rt := rv.Type()
	regP(name, func(fr *frame, args []value) value {
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			v, ok := toHost(a, rt.In(i))
			if !ok {
				if sym != nil {
					return sym(fr, args)
				}
				return fallthru
			}
			in[i] = v
		}
		var out []reflect.Value
		if rt.IsVariadic() {
			out = rv.CallSlice(in)
		} else {
			out = rv.Call(in)
		}
		if len(out) == 1 {
			return fromHost(fr.w, out[0])
		}
		t := make(tupleV, len(out))
		for i := range out {
			t[i] = fromHost(fr.w, out[i])
		}
		return t
	})
}

func toHost(v value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		return reflect.ValueOf(s), ok
	case reflect.Bool:
		b, ok := v.(bool)
		return reflect.ValueOf(b), ok
	case reflect.Float64:
		b, ok := v.(float64)
		return reflect.ValueOf(b), ok
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint8, reflect.Uint64, reflect.Uint, reflect.Uint32:
		u, ok := v.(uint64)
		if !ok {
			return reflect.Value{}, false
		}
		r := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.Int32:
			r.SetInt(int64(int32(uint32(u))))
		case reflect.Int, reflect.Int64:
			r.SetInt(int64(u))
		default:
			r.SetUint(u)
		}
		return r, true
	case reflect.Slice:
		s, ok := v.([]value)
		if !ok {
			return reflect.Value{}, false
		}
		if s == nil {
			return reflect.Zero(t), true
		}
		r := reflect.MakeSlice(t, len(s), len(s))
		for i := range s {
			e, ok := toHost(s[i], t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(e)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func fromHost(w *Worker, v reflect.Value) value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Float64:
		return v.Float()
	case reflect.Int, reflect.Int64:
		return uint64(v.Int())
	case reflect.Int32:
		return uint64(uint32(v.Int()))
	case reflect.Uint8, reflect.Uint64, reflect.Uint, reflect.Uint32:
		return v.Uint()
	case reflect.Slice:
		if v.IsNil() {
			return []value(nil)
		}
		s := make([]value, v.Len())
		for i := range s {
			s[i] = fromHost(w, v.Index(i))
		}
		return s
	case reflect.Interface:
		if v.IsNil() {
			return iface{}
		}
		if e, ok := v.Interface().(error); ok {
			return w.goError(e.Error())
		}
	}
	panic("fromHost " + v.Kind().String())
}

func init() {
	registerVerif()
	registerStrings()
	registerFmt()
	registerMath()
	registerSync()
	registerTime()
	registerMisc()
	registerOS()
}

// ---- verif package ----

func (w *Worker) ndInt(name string, s Sort, signed bool, lo, hi uint64) value {
	t := w.newVar(s, name)
	w.nd = append(w.nd, ndRec{name: t.name, kind: "int", t: t, w: s, sgn: signed})
	if signed {
		if sext(lo, s) != math.MinInt64>>(64-s) {
			w.addPC(w.tt.Cmp(oSLe, w.tt.Const(s, lo), t))
		}
		w.addPC(w.tt.Cmp(oSLe, t, w.tt.Const(s, hi)))
	} else {
		w.addPC(w.tt.Cmp(oULe, w.tt.Const(s, lo), t))
		w.addPC(w.tt.Cmp(oULe, t, w.tt.Const(s, hi)))
	}
	if lo == hi {
		return lo & mask(s)
	}
	return t
}

func registerVerif() {
	reg(vp+"Int64", func(fr *frame, a []value) value {
		return fr.w.ndInt(cstr(fr.w, a[0]), 64, true, uint64(cint(fr.w, a[1])), uint64(cint(fr.w, a[2])))
	})
	intrinsics[vp+"Int"] = intrinsics[vp+"Int64"]
	reg(vp+"Uint64", func(fr *frame, a []value) value {
		return fr.w.ndInt(cstr(fr.w, a[0]), 64, false, uint64(cint(fr.w, a[1])), uint64(cint(fr.w, a[2])))
	})
	reg(vp+"Byte", func(fr *frame, a []value) value {
		return fr.w.ndInt(cstr(fr.w, a[0]), 8, false, 0, 255)
	})
	reg(vp+"Bool", func(fr *frame, a []value) value {
		w := fr.w
		t := w.newVar(sBool, cstr(w, a[0]))
		w.nd = append(w.nd, ndRec{name: t.name, kind: "bool", t: t, w: 1})
		return t
	})
	reg(vp+"Float64", func(fr *frame, a []value) value {
		w := fr.w
		t := w.newVar(sFP, cstr(w, a[0]))
		w.nd = append(w.nd, ndRec{name: t.name, kind: "float", t: t, w: 64})
		return t
	})
	reg(vp+"Choose", func(fr *frame, a []value) value {
		w := fr.w
		n := int(cint(w, a[1]))
		k := w.chooseN(n)
		w.nd = append(w.nd, ndRec{name: cstr(w, a[0]), kind: "choice", c: k})
		return uint64(k)
	})
	reg(vp+"Pick", func(fr *frame, a []value) value {
		// a symbolic integer resolved by forking over its values
		w := fr.w
		lo, hi := cint(w, a[1]), cint(w, a[2])
		k := int64(w.chooseN(int(hi-lo+1))) + lo
		w.nd = append(w.nd, ndRec{name: cstr(w, a[0]), kind: "choice", c: k})
		return uint64(k)
	})
	reg(vp+"Str", func(fr *frame, a []value) value {
		w := fr.w
		t := w.newVar(64, cstr(w, a[0]))
		w.nd = append(w.nd, ndRec{name: t.name, kind: "str", t: t, w: 64})
		w.addPC(w.tt.Not(w.tt.Eq(t, w.tt.Const(64, 0))))
		return normRope([]seg{{k: kAtom, t: t}})
	})
	reg(vp+"Bytes", func(fr *frame, a []value) value {
		w := fr.w
		n := int(cint(w, a[1]))
		name := cstr(w, a[0])
		var cells []value
		for i := 0; i < n; i++ {
			cells = append(cells, w.ndInt(fmt.Sprintf("%s[%d]", name, i), 8, false, 0, 255))
		}
		return ropeFromCells(cells)
	})
	reg(vp+"Assume", func(fr *frame, a []value) value {
		w := fr.w
		switch x := a[0].(type) {
		case bool:
			if !x {
				w.finish("infeasible")
			}
		case *Term:
			w.assume(x)
		}
		return nil
	})
	reg(vp+"Assert", func(fr *frame, a []value) value {
		fr.w.assert(a[0], cstr(fr.w, a[1]), fr.w.where())
		return nil
	})
	reg(vp+"Fail", func(fr *frame, a []value) value {
		fr.w.assert(false, cstr(fr.w, a[0]), fr.w.where())
		return nil
	})
	reg(vp+"Reach", func(fr *frame, a []value) value {
		w := fr.w
		l := cstr(w, a[0])
		e := w.e
		e.mu.Lock()
		need := e.cover[l] && e.reach[l] == 0
		e.mu.Unlock()
		if need && !w.needModel() {
			w.finish("infeasible")
		}
		w.reached[l] = true
		return nil
	})
	reg(vp+"Cover", func(fr *frame, a []value) value {
		e := fr.w.e
		l := cstr(fr.w, a[0])
		e.mu.Lock()
		e.cover[l] = true
		e.mu.Unlock()
		return nil
	})
	reg(vp+"Covering", func(fr *frame, a []value) value { return "" })
	reg(vp+"Thorough", func(fr *frame, a []value) value { return fr.w.e.tier == "thorough" })
	reg(vp+"Bound", func(fr *frame, a []value) value {
		if fr.w.e.tier == "thorough" {
			return a[1]
		}
		return a[0]
	})
	reg(vp+"Native", func(fr *frame, a []value) value { return false })
	reg(vp+"MapOrder", func(fr *frame, a []value) value { fr.w.mapOrder = true; return nil })
	reg(vp+"MapOrderOff", func(fr *frame, a []value) value { fr.w.mapOrder = false; return nil })
	reg(vp+"SelectND", func(fr *frame, a []value) value { fr.w.selND = true; return nil })
	reg(vp+"Sched", func(fr *frame, a []value) value {
		fr.w.schedMode = 1
		fr.w.preempt = int(cint(fr.w, a[0]))
		return nil
	})
	reg(vp+"SchedIn", func(fr *frame, a []value) value {
		fr.w.schedIn = append(fr.w.schedIn, cstr(fr.w, a[0]))
		return nil
	})
	reg(vp+"SchedOff", func(fr *frame, a []value) value {
		fr.w.schedMode = 0
		return nil
	})
	reg(vp+"Race", func(fr *frame, a []value) value {
		fr.w.race = &raceState{cells: map[any]*raceCell{}}
		for _, g := range fr.w.gs {
			g.tick()
		}
		return nil
	})
	reg(vp+"NoMerge", func(fr *frame, a []value) value { fr.w.noMerge = true; return nil })
	reg(vp+"Quiesce", func(fr *frame, a []value) value {
		w := fr.w
		// run the others until none of them can run
		g := w.cur
		for n := 0; ; n++ {
			var others []*gor
			for _, r := range w.runnable() {
				if r != g {
					others = append(others, r)
				}
			}
			if len(others) == 0 {
				break
			}
			if n > 100000 {
				w.unsupported("quiesce does not settle")
			}
			k := 0
			if w.schedMode != 0 && len(others) > 1 {
				w.usedSched = true
				k = w.chooseN(len(others))
			}
			f := g.fr
			d := w.depth
			w.switchTo(g, others[k])
			w.depth = d
			g.fr = f
		}
		return nil
	})
	reg(vp+"Observe", func(fr *frame, a []value) value {
		w := fr.w
		v := a[1]
		w.obs = append(w.obs, obsRec{label: cstr(w, a[0]), v: snapshot(v, 0)})
		return nil
	})
	reg(vp+"KnownIf", func(fr *frame, a []value) value {
		w := fr.w
		w.knownIf = append(w.knownIf, knownCond{cstr(w, a[0]), a[1]})
		return nil
	})
	reg(vp+"Log", func(fr *frame, a []value) value {
		w := fr.w
		s := w.sprintf(fr, a[0], a[1].([]value))
		w.tracing = append(w.tracing, fmt.Sprint(s))
		return nil
	})
	reg(vp+"Clock", func(fr *frame, a []value) value { return uint64(fr.w.clock) })
	reg(vp+"Exited", func(fr *frame, a []value) value { // all other goroutines finished
		for _, g := range fr.w.gs {
			if !g.exited && g != fr.w.cur {
				return false
			}
		}
		return true
	})
}

func snapshot(v value, d int) value {
	if d > 6 {
		return v
	}
	switch x := v.(type) {
	case iface:
		return iface{x.t, snapshot(x.v, d+1)}
	case []value:
		if x == nil {
			return x
		}
		c := make([]value, len(x))
		for i := range x {
			c[i] = snapshot(x[i], d+1)
		}
		return c
	case structV, arrayV:
		return copyVal(x)
	}
	return v
}

// ---- fmt, errors, log ----

func vargs(v value) []value {
	s, _ := v.([]value)
	return s
}

func (w *Worker) writeTo(fr *frame, wr iface, s value) value {
	cells, ok := byteCells(s)
	if !ok {
		w.opaque = true
		cells = []value{opaqueBytes{segsOf(s)}}
	}
	r := w.callMethod(fr, wr, "Write", cells)
	return r
}

func registerFmt() {
	regP("fmt.Sprintf", func(fr *frame, a []value) value { return fr.w.sprintf(fr, a[0], vargs(a[1])) })
	regP("fmt.Sprint", func(fr *frame, a []value) value { return fr.w.sprint(fr, vargs(a[0]), false) })
	regP("fmt.Sprintln", func(fr *frame, a []value) value { return fr.w.sprint(fr, vargs(a[0]), true) })
	regP("fmt.Errorf", func(fr *frame, a []value) value {
		w := fr.w
		s := w.sprintf(fr, a[0], vargs(a[1]))
		p := w.e.prog.ImportedPackage("fmt")
		f, _ := a[0].(string)
		if strings.Contains(f, "%w") && p != nil && p.Type("wrapError") != nil {
			// first %w operand
			idx := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					if f[i+1] == '%' {
						i++
						continue
					}
					j := i + 1
					for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
						j++
					}
					if j < len(f) && f[j] == 'w' {
						break
					}
					idx++
				}
			}
			if args := vargs(a[1]); idx < len(args) {
				c := new(value)
				*c = structV{s, args[idx]}
				return iface{types.NewPointer(p.Type("wrapError").Type()), c}
			}
		}
		return w.goError(s)
	})
	reg("fmt.Fprintf", func(fr *frame, a []value) value {
		return fr.w.writeTo(fr, a[0].(iface), fr.w.sprintf(fr, a[1], vargs(a[2])))
	})
	reg("fmt.Fprint", func(fr *frame, a []value) value {
		return fr.w.writeTo(fr, a[0].(iface), fr.w.sprint(fr, vargs(a[1]), false))
	})
	reg("fmt.Fprintln", func(fr *frame, a []value) value {
		return fr.w.writeTo(fr, a[0].(iface), fr.w.sprint(fr, vargs(a[1]), true))
	})
	out := func(f func(fr *frame, a []value) value) intrinsic {
		return func(fr *frame, a []value) value {
			s := f(fr, a)
			fr.w.stdout = concatStr(fr.w.stdout, s)
			return tupleV{uint64(0), nilErr()}
		}
	}
	reg("fmt.Printf", out(func(fr *frame, a []value) value { return fr.w.sprintf(fr, a[0], vargs(a[1])) }))
	reg("fmt.Println", out(func(fr *frame, a []value) value { return fr.w.sprint(fr, vargs(a[0]), true) }))
	reg("fmt.Print", out(func(fr *frame, a []value) value { return fr.w.sprint(fr, vargs(a[0]), false) }))
	for _, n := range []string{"Printf", "Println", "Print", "SetFlags", "SetOutput", "SetPrefix", "Output"} {
		regP("log."+n, func(fr *frame, a []value) value { return nil })
		regP("(*log.Logger)."+n, func(fr *frame, a []value) value { return nil })
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		n := n
		reg("log."+n, func(fr *frame, a []value) value {
			fr.w.exitHook(fr, 1)
			return nil
		})
	}
	for _, n := range []string{"Panic", "Panicf"} {
		n := n
		reg("log."+n, func(fr *frame, a []value) value {
			var s value
			if n == "Panic" {
				s = fr.w.sprint(fr, vargs(a[0]), false)
			} else {
				s = fr.w.sprintf(fr, a[0], vargs(a[1]))
			}
			fr.w.panicVal(fr, iface{types.Typ[types.String], s})
			return nil
		})
	}
	// Under fp=nd the text of a symbolic number in a progress report is opaque.
	for _, n := range []string{"Comma", "Bytes", "IBytes"} {
		reg("github.com/dustin/go-humanize."+n, func(fr *frame, a []value) value {
			t, ok := a[0].(*Term)
			if !ok || !fr.w.e.fpND {
				return fallthru
			}
			return normRope([]seg{{k: kAtom, t: fr.w.fpAtom(t, n)}})
		})
	}
	reg("log.New", func(fr *frame, a []value) value {
		p := new(value)
		*p = &hostObj{"logger"}
		return p
	})
	regP("log.Default", func(fr *frame, a []value) value {
		p := new(value)
		*p = &hostObj{"logger"}
		return p
	})
	regP("errors.Is", func(fr *frame, a []value) value {
		return fr.w.errorsIs(fr, a[0].(iface), a[1].(iface))
	})
	reg("errors.As", func(fr *frame, a []value) value {
		w := fr.w
		tgt := a[1].(iface)
		pt := tgt.t.Underlying().(*types.Pointer).Elem()
		e := a[0].(iface)
		return w.errorsAs(fr, e, pt, tgt.v)
	})
}

func (w *Worker) exitHook(fr *frame, code int) {
	if w.spec != nil {
		panic(specAbort{})
	}
	// os.Exit: report as a panic-like event the harness can observe through verif.Try
	panic(&targetPanic{v: iface{types.Typ[types.String], fmt.Sprintf("os.Exit(%d)", code)}, stack: w.where()})
}

func (w *Worker) unwrapErr(fr *frame, e iface) []iface {
	if e.t == nil || !w.hasMethod(e.t, "Unwrap") {
		return nil
	}
	r := w.callMethod(fr, e, "Unwrap")
	switch x := r.(type) {
	case iface:
		if x.t == nil {
			return nil
		}
		return []iface{x}
	case []value:
		var out []iface
		for _, v := range x {
			if i := v.(iface); i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (w *Worker) errorsIs(fr *frame, e, target iface) value {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && types.Comparable(e.t) {
		if w.truth(w.simpB(w.equal(fr, e, target, target.t))) {
			return true
		}
	}
	if w.hasMethod(e.t, "Is") {
		if w.truth(w.callMethod(fr, e, "Is", target)) {
			return true
		}
	}
	for _, u := range w.unwrapErr(fr, e) {
		if w.truth(w.errorsIs(fr, u, target)) {
			return true
		}
	}
	return false
}

func (w *Worker) errorsAs(fr *frame, e iface, t types.Type, dst value) value {
	if e.t == nil {
		return false
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if w.implements(e.t, it) {
			w.store(fr, dst, e, t)
			return true
		}
	} else if types.Identical(e.t, t) {
		w.store(fr, dst, e.v, t)
		return true
	}
	if w.hasMethod(e.t, "As") {
		if w.truth(w.callMethod(fr, e, "As", iface{types.NewPointer(t), dst})) {
			return true
		}
	}
	for _, u := range w.unwrapErr(fr, e) {
		if w.truth(w.errorsAs(fr, u, t, dst)) {
			return true
		}
	}
	return false
}

// ---- math ----

func registerMath() {
	f1 := func(name string, h func(float64) float64, op Op) {
		regP("math."+name, func(fr *frame, a []value) value {
			switch x := a[0].(type) {
			case float64:
				return h(x)
			case *Term:
				if op != oConst {
					return fr.w.simp(fr.w.tt.FUn(op, x))
				}
				return fr.w.monoUF(fr, name, h, x)
			}
			panic("math")
		})
	}
	f1("Floor", math.Floor, oFFloor)
	f1("Ceil", math.Ceil, oFCeil)
	f1("Trunc", math.Trunc, oFTrunc)
	f1("RoundToEven", math.RoundToEven, oFRoundEven)
	f1("Abs", math.Abs, oFAbs)
	f1("Sqrt", math.Sqrt, oFSqrt)
	f1("Log", math.Log, oConst)
	f1("Log2", math.Log2, oConst)
	f1("Log10", math.Log10, oConst)
	f1("Exp", math.Exp, oConst)
	hostFn("math.Pow", math.Pow, nil)
	hostFn("math.Mod", math.Mod, nil)
	hostFn("math.Log1p", math.Log1p, nil)
	hostFn("math.Inf", math.Inf, nil)
	hostFn("math.Float64bits", math.Float64bits, nil)
	hostFn("math.Float64frombits", math.Float64frombits, nil)
	hostFn("internal/strconv.float64bits", math.Float64bits, nil)
	hostFn("internal/strconv.float64frombits", math.Float64frombits, nil)
	hostFn("internal/strconv.float32bits", math.Float32bits, nil)
	hostFn("internal/strconv.float32frombits", math.Float32frombits, nil)
	regP("math.IsNaN", func(fr *frame, a []value) value {
		switch x := a[0].(type) {
		case float64:
			return x != x
		case *Term:
			return fr.w.simp(fr.w.tt.FUn(oFIsNaN, x))
		}
		return false
	})
	regP("math.Float32bits", func(fr *frame, a []value) value {
		return uint64(math.Float32bits(float32(a[0].(float64))))
	})
	regP("math.Float32frombits", func(fr *frame, a []value) value {
		return float64(math.Float32frombits(uint32(a[0].(uint64))))
	})
	regP("math.Modf", func(fr *frame, a []value) value {
		t, ok := a[0].(*Term)
		if !ok {
			i, f := math.Modf(a[0].(float64))
			return tupleV{i, f}
		}
		w := fr.w
		if m := w.monoOf(t); m != nil {
			i := w.monoVar(m, func(v uint64) float64 { return math.Trunc(m.f(v)) })
			return tupleV{i, w.newVar(sFP, "frac")}
		}
		w.unsupported("math.Modf of a symbolic value")
		return nil
	})
	mm := func(name string, op Op, h func(a, b float64) float64) {
		regP("math."+name, func(fr *frame, a []value) value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				return h(x, y)
			}
			return fallthru
		})
		regP("math.arch"+name, intrinsics["math."+name])
	}
	mm("Max", oFLt, math.Max)
	mm("Min", oFLt, math.Min)
}

// monoUF models a strictly increasing library function on a symbolic argument:
// an unknown float y constrained by exact values at anchor points (harness
// supplied) and by monotonicity between them.
func (w *Worker) monoUF(fr *frame, name string, h func(float64) float64, x *Term) value {
	if w.e.fpMono {
		if m := w.monoOf(x); m != nil {
			return w.monoVar(m, func(v uint64) float64 { return h(m.f(v)) })
		}
	}
	if w.spec != nil {
		panic(specAbort{})
	}
	key := fmt.Sprintf("mono:%s:%d", name, x.id)
	if v, ok := w.side[key]; ok {
		return v.(*Term)
	}
	y := w.newVar(sFP, name)
	w.addPC(w.tt.Not(w.tt.FUn(oFIsNaN, y)))
	w.side[key] = y
	an, _ := w.xdata["anchors"].([]float64)
	if len(an) == 0 {
		w.unsupported("math.%s of a symbolic value without anchors", name)
	}
	for _, a := range an {
		fa, fh := w.tt.FConst(a), w.tt.FConst(h(a))
		w.addPC(w.tt.Or(w.tt.Not(w.tt.FCmp(oFLe, x, fa)), w.tt.FCmp(oFLe, y, fh)))
		w.addPC(w.tt.Or(w.tt.Not(w.tt.FCmp(oFLe, fa, x)), w.tt.FCmp(oFLe, fh, y)))
	}
	w.note("monotone-model:" + name)
	return y
}

// ---- strings, strconv, bytes, sort, regexp ----

func registerStrings() {
	hostFn("strings.Contains", strings.Contains, func(fr *frame, a []value) value {
		w := fr.w
		return len(w.findAll(fr, a[0], cstr(w, a[1]), 1)) > 0
	})
	hostFn("strings.Index", strings.Index, nil)
	hostFn("strings.LastIndex", strings.LastIndex, nil)
	hostFn("strings.IndexByte", strings.IndexByte, nil)
	hostFn("strings.IndexAny", strings.IndexAny, nil)
	hostFn("strings.ContainsAny", strings.ContainsAny, nil)
	hostFn("strings.ContainsRune", strings.ContainsRune, nil)
	hostFn("strings.Count", strings.Count, nil)
	hostFn("strings.HasPrefix", strings.HasPrefix, func(fr *frame, a []value) value {
		return fr.w.hasPrefix(fr, a[0], a[1])
	})
	hostFn("strings.HasSuffix", strings.HasSuffix, func(fr *frame, a []value) value {
		return fr.w.hasSuffix(fr, a[0], a[1])
	})
	hostFn("strings.TrimPrefix", strings.TrimPrefix, func(fr *frame, a []value) value {
		w := fr.w
		if w.truth(w.hasPrefix(fr, a[0], a[1])) {
			return w.dropPrefix(a[0], len(cstr(w, a[1])))
		}
		return a[0]
	})
	hostFn("strings.TrimSuffix", strings.TrimSuffix, func(fr *frame, a []value) value {
		w := fr.w
		if w.truth(w.hasSuffix(fr, a[0], a[1])) {
			return w.dropSuffix(a[0], len(cstr(w, a[1])))
		}
		return a[0]
	})
	hostFn("strings.Split", strings.Split, func(fr *frame, a []value) value {
		return fr.w.symSplit(fr, a[0], cstr(fr.w, a[1]), -1)
	})
	hostFn("strings.SplitN", strings.SplitN, func(fr *frame, a []value) value {
		return fr.w.symSplit(fr, a[0], cstr(fr.w, a[1]), int(cint(fr.w, a[2])))
	})
	hostFn("strings.Fields", strings.Fields, func(fr *frame, a []value) value { return fr.w.symFields(fr, a[0]) })
	hostFn("strings.TrimSpace", strings.TrimSpace, func(fr *frame, a []value) value {
		return fr.w.symTrim(fr, a[0], " \t\r\n\v\f", true, true)
	})
	hostFn("strings.Trim", strings.Trim, func(fr *frame, a []value) value {
		return fr.w.symTrim(fr, a[0], cstr(fr.w, a[1]), true, true)
	})
	hostFn("strings.TrimLeft", strings.TrimLeft, func(fr *frame, a []value) value {
		return fr.w.symTrim(fr, a[0], cstr(fr.w, a[1]), true, false)
	})
	hostFn("strings.TrimRight", strings.TrimRight, func(fr *frame, a []value) value {
		return fr.w.symTrim(fr, a[0], cstr(fr.w, a[1]), false, true)
	})
	hostFn("strings.ToLower", strings.ToLower, func(fr *frame, a []value) value { return fr.w.symCase(fr, a[0], false) })
	hostFn("strings.ToUpper", strings.ToUpper, func(fr *frame, a []value) value { return fr.w.symCase(fr, a[0], true) })
	hostFn("strings.EqualFold", strings.EqualFold, nil)
	hostFn("strings.Repeat", strings.Repeat, func(fr *frame, a []value) value {
		var out value = ""
		for i := int64(0); i < cint(fr.w, a[1]); i++ {
			out = concatStr(out, a[0])
		}
		return out
	})
	hostFn("strings.Join", strings.Join, func(fr *frame, a []value) value {
		var out value = ""
		for i, s := range a[0].([]value) {
			if i > 0 {
				out = concatStr(out, a[1])
			}
			out = concatStr(out, s)
		}
		return out
	})
	hostFn("strings.ReplaceAll", strings.ReplaceAll, func(fr *frame, a []value) value {
		return fr.w.symReplace(fr, a[0], a[1], a[2], -1)
	})
	hostFn("strings.Replace", strings.Replace, func(fr *frame, a []value) value {
		return fr.w.symReplace(fr, a[0], a[1], a[2], int(cint(fr.w, a[3])))
	})
	regP("strings.Clone", func(fr *frame, a []value) value { return a[0] })
	hostFn("strings.Compare", strings.Compare, nil)
	hostFn("strings.Cut", strings.Cut, nil)

	// strings.Builder: buf is field 1
	bf := func(p value, w *Worker, fr *frame) *value {
		q := p.(*value)
		if q == nil {
			w.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		return &(*q).(structV)[1]
	}
	app := func(fr *frame, p value, cells []value) {
		w := fr.w
		b := bf(p, w, fr)
		if w.race != nil {
			w.raceAccess(fr, b, true)
		}
		*b = append((*b).([]value), cells...)
	}
	reg("(*strings.Builder).WriteString", func(fr *frame, a []value) value {
		cells, ok := byteCells(a[1])
		if !ok {
			fr.w.opaque = true
			cells = []value{opaqueBytes{segsOf(a[1])}}
		}
		app(fr, a[0], cells)
		return tupleV{uint64(0), nilErr()}
	})
	reg("(*strings.Builder).Write", func(fr *frame, a []value) value {
		app(fr, a[0], a[1].([]value))
		return tupleV{uint64(len(a[1].([]value))), nilErr()}
	})
	reg("(*strings.Builder).WriteByte", func(fr *frame, a []value) value {
		app(fr, a[0], []value{a[1]})
		return nilErr()
	})
	reg("(*strings.Builder).WriteRune", func(fr *frame, a []value) value {
		switch x := a[1].(type) {
		case uint64:
			s := string(rune(int32(uint32(x))))
			c, _ := byteCells(s)
			app(fr, a[0], c)
		case *Term:
			if !fr.w.branch(fr.w.tt.Cmp(oULt, x, fr.w.tt.Const(32, 0x80))) {
				fr.w.unsupported("symbolic non-ascii rune")
			}
			app(fr, a[0], []value{fr.w.simp(fr.w.tt.Extract(x, 7, 0))})
		}
		return tupleV{uint64(1), nilErr()}
	})
	reg("(*strings.Builder).Grow", func(fr *frame, a []value) value { return nil })
	reg("(*strings.Builder).Reset", func(fr *frame, a []value) value {
		*bf(a[0], fr.w, fr) = []value(nil)
		return nil
	})
	regP("(*strings.Builder).Len", func(fr *frame, a []value) value {
		return uint64(len((*bf(a[0], fr.w, fr)).([]value)))
	})
	regP("(*strings.Builder).String", func(fr *frame, a []value) value {
		return ropeFromCells((*bf(a[0], fr.w, fr)).([]value))
	})
	// bytes.Buffer writes of symbolic text
	reg("(*bytes.Buffer).WriteString", func(fr *frame, a []value) value {
		if _, ok := byteCells(a[1]); ok {
			return fallthru
		}
		fr.w.opaque = true
		st := (*a[0].(*value)).(structV)
		st[0] = append(append([]value{}, st[0].([]value)...), opaqueBytes{segsOf(a[1])})
		return tupleV{uint64(1), nilErr()}
	})

	// internal/bytealg
	cmpStr := func(fr *frame, a []value) value {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if ok1 && ok2 {
			return uint64(int64(strings.Compare(x, y)))
		}
		fr.w.unsupported("string compare")
		return nil
	}
	regP("internal/bytealg.CompareString", cmpStr)
	idxByte := func(fr *frame, a []value) value {
		w := fr.w
		var cells []value
		switch x := a[0].(type) {
		case []value:
			cells = x
		default:
			c, ok := byteCells(x)
			if !ok {
				w.unsupported("IndexByte of opaque string")
			}
			cells = c
		}
		for i, c := range cells {
			if _, ok := c.(opaqueBytes); ok {
				continue
			}
			if w.truth(w.simpB(w.equal(fr, c, a[1], types.Typ[types.Uint8]))) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	regP("internal/bytealg.IndexByte", idxByte)
	regP("internal/bytealg.IndexByteString", idxByte)
	regP("bytes.IndexByte", idxByte)
	hostFn("bytes.Index", func(a, b []byte) int { return strings.Index(string(a), string(b)) }, nil)
	regP("internal/bytealg.CountString", func(fr *frame, a []value) value {
		w := fr.w
		cells, ok := byteCells(a[0])
		if !ok {
			w.unsupported("Count of opaque string")
		}
		n := uint64(0)
		for _, c := range cells {
			if w.truth(w.simpB(w.equal(fr, c, a[1], types.Typ[types.Uint8]))) {
				n++
			}
		}
		return n
	})
	regP("internal/bytealg.Count", func(fr *frame, a []value) value {
		w := fr.w
		n := uint64(0)
		for _, c := range a[0].([]value) {
			if w.truth(w.simpB(w.equal(fr, c, a[1], types.Typ[types.Uint8]))) {
				n++
			}
		}
		return n
	})
	regP("bytes.Equal", func(fr *frame, a []value) value {
		return fr.w.simpB(fr.w.equal(fr, ropeFromCells(a[0].([]value)), ropeFromCells(a[1].([]value)), types.Typ[types.String]))
	})
	hostFn("bytes.Compare", func(a, b []byte) int { return strings.Compare(string(a), string(b)) }, nil)
	regP("internal/bytealg.Equal", intrinsics["bytes.Equal"])
	hostFn("internal/bytealg.IndexString", strings.Index, nil)
	hostFn("internal/stringslite.Index", strings.Index, nil)
	hostFn("internal/stringslite.HasPrefix", strings.HasPrefix, nil)
	regP("internal/stringslite.Clone", func(fr *frame, a []value) value { return a[0] })
	regP("internal/bytealg.MakeNoZero", func(fr *frame, a []value) value {
		s := make([]value, int(cint(fr.w, a[0])))
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})

	// strconv
	hostFn("strconv.Itoa", strconv.Itoa, func(fr *frame, a []value) value {
		return fr.w.dec(a[0].(*Term), false)
	})
	hostFn("strconv.FormatInt", strconv.FormatInt, func(fr *frame, a []value) value {
		if b, ok := a[1].(uint64); ok && b == 10 {
			return fr.w.dec(a[0].(*Term), false)
		}
		return fallthru
	})
	hostFn("strconv.FormatUint", strconv.FormatUint, func(fr *frame, a []value) value {
		if b, ok := a[1].(uint64); ok && b == 10 {
			return fr.w.dec(a[0].(*Term), true)
		}
		return fallthru
	})
	hostFn("strconv.FormatFloat", func(f float64, fm uint8, p, b int) string { return strconv.FormatFloat(f, fm, p, b) }, nil)
	hostFn("strconv.Quote", strconv.Quote, nil)
	hostFn("strconv.FormatBool", strconv.FormatBool, nil)
	numErr := func(fr *frame, fn string, s value, err string) value {
		w := fr.w
		p := w.e.prog.ImportedPackage("strconv")
		c := new(value)
		g := p.Var(err)
		*c = structV{fn, s, w.load(fr, w.globalAddr(g), deref(g.Type()))}
		return iface{types.NewPointer(p.Type("NumError").Type()), c}
	}
	parseI := func(name string, uns bool) intrinsic {
		return func(fr *frame, a []value) value {
			w := fr.w
			r, ok := a[0].(*Rope)
			if !ok {
				return fallthru
			}
			bits := uint64(64)
			if len(a) > 1 {
				if b, ok := a[1].(uint64); !ok || b != 10 && b != 0 {
					w.unsupported("parse base")
				}
				bits, _ = a[2].(uint64)
				if bits == 0 {
					bits = 64
				}
			}
			if len(r.segs) == 1 && r.segs[0].k == kDec && bits < 64 && !uns && !r.segs[0].uns {
				lim := uint64(1) << (bits - 1)
				t := r.segs[0].t
				if w.branch(w.tt.Cmp(oSLt, w.tt.Const(64, lim-1), t)) {
					return tupleV{lim - 1, numErr(fr, name, a[0], "ErrRange")}
				}
				if w.branch(w.tt.Cmp(oSLt, t, w.tt.Const(64, -lim))) {
					return tupleV{-lim, numErr(fr, name, a[0], "ErrRange")}
				}
				return tupleV{w.simp(t), nilErr()}
			}
			if len(r.segs) == 1 && r.segs[0].k == kDec && bits < 64 && uns {
				t := r.segs[0].t
				if !r.segs[0].uns && w.branch(w.tt.Cmp(oSLt, t, w.tt.Const(64, 0))) {
					return tupleV{uint64(0), numErr(fr, name, a[0], "ErrSyntax")}
				}
				lim := uint64(1)<<bits - 1
				if w.branch(w.tt.Cmp(oULt, w.tt.Const(64, lim), t)) {
					return tupleV{lim, numErr(fr, name, a[0], "ErrRange")}
				}
				return tupleV{w.simp(t), nilErr()}
			}
			if len(r.segs) == 1 && r.segs[0].k == kDec && bits == 64 {
				sg := r.segs[0]
				if sg.uns == uns {
					return tupleV{w.simp(sg.t), nilErr()}
				}
				neg := w.tt.Cmp(oSLt, sg.t, w.tt.Const(64, 0))
				if w.branch(neg) {
					if uns { // "-5" is a syntax error
						return tupleV{uint64(0), numErr(fr, name, a[0], "ErrSyntax")}
					}
					return tupleV{uint64(math.MaxInt64), numErr(fr, name, a[0], "ErrRange")}
				}
				return tupleV{w.simp(sg.t), nilErr()}
			}
			for _, s := range r.segs {
				if s.k == kAtom { // opaque text is never a number
					return tupleV{uint64(0), numErr(fr, name, a[0], "ErrSyntax")}
				}
			}
			return fallthru
		}
	}
	regP("strconv.ParseInt", parseI("ParseInt", false))
	regP("strconv.ParseUint", parseI("ParseUint", true))
	regP("strconv.Atoi", parseI("Atoi", false))
	regP("strconv.ParseBool", func(fr *frame, a []value) value {
		r, ok := a[0].(*Rope)
		if !ok {
			return fallthru
		}
		for _, s := range r.segs {
			if s.k == kAtom {
				return tupleV{false, numErr(fr, "ParseBool", a[0], "ErrSyntax")}
			}
		}
		return fallthru
	})
	regP("strconv.ParseFloat", func(fr *frame, a []value) value {
		if r, ok := a[0].(*Rope); ok && len(r.segs) == 1 && r.segs[0].k == kDec {
			return tupleV{fr.w.tt.FFrom(!r.segs[0].uns, r.segs[0].t), nilErr()}
		}
		s, ok := a[0].(string)
		if !ok {
			fr.w.unsupported("ParseFloat of symbolic string")
		}
		f, err := strconv.ParseFloat(s, int(a[1].(uint64)))
		if err != nil {
			e := "ErrSyntax"
			if err.(*strconv.NumError).Err == strconv.ErrRange {
				e = "ErrRange"
			}
			return tupleV{f, numErr(fr, "ParseFloat", s, e)}
		}
		return tupleV{f, nilErr()}
	})

	registerRegexp()

	// sort
	reg("sort.Slice", func(fr *frame, a []value) value {
		w := fr.w
		i := a[0].(iface)
		s, _ := i.v.([]value)
		// insertion sort on the live slice, calling less with indexes
		for x := 1; x < len(s); x++ {
			for y := x; y > 0; y-- {
				if !w.truth(w.callValue(fr, a[1], []value{uint64(y), uint64(y - 1)})) {
					break
				}
				t1, t2 := copyVal(s[y]), copyVal(s[y-1])
				s[y], s[y-1] = t2, t1
			}
		}
		return nil
	})
	intrinsics["sort.SliceStable"] = intrinsics["sort.Slice"]
	reg("sort.Strings", func(fr *frame, a []value) value {
		w := fr.w
		s, _ := a[0].([]value)
		for x := 1; x < len(s); x++ {
			for y := x; y > 0; y-- {
				if !w.truth(w.binop(fr, tokLSS, types.Typ[types.String], types.Typ[types.String], s[y], s[y-1])) {
					break
				}
				s[y], s[y-1] = s[y-1], s[y]
			}
		}
		return nil
	})
}

// units splits a string into one value per byte, with opaque parts as one unit.
type unit struct {
	c   value // byte value, or nil
	seg seg   // opaque segment when c == nil
}

func units(v value) []unit {
	var out []unit
	for _, s := range segsOf(v) {
		switch s.k {
		case kLit:
			for i := 0; i < len(s.s); i++ {
				out = append(out, unit{c: uint64(s.s[i])})
			}
		case kByte:
			out = append(out, unit{c: s.t})
		default:
			out = append(out, unit{seg: s})
		}
	}
	return out
}

func fromUnits(us []unit) value {
	var segs []seg
	for _, u := range us {
		switch c := u.c.(type) {
		case nil:
			segs = append(segs, u.seg)
		case uint64:
			segs = append(segs, seg{k: kLit, s: string([]byte{byte(c)})})
		case *Term:
			segs = append(segs, seg{k: kByte, t: c})
		}
	}
	return normRope(segs)
}

func (w *Worker) unitIs(fr *frame, u unit, b byte) bool {
	if u.c == nil {
		if u.seg.k == kDec && (b >= '0' && b <= '9' || b == '-') {
			w.unsupported("character test on a symbolic number")
		}
		return false
	}
	return w.truth(w.simpB(w.equal(fr, u.c, uint64(b), types.Typ[types.Uint8])))
}

func (w *Worker) matchAt(fr *frame, us []unit, i int, n string) bool {
	if i+len(n) > len(us) {
		return false
	}
	// cheap concrete mismatch first
	for k := 0; k < len(n); k++ {
		if c, ok := us[i+k].c.(uint64); ok && byte(c) != n[k] {
			return false
		}
		if us[i+k].c == nil && us[i+k].seg.k == kAtom {
			return false
		}
	}
	for k := 0; k < len(n); k++ {
		if !w.unitIs(fr, us[i+k], n[k]) {
			return false
		}
	}
	return true
}

// findAll returns the unit positions of non-overlapping matches.
func (w *Worker) findAll(fr *frame, s value, n string, max int) []int {
	us := units(s)
	var out []int
	if n == "" {
		w.unsupported("search for empty string")
	}
	for i := 0; i+len(n) <= len(us); {
		if w.matchAt(fr, us, i, n) {
			out = append(out, i)
			if max > 0 && len(out) == max {
				break
			}
			i += len(n)
		} else {
			i++
		}
	}
	return out
}

func (w *Worker) hasPrefix(fr *frame, s, p value) value {
	ps, ok := p.(string)
	if !ok {
		// symbolic prefix: decide for fixed-length strings only
		a, ok1 := byteCells(s)
		b, ok2 := byteCells(p)
		if ok1 && ok2 {
			if len(b) > len(a) {
				return false
			}
			return w.simpB(w.equal(fr, ropeFromCells(a[:len(b)]), p, types.Typ[types.String]))
		}
		w.unsupported("HasPrefix with opaque prefix")
	}
	return w.matchAt(fr, units(s), 0, ps)
}
func (w *Worker) hasSuffix(fr *frame, s, p value) value {
	ps := cstr(w, p)
	us := units(s)
	if len(us) < len(ps) {
		return false
	}
	return w.matchAt(fr, us, len(us)-len(ps), ps)
}
func (w *Worker) dropPrefix(s value, n int) value { return fromUnits(units(s)[n:]) }
func (w *Worker) dropSuffix(s value, n int) value {
	u := units(s)
	return fromUnits(u[:len(u)-n])
}

func (w *Worker) symSplit(fr *frame, s value, sep string, n int) value {
	if n == 0 {
		return []value(nil)
	}
	max := 0
	if n > 0 {
		max = n - 1
		if max == 0 {
			return []value{s}
		}
	}
	us := units(s)
	pos := w.findAll(fr, s, sep, max)
	var out []value
	st := 0
	for _, p := range pos {
		out = append(out, fromUnits(us[st:p]))
		st = p + len(sep)
	}
	return append(out, fromUnits(us[st:]))
}

func (w *Worker) symReplace(fr *frame, s, o, n value, max int) value {
	if max == 0 {
		return s
	}
	if max < 0 {
		max = 0
	}
	if os, ok := o.(string); ok && os != "" {
		us := units(s)
		pos := w.findAll(fr, s, os, max)
		var out value = ""
		st := 0
		for _, p := range pos {
			out = concatStr(concatStr(out, fromUnits(us[st:p])), n)
			st = p + len(os)
		}
		return concatStr(out, fromUnits(us[st:]))
	}
	// opaque needle: exact unit sequence match
	ou := units(o)
	us := units(s)
	if len(ou) == 0 {
		w.unsupported("replace with empty old string")
	}
	var out value = ""
	st, cnt := 0, 0
	for i := 0; i < len(us); {
		if i+len(ou) <= len(us) && (max == 0 || cnt < max) {
			eq := w.equal(fr, fromUnits(us[i:i+len(ou)]), o, types.Typ[types.String])
			if w.truth(w.simpB(eq)) {
				out = concatStr(concatStr(out, fromUnits(us[st:i])), n)
				i += len(ou)
				st = i
				cnt++
				continue
			}
		}
		i++
	}
	return concatStr(out, fromUnits(us[st:]))
}

func (w *Worker) unitIn(fr *frame, u unit, set string) bool {
	switch c := u.c.(type) {
	case nil:
		if u.seg.k == kDec {
			for i := 0; i < len(set); i++ {
				if set[i] >= '0' && set[i] <= '9' || set[i] == '-' {
					w.unsupported("trim of a symbolic number")
				}
			}
		}
		return false
	case uint64:
		return strings.IndexByte(set, byte(c)) >= 0
	case *Term:
		r := w.tt.F
		for i := 0; i < len(set); i++ {
			r = w.tt.Or(r, w.tt.Eq(c, w.tt.Const(8, uint64(set[i]))))
		}
		return w.truth(w.simp(r))
	}
	return false
}

func (w *Worker) asciiOnly(us []unit) {
	for _, u := range us {
		if t, ok := u.c.(*Term); ok {
			if !w.branch(w.tt.Cmp(oULt, t, w.tt.Const(8, 0x80))) {
				w.unsupported("non-ASCII symbolic byte")
			}
		}
	}
}

func (w *Worker) symTrim(fr *frame, s value, set string, l, r bool) value {
	us := units(s)
	w.asciiOnly(us)
	i, j := 0, len(us)
	if l {
		for i < j && w.unitIn(fr, us[i], set) {
			i++
		}
	}
	if r {
		for j > i && w.unitIn(fr, us[j-1], set) {
			j--
		}
	}
	return fromUnits(us[i:j])
}

func (w *Worker) symFields(fr *frame, s value) value {
	us := units(s)
	w.asciiOnly(us)
	out := []value{}
	st := -1
	for i, u := range us {
		if w.unitIn(fr, u, " \t\r\n\v\f") {
			if st >= 0 {
				out = append(out, fromUnits(us[st:i]))
				st = -1
			}
		} else if st < 0 {
			st = i
		}
	}
	if st >= 0 {
		out = append(out, fromUnits(us[st:]))
	}
	return out
}

func (w *Worker) symCase(fr *frame, s value, up bool) value {
	us := units(s)
	w.asciiOnly(us)
	var out []unit
	for _, u := range us {
		switch c := u.c.(type) {
		case nil:
			if u.seg.k == kAtom {
				w.unsupported("case conversion of opaque string")
			}
			out = append(out, u)
		case uint64:
			h := string([]byte{byte(c)})
			if up {
				h = strings.ToUpper(h)
			} else {
				h = strings.ToLower(h)
			}
			out = append(out, unit{c: uint64(h[0])})
		case *Term:
			lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
			if up {
				lo, hi = 'a', 'z'
				d = ^uint64(31) & 0xff
			}
			in := w.tt.And(w.tt.Cmp(oULe, w.tt.Const(8, lo), c), w.tt.Cmp(oULe, c, w.tt.Const(8, hi)))
			out = append(out, unit{c: w.simp(w.tt.Ite(in, w.tt.Bin(oAdd, c, w.tt.Const(8, d)), c))})
		}
	}
	return fromUnits(out)
}

// ---- misc ----

func registerMisc() {
	regP("runtime.Gosched", nil)
	reg("runtime.Gosched", func(fr *frame, a []value) value { fr.w.yield(); return nil })
	regP("runtime.NumCPU", func(fr *frame, a []value) value { return uint64(8) })
	regP("runtime.GOMAXPROCS", func(fr *frame, a []value) value { return uint64(8) })
	regP("runtime.KeepAlive", func(fr *frame, a []value) value { return nil })
	regP("runtime.SetFinalizer", func(fr *frame, a []value) value { return nil })
	regP("runtime.Callers", func(fr *frame, a []value) value { return uint64(0) })
	regP("runtime/debug.Stack", func(fr *frame, a []value) value { return []value{} })
	regP("internal/race.Enable", func(fr *frame, a []value) value { return nil })
	regP("internal/race.Disable", func(fr *frame, a []value) value { return nil })
	regP("internal/godebug.New", func(fr *frame, a []value) value {
		p := new(value)
		*p = &hostObj{"godebug"}
		return p
	})
	regP("(*internal/godebug.Setting).Value", func(fr *frame, a []value) value { return "" })
	regP("(*internal/godebug.Setting).IncNonDefault", func(fr *frame, a []value) value { return nil })
	hostFn("path/filepath.Base", filepath.Base, func(fr *frame, a []value) value {
		w := fr.w
		us := units(a[0])
		st := 0
		for i, u := range us {
			if w.unitIs(fr, u, '/') {
				st = i + 1
			}
		}
		if st >= len(us) {
			w.unsupported("filepath.Base")
		}
		return fromUnits(us[st:])
	})
	hostFn("path/filepath.Join", filepath.Join, func(fr *frame, a []value) value {
		var out value = ""
		for i, s := range vargs(a[0]) {
			if i > 0 {
				out = concatStr(out, "/")
			}
			out = concatStr(out, s)
		}
		return out
	})
	hostFn("path/filepath.IsAbs", filepath.IsAbs, func(fr *frame, a []value) value {
		return fr.w.hasPrefix(fr, a[0], "/")
	})
	hostFn("path/filepath.Dir", filepath.Dir, nil)
	hostFn("path/filepath.Ext", filepath.Ext, nil)
	hostFn("path/filepath.Clean", filepath.Clean, nil)
	regP("path/filepath.Abs", func(fr *frame, a []value) value {
		return tupleV{fr.w.vpath(cstr(fr.w, a[0])), nilErr()}
	})

	// math/rand
	type rnd = func(fr *frame, a []value) value
	both := func(name string, n int, f rnd) {
		reg("math/rand."+name, f)
		reg("(*math/rand.Rand)."+name, func(fr *frame, a []value) value {
			fr.w.randTouch(fr, a[0])
			return f(fr, a[1:])
		})
	}
	onRand := func(fr *frame, v value) {
		w := fr.w
		n, _ := w.xdata["randN"].(uint64)
		w.xdata["randN"] = n + 1
		if f := w.xdata["onRand"]; f != nil {
			if t, ok := v.(*Term); ok && t.s < 64 {
				v = w.tt.ZExt(t, 64)
			}
			w.callValue(fr, f, []value{n, v})
		}
	}
	nd := func(fr *frame, kind string, s Sort, signed bool, lo, hi uint64) value {
		v := fr.w.ndInt("rand."+kind, s, signed, lo, hi)
		onRand(fr, v)
		return v
	}
	reg(vp+"OnRand", func(fr *frame, a []value) value { fr.w.xdata["onRand"] = a[0]; return nil })
	intn := func(kind string, s Sort) rnd {
		return func(fr *frame, a []value) value {
			w := fr.w
			n := w.asTerm(a[0], s)
			if w.truth(w.simp(w.tt.Cmp(oSLe, n, w.tt.Const(s, 0)))) {
				w.panicVal(fr, iface{types.Typ[types.String], "invalid argument to " + kind})
			}
			v := w.newVar(s, "rand."+kind)
			w.nd = append(w.nd, ndRec{name: v.name, kind: "int", t: v, w: s, sgn: true})
			w.addPC(w.tt.Cmp(oSLe, w.tt.Const(s, 0), v))
			w.addPC(w.tt.Cmp(oSLt, v, n))
			onRand(fr, v)
			return v
		}
	}
	both("Int63n", 1, intn("Int63n", 64))
	both("Intn", 1, intn("Intn", 64))
	both("Int31n", 1, intn("Int31n", 32))
	both("Int63", 0, func(fr *frame, a []value) value { return nd(fr, "Int63", 64, true, 0, math.MaxInt64) })
	both("Int", 0, func(fr *frame, a []value) value { return nd(fr, "Int", 64, true, 0, math.MaxInt64) })
	both("Uint64", 0, func(fr *frame, a []value) value { return nd(fr, "Uint64", 64, false, 0, math.MaxUint64) })
	both("Uint32", 0, func(fr *frame, a []value) value { return nd(fr, "Uint32", 32, false, 0, math.MaxUint32) })
	both("Int31", 0, func(fr *frame, a []value) value { return nd(fr, "Int31", 32, true, 0, math.MaxInt32) })
	fl := func(kind string) rnd {
		return func(fr *frame, a []value) value {
			w := fr.w
			v := w.newVar(sFP, "rand."+kind)
			w.nd = append(w.nd, ndRec{name: v.name, kind: "float", t: v, w: 64})
			if kind == "Float64" {
				w.addPC(w.tt.FCmp(oFLe, w.tt.FConst(0), v))
				w.addPC(w.tt.FCmp(oFLt, v, w.tt.FConst(1)))
			} else {
				// NormFloat64 returns a finite value; |x| < 2^10 certainly
				w.addPC(w.tt.FCmp(oFLe, w.tt.FConst(-1024), v))
				w.addPC(w.tt.FCmp(oFLe, v, w.tt.FConst(1024)))
			}
			return v
		}
	}
	both("Float64", 0, fl("Float64"))
	both("NormFloat64", 0, fl("NormFloat64"))
	reg("math/rand.Seed", func(fr *frame, a []value) value { return nil })
	mkRand := func(fr *frame, a []value) value {
		p := new(value)
		*p = structV{uint64(0)}
		return p
	}
	reg("math/rand.New", mkRand)
	reg("math/rand.NewSource", func(fr *frame, a []value) value {
		w := fr.w
		p := mkRand(fr, a)
		t := w.e.prog.ImportedPackage("math/rand").Type("rngSource").Type()
		return iface{types.NewPointer(t), p}
	})
	reg("(*math/rand.rngSource).Int63", func(fr *frame, a []value) value {
		fr.w.randTouch(fr, a[0])
		return nd(fr, "Int63", 64, true, 0, math.MaxInt64)
	})
	reg("(*math/rand.rngSource).Uint64", func(fr *frame, a []value) value {
		fr.w.randTouch(fr, a[0])
		return nd(fr, "Uint64", 64, false, 0, math.MaxUint64)
	})
	reg("(*math/rand.rngSource).Seed", func(fr *frame, a []value) value { return nil })

	reg("github.com/rs/xid.New", func(fr *frame, a []value) value {
		w := fr.w
		w.xidN++
		av := make(arrayV, 12)
		for i := range av {
			av[i] = uint64(0)
		}
		av[11] = uint64(w.xidN)
		return av
	})
	reg("(github.com/rs/xid.ID).String", func(fr *frame, a []value) value {
		return fmt.Sprintf("xid%d", a[0].(arrayV)[11])
	})
	reg("gopkg.in/yaml.v2.UnmarshalStrict", nil)
	delete(intrinsics, "gopkg.in/yaml.v2.UnmarshalStrict")
}

// randTouch models that a rand source is not safe for concurrent use.
func (w *Worker) randTouch(fr *frame, p value) {
	if w.race == nil {
		return
	}
	if q, ok := p.(*value); ok && q != nil {
		w.raceKey(fr, q, true)
	}
}

var _ = sort.Strings
var _ *ssa.Function
