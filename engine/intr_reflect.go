package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"

	"golang.org/x/tools/go/types/typeutil"
)

// reflect: a reflect.Type is an *rtype pointer, canonical per type, to a hostObj with the
// types.Type; a reflect.Value is a struct whose first field is a hostObj with an rval.

type rval struct {
	t    types.Type
	v    value
	addr *value // settable when not nil
}

func (w *Worker) rtypePtr(t types.Type) *value {
	if w.rtypes == nil {
		w.rtypes = &typeutil.Map{}
	}
	if p, ok := w.rtypes.At(t).(*value); ok {
		return p
	}
	p := new(value)
	*p = &hostObj{t}
	w.rtypes.Set(t, p)
	return p
}

func (w *Worker) rtype(t types.Type) value {
	if t == nil {
		return iface{}
	}
	rt := w.e.prog.ImportedPackage("reflect").Type("rtype").Type()
	return iface{types.NewPointer(rt), w.rtypePtr(t)}
}

func (w *Worker) typeOfR(v value) types.Type {
	if i, ok := v.(iface); ok {
		v = i.v
	}
	p, ok := v.(*value)
	if !ok || p == nil {
		w.unsupported("reflect type %T", v)
	}
	h, ok := (*p).(*hostObj)
	if !ok {
		w.unsupported("reflect type %T", *p)
	}
	return h.v.(types.Type)
}

func mkRval(r *rval) value {
	if r == nil || r.t == nil {
		return structV{(*value)(nil), (*value)(nil), uint64(0)}
	}
	return structV{&hostObj{r}, (*value)(nil), uint64(1)}
}

func (w *Worker) rvalOf(v value) *rval {
	s, ok := v.(structV)
	if !ok {
		w.unsupported("reflect value %T", v)
	}
	h, ok := s[0].(*hostObj)
	if !ok {
		return nil
	}
	return h.v.(*rval)
}

func (r *rval) get() value {
	if r.addr != nil {
		return copyVal(*r.addr)
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func (w *Worker) rnil(v value) bool {
	switch x := v.(type) {
	case *value:
		return x == nil
	case []value:
		return x == nil
	case *mapV:
		return x == nil
	case *chanV:
		return x == nil
	case iface:
		return x.t == nil
	case nil:
		return true
	}
	return false
}

func (w *Worker) isZeroV(fr *frame, t types.Type, v value) value {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Chan, *types.Signature, *types.Interface:
		return w.rnil(v)
	}
	return w.equal(fr, v, zero(t), t)
}

// assignTo converts x for storing into a location of type t.
func (w *Worker) assignTo(x *rval, t types.Type) value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, ok := x.t.Underlying().(*types.Interface); ok {
			return x.get()
		}
		return iface{x.t, x.get()}
	}
	return x.get()
}

func init() {
	rt := func(name string, f func(w *Worker, fr *frame, t types.Type, a []value) value) {
		reg("(*reflect.rtype)."+name, func(fr *frame, a []value) value {
			return f(fr.w, fr, fr.w.typeOfR(a[0]), a[1:])
		})
	}
	rv := func(name string, f func(w *Worker, fr *frame, r *rval, a []value) value) {
		reg("(reflect.Value)."+name, func(fr *frame, a []value) value {
			r := fr.w.rvalOf(a[0])
			if r == nil {
				fr.w.rtPanic(fr, "reflect: call of reflect.Value."+name+" on zero Value")
			}
			return f(fr.w, fr, r, a[1:])
		})
	}
	reg("reflect.TypeOf", func(fr *frame, a []value) value {
		return fr.w.rtype(a[0].(iface).t)
	})
	reg("reflect.ValueOf", func(fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return mkRval(nil)
		}
		return mkRval(&rval{t: i.t, v: i.v})
	})
	reg("reflect.TypeFor", func(fr *frame, a []value) value {
		f := fr.w.callee
		if f == nil || len(f.TypeArgs()) != 1 {
			fr.w.unsupported("reflect.TypeFor")
		}
		return fr.w.rtype(f.TypeArgs()[0])
	})
	reg("reflect.Indirect", func(fr *frame, a []value) value {
		r := fr.w.rvalOf(a[0])
		if r == nil || kindOf(r.t) != reflect.Pointer {
			return a[0]
		}
		return fr.w.relem(fr, r)
	})
	reg("reflect.New", func(fr *frame, a []value) value {
		t := fr.w.typeOfR(a[0])
		p := new(value)
		*p = zero(t)
		return mkRval(&rval{t: types.NewPointer(t), v: p})
	})
	reg("reflect.Zero", func(fr *frame, a []value) value {
		t := fr.w.typeOfR(a[0])
		return mkRval(&rval{t: t, v: zero(t)})
	})
	reg("reflect.PointerTo", func(fr *frame, a []value) value {
		return fr.w.rtype(types.NewPointer(fr.w.typeOfR(a[0])))
	})
	intrinsics["reflect.PtrTo"] = intrinsics["reflect.PointerTo"]
	reg("reflect.SliceOf", func(fr *frame, a []value) value {
		return fr.w.rtype(types.NewSlice(fr.w.typeOfR(a[0])))
	})
	reg("reflect.MakeSlice", func(fr *frame, a []value) value {
		t := fr.w.typeOfR(a[0])
		n, c := int(cint(fr.w, a[1])), int(cint(fr.w, a[2]))
		s := make([]value, c)
		for i := range s {
			s[i] = zero(t.Underlying().(*types.Slice).Elem())
		}
		return mkRval(&rval{t: t, v: s[:n]})
	})
	mm := func(fr *frame, a []value) value {
		return mkRval(&rval{t: fr.w.typeOfR(a[0]), v: newMap()})
	}
	reg("reflect.MakeMap", mm)
	reg("reflect.MakeMapWithSize", mm)
	reg("reflect.Append", func(fr *frame, a []value) value {
		w := fr.w
		r := w.rvalOf(a[0])
		et := r.t.Underlying().(*types.Slice).Elem()
		s, _ := r.get().([]value)
		n := append([]value{}, s...)
		for _, x := range a[1].([]value) {
			n = append(n, copyVal(w.assignTo(w.rvalOf(x), et)))
		}
		return mkRval(&rval{t: r.t, v: n})
	})

	// ---- Type ----
	rt("Kind", func(w *Worker, fr *frame, t types.Type, a []value) value { return uint64(kindOf(t)) })
	rt("String", func(w *Worker, fr *frame, t types.Type, a []value) value {
		return types.TypeString(t, func(p *types.Package) string { return p.Name() })
	})
	rt("Name", func(w *Worker, fr *frame, t types.Type, a []value) value {
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			return x.Obj().Name()
		case *types.Basic:
			return x.Name()
		}
		return ""
	})
	rt("PkgPath", func(w *Worker, fr *frame, t types.Type, a []value) value {
		if x, ok := types.Unalias(t).(*types.Named); ok && x.Obj().Pkg() != nil {
			return x.Obj().Pkg().Path()
		}
		return ""
	})
	rt("Elem", func(w *Worker, fr *frame, t types.Type, a []value) value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return w.rtype(u.Elem())
		case *types.Slice:
			return w.rtype(u.Elem())
		case *types.Array:
			return w.rtype(u.Elem())
		case *types.Map:
			return w.rtype(u.Elem())
		case *types.Chan:
			return w.rtype(u.Elem())
		}
		w.rtPanic(fr, "reflect: Elem of invalid type "+t.String())
		return nil
	})
	rt("Key", func(w *Worker, fr *frame, t types.Type, a []value) value {
		return w.rtype(t.Underlying().(*types.Map).Key())
	})
	rt("Len", func(w *Worker, fr *frame, t types.Type, a []value) value {
		return uint64(t.Underlying().(*types.Array).Len())
	})
	rt("NumField", func(w *Worker, fr *frame, t types.Type, a []value) value {
		return uint64(t.Underlying().(*types.Struct).NumFields())
	})
	rt("NumMethod", func(w *Worker, fr *frame, t types.Type, a []value) value {
		if i, ok := t.Underlying().(*types.Interface); ok {
			return uint64(i.NumMethods())
		}
		ms := w.e.prog.MethodSets.MethodSet(t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if token.IsExported(ms.At(i).Obj().Name()) {
				n++
			}
		}
		return uint64(n)
	})
	rt("Field", func(w *Worker, fr *frame, t types.Type, a []value) value {
		s := t.Underlying().(*types.Struct)
		i := int(cint(w, a[0]))
		f := s.Field(i)
		pkg := ""
		if !f.Exported() {
			pkg = f.Pkg().Path()
		}
		// Name, PkgPath, Type, Tag, Offset, Index, Anonymous
		return structV{f.Name(), pkg, w.rtype(f.Type()), s.Tag(i), uint64(8 * i), []value{uint64(i)}, f.Anonymous()}
	})
	rt("Implements", func(w *Worker, fr *frame, t types.Type, a []value) value {
		it, ok := w.typeOfR(a[0]).Underlying().(*types.Interface)
		return ok && types.Implements(t, it)
	})
	rt("AssignableTo", func(w *Worker, fr *frame, t types.Type, a []value) value {
		return types.AssignableTo(t, w.typeOfR(a[0]))
	})
	rt("ConvertibleTo", func(w *Worker, fr *frame, t types.Type, a []value) value {
		return types.ConvertibleTo(t, w.typeOfR(a[0]))
	})
	rt("Comparable", func(w *Worker, fr *frame, t types.Type, a []value) value { return types.Comparable(t) })
	rt("Bits", func(w *Worker, fr *frame, t types.Type, a []value) value {
		s, _, ok := bitsOf(t)
		if !ok {
			if n, ok := isFloat(t); ok {
				return uint64(n)
			}
			w.unsupported("reflect Bits of %s", t)
		}
		return uint64(s)
	})
	rt("Size", func(w *Worker, fr *frame, t types.Type, a []value) value { return uint64(8) })

	// ---- Value ----
	reg("(reflect.Value).IsValid", func(fr *frame, a []value) value { return fr.w.rvalOf(a[0]) != nil })
	reg("(reflect.Value).Kind", func(fr *frame, a []value) value {
		r := fr.w.rvalOf(a[0])
		if r == nil {
			return uint64(0)
		}
		return uint64(kindOf(r.t))
	})
	rv("Type", func(w *Worker, fr *frame, r *rval, a []value) value { return w.rtype(r.t) })
	rv("Elem", func(w *Worker, fr *frame, r *rval, a []value) value { return w.relem(fr, r) })
	rv("IsNil", func(w *Worker, fr *frame, r *rval, a []value) value { return w.rnil(r.get()) })
	rv("IsZero", func(w *Worker, fr *frame, r *rval, a []value) value { return w.isZeroV(fr, r.t, r.get()) })
	rv("CanSet", func(w *Worker, fr *frame, r *rval, a []value) value { return r.addr != nil })
	rv("CanAddr", func(w *Worker, fr *frame, r *rval, a []value) value { return r.addr != nil })
	rv("CanInterface", func(w *Worker, fr *frame, r *rval, a []value) value { return true })
	rv("Addr", func(w *Worker, fr *frame, r *rval, a []value) value {
		return mkRval(&rval{t: types.NewPointer(r.t), v: r.addr})
	})
	rv("Interface", func(w *Worker, fr *frame, r *rval, a []value) value {
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return r.get()
		}
		return iface{r.t, r.get()}
	})
	for _, n := range []string{"Int", "Uint", "Float", "Bool"} {
		n := n
		rv(n, func(w *Worker, fr *frame, r *rval, a []value) value {
			to := map[string]types.Type{"Int": types.Typ[types.Int64], "Uint": types.Typ[types.Uint64], "Float": types.Typ[types.Float64], "Bool": types.Typ[types.Bool]}[n]
			k := kindOf(r.t)
			ok := false
			switch n {
			case "Int":
				ok = k >= reflect.Int && k <= reflect.Int64
			case "Uint":
				ok = k >= reflect.Uint && k <= reflect.Uintptr
			case "Float":
				ok = k == reflect.Float32 || k == reflect.Float64
			case "Bool":
				ok = k == reflect.Bool
			}
			if !ok {
				w.rtPanic(fr, "reflect: call of reflect.Value."+n+" on "+k.String()+" Value")
			}
			if n == "Bool" {
				return r.get()
			}
			return w.convert(fr, r.t.Underlying(), to, r.get())
		})
		rv("Set"+n, func(w *Worker, fr *frame, r *rval, a []value) value {
			from := map[string]types.Type{"Int": types.Typ[types.Int64], "Uint": types.Typ[types.Uint64], "Float": types.Typ[types.Float64], "Bool": types.Typ[types.Bool]}[n]
			if n == "Bool" {
				w.store(fr, r.addr, a[0], r.t)
				return nil
			}
			w.store(fr, r.addr, w.convert(fr, from, r.t.Underlying(), a[0]), r.t)
			return nil
		})
	}
	rv("SetString", func(w *Worker, fr *frame, r *rval, a []value) value {
		w.store(fr, r.addr, a[0], r.t)
		return nil
	})
	rv("SetBytes", func(w *Worker, fr *frame, r *rval, a []value) value {
		w.store(fr, r.addr, a[0], r.t)
		return nil
	})
	rv("Bytes", func(w *Worker, fr *frame, r *rval, a []value) value { return r.get() })
	rv("OverflowInt", func(w *Worker, fr *frame, r *rval, a []value) value {
		t64 := types.Typ[types.Int64]
		y := w.convert(fr, t64, r.t.Underlying(), a[0])
		return w.notV(w.equal(fr, w.convert(fr, r.t.Underlying(), t64, y), a[0], t64))
	})
	rv("OverflowUint", func(w *Worker, fr *frame, r *rval, a []value) value {
		t64 := types.Typ[types.Uint64]
		y := w.convert(fr, t64, r.t.Underlying(), a[0])
		return w.notV(w.equal(fr, w.convert(fr, r.t.Underlying(), t64, y), a[0], t64))
	})
	rv("OverflowFloat", func(w *Worker, fr *frame, r *rval, a []value) value { return false })
	reg("(reflect.Value).String", func(fr *frame, a []value) value {
		r := fr.w.rvalOf(a[0])
		if r == nil {
			return "<invalid Value>"
		}
		if isString(r.t) {
			return r.get()
		}
		return "<" + r.t.String() + " Value>"
	})
	rv("Set", func(w *Worker, fr *frame, r *rval, a []value) value {
		x := w.rvalOf(a[0])
		if r.addr == nil {
			w.rtPanic(fr, "reflect: reflect.Value.Set using unaddressable value")
		}
		w.store(fr, r.addr, copyVal(w.assignTo(x, r.t)), r.t)
		return nil
	})
	rv("Convert", func(w *Worker, fr *frame, r *rval, a []value) value {
		t := w.typeOfR(a[0])
		if _, ok := t.Underlying().(*types.Interface); ok {
			return mkRval(&rval{t: t, v: w.assignTo(r, t)})
		}
		if types.Identical(r.t.Underlying(), t.Underlying()) {
			return mkRval(&rval{t: t, v: r.get()})
		}
		return mkRval(&rval{t: t, v: w.convert(fr, r.t, t, r.get())})
	})
	rv("Len", func(w *Worker, fr *frame, r *rval, a []value) value {
		switch x := r.get().(type) {
		case []value:
			return uint64(len(x))
		case arrayV:
			return uint64(len(x))
		case *mapV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.live)
		case string, *Rope:
			return w.strLen(x)
		}
		w.unsupported("reflect Len of %s", r.t)
		return nil
	})
	rv("Cap", func(w *Worker, fr *frame, r *rval, a []value) value {
		return uint64(cap(r.get().([]value)))
	})
	rv("UnsafePointer", func(w *Worker, fr *frame, r *rval, a []value) value {
		if _, ok := r.t.Underlying().(*types.Pointer); !ok {
			w.unsupported("reflect UnsafePointer of %s", r.t)
		}
		return r.get()
	})
	rv("SetZero", func(w *Worker, fr *frame, r *rval, a []value) value {
		if r.addr == nil {
			w.rtPanic(fr, "reflect: reflect.Value.SetZero using unaddressable value")
		}
		w.store(fr, r.addr, zero(r.t), r.t)
		return nil
	})
	rv("Grow", func(w *Worker, fr *frame, r *rval, a []value) value {
		old, _ := r.get().([]value)
		n := int(cint(w, a[0]))
		if len(old)+n <= cap(old) {
			return nil
		}
		c := 2*cap(old) + n
		s := make([]value, len(old), c)
		copy(s, old)
		el := r.t.Underlying().(*types.Slice).Elem()
		full := s[:c]
		for i := len(old); i < c; i++ {
			full[i] = zero(el)
		}
		w.store(fr, r.addr, s, r.t)
		return nil
	})
	for _, n := range []string{"mustBe", "mustBeExported", "mustBeExportedSlow", "mustBeAssignable", "mustBeAssignableSlow", "panicNotMap"} {
		n := n
		reg("(reflect.flag)."+n, func(fr *frame, a []value) value {
			fr.w.unsupported("reflect internals: %s", n)
			return nil
		})
	}
	rv("SetLen", func(w *Worker, fr *frame, r *rval, a []value) value {
		s := r.get().([]value)
		w.store(fr, r.addr, s[:cint(w, a[0])], r.t)
		return nil
	})
	rv("Slice", func(w *Worker, fr *frame, r *rval, a []value) value {
		i, j := int(cint(w, a[0])), int(cint(w, a[1]))
		switch x := r.get().(type) {
		case []value:
			if i < 0 || j < i || j > cap(x) {
				w.rtPanic(fr, "reflect.Value.Slice: slice index out of bounds")
			}
			return mkRval(&rval{t: r.t, v: x[i:j]})
		case string:
			if i < 0 || j < i || j > len(x) {
				w.rtPanic(fr, "reflect.Value.Slice: string slice index out of bounds")
			}
			return mkRval(&rval{t: r.t, v: x[i:j]})
		}
		w.unsupported("reflect Slice of %s", r.t)
		return nil
	})
	rv("Index", func(w *Worker, fr *frame, r *rval, a []value) value {
		i := int(cint(w, a[0]))
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := r.get().([]value)
			if i < 0 || i >= len(s) {
				w.rtPanic(fr, "reflect: slice index out of range")
			}
			return mkRval(&rval{t: u.Elem(), addr: &s[i]})
		case *types.Array:
			if r.addr != nil {
				return mkRval(&rval{t: u.Elem(), addr: &(*r.addr).(arrayV)[i]})
			}
			return mkRval(&rval{t: u.Elem(), v: r.v.(arrayV)[i]})
		}
		w.unsupported("reflect Index of %s", r.t)
		return nil
	})
	rv("NumField", func(w *Worker, fr *frame, r *rval, a []value) value {
		return uint64(r.t.Underlying().(*types.Struct).NumFields())
	})
	rv("NumMethod", func(w *Worker, fr *frame, r *rval, a []value) value {
		if i, ok := r.t.Underlying().(*types.Interface); ok {
			return uint64(i.NumMethods())
		}
		return uint64(w.e.prog.MethodSets.MethodSet(r.t).Len())
	})
	field := func(w *Worker, r *rval, i int) *rval {
		f := r.t.Underlying().(*types.Struct).Field(i)
		if r.addr != nil {
			return &rval{t: f.Type(), addr: &(*r.addr).(structV)[i]}
		}
		return &rval{t: f.Type(), v: r.v.(structV)[i]}
	}
	rv("Field", func(w *Worker, fr *frame, r *rval, a []value) value {
		return mkRval(field(w, r, int(cint(w, a[0]))))
	})
	rv("FieldByIndex", func(w *Worker, fr *frame, r *rval, a []value) value {
		for _, i := range a[0].([]value) {
			if p, ok := r.t.Underlying().(*types.Pointer); ok {
				r = &rval{t: p.Elem(), addr: r.get().(*value)}
			}
			r = field(w, r, int(cint(w, i)))
		}
		return mkRval(r)
	})
	rv("FieldByName", func(w *Worker, fr *frame, r *rval, a []value) value {
		s := r.t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == a[0] {
				return mkRval(field(w, r, i))
			}
		}
		return mkRval(nil)
	})
	rv("MapIndex", func(w *Worker, fr *frame, r *rval, a []value) value {
		mt := r.t.Underlying().(*types.Map)
		m := r.get().(*mapV)
		if m == nil {
			return mkRval(nil)
		}
		e := w.mapFind(fr, m, w.assignTo(w.rvalOf(a[0]), mt.Key()), mt.Key())
		if e == nil {
			return mkRval(nil)
		}
		return mkRval(&rval{t: mt.Elem(), v: copyVal(e.v)})
	})
	rv("SetMapIndex", func(w *Worker, fr *frame, r *rval, a []value) value {
		mt := r.t.Underlying().(*types.Map)
		k := w.assignTo(w.rvalOf(a[0]), mt.Key())
		x := w.rvalOf(a[1])
		if x == nil {
			w.mapDelete(fr, r.get().(*mapV), k, mt)
			return nil
		}
		w.mapUpdate(fr, r.get().(*mapV), k, copyVal(w.assignTo(x, mt.Elem())), mt)
		return nil
	})
	rv("MapKeys", func(w *Worker, fr *frame, r *rval, a []value) value {
		mt := r.t.Underlying().(*types.Map)
		m := r.get().(*mapV)
		out := []value{}
		if m != nil {
			for _, e := range m.ents {
				if !e.dead {
					out = append(out, mkRval(&rval{t: mt.Key(), v: copyVal(e.k)}))
				}
			}
		}
		return out
	})
	// MapIter{m Value; hiter}: m holds the iterator
	type mapIter struct {
		t   *types.Map
		m   *mapV
		pos int
		cur *mapEnt
	}
	rv("MapRange", func(w *Worker, fr *frame, r *rval, a []value) value {
		it := w.e.prog.ImportedPackage("reflect").Type("MapIter").Type()
		p := new(value)
		*p = zero(it)
		m, _ := r.get().(*mapV)
		(*p).(structV)[0] = &hostObj{&mapIter{t: r.t.Underlying().(*types.Map), m: m}}
		return p
	})
	iter := func(fr *frame, v value) *mapIter {
		return (*v.(*value)).(structV)[0].(*hostObj).v.(*mapIter)
	}
	reg("(*reflect.MapIter).Next", func(fr *frame, a []value) value {
		it := iter(fr, a[0])
		it.cur = nil
		for it.m != nil && it.pos < len(it.m.ents) {
			e := it.m.ents[it.pos]
			it.pos++
			if !e.dead {
				it.cur = e
				return true
			}
		}
		return false
	})
	reg("(*reflect.MapIter).Key", func(fr *frame, a []value) value {
		it := iter(fr, a[0])
		return mkRval(&rval{t: it.t.Key(), v: copyVal(it.cur.k)})
	})
	reg("(*reflect.MapIter).Value", func(fr *frame, a []value) value {
		it := iter(fr, a[0])
		return mkRval(&rval{t: it.t.Elem(), v: copyVal(it.cur.v)})
	})
	rv("SetIterKey", func(w *Worker, fr *frame, r *rval, a []value) value {
		it := iter(fr, a[0])
		w.store(fr, r.addr, copyVal(w.assignTo(&rval{t: it.t.Key(), v: it.cur.k}, r.t)), r.t)
		return nil
	})
	rv("SetIterValue", func(w *Worker, fr *frame, r *rval, a []value) value {
		it := iter(fr, a[0])
		w.store(fr, r.addr, copyVal(w.assignTo(&rval{t: it.t.Elem(), v: it.cur.v}, r.t)), r.t)
		return nil
	})
	rv("Call", func(w *Worker, fr *frame, r *rval, a []value) value {
		var in []value
		for _, x := range a[0].([]value) {
			in = append(in, w.rvalOf(x).get())
		}
		res := w.callValue(fr, r.get(), in)
		sig := r.t.Underlying().(*types.Signature)
		var out []value
		switch n := sig.Results().Len(); n {
		case 0:
		case 1:
			out = append(out, mkRval(&rval{t: sig.Results().At(0).Type(), v: res}))
		default:
			for i, x := range res.(tupleV) {
				out = append(out, mkRval(&rval{t: sig.Results().At(i).Type(), v: x}))
			}
		}
		return out
	})
	reg("(reflect.Kind).String", func(fr *frame, a []value) value {
		return reflect.Kind(cint(fr.w, a[0])).String()
	})
	reg("(reflect.StructTag).Get", func(fr *frame, a []value) value {
		return reflect.StructTag(cstr(fr.w, a[0])).Get(cstr(fr.w, a[1]))
	})
	reg("(reflect.StructTag).Lookup", func(fr *frame, a []value) value {
		v, ok := reflect.StructTag(cstr(fr.w, a[0])).Lookup(cstr(fr.w, a[1]))
		return tupleV{v, ok}
	})
	reg("reflect.DeepEqual", func(fr *frame, a []value) value {
		return fr.w.deepEq(fr, a[0], a[1], nil)
	})
	_ = fmt.Sprint
	_ = strconv.Itoa
}

func (w *Worker) relem(fr *frame, r *rval) value {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p, ok := r.get().(*value)
		if !ok {
			w.unsupported("reflect Elem of %T", r.get())
		}
		if p == nil {
			return mkRval(nil)
		}
		return mkRval(&rval{t: u.Elem(), addr: p})
	case *types.Interface:
		i := r.get().(iface)
		if i.t == nil {
			return mkRval(nil)
		}
		return mkRval(&rval{t: i.t, v: i.v})
	}
	w.rtPanic(fr, "reflect: call of reflect.Value.Elem on "+kindOf(r.t).String()+" Value")
	return nil
}

// deepEq compares like reflect.DeepEqual; t nil: x and y are interfaces.
func (w *Worker) deepEq(fr *frame, x, y value, t types.Type) value {
	if t == nil {
		a, b := x.(iface), y.(iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		return w.deepEq(fr, a.v, b.v, a.t)
	}
	and := func(r value, f func() value) value {
		if r == false {
			return false
		}
		return w.andV(r, f())
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return w.deepEq(fr, x, y, nil)
	case *types.Pointer:
		a, b := x.(*value), y.(*value)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return w.deepEq(fr, *a, *b, u.Elem())
	case *types.Slice:
		a, b := x.([]value), y.([]value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		var r value = true
		for i := range a {
			r = and(r, func() value { return w.deepEq(fr, a[i], b[i], u.Elem()) })
		}
		return r
	case *types.Array:
		var r value = true
		for i := range x.(arrayV) {
			r = and(r, func() value { return w.deepEq(fr, x.(arrayV)[i], y.(arrayV)[i], u.Elem()) })
		}
		return r
	case *types.Struct:
		var r value = true
		for i := range x.(structV) {
			r = and(r, func() value { return w.deepEq(fr, x.(structV)[i], y.(structV)[i], u.Field(i).Type()) })
		}
		return r
	case *types.Map:
		a, b := x.(*mapV), y.(*mapV)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil {
			return true
		}
		if a.live != b.live {
			return false
		}
		var r value = true
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			o := w.mapFind(fr, b, e.k, u.Key())
			if o == nil {
				return false
			}
			r = and(r, func() value { return w.deepEq(fr, e.v, o.v, u.Elem()) })
		}
		return r
	case *types.Signature:
		return x == nil && y == nil
	}
	return w.equal(fr, x, y, t)
}

func init() {
	reg("runtime.Stack", func(fr *frame, a []value) value {
		b, _ := a[0].([]value)
		n := copy(b, []value{uint64('s'), uint64('t'), uint64('k')})
		return uint64(n)
	})
}
