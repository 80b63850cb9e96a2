package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// sprintf models fmt.Sprintf; args is the variadic []any.
func (w *Worker) sprintf(fr *frame, format value, args []value) value {
	var out value = ""
	ai := 0
	add := func(v value) { out = concatStr(out, v) }
	for _, sg := range segsOf(format) {
		if sg.k != kLit {
			if sg.k == kByte {
				// a symbolic byte could be '%'
				if w.branch(w.tt.Eq(sg.t, w.tt.Const(8, '%'))) {
					w.unsupported("symbolic %% in format string")
				}
			}
			add(normRope([]seg{sg}))
			continue
		}
		f := sg.s
		for i := 0; i < len(f); {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				add(f[i:])
				break
			}
			add(f[i : i+j])
			i += j + 1
			if i >= len(f) {
				add("%!(NOVERB)")
				break
			}
			k := i
			for k < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[k]) >= 0 {
				k++
			}
			if k >= len(f) {
				add("%!(NOVERB)")
				break
			}
			flags := f[i:k]
			r := []rune(f[k:])[0]
			i = k + len(string(r))
			if r == '%' {
				add("%")
				continue
			}
			if strings.Contains(flags, "[") {
				w.unsupported("indexed format")
			}
			for strings.Contains(flags, "*") {
				if ai >= len(args) {
					w.unsupported("bad * in format")
				}
				n, ok := args[ai].(iface).v.(uint64)
				if !ok {
					w.unsupported("symbolic width")
				}
				ai++
				flags = strings.Replace(flags, "*", fmt.Sprint(int64(n)), 1)
			}
			if ai >= len(args) {
				add("%!" + string(r) + "(MISSING)")
				continue
			}
			a := args[ai].(iface)
			ai++
			add(w.fmtArg(fr, flags, r, a, 0))
		}
	}
	if ai < len(args) {
		add("%!(EXTRA ")
		for n, a := range args[ai:] {
			if n > 0 {
				add(", ")
			}
			i := a.(iface)
			if i.t == nil {
				add("<nil>")
			} else {
				add(typeName(i.t) + "=")
				add(w.fmtArg(fr, "", 'v', i, 0))
			}
		}
		add(")")
	}
	return out
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// sprint models fmt.Sprint / Sprintln.
func (w *Worker) sprint(fr *frame, args []value, ln bool) value {
	var out value = ""
	prevStr := true
	for i, a := range args {
		x := a.(iface)
		isStr := x.t != nil && isString(x.t)
		if i > 0 && (ln || !isStr && !prevStr) {
			out = concatStr(out, " ")
		}
		out = concatStr(out, w.fmtArg(fr, "", 'v', x, 0))
		prevStr = isStr
	}
	if ln {
		out = concatStr(out, "\n")
	}
	return out
}

func (w *Worker) fmtValue(fr *frame, verb rune, flags string, i iface) string {
	v := w.fmtArg(fr, flags, verb, i, 0)
	if s, ok := v.(string); ok {
		return s
	}
	return v.(*Rope).String()
}

func hostScalar(v value, t types.Type) (any, bool) {
	switch x := v.(type) {
	case bool, string:
		return x, true
	case float64:
		if b, _ := isFloat(t); b == 32 {
			return float32(x), true
		}
		return x, true
	case complex128:
		return x, true
	case uint64:
		s, signed, ok := bitsOf(t)
		if !ok {
			return x, true
		}
		if signed {
			return sext(x, s), true
		}
		if s == 8 {
			return uint8(x), true
		}
		return x, true
	}
	return nil, false
}

func (w *Worker) fmtArg(fr *frame, flags string, verb rune, a iface, depth int) value {
	if a.t == nil {
		if verb == 'v' || verb == 's' && depth > 0 {
			return padHost(flags, "<nil>")
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return padHost(flags, typeName(a.t))
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	sharpV := verb == 'v' && strings.Contains(flags, "#")
	if !sharpV && (verb == 'v' || verb == 's' || verb == 'x' || verb == 'X' || verb == 'q' || verb == 'w') {
		for _, m := range []string{"Error", "String"} {
			if w.hasMethod(a.t, m) {
				f := w.methodOf(a.t, nil, m)
				sg := f.Signature
				if sg.Params().Len() == 0 && sg.Results().Len() == 1 && isString(sg.Results().At(0).Type()) {
					if p, ok := a.v.(*value); ok && p == nil {
						return padHost(flags, "<nil>")
					}
					r := w.call(fr, f, []value{a.v}, nil)
					vv := verb
					if vv == 'w' {
						vv = 'v'
					}
					return w.fmtStr(fr, flags, vv, r)
				}
			}
		}
	}
	if verb == 'w' {
		verb = 'v'
	}
	return w.fmtPlain(fr, flags, verb, a.v, a.t, depth)
}

func padHost(flags, s string) value {
	flags = strings.Trim(flags, "+#")
	if flags == "" {
		return s
	}
	return fmt.Sprintf("%"+flags+"s", s)
}

func (w *Worker) fmtStr(fr *frame, flags string, verb rune, s value) value {
	if h, ok := s.(string); ok {
		return fmt.Sprintf("%"+flags+string(verb), h)
	}
	switch verb {
	case 's', 'v':
		if strings.Trim(flags, "+") == "" {
			return s
		}
	case 'q':
		// assumes no character of the symbolic parts needs escaping
		return concatStr(concatStr("\"", s), "\"")
	}
	w.unsupported("format %%%s%c of symbolic string", flags, verb)
	return nil
}

func (w *Worker) fmtPlain(fr *frame, flags string, verb rune, v value, t types.Type, depth int) value {
	if t0, ok := v.(*Term); ok {
		if s, signed, isInt := bitsOf(t); isInt {
			if (verb == 'd' || verb == 'v') && strings.Trim(flags, "+") == "" && !strings.Contains(flags, "+") || verb == 'v' && flags == "+" {
				x := t0
				if signed {
					x = w.tt.SExt(x, 64)
				} else {
					x = w.tt.ZExt(x, 64)
				}
				_ = s
				return w.dec(x, !signed)
			}
			k := w.concretize(t0, 40)
			return w.fmtPlain(fr, flags, verb, k, t, depth)
		}
		if isBoolT(t) {
			return w.fmtPlain(fr, flags, verb, w.branch(t0), t, depth)
		}
		if t0.s == sFP {
			return normRope([]seg{{k: kAtom, t: w.fpAtom(t0, flags+string(verb))}})
		}
	}
	switch x := v.(type) {
	case string, *Rope:
		return w.fmtStr(fr, flags, verb, x)
	case uint64, bool, float64, complex128:
		h, _ := hostScalar(x, t)
		return fmt.Sprintf("%"+flags+string(verb), h)
	}
	if depth > 12 {
		w.unsupported("format recursion")
	}
	plus := strings.Contains(flags, "+")
	sharp := strings.Contains(flags, "#")
	if sharp {
		w.unsupported("%%#v of %s", t)
	}
	elem := func(v value, et types.Type, exported bool) value {
		if i, ok := v.(iface); ok {
			if i.t == nil {
				return "<nil>"
			}
			if exported {
				return w.fmtArg(fr, flags, verb, i, depth+1)
			}
			return w.fmtPlain(fr, flags, verb, i.v, i.t, depth+1)
		}
		if exported {
			return w.fmtArg(fr, flags, verb, iface{et, v}, depth+1)
		}
		return w.fmtPlain(fr, flags, verb, v, et, depth+1)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		st := v.(structV)
		var out value = "{"
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				out = concatStr(out, " ")
			}
			if plus {
				out = concatStr(out, u.Field(i).Name()+":")
			}
			out = concatStr(out, elem(st[i], u.Field(i).Type(), u.Field(i).Exported()))
		}
		return concatStr(out, "}")
	case *types.Slice, *types.Array:
		var vs []value
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			vs, _ = v.([]value)
			et = s.Elem()
		} else {
			vs = []value(v.(arrayV))
			et = u.(*types.Array).Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
			return w.fmtStr(fr, flags, verb, ropeFromCells(vs))
		}
		var out value = "["
		for i, e := range vs {
			if i > 0 {
				out = concatStr(out, " ")
			}
			out = concatStr(out, elem(e, et, true))
		}
		return concatStr(out, "]")
	case *types.Map:
		m, _ := v.(*mapV)
		var out value = "map["
		if m != nil {
			var es []*mapEnt
			for _, e := range m.ents {
				if !e.dead {
					es = append(es, e)
				}
			}
			sort.SliceStable(es, func(i, j int) bool {
				a, ok1 := es[i].k.(string)
				b, ok2 := es[j].k.(string)
				if ok1 && ok2 {
					return a < b
				}
				x, ok1 := es[i].k.(uint64)
				y, ok2 := es[j].k.(uint64)
				return ok1 && ok2 && x < y
			})
			for i, e := range es {
				if i > 0 {
					out = concatStr(out, " ")
				}
				out = concatStr(out, elem(e.k, u.Key(), true))
				out = concatStr(out, ":")
				out = concatStr(out, elem(e.v, u.Elem(), true))
			}
		}
		return concatStr(out, "]")
	case *types.Pointer:
		p, ok := v.(*value)
		if !ok || p == nil {
			return "<nil>"
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				if !hasHost(*p) {
					return concatStr("&", w.fmtPlain(fr, flags, verb, *p, u.Elem(), depth+1))
				}
			}
		}
		return "0xc000000000"
	case *types.Signature, *types.Chan:
		return "0x1000000"
	case *types.Interface:
		if i, ok := v.(iface); ok {
			if i.t == nil {
				return "<nil>"
			}
			return w.fmtArg(fr, flags, verb, i, depth)
		}
	}
	w.unsupported("format %T %s", v, t)
	return nil
}

func hasHost(v value) bool { _, ok := v.(*hostObj); return ok }

// fpAtom: opaque text of a symbolic float (identified by its bits).
func (w *Worker) fpAtom(t *Term, f string) *Term {
	key := "fpatom:" + f + fmt.Sprint(t.id)
	if v, ok := w.side[key]; ok {
		return v.(*Term)
	}
	if w.spec != nil {
		panic(specAbort{})
	}
	v := w.newVar(64, "fptext")
	w.side[key] = v
	return v
}

// ---- evaluation of a value under a model ----

func (w *Worker) evalDeep(v value, m Model) value {
	switch x := v.(type) {
	case *Term:
		return w.simp(w.tt.Const(x.s, w.tt.Eval(x, m)))
	case *Rope:
		var sb strings.Builder
		for _, s := range x.segs {
			switch s.k {
			case kLit:
				sb.WriteString(s.s)
			case kByte:
				sb.WriteByte(byte(w.tt.Eval(s.t, m)))
			case kDec:
				n := w.tt.Eval(s.t, m)
				if s.uns {
					fmt.Fprint(&sb, n)
				} else {
					fmt.Fprint(&sb, int64(n))
				}
			case kAtom:
				sb.WriteString(w.atomText(w.tt.Eval(s.t, m)))
			}
		}
		return sb.String()
	case structV:
		c := make(structV, len(x))
		for i := range x {
			c[i] = w.evalDeep(x[i], m)
		}
		return c
	case arrayV:
		c := make(arrayV, len(x))
		for i := range x {
			c[i] = w.evalDeep(x[i], m)
		}
		return c
	case []value:
		if x == nil {
			return x
		}
		c := make([]value, len(x))
		for i := range x {
			c[i] = w.evalDeep(x[i], m)
		}
		return c
	case iface:
		return iface{x.t, w.evalDeep(x.v, m)}
	case *mapV:
		if x == nil {
			return x
		}
		c := newMap()
		for _, e := range x.ents {
			if !e.dead {
				c.ents = append(c.ents, &mapEnt{k: w.evalDeep(e.k, m), v: w.evalDeep(e.v, m)})
				c.live++
			}
		}
		return c
	}
	return v
}

func (w *Worker) atomText(id uint64) string {
	for s, i := range w.ids {
		if i == id {
			return s
		}
	}
	return fmt.Sprintf("Zz%020dz", id) // in the order of the numbers
}

func (w *Worker) renderObs(v value, m Model) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("<unrenderable %v>", r)
		}
	}()
	i, ok := w.evalDeep(v, m).(iface)
	if !ok {
		return fmt.Sprint(v)
	}
	sp := w.steps
	s = w.fmtValue(&frame{w: w, g: w.cur}, 'v', "", i)
	w.steps = sp
	return s
}

// dec is the decimal text of t. With opt digits=yes it has one cell per digit
// (a path per number of digits), else it is one opaque segment.
func (w *Worker) dec(t *Term, uns bool) value {
	if !w.e.digits || t.isConst() {
		return normRope([]seg{{k: kDec, t: t, uns: uns}})
	}
	return w.decDigits(t, uns)
}

func (w *Worker) decDigits(t *Term, uns bool) value {
	if w.spec != nil {
		panic(specAbort{})
	}
	key := fmt.Sprintf("digits:%v:%d", uns, t.id)
	if r, ok := w.side[key]; ok {
		return r
	}
	tt := w.tt
	c := func(v uint64) *Term { return tt.Const(64, v) }
	var out []seg
	x := t
	if !uns && w.branch(tt.Cmp(oSLt, x, c(0))) {
		out = append(out, seg{k: kLit, s: "-"})
		x = tt.Bin(oSub, c(0), x)
	}
	n := 1
	for lim := uint64(10); n < 20; n++ {
		if w.branch(tt.Cmp(oULt, x, c(lim))) {
			break
		}
		lim *= 10
	}
	if n == 1 {
		out = append(out, seg{k: kByte, t: tt.Bin(oAdd, tt.Extract(x, 7, 0), tt.Const(8, '0'))})
	} else {
		var sum *Term
		var ds []*Term
		for i := 0; i < n; i++ {
			d := w.newVar(8, "digit")
			w.addPC(tt.Cmp(oULe, d, tt.Const(8, 9)))
			ds = append(ds, d)
			if sum == nil {
				sum = tt.ZExt(d, 64)
			} else {
				sum = tt.Bin(oAdd, tt.Bin(oMul, sum, c(10)), tt.ZExt(d, 64))
			}
		}
		w.addPC(tt.Eq(sum, x))
		for _, d := range ds {
			out = append(out, seg{k: kByte, t: tt.Bin(oAdd, d, tt.Const(8, '0'))})
		}
	}
	r := normRope(out)
	w.side[key] = r
	return r
}
