package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (cc *compiler) opds(vs []ssa.Value) []opd {
	out := make([]opd, len(vs))
	for i, v := range vs {
		if v == nil {
			out[i] = opd{k: 1, v: nil}
			continue
		}
		out[i] = cc.opd(v)
	}
	return out
}

func (cc *compiler) optOpd(v ssa.Value) *opd {
	if v == nil {
		return nil
	}
	o := cc.opd(v)
	return &o
}

func (cc *compiler) instr(in ssa.Instruction) instrFn {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = cc.regs[v]
	}
	pos := in.Pos()
	switch x := in.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		z := zero(t)
		return func(fr *frame) {
			p := new(value)
			*p = copyVal(z)
			fr.regs[dst] = p
		}
	case *ssa.BinOp:
		a, b := cc.opd(x.X), cc.opd(x.Y)
		t, yt := x.X.Type(), x.Y.Type()
		op := x.Op
		// comparisons with an untyped nil constant use the other side's type
		if c, ok := x.X.(*ssa.Const); ok && c.Value == nil {
			t = x.Y.Type()
		}
		return func(fr *frame) {
			fr.pos = pos
			fr.regs[dst] = fr.w.binop(fr, op, t, yt, a.get(fr), b.get(fr))
		}
	case *ssa.UnOp:
		a := cc.opd(x.X)
		switch x.Op {
		case token.MUL:
			t := deref(x.X.Type())
			if g, ok := x.X.(*ssa.Global); ok {
				if initSkipped(g) {
					return func(fr *frame) {
						fr.pos = pos
						a := fr.w.globalAddr(g)
						if p, ok := a.(*value); ok && isZeroHost(*p) {
							fr.w.unsupported("read of %s, whose package is not initialised", g)
						}
						fr.regs[dst] = fr.w.load(fr, a, t)
					}
				}
				return func(fr *frame) {
					fr.pos = pos
					fr.regs[dst] = fr.w.load(fr, fr.w.globalAddr(g), t)
				}
			}
			return func(fr *frame) {
				fr.pos = pos
				fr.regs[dst] = fr.w.load(fr, a.get(fr), t)
			}
		case token.NOT:
			return func(fr *frame) { fr.regs[dst] = fr.w.notV(a.get(fr)) }
		case token.SUB:
			s, _, isInt := bitsOf(x.X.Type())
			return func(fr *frame) {
				switch v := a.get(fr).(type) {
				case uint64:
					fr.regs[dst] = -v & mask(s)
				case float64:
					fr.regs[dst] = -v
				case complex128:
					fr.regs[dst] = -v
				case *Term:
					if isInt {
						fr.regs[dst] = fr.w.simp(fr.w.tt.Neg(v))
					} else {
						fr.regs[dst] = fr.w.simp(fr.w.tt.FUn(oFNeg, v))
					}
				}
			}
		case token.XOR:
			s, _, _ := bitsOf(x.X.Type())
			return func(fr *frame) {
				switch v := a.get(fr).(type) {
				case uint64:
					fr.regs[dst] = ^v & mask(s)
				case *Term:
					fr.regs[dst] = fr.w.simp(fr.w.tt.BNot(v))
				}
			}
		case token.ARROW:
			commaOk := x.CommaOk
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			return func(fr *frame) {
				fr.pos = pos
				v, ok := fr.w.chanRecv(fr, a.get(fr).(*chanV), et)
				if commaOk {
					fr.regs[dst] = tupleV{v, ok}
				} else {
					fr.regs[dst] = v
				}
			}
		}
	case *ssa.Call:
		f := cc.callInstr(&x.Call, pos)
		return func(fr *frame) { fr.regs[dst] = f(fr) }
	case *ssa.ChangeInterface:
		a := cc.opd(x.X)
		return func(fr *frame) { fr.regs[dst] = a.get(fr) }
	case *ssa.ChangeType:
		a := cc.opd(x.X)
		return func(fr *frame) { fr.regs[dst] = a.get(fr) }
	case *ssa.Convert:
		a := cc.opd(x.X)
		from, to := x.X.Type(), x.Type()
		return func(fr *frame) {
			fr.pos = pos
			fr.regs[dst] = fr.w.convert(fr, from, to, a.get(fr))
		}
	case *ssa.MultiConvert:
		a := cc.opd(x.X)
		from, to := x.X.Type(), x.Type()
		return func(fr *frame) { fr.regs[dst] = fr.w.convert(fr, from, to, a.get(fr)) }
	case *ssa.SliceToArrayPointer:
		a := cc.opd(x.X)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := a.get(fr).([]value)
			if len(s) < n {
				fr.w.rtPanic(fr, "cannot convert slice to array pointer: length too short")
			}
			// array cells must alias the slice's cells
			p := new(value)
			*p = arrayV(s[:n:n])
			fr.regs[dst] = p
		}
	case *ssa.Extract:
		a := cc.opd(x.Tuple)
		i := x.Index
		return func(fr *frame) { fr.regs[dst] = a.get(fr).(tupleV)[i] }
	case *ssa.Field:
		a := cc.opd(x.X)
		i := x.Field
		return func(fr *frame) { fr.regs[dst] = a.get(fr).(structV)[i] }
	case *ssa.FieldAddr:
		a := cc.opd(x.X)
		i := x.Field
		return func(fr *frame) {
			switch p := a.get(fr).(type) {
			case *value:
				if p == nil {
					fr.pos = pos
					fr.w.rtPanic(fr, "invalid memory address or nil pointer dereference")
				}
				st, ok := (*p).(structV)
				if !ok {
					fr.pos = pos
					fr.w.unsupported("field address of %T (%s)", *p, x.X.Type())
				}
				fr.regs[dst] = &st[i]
			case *symPtr:
				np := &symPtr{idx: p.idx}
				for _, q := range p.ptrs {
					np.ptrs = append(np.ptrs, &(*q).(structV)[i])
				}
				fr.regs[dst] = np
			default:
				fr.w.unsupported("FieldAddr %T", p)
			}
		}
	case *ssa.Index:
		a, iv := cc.opd(x.X), cc.opd(x.Index)
		it := x.Index.Type()
		et := x.Type()
		return func(fr *frame) {
			fr.pos = pos
			w := fr.w
			switch s := a.get(fr).(type) {
			case arrayV:
				fr.regs[dst] = w.indexVals(fr, []value(s), iv.get(fr), it, et)
			case string:
				if i, ok := iv.get(fr).(uint64); ok {
					k, _ := w.index(fr, i, it, len(s))
					fr.regs[dst] = uint64(s[k])
					return
				}
				cells, _ := byteCells(s)
				fr.regs[dst] = w.indexVals(fr, cells, iv.get(fr), it, et)
			case *Rope:
				cells, ok := byteCells(s)
				if !ok {
					if i, ok := iv.get(fr).(uint64); ok {
						// leading literal part
						if s.segs[0].k == kLit && i < uint64(len(s.segs[0].s)) {
							fr.regs[dst] = uint64(s.segs[0].s[i])
							return
						}
					}
					w.unsupported("index of opaque string %s", s)
				}
				fr.regs[dst] = w.indexVals(fr, cells, iv.get(fr), it, et)
			default:
				w.unsupported("Index %T", s)
			}
		}
	case *ssa.IndexAddr:
		a, iv := cc.opd(x.X), cc.opd(x.Index)
		it := x.Index.Type()
		return func(fr *frame) {
			fr.pos = pos
			w := fr.w
			var cells []value
			switch s := a.get(fr).(type) {
			case []value:
				cells = s
			case *value:
				if s == nil {
					w.rtPanic(fr, "invalid memory address or nil pointer dereference")
				}
				cells = []value((*s).(arrayV))
			case *symPtr:
				k := w.concretize(s.idx, 512)
				cells = []value((*s.ptrs[k]).(arrayV))
			default:
				w.unsupported("IndexAddr %T", s)
			}
			i, t := w.index(fr, iv.get(fr), it, len(cells))
			if t == nil {
				fr.regs[dst] = &cells[i]
				return
			}
			if len(cells) > 600 {
				i := w.concretize(t, 700)
				fr.regs[dst] = &cells[i]
				return
			}
			p := &symPtr{idx: t}
			for i := range cells {
				p.ptrs = append(p.ptrs, &cells[i])
			}
			fr.regs[dst] = p
		}
	case *ssa.Lookup:
		a, iv := cc.opd(x.X), cc.opd(x.Index)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			commaOk := x.CommaOk
			return func(fr *frame) {
				fr.pos = pos
				m := a.get(fr).(*mapV)
				v, ok := fr.w.mapLookup(fr, m, iv.get(fr), mt)
				if commaOk {
					fr.regs[dst] = tupleV{v, ok}
				} else {
					fr.regs[dst] = v
				}
			}
		}
		return func(fr *frame) {
			fr.pos = pos
			w := fr.w
			cells, ok := byteCells(a.get(fr))
			if !ok {
				w.unsupported("index of opaque string")
			}
			fr.regs[dst] = w.indexVals(fr, cells, iv.get(fr), x.Index.Type(), types.Typ[types.Uint8])
		}
	case *ssa.MakeChan:
		a := cc.opd(x.Size)
		return func(fr *frame) {
			n, ok := a.get(fr).(uint64)
			if !ok {
				fr.w.unsupported("symbolic channel size")
			}
			if int64(n) < 0 {
				fr.w.rtPanic(fr, "makechan: size out of range")
			}
			fr.regs[dst] = &chanV{cap: int(n)}
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		b := cc.opds(x.Bindings)
		return func(fr *frame) {
			c := &closure{fn: fn, free: make([]value, len(b))}
			for i := range b {
				c.free[i] = b[i].get(fr)
			}
			fr.regs[dst] = c
		}
	case *ssa.MakeInterface:
		a := cc.opd(x.X)
		t := x.X.Type()
		return func(fr *frame) { fr.regs[dst] = iface{t, copyVal(a.get(fr))} }
	case *ssa.MakeMap:
		return func(fr *frame) { fr.regs[dst] = newMap() }
	case *ssa.MakeSlice:
		l, c := cc.opd(x.Len), cc.opd(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			fr.pos = pos
			w := fr.w
			n := w.sizeOf(fr, l.get(fr), "len")
			k := n
			if cv := c.get(fr); cv != nil {
				k = w.sizeOf(fr, cv, "cap")
			}
			if k < n {
				w.rtPanic(fr, "makeslice: cap out of range")
			}
			if k > 5_000_000 {
				w.unsupported("slice of %d elements", k)
			}
			s := make([]value, k)
			z := zero(et)
			switch z.(type) {
			case structV, arrayV:
				for i := range s {
					s[i] = copyVal(z)
				}
			default:
				for i := range s {
					s[i] = z
				}
			}
			fr.regs[dst] = s[:n]
		}
	case *ssa.MapUpdate:
		m, k, v := cc.opd(x.Map), cc.opd(x.Key), cc.opd(x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		return func(fr *frame) {
			fr.pos = pos
			fr.w.mapUpdate(fr, m.get(fr).(*mapV), k.get(fr), v.get(fr), mt)
		}
	case *ssa.Range:
		a := cc.opd(x.X)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			return func(fr *frame) {
				m, _ := a.get(fr).(*mapV)
				fr.regs[dst] = fr.w.mapIter(fr, m, mt)
			}
		}
		return func(fr *frame) {
			s := a.get(fr)
			if _, ok := s.(string); ok {
				fr.regs[dst] = &strIter{s: s.(string)}
				return
			}
			cells, ok := byteCells(s)
			if !ok {
				fr.w.unsupported("range over opaque string")
			}
			fr.regs[dst] = &strIter{cells: cells}
		}
	case *ssa.Next:
		a := cc.opd(x.Iter)
		if x.IsString {
			return func(fr *frame) { fr.regs[dst] = a.get(fr).(*strIter).next(fr.w) }
		}
		return func(fr *frame) { fr.regs[dst] = a.get(fr).(*mapIterV).next(fr.w) }
	case *ssa.Select:
		type sc struct {
			send bool
			ch   opd
			val  opd
			t    types.Type
		}
		var cs []sc
		for _, s := range x.States {
			c := sc{send: s.Dir == types.SendOnly, ch: cc.opd(s.Chan), t: s.Chan.Type().Underlying().(*types.Chan).Elem()}
			if c.send {
				c.val = cc.opd(s.Send)
			}
			cs = append(cs, c)
		}
		blocking := x.Blocking
		return func(fr *frame) {
			fr.pos = pos
			cases := make([]selCase, len(cs))
			for i, c := range cs {
				ch, _ := c.ch.get(fr).(*chanV)
				cases[i] = selCase{ch: ch, send: c.send, t: c.t}
				if c.send {
					cases[i].val = c.val.get(fr)
				}
			}
			idx, rv, ok := fr.w.selectOp(fr, cases, blocking)
			res := tupleV{uint64(int64(idx)), ok}
			for i, c := range cs {
				if !c.send {
					if i == idx {
						res = append(res, rv)
					} else {
						res = append(res, zero(c.t))
					}
				}
			}
			fr.regs[dst] = res
		}
	case *ssa.Send:
		c, v := cc.opd(x.Chan), cc.opd(x.X)
		return func(fr *frame) {
			fr.pos = pos
			fr.w.chanSend(fr, c.get(fr).(*chanV), copyVal(v.get(fr)))
		}
	case *ssa.Slice:
		a := cc.opd(x.X)
		lo, hi, mx := cc.optOpd(x.Low), cc.optOpd(x.High), cc.optOpd(x.Max)
		return func(fr *frame) {
			fr.pos = pos
			var l, h, m value
			if lo != nil {
				l = lo.get(fr)
			}
			if hi != nil {
				h = hi.get(fr)
			}
			if mx != nil {
				m = mx.get(fr)
			}
			fr.regs[dst] = fr.w.slice(fr, a.get(fr), l, h, m)
		}
	case *ssa.Store:
		a, v := cc.opd(x.Addr), cc.opd(x.Val)
		t := deref(x.Addr.Type())
		return func(fr *frame) {
			fr.pos = pos
			fr.w.store(fr, a.get(fr), v.get(fr), t)
		}
	case *ssa.TypeAssert:
		a := cc.opd(x.X)
		t := x.AssertedType
		commaOk := x.CommaOk
		_, toIface := t.Underlying().(*types.Interface)
		return func(fr *frame) {
			fr.pos = pos
			w := fr.w
			i := a.get(fr).(iface)
			ok := false
			var v value
			if i.t != nil {
				if toIface {
					ok = w.implements(i.t, t.Underlying().(*types.Interface))
					v = i
				} else {
					ok = w.sameType(i.t, t)
					v = i.v
				}
			}
			if commaOk {
				if !ok {
					v = zero(t)
				}
				fr.regs[dst] = tupleV{v, ok}
				return
			}
			if !ok {
				if i.t == nil {
					w.rtPanic(fr, "interface conversion: interface is nil, not "+t.String())
				}
				w.rtPanic(fr, "interface conversion: interface is "+i.t.String()+", not "+t.String())
			}
			fr.regs[dst] = v
		}
	case *ssa.Go:
		prep := cc.prepCall(&x.Call, pos)
		name := x.Call.String()
		return func(fr *frame) {
			fr.pos = pos
			w := fr.w
			if w.spec != nil {
				panic(specAbort{})
			}
			fn, args, bi := prep(fr)
			parent := w.cur
			var g *gor
			g = w.newGor(name, func(fr0 *frame) {
				if bi != nil {
					w.builtin(fr0, bi, args, nil)
					return
				}
				w.callValue(fr0, fn, args)
			})
			if fr.fn != nil && fr.fn.fn != nil {
				if p := fnPkg(fr.fn.fn); p != nil {
					g.pkg = p.Path()
				}
			}
			w.raceFork(parent, g)
			w.syncPoint()
		}
	case *ssa.Defer:
		prep := cc.prepCall(&x.Call, pos)
		return func(fr *frame) {
			fr.pos = pos
			if fr.w.spec != nil {
				panic(specAbort{})
			}
			fn, args, bi := prep(fr)
			fr.defers = append(fr.defers, deferred{fn: fn, args: args, bi: bi})
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.w.runDefers(fr)
			if fr.panicking != nil {
				p := fr.panicking
				panic(p)
			}
		}
	}
	s := fmt.Sprintf("%T %s", in, in)
	return func(fr *frame) { fr.w.unsupported("instruction %s", s) }
}

func (w *Worker) indexVals(fr *frame, cells []value, iv value, it, et types.Type) value {
	i, t := w.index(fr, iv, it, len(cells))
	if t == nil {
		return cells[i]
	}
	r := cells[len(cells)-1]
	for i := len(cells) - 2; i >= 0; i-- {
		c := w.tt.Eq(t, w.tt.Const(t.s, uint64(i)))
		m, ok := w.mergeT(c, cells[i], r, et)
		if !ok {
			k := w.concretize(t, 512)
			return cells[k]
		}
		r = m
	}
	return r
}

func (w *Worker) sizeOf(fr *frame, v value, what string) int {
	switch x := v.(type) {
	case uint64:
		if int64(x) < 0 {
			w.rtPanic(fr, "makeslice: "+what+" out of range")
		}
		if int64(x) > 1<<40 {
			w.rtPanic(fr, "makeslice: "+what+" out of range")
		}
		return int(x)
	case *Term:
		t := x
		if t.s < 64 {
			t = w.tt.SExt(t, 64)
		}
		if w.branch(w.tt.Cmp(oSLt, t, w.tt.Const(64, 0))) {
			w.rtPanic(fr, "makeslice: "+what+" out of range")
		}
		return int(w.concretize(t, 600))
	}
	panic("sizeOf")
}

func (w *Worker) concIdx(v value, def int) int {
	switch x := v.(type) {
	case nil:
		return def
	case uint64:
		if int64(x) < 0 || int64(x) > 1<<40 {
			return -1
		}
		return int(x)
	case *Term:
		t := x
		if t.s < 64 {
			t = w.tt.SExt(t, 64)
		}
		// out-of-range values are all the same outcome
		big := w.tt.Not(w.tt.Cmp(oULt, t, w.tt.Const(64, 1<<20)))
		if w.branch(big) {
			return -1
		}
		return int(w.concretize(t, 300))
	}
	panic("concIdx")
}

func (w *Worker) slice(fr *frame, x, lo, hi, mx value) value {
	switch s := x.(type) {
	case string:
		l := w.concIdx(lo, 0)
		h := w.concIdx(hi, len(s))
		if l < 0 || h < 0 || h > len(s) || l > h {
			w.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(s)))
		}
		return s[l:h]
	case *Rope:
		cells, ok := byteCells(s)
		if !ok {
			// s[n:] within a leading literal, s[:n] within a leading literal
			first := s.segs[0]
			l := w.concIdx(lo, 0)
			if first.k == kLit && l >= 0 && l <= len(first.s) {
				if hi == nil {
					return normRope(append([]seg{{k: kLit, s: first.s[l:]}}, s.segs[1:]...))
				}
				h := w.concIdx(hi, 0)
				if h >= l && h <= len(first.s) {
					return first.s[l:h]
				}
			}
			if l == 0 && hi == nil {
				return s
			}
			w.unsupported("slicing opaque string %s", s)
		}
		l := w.concIdx(lo, 0)
		h := w.concIdx(hi, len(cells))
		if l < 0 || h < 0 || h > len(cells) || l > h {
			w.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(cells)))
		}
		return ropeFromCells(cells[l:h])
	case *value:
		if s == nil {
			w.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		a := []value((*s).(arrayV))
		return w.slice(fr, a, lo, hi, mx)
	case []value:
		l := w.concIdx(lo, 0)
		h := w.concIdx(hi, len(s))
		c := w.concIdx(mx, cap(s))
		if l < 0 || h < 0 || c < 0 || c > cap(s) || h > c || l > h {
			w.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, c, cap(s)))
		}
		if s == nil {
			return s
		}
		return s[l:h:c]
	}
	w.unsupported("slice of %T", x)
	return nil
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

// ---- calls ----

func (cc *compiler) prepCall(c *ssa.CallCommon, pos token.Pos) func(fr *frame) (value, []value, *ssa.Builtin) {
	args := cc.opds(c.Args)
	if c.IsInvoke() {
		recv := cc.opd(c.Value)
		m := c.Method
		return func(fr *frame) (value, []value, *ssa.Builtin) {
			fn, rv := fr.w.findMethod(fr, recv.get(fr), m)
			as := make([]value, 0, len(args)+1)
			as = append(as, rv)
			for i := range args {
				as = append(as, copyVal(args[i].get(fr)))
			}
			return fn, as, nil
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return func(fr *frame) (value, []value, *ssa.Builtin) {
			as := make([]value, len(args))
			for i := range args {
				as[i] = args[i].get(fr)
			}
			return nil, as, b
		}
	}
	fv := cc.opd(c.Value)
	return func(fr *frame) (value, []value, *ssa.Builtin) {
		as := make([]value, len(args))
		for i := range args {
			as[i] = copyVal(args[i].get(fr))
		}
		return fv.get(fr), as, nil
	}
}

func (cc *compiler) callInstr(c *ssa.CallCommon, pos token.Pos) func(fr *frame) value {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		args := cc.opds(c.Args)
		ts := make([]types.Type, len(c.Args))
		for i, a := range c.Args {
			ts[i] = a.Type()
		}
		return func(fr *frame) value {
			fr.pos = pos
			as := make([]value, len(args))
			for i := range args {
				as[i] = args[i].get(fr)
			}
			return fr.w.builtin(fr, b, as, ts)
		}
	}
	if fn := c.StaticCallee(); fn != nil {
		if _, isClosure := c.Value.(*ssa.MakeClosure); !isClosure {
			args := cc.opds(c.Args)
			return func(fr *frame) value {
				fr.pos = pos
				as := make([]value, len(args))
				for i := range args {
					as[i] = copyVal(args[i].get(fr))
				}
				return fr.w.call(fr, fn, as, nil)
			}
		}
	}
	prep := cc.prepCall(c, pos)
	return func(fr *frame) value {
		fr.pos = pos
		fn, as, _ := prep(fr)
		return fr.w.callValue(fr, fn, as)
	}
}

func (w *Worker) findMethod(fr *frame, recv value, m *types.Func) (value, value) {
	i, ok := recv.(iface)
	if !ok {
		w.unsupported("invoke on %T", recv)
	}
	if i.t == nil {
		w.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	return w.methodOf(i.t, m.Pkg(), m.Name()), i.v
}

func (w *Worker) methodOf(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := mkey{t, name}
	if f, ok := w.mcache[k]; ok {
		return f
	}
	f := w.e.prog.LookupMethod(t, pkg, name)
	if f == nil {
		w.unsupported("no method %s on %s", name, t)
	}
	w.mcache[k] = f
	return f
}

// callMethod calls method name on an interface value.
func (w *Worker) callMethod(fr *frame, i iface, name string, args ...value) value {
	if i.t == nil {
		w.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	var pkg *types.Package
	f := w.methodOf(i.t, pkg, name)
	return w.call(fr, f, append([]value{i.v}, args...), nil)
}

func (w *Worker) hasMethod(t types.Type, name string) bool {
	ms := w.e.prog.MethodSets.MethodSet(t)
	return ms.Lookup(nil, name) != nil
}

// ---- builtins ----

func (w *Worker) hasOpaque(s []value) bool {
	if !w.opaque {
		return false
	}
	for _, c := range s {
		switch c.(type) {
		case opaqueBytes, opaquePad:
			return true
		}
	}
	return false
}

func (w *Worker) strLen(v value) value {
	switch x := v.(type) {
	case string:
		return uint64(len(x))
	case *Rope:
		cells, ok := byteCells(x)
		if !ok {
			return w.ropeLen(x)
		}
		return uint64(len(cells))
	}
	panic(fmt.Sprintf("strLen %T", v))
}

// ropeLen: length of a string with opaque parts is an unconstrained positive
// number (fixed per string within the path).
func (w *Worker) ropeLen(r *Rope) value {
	lit := uint64(0)
	var sum *Term
	for _, s := range r.segs {
		switch s.k {
		case kLit:
			lit += uint64(len(s.s))
		case kByte:
			lit++
		default:
			if w.spec != nil {
				panic(specAbort{})
			}
			key := fmt.Sprintf("len:%d:%d", s.k, s.t.id)
			var t *Term
			if v, ok := w.side[key]; ok {
				t = v.(*Term)
			} else {
				t = w.newVar(64, fmt.Sprintf("len%d", len(w.side)))
				w.side[key] = t
				hi := uint64(20)
				if s.k == kAtom {
					hi = 64
				}
				w.addPC(w.tt.Cmp(oULt, w.tt.Const(64, 0), t))
				w.addPC(w.tt.Cmp(oULe, t, w.tt.Const(64, hi)))
			}
			if sum == nil {
				sum = t
			} else {
				sum = w.tt.Bin(oAdd, sum, t)
			}
		}
	}
	return w.simp(w.tt.Bin(oAdd, sum, w.tt.Const(64, lit)))
}

func (w *Worker) builtin(fr *frame, b *ssa.Builtin, args []value, ts []types.Type) value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *Rope:
			return w.strLen(x)
		case []value:
			if w.hasOpaque(x) {
				if r, ok := ropeFromCells(x).(*Rope); ok {
					return w.ropeLen(r)
				}
			}
			return uint64(len(x))
		case arrayV:
			return uint64(len(x))
		case *mapV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.live)
		case *chanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case *value:
			return uint64(len((*x).(arrayV)))
		case opaqueBytes:
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return uint64(cap(x))
		case arrayV:
			return uint64(len(x))
		case *chanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case *value:
			return uint64(len((*x).(arrayV)))
		}
	case "append":
		a, _ := args[0].([]value)
		switch y := args[1].(type) {
		case nil:
			return a
		case []value:
			if len(y) == 0 {
				return a
			}
			return zeroTail(w.appendVals(fr, a, y), len(a), cap(a), ts)
		case string, *Rope:
			cells, ok := byteCells(y)
			if !ok {
				w.opaque = true
				cells = []value{opaqueBytes{segsOf(y)}}
			}
			return zeroTail(w.appendVals(fr, a, cells), len(a), cap(a), ts)
		}
	case "copy":
		d := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case []value:
			src = y
		case string, *Rope:
			cells, ok := byteCells(y)
			if !ok {
				w.unsupported("copy from opaque string")
			}
			src = cells
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		if w.spec != nil && n > 0 {
			panic(specAbort{})
		}
		if n > 0 {
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				if w.race != nil {
					w.raceAccess(fr, &src[i], false)
					w.raceAccess(fr, &d[i], true)
				}
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				w.storeTo(&d[i], tmp[i], nil)
			}
		}
		return uint64(n)
	case "delete":
		m, _ := args[0].(*mapV)
		if m == nil {
			return nil
		}
		w.mapDelete(fr, m, args[1], ts[0].Underlying().(*types.Map))
		return nil
	case "close":
		w.chanClose(fr, args[0].(*chanV))
		return nil
	case "panic":
		w.panicVal(fr, args[0])
	case "recover":
		return w.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for i := 1; i < len(args); i++ {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := w.binop(fr, op, ts[0], ts[0], args[i], r)
			switch x := c.(type) {
			case bool:
				if x {
					r = args[i]
				}
			case *Term:
				m, ok := w.mergeT(x, args[i], r, ts[0])
				if !ok {
					w.unsupported("min/max")
				}
				r = m
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				if w.spec != nil {
					panic(specAbort{})
				}
				w.raceMap(fr, x, true)
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents = nil
				x.idx = map[any]*mapEnt{}
				x.nsym, x.live = 0, 0
			}
			return nil
		case []value:
			et := ts[0].Underlying().(*types.Slice).Elem()
			for i := range x {
				w.storeTo(&x[i], zero(et), et)
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			w.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "real":
		if c, ok := args[0].(complex128); ok {
			return real(c)
		}
	case "imag":
		if c, ok := args[0].(complex128); ok {
			return imag(c)
		}
	case "Sizeof":
		if _, ok := ts[0].(*types.TypeParam); !ok {
			return uint64(types.SizesFor("gc", "amd64").Sizeof(ts[0]))
		}
		switch args[0].(type) {
		case float64:
			return uint64(8)
		case float32:
			return uint64(4)
		}
	case "String": // unsafe.String(ptr, len)
	case "StringData", "SliceData", "Slice", "Add":
	}
	w.unsupported("builtin %s(%T)", b.Name(), args[0])
	return nil
}

// zeroTail sets the elements after the end of a slice that append allocated.
func zeroTail(v value, l, c int, ts []types.Type) value {
	r := v.([]value)
	if len(r) <= c || len(ts) == 0 || cap(r) == len(r) {
		return v
	}
	st, ok := ts[0].Underlying().(*types.Slice)
	if !ok {
		return v
	}
	if _, ok := st.Elem().Underlying().(*types.Interface); ok {
		return v
	}
	t := r[len(r):cap(r)]
	for i := range t {
		t[i] = zero(st.Elem())
	}
	return v
}

func (w *Worker) appendVals(fr *frame, a, y []value) value {
	n := len(a) + len(y)
	if n <= cap(a) {
		if w.spec != nil {
			panic(specAbort{})
		}
		r := a[:n]
		tmp := make([]value, len(y))
		for i := range y {
			tmp[i] = copyVal(y[i])
		}
		for i := range y {
			if w.race != nil {
				w.raceAccess(fr, &r[len(a)+i], true)
			}
			r[len(a)+i] = tmp[i]
		}
		return r
	}
	nc := cap(a)
	if nc < 256 {
		nc *= 2
	} else {
		nc += nc / 4
	}
	if nc < n {
		nc = n
	}
	// round like small size classes: Go's growth is not specified, code must not depend on it
	r := make([]value, n, nc)
	for i := range a {
		if w.race != nil {
			w.raceAccess(fr, &a[i], false)
		}
		r[i] = copyVal(a[i])
	}
	for i := range y {
		r[len(a)+i] = copyVal(y[i])
	}
	return r
}

func (w *Worker) doRecover(fr *frame) value {
	// recover is effective only when called directly by a deferred function
	// of a panicking frame: the caller of fr is that frame.
	c := fr.caller
	if c == nil || c.panicking == nil {
		return iface{}
	}
	p := c.panicking
	c.panicking = nil
	c.recovered = true
	if i, ok := p.v.(iface); ok {
		return i
	}
	return iface{types.Typ[types.String], fmt.Sprint(p.v)}
}

// ---- string iteration ----

type strIter struct {
	s     string
	cells []value
	i     int
}

func (it *strIter) next(w *Worker) value {
	if it.cells != nil || it.s == "" {
		if it.i >= len(it.cells) {
			return tupleV{false, uint64(0), uint64(0)}
		}
		c := it.cells[it.i]
		k := it.i
		switch x := c.(type) {
		case uint64:
			if x < 0x80 {
				it.i++
				return tupleV{true, uint64(k), x}
			}
			// concrete multi-byte rune
			var b []byte
			for j := it.i; j < len(it.cells) && j < it.i+4; j++ {
				u, ok := it.cells[j].(uint64)
				if !ok {
					break
				}
				b = append(b, byte(u))
			}
			r, n := utf8.DecodeRune(b)
			it.i += n
			return tupleV{true, uint64(k), uint64(uint32(r))}
		case *Term:
			if !w.branch(w.tt.Cmp(oULt, x, w.tt.Const(8, 0x80))) {
				w.unsupported("non-ASCII symbolic byte")
			}
			it.i++
			return tupleV{true, uint64(k), w.simp(w.tt.ZExt(x, 32))}
		}
		w.unsupported("strIter")
	}
	if it.i >= len(it.s) {
		return tupleV{false, uint64(0), uint64(0)}
	}
	r, n := utf8.DecodeRuneInString(it.s[it.i:])
	k := it.i
	it.i += n
	return tupleV{true, uint64(k), uint64(uint32(r))}
}
