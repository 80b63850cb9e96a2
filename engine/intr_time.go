package main

import (
	"go/types"
	"time"
)

const wallEpoch = 1_700_000_000 // unix seconds at virtual clock 0

// timeVal builds a time.Time for the virtual clock.
func (w *Worker) timeVal() value {
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	const wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	sec := int64(wallEpoch) + w.clock/1e9 + unixToInternal - wallToInternal
	nsec := w.clock % 1e9
	wall := uint64(1)<<63 | uint64(sec)<<30 | uint64(nsec)
	return structV{wall, uint64(w.clock + 1), (*value)(nil)}
}

type htimer struct {
	t      *timer
	ch     *chanV
	fn     value
	period int64
}

func registerTime() {
	reg("time.Now", func(fr *frame, a []value) value {
		w := fr.w
		if w.nowStep > 0 {
			w.clock += w.nowStep
		}
		return w.timeVal()
	})
	reg("time.runtimeNano", func(fr *frame, a []value) value { return uint64(fr.w.clock + 1) })
	reg("time.Sleep", func(fr *frame, a []value) value {
		w := fr.w
		d := w.durOf(a[0])
		if d <= 0 {
			w.syncPoint()
			return nil
		}
		done := false
		g := w.cur
		w.addTimer(d, func() { done = true; g.blocked = false })
		w.blockOn(fr, "sleep", func() bool { return done })
		return nil
	})
	tm := func(w *Worker, typ string, h *htimer) value {
		p := new(value)
		var cv value = (*chanV)(nil)
		if h.ch != nil {
			cv = h.ch
		}
		t := w.e.prog.ImportedPackage("time").Type(typ).Type()
		st := zero(t).(structV)
		st[0] = cv
		*p = st
		w.side[sideKey{"timer", p}] = h
		return p
	}
	var arm func(w *Worker, h *htimer, d int64)
	arm = func(w *Worker, h *htimer, d int64) {
		h.t = w.addTimer(d, func() {
			if h.fn != nil {
				g := w.newGor("time.AfterFunc", func(fr0 *frame) { w.callValue(fr0, h.fn, nil) })
				if w.race != nil {
					g.tick()
				}
			} else {
				w.hostSend(h.ch, w.timeVal())
			}
			if h.period > 0 {
				arm(w, h, h.period)
			}
		})
	}
	reg("os/signal.Notify", func(fr *frame, a []value) value {
		w := fr.w
		l, _ := w.xdata["signal"].([]*chanV)
		w.xdata["signal"] = append(l, a[0].(*chanV))
		return nil
	})
	reg(vp+"Interrupt", func(fr *frame, a []value) value {
		w := fr.w
		t := w.e.prog.ImportedPackage("syscall").Type("Signal").Type()
		l, _ := w.xdata["signal"].([]*chanV)
		for _, c := range l {
			w.hostSend(c, iface{t, uint64(2)})
		}
		return nil
	})
	reg("time.NewTimer", func(fr *frame, a []value) value {
		h := &htimer{ch: &chanV{cap: 1}}
		arm(fr.w, h, fr.w.durOf(a[0]))
		return tm(fr.w, "Timer", h)
	})
	reg("time.After", func(fr *frame, a []value) value {
		h := &htimer{ch: &chanV{cap: 1}}
		arm(fr.w, h, fr.w.durOf(a[0]))
		return h.ch
	})
	reg("time.AfterFunc", func(fr *frame, a []value) value {
		h := &htimer{fn: a[1]}
		arm(fr.w, h, fr.w.durOf(a[0]))
		return tm(fr.w, "Timer", h)
	})
	reg("time.NewTicker", func(fr *frame, a []value) value {
		d := fr.w.durOf(a[0])
		if d <= 0 {
			fr.w.panicVal(fr, iface{types.Typ[types.String], "non-positive interval for NewTicker"})
		}
		h := &htimer{ch: &chanV{cap: 1}, period: d}
		arm(fr.w, h, d)
		return tm(fr.w, "Ticker", h)
	})
	reg("time.Tick", func(fr *frame, a []value) value {
		d := fr.w.durOf(a[0])
		if d <= 0 {
			return (*chanV)(nil)
		}
		h := &htimer{ch: &chanV{cap: 1}, period: d}
		arm(fr.w, h, d)
		return h.ch
	})
	get := func(fr *frame, p value) *htimer {
		q, _ := p.(*value)
		if q == nil {
			fr.w.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		h, ok := fr.w.side[sideKey{"timer", q}].(*htimer)
		if !ok {
			fr.w.unsupported("uninitialised timer")
		}
		return h
	}
	stop := func(fr *frame, a []value) value {
		h := get(fr, a[0])
		was := h.t.active
		h.t.active = false
		if h.ch != nil && h.period == 0 {
			// Go 1.23+: no stale value after Stop
			if len(h.ch.buf) > 0 {
				h.ch.buf, h.ch.bufvc = nil, nil
				was = true
			}
		}
		return was
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", func(fr *frame, a []value) value { stop(fr, a); return nil })
	reg("(*time.Timer).Reset", func(fr *frame, a []value) value {
		h := get(fr, a[0])
		was := h.t.active
		h.t.active = false
		if h.ch != nil {
			h.ch.buf, h.ch.bufvc = nil, nil
		}
		arm(fr.w, h, fr.w.durOf(a[1]))
		return was
	})
	reg("(*time.Ticker).Reset", func(fr *frame, a []value) value {
		h := get(fr, a[0])
		h.t.active = false
		h.period = fr.w.durOf(a[1])
		arm(fr.w, h, h.period)
		return nil
	})
	regP("time.ParseDuration", func(fr *frame, a []value) value {
		s, ok := a[0].(string)
		if !ok {
			r := a[0].(*Rope)
			for _, sg := range r.segs {
				if sg.k == kAtom {
					return tupleV{uint64(0), fr.w.goError("time: invalid duration")}
				}
			}
			bytes := true
			for _, sg := range r.segs {
				bytes = bytes && (sg.k == kByte || sg.k == kLit)
			}
			if bytes {
				return fallthru
			}
			w := fr.w
			units := map[string]uint64{"ns": 1, "us": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9}
			if len(r.segs) == 0 || len(r.segs) > 2 || r.segs[0].k != kDec || (len(r.segs) == 2 && r.segs[1].k != kLit) {
				w.unsupported("ParseDuration of %s", r)
			}
			t := r.segs[0].t
			neg := !r.segs[0].uns && w.branch(w.tt.Cmp(oSLt, t, w.tt.Const(64, 0)))
			if neg {
				t = w.tt.Bin(oSub, w.tt.Const(64, 0), t)
			}
			if len(r.segs) == 1 {
				if w.branch(w.tt.Eq(t, w.tt.Const(64, 0))) {
					return tupleV{uint64(0), nilErr()}
				}
				return tupleV{uint64(0), w.goError("time: missing unit in duration")}
			}
			u, ok := units[r.segs[1].s]
			if !ok {
				w.unsupported("ParseDuration of %s", r)
			}
			max := uint64(1)<<63 - 1
			if neg {
				max++
			}
			if w.branch(w.tt.Cmp(oULt, w.tt.Const(64, max/u), t)) {
				return tupleV{uint64(0), w.goError("time: invalid duration")}
			}
			d := w.tt.Bin(oMul, t, w.tt.Const(64, u))
			if neg {
				d = w.tt.Bin(oSub, w.tt.Const(64, 0), d)
			}
			return tupleV{w.simp(d), nilErr()}
		}
		d, err := time.ParseDuration(s)
		if err != nil {
			return tupleV{uint64(0), fr.w.goError(err.Error())}
		}
		return tupleV{uint64(int64(d)), nilErr()}
	})
	regP("time.runtimeIsBubbled", func(fr *frame, a []value) value { return false })
	regP("(time.Time).Format", func(fr *frame, a []value) value { return "TIME" })
	regP("(time.Time).String", func(fr *frame, a []value) value { return "TIME" })
	regP("(*time.Location).get", func(fr *frame, a []value) value { return a[0] })
	regP("(time.Time).Local", func(fr *frame, a []value) value { return a[0] })
}

func (w *Worker) durOf(v value) int64 {
	switch x := v.(type) {
	case uint64:
		return int64(x)
	case *Term:
		return int64(w.concretize(x, 16))
	}
	panic("durOf")
}
