package main

import (
	"fmt"
	"go/token"
	"go/types"
)

const tokLSS = token.LSS

type mutexV struct {
	locked  bool
	readers int
	vc      []int
	rvc     []int
	wq      int
}
type wgV struct {
	n  int64
	vc []int
}
type onceV struct {
	done bool
	mu   mutexV
}

func sideOf[T any](w *Worker, k any, tag string) *T {
	key := sideKey{tag, k}
	if v, ok := w.side[key]; ok {
		return v.(*T)
	}
	v := new(T)
	w.side[key] = v
	return v
}

type sideKey struct {
	tag string
	k   any
}

// waitUntil parks the current goroutine until cond holds; other goroutines
// call w.kick(key) when the state guarded by key changes.
func (w *Worker) waitUntil(fr *frame, key any, why string, cond func() bool) {
	if cond() {
		return
	}
	if fr != nil && fr.pos.IsValid() {
		p := w.e.prog.Fset.Position(fr.pos)
		why = fmt.Sprintf("%s at %s:%d", why, p.Filename, p.Line)
	}
	for !cond() {
		if w.waiting == nil {
			w.waiting = map[any][]*gor{}
		}
		w.waiting[key] = append(w.waiting[key], w.cur)
		w.block(why)
	}
}
func (w *Worker) kick(key any) {
	for _, g := range w.waiting[key] {
		g.blocked = false
	}
	delete(w.waiting, key)
}

func (w *Worker) lock(fr *frame, m *mutexV) {
	if w.spec != nil {
		panic(specAbort{})
	}
	w.syncPoint()
	w.waitUntil(fr, m, "mutex lock", func() bool { return !m.locked && m.readers == 0 })
	m.locked = true
	w.raceAcquire(m.vc)
	w.raceAcquire(m.rvc)
}
func (w *Worker) unlock(fr *frame, m *mutexV) {
	if !m.locked {
		panic(&targetPanic{v: iface{types.Typ[types.String], "fatal error: sync: unlock of unlocked mutex"}, stack: w.where()})
	}
	m.vc = w.raceRelease(nil)
	m.locked = false
	w.kick(m)
	w.syncPoint()
}

func registerSync() {
	mk := func(p value) *value { return p.(*value) }
	chk := func(fr *frame, p value) *value {
		q := mk(p)
		if q == nil {
			fr.w.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		return q
	}
	for _, pre := range []string{"(*sync.Mutex).", "(*sync.RWMutex).", "(*internal/sync.Mutex)."} {
		reg(pre+"Lock", func(fr *frame, a []value) value {
			fr.w.lock(fr, sideOf[mutexV](fr.w, chk(fr, a[0]), "mu"))
			return nil
		})
		reg(pre+"Unlock", func(fr *frame, a []value) value {
			fr.w.unlock(fr, sideOf[mutexV](fr.w, chk(fr, a[0]), "mu"))
			return nil
		})
		reg(pre+"TryLock", func(fr *frame, a []value) value {
			m := sideOf[mutexV](fr.w, chk(fr, a[0]), "mu")
			fr.w.syncPoint()
			if m.locked || m.readers > 0 {
				return false
			}
			m.locked = true
			fr.w.raceAcquire(m.vc)
			return true
		})
	}
	reg("(*sync.RWMutex).RLock", func(fr *frame, a []value) value {
		m := sideOf[mutexV](fr.w, chk(fr, a[0]), "mu")
		fr.w.syncPoint()
		fr.w.waitUntil(fr, m, "rwmutex rlock", func() bool { return !m.locked })
		m.readers++
		fr.w.raceAcquire(m.vc)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *frame, a []value) value {
		m := sideOf[mutexV](fr.w, chk(fr, a[0]), "mu")
		if m.readers <= 0 {
			panic(&targetPanic{v: iface{types.Typ[types.String], "fatal error: sync: RUnlock of unlocked RWMutex"}, stack: fr.w.where()})
		}
		m.readers--
		m.rvc = fr.w.raceRelease(m.rvc)
		fr.w.kick(m)
		fr.w.syncPoint()
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(fr *frame, a []value) value {
		w := fr.w
		g := sideOf[wgV](w, chk(fr, a[0]), "wg")
		g.n += cint(w, a[1])
		if g.n < 0 {
			w.panicVal(fr, iface{types.Typ[types.String], "sync: negative WaitGroup counter"})
		}
		g.vc = w.raceRelease(g.vc)
		if g.n == 0 {
			w.kick(g)
		}
		w.syncPoint()
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *frame, a []value) value {
		return intrinsics["(*sync.WaitGroup).Add"](fr, []value{a[0], ^uint64(0)})
	})
	reg("(*sync.WaitGroup).Wait", func(fr *frame, a []value) value {
		w := fr.w
		g := sideOf[wgV](w, chk(fr, a[0]), "wg")
		w.syncPoint()
		w.waitUntil(fr, g, "waitgroup wait", func() bool { return g.n == 0 })
		w.raceAcquire(g.vc)
		return nil
	})
	reg("(*sync.Once).Do", func(fr *frame, a []value) value {
		w := fr.w
		o := sideOf[onceV](w, chk(fr, a[0]), "once")
		if o.done {
			w.raceAcquire(o.mu.vc)
			return nil
		}
		w.lock(fr, &o.mu)
		if o.done {
			w.unlock(fr, &o.mu)
			return nil
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(*targetPanic); ok {
						o.done = true
						w.unlock(fr, &o.mu)
					}
					panic(r)
				}
			}()
			w.callValue(fr, a[1], nil)
		}()
		o.done = true
		w.unlock(fr, &o.mu)
		return nil
	})
	reg("(*sync.Pool).Get", func(fr *frame, a []value) value {
		p := (*chk(fr, a[0])).(structV)
		nf := p[len(p)-1] // New is the last field
		if nf == nil {
			return iface{}
		}
		return fr.w.callValue(fr, nf, nil)
	})
	reg("(*sync.Pool).Put", func(fr *frame, a []value) value { return nil })

	// sync.Map: Load/Store/... on a side table
	type smap struct {
		m  *mapV
		vc []int
	}
	anyT := types.NewInterfaceType(nil, nil)
	mt := types.NewMap(anyT, anyT)
	gm := func(fr *frame, p value) *smap {
		s := sideOf[smap](fr.w, chk(fr, p), "smap")
		if s.m == nil {
			s.m = newMap()
		}
		fr.w.syncPoint()
		fr.w.raceAcquire(s.vc)
		s.vc = fr.w.raceRelease(s.vc)
		return s
	}
	quiet := func(w *Worker, f func()) { r := w.race; w.race = nil; f(); w.race = r }
	reg("(*sync.Map).Load", func(fr *frame, a []value) value {
		s := gm(fr, a[0])
		var v value
		var ok bool
		quiet(fr.w, func() { v, ok = fr.w.mapLookup(fr, s.m, a[1], mt) })
		return tupleV{v, ok}
	})
	reg("(*sync.Map).Store", func(fr *frame, a []value) value {
		s := gm(fr, a[0])
		quiet(fr.w, func() { fr.w.mapUpdate(fr, s.m, a[1], a[2], mt) })
		return nil
	})
	reg("(*sync.Map).Delete", func(fr *frame, a []value) value {
		s := gm(fr, a[0])
		quiet(fr.w, func() { fr.w.mapDelete(fr, s.m, a[1], mt) })
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *frame, a []value) value {
		s := gm(fr, a[0])
		var v value
		var ok bool
		quiet(fr.w, func() {
			v, ok = fr.w.mapLookup(fr, s.m, a[1], mt)
			if !ok {
				fr.w.mapUpdate(fr, s.m, a[1], a[2], mt)
				v = a[2]
			}
		})
		return tupleV{v, ok}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *frame, a []value) value {
		s := gm(fr, a[0])
		var v value
		var ok bool
		quiet(fr.w, func() {
			v, ok = fr.w.mapLookup(fr, s.m, a[1], mt)
			fr.w.mapDelete(fr, s.m, a[1], mt)
		})
		return tupleV{v, ok}
	})
	reg("(*sync.Map).Range", func(fr *frame, a []value) value {
		s := gm(fr, a[0])
		es := append([]*mapEnt{}, s.m.ents...)
		for _, e := range es {
			if e.dead {
				continue
			}
			if !fr.w.truth(fr.w.callValue(fr, a[1], []value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// sync.Cond
	type condV struct {
		q  []*waiter
		vc []int
	}
	reg("(*sync.Cond).Wait", func(fr *frame, a []value) value {
		w := fr.w
		c := sideOf[condV](w, chk(fr, a[0]), "cond")
		st := (*a[0].(*value)).(structV)
		var l iface
		for _, f := range st {
			if i, ok := f.(iface); ok && i.t != nil {
				l = i
			}
		}
		q := &waiter{g: w.cur}
		c.q = append(c.q, q)
		w.callMethod(fr, l, "Unlock")
		w.blockOn(fr, "cond wait", func() bool { return q.done })
		w.raceAcquire(q.vc)
		w.callMethod(fr, l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(fr *frame, a []value) value {
		c := sideOf[condV](fr.w, chk(fr, a[0]), "cond")
		if q := popLive(&c.q); q != nil {
			q.vc = fr.w.raceRelease(nil)
			fr.w.wake(q)
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(fr *frame, a []value) value {
		c := sideOf[condV](fr.w, chk(fr, a[0]), "cond")
		for {
			q := popLive(&c.q)
			if q == nil {
				break
			}
			q.vc = fr.w.raceRelease(nil)
			fr.w.wake(q)
		}
		return nil
	})

	// sync/atomic
	type atomV struct{ vc []int }
	sync := func(fr *frame, p *value) {
		w := fr.w
		w.syncPoint()
		if w.race != nil {
			s := sideOf[atomV](w, p, "atom")
			w.raceAcquire(s.vc)
			s.vc = w.raceRelease(s.vc)
		}
	}
	cell := func(fr *frame, p value) *value {
		switch x := p.(type) {
		case *value:
			if x == nil {
				fr.w.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			return x
		case *symPtr:
			k := fr.w.concretize(x.idx, 64)
			return x.ptrs[k]
		}
		panic("atomic cell")
	}
	for _, ty := range []struct {
		n string
		t types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", types.Typ[types.UnsafePointer]}} {
		ty := ty
		reg("sync/atomic.Load"+ty.n, func(fr *frame, a []value) value {
			p := cell(fr, a[0])
			sync(fr, p)
			return *p
		})
		reg("sync/atomic.Store"+ty.n, func(fr *frame, a []value) value {
			p := cell(fr, a[0])
			sync(fr, p)
			*p = a[1]
			return nil
		})
		reg("sync/atomic.Swap"+ty.n, func(fr *frame, a []value) value {
			p := cell(fr, a[0])
			sync(fr, p)
			o := *p
			*p = a[1]
			return o
		})
		reg("sync/atomic.CompareAndSwap"+ty.n, func(fr *frame, a []value) value {
			p := cell(fr, a[0])
			sync(fr, p)
			if fr.w.truth(fr.w.simpB(fr.w.equal(fr, *p, a[1], ty.t))) {
				*p = a[2]
				return true
			}
			return false
		})
		if ty.n != "Pointer" {
			reg("sync/atomic.Add"+ty.n, func(fr *frame, a []value) value {
				p := cell(fr, a[0])
				sync(fr, p)
				*p = fr.w.binop(fr, token.ADD, ty.t, ty.t, *p, a[1])
				return *p
			})
		}
	}
	type avV struct {
		v  iface
		vc []int
	}
	reg("(*sync/atomic.Value).Load", func(fr *frame, a []value) value {
		s := sideOf[avV](fr.w, chk(fr, a[0]), "av")
		fr.w.syncPoint()
		fr.w.raceAcquire(s.vc)
		return s.v
	})
	reg("(*sync/atomic.Value).Store", func(fr *frame, a []value) value {
		s := sideOf[avV](fr.w, chk(fr, a[0]), "av")
		fr.w.syncPoint()
		s.vc = fr.w.raceRelease(s.vc)
		s.v = a[1].(iface)
		return nil
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(fr *frame, a []value) value {
		s := sideOf[avV](fr.w, chk(fr, a[0]), "av")
		fr.w.syncPoint()
		if fr.w.truth(fr.w.simpB(fr.w.equal(fr, s.v, a[1], anyT))) {
			s.vc = fr.w.raceRelease(s.vc)
			s.v = a[2].(iface)
			return true
		}
		return false
	})
}
