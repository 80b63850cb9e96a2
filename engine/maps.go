package main

import (
	"go/types"
	"sort"
)

func (w *Worker) mapFind(fr *frame, m *mapV, k value, kt types.Type) *mapEnt {
	hk, conc := hkey(k)
	if conc {
		if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
			w.rtPanic(fr, "hash of unhashable type "+i.t.String())
		}
		if e, ok := m.idx[hk]; ok && !e.dead {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := hkey(e.k); ec {
				continue // concrete keys were looked up through idx
			}
		}
		if w.truth(w.simpB(w.equal(fr, e.k, k, kt))) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapLookup(fr *frame, m *mapV, k value, mt *types.Map) (value, bool) {
	if m == nil {
		return zero(mt.Elem()), false
	}
	w.raceMap(fr, m, false)
	e := w.mapFind(fr, m, k, mt.Key())
	if e == nil {
		return zero(mt.Elem()), false
	}
	return copyVal(e.v), true
}

func (w *Worker) mapUpdate(fr *frame, m *mapV, k, v value, mt *types.Map) {
	if w.spec != nil {
		panic(specAbort{})
	}
	if m == nil {
		w.rtPanicPlain(fr, "assignment to entry in nil map")
	}
	w.raceMap(fr, m, true)
	e := w.mapFind(fr, m, k, mt.Key())
	if e != nil {
		e.v = copyVal(v)
		return
	}
	e = &mapEnt{k: copyVal(k), v: copyVal(v)}
	m.ents = append(m.ents, e)
	m.live++
	if hk, ok := hkey(k); ok {
		m.idx[hk] = e
	} else {
		m.nsym++
	}
}

func (w *Worker) mapDelete(fr *frame, m *mapV, k value, mt *types.Map) {
	if w.spec != nil {
		panic(specAbort{})
	}
	w.raceMap(fr, m, true)
	e := w.mapFind(fr, m, k, mt.Key())
	if e == nil {
		return
	}
	e.dead = true
	m.live--
	if hk, ok := hkey(e.k); ok {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	if len(m.ents) > 2*m.live+16 {
		// iterators hold their own snapshot, so compaction is safe
		var l []*mapEnt
		for _, e := range m.ents {
			if !e.dead {
				l = append(l, e)
			}
		}
		m.ents = l
	}
}

func (w *Worker) rtPanicPlain(fr *frame, msg string) { w.rtPanic(fr, msg) }

type mapIterV struct {
	m    *mapV
	todo []*mapEnt
	kt   types.Type
	vt   types.Type
	nd   bool
}

func (w *Worker) mapIter(fr *frame, m *mapV, mt *types.Map) *mapIterV {
	it := &mapIterV{m: m, kt: mt.Key(), vt: mt.Elem()}
	if m == nil {
		return it
	}
	w.raceMap(fr, m, false)
	for _, e := range m.ents {
		if !e.dead {
			it.todo = append(it.todo, e)
		}
	}
	it.nd = w.mapOrder && fr.fn != nil && fr.fn.inRepo && len(it.todo) > 1 && len(it.todo) <= 6
	if it.nd {
		w.usedMapOrd = true
	}
	return it
}

func (it *mapIterV) next(w *Worker) value {
	for len(it.todo) > 0 {
		i := 0
		if it.nd {
			// drop deleted entries first so that they are not scheduling choices
			var l []*mapEnt
			for _, e := range it.todo {
				if !e.dead {
					l = append(l, e)
				}
			}
			it.todo = l
			if len(l) == 0 {
				break
			}
			i = w.chooseN(len(l))
			e := l[i]
			it.todo = append(append([]*mapEnt{}, l[:i]...), l[i+1:]...)
			return tupleV{true, copyVal(e.k), copyVal(e.v)}
		}
		e := it.todo[i]
		it.todo = it.todo[1:]
		if e.dead {
			continue
		}
		return tupleV{true, copyVal(e.k), copyVal(e.v)}
	}
	return tupleV{false, zero(it.kt), zero(it.vt)}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
