package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// specState logs memory writes made while a branch region is executed
// speculatively for if-conversion.
type specState struct {
	parent *specState
	log    []specEnt
	limit  int64
}
type specEnt struct {
	p   *value
	old value
	t   types.Type
}

func (s *specState) store(x *value, v value, t types.Type) {
	s.log = append(s.log, specEnt{x, *x, t})
	*x = v
}
func (s *specState) undo() {
	for i := len(s.log) - 1; i >= 0; i-- {
		*s.log[i].p = s.log[i].old
	}
}

type mergeInfo struct {
	join int
	ok   bool
}

func regionInstrOK(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.MapUpdate, *ssa.RunDefers, *ssa.Return, *ssa.Panic, *ssa.Range, *ssa.Next, *ssa.MakeChan:
		return false
	case *ssa.UnOp:
		if x.Op.String() == "<-" {
			return false
		}
	}
	return true
}

// computeMerge finds the join block of a branch and checks that the region
// between is acyclic and free of effects that cannot be speculated.
func (c *cfunc) computeMerge(b int) *mergeInfo {
	f := c.fn
	mi := &mergeInfo{}
	n := len(f.Blocks)
	pd := c.postdoms()
	// immediate post dominator: the strict post-dominator post-dominated by all the others
	best := -1
	for j := 0; j < n; j++ {
		if j == b || !pd[b][j] {
			continue
		}
		if best < 0 || pd[j][best] == false && pd[best][j] {
			// j post-dominates best => best closer; keep best
			if best < 0 {
				best = j
			}
			continue
		}
		if pd[j][best] { // best post-dominates j: j is closer
			best = j
		}
	}
	if best < 0 {
		return mi
	}
	// region
	seen := map[int]int{} // 1 in progress, 2 done
	cnt := 0
	var rec func(x int) bool
	rec = func(x int) bool {
		if x == best {
			return true
		}
		if x == b || seen[x] == 1 {
			return false
		}
		if seen[x] == 2 {
			return true
		}
		seen[x] = 1
		cnt++
		if cnt > 24 {
			return false
		}
		blk := f.Blocks[x]
		if len(blk.Succs) == 0 {
			return false
		}
		for _, in := range blk.Instrs {
			if !regionInstrOK(in) {
				return false
			}
		}
		for _, s := range blk.Succs {
			if !rec(s.Index) {
				return false
			}
		}
		seen[x] = 2
		return true
	}
	for _, s := range f.Blocks[b].Succs {
		if !rec(s.Index) {
			return mi
		}
	}
	mi.join = best
	mi.ok = true
	return mi
}

func (c *cfunc) postdoms() [][]bool {
	if c.pdom != nil {
		return c.pdom
	}
	f := c.fn
	n := len(f.Blocks)
	pd := make([][]bool, n)
	for i := range pd {
		pd[i] = make([]bool, n)
		if len(f.Blocks[i].Succs) == 0 {
			pd[i][i] = true
			continue
		}
		for j := range pd[i] {
			pd[i][j] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			for j := 0; j < n; j++ {
				v := true
				for _, s := range b.Succs {
					if !pd[s.Index][j] {
						v = false
						break
					}
				}
				if i == j {
					v = true
				}
				if v != pd[i][j] {
					pd[i][j] = v
					ch = true
				}
			}
		}
	}
	c.pdom = pd
	return pd
}

type specRes struct {
	phis []value
	log  []specEnt
	vals []value // value at p after the side, parallel to log
}

// tryMerge executes both sides of a symbolic branch up to their join and
// merges the results into ite terms.
func (w *Worker) tryMerge(fr *frame, c *cfunc, b int, cond *Term) (next, prev int, ok bool) {
	if w.noMerge || w.race != nil {
		return 0, 0, false
	}
	blk := c.blocks[b]
	if !blk.mdone {
		blk.mdone = true
		blk.merge = c.computeMerge(b)
	}
	mi := blk.merge
	if !mi.ok || w.mfail[blk] >= 2 {
		return 0, 0, false
	}
	if w.pcset[cond] || w.pcset[w.tt.Not(cond)] {
		return 0, 0, false
	}
	parent := w.spec
	side := func(start int) (r specRes, ok bool) {
		sp := &specState{parent: parent, limit: w.steps + 3000}
		if parent != nil && parent.limit < sp.limit {
			sp.limit = parent.limit
		}
		w.spec = sp
		d := w.depth
		defer func() {
			x := recover()
			r.log = sp.log
			if x == nil {
				seen := map[*value]bool{}
				for _, e := range sp.log {
					if !seen[e.p] {
						seen[e.p] = true
					}
				}
				for _, e := range sp.log {
					r.vals = append(r.vals, *e.p)
				}
			}
			sp.undo()
			w.spec = parent
			w.depth = d
			w.cur.fr = fr
			if x != nil {
				if _, isSpec := x.(specAbort); !isSpec {
					if tp, isT := x.(*targetPanic); isT {
						_ = tp
						ok = false
						return
					}
					panic(x)
				}
				ok = false
			}
		}()
		cb, pb := start, b
		for cb != mi.join {
			cb, pb = w.specBlock(fr, c, cb, pb)
		}
		j := c.blocks[mi.join]
		if len(j.phis) > 0 && pb == -2 {
			// nested merge already placed the phi registers
			for i := range j.phis {
				r.phis = append(r.phis, fr.regs[j.phis[i].dst])
			}
		} else if len(j.phis) > 0 {
			pi := -1
			for i, p := range c.preds[mi.join] {
				if p == pb {
					pi = i
				}
			}
			if pi < 0 {
				panic(specAbort{})
			}
			for i := range j.phis {
				r.phis = append(r.phis, j.phis[i].edges[pi].get(fr))
			}
		}
		return r, true
	}
	fail := func() (int, int, bool) {
		w.mfail[blk]++
		return 0, 0, false
	}
	var saved []value
	j := c.blocks[mi.join]
	for i := range j.phis {
		saved = append(saved, fr.regs[j.phis[i].dst])
	}
	restore := func() {
		for i := range j.phis {
			fr.regs[j.phis[i].dst] = saved[i]
		}
	}
	ra, ok := side(blk.succ[0])
	restore()
	if !ok {
		return fail()
	}
	rb, ok := side(blk.succ[1])
	restore()
	if !ok {
		return fail()
	}
	// merge phis
	out := make([]value, len(j.phis))
	phiT := c.phiTypes(mi.join)
	for i := range j.phis {
		m, ok := w.mergeT(cond, ra.phis[i], rb.phis[i], phiT[i])
		if !ok {
			return fail()
		}
		out[i] = m
	}
	// merge memory
	type cell struct {
		a, b value
		ha   bool
		hb   bool
		t    types.Type
	}
	cells := map[*value]*cell{}
	var order []*value
	add := func(r specRes, isA bool) {
		for i, e := range r.log {
			ce := cells[e.p]
			if ce == nil {
				ce = &cell{t: e.t}
				cells[e.p] = ce
				order = append(order, e.p)
			}
			if ce.t == nil {
				ce.t = e.t
			}
			if isA {
				ce.a, ce.ha = r.vals[i], true
			} else {
				ce.b, ce.hb = r.vals[i], true
			}
		}
	}
	add(ra, true)
	add(rb, false)
	type upd struct {
		p *value
		v value
		t types.Type
	}
	var upds []upd
	for _, p := range order {
		ce := cells[p]
		a, bb := *p, *p
		if ce.ha {
			a = ce.a
		}
		if ce.hb {
			bb = ce.b
		}
		t := ce.t
		var m value
		var ok bool
		if t == nil {
			m, ok = w.merge(cond, a, bb)
		} else {
			m, ok = w.mergeT(cond, a, bb, t)
		}
		if !ok {
			return fail()
		}
		upds = append(upds, upd{p, m, t})
	}
	for _, u := range upds {
		if w.spec != nil {
			w.spec.store(u.p, u.v, u.t)
		} else {
			*u.p = u.v
		}
	}
	for i := range j.phis {
		fr.regs[j.phis[i].dst] = out[i]
	}
	return mi.join, -2, true
}

func (c *cfunc) phiTypes(b int) []types.Type {
	var out []types.Type
	for _, in := range c.fn.Blocks[b].Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p.Type())
		} else {
			break
		}
	}
	return out
}

// specBlock executes one block inside a speculation and returns the next.
func (w *Worker) specBlock(fr *frame, c *cfunc, b, prev int) (int, int) {
	blk := c.blocks[b]
	if len(blk.phis) > 0 {
		w.doPhis(fr, c, b, prev)
	}
	w.steps += int64(blk.n)
	if w.steps > w.spec.limit {
		panic(specAbort{})
	}
	for _, in := range blk.body {
		in(fr)
	}
	switch blk.kind {
	case 0:
		return blk.succ[0], b
	case 1:
		switch x := blk.cond.get(fr).(type) {
		case bool:
			if x {
				return blk.succ[0], b
			}
			return blk.succ[1], b
		case *Term:
			if x.isConst() {
				if x.v != 0 {
					return blk.succ[0], b
				}
				return blk.succ[1], b
			}
			if w.pcset[x] {
				return blk.succ[0], b
			}
			if w.pcset[w.tt.Not(x)] {
				return blk.succ[1], b
			}
			if nb, np, ok := w.tryMerge(fr, c, b, x); ok {
				return nb, np
			}
		}
	}
	panic(specAbort{})
}
