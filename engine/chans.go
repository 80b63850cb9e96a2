package main

import (
	"fmt"
	"go/types"
)

type chanV struct {
	cap    int
	buf    []value
	bufvc  [][]int
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	vc     []int
}

type waiter struct {
	g    *gor
	sel  *selWait
	idx  int
	val  value
	ok   bool
	done bool
	vc   []int
}

type selWait struct {
	fired bool
	w     *waiter
}

type selCase struct {
	ch   *chanV
	send bool
	val  value
	t    types.Type
}

func (q *waiter) live() bool {
	if q.done {
		return false
	}
	return q.sel == nil || !q.sel.fired
}

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.live() {
			return x
		}
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, x := range q {
		if x.live() {
			return true
		}
	}
	return false
}

func (w *Worker) wake(x *waiter) {
	x.done = true
	if x.sel != nil {
		x.sel.fired = true
		x.sel.w = x
	}
	x.g.blocked = false
}

func (c *chanV) sendReady() bool {
	return c.closed || hasLive(c.recvq) || len(c.buf) < c.cap
}
func (c *chanV) recvReady() bool {
	return c.closed || len(c.buf) > 0 || hasLive(c.sendq)
}

// doSend performs a send known to be ready.
func (w *Worker) doSend(fr *frame, c *chanV, v value) {
	if c.closed {
		w.rtPanicPlain(fr, "send on closed channel")
	}
	vc := w.raceRelease(nil)
	if r := popLive(&c.recvq); r != nil {
		r.val, r.ok = v, true
		r.vc = vc
		w.wake(r)
		return
	}
	c.buf = append(c.buf, v)
	c.bufvc = append(c.bufvc, vc)
}

func (w *Worker) doRecv(c *chanV, et types.Type) (value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		vc := c.bufvc[0]
		c.buf, c.bufvc = c.buf[1:], c.bufvc[1:]
		w.raceAcquire(vc)
		if s := popLive(&c.sendq); s != nil {
			c.buf = append(c.buf, s.val)
			c.bufvc = append(c.bufvc, s.vc)
			w.wake(s)
		}
		return v, true
	}
	if s := popLive(&c.sendq); s != nil {
		w.raceAcquire(s.vc)
		v := s.val
		w.wake(s)
		return v, true
	}
	// closed
	w.raceAcquire(c.vc)
	return zero(et), false
}

func (w *Worker) chanSend(fr *frame, c *chanV, v value) {
	if w.spec != nil {
		panic(specAbort{})
	}
	w.syncPoint()
	if c == nil {
		w.block("send on nil channel")
		return
	}
	if c.sendReady() {
		w.doSend(fr, c, v)
		return
	}
	q := &waiter{g: w.cur, val: v, vc: w.raceRelease(nil)}
	c.sendq = append(c.sendq, q)
	w.blockOn(fr, "channel send", func() bool { return q.done })
	if !q.done {
		panic("send woken without completion")
	}
	if q.ok { // closed while blocked
		w.rtPanicPlain(fr, "send on closed channel")
	}
}

func (w *Worker) blockOn(fr *frame, why string, cond func() bool) {
	if fr != nil && fr.pos.IsValid() {
		p := w.e.prog.Fset.Position(fr.pos)
		why = fmt.Sprintf("%s at %s:%d", why, p.Filename, p.Line)
	}
	for !cond() {
		w.block(why)
	}
}

func (w *Worker) chanRecv(fr *frame, c *chanV, et types.Type) (value, bool) {
	if w.spec != nil {
		panic(specAbort{})
	}
	w.syncPoint()
	if c == nil {
		w.block("receive on nil channel")
		return zero(et), false
	}
	if c.recvReady() {
		return w.doRecv(c, et)
	}
	q := &waiter{g: w.cur}
	c.recvq = append(c.recvq, q)
	w.blockOn(fr, "channel receive", func() bool { return q.done })
	w.raceAcquire(q.vc)
	if !q.ok {
		return zero(et), false
	}
	return q.val, true
}

func (w *Worker) chanClose(fr *frame, c *chanV) {
	if w.spec != nil {
		panic(specAbort{})
	}
	w.syncPoint()
	if c == nil {
		w.rtPanicPlain(fr, "close of nil channel")
	}
	if c.closed {
		w.rtPanicPlain(fr, "close of closed channel")
	}
	c.closed = true
	c.vc = w.raceRelease(nil)
	for {
		r := popLive(&c.recvq)
		if r == nil {
			break
		}
		r.ok = false
		r.vc = c.vc
		w.wake(r)
	}
	for {
		s := popLive(&c.sendq)
		if s == nil {
			break
		}
		s.ok = true // marks panic
		w.wake(s)
	}
}

// selectOp returns the chosen case index (-1 for default), received value, ok.
func (w *Worker) selectOp(fr *frame, cases []selCase, blocking bool) (int, value, bool) {
	if w.spec != nil {
		panic(specAbort{})
	}
	w.syncPoint()
	var ready []int
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.send && c.ch.sendReady() || !c.send && c.ch.recvReady() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && (w.selND || w.schedMode != 0) {
			k = w.chooseN(len(ready))
			w.usedSched = true
		}
		i := ready[k]
		c := cases[i]
		if c.send {
			w.doSend(fr, c.ch, copyVal(c.val))
			return i, nil, false
		}
		v, ok := w.doRecv(c.ch, c.t)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	sw := &selWait{}
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		q := &waiter{g: w.cur, sel: sw, idx: i}
		if c.send {
			q.val = copyVal(c.val)
			q.vc = w.raceRelease(nil)
			c.ch.sendq = append(c.ch.sendq, q)
		} else {
			c.ch.recvq = append(c.ch.recvq, q)
		}
	}
	w.blockOn(fr, "select", func() bool { return sw.fired })
	q := sw.w
	c := cases[q.idx]
	if c.send {
		if q.ok {
			w.rtPanicPlain(fr, "send on closed channel")
		}
		return q.idx, nil, false
	}
	w.raceAcquire(q.vc)
	if !q.ok {
		return q.idx, zero(c.t), false
	}
	return q.idx, q.val, true
}

// hostSend delivers v without blocking if possible (timers); false if full.
func (w *Worker) hostSend(c *chanV, v value) bool {
	if r := popLive(&c.recvq); r != nil {
		r.val, r.ok = v, true
		w.wake(r)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		c.bufvc = append(c.bufvc, nil)
		return true
	}
	return false
}

// ---- happens-before race detection (vector clocks) ----

type raceCell struct {
	wg, wc int // last writer and its clock
	wpos   string
	reads  map[int]int
	rpos   map[int]string
}
type raceState struct {
	cells map[any]*raceCell
	only  bool // only accesses made by finch code
}

func (g *gor) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}
func (w *Worker) raceFork(p, c *gor) {
	if w.race == nil {
		return
	}
	c.vc = append([]int{}, p.vc...)
	c.tick()
	p.tick()
}
func (w *Worker) raceExit(g *gor) {}

func vcJoin(a *[]int, b []int) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

// raceRelease returns a snapshot of the current clock joined with old.
func (w *Worker) raceRelease(old []int) []int {
	if w.race == nil {
		return nil
	}
	g := w.cur
	if len(g.vc) == 0 {
		g.tick()
	}
	s := append([]int{}, g.vc...)
	vcJoin(&s, old)
	g.tick()
	return s
}
func (w *Worker) raceAcquire(vc []int) {
	if w.race == nil || vc == nil {
		return
	}
	vcJoin(&w.cur.vc, vc)
}

func (w *Worker) raceAccess(fr *frame, p *value, write bool) {
	if w.race == nil {
		return
	}
	switch v := (*p).(type) {
	case structV:
		for i := range v {
			w.raceAccess(fr, &v[i], write)
		}
		return
	case arrayV:
		for i := range v {
			w.raceAccess(fr, &v[i], write)
		}
		return
	}
	w.raceKey(fr, p, write)
}

func (w *Worker) raceMap(fr *frame, m *mapV, write bool) {
	if w.race == nil {
		return
	}
	w.raceKey(fr, m, write)
}

func (w *Worker) raceKey(fr *frame, k any, write bool) {
	r := w.race
	g := w.cur
	if len(g.vc) == 0 {
		g.tick()
	}
	c := r.cells[k]
	if c == nil {
		c = &raceCell{wg: -1}
		r.cells[k] = c
	}
	here := func() string {
		for f := fr; f != nil; f = f.caller {
			if f.pos.IsValid() {
				p := w.e.prog.Fset.Position(f.pos)
				return fmt.Sprintf("%s:%d", p.Filename, p.Line)
			}
		}
		return "?"
	}
	seen := func(id, clk int) bool { return id < len(g.vc) && g.vc[id] >= clk }
	if c.wg >= 0 && c.wg != g.id && !seen(c.wg, c.wc) {
		w.raceReport(write, here(), c.wpos, w.gs[c.wg].name)
	}
	if write {
		for id, clk := range c.reads {
			if id != g.id && !seen(id, clk) {
				w.raceReport(true, here(), c.rpos[id], w.gs[id].name)
			}
		}
		c.wg, c.wc, c.wpos = g.id, g.vc[g.id], here()
		c.reads, c.rpos = nil, nil
	} else {
		if c.reads == nil {
			c.reads = map[int]int{}
			c.rpos = map[int]string{}
		}
		c.reads[g.id] = g.vc[g.id]
		c.rpos[g.id] = here()
	}
}

func (w *Worker) raceReport(write bool, here, there, other string) {
	if !w.needModel() {
		w.finish("infeasible")
	}
	kind := "read"
	if write {
		kind = "write"
	}
	w.usedSched = true
	w.violate("data-race", fmt.Sprintf("unsynchronised %s at %s and access at %s (goroutine %s)", kind, here, there, other), w.model)
	w.finish("violation")
}
