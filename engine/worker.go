package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type dec struct {
	c      int32
	forced bool
}

// control-flow panics of the engine itself
type ctlAbort struct{}                   // path is over; unwind
type ctlUnsupported struct{ msg string } // engine cannot continue this path
type specAbort struct{}

type targetPanic struct {
	v     value // iface
	stack string
}

type ndRec struct {
	name string
	kind string // int, bool, str, choice
	t    *Term
	c    value
	w    Sort
	sgn  bool
}

type obsRec struct {
	label string
	v     value
	t     types.Type
}

type Violation struct {
	Label  string
	Detail string
	Inputs []NDVal
	Trace  []dec
	Sched  bool
	MapOrd bool
	Cover  bool
	Stack  string
	Known  string
	Log    []string
}

type NDVal struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	Val  string `json:"v"`
}

type Engine struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	repoPkgs []*ssa.Package // finch packages in dependency order
	harness  *ssa.Function
	initFns  []*ssa.Function
	tier     string
	seed     int64
	deadline time.Time
	nwork    int
	maxPaths int
	fpFork   bool // a path for each value of an integer that becomes floating point
	fpMono   bool // symbolic floating point as monotone functions of integers
	digits   bool
	fpND     bool // abstract symbolic floating point

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []qitem
	active   int
	stop     bool
	paths    int
	infeas   int
	branches int64
	steps    int64
	asserts  int64
	trivial  int64
	incompl  map[string]int
	viols    map[string]*Violation
	reach    map[string]int
	cover    map[string]bool
	fnsUsed  map[string]bool
	samples  []Sample
	solver   SolverStats
	unknowns int
	maxSteps int64
	timedOut bool
	knownFns []string
	notes    map[string]int
	races    bool
	shareAll bool
	queued   int // decisions of the paths in queue
}

type Sample struct {
	Inputs []NDVal
	Obs    []string
	Sched  bool
}

type Worker struct {
	e       *Engine
	id      int
	tt      *TermTable
	callee  *ssa.Function
	rtypes  *typeutil.Map
	solver  *Solver
	fns     map[*ssa.Function]*cfunc
	mcache  map[mkey]*ssa.Function
	tcache  map[types.Type]types.Type
	persist map[*ssa.Global]*value
	pinited map[*ssa.Package]bool

	// path state
	prefix     []dec
	trace      []dec
	pc         []*Term
	pcset      map[*Term]bool
	model      Model
	modelOK    bool
	vars       []*Term
	varset     map[*Term]bool
	globals    map[*ssa.Global]*value
	inited     map[*ssa.Package]bool
	nd         []ndRec
	ndCount    map[string]int
	obs        []obsRec
	steps      int64
	lastSwitch int64 // steps when the current goroutine got to run
	depth      int
	uf         map[*Term]*Term
	qmodel     map[string]uint64
	tvmemo     map[*Term][]*Term
	qcache     map[string]qres
	cached     int
	gs         []*gor
	cur        *gor
	aborting   bool
	done       chan struct{}
	outcome    string // ok, infeasible, unsupported:..., violation
	side       map[any]any
	clock      int64
	clockSym   bool
	timers     []*timer
	timerSeq   int
	spec       *specState
	schedMode  int // 0 deterministic, 1 nondeterministic at sync ops
	preempt    int
	schedIn    []string
	mapOrder   bool
	usedSched  bool
	usedMapOrd bool
	unkPC      int
	noMerge    bool
	reached    map[string]bool
	xdata      map[string]any // harness/intrinsic scratch
	race       *raceState
	tracing    []string
	knownIf    []knownCond
	fs         map[string]*vfile
	ids        map[string]uint64
	stepsTotal int64
	randMode   string
	cutPanic   bool
	opaque     bool
	mfail      map[*cblock]int
	selND      bool
	stdout     value
	waiting    map[any][]*gor
	nowStep    int64
	tmpN       int
	wd         string
	xidN       int
	env        map[string]value
}

type knownCond struct {
	id string
	c  value
}

type mkey struct {
	t types.Type
	m string
}

func (w *Worker) unsupported(format string, a ...any) {
	panic(ctlUnsupported{fmt.Sprintf(format, a...)})
}

func (e *Engine) Run() {
	e.cond = sync.NewCond(&e.mu)
	e.incompl = map[string]int{}
	e.viols = map[string]*Violation{}
	e.reach = map[string]int{}
	e.cover = map[string]bool{}
	e.fnsUsed = map[string]bool{}
	e.notes = map[string]int{}
	e.queue = []qitem{{}}
	var wg sync.WaitGroup
	for i := 0; i < e.nwork; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{e: e, id: i, tt: NewTerms(), fns: map[*ssa.Function]*cfunc{}, mcache: map[mkey]*ssa.Function{}, tcache: map[types.Type]types.Type{}, persist: map[*ssa.Global]*value{}, pinited: map[*ssa.Package]bool{}, tvmemo: map[*Term][]*Term{}, qcache: map[string]qres{}}
			started := false
			for {
				e.mu.Lock()
				for len(e.queue) == 0 && e.active > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.queue) == 0 {
					e.cond.Broadcast()
					e.mu.Unlock()
					break
				}
				if time.Now().After(e.deadline) || (e.maxPaths > 0 && e.paths >= e.maxPaths) {
					e.timedOut = true
					e.stop = true
					e.cond.Broadcast()
					e.mu.Unlock()
					break
				}
				p := e.queue[len(e.queue)-1]
				e.queue[len(e.queue)-1] = qitem{}
				e.queue = e.queue[:len(e.queue)-1]
				e.queued -= len(p.p)
				e.active++
				e.mu.Unlock()
				if !started {
					w.solver = NewSolver(w.tt, 1500)
					w.solver.deadline = e.deadline
					started = true
				}
				w.qmodel = p.m
				w.runPath(p.p)
				if len(w.tt.tab) > 3000000 {
					w.mergeStats()
					w.solver.Close()
					w.tt = NewTerms()
					w.persist = map[*ssa.Global]*value{}
					w.pinited = map[*ssa.Package]bool{}
					w.fns = map[*ssa.Function]*cfunc{}
					w.tvmemo, w.qcache = map[*Term][]*Term{}, map[string]qres{}
					w.solver = NewSolver(w.tt, 1500)
					w.solver.deadline = e.deadline
				}
				e.mu.Lock()
				e.active--
				e.cond.Broadcast()
				e.mu.Unlock()
			}
			if started {
				w.mergeStats()
				w.solver.Close()
			}
			e.mu.Lock()
			for f, c := range w.fns {
				if c.used {
					e.fnsUsed[f.String()] = true
				}
			}
			e.mu.Unlock()
		}(i)
	}
	wg.Wait()
}

func (w *Worker) mergeStats() {
	e := w.e
	e.mu.Lock()
	defer e.mu.Unlock()
	s := w.solver.Stats
	e.solver.Queries += s.Queries
	e.solver.Sat += s.Sat
	e.solver.Unsat += s.Unsat
	e.solver.Unknown += s.Unknown
	e.solver.Time += s.Time
	e.solver.Fallback += s.Fallback
	if s.Max > e.solver.Max {
		e.solver.Max = s.Max
	}
	for f, c := range w.fns {
		if c.used {
			e.fnsUsed[f.String()] = true
		}
	}
}

func (w *Worker) runPath(prefix []dec) {
	w.prefix = prefix
	w.trace = make([]dec, 0, len(prefix)+16)
	w.pc = w.pc[:0]
	w.pcset = map[*Term]bool{}
	w.uf = map[*Term]*Term{}
	w.model = Model{}
	w.modelOK = true
	w.vars = nil
	w.varset = map[*Term]bool{}
	w.globals = map[*ssa.Global]*value{}
	w.inited = map[*ssa.Package]bool{}
	w.nd = nil
	w.ndCount = map[string]int{}
	w.obs = nil
	w.steps, w.lastSwitch = 0, 0
	w.gs = nil
	w.cur = nil
	w.aborting = false
	w.done = make(chan struct{})
	w.outcome = ""
	w.side = map[any]any{}
	w.clock = 0
	w.clockSym = false
	w.timers = nil
	w.timerSeq = 0
	w.spec = nil
	w.schedMode = 0
	w.preempt = 0
	w.schedIn = nil
	w.mapOrder = false
	w.usedSched = false
	w.usedMapOrd = false
	w.unkPC = 0
	w.noMerge = false
	w.reached = map[string]bool{}
	w.xdata = map[string]any{}
	w.race = nil
	w.tracing = nil
	w.knownIf = nil
	w.fs = map[string]*vfile{}
	w.ids = map[string]uint64{}
	w.randMode = ""
	w.opaque = false
	w.selND = false
	w.stdout = ""
	w.waiting = nil
	w.nowStep = 0
	w.tmpN = 0
	w.wd = ""
	w.xidN = 0
	w.env = map[string]value{}
	w.mfail = map[*cblock]int{}
	w.depth = 0

	g := w.newGor("main", func(fr0 *frame) {
		for _, p := range w.e.repoPkgs {
			w.initPkg(fr0, p)
		}
		w.call(fr0, w.e.harness, nil, nil)
	})
	w.cur = g
	g.started = true
	go w.gorMain(g)
	g.resume <- struct{}{}
	<-w.done
	// unwind remaining goroutines
	w.aborting = true
	for _, g := range w.gs {
		if g.started && !g.exited {
			g.resume <- struct{}{}
			<-g.exitc
		}
	}
	e := w.e
	e.mu.Lock()
	n := e.paths
	want := w.outcome == "ok" && len(e.samples) < 12 && w.modelOK
	e.mu.Unlock()
	if want && time.Until(e.deadline) > 10*time.Second {
		w.diversify(n)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.steps += w.steps
	switch {
	case w.outcome == "infeasible":
		e.infeas++
	case strings.HasPrefix(w.outcome, "unsupported"):
		e.paths++
		e.incompl[w.outcome]++
	default:
		e.paths++
		for l := range w.reached {
			e.reach[l]++
		}
		if w.outcome == "ok" && len(e.samples) < 12 && w.modelOK && (e.paths%7 == 1 || len(e.samples) < 4) {
			e.samples = append(e.samples, w.sample())
		}
	}
	e.branches += int64(len(w.trace) - len(w.prefix))
}

// diversify moves the model of a sampled path away from the solver's default.
func (w *Worker) diversify(n int) {
	pal := []uint64{3, 1, 1000, ^uint64(4), 77, 1 << 62, 12345678901, 2, 255, 10}
	pc := len(w.pc)
	t0 := time.Now()
	for i, r := range w.nd {
		if i >= 8 || time.Since(t0) > time.Second || r.t == nil || r.kind != "int" || r.t.s == 0 || r.t.s > 64 {
			continue
		}
		v := pal[(i*7+n*3)%len(pal)]
		eq := w.tt.Eq(r.t, w.tt.Const(r.t.s, v))
		if res, m := w.checkQ(eq, true); res == rSat && m != nil {
			w.pc = append(w.pc, eq)
			w.model = m
		}
	}
	w.pc = w.pc[:pc]
}

func (w *Worker) sample() Sample {
	s := Sample{Sched: w.usedSched || w.usedMapOrd}
	s.Inputs = w.ndVals(w.model)
	for _, o := range w.obs {
		s.Obs = append(s.Obs, o.label+"="+w.renderObs(o.v, w.model))
	}
	return s
}

func (w *Worker) finish(outcome string) {
	if w.outcome == "" {
		w.outcome = outcome
	}
	panic(ctlAbort{})
}

// ---- path condition, decisions ----

func (w *Worker) addVarsOf(t *Term) {
	if t.op == oVar && !w.varset[t] {
		w.varset[t] = true
		w.vars = append(w.vars, t)
	}
}

func (w *Worker) newVar(s Sort, name string) *Term {
	n := w.ndCount[name]
	w.ndCount[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	t := w.tt.Var(s, fmt.Sprintf("%s:%d", name, s))
	w.addVarsOf(t)
	return t
}

func (w *Worker) addPC(c *Term) {
	if c == w.tt.T || w.pcset[c] {
		return
	}
	if c.op == oAnd {
		w.addPC(c.a[0])
		w.addPC(c.a[1])
		return
	}
	w.pc = append(w.pc, c)
	w.pcset[c] = true
	vs := w.tvars(c)
	for i := 1; i < len(vs); i++ {
		w.link(vs[0], vs[i])
	}
	if w.modelOK && w.tt.Eval(c, w.model) == 0 {
		w.modelOK = false
	}
}

func (w *Worker) check(extra *Term) (Result, Model) { return w.checkQ(extra, false) }

// maxQueued bounds the decisions kept for paths to explore (8 bytes each).
const maxQueued = 250_000_000

// qitem is a path to explore: its decisions and, if known, a model of its path condition.
type qitem struct {
	p []dec
	m map[string]uint64
}

// named is m by variable name.
func (w *Worker) named(m Model) map[string]uint64 {
	if m == nil {
		return nil
	}
	out := make(map[string]uint64, len(m))
	for v, x := range m {
		if v.op != oVar {
			return nil
		}
		if x != 0 {
			out[v.name] = x
		}
	}
	return out
}

// resume uses the model that came with the path.
func (w *Worker) resume() {
	m := Model{}
	for _, v := range w.vars {
		if x, ok := w.qmodel[v.name]; ok {
			m[v] = x
		}
	}
	for _, c := range w.pc {
		if w.tt.Eval(c, m) == 0 {
			return
		}
	}
	w.model, w.modelOK = m, true
}

// tvars returns the variables of t (uninterpreted functions count as one variable each).
func (w *Worker) tvars(t *Term) []*Term {
	if v, ok := w.tvmemo[t]; ok {
		return v
	}
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || x.op == oConst {
			return
		}
		seen[x] = true
		if x.op == oVar {
			out = append(out, x)
		}
		if x.op == oUF {
			f := w.tt.Var(sFP, "\x00uf "+x.name)
			if !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
		for _, a := range x.a {
			rec(a)
		}
	}
	rec(t)
	w.tvmemo[t] = out
	return out
}

func (w *Worker) root(v *Term) *Term {
	for {
		p, ok := w.uf[v]
		if !ok || p == v {
			return v
		}
		if q, ok := w.uf[p]; ok && q != p {
			w.uf[v] = q
		}
		v = p
	}
}

func (w *Worker) link(a, b *Term) {
	a, b = w.root(a), w.root(b)
	if a != b {
		w.uf[a] = b
	}
}

type qres struct {
	r Result
	m Model
}

// checkSlice decides pc && extra when w.model satisfies pc: only the constraints that are
// connected to extra by variables matter. Results are kept for other paths.
func (w *Worker) checkSlice(extra *Term, quick bool) (Result, Model) {
	roots := map[*Term]bool{}
	for _, v := range w.tvars(extra) {
		roots[w.root(v)] = true
	}
	var sl []*Term
	key := make([]byte, 0, 64)
	add := func(t *Term) {
		key = append(key, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	}
	add(extra)
	for _, c := range w.pc {
		if vs := w.tvars(c); len(vs) == 0 || roots[w.root(vs[0])] {
			sl = append(sl, c)
			add(c)
		}
	}
	if q, ok := w.qcache[string(key)]; ok {
		w.cached++
		return q.r, w.mergeModel(q.m)
	}
	var vars []*Term
	if len(sl) == len(w.pc) {
		vars = w.vars
	} else {
		for _, v := range w.vars {
			if roots[w.root(v)] {
				vars = append(vars, v)
			}
		}
	}
	r, m := w.solver.check(sl, extra, true, vars, quick)
	if r == rUnknown {
		return r, m
	}
	if r == rSat {
		// keep only the values of the slice
		keep := Model{}
		for v, x := range m {
			if v.op == oUF {
				keep[v] = x
				continue
			}
			if roots[w.root(v)] {
				keep[v] = x
			}
		}
		m = keep
	}
	if len(w.qcache) < 200000 {
		w.qcache[string(key)] = qres{r, m}
	}
	return r, w.mergeModel(m)
}

func (w *Worker) mergeModel(m Model) Model {
	if m == nil {
		return nil
	}
	out := make(Model, len(w.model)+len(m))
	for k, v := range w.model {
		out[k] = v
	}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (w *Worker) checkQ(extra *Term, quick bool) (Result, Model) {
	if extra != nil && w.modelOK {
		r, m := w.checkSlice(extra, quick)
		if r == rUnsat {
			return r, nil
		}
		if r == rSat && m != nil && w.tt.Eval(extra, m) != 0 {
			ok := true
			for _, c := range w.pc {
				if w.tt.Eval(c, m) == 0 {
					ok = false
					break
				}
			}
			if ok {
				return r, m
			}
		}
	}
	r, m := w.solver.check(w.pc, extra, true, w.vars, quick)
	if r == rUnknown {
		w.e.mu.Lock()
		w.e.unknowns++
		w.e.mu.Unlock()
	}
	return r, m
}

func (w *Worker) ensureModel() bool {
	if w.modelOK {
		return true
	}
	if w.unkPC == len(w.pc)+1 {
		return true
	}
	r, m := w.checkQ(nil, true)
	if r == rUnknown {
		w.unkPC = len(w.pc) + 1
	}
	switch r {
	case rSat:
		w.model, w.modelOK = m, true
		return true
	case rUnsat:
		return false
	}
	w.note("solver-unknown")
	return true
}

// needModel is ensureModel with every means; without a model the path ends
// undecided.
func (w *Worker) needModel() bool {
	if w.modelOK {
		return true
	}
	r, m := w.check(nil)
	switch r {
	case rSat:
		w.model, w.modelOK = m, true
		return true
	case rUnsat:
		return false
	}
	w.unsupported("solver unknown on path feasibility")
	return false
}

func (w *Worker) note(s string) {
	w.e.mu.Lock()
	w.e.notes[s]++
	w.e.mu.Unlock()
}

func (w *Worker) assume(c *Term) {
	if c == w.tt.T {
		return
	}
	if c == w.tt.F {
		w.finish("infeasible")
	}
	if w.spec != nil {
		panic(specAbort{})
	}
	w.addPC(c)
	if len(w.trace) < len(w.prefix) {
		return
	}
	if !w.ensureModel() {
		w.finish("infeasible")
	}
}

func (w *Worker) branch(c *Term) bool {
	if c == w.tt.T {
		return true
	}
	if c == w.tt.F {
		return false
	}
	if w.pcset[c] {
		return true
	}
	n := w.tt.Not(c)
	if w.pcset[n] {
		return false
	}
	return w.choose([]*Term{c, n}) == 0
}

// truth resolves a bool value to a host bool, forking if it is symbolic.
func (w *Worker) truth(v value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return w.branch(x)
	}
	panic(fmt.Sprintf("truth %T", v))
}

func (w *Worker) choose(conds []*Term) int {
	if len(conds) == 1 && conds[0] == nil {
		return 0
	}
	if w.spec != nil {
		panic(specAbort{})
	}
	pos := len(w.trace)
	if pos < len(w.prefix) {
		d := w.prefix[pos]
		if int(d.c) >= len(conds) || d.c < 0 {
			w.unsupported("replay divergence")
		}
		w.trace = append(w.trace, d)
		if !d.forced && conds[d.c] != nil {
			w.addPC(conds[d.c])
		}
		if pos == len(w.prefix)-1 && w.qmodel != nil {
			w.resume()
		}
		return int(d.c)
	}
	if !w.ensureModel() {
		w.finish("infeasible")
	}
	var feas []int
	was, wasOK := w.model, w.modelOK
	models := map[int]Model{}
	pick := -1
	for i, c := range conds {
		if c == w.tt.F {
			continue
		}
		if c == nil || c == w.tt.T {
			feas = append(feas, i)
			if pick < 0 {
				pick = i
			}
			continue
		}
		if w.modelOK && w.tt.Eval(c, w.model) != 0 {
			feas = append(feas, i)
			if pick < 0 {
				pick = i
			}
			continue
		}
		// last option and nothing feasible so far must be feasible
		if i == len(conds)-1 && len(feas) == 0 && len(conds) == 2 {
			feas = append(feas, i)
			continue
		}
		r, m := w.checkQ(c, true)
		if r == rSat {
			feas = append(feas, i)
			models[i] = m
		} else if r == rUnknown {
			feas = append(feas, i)
			w.note("solver-unknown")
		}
	}
	if len(feas) == 0 {
		w.finish("infeasible")
	}
	if pick < 0 {
		pick = feas[0]
		if m, ok := models[pick]; ok {
			w.model, w.modelOK = m, true
		} else {
			w.modelOK = false
		}
	}
	if len(feas) == 1 {
		w.trace = append(w.trace, dec{int32(pick), true})
		return pick
	}
	if len(feas) > 1 {
		e := w.e
		alt := func(i int) Model { // a model of the path that takes alternative i
			if m, ok := models[i]; ok {
				return m
			}
			if wasOK && (conds[i] == nil || w.tt.Eval(conds[i], was) != 0) {
				return was
			}
			return nil
		}
		e.mu.Lock()
		for k := len(feas) - 1; k >= 0; k-- {
			i := feas[k]
			if i == pick {
				continue
			}
			if e.queued > maxQueued {
				e.incompl["memory bound: paths dropped"]++
				continue
			}
			np := make([]dec, len(w.trace)+1)
			copy(np, w.trace)
			np[len(w.trace)] = dec{int32(i), false}
			e.queued += len(np)
			e.queue = append(e.queue, qitem{np, w.named(alt(i))})
		}
		e.cond.Broadcast()
		e.mu.Unlock()
	}
	w.trace = append(w.trace, dec{int32(pick), false})
	if conds[pick] != nil {
		w.addPC(conds[pick])
	}
	return pick
}

// chooseN forks over n unconstrained alternatives.
func (w *Worker) chooseN(n int) int {
	if n <= 1 {
		return 0
	}
	return w.choose(make([]*Term, n))
}

// concretize forks over the feasible values of t (at most limit of them).
func (w *Worker) concretize(t *Term, limit int) uint64 {
	if t.isConst() {
		return t.v
	}
	for i := 0; i < limit; i++ {
		var v uint64
		pos := len(w.trace)
		// the candidate value must be reproducible on re-execution: derive it
		// from the recorded decision (c carries no value), so record it in xvals
		if pos < len(w.prefix) {
			// value was stored as the preceding pseudo decision
			v = uint64(uint32(w.prefix[pos].c)) | uint64(uint32(w.prefix[pos+1].c))<<32
			w.trace = append(w.trace, w.prefix[pos], w.prefix[pos+1])
		} else {
			if w.spec != nil {
				panic(specAbort{})
			}
			if !w.needModel() {
				w.finish("infeasible")
			}
			v = w.tt.Eval(t, w.model)
			w.trace = append(w.trace, dec{int32(uint32(v)), true}, dec{int32(uint32(v >> 32)), true})
		}
		c := w.tt.Eq(t, w.tt.Const(t.s, v))
		if w.branch(c) {
			return v
		}
	}
	w.unsupported("concretize: more than %d values of %s", limit, t)
	return 0
}

// ---- assertions ----

func (w *Worker) ndVals(m Model) []NDVal {
	var out []NDVal
	for _, r := range w.nd {
		v := NDVal{Name: r.name, Kind: r.kind}
		switch {
		case r.t != nil:
			x := w.tt.Eval(r.t, m)
			if r.kind == "str" {
				v.Val = w.atomText(x)
			} else if r.sgn {
				v.Val = fmt.Sprint(sext(x, r.w))
			} else {
				v.Val = fmt.Sprint(x)
			}
		default:
			v.Val = fmt.Sprint(r.c)
		}
		out = append(out, v)
	}
	return out
}

func (w *Worker) violate(label, detail string, m Model) {
	known := ""
	for _, k := range w.knownIf {
		switch c := k.c.(type) {
		case bool:
			if c {
				known = k.id
			}
		case *Term:
			if w.tt.Eval(c, m) != 0 {
				known = k.id
			}
		}
	}
	v := &Violation{Label: label, Detail: detail, Inputs: w.ndVals(m), Trace: append([]dec{}, w.trace...), Sched: w.usedSched, MapOrd: w.usedMapOrd, Known: known, Log: append([]string{}, w.tracing...)}
	for _, o := range w.obs {
		v.Log = append(v.Log, "observed "+o.label+" = "+w.renderObs(o.v, m))
	}
	e := w.e
	e.mu.Lock()
	key := known + "\x00" + label
	for i := 0; i < 4; i++ {
		k := fmt.Sprintf("%s\x00%d", key, i)
		if _, ok := e.viols[k]; !ok {
			e.viols[k] = v
			break
		}
	}
	e.mu.Unlock()
}

func (w *Worker) assert(c value, label, detail string) {
	e := w.e
	switch x := c.(type) {
	case bool:
		e.mu.Lock()
		e.asserts++
		e.trivial++
		e.mu.Unlock()
		if !x {
			if !w.needModel() {
				w.finish("infeasible")
			}
			w.violate(label, detail, w.model)
			w.finish("violation")
		}
	case *Term:
		if w.spec != nil {
			panic(specAbort{})
		}
		// during prefix replay this assertion was already checked
		if len(w.trace) < len(w.prefix) {
			w.addPC(x)
			return
		}
		e.mu.Lock()
		e.asserts++
		e.mu.Unlock()
		if !w.ensureModel() {
			w.finish("infeasible")
		}
		n := w.tt.Not(x)
		if w.modelOK && w.tt.Eval(n, w.model) != 0 {
			w.violateTerm(label, detail, n, w.model)
		} else {
			r, m := w.check(n)
			if r == rSat {
				w.violateTerm(label, detail, n, m)
			} else if r == rUnknown {
				w.note("solver-unknown-assert:" + label)
				e.mu.Lock()
				e.incompl["unsupported: solver unknown on assertion "+label]++
				e.mu.Unlock()
			}
		}
		w.addPC(x)
		if !w.ensureModel() {
			w.finish("violation")
		}
	default:
		panic(fmt.Sprintf("assert %T", c))
	}
}

// violateTerm reports the violation; with known-finding conditions it also
// looks for a violation outside them.
func (w *Worker) violateTerm(label, detail string, n *Term, m Model) {
	w.violate(label, detail, m)
	if len(w.knownIf) > 0 {
		q := n
		for _, k := range w.knownIf {
			switch c := k.c.(type) {
			case bool:
				if c {
					return
				}
			case *Term:
				q = w.tt.And(q, w.tt.Not(c))
			}
		}
		if r, m2 := w.check(q); r == rSat {
			w.violate(label, detail, m2)
		}
	}
}

// ---- goroutines ----

type gor struct {
	id      int
	name    string
	fn      func(fr *frame)
	resume  chan struct{}
	exitc   chan struct{}
	started bool
	exited  bool
	blocked bool
	why     string
	depth   int
	vc      []int // vector clock (race mode)
	fr      *frame
	daemon  bool
	pkg     string // package that started it
}

func (w *Worker) newGor(name string, fn func(fr *frame)) *gor {
	g := &gor{id: len(w.gs), name: name, fn: fn, resume: make(chan struct{}), exitc: make(chan struct{}, 1)}
	w.gs = append(w.gs, g)
	return g
}

func (w *Worker) gorMain(g *gor) {
	<-g.resume
	defer func() {
		r := recover()
		g.exited = true
		if w.aborting {
			g.exitc <- struct{}{}
			return
		}
		switch x := r.(type) {
		case nil:
			if g.id == 0 {
				if w.outcome == "" {
					w.outcome = "ok"
				}
				close(w.done)
				return
			}
			// goroutine finished normally: schedule another
			func() {
				defer func() {
					if r := recover(); r != nil {
						w.handleCtl(r)
					}
				}()
				w.raceExit(g)
				n := w.pickNext(nil)
				if n != nil {
					w.switchTo(nil, n)
				}
			}()
		default:
			w.handleCtl(x)
		}
	}()
	if w.aborting {
		panic(ctlAbort{})
	}
	fr := &frame{w: w, g: g}
	g.fr = fr
	g.fn(fr)
}

// handleCtl ends the path because of r.
func (w *Worker) handleCtl(r any) {
	switch x := r.(type) {
	case ctlAbort:
	case ctlUnsupported:
		if w.outcome == "" {
			w.outcome = "unsupported: " + x.msg
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "unsupported:", x.msg, "\n", w.where())
			}
		}
	case *targetPanic:
		if w.outcome == "" {
			w.outcome = "violation"
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(ctlUnsupported); ok {
							return
						}
						if _, ok := r.(ctlAbort); ok {
							return
						}
						panic(r)
					}
				}()
				if w.needModel() {
					label, text := "panic", w.showPanic(x.v)
					if strings.HasPrefix(text, "os.Exit(") {
						label = "exit" // the process ends, which no harness expects unless it says so (verif.Try)
					}
					w.violate(label, "panic: "+text+"\n"+x.stack, w.model)
				} else {
					w.outcome = "infeasible"
				}
			}()
		}
	case specAbort:
		w.outcome = "unsupported: stray specAbort"
	default:
		if w.outcome == "" {
			w.outcome = fmt.Sprintf("unsupported: engine panic: %v", r)
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n%s\n", r, w.where(), debug.Stack())
		}
	}
	close(w.done)
}

func (w *Worker) where() string {
	if w.cur == nil || w.cur.fr == nil {
		return ""
	}
	var sb strings.Builder
	for f := w.cur.fr; f != nil; f = f.caller {
		if f.fn != nil {
			pos := ""
			if f.pos.IsValid() {
				p := w.e.prog.Fset.Position(f.pos)
				pos = fmt.Sprintf("%s:%d", p.Filename, p.Line)
			}
			fmt.Fprintf(&sb, "  %s %s\n", f.fn.fn.String(), pos)
		}
	}
	return sb.String()
}

// switchTo hands the baton to n; cur (may be nil when exiting) waits.
func (w *Worker) switchTo(cur, n *gor) {
	if cur == n {
		return
	}
	w.cur = n
	w.lastSwitch = w.steps
	if !n.started {
		n.started = true
		go w.gorMain(n)
	}
	n.resume <- struct{}{}
	if cur != nil {
		<-cur.resume
		if w.aborting {
			panic(ctlAbort{})
		}
	}
}

func (w *Worker) runnable() []*gor {
	var out []*gor
	for _, g := range w.gs {
		if !g.exited && !g.blocked {
			out = append(out, g)
		}
	}
	return out
}

// pickNext selects the goroutine to run when the current one cannot continue.
func (w *Worker) pickNext(cur *gor) *gor {
	for {
		rs := w.runnable()
		if w.schedIn != nil && w.schedMode != 0 {
			// others' helpers first
			for _, g := range rs {
				if !w.mine(g) {
					return g
				}
			}
		}
		if len(rs) > 0 {
			if len(rs) == 1 || w.schedMode == 0 {
				// deterministic: round robin after cur
				if cur != nil {
					for _, g := range rs {
						if g.id > cur.id {
							return g
						}
					}
				}
				return rs[0]
			}
			w.usedSched = true
			return rs[w.chooseN(len(rs))]
		}
		if !w.advanceClock() {
			w.deadlock()
			return nil
		}
	}
}

func (w *Worker) deadlock() {
	var sb strings.Builder
	for _, g := range w.gs {
		if !g.exited {
			fmt.Fprintf(&sb, "goroutine %d (%s) blocked: %s; ", g.id, g.name, g.why)
		}
	}
	if !w.needModel() {
		w.finish("infeasible")
	}
	w.violate("deadlock", "all goroutines are blocked: "+sb.String(), w.model)
	w.finish("violation")
}

// block parks the current goroutine until another one clears g.blocked.
func (w *Worker) block(why string) {
	if w.spec != nil {
		panic(specAbort{})
	}
	g := w.cur
	g.blocked = true
	g.why = why
	n := w.pickNext(g)
	if n != g {
		fr := g.fr
		d := w.depth
		w.switchTo(g, n)
		w.depth = d
		g.fr = fr
	}
}

// mine reports whether a package that SchedIn named started the goroutine.
func (w *Worker) mine(g *gor) bool {
	if w.schedIn == nil || g.pkg == "" {
		return true
	}
	for _, n := range w.schedIn {
		if strings.HasPrefix(g.pkg, n) {
			return true
		}
	}
	return false
}

// schedHere reports whether the code that synchronises is in a package that SchedIn named.
func (w *Worker) schedHere() bool {
	for f := w.cur.fr; f != nil; f = f.caller {
		if f.fn == nil || f.fn.fn == nil {
			continue
		}
		p := fnPkg(f.fn.fn)
		if p == nil || p.Path() == "sync" || p.Path() == "sync/atomic" || p.Path() == "internal/sync" {
			continue
		}
		for _, n := range w.schedIn {
			if strings.HasPrefix(p.Path(), n) {
				return true
			}
		}
		return false
	}
	return true
}

// syncPoint is a possible preemption.
func (w *Worker) syncPoint() {
	if w.spec == nil && w.steps-w.lastSwitch > w.e.maxSteps/4 {
		w.pass()
	}
	if w.schedMode == 0 || w.preempt <= 0 || len(w.gs) < 2 || w.spec != nil {
		return
	}
	if w.schedIn != nil && !w.schedHere() {
		return
	}
	rs := w.runnable()
	if len(rs) < 2 {
		return
	}
	// option 0: continue
	opts := []*gor{w.cur}
	for _, g := range rs {
		if g != w.cur && w.mine(g) {
			opts = append(opts, g)
		}
	}
	if len(opts) == 1 {
		return
	}
	w.usedSched = true
	k := w.chooseN(len(opts))
	if k > 0 {
		w.preempt--
		g := w.cur
		fr := g.fr
		d := w.depth
		w.switchTo(g, opts[k])
		w.depth = d
		g.fr = fr
	}
}

// pass lets time pass while a goroutine works on without ever blocking: others run, timers fire.
func (w *Worker) pass() {
	w.lastSwitch += w.e.maxSteps / 40
	rs := w.runnable()
	if len(rs) < 2 {
		if !w.advanceClock() {
			return
		}
		rs = w.runnable()
	}
	g := w.cur
	for i, r := range rs {
		if r == g {
			if n := rs[(i+1)%len(rs)]; n != g {
				fr, d := g.fr, w.depth
				w.switchTo(g, n)
				w.depth = d
				g.fr = fr
			}
			return
		}
	}
}

// yield lets other goroutines run (deterministic mode: round robin).
func (w *Worker) yield() {
	rs := w.runnable()
	if len(rs) < 2 {
		return
	}
	g := w.cur
	var n *gor
	if w.schedMode == 0 {
		for _, r := range rs {
			if r.id > g.id {
				n = r
				break
			}
		}
		if n == nil {
			n = rs[0]
		}
	} else {
		w.usedSched = true
		n = rs[w.chooseN(len(rs))]
	}
	if n != g {
		fr := g.fr
		d := w.depth
		w.switchTo(g, n)
		w.depth = d
		g.fr = fr
	}
}

// ---- timers ----

type timer struct {
	when   int64
	seq    int
	fire   func()
	active bool
}

func (w *Worker) addTimer(d int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	w.timerSeq++
	t := &timer{when: w.clock + d, seq: w.timerSeq, fire: fire, active: true}
	w.timers = append(w.timers, t)
	return t
}

func (w *Worker) advanceClock() bool {
	var live []*timer
	for _, t := range w.timers {
		if t.active {
			live = append(live, t)
		}
	}
	w.timers = live
	if len(live) == 0 {
		return false
	}
	sort.SliceStable(live, func(i, j int) bool {
		if live[i].when != live[j].when {
			return live[i].when < live[j].when
		}
		return live[i].seq < live[j].seq
	})
	// only daemon timers with nobody waiting on them would spin forever
	t := live[0]
	if t.when > w.clock {
		w.clock = t.when
	}
	t.active = false
	t.fire()
	return true
}
