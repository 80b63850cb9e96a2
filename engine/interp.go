package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	w         *Worker
	g         *gor
	fn        *cfunc
	caller    *frame
	regs      []value
	defers    []deferred
	result    value
	panicking *targetPanic
	recovered bool
	pos       token.Pos
	prevBlk   int
}

type deferred struct {
	fn   value
	args []value
	bi   *ssa.Builtin
	inv  *ssa.CallCommon
}

type opd struct {
	k uint8 // 0 reg 1 const 2 global 3 func
	i int
	v value
	g *ssa.Global
}

func (o *opd) get(fr *frame) value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	}
	return fr.w.globalAddr(o.g)
}

type instrFn func(fr *frame)

type cblock struct {
	phis  []cphi
	body  []instrFn
	n     int
	kind  uint8 // 0 jump 1 if 2 return 3 panic
	succ  [2]int
	cond  opd
	rets  []opd
	pv    opd
	pos   token.Pos
	merge *mergeInfo
	mdone bool
}
type cphi struct {
	dst   int
	edges []opd // indexed like preds
}

type cfunc struct {
	fn       *ssa.Function
	blocks   []*cblock
	nregs    int
	nparams  int
	used     bool
	intr     intrinsic
	hasDef   bool
	preds    [][]int // block -> pred block indexes
	name     string
	inRepo   bool
	compiled bool
	pdom     [][]bool
	rec      int // recover block index or -1
}

type intrinsic func(fr *frame, args []value) value

func (w *Worker) fnOf(f *ssa.Function) *cfunc {
	if c, ok := w.fns[f]; ok {
		return c
	}
	c := &cfunc{fn: f, rec: -1}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	c.name = name
	if in, ok := intrinsics[name]; ok {
		c.intr = in
	}
	if p := fnPkg(f); p != nil {
		c.inRepo = strings.HasPrefix(p.Path(), "github.com/square/finch")
	}
	w.fns[f] = c
	return c
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj() != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

var buildMu = make(chan struct{}, 1)

func (w *Worker) compile(c *cfunc) {
	f := c.fn
	c.compiled = true
	// packages are built lazily; Build waits for another worker that builds it
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			g.Pkg.Build()
		} else if o := g.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if f.Blocks == nil {
		return
	}
	regs := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) {
		regs[v] = n
		n++
	}
	for _, p := range f.Params {
		add(p)
	}
	for _, p := range f.FreeVars {
		add(p)
	}
	c.nparams = len(f.Params)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDef = true
			}
		}
	}
	c.nregs = n
	cc := &compiler{w: w, regs: regs, c: c}
	c.preds = make([][]int, len(f.Blocks))
	for _, b := range f.Blocks {
		c.preds[b.Index] = nil
		for _, p := range b.Preds {
			c.preds[b.Index] = append(c.preds[b.Index], p.Index)
		}
	}
	for _, b := range f.Blocks {
		cb := &cblock{}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				p := cphi{dst: regs[x]}
				for _, e := range x.Edges {
					p.edges = append(p.edges, cc.opd(e))
				}
				cb.phis = append(cb.phis, p)
			case *ssa.Jump:
				cb.kind = 0
				cb.succ[0] = b.Succs[0].Index
			case *ssa.If:
				cb.kind = 1
				cb.cond = cc.opd(x.Cond)
				cb.succ[0] = b.Succs[0].Index
				cb.succ[1] = b.Succs[1].Index
				cb.pos = x.Cond.Pos()
			case *ssa.Return:
				cb.kind = 2
				for _, r := range x.Results {
					cb.rets = append(cb.rets, cc.opd(r))
				}
			case *ssa.Panic:
				cb.kind = 3
				cb.pv = cc.opd(x.X)
				cb.pos = x.Pos()
			case *ssa.DebugRef:
			default:
				if fn := cc.instr(in); fn != nil {
					cb.body = append(cb.body, fn)
				}
			}
		}
		cb.n = len(b.Instrs)
		c.blocks = append(c.blocks, cb)
	}
	if f.Recover != nil {
		c.rec = f.Recover.Index
	}
}

type compiler struct {
	w    *Worker
	regs map[ssa.Value]int
	c    *cfunc
}

func (cc *compiler) opd(v ssa.Value) opd {
	switch x := v.(type) {
	case *ssa.Const:
		return opd{k: 1, v: constVal(x)}
	case *ssa.Global:
		return opd{k: 2, g: x}
	case *ssa.Function:
		return opd{k: 1, v: x}
	case *ssa.Builtin:
		return opd{k: 1, v: x}
	}
	i, ok := cc.regs[v]
	if !ok {
		panic(fmt.Sprintf("opd %T %s", v, v))
	}
	return opd{k: 0, i: i}
}

func constVal(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case b.Info()&types.IsInteger != 0:
			ws, _, _ := bitsOf(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return uint64(i) & mask(ws)
			}
			u, _ := constant.Uint64Val(v)
			return u & mask(ws)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		}
	}
	panic(fmt.Sprintf("const %s : %s", c, c.Type()))
}

// ---- globals and package init ----

var persistPkgs = map[string]bool{"unicode": true, "strconv": true, "math": true, "unicode/utf8": true, "unicode/utf16": true, "io": true, "errors": true, "sort": true, "bytes": true, "strings": true, "bufio": true, "math/bits": true, "database/sql/driver": true, "context": true, "time": true, "internal/godebug": true, "github.com/dustin/go-humanize": true, "io/fs": true, "internal/oserror": true, "os": true, "internal/poll": true, "syscall": true, "path": true, "path/filepath": true, "net/url": true, "net/textproto": true, "golang.org/x/time/rate": true, "net": true}

func (w *Worker) globalAddr(g *ssa.Global) value {
	pers := g.Pkg != nil && persistPkgs[g.Pkg.Pkg.Path()]
	if pers {
		if a, ok := w.persist[g]; ok {
			return a
		}
	} else if a, ok := w.globals[g]; ok {
		return a
	}
	if w.spec != nil {
		panic(specAbort{})
	}
	p := g.Pkg
	if p != nil {
		if pers {
			if !w.pinited[p] {
				w.pinited[p] = true
				w.allocGlobals(p, w.persist)
				w.runInit(p)
				if p.Pkg.Path() == "os" {
					t := w.e.prog.ImportedPackage("syscall").Type("Signal").Type()
					*w.persist[p.Var("Interrupt")] = iface{t, uint64(2)}
					*w.persist[p.Var("Kill")] = iface{t, uint64(9)}
				}
			}
			if a, ok := w.persist[g]; ok {
				return a
			}
			v := new(value)
			*v = zero(g.Type().(*types.Pointer).Elem())
			w.persist[g] = v
			return v
		}
		fr := &frame{w: w, g: w.cur}
		w.initPkg(fr, p)
		if a, ok := w.globals[g]; ok {
			return a
		}
	}
	v := new(value)
	*v = zero(g.Type().(*types.Pointer).Elem())
	w.globals[g] = v
	return v
}

func (w *Worker) allocGlobals(p *ssa.Package, m map[*ssa.Global]*value) {
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			v := new(value)
			*v = zero(g.Type().(*types.Pointer).Elem())
			m[g] = v
		}
	}
}

func (w *Worker) runInit(p *ssa.Package) {
	p.Build()
	if skipInit[p.Pkg.Path()] {
		return
	}
	if init := p.Func("init"); init != nil {
		sp := w.steps
		// natively, packages are initialised before anything runs
		race, sched, clock := w.race, w.schedMode, w.clock
		w.race, w.schedMode, w.clock = nil, 0, 0
		defer func() { w.race, w.schedMode, w.clock = race, sched, clock }()
		fr := &frame{w: w, g: w.cur}
		w.call(fr, init, nil, nil)
		w.steps = sp
	}
}

// packages whose init is not executed (globals stay zero unless set by an intrinsic)
var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/godebug": true, "internal/poll": true, "net": true, "crypto/tls": true, "crypto/x509": true, "os/signal": true, "internal/cpu": true, "vendor/golang.org/x/net/http2/hpack": true, "mime": true, "log": true, "github.com/rs/xid": true}

func (w *Worker) initPkg(fr *frame, p *ssa.Package) {
	if persistPkgs[p.Pkg.Path()] {
		return
	}
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	p.Build()
	w.allocGlobals(p, w.globals)
	w.runInit(p)
	if f, ok := postInit[p.Pkg.Path()]; ok {
		f(w, p)
	}
	// encoding/json sets functions of encoding/json/internal when it is initialised
	if p.Pkg.Path() == "encoding/json/internal" {
		if j := w.e.prog.ImportedPackage("encoding/json"); j != nil {
			w.initPkg(fr, j)
		}
	}
}

var postInit = map[string]func(w *Worker, p *ssa.Package){}

// ---- calls ----

func (w *Worker) call(caller *frame, fn *ssa.Function, args []value, free []value) value {
	c := w.fnOf(fn)
	if c.intr != nil {
		if w.spec != nil && !pureIntr[c.name] {
			panic(specAbort{})
		}
		w.callee = fn
		if r := c.intr(caller, args); r != fallthru {
			return r
		}
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && caller.fn != nil {
		// an imported package's initializer called from another one: lazy
		return nil
	}
	if !c.compiled {
		w.compile(c)
	}
	if c.blocks == nil {
		w.unsupported("no body: %s", fn)
	}
	if !c.used {
		c.used = true
	}
	w.depth++
	if w.depth > 3000 {
		w.unsupported("call depth exceeded in %s", fn)
	}
	fr := &frame{w: w, g: w.cur, fn: c, caller: caller, regs: make([]value, c.nregs)}
	copy(fr.regs, args)
	if len(free) > 0 {
		copy(fr.regs[c.nparams:], free)
	}
	w.cur.fr = fr
	if c.hasDef {
		if w.spec != nil {
			panic(specAbort{})
		}
		w.runDeferFrame(fr)
	} else {
		w.exec(fr, 0)
	}
	w.cur.fr = caller
	w.depth--
	return fr.result
}

func (w *Worker) runDeferFrame(fr *frame) {
	start := 0
	for start >= 0 {
		start = w.protected(fr, start)
	}
}

// protected runs fr from block start; returns -1 when done or the block to resume at.
func (w *Worker) protected(fr *frame, start int) (next int) {
	d := w.depth
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		w.depth = d
		w.cur.fr = fr
		fr.panicking = tp
		w.runDefers(fr)
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fr.fn.rec >= 0 {
			next = fr.fn.rec
		} else {
			fr.result = zeroResults(fr.fn.fn.Signature)
			next = -1
		}
	}()
	w.exec(fr, start)
	return -1
}

func zeroResults(sig *types.Signature) value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return zero(sig.Results().At(0).Type())
	}
	return zero(sig.Results())
}

func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = tp
					w.cur.fr = fr
				}
			}()
			w.callDeferred(fr, d)
		}()
	}
}

func (w *Worker) callDeferred(fr *frame, d deferred) {
	if d.bi != nil {
		w.builtin(fr, d.bi, d.args, nil)
		return
	}
	w.callValue(fr, d.fn, d.args)
}

func (w *Worker) callValue(fr *frame, fv value, args []value) value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			w.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		return w.call(fr, f, args, nil)
	case *closure:
		return w.call(fr, f.fn, args, f.free)
	case *boundIntr:
		return f.f(fr, args)
	case *ssa.Builtin:
		return w.builtin(fr, f, args, nil)
	case nil:
		w.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("callValue %T", fv))
}

// exec interprets fr starting at block b until return.
func (w *Worker) exec(fr *frame, b int) {
	c := fr.fn
	prev := fr.prevBlk
	for {
		blk := c.blocks[b]
		if len(blk.phis) > 0 {
			w.doPhis(fr, c, b, prev)
		}
		w.steps += int64(blk.n)
		if w.spec != nil && w.steps > w.spec.limit {
			panic(specAbort{})
		}
		if w.steps > w.e.maxSteps {
			w.stepLimit()
		}
		for _, in := range blk.body {
			in(fr)
		}
		switch blk.kind {
		case 0:
			prev, b = b, blk.succ[0]
		case 1:
			v := blk.cond.get(fr)
			switch x := v.(type) {
			case bool:
				prev = b
				if x {
					b = blk.succ[0]
				} else {
					b = blk.succ[1]
				}
			case *Term:
				if x.isConst() {
					prev = b
					if x.v != 0 {
						b = blk.succ[0]
					} else {
						b = blk.succ[1]
					}
					break
				}
				if nb, np, ok := w.tryMerge(fr, c, b, x); ok {
					prev, b = np, nb
					break
				}
				fr.pos = blk.pos
				prev = b
				if w.branch(x) {
					b = blk.succ[0]
				} else {
					b = blk.succ[1]
				}
			default:
				panic(fmt.Sprintf("if %T", v))
			}
		case 2:
			switch len(blk.rets) {
			case 0:
				fr.result = nil
			case 1:
				fr.result = blk.rets[0].get(fr)
			default:
				t := make(tupleV, len(blk.rets))
				for i := range blk.rets {
					t[i] = blk.rets[i].get(fr)
				}
				fr.result = t
			}
			return
		case 3:
			fr.pos = blk.pos
			w.panicVal(fr, blk.pv.get(fr))
		}
		fr.prevBlk = prev
	}
}

func (w *Worker) doPhis(fr *frame, c *cfunc, b, prev int) {
	blk := c.blocks[b]
	pi := -1
	for i, p := range c.preds[b] {
		if p == prev {
			pi = i
			break
		}
	}
	if pi < 0 {
		// merged edge: values were already placed by tryMerge
		return
	}
	if len(blk.phis) == 1 {
		fr.regs[blk.phis[0].dst] = blk.phis[0].edges[pi].get(fr)
		return
	}
	tmp := make([]value, len(blk.phis))
	for i := range blk.phis {
		tmp[i] = blk.phis[i].edges[pi].get(fr)
	}
	for i := range blk.phis {
		fr.regs[blk.phis[i].dst] = tmp[i]
	}
}

func (w *Worker) stepLimit() {
	if w.spec != nil {
		panic(specAbort{})
	}
	if !w.needModel() {
		w.finish("infeasible")
	}
	w.violate("step-limit", fmt.Sprintf("execution does not finish within %d steps\n%s", w.e.maxSteps, w.where()), w.model)
	w.finish("violation")
}

// ---- panics ----

func (w *Worker) panicVal(fr *frame, v value) {
	if w.spec != nil {
		panic(specAbort{})
	}
	tp := &targetPanic{v: v, stack: w.where()}
	panic(tp)
}

func (w *Worker) rtPanic(fr *frame, msg string) {
	if w.spec != nil {
		panic(specAbort{})
	}
	rt := w.e.prog.ImportedPackage("runtime")
	var v iface
	if rt != nil {
		if tn := rt.Type("errorString"); tn != nil {
			v = iface{tn.Type(), msg}
		}
	}
	if v.t == nil {
		v = iface{types.Typ[types.String], "runtime error: " + msg}
	}
	panic(&targetPanic{v: v, stack: w.where()})
}

func (w *Worker) showPanic(v value) string {
	i, ok := v.(iface)
	if !ok {
		return fmt.Sprint(v)
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ctlAbort); ok {
				panic(r)
			}
		}
	}()
	return w.fmtValue(&frame{w: w, g: w.cur}, 'v', "", i)
}

// ---- memory ----

func (w *Worker) nilCheck(fr *frame, p value) {
	switch x := p.(type) {
	case *value:
		if x == nil {
			w.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
	case *symPtr:
	default:
		panic(ctlUnsupported{fmt.Sprintf("pointer %T", p)})
	}
}

func (w *Worker) load(fr *frame, p value, t types.Type) value {
	switch x := p.(type) {
	case *value:
		if x == nil {
			w.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		if w.race != nil {
			w.raceAccess(fr, x, false)
		}
		switch v := (*x).(type) {
		case structV, arrayV:
			return copyVal(v)
		default:
			return v
		}
	case *symPtr:
		n := len(x.ptrs)
		r := w.load(fr, x.ptrs[n-1], t)
		for i := n - 2; i >= 0; i-- {
			c := w.tt.Eq(x.idx, w.tt.Const(x.idx.s, uint64(i)))
			m, ok := w.mergeT(c, w.load(fr, x.ptrs[i], t), r, t)
			if !ok {
				k := w.concretize(x.idx, 512)
				return w.load(fr, x.ptrs[k], t)
			}
			r = m
		}
		return r
	}
	panic(ctlUnsupported{fmt.Sprintf("load %T", p)})
}

func (w *Worker) store(fr *frame, p value, v value, t types.Type) {
	switch x := p.(type) {
	case *value:
		if x == nil {
			w.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		if w.race != nil {
			w.raceAccess(fr, x, true)
		}
		w.storeTo(x, v, t)
	case *symPtr:
		for i := range x.ptrs {
			c := w.tt.Eq(x.idx, w.tt.Const(x.idx.s, uint64(i)))
			if _, ok := w.mergeT(c, v, *x.ptrs[i], t); !ok {
				k := w.concretize(x.idx, 512)
				w.store(fr, x.ptrs[k], v, t)
				return
			}
		}
		for i := range x.ptrs {
			c := w.tt.Eq(x.idx, w.tt.Const(x.idx.s, uint64(i)))
			m, _ := w.mergeT(c, v, *x.ptrs[i], t)
			if w.race != nil {
				w.raceAccess(fr, x.ptrs[i], true)
			}
			w.storeTo(x.ptrs[i], m, t)
		}
	default:
		panic(ctlUnsupported{fmt.Sprintf("store %T", p)})
	}
}

func (w *Worker) storeTo(x *value, v value, t types.Type) {
	switch nv := v.(type) {
	case structV:
		if ov, ok := (*x).(structV); ok && len(ov) == len(nv) {
			var st *types.Struct
			if t != nil {
				st, _ = t.Underlying().(*types.Struct)
			}
			for i := range nv {
				var ft types.Type
				if st != nil {
					ft = st.Field(i).Type()
				}
				w.storeTo(&ov[i], nv[i], ft)
			}
			return
		}
		v = copyVal(v)
	case arrayV:
		if ov, ok := (*x).(arrayV); ok && len(ov) == len(nv) {
			var et types.Type
			if t != nil {
				if at, ok := t.Underlying().(*types.Array); ok {
					et = at.Elem()
				}
			}
			for i := range nv {
				w.storeTo(&ov[i], nv[i], et)
			}
			return
		}
		v = copyVal(v)
	}
	if w.spec != nil {
		w.spec.store(x, v, t)
		return
	}
	*x = v
}

// merge builds ite(c, a, b); ok=false if the values cannot be merged.
func (w *Worker) merge(c *Term, a, b value) (value, bool) {
	if c == w.tt.T {
		return a, true
	}
	if c == w.tt.F {
		return b, true
	}
	switch x := a.(type) {
	case uint64:
		switch y := b.(type) {
		case uint64:
			if x == y {
				return a, true
			}
			return nil, w.mergeNeedsWidth(c, a, b)
		case *Term:
			return w.simp(w.tt.Ite(c, w.tt.Const(y.s, x), y)), true
		}
	case bool:
		switch y := b.(type) {
		case bool:
			if x == y {
				return a, true
			}
			if x {
				return c, true
			}
			return w.tt.Not(c), true
		case *Term:
			return w.simp(w.tt.Ite(c, w.tt.Bool(x), y)), true
		}
	case float64:
		switch y := b.(type) {
		case float64:
			if bitsf(x) == bitsf(y) {
				return a, true
			}
			return w.tt.Ite(c, w.tt.FConst(x), w.tt.FConst(y)), true
		case *Term:
			return w.tt.Ite(c, w.tt.FConst(x), y), true
		}
	case *Term:
		switch y := b.(type) {
		case *Term:
			if x.s != y.s {
				return nil, false
			}
			return w.simp(w.tt.Ite(c, x, y)), true
		case uint64:
			return w.simp(w.tt.Ite(c, x, w.tt.Const(x.s, y))), true
		case bool:
			return w.simp(w.tt.Ite(c, x, w.tt.Bool(y))), true
		case float64:
			return w.tt.Ite(c, x, w.tt.FConst(y)), true
		}
	case structV:
		y, ok := b.(structV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(structV, len(x))
		for i := range x {
			m, ok := w.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case arrayV:
		y, ok := b.(arrayV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(arrayV, len(x))
		for i := range x {
			m, ok := w.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case string:
		if y, ok := b.(string); ok && x == y {
			return a, true
		}
		return nil, false
	case iface:
		y, ok := b.(iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return a, true
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		m, ok := w.mergeT(c, x.v, y.v, x.t)
		if !ok {
			return nil, false
		}
		return iface{x.t, m}, true
	case []value:
		y, ok := b.([]value)
		if ok && len(x) == len(y) && cap(x) == cap(y) && (len(x) == 0 && (x == nil) == (y == nil) || len(x) > 0 && &x[0] == &y[0]) {
			return a, true
		}
		return nil, false
	case *value, *mapV, *chanV, *ssa.Function, *hostObj:
		if a == b {
			return a, true
		}
		return nil, false
	case nil:
		if b == nil {
			return a, true
		}
	}
	return nil, false
}

// mergeNeedsWidth: two different concrete ints have no width here; callers that
// know the type use mergeT. Remember that through mergeW.
func (w *Worker) mergeNeedsWidth(c *Term, a, b value) bool { return false }

// mergeT merges with static type information (gives ints their width).
func (w *Worker) mergeT(c *Term, a, b value, t types.Type) (value, bool) {
	if x, ok := a.(uint64); ok {
		if y, ok := b.(uint64); ok {
			if x == y {
				return a, true
			}
			s, _, isInt := bitsOf(t)
			if !isInt {
				return nil, false
			}
			return w.tt.Ite(c, w.tt.Const(s, x), w.tt.Const(s, y)), true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		x, ok1 := a.(structV)
		y, ok2 := b.(structV)
		if ok1 && ok2 && len(x) == len(y) {
			r := make(structV, len(x))
			for i := range x {
				m, ok := w.mergeT(c, x[i], y[i], u.Field(i).Type())
				if !ok {
					return nil, false
				}
				r[i] = m
			}
			return r, true
		}
	case *types.Array:
		x, ok1 := a.(arrayV)
		y, ok2 := b.(arrayV)
		if ok1 && ok2 && len(x) == len(y) {
			r := make(arrayV, len(x))
			for i := range x {
				m, ok := w.mergeT(c, x[i], y[i], u.Elem())
				if !ok {
					return nil, false
				}
				r[i] = m
			}
			return r, true
		}
	}
	return w.merge(c, a, b)
}

// simp turns constant terms back into host values.
func (w *Worker) simp(t *Term) value {
	if t.op == oConst {
		switch t.s {
		case sBool:
			return t.v != 0
		case sFP:
			return f64(t.v)
		}
		return t.v
	}
	return t
}

func (w *Worker) asTerm(v value, s Sort) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case uint64:
		return w.tt.Const(s, x)
	case bool:
		return w.tt.Bool(x)
	case float64:
		return w.tt.FConst(x)
	}
	panic(ctlUnsupported{fmt.Sprintf("asTerm %T", v)})
}

// ---- operators ----

func (w *Worker) binop(fr *frame, op token.Token, t types.Type, yt types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return w.simpB(w.equal(fr, x, y, t))
	case token.NEQ:
		return w.notV(w.equal(fr, x, y, t))
	}
	if s, signed, ok := bitsOf(t); ok {
		return w.intOp(fr, op, s, signed, yt, x, y)
	}
	if b, ok := isFloat(t); ok {
		xf, ok1 := x.(float64)
		yf, ok2 := y.(float64)
		if ok1 && ok2 {
			var r float64
			switch op {
			case token.ADD:
				r = xf + yf
			case token.SUB:
				r = xf - yf
			case token.MUL:
				r = xf * yf
			case token.QUO:
				r = xf / yf
			case token.LSS:
				return xf < yf
			case token.LEQ:
				return xf <= yf
			case token.GTR:
				return xf > yf
			case token.GEQ:
				return xf >= yf
			default:
				panic("float op")
			}
			if b == 32 {
				r = float64(float32(r))
			}
			return r
		}
		if b == 32 {
			w.unsupported("symbolic float32")
		}
		a, c := w.asTerm(x, sFP), w.asTerm(y, sFP)
		switch op {
		case token.ADD:
			return w.fpr(w.tt.FBin(oFAdd, a, c))
		case token.SUB:
			return w.fpr(w.tt.FBin(oFSub, a, c))
		case token.MUL:
			return w.fpr(w.tt.FBin(oFMul, a, c))
		case token.QUO:
			return w.fpr(w.tt.FBin(oFDiv, a, c))
		case token.LSS:
			return w.fpr(w.tt.FCmp(oFLt, a, c))
		case token.LEQ:
			return w.fpr(w.tt.FCmp(oFLe, a, c))
		case token.GTR:
			return w.fpr(w.tt.FCmp(oFLt, c, a))
		case token.GEQ:
			return w.fpr(w.tt.FCmp(oFLe, c, a))
		}
	}
	if isString(t) {
		if op == token.ADD {
			return concatStr(x, y)
		}
		xs, ok1 := x.(string)
		ys, ok2 := y.(string)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return xs < ys
			case token.LEQ:
				return xs <= ys
			case token.GTR:
				return xs > ys
			case token.GEQ:
				return xs >= ys
			}
		}
		return w.strLess(op, x, y)
	}
	if c1, ok := x.(complex128); ok {
		c2 := y.(complex128)
		switch op {
		case token.ADD:
			return c1 + c2
		case token.SUB:
			return c1 - c2
		case token.MUL:
			return c1 * c2
		case token.QUO:
			return c1 / c2
		}
	}
	w.unsupported("binop %s %s %T %T", op, t, x, y)
	return nil
}

// orderCells is the bytes of a string, and opaque parts as segments.
func (w *Worker) orderCells(v value) ([]value, bool) {
	x, ok := v.(*Rope)
	if !ok {
		return byteCells(v)
	}
	var out []value
	for _, s := range x.segs {
		switch s.k {
		case kLit:
			for i := 0; i < len(s.s); i++ {
				out = append(out, uint64(s.s[i]))
			}
		case kByte:
			out = append(out, s.t)
		case kAtom:
			out = append(out, s)
		case kDec:
			b, ok := byteCells(w.decDigits(s.t, s.uns))
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		default:
			return nil, false
		}
	}
	return out, true
}

func (w *Worker) strLess(op token.Token, x, y value) value {
	a, ok1 := w.orderCells(x)
	b, ok2 := w.orderCells(y)
	if !ok1 || !ok2 {
		w.unsupported("string order of %s and %s", (&Rope{segsOf(x)}).String(), (&Rope{segsOf(y)}).String())
	}
	// lexicographic
	lt := func(a, b []value) value {
		for i := 0; i < len(a) && i < len(b); i++ {
			m, ok1 := a[i].(seg)
			n, ok2 := b[i].(seg)
			if ok1 && ok2 { // opaque strings are ordered as their numbers (see atomText)
				if w.branch(w.tt.Eq(m.t, n.t)) {
					continue
				}
				return w.branch(w.tt.Cmp(oULt, m.t, n.t))
			}
			ca, cb := a[i], b[i]
			if ok1 {
				ca = uint64('Z')
			} else if ok2 {
				cb = uint64('Z')
			}
			p, q := w.asTerm(ca, 8), w.asTerm(cb, 8)
			if w.branch(w.tt.Cmp(oULt, p, q)) {
				return true
			}
			if w.branch(w.tt.Cmp(oULt, q, p)) {
				return false
			}
			if ok1 != ok2 {
				w.unsupported("string order on opaque strings")
			}
		}
		return len(a) < len(b)
	}
	switch op {
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		return !lt(b, a).(bool)
	default:
		return !lt(a, b).(bool)
	}
}

func (w *Worker) simpB(v value) value {
	if t, ok := v.(*Term); ok {
		return w.simp(t)
	}
	return v
}
func (w *Worker) notV(v value) value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Term:
		return w.simp(w.tt.Not(x))
	}
	panic("notV")
}
func (w *Worker) andV(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return w.simp(w.tt.And(a.(*Term), b.(*Term)))
}

func (w *Worker) intOp(fr *frame, op token.Token, s Sort, signed bool, yt types.Type, x, y value) value {
	xc, ok1 := x.(uint64)
	yc, ok2 := y.(uint64)
	if ok1 && ok2 {
		m := mask(s)
		switch op {
		case token.ADD:
			return (xc + yc) & m
		case token.SUB:
			return (xc - yc) & m
		case token.MUL:
			return (xc * yc) & m
		case token.QUO, token.REM:
			if yc == 0 {
				w.rtPanic(fr, "integer divide by zero")
			}
			o := oUDiv
			if op == token.REM {
				o = oURem
			}
			if signed {
				o = oSDiv
				if op == token.REM {
					o = oSRem
				}
			}
			r, _ := foldBV(o, s, xc, yc)
			return r
		case token.AND:
			return xc & yc
		case token.OR:
			return xc | yc
		case token.XOR:
			return xc ^ yc
		case token.AND_NOT:
			return xc &^ yc
		case token.SHL, token.SHR:
			ys, ysg, _ := bitsOf(yt)
			if ysg && sext(yc, ys) < 0 {
				w.rtPanic(fr, "negative shift amount")
			}
			o := oShl
			if op == token.SHR {
				o = oLShr
				if signed {
					o = oAShr
				}
			}
			r, _ := foldBV(o, s, xc, yc)
			return r
		case token.LSS:
			if signed {
				return sext(xc, s) < sext(yc, s)
			}
			return xc < yc
		case token.LEQ:
			if signed {
				return sext(xc, s) <= sext(yc, s)
			}
			return xc <= yc
		case token.GTR:
			if signed {
				return sext(xc, s) > sext(yc, s)
			}
			return xc > yc
		case token.GEQ:
			if signed {
				return sext(xc, s) >= sext(yc, s)
			}
			return xc >= yc
		}
		panic("intOp")
	}
	tt := w.tt
	a := w.asTerm(x, s)
	if op == token.SHL || op == token.SHR {
		ys, ysg, _ := bitsOf(yt)
		b := w.asTerm(y, ys)
		if ysg && !b.isConst() {
			if w.branch(tt.Cmp(oSLt, b, tt.Const(ys, 0))) {
				w.rtPanic(fr, "negative shift amount")
			}
		}
		o := oShl
		if op == token.SHR {
			o = oLShr
			if signed {
				o = oAShr
			}
		}
		if ys > s {
			big := tt.Cmp(oULe, tt.Const(ys, uint64(s)), b)
			nb := tt.Extract(b, uint(s)-1, 0)
			r := tt.Bin(o, a, nb)
			var over *Term
			if o == oAShr {
				over = tt.Bin(oAShr, a, tt.Const(s, uint64(s)-1))
			} else {
				over = tt.Const(s, 0)
			}
			return w.simp(tt.Ite(big, over, r))
		}
		if ys < s {
			b = tt.ZExt(b, s)
		}
		return w.simp(tt.Bin(o, a, b))
	}
	b := w.asTerm(y, s)
	switch op {
	case token.ADD:
		return w.simp(tt.Bin(oAdd, a, b))
	case token.SUB:
		return w.simp(tt.Bin(oSub, a, b))
	case token.MUL:
		return w.simp(tt.Bin(oMul, a, b))
	case token.QUO, token.REM:
		if w.truth(w.simp(tt.Eq(b, tt.Const(s, 0)))) {
			w.rtPanic(fr, "integer divide by zero")
		}
		o := oUDiv
		if op == token.REM {
			o = oURem
		}
		if signed {
			o = oSDiv
			if op == token.REM {
				o = oSRem
			}
		}
		return w.simp(tt.Bin(o, a, b))
	case token.AND:
		return w.simp(tt.Bin(oBAnd, a, b))
	case token.OR:
		return w.simp(tt.Bin(oBOr, a, b))
	case token.XOR:
		return w.simp(tt.Bin(oBXor, a, b))
	case token.AND_NOT:
		return w.simp(tt.Bin(oBAnd, a, tt.BNot(b)))
	}
	lt, le := oULt, oULe
	if signed {
		lt, le = oSLt, oSLe
	}
	switch op {
	case token.LSS:
		return w.simp(tt.Cmp(lt, a, b))
	case token.LEQ:
		return w.simp(tt.Cmp(le, a, b))
	case token.GTR:
		return w.simp(tt.Cmp(lt, b, a))
	case token.GEQ:
		return w.simp(tt.Cmp(le, b, a))
	}
	panic("intOp sym")
}

// equal compares two values of static type t; returns bool or *Term.
func (w *Worker) equal(fr *frame, x, y value, t types.Type) value {
	switch a := x.(type) {
	case uint64:
		switch b := y.(type) {
		case uint64:
			return a == b
		case *Term:
			return w.simp(w.tt.Eq(w.tt.Const(b.s, a), b))
		}
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			return w.simp(w.tt.Eq(w.tt.Bool(a), b))
		}
	case float64:
		switch b := y.(type) {
		case float64:
			return a == b
		case *Term:
			return w.fpr(w.tt.FCmp(oFEq, w.tt.FConst(a), b))
		}
	case *Term:
		switch b := y.(type) {
		case *Term:
			if a.s == sFP {
				return w.fpr(w.tt.FCmp(oFEq, a, b))
			}
			return w.simp(w.tt.Eq(a, b))
		case uint64:
			return w.simp(w.tt.Eq(a, w.tt.Const(a.s, b)))
		case bool:
			return w.simp(w.tt.Eq(a, w.tt.Bool(b)))
		case float64:
			return w.fpr(w.tt.FCmp(oFEq, a, w.tt.FConst(b)))
		}
	case string:
		switch b := y.(type) {
		case string:
			return a == b
		case *Rope:
			return w.ropeEq(x, y)
		}
	case *Rope:
		return w.ropeEq(x, y)
	case structV:
		b := y.(structV)
		st := t.Underlying().(*types.Struct)
		var r value = true
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = w.andV(r, w.equal(fr, a[i], b[i], st.Field(i).Type()))
			if r == false {
				return false
			}
		}
		return r
	case arrayV:
		b := y.(arrayV)
		et := t.Underlying().(*types.Array).Elem()
		var r value = true
		for i := range a {
			r = w.andV(r, w.equal(fr, a[i], b[i], et))
			if r == false {
				return false
			}
		}
		return r
	case iface:
		b, ok := y.(iface)
		if !ok {
			// comparison iface vs concrete does not occur in SSA
			w.unsupported("iface eq %T", y)
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !w.sameType(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			w.rtPanic(fr, "comparing uncomparable type "+a.t.String())
		}
		return w.equal(fr, a.v, b.v, a.t)
	case []value:
		b, _ := y.([]value)
		return a == nil && b == nil // only nil comparisons are legal
	case *closure, *ssa.Function, *boundIntr:
		if y == nil {
			return false
		}
		if yf, ok := y.(*ssa.Function); ok && yf == nil {
			return false
		}
		return x == y
	case nil:
		switch b := y.(type) {
		case nil:
			return true
		case []value:
			return b == nil
		}
		return y == nil
	case *value:
		switch b := y.(type) {
		case *value:
			return a == b
		case *symPtr:
			return w.equal(fr, y, x, t)
		}
		return false
	case *symPtr:
		if b, ok := y.(*value); ok {
			var r value = false
			for i, p := range a.ptrs {
				if p == b {
					return w.simp(w.tt.Eq(a.idx, w.tt.Const(a.idx.s, uint64(i))))
				}
			}
			return r
		}
		w.unsupported("symbolic pointer comparison")
	case *mapV, *chanV, *hostObj:
		return x == y
	case complex128:
		return x == y
	}
	w.unsupported("equal %T %T", x, y)
	return nil
}

func (w *Worker) sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	return types.Identical(a, b)
}

// ropeEq decides equality of two strings at least one of which is symbolic.
func (w *Worker) ropeEq(x, y value) value {
	a, ok1 := byteCells(x)
	b, ok2 := byteCells(y)
	if ok1 && ok2 {
		if len(a) != len(b) {
			return false
		}
		var r value = true
		for i := range a {
			r = w.andV(r, w.simp(w.tt.Eq(w.asTerm(a[i], 8), w.asTerm(b[i], 8))))
			if r == false {
				return false
			}
		}
		return r
	}
	sa, sb := segsOf(x), segsOf(y)
	r, ok := w.segsEq(sa, sb)
	if !ok {
		w.unsupported("string equality %s == %s", (&Rope{sa}).String(), (&Rope{sb}).String())
	}
	return r
}

func (w *Worker) atomID(s string) uint64 {
	if s == "" {
		return 0
	}
	if id, ok := w.ids[s]; ok {
		return id
	}
	id := uint64(len(w.ids) + 1)
	w.ids[s] = id
	return id
}

// segsEq: exact symbolic equality for the shapes we can decide.
func (w *Worker) segsEq(a, b []seg) (value, bool) {
	a = append([]seg{}, a...)
	b = append([]seg{}, b...)
	var r value = true
	// strip equal prefix / suffix
	for len(a) > 0 && len(b) > 0 {
		p, q := a[0], b[0]
		switch {
		case p.k == kLit && q.k == kLit:
			n := len(p.s)
			if len(q.s) < n {
				n = len(q.s)
			}
			if p.s[:n] != q.s[:n] {
				return false, true
			}
			a[0].s, b[0].s = p.s[n:], q.s[n:]
			if a[0].s == "" {
				a = a[1:]
			}
			if b[0].s == "" {
				b = b[1:]
			}
			continue
		case p.k == q.k && p.t == q.t && p.k != kLit && p.uns == q.uns:
			a, b = a[1:], b[1:]
			continue
		case p.k == kDec && q.k == kDec:
			// equal decimals iff equal numbers provided what follows cannot extend a number
			if startsNonDigit(a[1:]) && startsNonDigit(b[1:]) {
				var e value
				if p.uns == q.uns {
					e = w.simp(w.tt.Eq(p.t, q.t))
				} else {
					e = w.simp(w.tt.And(w.tt.Eq(p.t, q.t), w.tt.Cmp(oSLe, w.tt.Const(64, 0), p.t)))
				}
				r = w.andV(r, e)
				if r == false {
					return false, true
				}
				a, b = a[1:], b[1:]
				continue
			}
		case p.k == kDec && q.k == kLit || p.k == kLit && q.k == kDec:
			sw := false
			if p.k == kLit {
				a, b = b, a
				p, q = q, p
				sw = true
			}
			_ = sw
			// the literal must start with a canonical number followed by a non-digit
			j := 0
			if j < len(q.s) && q.s[j] == '-' {
				j++
			}
			for j < len(q.s) && q.s[j] >= '0' && q.s[j] <= '9' {
				j++
			}
			num := q.s[:j]
			if j == len(q.s) && len(b) > 1 && !startsNonDigit(b[1:]) {
				return nil, false
			}
			if !startsNonDigit(a[1:]) {
				return nil, false
			}
			v, ok := parseDec(num, p.uns)
			if !ok {
				return false, true
			}
			r = w.andV(r, w.simp(w.tt.Eq(p.t, w.tt.Const(64, v))))
			if r == false {
				return false, true
			}
			b[0].s = q.s[j:]
			if b[0].s == "" {
				b = b[1:]
			}
			a = a[1:]
			continue
		case p.k == kByte && q.k == kLit:
			r = w.andV(r, w.simp(w.tt.Eq(p.t, w.tt.Const(8, uint64(q.s[0])))))
			if r == false {
				return false, true
			}
			a = a[1:]
			b[0].s = q.s[1:]
			if b[0].s == "" {
				b = b[1:]
			}
			continue
		case p.k == kLit && q.k == kByte:
			a, b = b, a
			continue
		case p.k == kByte && q.k == kByte:
			r = w.andV(r, w.simp(w.tt.Eq(p.t, q.t)))
			a, b = a[1:], b[1:]
			continue
		}
		break
	}
	if len(a) == 0 && len(b) == 0 {
		return r, true
	}
	if len(a) == 0 || len(b) == 0 {
		rest := a
		if len(a) == 0 {
			rest = b
		}
		for _, s := range rest {
			if s.k == kLit || s.k == kDec || s.k == kByte || s.k == kAtom { // all non-empty
				return false, true
			}
		}
		return r, true
	}
	// trailing alignment of a single atom against atom/literal
	for len(a) > 0 && len(b) > 0 {
		p, q := a[len(a)-1], b[len(b)-1]
		if p.k == kLit && q.k == kLit {
			n := len(p.s)
			if len(q.s) < n {
				n = len(q.s)
			}
			if p.s[len(p.s)-n:] != q.s[len(q.s)-n:] {
				return false, true
			}
			a[len(a)-1].s, b[len(b)-1].s = p.s[:len(p.s)-n], q.s[:len(q.s)-n]
			if a[len(a)-1].s == "" {
				a = a[:len(a)-1]
			}
			if b[len(b)-1].s == "" {
				b = b[:len(b)-1]
			}
			continue
		}
		if p.k != kLit && p.k == q.k && p.t == q.t {
			a, b = a[:len(a)-1], b[:len(b)-1]
			continue
		}
		break
	}
	if len(a) == 1 && len(b) == 1 {
		p, q := a[0], b[0]
		if p.k == kLit {
			p, q = q, p
		}
		if p.k == kAtom && q.k == kAtom {
			return w.andV(r, w.simp(w.tt.Eq(p.t, q.t))), true
		}
		if p.k == kAtom && q.k == kLit {
			return w.andV(r, w.simp(w.tt.Eq(p.t, w.tt.Const(p.t.s, w.atomID(q.s))))), true
		}
	}
	if len(a) == 0 && len(b) == 0 {
		return r, true
	}
	return nil, false
}

func parseDec(s string, uns bool) (uint64, bool) {
	if s == "" || s == "-" {
		return 0, false
	}
	neg := s[0] == '-'
	d := s
	if neg {
		d = s[1:]
		if uns || d == "0" {
			return 0, false
		}
	}
	if len(d) > 1 && d[0] == '0' || len(d) > 20 {
		return 0, false
	}
	var v uint64
	for _, c := range d {
		nv := v*10 + uint64(c-'0')
		if v > (math.MaxUint64-9)/10 && nv < v {
			return 0, false
		}
		v = nv
	}
	if !uns {
		if neg && v > 1<<63 || !neg && v > math.MaxInt64 {
			return 0, false
		}
		if neg {
			v = -v
		}
	}
	return v, true
}

func startsNonDigit(s []seg) bool {
	if len(s) == 0 {
		return true
	}
	return s[0].k == kLit && (s[0].s[0] < '0' || s[0].s[0] > '9')
}

// ---- conversions ----

func (w *Worker) convert(fr *frame, from, to types.Type, v value) value {
	uf, ut := from.Underlying(), to.Underlying()
	if fs, fsg, ok := bitsOf(uf); ok {
		if ts, _, ok := bitsOf(ut); ok {
			switch x := v.(type) {
			case uint64:
				if ts > fs && fsg {
					return uint64(sext(x, fs)) & mask(ts)
				}
				return x & mask(ts)
			case *Term:
				switch {
				case ts < fs:
					return w.simp(w.tt.Extract(x, uint(ts)-1, 0))
				case ts > fs && fsg:
					return w.simp(w.tt.SExt(x, ts))
				case ts > fs:
					return w.simp(w.tt.ZExt(x, ts))
				}
				return x
			}
		}
		if b, ok := isFloat(ut); ok {
			switch x := v.(type) {
			case uint64:
				var f float64
				if fsg {
					f = float64(sext(x, fs))
				} else {
					f = float64(x)
				}
				if b == 32 {
					f = float64(float32(f))
				}
				return f
			case *Term:
				if b == 32 {
					w.unsupported("float32")
				}
				return w.fpr(w.tt.FFrom(fsg, x))
			}
		}
		if isString(ut) {
			x, ok := v.(uint64)
			if !ok {
				w.unsupported("string(symbolic rune)")
			}
			return string(rune(sext(x, fs)))
		}
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if x, ok := v.(uint64); ok && x == 0 {
				return (*value)(nil)
			}
			w.unsupported("uintptr to unsafe.Pointer")
		}
	}
	if fb, ok := isFloat(uf); ok {
		if tb, ok := isFloat(ut); ok {
			if f, ok := v.(float64); ok && tb == 32 && fb == 64 {
				return float64(float32(f))
			}
			if _, ok := v.(*Term); ok && tb == 32 {
				w.unsupported("float32")
			}
			return v
		}
		if ts, tsg, ok := bitsOf(ut); ok {
			switch x := v.(type) {
			case float64:
				if tsg {
					if ts == 32 || ts == 64 {
						if ts == 32 {
							if x != x || x >= 2147483648.0 || x <= -2147483649.0 {
								return uint64(0x80000000)
							}
						}
						return goF2S(x) & mask(ts)
					}
					return goF2S(x) & mask(ts)
				}
				if ts == 64 {
					return goF2U(x)
				}
				return goF2S(x) & mask(ts)
			case *Term:
				if ts == 64 {
					if tsg {
						return w.fpr(w.tt.FUn(oFToS, x))
					}
					return w.fpr(w.tt.FUn(oFToU, x))
				}
				return w.fpr(w.tt.Extract(w.tt.FUn(oFToS, x), uint(ts)-1, 0))
			}
		}
	}
	if isString(uf) {
		if sl, ok := ut.(*types.Slice); ok {
			es, _, _ := bitsOf(sl.Elem())
			if es == 8 {
				if cells, ok := byteCells(v); ok {
					return cells
				}
				return []value{opaqueBytes{segsOf(v)}}
			}
			s, ok := v.(string)
			if !ok {
				w.unsupported("[]rune of symbolic string")
			}
			out := []value{}
			for _, r := range s {
				out = append(out, uint64(uint32(r)))
			}
			return out
		}
		if isString(ut) {
			return v
		}
	}
	if sl, ok := uf.(*types.Slice); ok && isString(ut) {
		es, _, _ := bitsOf(sl.Elem())
		x := v.([]value)
		if es == 8 {
			return ropeFromCells(x)
		}
		var sb strings.Builder
		for _, r := range x {
			c, ok := r.(uint64)
			if !ok {
				w.unsupported("string of symbolic runes")
			}
			sb.WriteRune(rune(int32(uint32(c))))
		}
		return sb.String()
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if _, ok := ut.(*types.Pointer); ok {
			return v
		}
		if b2, ok := ut.(*types.Basic); ok && b2.Kind() == types.Uintptr {
			if p, ok := v.(*value); ok && p == nil {
				return uint64(0)
			}
			return uint64(0xdead0000)
		}
	}
	if c, ok := v.(complex128); ok {
		return c
	}
	w.unsupported("convert %s -> %s (%T)", from, to, v)
	return nil
}

var _ = utf8.RuneError

// index bounds: returns host index or symbolic term known to be in range
func (w *Worker) index(fr *frame, iv value, it types.Type, n int) (int, *Term) {
	s, signed, _ := bitsOf(it)
	switch x := iv.(type) {
	case uint64:
		var i int64
		if signed {
			i = sext(x, s)
		} else {
			i = int64(x)
		}
		if i < 0 || i >= int64(n) {
			w.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *Term:
		t := x
		if s < 64 {
			if signed {
				t = w.tt.SExt(x, 64)
			} else {
				t = w.tt.ZExt(x, 64)
			}
		}
		if !w.branch(w.tt.Cmp(oULt, t, w.tt.Const(64, uint64(n)))) {
			w.rtPanic(fr, fmt.Sprintf("index out of range [sym] with length %d", n))
		}
		if t.isConst() {
			return int(t.v), nil
		}
		return 0, t
	}
	panic("index")
}

// fpr is simp for the result of a floating point operation. Under the harness
// option fp=nd the result is any value at all (an over-approximation: sound for
// code whose outcome must not depend on it).
func (w *Worker) fpr(t *Term) value {
	if t.isConst() {
		return w.simp(t)
	}
	if w.e.fpFork && (t.op == oFFromS || t.op == oFFromU) {
		return w.simp(w.tt.FFrom(t.op == oFFromS, w.tt.Const(t.a[0].s, w.concretize(t.a[0], 256))))
	}
	if w.e.fpMono {
		if v, ok := w.monoStep(t); ok {
			return v
		}
	}
	if !w.e.fpND || t.op == oVar {
		return w.simp(t)
	}
	key := fmt.Sprintf("fpnd:%d", t.id)
	if v, ok := w.side[key]; ok {
		return v.(*Term)
	}
	if w.spec != nil {
		panic(specAbort{})
	}
	v := w.newVar(t.s, "fp")
	w.side[key] = v
	w.note("fp-abstracted")
	return v
}

var skipStores sync.Map // *ssa.Package -> map[*ssa.Global]bool

// initSkipped: g is a global of a package whose init is not executed and init would set it.
func initSkipped(g *ssa.Global) bool {
	if g.Pkg == nil || !skipInit[g.Pkg.Pkg.Path()] {
		return false
	}
	if m, ok := skipStores.Load(g.Pkg); ok {
		return m.(map[*ssa.Global]bool)[g]
	}
	m := map[*ssa.Global]bool{}
	g.Pkg.Build()
	if f := g.Pkg.Func("init"); f != nil {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if x, ok := st.Addr.(*ssa.Global); ok {
						m[x] = true
					}
				}
			}
		}
	}
	if g.Pkg.Pkg.Path() == "os" { // standard streams: nil, see intr_os.go
		for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
			delete(m, g.Pkg.Var(n))
		}
	}
	skipStores.Store(g.Pkg, m)
	return m[g]
}

// isZeroHost: v is the zero value of its type (scalars, pointers, maps, slices, interfaces).
func isZeroHost(v value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case uint64:
		return x == 0
	case bool:
		return !x
	case string:
		return x == ""
	case *value:
		return x == nil
	case *mapV:
		return x == nil
	case []value:
		return x == nil
	case iface:
		return x.t == nil
	}
	return false
}
