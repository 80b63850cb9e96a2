package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	Max                          time.Duration
	Fallback                     int
}

type Solver struct {
	tt       *TermTable
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	stack    []*Term // asserted terms, one push each
	vars     []*Term // declared vars (incl. UF apps)
	decl     map[string]bool
	Stats    SolverStats
	tmoMs    int
	log      io.Writer
	deadline time.Time
	abs      bool           // leaves hard operations arbitrary
	absDef   map[*Term]bool // what has been defined, when abs
	absS     *Solver
	hardMemo map[*Term]bool
}

var z3Bin = "/usr/local/bin/z3-new"

func NewSolver(tt *TermTable, timeoutMs int) *Solver {
	s := &Solver{tt: tt, tmoMs: timeoutMs, decl: map[string]bool{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3Bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.tmoMs))
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		f, _ := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
		s.log = f
	}
}

func (s *Solver) restart() {
	s.Close()
	if s.abs {
		s.absDef = map[*Term]bool{}
	} else {
		for _, t := range s.tt.tab {
			t.defd = false
		}
	}
	s.decl = map[string]bool{}
	s.vars = nil
	s.stack = nil
	s.start()
}

func (s *Solver) Close() {
	if s.absS != nil {
		s.absS.Close()
		s.absS = nil
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(l string) {
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
	s.in.WriteString(l)
	s.in.WriteByte('\n')
}

func (s *Solver) isDef(t *Term) bool {
	if t.op == oConst {
		return true
	}
	if s.abs {
		return s.absDef[t]
	}
	return t.defd
}

// hasHard reports whether t contains an operation that solvers find hard.
func (s *Solver) hasHard(t *Term) bool {
	if len(t.a) == 0 {
		return false
	}
	if h, ok := s.hardMemo[t]; ok {
		return h
	}
	h := hardOp(t)
	for _, a := range t.a {
		if h {
			break
		}
		h = s.hasHard(a)
	}
	if s.hardMemo == nil {
		s.hardMemo = map[*Term]bool{}
	}
	s.hardMemo[t] = h
	return h
}

func (s *Solver) define(x *Term) {
	if s.isDef(x) {
		return
	}
	// iterative post-order
	stack := []*Term{x}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		if s.isDef(t) {
			stack = stack[:len(stack)-1]
			continue
		}
		if s.abs && hardOp(t) {
			stack = stack[:len(stack)-1]
			s.absDef[t] = true
			s.send(fmt.Sprintf("(declare-const t%d %s)", t.id, sortStr(t.s)))
			continue
		}
		ready := true
		for _, a := range t.a {
			if !s.isDef(a) {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		if s.abs {
			s.absDef[t] = true
		} else {
			t.defd = true
		}
		if t.op == oVar {
			so := t.s
			if so == sFP {
				so = 64
			}
			s.send(fmt.Sprintf("(declare-const |%s| %s)", t.name, sortStr(so)))
			s.vars = append(s.vars, t)
			continue
		}
		if t.op == oUF {
			if !s.decl[t.name] {
				s.decl[t.name] = true
				var as []string
				for _, a := range t.a {
					as = append(as, sortStr(a.s))
				}
				s.send(fmt.Sprintf("(declare-fun |%s| (%s) %s)", t.name, strings.Join(as, " "), sortStr(t.s)))
			}
		}
		s.send(fmt.Sprintf("(define-fun t%d () %s %s)", t.id, sortStr(t.s), t.body()))
	}
}

type Result int

const (
	rUnsat Result = iota
	rSat
	rUnknown
)

// sync aligns the solver's assertion stack with pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && s.stack[n] == pc[n] {
		n++
	}
	if n < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for _, c := range pc[n:] {
		s.define(c)
		s.send("(push 1)")
		s.send("(assert " + c.ref() + ")")
		s.stack = append(s.stack, c)
	}
}

// Check decides pc ∧ extra; on sat returns a model.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool, vars []*Term) (Result, Model) {
	return s.check(pc, extra, wantModel, vars, false)
}

// check: quick queries may answer unknown when they involve hard operations.
func (s *Solver) check(pc []*Term, extra *Term, wantModel bool, vars []*Term, quick bool) (Result, Model) {
	isHard := false
	if !s.abs {
		hard := extra != nil && s.hasHard(extra)
		for i := 0; i < len(pc) && !hard; i++ {
			hard = s.hasHard(pc[i])
		}
		isHard = hard
		if hard {
			if s.absS == nil {
				s.absS = &Solver{tt: s.tt, tmoMs: 2500, decl: map[string]bool{}, abs: true, absDef: map[*Term]bool{}}
				s.absS.start()
			}
			t0 := time.Now()
			r, m := s.absS.Check(pc, extra, true, vars)
			s.Stats.Time += time.Since(t0)
			if r == rUnsat {
				s.Stats.Queries++
				s.Stats.Unsat++
				return r, nil
			}
			if r == rSat && m != nil {
				ok := extra == nil || s.tt.Eval(extra, m) != 0
				for i := 0; i < len(pc) && ok; i++ {
					ok = s.tt.Eval(pc[i], m) != 0
				}
				if ok {
					s.Stats.Queries++
					s.Stats.Sat++
					return r, m
				}
				if g := s.guess(pc, extra, vars, m); g != nil {
					s.Stats.Queries++
					s.Stats.Sat++
					return rSat, g
				}
			}
		}
	}
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)")
		s.send("(assert " + extra.ref() + ")")
	}
	t0 := time.Now()
	if isHard && quick {
		s.send("(set-option :timeout 1200)")
	}
	s.send("(check-sat)")
	s.in.Flush()
	line, err := s.readLine()
	r := rUnknown
	switch line {
	case "sat":
		r = rSat
	case "unsat":
		r = rUnsat
	default:
		if err != nil || strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", line, err)
		}
	}
	var m Model
	if r == rSat && wantModel {
		m = s.model(vars)
	}
	if isHard && quick {
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.tmoMs))
	}
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.Max {
		s.Stats.Max = d
	}
	if extra != nil && err == nil {
		s.send("(pop 1)")
	}
	if s.abs {
		if err != nil {
			s.restart()
		}
		return r, m
	}
	if dd := os.Getenv("VERIF_SLOW"); dd != "" && d > 2*time.Second {
		all := append([]*Term{}, pc...)
		if extra != nil {
			all = append(all, extra)
		}
		txt, _ := dumpQuery(all)
		os.WriteFile(fmt.Sprintf("%s/slow-%d-%v.smt2", dd, time.Now().UnixNano(), r), []byte(txt), 0644)
	}
	if r == rUnknown && !(isHard && quick) {
		r, m = s.fallback(pc, extra, vars)
	}
	switch r {
	case rSat:
		s.Stats.Sat++
	case rUnsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	if err != nil {
		s.restart()
	}
	return r, m
}

// guess tries a few values for the floating-point variables of a model of the
// abstract query.
func (s *Solver) guess(pc []*Term, extra *Term, vars []*Term, base Model) Model {
	var fv []*Term
	for _, v := range vars {
		if v.s == sFP {
			fv = append(fv, v)
		}
	}
	if len(fv) == 0 || len(fv) > 4 {
		return nil
	}
	pal := []float64{0, 1, -1, 1024, -1024, 0.25, -0.25}
	n := 1
	for range fv {
		n *= len(pal)
	}
	if n > 400 {
		n = 400
	}
	for i := 0; i < n; i++ {
		m := Model{}
		for k, v := range base {
			m[k] = v
		}
		k := i
		for _, v := range fv {
			m[v] = bitsf(pal[k%len(pal)])
			k /= len(pal)
		}
		ok := extra == nil || s.tt.Eval(extra, m) != 0
		for j := 0; j < len(pc) && ok; j++ {
			ok = s.tt.Eval(pc[j], m) != 0
		}
		if ok {
			return m
		}
	}
	return nil
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	bar := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String(), err
		}
		for _, c := range l {
			if c == '|' {
				bar = !bar
			}
			if bar {
				continue
			}
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteString(l)
		if depth <= 0 {
			return sb.String(), nil
		}
	}
}

func (s *Solver) model(vars []*Term) Model {
	m := Model{}
	var q []*Term
	for _, v := range vars {
		if s.isDef(v) {
			q = append(q, v)
		}
	}
	for len(q) > 0 {
		k := len(q)
		if k > 200 {
			k = 200
		}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range q[:k] {
			if v.op == oVar {
				sb.WriteString(" |" + v.name + "|")
			} else {
				sb.WriteString(" " + v.ref())
			}
		}
		sb.WriteString("))")
		s.send(sb.String())
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil {
			return m
		}
		parseValues(txt, q[:k], m)
		q = q[k:]
	}
	return m
}

// parseValues parses ((name val) ...) in the order of q.
func parseValues(txt string, q []*Term, m Model) {
	toks := sexpTokens(txt)
	// structure: ( ( name val ) ( name val ) ... )
	i := 1
	for _, v := range q {
		if i >= len(toks) || toks[i] != "(" {
			return
		}
		i++
		// skip name expr
		i = skipSexp(toks, i)
		j := skipSexp(toks, i)
		m[v] = parseVal(toks[i:j])
		i = j + 1
	}
}
func skipSexp(t []string, i int) int {
	if t[i] != "(" {
		return i + 1
	}
	d := 0
	for ; i < len(t); i++ {
		if t[i] == "(" {
			d++
		} else if t[i] == ")" {
			d--
			if d == 0 {
				return i + 1
			}
		}
	}
	return i
}
func sexpTokens(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}
func parseVal(t []string) uint64 {
	if len(t) == 1 {
		x := t[0]
		switch {
		case x == "true":
			return 1
		case x == "false":
			return 0
		case strings.HasPrefix(x, "#x"):
			v, _ := strconv.ParseUint(x[2:], 16, 64)
			return v
		case strings.HasPrefix(x, "#b"):
			v, _ := strconv.ParseUint(x[2:], 2, 64)
			return v
		}
		return 0
	}
	// (fp #b0 #b... #x...), (_ +oo 11 53), (_ bvN w) …
	if len(t) >= 3 && t[1] == "fp" {
		sg := parseVal(t[2:3])
		ex := parseVal(t[3:4])
		mn := parseVal(t[4:5])
		return sg<<63 | ex<<52 | mn
	}
	if len(t) >= 3 && t[1] == "_" {
		switch {
		case t[2] == "+oo":
			return 0x7ff0000000000000
		case t[2] == "-oo":
			return 0xfff0000000000000
		case t[2] == "NaN":
			return 0x7ff8000000000001
		case t[2] == "+zero":
			return 0
		case t[2] == "-zero":
			return 1 << 63
		case strings.HasPrefix(t[2], "bv"):
			v, _ := strconv.ParseUint(t[2][2:], 10, 64)
			return v
		}
	}
	return 0
}

// fallback: one-shot runs of other configurations on the full query, in parallel.
func (s *Solver) fallback(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	s.Stats.Fallback++
	lim := 60 * time.Second
	if !s.deadline.IsZero() {
		if l := time.Until(s.deadline); l < lim {
			lim = l
		}
		if lim < 2*time.Second {
			return rUnknown, nil
		}
	}
	zt := fmt.Sprintf("-T:%d", int(lim.Seconds()))
	ct := fmt.Sprintf("--tlimit=%d", lim.Milliseconds())
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	txt, qv := dumpQuery(all)
	type res struct {
		r Result
		m Model
	}
	f, err := os.CreateTemp("", "q*.smt2")
	if err != nil {
		return rUnknown, nil
	}
	f.WriteString(txt)
	f.Close()
	defer os.Remove(f.Name())
	atxt, _ := dumpQueryA(all, true)
	absName := f.Name() + ".abs"
	if atxt != txt {
		os.WriteFile(absName, []byte(atxt), 0600)
		defer os.Remove(absName)
	}
	cmds := [][]string{
		{"/usr/bin/cvc5", "--produce-models", ct, f.Name()},
		{z3Bin, zt, "sat.euf=true", f.Name()},
		{z3Bin, zt, f.Name()},
		{"/usr/bin/z3", zt, f.Name()},
		{"/usr/bin/cvc5", "--produce-models", ct, "--solve-bv-as-int=sum", f.Name()},
	}
	if atxt != txt {
		// sound for unsat only: the hard operations are left arbitrary
		cmds = append(cmds, []string{z3Bin, zt, absName})
	}
	ch := make(chan res, len(cmds))
	var procs []*exec.Cmd
	for _, c := range cmds {
		cmd := exec.Command(c[0], c[1:]...)
		procs = append(procs, cmd)
		go func(cmd *exec.Cmd) {
			out, _ := cmd.Output()
			o := string(out)
			if strings.HasPrefix(o, "unsat") {
				ch <- res{rUnsat, nil}
			} else if strings.HasPrefix(o, "sat") && !strings.HasSuffix(cmd.Args[len(cmd.Args)-1], ".abs") {
				m := Model{}
				if i := strings.Index(o, "("); i >= 0 && len(qv) > 0 {
					func() {
						defer func() { recover() }()
						parseValues(o[i:], qv, m)
					}()
				}
				ch <- res{rSat, m}
			} else {
				ch <- res{rUnknown, nil}
			}
		}(cmd)
	}
	var r res
	r.r = rUnknown
	for range cmds {
		x := <-ch
		if x.r != rUnknown {
			r = x
			break
		}
	}
	for _, p := range procs {
		if p.Process != nil {
			p.Process.Kill()
		}
	}
	if r.r == rUnknown {
		if d := os.Getenv("VERIF_DUMPUNK"); d != "" {
			os.WriteFile(d, []byte(txt), 0644)
		}
	}
	return r.r, r.m
}

// hardOp: operations that the abstract variant of a query leaves arbitrary.
func hardOp(t *Term) bool {
	switch t.op {
	case oFAdd, oFSub, oFMul, oFDiv, oFSqrt, oFFloor, oFCeil, oFTrunc, oFRoundEven, oFFromS, oFFromU, oFToS, oFToU:
		return true
	case oMul, oUDiv, oURem, oSDiv, oSRem:
		return t.a[0].op != oConst && t.a[1].op != oConst || t.op != oMul && t.s > 32
	}
	return false
}

func dumpQuery(asserts []*Term) (string, []*Term) { return dumpQueryA(asserts, false) }

func dumpQueryA(asserts []*Term, abs bool) (string, []*Term) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	seen := map[*Term]bool{}
	ufs := map[string]bool{}
	var qv []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.op == oConst {
			return
		}
		seen[t] = true
		if abs && hardOp(t) {
			sb.WriteString(fmt.Sprintf("(declare-const t%d %s)\n", t.id, sortStr(t.s)))
			return
		}
		for _, a := range t.a {
			rec(a)
		}
		if t.op == oVar {
			so := t.s
			if so == sFP {
				so = 64
			}
			sb.WriteString(fmt.Sprintf("(declare-const |%s| %s)\n", t.name, sortStr(so)))
			qv = append(qv, t)
			return
		}
		if t.op == oUF && !ufs[t.name] {
			ufs[t.name] = true
			var as []string
			for _, a := range t.a {
				as = append(as, sortStr(a.s))
			}
			sb.WriteString(fmt.Sprintf("(declare-fun |%s| (%s) %s)\n", t.name, strings.Join(as, " "), sortStr(t.s)))
		}
		sb.WriteString(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortStr(t.s), t.body()))
	}
	for _, a := range asserts {
		rec(a)
		sb.WriteString("(assert " + a.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(qv) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range qv {
			sb.WriteString(" |" + v.name + "|")
		}
		sb.WriteString("))\n")
	}
	return sb.String(), qv
}
