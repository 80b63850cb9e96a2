package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessResult struct {
	Name     string
	Paths    int
	Infeas   int
	Steps    int64
	Branches int64
	Asserts  int64
	Trivial  int64
	Reach    map[string]int
	Incompl  map[string]int
	Viols    []*Violation
	Samples  []Sample
	Complete bool
	Notes    map[string]int
	Solver   SolverStats
	Wall     float64
	Opts     map[string]string
}

type Known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verifDir := flag.String("verif", "/verif", "verif directory")
	only := flag.String("only", "", "run only this harness")
	nwork := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Float64("budget", 0, "seconds for the whole check")
	noNative := flag.Bool("nonative", false, "skip native validation and replay")
	verbose := flag.Bool("v", false, "verbose")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := runCheck(*prop, *tier, *repo, *verifDir, *only, *nwork, *budget, *noNative, *verbose)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

var dirRe = regexp.MustCompile(`(?m)^//verif:(\w+)[ \t]+(.*)$`)

func runCheck(prop, tier, repo, verifDir, only string, nwork int, budget float64, noNative, verbose bool) int {
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	pkg := strings.ToLower(prop)
	hdir := filepath.Join(verifDir, "harness")
	prog, hp, order, err := loadProgram(repo, hdir, pkg)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	loadT := time.Since(t0)
	if budget == 0 {
		budget = 150
		if tier == "thorough" {
			budget = 700
		}
	}
	// directives
	opts := map[string]map[string]string{}
	pkgOpts := map[string]string{}
	var assumes, bounds []string
	srcs, _ := filepath.Glob(filepath.Join(hdir, pkg, "*.go"))
	for _, f := range srcs {
		b, _ := os.ReadFile(f)
		for _, m := range dirRe.FindAllStringSubmatch(string(b), -1) {
			switch m[1] {
			case "assume":
				assumes = append(assumes, strings.TrimSpace(m[2]))
			case "bound":
				bounds = append(bounds, strings.TrimSpace(m[2]))
			case "opt":
				fs := strings.Fields(m[2])
				for _, kv := range fs[1:] {
					k, v, _ := strings.Cut(kv, "=")
					if fs[0] == "*" {
						pkgOpts[k] = v
						continue
					}
					if opts[fs[0]] == nil {
						opts[fs[0]] = map[string]string{}
					}
					opts[fs[0]][k] = v
				}
			}
		}
	}
	hp.Build()
	var names []string
	for n, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H") && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			if only != "" && n != only {
				continue
			}
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: no harness functions")
		return 2
	}
	if tier != "thorough" {
		var l []string
		for _, n := range names {
			if opts[n]["tier"] == "thorough" {
				continue
			}
			l = append(l, n)
		}
		names = l
	}
	fnsUsed := map[string]bool{}
	var results []*HarnessResult
	deadline := t0.Add(time.Duration(budget * float64(time.Second)))
	for i, n := range names {
		o := map[string]string{}
		for k, v := range pkgOpts {
			o[k] = v
		}
		for k, v := range opts[n] {
			o[k] = v
		}
		left := time.Until(deadline)
		share := left / time.Duration(len(names)-i)
		if share < 3*time.Second {
			share = 3 * time.Second
		}
		e := &Engine{prog: prog, harness: hp.Func(n), tier: tier, seed: seed, nwork: nwork, maxSteps: 3_000_000}
		for _, p := range order {
			if !plainInit(p) {
				e.repoPkgs = append(e.repoPkgs, p)
			}
		}
		e.digits = o["digits"] == "yes"
		e.fpND = o["fp"] == "nd"
		e.fpFork = o["fp"] == "fork"
		e.fpMono = o["fp"] == "mono"
		if s := o["maxsteps"]; s != "" {
			e.maxSteps, _ = strconv.ParseInt(s, 10, 64)
		}
		if s := o["j"]; s != "" {
			e.nwork, _ = strconv.Atoi(s)
		}
		e.deadline = time.Now().Add(share)
		h0 := time.Now()
		e.Run()
		r := &HarnessResult{Name: n, Paths: e.paths, Infeas: e.infeas, Steps: e.steps, Branches: e.branches, Asserts: e.asserts, Trivial: e.trivial,
			Reach: e.reach, Incompl: e.incompl, Samples: e.samples, Notes: e.notes, Solver: e.solver, Wall: time.Since(h0).Seconds(), Opts: o}
		r.Complete = !e.timedOut && len(e.incompl) == 0
		if e.timedOut {
			r.Incompl["time budget reached"]++
		}
		for _, v := range e.viols {
			r.Viols = append(r.Viols, v)
		}
		if r.Complete {
			for l := range e.cover {
				if e.reach[l] == 0 {
					r.Viols = append(r.Viols, &Violation{Label: l, Cover: true, Detail: "no input within the bounds reaches this outcome"})
				}
			}
		}
		sort.Slice(r.Viols, func(i, j int) bool { return r.Viols[i].Label < r.Viols[j].Label })
		for f := range e.fnsUsed {
			fnsUsed[f] = true
		}
		results = append(results, r)
		fmt.Printf("harness %s.%s: paths=%d infeasible=%d asserts=%d (constant %d) steps=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs wall=%.1fs complete=%v\n",
			prop, n, r.Paths, r.Infeas, r.Asserts, r.Trivial, r.Steps, r.Solver.Queries, r.Solver.Sat, r.Solver.Unsat, r.Solver.Unknown, r.Solver.Time.Seconds(), r.Wall, r.Complete)
		for k, c := range r.Incompl {
			fmt.Printf("  INCOMPLETE %s x%d\n", k, c)
		}
		if verbose {
			fmt.Printf("  reach %v notes %v\n", r.Reach, r.Notes)
			for _, v := range r.Viols {
				fmt.Printf("  violation %q known=%q %s\n    inputs %v\n    log %v\n", v.Label, v.Known, v.Detail, v.Inputs, v.Log)
			}
			for _, s := range r.Samples {
				fmt.Printf("  sample %v -> %v\n", s.Inputs, s.Obs)
			}
		}
	}

	// native confirmation and validation
	nat := &native{repo: repo, hdir: hdir, pkg: pkg, names: names, rand: pkgOpts["rand"] != ""}
	defer nat.clean()
	known := loadKnown(filepath.Join(verifDir, "known_findings.json"))
	type finding struct {
		h  string
		v  *Violation
		ok string
	}
	var bad []finding
	var unconf []string
	knownSeen := map[string]string{}
	for _, r := range results {
		done := map[string]bool{}
		for _, v := range r.Viols {
			vk := v.Known + "\x00" + v.Label
			if done[vk] {
				continue
			}
			if v.Known != "" {
				listed := false
				for _, k := range known {
					if k.Property == prop && k.ID == v.Known && k.Status == "known" {
						listed = true
						knownSeen[k.ID] = k.What
					}
				}
				if listed {
					continue
				}
			}
			how := "interpreted trace (scheduling is not reproducible natively)"
			confirm := !noNative && r.Opts["native"] != "no"
			if confirm && (v.Label == "data-race" || (v.Sched && r.Opts["schednative"] == "")) {
				confirm = false
			}
			if r.Opts["native"] == "no" {
				how = "interpreted trace (harness is not replayed natively)"
			}
			if confirm {
				ok, out := nat.confirm(r.Name, v, r.Opts)
				if !ok {
					unconf = append(unconf, r.Name+": "+v.Label)
					fmt.Printf("UNCONFIRMED %s.%s %q: not reproduced by the real code: %s\n", prop, r.Name, v.Label, out)
					if verbose {
						fmt.Printf("   inputs %v detail %s\n", v.Inputs, v.Detail)
					}
					continue
				}
				how = "reproduced by the real code: " + out
			}
			bad = append(bad, finding{r.Name, v, how})
			done[vk] = true
		}
	}
	validated, mismatches := 0, []string{}
	if len(bad) == 0 && !noNative {
		for _, r := range results {
			if r.Opts["native"] == "no" || r.Opts["validate"] == "no" {
				continue
			}
			max := 4
			if tier == "thorough" {
				max = 12
			}
			for i, s := range r.Samples {
				if i >= max || s.Sched {
					continue
				}
				ok, out := nat.validate(r.Name, s)
				if ok {
					validated++
				} else {
					mismatches = append(mismatches, r.Name+": "+out)
				}
			}
		}
	}
	for _, m := range mismatches {
		fmt.Printf("MISMATCH %s: %s\n", prop, m)
	}

	// evidence
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": len(bad), "assumptions": assumes}
	cov := map[string]any{}
	var paths, queries, unsat, sat, unknown, asserts, trivial int64
	var steps int64
	var st time.Duration
	complete := true
	var hsum []any
	samples := []any{}
	incompl := map[string]int{}
	vacuous := []string{}
	for _, r := range results {
		paths += int64(r.Paths)
		steps += r.Steps
		queries += int64(r.Solver.Queries)
		unsat += int64(r.Solver.Unsat)
		sat += int64(r.Solver.Sat)
		unknown += int64(r.Solver.Unknown)
		st += r.Solver.Time
		asserts += r.Asserts
		trivial += r.Trivial
		complete = complete && r.Complete
		for k, c := range r.Incompl {
			incompl[r.Name+": "+k] += c
		}
		hsum = append(hsum, map[string]any{"harness": r.Name, "paths": r.Paths, "infeasible": r.Infeas, "assertions": r.Asserts, "assertions_constant": r.Trivial, "queries": r.Solver.Queries, "unsat": r.Solver.Unsat, "solver_s": r.Solver.Time.Seconds(), "wall_s": r.Wall, "complete": r.Complete, "reached": r.Reach})
		for i, s := range r.Samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": r.Name, "inputs": s.Inputs, "observed": s.Obs})
			}
		}
		if len(r.Viols) == 0 && (len(r.Reach) == 0 || r.Asserts == 0) {
			vacuous = append(vacuous, r.Name)
		}
	}
	var fns []string
	for f := range fnsUsed {
		if strings.Contains(f, modPath) && !strings.Contains(f, "/zzverif/") {
			fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
		}
	}
	sort.Strings(fns)
	cov["states"] = paths
	cov["transitions"] = steps
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["harnesses"] = hsum
	cov["functions_encoded"] = fns
	cov["functions_encoded_total"] = len(fnsUsed)
	cov["bounds"] = bounds
	cov["queries"] = queries
	cov["queries_unsat"] = unsat
	cov["queries_sat"] = sat
	cov["queries_unknown"] = unknown
	cov["assertions_checked"] = asserts
	cov["assertions_decided_by_constant_folding"] = trivial
	cov["solver_s"] = st.Seconds()
	cov["exhaustive"] = complete
	cov["incomplete"] = incompl
	cov["unconfirmed"] = unconf
	cov["mismatches"] = mismatches
	cov["load_s"] = loadT.Seconds()
	cov["unit"] = "states = symbolic execution paths completed; transitions = SSA instructions executed symbolically"
	ev["coverage"] = cov
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0644)

	var ks []string
	for id := range knownSeen {
		ks = append(ks, id)
	}
	sort.Strings(ks)
	for _, id := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, id, knownSeen[id])
	}
	if len(bad) > 0 {
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		for i, f := range bad {
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
			rb, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": f.h, "label": f.v.Label, "detail": f.v.Detail, "values": f.v.Inputs, "log": f.v.Log, "confirmed": f.ok, "tier": tier}, "", " ")
			os.WriteFile(p, append(rb, '\n'), 0644)
			fmt.Printf("violated: %s.%s %q\n  inputs: %v\n  %s\n  %s\n", prop, f.h, f.v.Label, f.v.Inputs, strings.ReplaceAll(strings.TrimSpace(f.v.Detail), "\n", "\n  "), f.ok)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
		return 1
	}
	if len(mismatches) > 0 {
		fmt.Printf("NOTE: %d sampled paths behave differently natively; see evidence\n", len(mismatches))
	}
	if len(vacuous) > 0 {
		fmt.Printf("ERROR: harness without reached assertions: %v\n", vacuous)
		return 2
	}
	return 0
}

// plainInit: initialising the package calls nothing, so it can be done when one of its
// variables is first used.
func plainInit(p *ssa.Package) bool {
	p.Build()
	f := p.Func("init")
	if f == nil {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := c.Common().StaticCallee(); g != nil && g.Synthetic == "package initializer" {
				continue
			}
			if _, ok := c.Common().Value.(*ssa.Builtin); ok {
				continue
			}
			return false
		}
	}
	return true
}

func loadKnown(p string) []Known {
	var ks []Known
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	json.Unmarshal(b, &ks)
	return ks
}

// ---- native replay ----

type native struct {
	repo, hdir, pkg string
	names           []string
	rand            bool
	dir             string
	bin             string
	err             error
	built           bool
}

func (n *native) clean() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

func (n *native) build() error {
	if n.built {
		return n.err
	}
	n.built = true
	n.err = func() error {
		d, err := os.MkdirTemp("", "vrep")
		if err != nil {
			return err
		}
		n.dir = d
		files, err := overlayFiles(n.repo, n.hdir)
		if err != nil {
			return err
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"os\"\n\n\th \"%s/zzverif/%s\"\n\t\"%s/zzverif/verif\"\n", modPath, n.pkg, modPath)
		if n.rand {
			sb.WriteString("\t\"math/rand\"\n")
		}
		sb.WriteString(")\n\nfunc main() {\n")
		if n.rand {
			sb.WriteString("\trand.VerifHook = verif.RandHook\n")
		}
		sb.WriteString("\tverif.Main(os.Args[1:], map[string]func(){\n")
		for _, x := range n.names {
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", x, x)
		}
		sb.WriteString("\t})\n}\n")
		mp := filepath.Join(d, "main.go")
		os.WriteFile(mp, []byte(sb.String()), 0644)
		files[filepath.Join(n.repo, "zzverif", "zzmain", "main.go")] = mp
		if n.rand {
			out, err := exec.Command("go", "env", "GOROOT").Output()
			if err != nil {
				return err
			}
			for _, fn := range []string{"rand", "rng", "normal"} {
				src := filepath.Join(strings.TrimSpace(string(out)), "src/math/rand", fn+".go")
				b, err := os.ReadFile(src)
				if err != nil {
					return err
				}
				rp := filepath.Join(d, fn+".go")
				os.WriteFile(rp, patchRand(fn, b), 0644)
				files[src] = rp
			}
		}
		ob, _ := json.Marshal(map[string]any{"Replace": files})
		op := filepath.Join(d, "overlay.json")
		os.WriteFile(op, ob, 0644)
		n.bin = filepath.Join(d, "replay")
		cmd := exec.Command("go", "build", "-overlay", op, "-o", n.bin, modPath+"/zzverif/zzmain")
		cmd.Dir = n.repo
		cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
		o, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("native build: %v\n%s", err, o)
		}
		return nil
	}()
	if n.err != nil {
		fmt.Println("NATIVE-BUILD-FAILED", n.err)
	}
	return n.err
}

var randFns = regexp.MustCompile(`(?m)^func \((r \*Rand|rng \*rngSource)\) (Int63n|Intn|Int31n|Int63|Int31|Int|Uint32|Uint64|Float64|NormFloat64)\((n? ?\w*)\) (\w+) \{`)

// patchRand makes the methods of math/rand ask a hook for their result first.
func patchRand(file string, b []byte) []byte {
	out := randFns.ReplaceAllFunc(b, func(m []byte) []byte {
		g := randFns.FindSubmatch(m)
		name, ret := string(g[2]), string(g[4])
		arg := "0"
		guard := ""
		if len(g[3]) > 0 {
			arg = "int64(n)"
			guard = "n > 0 && "
		}
		conv := ret + "(v)"
		if ret == "float64" {
			conv = "verifF(v)"
		}
		return []byte(string(m) + fmt.Sprintf("\n\tif VerifHook != nil && %strue {\n\t\tif v, ok := VerifHook(%q, %s); ok {\n\t\t\treturn %s\n\t\t}\n\t}\n", guard, name, arg, conv))
	})
	if file == "rand" {
		out = append(out, []byte("\n\nvar VerifHook func(kind string, n int64) (uint64, bool)\n\nfunc verifF(v uint64) float64 { return *(*float64)(unsafe.Pointer(&v)) }\n")...)
		out = bytes.Replace(out, []byte("import (\n"), []byte("import (\n\t\"unsafe\"\n"), 1)
	}
	return out
}

type runOut struct {
	code    int
	out     string
	timeout bool
}

func (n *native) run(h string, vals []NDVal, tier string, tmo time.Duration) runOut {
	vf := filepath.Join(n.dir, "vals.json")
	b, _ := json.Marshal(vals)
	os.WriteFile(vf, b, 0644)
	scratch := filepath.Join(n.dir, "scratch")
	os.RemoveAll(scratch)
	os.MkdirAll(scratch, 0777)
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin, h, vf)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, "TMPDIR="+scratch, "HOME="+scratch)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	err := cmd.Run()
	r := runOut{out: ob.String()}
	if ctx.Err() != nil {
		r.timeout = true
		return r
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		} else {
			r.code = -1
		}
	}
	return r
}

// confirm replays a violation on the real code.
func (n *native) confirm(h string, v *Violation, opts map[string]string) (bool, string) {
	if err := n.build(); err != nil {
		return false, "native build failed"
	}
	tries := 1
	if v.Sched || v.MapOrd {
		tries = 200
	}
	if v.Cover {
		os.Setenv("VERIF_COVER", v.Label)
		defer os.Unsetenv("VERIF_COVER")
	}
	tmo := 20 * time.Second
	var last string
	for i := 0; i < tries; i++ {
		r := n.run(h, v.Inputs, tierOf(), tmo)
		switch v.Label {
		case "step-limit":
			if r.timeout {
				return true, "does not finish within 20s"
			}
			if r.code == 2 && (strings.Contains(r.out, "out of memory") || strings.Contains(r.out, "stack overflow") || strings.Contains(r.out, "goroutine stack exceeds")) {
				return true, firstLines(r.out, 3)
			}
		case "deadlock":
			if r.timeout || strings.Contains(r.out, "all goroutines are asleep") {
				return true, "does not finish"
			}
		case "exit":
			if r.code == 1 && !strings.Contains(r.out, "VERIF-") {
				return true, "exit status 1: " + firstLines(r.out, 3)
			}
		case "panic":
			if r.code == 2 && strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:") {
				return true, firstLines(r.out, 3)
			}
		default:
			if r.code == 3 && strings.Contains(r.out, "VERIF-ASSERT-FAIL "+v.Label+"\n") {
				return true, "assertion " + v.Label + " fails"
			}
			// a different assertion, a panic or a hang on the same input also shows the defect
			if r.code == 3 || r.timeout || r.code == 2 && strings.Contains(r.out, "panic:") {
				return true, firstLines(r.out, 3)
			}
		}
		last = fmt.Sprintf("exit %d timeout=%v %s", r.code, r.timeout, firstLines(r.out, 6))
	}
	return false, last
}

func tierOf() string {
	for i, a := range os.Args {
		if a == "-tier" && i+1 < len(os.Args) {
			return os.Args[i+1]
		}
	}
	return "quick"
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(strings.TrimSpace(s), "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

// validate runs a sampled path's inputs on the real code and compares what
// the harness observed.
func (n *native) validate(h string, s Sample) (bool, string) {
	if err := n.build(); err != nil {
		return false, "native build failed"
	}
	r := n.run(h, s.Inputs, tierOf(), 30*time.Second)
	if r.timeout || r.code != 0 {
		return false, fmt.Sprintf("exit %d timeout %v: %s inputs %v", r.code, r.timeout, firstLines(r.out, 12), s.Inputs)
	}
	var got []string
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "VERIF-OBS ") {
			x, _ := strconv.Unquote(strings.TrimPrefix(l, "VERIF-OBS "))
			got = append(got, x)
		}
	}
	if strings.Join(got, "\x00") != strings.Join(s.Obs, "\x00") {
		return false, fmt.Sprintf("inputs %v: engine observed %q, real code %q", s.Inputs, s.Obs, got)
	}
	return true, ""
}

var _ = types.Typ
