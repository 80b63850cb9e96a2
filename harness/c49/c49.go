// Package c49: data generators and stats reporters of an application.
package c49

//verif:bound H_generators: 2 data keys of any 2 generators (two registered ones or auto-inc), each with any of 4 scopes, used by 2 statements of a trx, as @d or @d(), that 1-2 clients execute 1-2 times; a registered generator returns 1 or 2 values per call, which start at any number 1-9 (symbolic)
//verif:bound H_names: registering a generator or a reporter under any name of 3 letters (symbolic) or a name that is taken, once or twice
//verif:bound H_reporters: one or two registered reporters, with or without the one to stdout, options with any letter (symbolic), stats.freq unset or 500ms, up to 9 iterations (symbolic) of 100 ms; one of the reporters may reject its options
//verif:bound H_rejected: a statement that uses, perhaps in rows, or does not use a data key of a registered, unknown (symbolic letter) or 3 built-in generators with accepted or rejected params, with or without a registered and an unknown reporter
//verif:bound H_columns: a saved column with 0-2 rows of any letter (symbolic), of the column generator or a registered one, of any of 4 scopes, used in the next statement; 1-2 iterations
//verif:assume MySQL answers every command with OK; time is virtual
//verif:opt * maxsteps=100000000 digits=yes
//verif:opt H_reporters fp=fork
import (
	"context"
	"errors"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/square/finch/compute"
	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/stats"
	"github.com/square/finch/zzverif/sys"
	"github.com/square/finch/zzverif/verif"
)

var yes = true

// gen is a data generator of the application.
type gen struct {
	f      *factory
	name   string
	params map[string]string
	n      int // values per call
	no     int // 0: the one that was made; copies count from 1
	calls  int
	rows   []string
}

func (g *gen) Name() string { return g.name }
func (g *gen) Format() (uint, string) {
	return uint(g.n), "<%v>"
}
func (g *gen) Copy() data.Generator {
	c := *g
	g.f.copies++
	c.no = g.f.copies
	return &c
}
func (g *gen) Values(data.RunCount) []interface{} {
	if g.name == "rows" {
		s := strings.Join(g.rows, "")
		g.rows = nil
		return []interface{}{s}
	}
	if g.no == 0 {
		g.f.original = true
	}
	g.calls++
	var v []interface{}
	for i := 0; i < g.n; i++ {
		v = append(v, g.f.base+10*g.no+100*g.calls+1000*i)
	}
	return v
}
func (g *gen) Scan(v interface{}) error {
	if b, ok := v.([]byte); ok {
		g.rows = append(g.rows, string(b))
	}
	return nil
}

type factory struct {
	made     []string
	n        int
	base     int
	copies   int
	original bool
	err      error
}

func (f *factory) Make(name, key string, params map[string]string) (data.Generator, error) {
	f.made = append(f.made, name+" "+key+" "+params["p"])
	if f.err != nil {
		return nil, f.err
	}
	return &gen{f: f, name: name, params: params, n: f.n}, nil
}

type world struct {
	dir string
	my  *sys.MySQL
	cfg config.Stage
}

func start(text string) *world {
	w := &world{my: &sys.MySQL{}}
	var err error
	w.dir, err = os.MkdirTemp("", "c49")
	verif.Assert(err == nil, "temp dir")
	w.my.Listen()
	os.WriteFile(w.dir+"/t.sql", []byte(text), 0600)
	w.cfg = config.Stage{Name: "s", File: w.dir + "/s.yaml", N: 1,
		Compute:  config.Compute{Instances: "1"},
		Stats:    config.Stats{Disable: &yes},
		MySQL:    config.MySQL{DSN: "u@fake(x)/"},
		Trx:      []config.Trx{{Name: "t", File: w.dir + "/t.sql"}},
		Workload: []config.ClientGroup{{Clients: "1", Iter: "1", Trx: []string{"t"}}},
	}
	return w
}

func (w *world) run() error {
	ret := make(chan error, 1)
	go func() {
		ret <- compute.NewServer("local", "", false).Run(context.Background(), []config.Stage{w.cfg})
	}()
	select {
	case err := <-ret:
		return err
	case <-time.After(time.Minute):
		verif.Fail("the stage ends")
	}
	return nil
}

// H_generators: registered generators are used like the built-in ones.
func H_generators() {
	names := []string{"mine", "other", "auto-inc"}
	scopes := []string{"", "iter", "client", "workload"}
	k1, k2 := verif.Choose("generator", 2), verif.Choose("another generator", 3)
	s1, s2 := verif.Choose("scope", len(scopes)), verif.Choose("another scope", len(scopes))
	call := ""
	if verif.Choose("call", 2) == 1 {
		call = "()"
	}
	mine := &factory{n: 1, base: verif.Int("mine", 1, 9)}
	other := &factory{n: 2, base: 5}
	verif.Assert(data.Register("mine", mine) == nil && data.Register("other", other) == nil, "registered")
	use := func(f int, k string) string {
		if f == 1 {
			return "@" + k + " @PREV"
		}
		return "@" + k
	}
	w := start("insert " + use(k1, "a") + " " + use(k2, "ab") + "\n\nupdate " + use(k1, "a"+call) + "\n")
	defer os.RemoveAll(w.dir)
	w.cfg.Trx[0].Data = map[string]config.Data{
		"a":  {Generator: names[k1], Scope: scopes[s1], Params: map[string]string{"p": "x"}},
		"ab": {Generator: names[k2], Scope: scopes[s2], Params: map[string]string{"p": "y"}},
	}
	clients, iter := 1, 1+verif.Choose("iter", 2)
	if iter == 1 || verif.Thorough() {
		clients += verif.Choose("clients", 2)
	}
	w.cfg.Workload[0].Clients, w.cfg.Workload[0].Iter = strconv.Itoa(clients), strconv.Itoa(iter)
	err := w.run()
	verif.Reach("end")
	verif.Assert(err == nil, "no error")
	made := map[string]int{names[k1] + " @a x": 1, names[k2] + " @ab y": 1}
	for _, m := range append(append([]string{}, mine.made...), other.made...) {
		verif.Assert(made[m] == 1, "a generator is made once for a data key that names it, with the params of the key")
		made[m]--
	}
	verif.Assert(made["mine @a x"]+made["mine @ab y"]+made["other @a x"]+made["other @ab y"] == 0, "a generator is made for every data key that names it")
	verif.Assert(!mine.original && !other.original, "only copies of the generator return values")
	verif.Assert(len(w.my.Queries) == 2*clients*iter, "every query is executed")
	if clients > 1 { // any order of their queries
		seen := map[string]int{}
		for _, q := range w.my.Queries {
			if q[0] == 'i' {
				seen[q]++
			}
		}
		for _, n := range seen {
			verif.Assert(n == 1 || k2 == 2 && k1 == 2, "clients get their own values")
		}
		return
	}
	// one client: a copy per statement (no scope), or one for all
	copyNo := map[string]int{}
	cnt := map[int]int{0: 0, 1: 0, 2: 0}
	num := func(gen, scope int, stmt int, key string, fresh bool, n map[string]int) string {
		id := key
		if scope == 0 {
			id += strconv.Itoa(stmt)
		}
		if copyNo[id] == 0 {
			cnt[gen]++
			copyNo[id] = cnt[gen]
		}
		if fresh || n[id] == 0 {
			n[id]++
		}
		if gen == 2 {
			return strconv.Itoa(n[id])
		}
		f := mine
		if gen == 1 {
			f = other
		}
		v := f.base + 10*copyNo[id] + 100*n[id]
		if gen == 1 {
			return "<" + strconv.Itoa(v) + "> <" + strconv.Itoa(v+1000) + ">"
		}
		return "<" + strconv.Itoa(v) + ">"
	}
	n := map[string]int{}
	for i := 0; i < iter; i++ {
		per := func(scope, stmt int) bool { // a new value
			switch scope {
			case 0:
				return true
			case 2:
				return i == 0 && stmt == 0
			}
			return stmt == 0
		}
		// copies are numbered in order of appearance
		want := "insert " + num(k1, s1, 0, "a", per(s1, 0), n) + " " + num(k2, s2, 0, "ab", per(s2, 0), n)
		verif.Assert(w.my.Queries[2*i] == want, "the query has the values of the generators")
		want = "update " + num(k1, s1, 1, "a", call != "" || per(s1, 1), n)
		verif.Assert(w.my.Queries[2*i+1] == want, "the query has the values of the generators")
	}
}

type reporter struct {
	rejects bool
	opts    []map[string]string
	got     []uint // interval
	n       []uint64
	stopped int
}

func (r *reporter) Make(name string, opts map[string]string) (stats.Reporter, error) {
	if r.rejects {
		return nil, errors.New("rejected")
	}
	r.opts = append(r.opts, opts)
	return r, nil
}

func (r *reporter) Report(from []stats.Instance) {
	verif.Assert(r.stopped == 0, "nothing is reported after the end")
	verif.Assert(len(from) == 1, "a report is of every instance")
	r.got = append(r.got, from[0].Interval)
	n := uint64(0)
	for _, in := range from {
		n += in.Total.N[stats.TOTAL]
	}
	r.n = append(r.n, n)
}

func (r *reporter) Stop() { r.stopped++ }

// H_names: names are unique.
func H_names() {
	name := verif.Bytes("name", 3)
	for i := 0; i < 3; i++ {
		verif.Assume(name[i] >= 'a')
		verif.Assume(name[i] <= 'z')
	}
	switch verif.Choose("what", 2) {
	case 0:
		taken := name == "int" || name == "xid"
		if k := verif.Choose("taken", 10); k > 0 {
			name = []string{"int", "int-gaps", "int-range", "int-range-seq", "auto-inc", "str-fill-az", "xid", "client-id", "column"}[k-1]
			taken = true
		}
		f1, f2 := &factory{n: 1}, &factory{n: 1}
		verif.Assert((data.Register(name, f1) != nil) == taken, "a generator is registered if its name isn't taken")
		verif.Assert(data.Register(name, f2) != nil, "a name is registered once")
		g, err := data.Make(name, "@d", nil)
		verif.Assert(err == nil && g.Name() == name, "the generator of a name is made")
		verif.Assert(len(f2.made) == 0 && (len(f1.made) == 0) == taken, "the first generator registered is made")
		_, err = data.Make(name+"x", "@d", nil)
		verif.Assert(err != nil, "unknown generators are an error")
	case 1:
		taken := name == "csv"
		if k := verif.Choose("taken", 4); k > 0 {
			name = []string{"stdout", "csv", "server"}[k-1]
			taken = true
		}
		r1, r2 := &reporter{}, &reporter{}
		verif.Assert((stats.Register(name, r1) != nil) == taken, "a reporter is registered if its name isn't taken")
		verif.Assert(stats.Register(name, r2) != nil, "a name is registered once")
		if !taken {
			all, err := stats.MakeReporters(config.Stats{Report: map[string]map[string]string{name: {"o": "v"}}})
			verif.Assert(err == nil && len(all) == 1, "the reporter of a name is made")
			verif.Assert(len(r2.opts) == 0 && len(r1.opts) == 1 && len(r1.opts[0]) == 1 && r1.opts[0]["o"] == "v", "the first reporter registered is made, with its options")
		}
		_, err := stats.MakeReporters(config.Stats{Report: map[string]map[string]string{name + "x": {}}})
		verif.Assert(err != nil, "unknown reporters are an error")
	}
	verif.Reach("names")
}

// H_reporters: every reporter gets every report.
func H_reporters() {
	w := start("begin\n\ninsert x\n")
	defer os.RemoveAll(w.dir)
	w.my.Delay = 50 * time.Millisecond
	r1, r2 := &reporter{}, &reporter{}
	verif.Assert(stats.Register("r1", r1) == nil && stats.Register("r2", r2) == nil, "registered")
	o := verif.Bytes("option", 1)
	d := verif.Bytes("iter", 1)
	verif.Assume(d[0] >= '1')
	verif.Assume(d[0] <= '9')
	n := int(d[0] - '0')
	w.cfg.Stats = config.Stats{Freq: []string{"0s", "500ms"}[verif.Choose("freq", 2)], Report: map[string]map[string]string{"r1": {"a": o}}}
	rs := []*reporter{r1}
	if verif.Choose("reporters", 2) == 1 {
		w.cfg.Stats.Report["r2"] = map[string]string{"b": "c" + o}
		rs = append(rs, r2)
		r2.rejects = verif.Choose("rejects", 2) == 1
	}
	w.cfg.Workload[0].Iter = d
	if w.cfg.Stats.Freq != "0s" {
		verif.Assume(n < 5 || n > 8) // else C34-tail
	}
	err := w.run()
	verif.Reach("end")
	if r2.rejects {
		verif.Assert(err != nil && len(w.my.Queries) == 0, "a reporter that rejects its options is an error")
		return
	}
	verif.Assert(err == nil, "no error")
	for _, r := range rs {
		verif.Assert(len(r.opts) == 1 && len(r.opts[0]) == 1, "a reporter is made once, with its options")
		verif.Assert(r.stopped == 1, "a reporter is stopped once")
		verif.Assert(len(r.got) == len(r1.got), "all reporters get all reports")
		sum := uint64(0)
		for i := range r.got {
			verif.Assert(r.got[i] == uint(i+1), "every interval is reported")
			sum += r.n[i]
		}
		verif.Assert(sum == uint64(2*n), "the reports have every query")
	}
	verif.Assert(r1.opts[0]["a"] == o && (len(rs) == 1 || r2.opts[0]["b"] == "c"+o), "a reporter is made once, with its options")
}

// H_columns: what generators do with saved columns.
func H_columns() {
	rows := &factory{n: 1}
	verif.Assert(data.Register("rows", rows) == nil, "registered")
	w := start("-- save-columns: @c, _\nselect x\n\ninsert @c\n")
	defer os.RemoveAll(w.dir)
	own := verif.Choose("own", 2) == 1
	d := config.Data{Generator: "column", Scope: []string{"", "iter", "client", "workload"}[verif.Choose("scope", 4)]}
	if own {
		d.Generator = "rows"
	}
	w.cfg.Trx[0].Data = map[string]config.Data{"c": d}
	iter := 1 + verif.Choose("iter", 2)
	w.cfg.Workload[0].Iter = strconv.Itoa(iter)
	var sent [][]string
	w.my.Rows = func(q string) (int, [][]string) {
		if q != "select x" {
			return 0, nil
		}
		i := len(sent)
		n := 1 + verif.Choose("rows", 2)
		var vals []string
		var r [][]string
		for k := 0; k < n; k++ {
			v := verif.Bytes("row", 1)
			verif.Assume(v[0] >= 'a')
			verif.Assume(v[0] <= 'z')
			vals = append(vals, v)
			r = append(r, []string{v, "-" + strconv.Itoa(i)})
		}
		sent = append(sent, vals)
		return 2, r
	}
	err := w.run()
	verif.Reach("end")
	verif.Assert(err == nil, "no error")
	verif.Assert(len(w.my.Queries) == 2*iter && len(sent) == iter, "every query is executed")
	verif.KnownIf("C49-column", own)
	for i := range sent {
		now := sent[i]
		if d.Scope == "client" {
			now = sent[0] // its scope calls for one value
		}
		want := now[len(now)-1] // the last row
		if own {
			want = "<" + strings.Join(now, "") + ">"
		}
		verif.Assert(w.my.Queries[2*i+1] == "insert "+want, "a saved column has what its generator saves")
	}
}

// H_rejected: what no factory makes.
func H_rejected() {
	mine := &factory{n: 1}
	verif.Assert(data.Register("mine", mine) == nil, "registered")
	r := &reporter{}
	verif.Assert(stats.Register("r1", r) == nil, "registered")
	use := []string{"insert x", "insert @a", "insert /*!csv 2 (@a)*/"}[verif.Choose("use", 3)]
	x := verif.Bytes("letter", 1)
	verif.Assume(x[0] >= 'a')
	verif.Assume(x[0] <= 'z')
	w := start("insert y\n\n" + use + "\n")
	defer os.RemoveAll(w.dir)
	d := config.Data{Generator: "mine", Params: map[string]string{}}
	bad := use != "insert x"
	no := false
	switch verif.Choose("what", 8) {
	case 0:
		bad = false
	case 1:
		d.Generator = x + "mine"
	case 2:
		mine.err = errors.New("rejected")
		d.Params["p"] = x
	case 3:
		d.Generator = "int"
		d.Params["min"] = x
	case 4:
		d.Generator = "auto-inc"
		d.Params["start"] = x
	case 5:
		d.Generator = "str-fill-az"
		d.Params["len"] = x
	case 6:
		w.cfg.Stats = config.Stats{Disable: &no, Report: map[string]map[string]string{"r1": {}}}
		bad = false
	case 7:
		w.cfg.Stats = config.Stats{Disable: &no, Report: map[string]map[string]string{x + "r": {}}}
		bad = true
	}
	w.cfg.Trx[0].Data = map[string]config.Data{"a": d}
	err := w.run()
	verif.Reach("rejected")
	verif.Assert((err != nil) == bad, "unknown names and rejected params are an error")
	verif.Assert((len(w.my.Queries) == 0) == bad, "an error is found before any query is executed")
}
