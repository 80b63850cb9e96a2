// Package c37: more specific configuration wins.
package c37

import (
	"fmt"
	"os"

	"github.com/square/finch/config"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_with: two settings at a time, each given or not in stage file and base file, the others all given in the base file, all in the stage file, or nowhere; values any string
//verif:bound H_cmd: --dsn and --database over 0-2 client groups, values any string
//verif:bound H_load: config.Load of a stage file with its base file (real YAML text): two settings at a time and three --param
//verif:bound H_stages: two stage files with one base file: the same or another directory, the second one perhaps named relative to its directory, perhaps --dsn and --database; what the one sets is not seen by the other
//verif:assume a reporter option is a setting of its own (mysql and params merge in the same way)

// set is one string setting.
type set struct {
	name string
	m    func(m *config.MySQL) *string
	st   func(s *config.Stats) *string
	rep  [2]string
	par  string
}

func mysqlSets() []set {
	m := func(n string, f func(m *config.MySQL) *string) set { return set{name: n, m: f} }
	return []set{
		m("db", func(m *config.MySQL) *string { return &m.Db }),
		m("dsn", func(m *config.MySQL) *string { return &m.DSN }),
		m("hostname", func(m *config.MySQL) *string { return &m.Hostname }),
		m("mycnf", func(m *config.MySQL) *string { return &m.MyCnf }),
		m("password", func(m *config.MySQL) *string { return &m.Password }),
		m("password-file", func(m *config.MySQL) *string { return &m.PasswordFile }),
		m("socket", func(m *config.MySQL) *string { return &m.Socket }),
		m("timeout-connect", func(m *config.MySQL) *string { return &m.TimeoutConnect }),
		m("username", func(m *config.MySQL) *string { return &m.Username }),
	}
}

func tlsSets() []set {
	m := func(n string, f func(m *config.MySQL) *string) set { return set{name: n, m: f} }
	return []set{
		m("ca", func(m *config.MySQL) *string { return &m.TLS.CA }),
		m("cert", func(m *config.MySQL) *string { return &m.TLS.Cert }),
		m("key", func(m *config.MySQL) *string { return &m.TLS.Key }),
	}
}

func otherSets() []set {
	return []set{
		{name: "freq", st: func(s *config.Stats) *string { return &s.Freq }},
		{name: "stdout.percentiles", rep: [2]string{"stdout", "percentiles"}},
		{name: "stdout.each-instance", rep: [2]string{"stdout", "each-instance"}},
		{name: "csv.percentiles", rep: [2]string{"csv", "percentiles"}},
		{name: "params.a", par: "a"},
		{name: "params.ab", par: "ab"},
	}
}

// put writes v to the setting; nothing if v is empty (setting not given).
func (x set) put(m *config.MySQL, s *config.Stats, p *map[string]string, v string, given bool) {
	if !given {
		return
	}
	switch {
	case x.m != nil:
		*x.m(m) = v
	case x.st != nil:
		*x.st(s) = v
	case x.rep[0] != "":
		if s.Report == nil {
			s.Report = map[string]map[string]string{}
		}
		if s.Report[x.rep[0]] == nil {
			s.Report[x.rep[0]] = map[string]string{}
		}
		s.Report[x.rep[0]][x.rep[1]] = v
	default:
		if *p == nil {
			*p = map[string]string{}
		}
		(*p)[x.par] = v
	}
}

func (x set) get(s *config.Stage) (string, bool) {
	var v string
	switch {
	case x.m != nil:
		v = *x.m(&s.MySQL)
	case x.st != nil:
		v = *x.st(&s.Stats)
	case x.rep[0] != "":
		v, ok := s.Stats.Report[x.rep[0]][x.rep[1]]
		return v, ok
	default:
		v, ok := s.Params[x.par]
		return v, ok
	}
	return v, v != ""
}

// H_with: Stage.With for every setting, with any values.
func H_with() {
	sets := append(append(mysqlSets(), tlsSets()...), otherSets()...)
	i := verif.Choose("i", len(sets))
	j := verif.Choose("j", len(sets))
	if !verif.Thorough() && (j < i || j > i+9) {
		return // every pair within half the list, in one order
	}
	bg := verif.Choose("rest", 3)
	var b config.Base
	var s config.Stage
	want := make([]string, len(sets))
	has := make([]bool, len(sets))
	for k, x := range sets {
		inB, inS := bg == 1, bg == 2
		if k == i || k == j {
			inB, inS = verif.Bool(x.name+".base"), verif.Bool(x.name+".stage")
		}
		vb, vs := "b"+verif.Str(x.name+".b"), "s"+verif.Str(x.name+".s")
		x.put(&b.MySQL, &b.Stats, &b.Params, vb, inB)
		x.put(&s.MySQL, &s.Stats, &s.Params, vs, inS)
		if inS {
			want[k], has[k] = vs, true
		} else if inB {
			want[k], has[k] = vb, true
		}
	}
	s.With(b)
	verif.Reach("with")
	for k, x := range sets {
		v, ok := x.get(&s)
		verif.Assert(ok == has[k], "given in either place, and only then: "+x.name)
		verif.Assert(v == want[k], "the stage file over the base file: "+x.name)
	}
	// nothing else appears
	n := 0
	for _, opts := range s.Stats.Report {
		n += len(opts)
	}
	m := 0
	for k, x := range sets {
		if x.rep[0] != "" && has[k] {
			m++
		}
	}
	verif.Assert(n == m, "no other reporter options")
}

// H_bool: the three-valued settings: not set, false, true.
func H_bool() {
	var b config.Base
	var s config.Stage
	f := func(b *config.MySQL, st *config.Stats) []**bool {
		return []**bool{&b.DisableAutoTLS, &b.TLS.SkipVerify, &b.TLS.Disable, &st.Disable}
	}
	bs, ss := f(&b.MySQL, &b.Stats), f(&s.MySQL, &s.Stats)
	var hb, hs, vb, vs [4]bool
	for i := range bs {
		hb[i], hs[i] = verif.Bool(fmt.Sprintf("base%d", i)), verif.Bool(fmt.Sprintf("stage%d", i))
		vb[i], vs[i] = verif.Bool(fmt.Sprintf("bv%d", i)), verif.Bool(fmt.Sprintf("sv%d", i))
		if hb[i] {
			v := vb[i]
			*bs[i] = &v
		}
		if hs[i] {
			v := vs[i]
			*ss[i] = &v
		}
	}
	s.With(b)
	verif.Reach("bool")
	for i, p := range f(&s.MySQL, &s.Stats) {
		verif.Assert((*p != nil) == (hb[i] || hs[i]), "bool setting given in either place")
		if *p != nil {
			w := vb[i]
			if hs[i] {
				w = vs[i]
			}
			verif.Assert(**p == w, "bool setting: the stage file over the base file")
		}
	}
}

// H_cmd: --dsn and --database.
func H_cmd() {
	var s config.Stage
	opt := func(n string) string {
		if verif.Bool("has-" + n) {
			return "x" + verif.Str(n)
		}
		return ""
	}
	dsn, db := opt("cmd-dsn"), opt("cmd-db")
	s.MySQL.DSN, s.MySQL.Db = opt("dsn"), opt("db")
	s.MySQL.Username, s.MySQL.Hostname = "u"+verif.Str("user"), "h"+verif.Str("host")
	user, host := s.MySQL.Username, s.MySQL.Hostname
	var cg []string
	for i := 0; i < verif.Choose("groups", 3); i++ {
		cg = append(cg, opt(fmt.Sprintf("cg%d", i)))
		s.Workload = append(s.Workload, config.ClientGroup{Db: cg[i], Clients: "1", Group: "g"})
	}
	wdsn, wdb := s.MySQL.DSN, s.MySQL.Db
	if dsn != "" {
		wdsn = dsn
	}
	if db != "" {
		wdb = db
	}
	s.CommandLine(dsn, db)
	verif.Reach("cmd")
	verif.Assert(s.MySQL.DSN == wdsn, "--dsn over config files")
	verif.Assert(s.MySQL.Db == wdb, "--database over config files")
	verif.Assert(s.MySQL.Username == user && s.MySQL.Hostname == host, "other settings as they were")
	verif.Assert(len(s.Workload) == len(cg), "client groups")
	for i := range cg {
		w := cg[i]
		if db != "" {
			w = db
		}
		verif.Assert(s.Workload[i].Db == w && s.Workload[i].Clients == "1" && s.Workload[i].Group == "g", "--database over the database of client groups")
	}
}

// ---- real files ----

// letters: the value given in a place (its content is symbolic in H_with).
func letters(n string) string { return n + "v" }

type doc struct {
	mysql, report, params string
	stats                 string
}

func (d doc) text(ind string) string {
	t := ""
	if d.mysql != "" {
		t += ind + "mysql:\n" + d.mysql
	}
	if d.params != "" {
		t += ind + "params:\n" + d.params
	}
	if d.stats != "" {
		t += ind + "stats:\n" + d.stats
	}
	return t
}

func H_load() {
	dir, err := os.MkdirTemp("", "c37")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	os.WriteFile(dir+"/t.sql", []byte("SELECT 1"), 0644)

	names := []string{"db", "dsn", "hostname", "mycnf", "password", "password-file", "socket", "username"}
	get := map[string]func(s *config.Stage) string{}
	for _, x := range mysqlSets() {
		x := x
		get[x.name] = func(s *config.Stage) string { return *x.m(&s.MySQL) }
	}
	i := verif.Choose("i", len(names))
	j := verif.Choose("j", len(names))
	if j < i {
		return
	}
	var base, st doc
	want := map[string]string{}
	for k, n := range names {
		if k != i && k != j {
			continue
		}
		if verif.Bool("base") {
			want[n] = "B" + letters("b")
			base.mysql += "  " + n + ": \"" + want[n] + "\"\n"
		}
		if verif.Bool("stage") {
			want[n] = "S" + letters("s")
			st.mysql += "    " + n + ": \"" + want[n] + "\"\n"
		}
	}
	dsn, db := "", ""
	if verif.Bool("cmd-dsn") {
		dsn = "C" + letters("c")
		want["dsn"] = dsn
	}
	if i == 0 && verif.Bool("cmd-db") {
		db = "D" + letters("d")
		want["db"] = db
	}
	os.WriteFile(dir+"/_all.yaml", []byte(base.text("")), 0644)
	os.WriteFile(dir+"/s.yaml", []byte("stage:\n"+st.text("  ")+"  trx:\n    - file: t.sql\n"), 0644)
	s, err := config.Load([]string{dir + "/s.yaml"}, nil, dsn, db)
	verif.Assert(err == nil && len(s) == 1, "loads")
	verif.Reach("load")
	for n, f := range get {
		verif.Assert(f(&s[0]) == want[n], "setting "+n)
	}
	verif.Assert(len(s[0].Params) == 0, "no params")
	verif.Assert(s[0].Name == "s.yaml", "name")
}

// H_params: params of base file, stage file and command line.
func H_params() {
	dir, err := os.MkdirTemp("", "c37")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	os.WriteFile(dir+"/t.sql", []byte("SELECT 1"), 0644)
	var base, st doc
	var cmd []string
	want := map[string]string{}
	freq := ""
	for _, n := range []string{"a", "ab"} {
		if verif.Bool("base") {
			want[n] = "B" + letters("b")
			base.params += "  " + n + ": \"" + want[n] + "\"\n"
		}
		if verif.Bool("stage") {
			want[n] = "S" + letters("s")
			st.params += "    " + n + ": \"" + want[n] + "\"\n"
		}
		if verif.Bool("cmd") {
			v := "C" + letters("c")
			switch verif.Choose("space", 3) {
			case 1:
				v = " " + v
			case 2:
				v += " "
			}
			if n == "a" {
				v += "=" + letters("e") // the value is all after the first =
			}
			want[n] = v
			cmd = append(cmd, n+"="+want[n])
		}
	}
	hasBase := base.params != "" || verif.Bool("base-file")
	if verif.Bool("base-freq") && hasBase {
		freq = "7s"
		base.stats += "  freq: 7s\n"
	}
	if verif.Bool("stage-freq") {
		freq = "9s"
		st.stats += "    freq: 9s\n"
	}
	if hasBase {
		os.WriteFile(dir+"/_all.yaml", []byte(base.text("")), 0644)
	}
	os.WriteFile(dir+"/s.yaml", []byte("stage:\n"+st.text("  ")+"  trx:\n    - file: t.sql\n"), 0644)
	s, err := config.Load([]string{dir + "/s.yaml"}, cmd, "", "")
	verif.Assert(err == nil && len(s) == 1, "loads")
	verif.Reach("params")
	verif.Assert(len(s[0].Params) == len(want), "exactly the params given")
	for n, v := range want {
		verif.Assert(s[0].Params[n] == v, "--param over the stage file over the base file")
	}
	if freq == "" {
		freq = "0s"
	}
	verif.Assert(s[0].Stats.Freq == freq, "stats.freq")
}

// H_stages: settings of one stage do not reach another.
func H_stages() {
	dir, err := os.MkdirTemp("", "c37")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	d2 := dir
	name := func(f string) string { return d2 + "/" + f }
	if verif.Bool("other-dir") {
		d2 = dir + "/d2"
		os.Mkdir(d2, 0755)
		os.WriteFile(d2+"/t.sql", []byte("SELECT 1"), 0644)
	}
	os.WriteFile(dir+"/t.sql", []byte("SELECT 1"), 0644)
	bp, bo := letters("bp"), letters("bo")
	os.WriteFile(dir+"/_all.yaml", []byte("mysql:\n  db: bdb\n  hostname: $params.a\nparams:\n  a: \""+bp+"\"\nstats:\n  freq: 3s\n  report:\n    stdout:\n      x: $params.a\n      percentiles: \""+bo+"\"\n"), 0644)
	want := [2]map[string]string{}
	one := func(n int, d, f string) {
		i := fmt.Sprint(n)
		w := map[string]string{}
		if d == dir {
			w["a"], w["o"], w["db"], w["freq"] = bp, bo, "bdb", "3s"
		}
		t := "stage:\n"
		if verif.Bool("db" + i) {
			w["db"] = "sdb" + letters("db")
			t += "  mysql:\n    db: " + w["db"] + "\n"
		}
		if verif.Bool("a" + i) {
			w["a"] = "A" + letters("a")
			t += "  params:\n    a: \"" + w["a"] + "\"\n"
		}
		if verif.Bool("o" + i) {
			w["o"] = "O" + letters("o")
			t += "  stats:\n    report:\n      stdout:\n        percentiles: \"" + w["o"] + "\"\n"
		}
		if d == dir {
			w["x"] = w["a"]
		}
		want[n] = w
		os.WriteFile(d+"/"+f, []byte(t+"  trx:\n    - file: t.sql\n"), 0644)
	}
	one(0, dir, "s1.yaml")
	one(1, d2, "s2.yaml")
	if verif.Bool("relative") {
		cwd, err := os.Getwd()
		verif.Assert(err == nil, "cwd")
		os.Chdir(d2)
		defer os.Chdir(cwd)
		name = func(f string) string { return f }
	}
	dsn, cdb := "", ""
	if verif.Bool("cmd") {
		dsn, cdb = "dsn", "cdb"
		want[0]["db"], want[1]["db"] = cdb, cdb
	}
	s, err := config.Load([]string{dir + "/s1.yaml", name("s2.yaml")}, []string{"c=1"}, dsn, cdb)
	verif.Assert(err == nil && len(s) == 2, "loads")
	verif.Reach("stages")
	for n := range s {
		w := want[n]
		if w["freq"] == "" {
			w["freq"] = "0s"
		}
		verif.Assert(s[n].MySQL.Db == w["db"], "db of the stage")
		verif.Assert(s[n].MySQL.DSN == dsn, "DSN of the command line")
		verif.Assert(s[n].Params["a"] == w["a"] && s[n].Params["c"] == "1", "params of the stage")
		verif.Assert(s[n].Stats.Report["stdout"]["percentiles"] == w["o"], "report of the stage")
		verif.Assert(s[n].Stats.Report["stdout"]["x"] == w["x"] && s[n].MySQL.Hostname == w["x"], "references in the base file are to the params of the stage")
		verif.Assert(s[n].Stats.Freq == w["freq"], "freq of the stage")
		verif.Assert(s[n].N == uint(n+1), "stage number")
	}
}
