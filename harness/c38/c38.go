// Package c38: invalid configuration is rejected, valid configuration is accepted as it is.
package c38

import (
	"os"

	"github.com/square/finch/config"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_int: each number setting with every printable ASCII string of 0-3 bytes, and every 10-digit string around 2^32
//verif:bound H_duration: stage and group runtime, stats.freq and mysql.timeout-connect with every string of 1-3 bytes over digits, units, sign and others, and a list of longer ones with fractions
//verif:bound H_trx: up to 3 trx of 2 files, names, generators, scopes; H_workload: up to 3 client groups with groups and trx
//verif:bound H_tls: the 8 combinations of CA, cert and key, each file there or missing, TLS disabled or not
//verif:bound H_load: documents with one mistake each through config.Load
//verif:assume runtime and stats.freq of zero are not settled here: the documentation allows them, the code says they must be greater than zero
//verif:assume the scope of a data key in two trx files is written in the same way

// valid returns a valid stage and its file.
func valid() (config.Stage, func()) {
	dir, err := os.MkdirTemp("", "c38")
	if err != nil {
		panic(err)
	}
	f := dir + "/t.sql"
	os.WriteFile(f, []byte("SELECT 1"), 0644)
	return config.Stage{Name: "n", File: dir + "/s.yaml", Trx: []config.Trx{{Name: "t", File: f}}}, func() { os.RemoveAll(dir) }
}

func ascii(n int) string {
	b := verif.Bytes("v", n)
	for i := 0; i < n; i++ {
		c := b[i]
		verif.Assume(c >= ' ')
		verif.Assume(c <= '~')
	}
	return b
}

func isUint(s string) bool { // "" or a 32-bit unsigned decimal number
	n := uint64(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < '0' || c > '9' {
			return false
		}
		n = n*10 + uint64(c-'0')
	}
	return n < 1<<32
}

func ints(s *config.Stage, g *config.ClientGroup) []*string {
	return []*string{&g.Clients, &g.Iter, &g.IterClients, &g.IterExecGroup, &g.QPS, &g.QPSClients, &g.QPSExecGroup,
		&g.TPS, &g.TPSClients, &g.TPSExecGroup, &s.QPS, &s.TPS, &s.Compute.Instances}
}

func checkInt(v string) {
	s, done := valid()
	defer done()
	s.Workload = []config.ClientGroup{{Clients: "1"}, {Clients: "2"}}
	all := ints(&s, &s.Workload[1])
	i := verif.Choose("setting", len(all))
	*all[i] = v
	err := s.Validate()
	ok := isUint(v)
	verif.Reach("int")
	verif.Assert((err == nil) == ok, "a number is accepted, and nothing else")
	if err != nil {
		return
	}
	for k, p := range ints(&s, &s.Workload[1]) {
		w := ""
		if k == 0 {
			w = "2"
		}
		if k == i {
			w = v
		}
		switch {
		case k == 0 && w == "", k == 12 && w == "":
			w = "1" // documented default
		case k == 12 && (w == "0" || w == "00" || w == "000"):
			w = "1"
		}
		verif.Assert(*p == w, "accepted unchanged")
	}
	verif.Assert(s.Workload[0].Clients == "1" && s.Name == "n" && len(s.Trx) == 1, "the rest as it was")
}

func H_int() {
	checkInt(ascii(verif.Choose("len", verif.Bound(4, 5))))
}

func H_int32() {
	b := ascii(2)
	p := "42949672" // 4294967295 is the largest
	if verif.Bool("longer") {
		p = "429496729"
	}
	checkInt(p + b)
}

// ---- durations ----

func checkDuration(v string, ok, any bool) {
	s, done := valid()
	defer done()
	s.Workload = []config.ClientGroup{{}}
	all := []*string{&s.Runtime, &s.Stats.Freq, &s.Workload[0].Runtime, &s.MySQL.TimeoutConnect}
	i := verif.Choose("setting", len(all))
	*all[i] = v
	err := s.Validate()
	verif.Reach("duration")
	if any {
		return
	}
	verif.Assert((err == nil) == ok, "a positive duration is accepted, and nothing else")
	if err == nil {
		verif.Assert(*[]*string{&s.Runtime, &s.Stats.Freq, &s.Workload[0].Runtime, &s.MySQL.TimeoutConnect}[i] == v, "accepted unchanged")
	}
}

// H_duration: one number and one unit, any bytes.
func H_duration() {
	const chars = "0159smhnu- x"
	n := 1 + verif.Choose("len", 3)
	var b []byte
	for i := 0; i < n; i++ {
		c := verif.Byte("c")
		in := false
		for k := 0; k < len(chars); k++ {
			in = in || c == chars[k]
		}
		verif.Assume(in)
		b = append(b, c)
	}
	// oracle: [digits][.digits] unit, one term; two terms need at least 4 bytes
	i, neg := 0, false
	if b[0] == '-' {
		neg = true
		i++
	}
	digits, zero, frac := 0, true, false
	for ; i < n; i++ {
		c := b[i]
		if c == '.' && !frac {
			frac = true
			continue
		}
		if c < '0' || c > '9' {
			break
		}
		digits++
		if c != '0' {
			zero = false
		}
	}
	u := string(b[i:])
	ok := digits > 0 && (u == "us" || u == "s" || u == "m" || u == "h" || u == "ms" || u == "ns")
	any := zero && (ok || u == "") // zero: see the assumption
	checkDuration(string(b), ok && !neg && !zero, any)
}

func H_durations() {
	good := []string{"1m30s", "1h1m1s", "100ms", "10us", "1.5h", "24h", "60s", "3600s"}
	bad := []string{"1", "60", "1d", "10 s", "s", "one", "-1m30s", "1m30", "1h-1m", "1,000s", "$x", "1s1"}
	i := verif.Choose("v", len(good)+len(bad))
	if i < len(good) {
		checkDuration(good[i], true, false)
	} else {
		checkDuration(bad[i-len(good)], false, false)
	}
}

// ---- trx ----

func H_trx() {
	s, done := valid()
	defer done()
	files := []string{s.Trx[0].File, s.Trx[0].File + "2", s.Trx[0].File + ".missing", ""}
	os.WriteFile(files[1], []byte("SELECT 2"), 0644)
	base := []string{"t.sql", "t.sql2"}
	names := []string{"", "a", "b"}
	gens := []string{"int", ""}
	scopes := []string{"statement", "global", "stage", "workload", "exec-group", "client-group", "client", "iter", "trx", "row", "value", "", "Trx", "session", "statement "}
	n := verif.Choose("n", 4)
	s.Trx = nil
	ok := n > 0
	byName := map[string]string{}
	scope := ""
	var want []config.Trx
	for i := 0; i < n; i++ {
		fi, ni := verif.Choose("file", 4), verif.Choose("name", 3)
		t := config.Trx{File: files[fi], Name: names[ni]}
		if fi > 1 {
			ok = false
		}
		w := t
		if ni == 0 && fi < 2 {
			w.Name = base[fi]
		}
		if f, is := byName[w.Name]; is && f != w.File {
			ok = false
		}
		byName[w.Name] = w.File
		if i < 2 && n <= verif.Bound(2, 3) && verif.Bool("data") {
			g, sc := verif.Choose("gen", 2), verif.Choose("scope", len(scopes))
			t.Data = map[string]config.Data{"d": {Generator: gens[g], Scope: scopes[sc]}}
			w.Data = t.Data
			if g == 1 || sc > 11 {
				ok = false
			}
			if scope != "" && scope != "x"+scopes[sc] {
				ok = false
				verif.Assume(!(scope == "x" && sc == 0 || scope == "xstatement" && sc == 11))
			}
			scope = "x" + scopes[sc]
		}
		s.Trx = append(s.Trx, t)
		want = append(want, w)
	}
	err := s.Validate()
	verif.Reach("trx")
	verif.Assert((err == nil) == ok, "trx with files, distinct names, generators and known scopes are accepted, and nothing else")
	if err == nil {
		for i := range want {
			verif.Assert(s.Trx[i].Name == want[i].Name && s.Trx[i].File == want[i].File, "trx unchanged; name defaults to the file name")
			verif.Assert(len(s.Trx[i].Data) == len(want[i].Data) && s.Trx[i].Data["d"].Scope == want[i].Data["d"].Scope, "data unchanged")
		}
	}
}

func H_workload() {
	s, done := valid()
	defer done()
	f := s.Trx[0].File
	s.Trx = []config.Trx{{Name: "a", File: f}, {File: f}}
	names := []string{"a", "t.sql", "x", ""}
	groups := []string{"", "g", "h"}
	n := verif.Choose("n", verif.Bound(4, 5))
	ok := true
	with, without := false, false
	var gs []string
	var ts []int
	for i := 0; i < n; i++ {
		g := groups[verif.Choose("group", 3)]
		gs = append(gs, g)
		c := config.ClientGroup{Group: g}
		k := verif.Choose("trx", 5) // 4: not given
		ts = append(ts, k)
		if k < 4 {
			c.Trx = []string{"a", names[k]}
			with = true
			if k > 1 {
				ok = false
			}
		} else {
			without = true
		}
		s.Workload = append(s.Workload, c)
	}
	if with && without {
		ok = false
	}
	for i := range gs { // a group name is used by consecutive client groups
		for j := i + 2; j < len(gs); j++ {
			if gs[i] != "" && gs[i] == gs[j] && gs[j-1] != gs[j] {
				ok = false
			}
		}
	}
	err := s.Validate()
	verif.Reach("workload")
	verif.Assert((err == nil) == ok, "known trx, consecutive groups and consistent assignments are accepted, and nothing else")
	if err == nil {
		for i := range gs {
			w := s.Workload[i]
			verif.Assert(w.Group == gs[i] && w.Clients == "1" && w.Iter == "" && w.Runtime == "", "client group unchanged; one client by default")
			verif.Assert(ts[i] == 4 && len(w.Trx) == 0 || len(w.Trx) == 2 && w.Trx[0] == "a" && w.Trx[1] == names[ts[i]], "trx of the client group unchanged")
		}
	}
}

// ---- the rest ----

func H_tls() {
	s, done := valid()
	defer done()
	dir := s.Trx[0].File
	ok := true
	var set [3]bool
	p := []*string{&s.MySQL.TLS.CA, &s.MySQL.TLS.Cert, &s.MySQL.TLS.Key}
	for i := range p {
		switch verif.Choose("file", 3) {
		case 1:
			*p[i] = dir // exists
			set[i] = true
		case 2:
			*p[i] = dir + "x"
			set[i] = true
			ok = false
		}
	}
	if set[1] != set[2] {
		ok = false
	}
	switch verif.Choose("disable", 3) {
	case 1:
		v := false
		s.MySQL.TLS.Disable = &v
	case 2:
		v := true
		s.MySQL.TLS.Disable = &v
		ok = true
	}
	err := s.Validate()
	verif.Reach("tls")
	verif.Assert((err == nil) == ok, "existing TLS files in a valid combination are accepted, and nothing else")
}

// H_disable: a disabled stage is not validated; defaults of stats.
func H_defaults() {
	s, done := valid()
	defer done()
	dis := verif.Bool("disable")
	s.Disable = dis
	bad := verif.Bool("bad")
	if bad {
		s.QPS = "x"
	}
	if verif.Bool("no-name") {
		s.Name = ""
	}
	rep := verif.Choose("report", 4)
	switch rep {
	case 1:
		s.Stats.Report = map[string]map[string]string{}
	case 2:
		s.Stats.Report = map[string]map[string]string{"csv": nil}
	case 3:
		s.Stats.Report = map[string]map[string]string{"csv": {"x": "y"}, "stdout": nil}
	}
	err := s.Validate()
	verif.Reach("defaults")
	verif.Assert((err == nil) == (dis || !bad), "only a disabled stage can be invalid")
	if dis || err != nil {
		return
	}
	verif.Assert(s.Name == "n" || s.Name == "s.yaml", "stage name defaults to the file name")
	verif.Assert(s.Stats.Freq == "0s", "one report by default")
	r := s.Stats.Report
	switch rep {
	case 0, 1:
		verif.Assert(len(r) == 1 && len(r["stdout"]) == 1 && r["stdout"]["each-instance"] == "true", "stdout report by default")
	case 2:
		verif.Assert(len(r) == 1 && r["csv"] != nil && len(r["csv"]) == 0, "report as given")
	case 3:
		verif.Assert(len(r) == 2 && r["csv"]["x"] == "y" && r["stdout"] != nil && len(r["stdout"]) == 0, "report as given")
	}
}

// H_load: files with one mistake each.
func H_load() {
	dir, err := os.MkdirTemp("", "c38")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	os.WriteFile(dir+"/t.sql", []byte("SELECT 1"), 0644)
	const trx = "  trx:\n    - file: t.sql\n      name: t\n"
	good := []string{
		"stage:\n" + trx,
		"stage:\n  qps: \"1,000\"\n" + trx,
		"stage:\n  qps: 1k\n" + trx,
		"stage:\n  disable: true\n",
		"stage:\n" + trx + "  workload:\n    - clients: 4\n      iter: 10\n",
		"stage:\n" + trx + "  workload:\n    - clients: 4\n      iter: \"1k\"\n      trx: [t]\n",
	}
	bad := []string{
		"stage:\n  unknown: 1\n" + trx,
		"stge:\n" + trx,
		"",
		"stage:\n  trx:\n",
		"stage:\n  trx:\n    - file: missing.sql\n",
		"stage:\n  trx:\n    - name: t\n",
		"stage:\n  qps: abc\n" + trx,
		"stage:\n  qps: -1\n" + trx,
		"stage:\n  qps: $params.x\n" + trx,
		"stage:\n" + trx + "  workload:\n    - clients: -4\n",
		"stage:\n" + trx + "  workload:\n    - clients: 4\n      iter: many\n",
		"stage:\n" + trx + "  workload:\n    - trx: [u]\n",
		"stage:\n" + trx + "  workload:\n    - client: 4\n",
		"stage:\n" + trx + "  runtime: 10\n",
		"stage:\n\t" + trx,
	}
	i := verif.Choose("doc", len(good)+len(bad))
	t := ""
	if i < len(good) {
		t = good[i]
	} else {
		t = bad[i-len(good)]
	}
	second := verif.Bool("second") // of two stages
	os.WriteFile(dir+"/s.yaml", []byte(t), 0644)
	files := []string{dir + "/s.yaml"}
	if second {
		os.WriteFile(dir+"/s0.yaml", []byte("stage:\n"+trx), 0644)
		files = []string{dir + "/s0.yaml", dir + "/s.yaml"}
	}
	s, err := config.Load(files, nil, "", "")
	verif.Reach("load")
	verif.Assert((err == nil) == (i < len(good)), "a valid file is accepted, an invalid one is not")
	if err == nil {
		verif.Assert(len(s) == len(files), "every stage")
	}
	_, err = config.Load([]string{dir + "/missing.yaml"}, nil, "", "")
	verif.Assert(err != nil, "a missing file is an error")
}
