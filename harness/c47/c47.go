// Package c47: the command line.
package c47

//verif:bound H_options: 1-2 stage files in any order; --param (thorough: twice, the second for another param), --database, --dsn, --test and (with it) --server given or not, in their short, long or = form or (except --param) in the environment, before or after the files; the value of the param symbolic
//verif:bound H_dirs: 2 directories with a stage file, trx file and perhaps _all.yaml of the same names, given in any order, one of them perhaps twice, by absolute or relative paths from either directory or their parent; the value of one of the params symbolic
//verif:bound H_interrupt: 2 stages; CTRL-C at any of 51 times (symbolic, every 100 ms), queries take 300 ms, or the last one before CTRL-C never ends; H_usage: no file, unknown options, missing values, --help, --version, an invalid file among valid ones; H_fail: 1 of 3 stages has an unknown generator, data key or modifier, or cannot connect
//verif:assume MySQL answers every command with OK; time is virtual
//verif:opt * maxsteps=100000000
//verif:opt H_interrupt native=no
//verif:opt H_usage validate=no
import (
	"context"
	"errors"
	"net"
	"os"
	"strings"
	"time"

	"github.com/go-sql-driver/mysql"
	"github.com/square/finch/boot"
	"github.com/square/finch/zzverif/sys"
	"github.com/square/finch/zzverif/verif"
)

type world struct {
	dir       string
	my, other *sys.MySQL
}

func start(iter string) *world {
	w := &world{my: &sys.MySQL{}, other: &sys.MySQL{}}
	var err error
	w.dir, err = os.MkdirTemp("", "c47")
	verif.Assert(err == nil, "temp dir")
	for _, v := range []string{"FINCH_CLIENT", "FINCH_CPU_PROFILE", "FINCH_DB", "FINCH_DEBUG", "FINCH_DSN", "FINCH_SERVER", "FINCH_TEST"} {
		os.Unsetenv(v)
	}
	w.my.ListenAt("fake")
	w.other.ListenAt("other")
	for _, k := range []string{"1", "2"} {
		os.WriteFile(w.file(k), []byte("stage:\n  name: s"+k+"\n  params:\n    n: "+iter+"\n    m: 1\n  mysql:\n    dsn: u@fake(x)/\n  stats:\n    disable: true\n  workload:\n    - iter: $params.n\n      clients: $params.m\n  trx:\n    - file: t"+k+".sql\n"), 0600)
		os.WriteFile(w.dir+"/t"+k+".sql", []byte("insert "+k+"\n"), 0600)
	}
	return w
}

func (w *world) file(k string) string { return w.dir + "/s" + k + ".yaml" }

func (w *world) end() { os.RemoveAll(w.dir) }

// inserts is the order of the queries of the stages.
func inserts(my *sys.MySQL) string {
	s := ""
	for _, q := range my.Queries {
		if strings.HasPrefix(q, "insert ") {
			s += q[7:]
		}
	}
	return s
}

// option gives an option in one of its forms.
func option(opts []string, name, long, short, env, val string) []string {
	n := 2
	if env != "" {
		n++
	}
	if short != "" {
		n++
	}
	k := 0
	if env != "FINCH_TEST" {
		k = verif.Choose(name, n)
	} else {
		k = verif.Choose(name, 2) * 2
	}
	switch {
	case k == 0 && val == "":
		return append(opts, long)
	case k == 0:
		return append(opts, long, val)
	case k == 1:
		return append(opts, long+"="+val)
	case k == 2 && env != "":
		if val == "" {
			val = "true"
		}
		os.Setenv(env, val)
		return opts
	default:
		return append(opts, short, val)
	}
}

func H_options() {
	w := start("1")
	defer w.end()
	var opts, files []string
	n, m := 1, 1
	if verif.Choose("param", 2) == 1 {
		v := verif.Bytes("n", 1)
		verif.Assume(v[0] >= '1')
		verif.Assume(v[0] <= '3')
		n = int(v[0] - '0')
		opts = option(opts, "param form", "--param", "-p", "", "n="+v)
		if verif.Thorough() && verif.Choose("params", 2) == 1 {
			m = 2
			opts = option(opts, "param form", "--param", "-p", "", "m=2")
		}
	}
	db := verif.Choose("db", 2) == 1
	if db {
		opts = option(opts, "db form", "--database", "-D", "FINCH_DB", "d")
	}
	my := w.my
	if verif.Choose("dsn", 2) == 1 {
		my = w.other
		opts = option(opts, "dsn form", "--dsn", "", "FINCH_DSN", "u@other(x)/")
	}
	test := verif.Choose("test", 2) == 1
	if test {
		opts = option(opts, "test form", "--test", "", "FINCH_TEST", "")
		if verif.Choose("server", 2) == 1 {
			opts = option(opts, "server form", "--server", "", "FINCH_SERVER", "127.0.0.1:0")
		}
	}
	want := []string{"1", "12", "21"}[verif.Choose("files", verif.Bound(2, 3))+verif.Bound(1, 0)]
	for i := range want {
		files = append(files, w.file(want[i:i+1]))
	}
	args := []string{"finch"}
	if verif.Choose("after", 2) == 1 {
		args = append(append(args, files...), opts...)
	} else {
		args = append(append(args, opts...), files...)
	}
	err := boot.Up(boot.Env{Args: args})
	verif.Reach("end")
	verif.Assert(err == nil, "no error")
	all := ""
	if !test {
		for i := range want {
			all += strings.Repeat(want[i:i+1], n*m)
		}
	}
	verif.Assert(inserts(my) == all, "every stage runs in the order given, with the params of the command line; with --test none does")
	verif.Assert(my.Conns > 0, "connections are made")
	verif.Assert(my == w.my && w.other.Conns == 0 || my == w.other && w.my.Conns == 0, "--dsn overrides the stage files")
	use := 0
	for i, q := range my.Queries {
		if strings.HasPrefix(q, "USE ") {
			verif.Assert(q == "USE `d`", "the default database is the one of --database")
			use++
		}
		verif.Assert(!strings.HasPrefix(q, "insert ") || !db || use > 0, "the default database is set before queries")
		_ = i
	}
	verif.Assert(db || use == 0, "no default database unless set")
	verif.Assert(!db || test || use == len(want)*m, "every client uses the default database")
}

// H_dirs: stage files in several directories.
func H_dirs() {
	w := start("1")
	defer w.end()
	cwd, err := os.Getwd()
	verif.Assert(err == nil, "cwd")
	defer os.Chdir(cwd)
	os.WriteFile(w.dir+"/out", nil, 0600)
	name := map[string]string{}
	for _, d := range []string{"a", "b"} {
		x := "a"
		if d == "b" {
			x = verif.Bytes("param", 1)
			verif.Assume(x[0] >= 'a')
			verif.Assume(x[0] <= 'z')
		}
		os.MkdirAll(w.dir+"/"+d+"/t", 0700)
		if d == "b" || verif.Choose("base", 2) == 1 {
			os.WriteFile(w.dir+"/"+d+"/_all.yaml", []byte("params:\n  x: base-"+x+"\n"), 0600)
			name[d] = "base-" + x
		}
		own := ""
		if name[d] == "" || verif.Choose("own", 2) == 1 {
			own = "  params:\n    x: own-" + x + "\n"
			name[d] = "own-" + x
		}
		// the same relative names in both directories
		os.WriteFile(w.dir+"/"+d+"/s.yaml", []byte("stage:\n  name: $params.x\n"+own+"  mysql:\n    dsn: u@fake(x)/\n  stats:\n    disable: true\n  workload:\n    - iter: 1\n      db: $params.x\n  trx:\n    - file: t/t.sql\n"), 0600)
		os.WriteFile(w.dir+"/"+d+"/t/t.sql", []byte("insert "+d+"\n"), 0600)
	}
	at := verif.Choose("in", 3)
	os.Chdir([]string{w.dir, w.dir + "/a", w.dir + "/b"}[at])
	order := []string{"ab", "ba", "aba", "abb"}[verif.Choose("order", verif.Bound(3, 4))]
	args := []string{"finch"}
	want := ""
	for i := range order {
		d := order[i : i+1]
		f := w.dir + "/" + d + "/s.yaml"
		if i < 2 && verif.Choose("relative", 2) == 1 {
			f = []string{d + "/s.yaml", "../" + d + "/s.yaml", "./../" + d + "/s.yaml"}[at]
		}
		args = append(args, f)
		want += "USE `" + name[d] + "`,insert " + d + ","
	}
	err = boot.Up(boot.Env{Args: args})
	verif.Reach("end")
	verif.Assert(err == nil, "no error")
	got := ""
	for _, q := range w.my.Queries {
		got += q + ","
	}
	verif.Assert(got == want, "every stage runs with the files of its own directory")
}

func H_interrupt() {
	w := start("5")
	defer w.end()
	w.my.Delay = 300 * time.Millisecond
	k, at := verif.Int("interrupt", 0, 50), time.Duration(0)
	hang := verif.Choose("hang", 2) == 1
	ret := make(chan error, 1)
	go func() { ret <- boot.Up(boot.Env{Args: []string{"finch", w.file("1"), w.file("2")}}) }()
	time.Sleep(time.Millisecond)
	if hang {
		w.my.Delay = time.Hour
	}
	for i := 0; i < k; i++ {
		time.Sleep(100 * time.Millisecond)
		at += 100 * time.Millisecond
	}
	select {
	case <-ret:
		verif.Assert(at >= 3*time.Second, "runs until CTRL-C")
		verif.Assert(inserts(w.my) == "1111122222", "both stages run")
		return
	default:
	}
	n, conns := len(inserts(w.my)), w.my.Conns
	t0 := time.Now()
	verif.Interrupt()
	select {
	case err := <-ret:
		verif.Reach("end")
		verif.Assert(err == nil, "CTRL-C is not an error")
		verif.Assert(time.Since(t0) < 7500*time.Millisecond, "ends soon after CTRL-C")
	case <-time.After(8 * time.Second):
		verif.Fail("ends soon after CTRL-C")
	}
	if hang && at < 1500*time.Millisecond {
		verif.Assert(!strings.Contains(inserts(w.my), "2"), "no further stage is run")
	}
	verif.Assert(n < 1 || n > 4 || w.my.Conns == conns, "no connections for a further stage")
	verif.Assert(len(inserts(w.my)) <= n+1, "no further queries are executed")
}

func H_usage() {
	w := start("1")
	defer w.end()
	os.WriteFile(w.dir+"/bad.yaml", []byte("stage:\n  trx:\n    - file: t1.sql\n  nope: 1\n"), 0600)
	f := w.file("1")
	k := verif.Choose("args", 12)
	args := [][]string{{}, {"--nope", f}, {f, "--nope"}, {"-p"}, {f, "--dsn"}, {f, w.dir + "/bad.yaml"}, {w.dir + "/bad.yaml", f}, {f, w.dir + "/none.yaml"},
		{"--help"}, {f, "--help"}, {"--version"}, {f, "--version"}}[k]
	ok, ended := false, false
	func() {
		defer func() {
			if !ended {
				recover()
			}
		}()
		ok = boot.Up(boot.Env{Args: append([]string{"finch"}, args...)}) == nil
		ended = true
	}()
	verif.Reach("end")
	verif.Assert(len(w.my.Queries) == 0 && w.my.Conns == 0, "nothing is run")
	verif.Assert(ok == (k >= 8), "wrong usage is an error; --help and --version are not")
}

// H_fail: a stage that cannot run ends the run.
func H_fail() {
	w := start("1")
	defer w.end()
	bad := "stage:\n  name: bad\n  mysql:\n    dsn: u@DSN(x)/\n  stats:\n    disable: true\n  workload:\n    - iter: 1\n  trx:\n    - file: bad.sql\n      data:\n        d:\n          generator: GEN\n"
	why := verif.Choose("why", 4)
	dsn, gen, sql := "fake", "int", "insert @d\n"
	switch why {
	case 0:
		gen = "none"
	case 1:
		dsn = "nowhere"
		mysql.RegisterDialContext(dsn, func(context.Context, string) (net.Conn, error) { return nil, errors.New("connection refused") })
	case 2:
		sql = "insert @e\n"
	case 3:
		sql = "-- nope: 1\ninsert @d\n"
	}
	os.WriteFile(w.dir+"/bad.yaml", []byte(strings.Replace(strings.Replace(bad, "DSN", dsn, 1), "GEN", gen, 1)), 0600)
	os.WriteFile(w.dir+"/bad.sql", []byte(sql), 0600)
	args := []string{"finch"}
	at := verif.Choose("at", 3)
	for i, k := range []string{"1", "2"} {
		if i == at {
			args = append(args, w.dir+"/bad.yaml")
		}
		args = append(args, w.file(k))
	}
	if at == 2 {
		args = append(args, w.dir+"/bad.yaml")
	}
	if verif.Choose("test", 2) == 1 {
		args = append(args, "--test")
	}
	err := boot.Up(boot.Env{Args: args})
	verif.Reach("end")
	verif.Assert(err != nil, "a stage that cannot run is an error")
	got := inserts(w.my)
	verif.Assert(len(got) <= at && strings.HasPrefix("12", got), "no stage after it is run")
}
