// Package c41: what a remote instance runs.
package c41

//verif:bound H_files: 1-2 remotes and stages of 1-3 trx files (at most 2 with two remotes in the quick tier), each file any of 3 (two with the same base name), each with 1-2 statements with symbolic letters, or one local file; statements are those MySQL receives
//verif:bound H_lost: two files; any one or two of the first 8 requests GET /boot and GET /file lost, or their answers lost
//verif:bound H_config: every field of the stage configuration set, one text of 1 symbolic printable byte (2 thorough), or unset
//verif:bound H_missing: one of two files missing on the server
//verif:assume files of the server are on its own file system: they exist only while it handles a request
//verif:assume MySQL answers every command with OK; HTTP requests reach the handler of the API directly; time is virtual
//verif:opt * maxsteps=100000000
import (
	"context"
	"encoding/json"
	"net/http"
	"os"
	"reflect"
	"time"

	"github.com/square/finch/compute"
	"github.com/square/finch/config"
	"github.com/square/finch/zzverif/sys"
	"github.com/square/finch/zzverif/verif"
)

var yes = true

type world struct {
	dir string
	s   *compute.Server
	my  *sys.MySQL
	net *sys.Net
	cfg config.Stage
}

func start(instances string) *world {
	w := &world{}
	var err error
	w.dir, err = os.MkdirTemp("", "c41")
	verif.Assert(err == nil, "temp dir")
	os.Mkdir(w.dir+"/x", 0700)
	os.Mkdir(w.dir+"/y", 0700)
	s, api := sys.Server(false)
	w.s = s
	w.my = &sys.MySQL{}
	w.my.Listen()
	w.net = &sys.Net{API: api, Files: map[string]string{}}
	w.net.Use()
	w.cfg = config.Stage{Name: "s", File: w.dir + "/s.yaml", Compute: config.Compute{DisableLocal: true, Instances: instances},
		Stats: config.Stats{Disable: &yes, Report: map[string]map[string]string{"stdout": {}}}, MySQL: config.MySQL{DSN: "u@fake(x)/"}}
	return w
}

func (w *world) add(file string) {
	w.cfg.Trx = append(w.cfg.Trx, config.Trx{Name: string(rune('A' + len(w.cfg.Trx))), File: w.dir + "/" + file})
}

// run runs the stage with remotes.
func (w *world) run(remotes int) {
	g := config.ClientGroup{Clients: "1", Iter: "1", DisableStats: true}
	for _, t := range w.cfg.Trx {
		g.Trx = append(g.Trx, t.Name)
	}
	w.cfg.Workload = []config.ClientGroup{g}
	ret := make(chan error, remotes+1)
	go func() { ret <- w.s.Run(context.Background(), []config.Stage{w.cfg}) }()
	time.Sleep(time.Millisecond)
	for i := 0; i < remotes; i++ {
		c := compute.NewClient("r"+string(rune('1'+i)), "server")
		go func() { ret <- c.Run(context.Background()) }()
	}
	for i := 0; i <= remotes; i++ {
		verif.Assert(<-ret == nil, "no error")
	}
}

func (w *world) check(want []string, remotes int) {
	got := w.my.Queries
	verif.Assert(len(got) == len(want)*remotes, "number of statements")
	if remotes == 1 {
		for i := range want {
			verif.Assert(got[i] == want[i], "the statements of the server's files, each in its trx, in order")
		}
		return
	}
	for i := range want {
		n := 0
		for k := range got {
			if got[k] == want[i] {
				n++
			}
		}
		m := 0
		for k := range want {
			if want[k] == want[i] {
				m++
			}
		}
		verif.Assert(n == m*remotes, "every remote runs the statements of the server's files")
	}
}

func letters(k string, n int) string {
	b := verif.Bytes(k, n)
	for i := 0; i < n; i++ {
		verif.Assume(b[i] >= 'a')
		verif.Assume(b[i] <= 'z')
	}
	return b
}

func H_files() {
	remotes := 1 + verif.Choose("remotes", 2)
	w := start(string(rune('0' + remotes)))
	defer os.RemoveAll(w.dir)
	files := []string{"x/t.sql", "y/t.sql", "x/u.sql"}
	sql := [][]string{{"insert " + letters("x", 1), "insert 2"}, {"insert " + letters("y", 1)}, {"update z"}}
	for i, f := range files {
		all := ""
		for k, q := range sql[i] {
			if k > 0 {
				all += "\n\n"
			}
			all += q
		}
		w.net.Files[w.dir+"/"+f] = all + "\n"
	}
	n := 1 + verif.Choose("trx", 3)
	if remotes == 2 && n > 2 && !verif.Thorough() {
		n = 2
	}
	var want []string
	for i := 0; i < n; i++ {
		f := verif.Choose("file", 4)
		if f == 3 { // the remote has it
			os.WriteFile(w.dir+"/local.sql", []byte("delete x\n"), 0600)
			w.add("local.sql")
			want = append(want, "delete x")
			continue
		}
		w.add(files[f])
		want = append(want, sql[f]...)
	}
	w.run(remotes)
	verif.Reach("files")
	w.check(want, remotes)
}

func H_lost() {
	w := start("1")
	defer os.RemoveAll(w.dir)
	w.net.Files[w.dir+"/x/t.sql"] = "insert 1\n"
	w.net.Files[w.dir+"/y/t.sql"] = "insert 2\n"
	w.add("x/t.sql")
	w.add("y/t.sql")
	k := 0
	faults := 0
	w.net.Fault = func(n int, r *http.Request) string {
		if r.Method != "GET" || r.URL.Path != "/boot" && r.URL.Path != "/file" {
			return ""
		}
		k++
		if k > 8 || faults == 2 {
			return ""
		}
		f := verif.Choose("fault", 3)
		if f > 0 {
			faults++
		}
		return []string{"", "lost", "answer lost"}[f]
	}
	w.run(1)
	verif.Reach("lost")
	w.check([]string{"insert 1", "insert 2"}, 1)
}

func H_missing() {
	w := start("1")
	defer os.RemoveAll(w.dir)
	which := verif.Choose("missing", 2)
	for i, f := range []string{"x/t.sql", "y/t.sql"} {
		if i != which {
			w.net.Files[w.dir+"/"+f] = "insert 1\n"
		}
		w.add(f)
	}
	w.cfg.Workload = []config.ClientGroup{{Clients: "1", Iter: "1", Trx: []string{"A", "B"}}}
	ctx, cancel := context.WithCancel(context.Background())
	ret := make(chan error, 1)
	go func() { ret <- w.s.Run(ctx, []config.Stage{w.cfg}) }()
	time.Sleep(time.Millisecond)
	c := compute.NewClient("r", "server")
	verif.Assert(c.Run(context.Background()) == nil, "returns")
	verif.Reach("missing")
	verif.Assert(len(w.my.Queries) == 0 && w.my.Conns == 0, "nothing is run")
	for _, l := range w.net.Log {
		verif.Assert(l != "POST /boot" && l != "GET /run", "and not booted")
	}
	verif.Assert(len(ret) == 0, "the server waits for another remote")
	cancel()
	verif.Assert(<-ret == nil, "server ends")
}

// H_config: the configuration arrives as it is.
func H_config() {
	w := start("1")
	defer os.RemoveAll(w.dir)
	no := false
	t := verif.Bytes("text", verif.Bound(1, 2))
	for i := 0; i < len(t); i++ {
		verif.Assume(t[i] >= ' ')
		verif.Assume(t[i] <= '~')
	}
	c := &w.cfg
	if verif.Bool("all") {
		c.N = 7
		c.QPS, c.TPS, c.Runtime = "1", "2", "3s"
		c.Params = map[string]string{"p": "1", "q": ""}
		c.Stats = config.Stats{Disable: &no, Freq: "1s", Report: map[string]map[string]string{"csv": {"file": "f"}, "stdout": {"a": "b", "c": ""}}}
		c.MySQL = config.MySQL{Db: "db", DSN: "dsn", Hostname: "h", MyCnf: "m", Password: "pw", PasswordFile: "pf", Socket: "s", TimeoutConnect: "1s",
			TLS: config.TLS{CA: "ca", Cert: "ce", Key: "k", SkipVerify: &yes, Disable: &no, MySQLMode: "x"}, Username: "u", DisableAutoTLS: &yes}
		c.Trx = []config.Trx{{Name: "t", File: "f", Data: map[string]config.Data{"d": {Name: "n", Generator: "g", Scope: "row", Params: map[string]string{"a": "1"}}}}, {Name: "t2", File: "f2"}}
		c.Workload = []config.ClientGroup{{Clients: "1", Db: "d", DisableStats: true, Iter: "2", IterClients: "3", IterExecGroup: "4", Group: "g", QPS: "5", QPSClients: "6", QPSExecGroup: "7",
			Runtime: "8s", TPS: "9", TPSClients: "10", TPSExecGroup: "11", Trx: []string{"t", "t2"}}, {}}
		switch verif.Choose("where", 9) {
		case 0:
			c.Name = t
		case 1:
			c.MySQL.Password = t
		case 2:
			c.MySQL.DSN = t
		case 3:
			c.Params["p"] = t
		case 4:
			c.Params[t] = "x"
		case 5:
			c.Trx[0].Data["d"].Params["a"] = t
		case 6:
			c.Trx[1].File = t
		case 7:
			c.Workload[1].Trx = []string{t}
		case 8:
			c.Stats.Report["csv"]["file"] = t
		}
	}
	go w.s.Run(context.Background(), []config.Stage{*c})
	time.Sleep(time.Millisecond)
	r := sys.Start(w.net.API, context.Background(), "GET", "/boot", "name=r&stage-id=", "")
	time.Sleep(300 * time.Millisecond)
	verif.Assert(r.Ended && r.Code == 200, "boot")
	var got config.Stage
	verif.Assert(json.Unmarshal(r.Body, &got) == nil, "a stage")
	verif.Reach("config")
	verif.Assert(got.Id != "", "stage ID")
	want := *c
	want.Id = got.Id
	verif.Assert(got.Name == want.Name && reflect.DeepEqual(got.Params, want.Params) && got.N == want.N, "name and parameters")
	verif.Assert(reflect.DeepEqual(got.MySQL, want.MySQL), "MySQL")
	verif.Assert(reflect.DeepEqual(got.Trx, want.Trx), "trx")
	verif.Assert(reflect.DeepEqual(got.Workload, want.Workload), "workload")
	verif.Assert(reflect.DeepEqual(got, want), "everything")
}
