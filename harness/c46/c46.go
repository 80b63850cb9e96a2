// Package c46: a stage does the work that its configuration says, and reports it.
package c46

//verif:bound H_work: 1-2 client groups in 1-2 execution groups, each with 1-2 clients, one iteration limit (iter, iter-clients or iter-exec-group; any one of 1..3, symbolic digit), trx a (2 inserts), b (begin, insert, commit), or both, statistics on or off per group (quick: the second group has 1 client that runs both)
//verif:bound H_rate: one limit (qps or tps, of the stage, execution group, client group, or client) of any rate 4..9 per second (symbolic digit), 2 clients running for 2 seconds, perhaps a second client group without that limit
//verif:bound H_remote: the local instance and 1-2 remotes, or 2 remotes; 2 clients with any iteration limit 1..9 (symbolic digit) and statistics, 1 without; stats.freq unset, 500ms, 1s; the end is not within 0.6 of stats.freq after a periodic collection (known finding C34-tail)
//verif:bound H_lossy: the local and a remote instance, or only that, with 1 client with any iteration limit 1..9 (symbolic digit); the first and second request that sends statistics succeed, are lost, or their answer is
//verif:bound H_disabled: the local and a remote instance, or only that, with 1 client with any iteration limit 1..9 (symbolic digit); statistics disabled or not, stats.freq unset or 500ms
//verif:bound H_outage: one remote instance with 7..9 iterations (symbolic digit), stats.freq 500ms; 0-2 intervals cannot be sent, after 0-2 requests that succeed; up to 3 queries at the end may be missing (known finding C34-tail)
//verif:assume MySQL answers every command with OK, in H_work at once, in H_rate after 20 ms; time is virtual
//verif:opt * maxsteps=100000000 fp=fork
//verif:opt H_rate validate=no
import (
	"context"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/square/finch/compute"
	"github.com/square/finch/config"
	"github.com/square/finch/stats"
	"github.com/square/finch/zzverif/sys"
	"github.com/square/finch/zzverif/verif"
)

// report is what was reported.
type report struct {
	in []stats.Instance
	n  map[string][4]uint64
}

func (r *report) Make(string, map[string]string) (stats.Reporter, error) { return r, nil }
func (r *report) Report(from []stats.Instance) {
	for _, in := range from {
		r.in = append(r.in, in)
		add := func(k string, s *stats.Stats) {
			n := r.n[k]
			for i := range n {
				n[i] += s.N[i]
			}
			r.n[k] = n
		}
		add("", in.Total)
		for k, s := range in.Trx {
			add(k, s)
		}
	}
}
func (r *report) Stop() {}

type world struct {
	dir string
	my  *sys.MySQL
	rep *report
	cfg config.Stage
}

func start() *world {
	w := &world{my: &sys.MySQL{}, rep: &report{n: map[string][4]uint64{}}}
	var err error
	w.dir, err = os.MkdirTemp("", "c46")
	verif.Assert(err == nil, "temp dir")
	w.my.Listen()
	for f, s := range map[string]string{"a": "insert a1\n\ninsert a2\n", "b": "begin\n\ninsert b1\n\ncommit\n"} {
		os.WriteFile(w.dir+"/"+f+".sql", []byte(s), 0600)
	}
	verif.Assert(stats.Register("c46", w.rep) == nil, "register")
	w.cfg = config.Stage{Name: "s", File: w.dir + "/s.yaml", N: 1,
		Compute: config.Compute{Instances: "1"},
		Stats:   config.Stats{Report: map[string]map[string]string{"c46": {}}},
		MySQL:   config.MySQL{DSN: "u@fake(x)/"},
		Trx:     []config.Trx{{Name: "a", File: w.dir + "/a.sql"}, {Name: "b", File: w.dir + "/b.sql"}},
	}
	return w
}

// run runs the stage, and counts the queries.
func (w *world) run() map[string]int {
	ret := make(chan error, 1)
	go func() { ret <- compute.NewServer("local", "", false).Run(context.Background(), []config.Stage{w.cfg}) }()
	select {
	case err := <-ret:
		verif.Assert(err == nil, "no error")
	case <-time.After(time.Minute):
		verif.Fail("the stage ends")
	}
	n := map[string]int{}
	for _, q := range w.my.Queries {
		n[q]++
	}
	return n
}

func digit(name string, lo, hi byte) (string, int) {
	s := verif.Bytes(name, 1)
	verif.Assume(s[0] >= '0'+lo)
	verif.Assume(s[0] <= '0'+hi)
	return s, int(s[0] - '0')
}

func H_work() {
	w := start()
	defer os.RemoveAll(w.dir)
	groups := 1 + verif.Choose("groups", 2)
	var wantA, wantB, statA, statB int
	some := false // statistics
	for i := 0; i < groups; i++ {
		nc := 1
		if i == 0 || verif.Thorough() {
			nc += verif.Choose("clients", 2)
		}
		g := config.ClientGroup{Clients: string(rune('0' + nc)), Group: "x"}
		if i == 1 && verif.Choose("other execution group", 2) == 1 {
			g.Group = "y"
		}
		d, n := digit("iter", 1, 3)
		switch k := verif.Choose("limit", 3); {
		case k == 0:
			g.Iter = d
			n *= nc
		case k == 1:
			g.IterClients = d
		case i == 0 || g.Group == "y":
			g.IterExecGroup = d
		default:
			g.IterClients = d
		}
		a, b := 0, 0
		trx := 0
		if i == 0 || verif.Thorough() {
			trx = verif.Choose("trx", 3)
		}
		switch trx {
		case 0:
			g.Trx, a, b = nil, 1, 1
		case 1:
			g.Trx, a = []string{"a"}, 1
		case 2:
			g.Trx, b = []string{"b"}, 1
		}
		g.DisableStats = verif.Choose("disable stats", 2) == 1
		wantA += a * n
		wantB += b * n
		if !g.DisableStats {
			some = true
			statA += a * n
			statB += b * n
		}
		w.cfg.Workload = append(w.cfg.Workload, g)
	}
	n := w.run()
	verif.Reach("end")
	verif.Assert(n["insert a1"] == wantA && n["insert a2"] == wantA, "every client executes its trx as often as its limit says")
	verif.Assert(n["begin"] == wantB && n["insert b1"] == wantB && n["commit"] == wantB, "every client executes its trx as often as its limit says")
	verif.Assert(!some || len(w.rep.in) == 1, "statistics are reported once")
	check := func(k string, write, commit, total int) {
		c := w.rep.n[k]
		verif.Assert(c[stats.READ] == 0 && c[stats.WRITE] == uint64(write) && c[stats.COMMIT] == uint64(commit) && c[stats.TOTAL] == uint64(total), "exactly the queries of clients with statistics are reported")
	}
	check("a", 2*statA, 0, 2*statA)
	check("b", statB, statB, 3*statB)
	check("", 2*statA+statB, statB, 2*statA+3*statB)
}

func H_rate() {
	w := start()
	defer os.RemoveAll(w.dir)
	w.my.Delay = 20 * time.Millisecond
	w.cfg.Runtime = "2s"
	g := config.ClientGroup{Clients: "2", Group: "x", Trx: []string{"b"}}
	d, n := digit("rate", 4, 9)
	qps := verif.Choose("tps", 2) == 0
	level := verif.Choose("level", 4)
	set := func(q, t *string) {
		if qps {
			*q = d
		} else {
			*t = d
		}
	}
	switch level {
	case 0:
		set(&w.cfg.QPS, &w.cfg.TPS)
	case 1:
		set(&g.QPSExecGroup, &g.TPSExecGroup)
	case 2:
		set(&g.QPSClients, &g.TPSClients)
	case 3:
		set(&g.QPS, &g.TPS)
		n *= 2
	}
	w.cfg.Workload = []config.ClientGroup{g}
	second := verif.Choose("other clients", 2) == 1
	if second {
		w.cfg.Workload = append(w.cfg.Workload, config.ClientGroup{Clients: "1", Group: "x", Trx: []string{"a"}})
	}
	t0 := time.Now()
	c := w.run()
	verif.Reach("end")
	verif.Assert(time.Since(t0) >= 2*time.Second && time.Since(t0) < 3*time.Second, "runs for its runtime")
	own, other := 0, c["insert a1"]+c["insert a2"]
	if qps {
		own = c["begin"] + c["insert b1"] + c["commit"]
	} else {
		own = c["begin"]
	}
	all := own
	if second {
		if level < 2 && qps {
			all += other
		} else if level >= 2 {
			verif.Assert(other > 60, "other clients are not limited")
		}
	}
	verif.Assert(all <= 2*n+4, "no more than the configured rate")
	verif.Assert(all >= 2*n-4, "the configured rate is reached")
	verif.Assert(strings.Contains(strings.Join(w.my.Queries, ","), "insert b1"), "clients work")
}

// H_remote: the server reports the work of all instances.
func H_remote() {
	w := start()
	defer os.RemoveAll(w.dir)
	w.my.Delay = 100 * time.Millisecond
	s, api := sys.Server(false)
	net := &sys.Net{API: api}
	net.Use()
	remotes := 1 + verif.Choose("remotes", 2)
	local := remotes == 1 || verif.Choose("local", 2) == 1
	inst := remotes
	if local {
		inst++
	}
	w.cfg.Compute = config.Compute{DisableLocal: !local, Instances: string(rune('0' + inst))}
	w.cfg.Stats.Freq = []string{"", "500ms", "1s"}[verif.Choose("freq", 3)]
	d, n := digit("iter", 1, 9)
	if f, _ := time.ParseDuration(w.cfg.Stats.Freq); f > 0 {
		end := time.Duration(n) * 300 * time.Millisecond
		verif.Assume(end < f || end%f > f*6/10) // else C34-tail
	}
	w.cfg.Workload = []config.ClientGroup{{Clients: "2", Iter: d, Trx: []string{"b"}}, {Clients: "1", Iter: "2", Trx: []string{"a"}, DisableStats: true}}
	ctx, cancel := context.WithCancel(context.Background())
	ret := make(chan error, 1)
	go func() { ret <- s.Run(ctx, []config.Stage{w.cfg}) }()
	time.Sleep(time.Millisecond)
	for i := 0; i < remotes; i++ {
		name := "r" + string(rune('1'+i))
		go func() { compute.NewClient(name, "server").Run(ctx) }()
	}
	select {
	case err := <-ret:
		verif.Assert(err == nil, "no error")
	case <-time.After(time.Minute):
		verif.Fail("the server ends")
	}
	time.Sleep(time.Second)
	cancel()
	verif.Reach("end")
	c := map[string]int{}
	for _, q := range w.my.Queries {
		c[q]++
	}
	verif.Assert(c["insert b1"] == 2*n*inst && c["insert a1"] == 2*inst, "every instance does all the work of the stage")
	got := w.rep.n["b"]
	verif.Assert(got[stats.COMMIT] == uint64(2*n*inst) && got[stats.WRITE] == uint64(2*n*inst) && got[stats.TOTAL] == uint64(6*n*inst), "every query of every instance is reported once")
	verif.Assert(w.rep.n[""] == got, "the total is the total of the trx")
	_, ok := w.rep.n["a"]
	verif.Assert(!ok, "trx without statistics are not reported")
}

// H_lossy: reporting on an unreliable network.
func H_lossy() {
	w := start()
	defer os.RemoveAll(w.dir)
	w.my.Delay = 10 * time.Millisecond
	s, api := sys.Server(false)
	net := &sys.Net{API: api}
	net.Use()
	first, second := verif.Choose("first", 3), verif.Choose("second", 3) // requests that send the statistics
	k := 0
	net.Fault = func(_ int, r *http.Request) string {
		if !strings.HasSuffix(r.URL.Path, "/stats") {
			return ""
		}
		k++
		switch k {
		case 1:
			return []string{"", "lost", "answer lost"}[first]
		case 2:
			return []string{"", "lost", "answer lost"}[second]
		}
		return ""
	}
	local := verif.Choose("local", 2) == 1
	inst := 1
	if local {
		inst++
	}
	d, n := digit("iter", 1, 9)
	w.cfg.Compute = config.Compute{DisableLocal: !local, Instances: string(rune('0' + inst))}
	w.cfg.Workload = []config.ClientGroup{{Clients: "1", Iter: d, Trx: []string{"b"}}}
	ctx, cancel := context.WithCancel(context.Background())
	ret := make(chan error, 1)
	go func() { ret <- s.Run(ctx, []config.Stage{w.cfg}) }()
	time.Sleep(time.Millisecond)
	end := make(chan bool)
	sent := false
	go func() {
		compute.NewClient("r", "server").Run(ctx)
		sent = strings.Contains(strings.Join(net.Log, ","), "/stats")
		close(end)
	}()
	select {
	case err := <-ret:
		verif.Assert(err == nil, "no error")
	case <-time.After(time.Minute):
		verif.Fail("the server ends")
	}
	<-end
	cancel()
	verif.Reach("end")
	verif.Assert(sent, "a remote does not end before its statistics are sent")
	got := w.rep.n["b"]
	verif.Assert(got[stats.COMMIT] == uint64(n*inst) && got[stats.TOTAL] == uint64(3*n*inst), "every query of every instance is reported once, although requests are lost")
	verif.Assert(len(w.rep.in) == inst, "every instance is reported once")
}

// H_outage: statistics that cannot be sent for a while do not affect later ones.
func H_outage() {
	w := start()
	defer os.RemoveAll(w.dir)
	w.my.Delay = 100 * time.Millisecond
	s, api := sys.Server(false)
	net := &sys.Net{API: api}
	net.Use()
	from, j := verif.Choose("from", 3), verif.Choose("intervals", 3)
	k := 0
	net.Fault = func(_ int, r *http.Request) string {
		if !strings.HasSuffix(r.URL.Path, "/stats") {
			return ""
		}
		k++
		if k > from && k <= from+3*j {
			return "lost"
		}
		return ""
	}
	d, n := digit("iter", 7, 9)
	w.cfg.Compute = config.Compute{DisableLocal: true, Instances: "1"}
	w.cfg.Stats = config.Stats{Freq: "500ms", Report: map[string]map[string]string{"c46": {}}}
	w.cfg.Workload = []config.ClientGroup{{Clients: "1", Iter: d, Trx: []string{"b"}}}
	ctx, cancel := context.WithCancel(context.Background())
	ret := make(chan error, 1)
	go func() { ret <- s.Run(ctx, []config.Stage{w.cfg}) }()
	time.Sleep(time.Millisecond)
	end := make(chan bool)
	go func() {
		compute.NewClient("r", "server").Run(ctx)
		close(end)
	}()
	select {
	case err := <-ret:
		verif.Assert(err == nil, "no error")
	case <-time.After(time.Minute):
		verif.Fail("the server ends")
	}
	<-end
	cancel()
	verif.Reach("end")
	got := int(w.rep.n["b"][stats.TOTAL])
	verif.Assert(got <= 3*n, "no query is reported twice")
	// known finding C34-tail: the last queries may be lost
	verif.Assert(got >= 3*n-6*j-3, "only the intervals that could not be sent are lost")
}

// H_disabled: with statistics disabled no instance reports any.
func H_disabled() {
	w := start()
	defer os.RemoveAll(w.dir)
	s, api := sys.Server(false)
	net := &sys.Net{API: api}
	net.Use()
	out, err := os.Create(w.dir + "/out")
	verif.Assert(err == nil, "file")
	local := verif.Choose("local", 2) == 1
	inst := 1
	if local {
		inst++
	}
	d, n := digit("iter", 1, 9)
	off := verif.Choose("disabled", 2) == 1
	w.cfg.Compute = config.Compute{DisableLocal: !local, Instances: string(rune('0' + inst))}
	w.cfg.Stats = config.Stats{Disable: &off, Freq: []string{"0s", "500ms"}[verif.Choose("freq", 2)], Report: map[string]map[string]string{"stdout": {}, "c46": {}}}
	w.cfg.Workload = []config.ClientGroup{{Clients: "1", Iter: d, Trx: []string{"b"}}}
	old := os.Stdout
	os.Stdout = out
	ctx, cancel := context.WithCancel(context.Background())
	ret := make(chan error, 1)
	go func() { ret <- s.Run(ctx, []config.Stage{w.cfg}) }()
	time.Sleep(time.Millisecond)
	end := make(chan bool)
	go func() {
		compute.NewClient("r", "server").Run(ctx)
		close(end)
	}()
	select {
	case err := <-ret:
		os.Stdout = old
		verif.Assert(err == nil, "no error")
	case <-time.After(time.Minute):
		os.Stdout = old
		verif.Fail("the server ends")
	}
	<-end
	cancel()
	out.Close()
	verif.Reach("end")
	k := 0
	for _, q := range w.my.Queries {
		if q == "insert b1" {
			k++
		}
	}
	verif.Assert(k == n*inst, "every instance does all the work of the stage")
	sent := strings.Contains(strings.Join(net.Log, ","), "/stats")
	b, _ := os.ReadFile(w.dir + "/out")
	printed := strings.Contains(string(b), "QPS")
	verif.Assert(sent == !off, "remotes send statistics exactly if they are not disabled")
	verif.Assert(printed == !off, "statistics are printed exactly if they are not disabled")
	verif.Assert((len(w.rep.in) > 0) == !off, "statistics are reported exactly if they are not disabled")
}
