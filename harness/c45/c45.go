// Package c45: a server runs its stages on all instances, and ends.
package c45

//verif:bound H_stages: 1-2 stages, each on the local and 0-2 (quick 0-1) remote instances or on 1-2 remotes only; remotes start before or after the server, any order
//verif:bound H_fault: one stage, 1 remote and perhaps the local instance; any 1 (thorough 2) of the remote's first 12 requests or their answers lost (symbolic)
//verif:bound H_lost: one stage, 1 remote and perhaps the local instance; the remote is unreachable from any of 41 times (symbolic, every 100 ms) on, for 50 ms or forever
//verif:bound H_boot: 1-2 stages on 1-2 remote instances, of which up to 4 times one (symbolic) cannot connect to MySQL at boot and starts again, perhaps with a spare remote
//verif:bound H_cancel: the same with CTRL-C on the server at any of 41 times from before boot to the end, the remote perhaps unreachable before that from any (quick: any 0.5+k seconds, or just then) such time on; H_test: 1-2 stages with --test
//verif:assume MySQL answers every command with OK after 300 ms; HTTP requests reach the handler of the API directly; time is virtual
//verif:opt * maxsteps=100000000
//verif:opt H_cancel native=no
//verif:opt H_lost native=no
//verif:opt H_boot native=no
//verif:opt H_fault validate=no
import (
	"context"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/square/finch/compute"
	"github.com/square/finch/config"
	"github.com/square/finch/zzverif/sys"
	"github.com/square/finch/zzverif/verif"
)

var yes = true

type world struct {
	dir    string
	s      *compute.Server
	my     *sys.MySQL
	net    *sys.Net
	stages []config.Stage
	ret    chan error
}

func start(test bool) *world {
	w := &world{ret: make(chan error, 1)}
	var err error
	w.dir, err = os.MkdirTemp("", "c45")
	verif.Assert(err == nil, "temp dir")
	s, api := sys.Server(test)
	w.s = s
	w.my = &sys.MySQL{Delay: 300 * time.Millisecond}
	w.my.Listen()
	w.net = &sys.Net{API: api}
	w.net.Use()
	return w
}

// stage adds a stage that each instance runs iter times.
func (w *world) stage(iter string, local bool, remotes int) {
	k := string(rune('1' + len(w.stages)))
	os.WriteFile(w.dir+"/"+k+".sql", []byte("insert "+k+"\n"), 0600)
	n := remotes
	if local {
		n++
	}
	w.stages = append(w.stages, config.Stage{Name: "s" + k, File: w.dir + "/s.yaml", N: uint(len(w.stages) + 1),
		Compute:  config.Compute{DisableLocal: !local, Instances: string(rune('0' + n))},
		Stats:    config.Stats{Disable: &yes, Report: map[string]map[string]string{"stdout": {}}},
		MySQL:    config.MySQL{DSN: "u@fake(x)/"},
		Trx:      []config.Trx{{Name: "t", File: w.dir + "/" + k + ".sql"}},
		Workload: []config.ClientGroup{{Clients: "1", Iter: iter, Trx: []string{"t"}, DisableStats: true}},
	})
}

func (w *world) run(ctx context.Context) {
	go func() { w.ret <- w.s.Run(ctx, w.stages) }()
}

// remote starts a remote again and again until ctx ends; it returns a channel that is closed then.
func (w *world) remote(ctx context.Context, name string) chan bool {
	end := make(chan bool)
	go func() {
		for ctx.Err() == nil {
			compute.NewClient(name, "server").Run(ctx)
		}
		close(end)
	}()
	return end
}

// inserts is the order of the stages' queries.
func (w *world) inserts() string {
	s := ""
	for _, q := range w.my.Queries {
		if strings.HasPrefix(q, "insert ") {
			s += q[7:]
		}
	}
	return s
}

// booted counts the requests that tell the server that a remote has booted.
func (w *world) booted() int {
	n := 0
	for _, l := range w.net.Log {
		if l == "POST /boot" {
			n++
		}
	}
	return n
}

func H_stages() {
	w := start(false)
	defer os.RemoveAll(w.dir)
	stages := 1 + verif.Choose("stages", 2)
	want := ""
	most := 0
	for i := 0; i < stages; i++ {
		local := verif.Choose("local", 2) == 1
		remotes := verif.Choose("remotes", verif.Bound(2, 3))
		if !local && remotes == 0 {
			remotes = 2
		}
		w.stage("2", local, remotes)
		n := remotes
		if local {
			n++
		}
		want += strings.Repeat(string(rune('1'+i)), 2*n)
		if remotes > most {
			most = remotes
		}
	}
	late := verif.Choose("remotes start late", 2) == 1
	ctx, cancel := context.WithCancel(context.Background())
	if late {
		w.run(ctx)
		time.Sleep(time.Second)
		if most > 0 && !w.stages[0].Compute.DisableLocal && w.stages[0].Compute.Instances != "1" {
			verif.Assert(w.inserts() == "", "clients start when every instance has booted")
		}
	}
	var ends []chan bool
	for i := 0; i < most; i++ {
		ends = append(ends, w.remote(ctx, "r"+string(rune('1'+i))))
		if i == 0 && verif.Choose("second remote late", 2) == 1 {
			time.Sleep(700 * time.Millisecond)
		}
	}
	if !late {
		time.Sleep(50 * time.Millisecond)
		w.run(ctx)
	}
	var err error
	select {
	case err = <-w.ret:
	case <-time.After(time.Minute):
		verif.Fail("the server ends")
	}
	verif.Reach("end")
	verif.Assert(err == nil, "no error")
	verif.Assert(w.inserts() == want, "every stage runs on all its instances, one stage after another")
	cancel()
	for _, e := range ends {
		<-e
	}
}

func H_fault() {
	w := start(false)
	defer os.RemoveAll(w.dir)
	local := verif.Choose("local", 2) == 1
	w.stage("3", local, 1)
	n := verif.Bound(1, 2)
	at, answer := make([]int, n), make([]bool, n)
	for i := range at {
		at[i], answer[i] = verif.Int("lost", 1, 12), verif.Bool("answer")
		if i > 0 {
			verif.Assume(at[i-1] < at[i])
		}
	}
	k, i := 0, 0
	w.net.Fault = func(_ int, r *http.Request) string {
		k++
		if i == n || k > 12 || k != at[i] {
			return ""
		}
		i++
		if answer[i-1] {
			return "answer lost"
		}
		return "lost"
	}
	ctx, cancel := context.WithCancel(context.Background())
	w.run(ctx)
	time.Sleep(time.Millisecond)
	end := make(chan bool)
	go func() {
		compute.NewClient("r", "server").Run(ctx)
		close(end)
	}()
	select {
	case err := <-w.ret:
		verif.Reach("end")
		verif.Assert(err == nil, "no error")
		n := 3
		if local {
			n = 6
		}
		verif.Assert(w.inserts() == strings.Repeat("1", n), "the stage runs on all its instances")
	case <-time.After(3 * time.Minute):
		verif.Fail("a lost request does not stop the stage")
	}
	cancel()
	<-end
}

func H_cancel() {
	w := start(false)
	defer os.RemoveAll(w.dir)
	local := verif.Choose("local", 2) == 1
	iter := []string{"9", "60"}[verif.Choose("iter", 2)]
	w.stage(iter, local, 1)
	w.stage("9", true, 0)
	cut := verif.Int("cut", 0, 50)
	lost := false
	w.net.Fault = func(n int, r *http.Request) string {
		if lost {
			return "lost"
		}
		return ""
	}
	at := verif.Int("cancel", 0, 40)
	verif.Assume(verif.Thorough() || cut == 50 || cut == at || cut%10 == 5)
	ctx, cancel := context.WithCancel(context.Background())
	rctx, rcancel := context.WithCancel(context.Background())
	w.run(ctx)
	time.Sleep(10 * time.Millisecond)
	end := make(chan bool)
	go func() {
		compute.NewClient("r", "server").Run(rctx)
		close(end)
	}()
	for i := 0; ; i++ {
		if i == cut {
			lost = true
		}
		if i == at {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	cancel()
	t0 := time.Now()
	err := <-w.ret
	verif.Reach("end")
	verif.Assert(err == nil, "CTRL-C is not an error")
	verif.Assert(time.Since(t0) < 7500*time.Millisecond, "after CTRL-C, the server ends soon")
	if at < 27 || iter == "60" {
		verif.Assert(!strings.Contains(w.inserts(), "2"), "no other stage is run")
	}
	n := w.inserts()
	if !lost {
		time.Sleep(4 * time.Second)
		verif.Assert(w.inserts() == n, "remotes have stopped when the server ends")
	}
	rcancel()
	<-end
}

// H_lost: a remote that lost the server does not run on.
func H_lost() {
	w := start(false)
	defer os.RemoveAll(w.dir)
	local := verif.Choose("local", 2) == 1
	w.stage("60", local, 1)
	at := verif.Int("cut", 0, 40)
	back := verif.Choose("back", 2) == 1
	lost := false
	w.net.Fault = func(n int, r *http.Request) string {
		if lost {
			return "lost"
		}
		return ""
	}
	ctx, cancel := context.WithCancel(context.Background())
	w.run(ctx)
	time.Sleep(10 * time.Millisecond)
	rctx, rcancel := context.WithCancel(context.Background())
	end := make(chan bool)
	go func() {
		compute.NewClient("r", "server").Run(rctx)
		close(end)
	}()
	for i := 0; i < at; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	lost = true
	n, t0 := len(w.inserts()), time.Now()
	if back { // for a moment only
		time.Sleep(50 * time.Millisecond)
		lost = false
		<-w.ret
		verif.Reach("back")
		want := 60
		if local {
			want = 120
		}
		verif.Assert(len(w.inserts()) == want, "a moment without network does not end the stage")
	} else if n > 0 {
		<-end
		verif.Reach("lost")
		verif.Assert(time.Since(t0) < 12*time.Second, "a remote that lost the server ends")
	}
	cancel()
	rcancel()
	<-end
}

// H_boot: remotes that fail to boot are not part of the stage; it starts when enough did not.
func H_boot() {
	w := start(false)
	defer os.RemoveAll(w.dir)
	remotes := 1 + verif.Choose("remotes", 2)
	spare := verif.Choose("spare", 2)
	w.stage("2", false, remotes)
	if verif.Choose("stages", 2) == 1 {
		w.stage("2", false, remotes)
	}
	w.my.Refuse = verif.Int("refuse", 0, 4)
	ctx, cancel := context.WithCancel(context.Background())
	w.run(ctx)
	time.Sleep(10 * time.Millisecond)
	rctx, rcancel := context.WithCancel(context.Background())
	var ends []chan bool
	for i := 0; i < remotes+spare; i++ {
		ends = append(ends, w.remote(rctx, "r"+string(rune('1'+i))))
	}
	select {
	case err := <-w.ret:
		verif.Assert(err == nil, "remotes that fail to boot are not an error of the server")
	case <-time.After(5 * time.Minute):
		verif.Fail("the server ends")
	}
	verif.Reach("end")
	n := map[string]int{}
	for _, q := range w.my.Queries {
		n[q]++
	}
	for i := range w.stages {
		verif.Assert(n["insert "+string(rune('1'+i))] == 2*remotes, "every stage runs on as many instances as configured")
	}
	cancel()
	rcancel()
	for _, e := range ends {
		<-e
	}
}

func H_test() {
	w := start(true)
	defer os.RemoveAll(w.dir)
	stages := 1 + verif.Choose("stages", 2)
	remotes := verif.Choose("remotes", 3)
	for i := 0; i < stages; i++ {
		w.stage("1", remotes == 0 || verif.Choose("local", 2) == 1, remotes)
	}
	ctx, cancel := context.WithCancel(context.Background())
	w.run(ctx)
	time.Sleep(time.Millisecond)
	ret := make(chan bool, 4)
	runs := 0
	for i := 0; i < remotes; i++ {
		name := "r" + string(rune('1'+i))
		go func() {
			for k := 0; k < stages; k++ {
				compute.NewClient(name, "server").Run(ctx)
				runs++
			}
			ret <- true
		}()
	}
	select {
	case err := <-w.ret:
		verif.Reach("end")
		verif.Assert(err == nil, "no error")
	case <-time.After(time.Minute):
		verif.Fail("a test ends")
	}
	time.Sleep(time.Second)
	verif.Assert(runs == stages*remotes, "remotes are told that the test is done")
	verif.Assert(w.booted() == stages*remotes, "every stage is booted on all its instances")
	verif.Assert(w.inserts() == "", "a test runs nothing")
	cancel()
}
