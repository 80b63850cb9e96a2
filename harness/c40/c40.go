// Package c40: the API remote instances call.
package c40

//verif:bound H_state: stage of 2 instances (thorough also 3) with the first two remotes in any reachable combination of unknown, booting, runnable, running and done, then one (thorough two) request of any method and endpoint with a symbolic name byte and stage ID byte, then the rest of the stage
//verif:bound H_query: 14 malformed queries and 6 methods on each of 6 paths in each state; H_file: symbolic file number text of 1-3 bytes
//verif:bound H_slot: 2-3 remotes ask for the last slot at once, every interleaving with up to 1 (thorough 2) preemptions; H_twice: one remote sends POST /boot, GET /run or POST /run twice at once, likewise
//verif:bound H_next: two stages; requests with the previous stage's ID, and GET /boot abandoned by its sender at any time up to 1 s before and after the next stage starts
//verif:assume requests reach the handler of the API directly, not through a TCP connection; time is virtual
//verif:opt * schednative
import (
	"context"
	"encoding/json"
	"os"
	"time"

	"github.com/square/finch/compute"
	"github.com/square/finch/config"
	"github.com/square/finch/zzverif/sys"
	"github.com/square/finch/zzverif/verif"
)

const (
	unknown = iota
	booting
	runnable
	running
	done
)

type world struct {
	dir    string
	api    *compute.API
	n      int // instances
	id     string
	ids    []string // of the stages so far
	state  map[string]int
	booted int
	wait   map[string]*sys.Resp // GET /run
	ret    chan error
	cancel context.CancelFunc
}

func start(stages, n int) *world {
	w := &world{n: n, state: map[string]int{}, wait: map[string]*sys.Resp{}, ret: make(chan error, 1)}
	var err error
	w.dir, err = os.MkdirTemp("", "c40")
	verif.Assert(err == nil, "temp dir")
	os.WriteFile(w.dir+"/t.sql", []byte("select 1"), 0600)
	var s *compute.Server
	s, w.api = sys.Server(false)
	yes := true
	var cfg []config.Stage
	for i := 0; i < stages; i++ {
		cfg = append(cfg, config.Stage{Name: "s" + string(rune('1'+i)), File: w.dir + "/s.yaml",
			Compute: config.Compute{DisableLocal: true, Instances: string(rune('0' + n))},
			Stats:   config.Stats{Disable: &yes}, Trx: []config.Trx{{File: w.dir + "/t.sql"}, {File: w.dir + "/missing.sql"}}})
	}
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	go func() { w.ret <- s.Run(ctx, cfg) }()
	time.Sleep(10 * time.Millisecond)
	return w
}

func (w *world) end() {
	w.cancel()
	os.RemoveAll(w.dir)
}

// send sends a request and waits until it is answered or clearly will not be.
func (w *world) send(method, path, name, id, more, body string) *sys.Resp {
	q := "name=" + name + "&stage-id=" + id + more
	r := sys.Start(w.api, context.Background(), method, path, q, body)
	time.Sleep(20 * time.Millisecond)
	return r
}

func (w *world) over() bool { return len(w.ret) > 0 }

// do is a request of a remote that follows the protocol.
func (w *world) do(method, path, name string) {
	r := w.send(method, path, name, w.id, "", "")
	verif.Assert(r.Ended && r.Code == 200, "request in order succeeds")
}

// boot registers name, which gets a slot.
func (w *world) boot(name string) {
	r := sys.Start(w.api, context.Background(), "GET", "/boot", "name="+name+"&stage-id=", "")
	time.Sleep(20 * time.Millisecond)
	if !r.Ended {
		time.Sleep(300 * time.Millisecond)
	}
	w.gotStage(r)
	w.state[name] = booting
}

func (w *world) gotStage(r *sys.Resp) {
	verif.Assert(r.Ended && r.Code == 200, "a remote gets a free slot")
	var c config.Stage
	verif.Assert(json.Unmarshal(r.Body, &c) == nil && c.Name != "" && c.Id != "" && len(c.Trx) == 2, "and the stage")
	w.id = c.Id
}

// step brings a remote to its next state.
func (w *world) step(name string) {
	switch w.state[name] {
	case unknown:
		w.boot(name)
	case booting:
		w.do("POST", "/boot", name)
		w.state[name] = runnable
		w.booted++
	case runnable:
		w.run(name)
		verif.Assert(w.booted == w.n, "(harness)")
		w.started()
	case running:
		verif.Assert(!w.over(), "the stage does not end while a remote runs")
		w.do("POST", "/run", name)
		w.state[name] = done
	}
}

// run asks for the signal to run.
func (w *world) run(name string) {
	if w.wait[name] == nil {
		w.wait[name] = w.send("GET", "/run", name, w.id, "", "")
	}
	if w.booted < w.n {
		verif.Assert(!w.wait[name].Ended, "a remote is not started before all booted")
	}
}

// started checks remotes that wait.
func (w *world) started() {
	time.Sleep(20 * time.Millisecond)
	for n, r := range w.wait {
		if w.booted == w.n && w.state[n] == runnable {
			verif.Assert(r.Ended && r.Code == 200, "remotes are started once all booted")
			w.state[n] = running
		}
	}
}

func (w *world) clients() int {
	n := 0
	for _, s := range w.state {
		if s != unknown && s != done {
			n++
		}
	}
	return n
}

func (w *world) dones() int {
	n := 0
	for _, s := range w.state {
		if s == done {
			n++
		}
	}
	return n
}

// names are those who take part, in order.
func (w *world) names() []string {
	var ns []string
	for _, n := range []string{"a", "b", "c", "d"} {
		if w.state[n] != unknown {
			ns = append(ns, n)
		}
	}
	return ns
}

// finish plays the rest of the stage.
func (w *world) finish() {
	for _, n := range []string{"a", "b", "c", "d"} {
		if w.state[n] == unknown && len(w.names()) < w.n {
			w.boot(n)
		}
	}
	w.started()
	ns := w.names()
	verif.Assert(len(ns) == w.n, "(harness) instances")
	for i, n := range ns {
		if w.state[n] == booting {
			if w.booted < w.n-1 || i == 0 {
				verif.Assert(!w.over(), "the stage does not end before all booted")
			}
			w.step(n)
		}
		if w.state[n] == runnable {
			w.run(n)
		}
		w.started()
	}
	for _, n := range ns {
		if w.state[n] == running {
			w.step(n)
		}
	}
	time.Sleep(20 * time.Millisecond)
	verif.Assert(w.over() && <-w.ret == nil, "the stage ends when all are done")
	r := w.send("GET", "/boot", "e", "", "", "")
	verif.Assert(!r.Ended, "no slot after the stage")
}

// prefix brings a and b to any reachable combination of states.
func (w *world) prefix() {
	sa, sb := verif.Choose("a", 5), verif.Choose("b", 5)
	both := sa >= runnable && sb >= runnable && w.n == 2
	verif.Assume(both || sa <= runnable && sb <= runnable)
	verif.Assume(sa < done || sb < done) // or else the stage is over
	for w.state["a"] < sa && w.state["a"] < runnable {
		w.step("a")
	}
	for w.state["b"] < sb && w.state["b"] < runnable {
		w.step("b")
	}
	for w.state["a"] < sa {
		w.step("a")
	}
	for w.state["b"] < sb {
		w.step("b")
	}
}

// request sends any request, and says what must come of it.
func (w *world) request(k string) {
	method := []string{"GET", "POST"}[verif.Choose("method"+k, 2)]
	path := []string{"/boot", "/run", "/file", "/stats", "/ping"}[verif.Choose("path"+k, 5)]
	name := verif.Bytes("name"+k, 1)
	verif.Assume(name[0] >= 'a')
	verif.Assume(name[0] <= 'c')
	id, same := w.id, true
	if w.id == "" || verif.Bool("other-id"+k) {
		id, same = verif.Bytes("id"+k, 1), false
		verif.Assume(id[0] >= '0')
		verif.Assume(id[0] <= '9')
		if verif.Bool("no-id" + k) {
			id = ""
		}
	}
	body := ""
	if method == "POST" && path != "/file" && path != "/ping" && verif.Bool("body"+k) {
		body = "\"error\"\n"
	}
	for _, n := range []string{"a", "b", "c"} {
		if n == name {
			name = n
		}
	}
	more := ""
	if path == "/file" {
		more = "&stage=s1&i=0"
	}
	st := w.state[name]
	r := w.send(method, path, name, id, more, body)
	is := func(code int) { verif.Assert(r.Ended && r.Code == code, "answer to a request out of order") }
	get := method == "GET"
	verif.Reach("request")
	switch {
	case path == "/boot" && get && (st == unknown || st == done):
		if w.dones() > 0 || w.booted == w.n || w.clients() == w.n {
			verif.Assert(!r.Ended, "no slot is left")
			return
		}
		w.gotStage(r)
		w.state[name] = booting
	case path == "/boot" && get && st == booting && !same:
		w.gotStage(r) // again
	case st == unknown || st == done || !same:
		is(410)
	case path == "/boot" && get && st == booting:
		w.gotStage(r)
	case path == "/boot" && !get && st == booting:
		is(200)
		if body == "" {
			w.state[name] = runnable
			w.booted++
		} else {
			w.state[name] = unknown
		}
	case path == "/boot" && !get && st == runnable:
		is(200) // sent again
	case path == "/file" && st == booting:
		is(200)
		verif.Assert(string(r.Body) == "select 1", "file")
	case path == "/run" && get && st == runnable:
		w.wait[name] = r
		w.started()
		verif.Assert(r.Ended == (w.booted == w.n), "runs once all booted")
	case path == "/run" && get && st == running:
		is(200) // sent again
	case path == "/run" && !get && st == running:
		is(200)
		w.state[name] = done
	case path == "/stats" && st == running:
		is(200)
	case path == "/ping":
		is(200)
	default:
		is(412)
	}
}

func H_state() {
	w := start(1, 2+verif.Choose("instances", verif.Bound(1, 2)))
	defer w.end()
	w.prefix()
	w.request("")
	if verif.Thorough() {
		w.request("2")
	}
	if w.dones() == w.n {
		time.Sleep(20 * time.Millisecond)
		verif.Assert(w.over() && <-w.ret == nil, "the stage ends when all are done")
		return
	}
	w.finish()
	verif.Reach("end")
}

func H_query() {
	w := start(1, 1)
	defer w.end()
	st := verif.Choose("state", 4)
	for w.state["a"] < st {
		w.step("a")
	}
	path := []string{"/boot", "/run", "/file", "/stats", "/ping", "/other"}[verif.Choose("path", 6)]
	method := []string{"GET", "POST", "PUT", "DELETE", "HEAD", ""}[verif.Choose("method", 6)]
	q := []string{"", "name", "name=a", "stage-id=" + w.id, "stage-id", "Name=a&stage-id=" + w.id, "name=&stage-id=" + w.id, "name=A&stage-id=" + w.id,
		"name=a;stage-id=" + w.id, "name=a&stage-id=", "name=%zz&stage-id=" + w.id, "name=x&name=a&stage-id=" + w.id, "name=a%0A&stage-id=" + w.id, "name=%61&stage-id=" + w.id}[verif.Choose("query", 14)]
	known := q == "name=a%0A&stage-id="+w.id || q == "name=%61&stage-id="+w.id || q == "name=a&stage-id=" && w.id == ""
	verif.Assume(!known) // see H_state
	r := sys.Start(w.api, context.Background(), method, path, q, "")
	time.Sleep(20 * time.Millisecond)
	verif.Reach("query")
	get := method == "GET" || method == ""
	named := len(q) > 9 && q[:5] == "name=" && q != "name=a;stage-id="+w.id && q[5:7] != "%z"
	switch {
	case path == "/other":
		verif.Assert(r.Ended && r.Code == 404, "unknown path")
	case !get && method != "POST":
		verif.Assert(r.Ended && r.Code == 405, "method not allowed")
	case !named:
		verif.Assert(r.Ended && r.Code == 400, "incomplete query")
	case path == "/boot" && get && q == "name=a&stage-id=" && st == booting:
		w.gotStage(r)
	case path == "/boot" && get && q != "name=a&stage-id=" && st == unknown:
		// the first remote with any name
		w.gotStage(r)
		return
	case path == "/boot" && get && q != "name=a&stage-id=":
		verif.Assert(!r.Ended, "no slot is left")
	default:
		verif.Assert(r.Ended && r.Code == 410, "reset")
	}
	w.finish()
}

func H_file() {
	w := start(1, 1)
	defer w.end()
	w.step("a")
	n := 1 + verif.Choose("len", verif.Bound(2, 3))
	i := verif.Bytes("i", n)
	for k := 0; k < n; k++ {
		verif.Assume(i[k] > ' ')
		verif.Assume(i[k] <= '~')
		verif.Assume(i[k] != '%')
		verif.Assume(i[k] != '&')
		verif.Assume(i[k] != '#')
		verif.Assume(i[k] != ';')
		verif.Assume(i[k] != '+')
	}
	which := verif.Choose("params", 3)
	more := []string{"&stage=s1&i=", "&i=", "&stage=s1&j="}[which] + i
	r := w.send("GET", "/file", "a", w.id, more, "")
	verif.Reach("file")
	verif.Assert(r.Ended, "answered")
	zero, one := n > 0, true
	for k := 0; k < n; k++ {
		if i[k] != '0' && (k > 0 || n == 1 || i[k] != '-') {
			zero = false
		}
		if k < n-1 && i[k] != '0' || k == n-1 && i[k] != '1' {
			one = false
		}
	}
	switch {
	case which > 0:
		verif.Assert(r.Code == 400, "incomplete")
	case zero:
		verif.Assert(r.Code == 200 && string(r.Body) == "select 1", "the file")
	case one:
		verif.Assert(r.Code == 500, "the file is missing")
	default:
		verif.Assert(r.Code == 400, "not the number of a file")
	}
	w.finish()
}

func H_slot() {
	w := start(1, 2)
	defer w.end()
	w.step("a")
	if verif.Bool("booted") {
		w.step("a")
	}
	verif.Sched(verif.Bound(1, 2))
	var rs []*sys.Resp
	ns := []string{"b", "c"}
	for _, n := range ns {
		rs = append(rs, sys.Start(w.api, context.Background(), "GET", "/boot", "name="+n+"&stage-id=", ""))
	}
	time.Sleep(450 * time.Millisecond)
	verif.SchedOff()
	verif.Reach("slot")
	verif.Assert(rs[0].Ended != rs[1].Ended, "one of them gets the slot")
	for i, r := range rs {
		if r.Ended {
			w.gotStage(r)
			w.state[ns[i]] = booting
		}
	}
	w.finish()
}

func H_twice() {
	w := start(1, 2)
	defer w.end()
	w.step("a")
	w.step("b")
	req := verif.Choose("request", 3)
	for w.state["a"] < booting+req {
		w.step("a")
		if w.state["b"] == booting {
			w.step("b")
		}
	}
	if req == 2 {
		w.started()
		w.run("b")
		w.started()
	}
	method, path := []string{"POST", "GET", "POST"}[req], []string{"/boot", "/run", "/run"}[req]
	verif.Sched(verif.Bound(1, 2))
	var rs []*sys.Resp
	for i := 0; i < 2; i++ {
		rs = append(rs, sys.Start(w.api, context.Background(), method, path, "name=a&stage-id="+w.id, ""))
	}
	time.Sleep(20 * time.Millisecond)
	verif.SchedOff()
	verif.Reach("twice")
	ok := 0
	for _, r := range rs {
		verif.Assert(r.Ended, "answered")
		if r.Code == 200 {
			ok++
		} else {
			verif.Assert(r.Code == 412 || req == 2 && r.Code == 410, "the other is rejected")
		}
	}
	verif.Assert(ok == 1 || req < 2 && ok == 2, "one of them counts")
	switch req {
	case 0:
		w.state["a"] = runnable
		w.booted++
	case 1:
		w.state["a"] = running
	case 2:
		w.state["a"] = done
	}
	w.finish()
}

func H_next() {
	w := start(2, 1)
	defer w.end()
	w.step("a")
	w.step("a")
	w.step("a")
	old := w.id
	// b waits for the next stage, but at some time no longer
	before := time.Duration(verif.Choose("before", 6)) * 199 * time.Millisecond
	after := time.Duration(verif.Choose("after", 6)) * 51 * time.Millisecond
	ctx, cancel := context.WithCancel(context.Background())
	r := sys.Start(w.api, ctx, "GET", "/boot", "name=b&stage-id=", "")
	time.Sleep(before)
	first := verif.Bool("first")
	if first {
		cancel() // while the first stage runs
	}
	w.step("a") // done
	w.state, w.wait, w.booted = map[string]int{}, map[string]*sys.Resp{}, 0
	time.Sleep(after)
	if !first {
		cancel() // about when the next stage starts
	}
	time.Sleep(500*time.Millisecond - after)
	verif.Reach("next")
	verif.Assert(!first || !(r.Ended && r.Code == 200 && len(r.Body) > 0), "a remote that has gone does not get a slot")
	// requests of the first stage
	x := w.send("POST", "/run", "a", old, "", "")
	verif.Assert(x.Ended && x.Code == 410, "reset")
	w.boot("b") // again
	verif.Assert(w.id != old, "every stage has another ID")
	for _, p := range []string{"/boot", "/run"} {
		x = w.send("POST", p, "b", old, "", "")
		verif.Assert(x.Ended && x.Code == 410, "reset")
	}
	x = w.send("GET", "/ping", "b", old, "", "")
	verif.Assert(x.Ended && x.Code == 410, "reset")
	w.finish()
}
