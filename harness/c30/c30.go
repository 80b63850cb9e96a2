// Package c30: a stage runs its execution groups.
package c30

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/square/finch"
	"github.com/square/finch/client"
	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/stage"
	"github.com/square/finch/stats"
	"github.com/square/finch/trx"
	"github.com/square/finch/workload"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/verif"
)

//verif:opt H_stop validate=no
//verif:bound H_order: execution groups of (1+1), 2 clients, and thorough 1; every client has any iteration limit of 1 or 2, takes 0 to 4 ms (symbolic) per query, and ends by its limit, an error the client does not handle, or a panic of a data generator; H_together: 2 execution groups of 2 client groups with 2 clients; H_stop: 2 execution groups of 2 clients that each take 0 to 4 ms per query (symbolic) without iteration limit or with one; cancelled at, stage runtime or client group runtime of, any ms up to 9 (symbolic); perhaps with a longer client group runtime; the first client may not answer for an hour; H_sched: 2 execution groups of 2 clients, every interleaving with up to 1 (quick) or 2 (thorough) preemptions at stage and client synchronization
//verif:assume Stage.Prepare is replaced by clients built with the same types; MySQL is a scripted driver under virtual time

// world is a stage and all its clients did.
type world struct {
	mu   sync.Mutex
	s    *stage.Stage
	g    [][]workload.ClientGroup
	cs   []*one
	log  []ev
	t0   time.Time
	rep  [][]stats.Instance
	coll *stats.Collector
}

type one struct {
	eg, no int
	c      *client.Client
	d      *fakedb.DB
	runs   int // times connected
	q      int // queries
	closed int
}

type ev struct {
	o    *one
	kind string
	at   time.Duration
}

type reporter struct{ w *world }

func (r reporter) Make(string, map[string]string) (stats.Reporter, error) { return r, nil }
func (r reporter) Report(from []stats.Instance) {
	c := append([]stats.Instance(nil), from...)
	for i := range c {
		t := stats.NewStats()
		t.Copy(c[i].Total)
		c[i].Total = t
	}
	r.w.rep = append(r.w.rep, c)
}
func (r reporter) Stop() {}

var registered = 0

func newWorld(cfg config.Stage, withStats bool) *world {
	client.ConnectRetryWait = time.Millisecond
	w := &world{t0: time.Now()}
	cfg.Name = "s"
	if withStats {
		registered++
		name := fmt.Sprintf("c30-%d", registered)
		verif.Assert(stats.Register(name, reporter{w}) == nil, "register")
		var err error
		w.coll, err = stats.NewCollector(config.Stats{Report: map[string]map[string]string{name: {}}}, "local", 1)
		verif.Assert(err == nil, "collector")
	}
	w.s = stage.New(cfg, data.NewScope(), w.coll)
	return w
}

// add adds an execution group with client groups of the given numbers of clients.
func (w *world) add(n ...int) {
	eg := len(w.g)
	var cgs []workload.ClientGroup
	for cg, k := range n {
		var g workload.ClientGroup
		for i := 0; i < k; i++ {
			o := &one{eg: eg, no: len(w.cs), d: &fakedb.DB{}}
			o.c = &client.Client{
				DoneChan:   w.s.VerifDone(),
				RunLevel:   finch.RunLevel{Stage: 1, StageName: "s", ExecGroup: uint(eg + 1), ExecGroupName: "e", ClientGroup: uint(cg + 1), Client: uint(i + 1)},
				DB:         o.d.SQL(),
				Iter:       1,
				Statements: []*trx.Statement{{Trx: "t", Query: "q"}},
				Data:       []client.StatementData{{TrxBoundary: trx.BEGIN | trx.END}},
				Stats:      []*stats.Trx{nil},
			}
			if w.coll != nil {
				o.c.Stats[0] = stats.NewTrx("t")
			}
			verif.Assert(o.c.Init() == nil, "init")
			if w.coll != nil {
				w.coll.Watch(o.c.Stats)
			}
			w.cs = append(w.cs, o)
			g.Clients = append(g.Clients, o.c)
			o.d.Answer = func(e fakedb.Event) fakedb.Answer { return w.answer(o, e, fakedb.Answer{}) }
		}
		cgs = append(cgs, g)
	}
	w.g = append(w.g, cgs)
}

// answer records the event of client o.
func (w *world) answer(o *one, e fakedb.Event, a fakedb.Answer) fakedb.Answer {
	w.mu.Lock()
	defer w.mu.Unlock()
	switch e.Kind {
	case "connect":
		o.runs++
	case "exec":
		o.q++
	case "close":
		o.closed++
	}
	w.log = append(w.log, ev{o, e.Kind, time.Since(w.t0)})
	return a
}

// run runs the stage and returns how long it took.
func (w *world) run(ctx context.Context) time.Duration {
	w.s.VerifSet(w.g)
	t := time.Now()
	w.s.Run(ctx)
	return time.Since(t)
}

// order checks that execution groups did not overlap.
func (w *world) order() {
	last := 0
	for _, e := range w.log {
		verif.Assert(e.o.eg >= last, "no client of an execution group works after the next one started")
		last = e.o.eg
	}
}

var errAbort = errors.New("scripted")

// H_order: groups run in order, and every client once.
func H_order() {
	w := newWorld(config.Stage{}, verif.Choose("stats", 2) == 1)
	w.add(1, 1)
	w.add(verif.Bound(1, 2))
	if verif.Thorough() {
		w.add(1)
	}
	var want []int
	var queries, errs int64
	for _, o := range w.cs {
		o := o
		n := verif.Int64("iter", 1, 2)
		d := time.Duration(verif.Int64("ms", 0, int64(verif.Bound(3, 2)))) * time.Millisecond
		o.c.Iter = uint(n)
		end := 0
		if o.no != 1 {
			end = verif.Choose("end", 3)
		}
		k := int(n)
		switch end {
		case 1: // error that the client does not survive
			o.c.Statements[0].DDL = true
			k = 1
		case 2: // panic
			o.c.Statements[0].Inputs = []string{"@d"}
			o.c.Data[0].Inputs = []data.ValueFunc{func(data.RunCount) []interface{} { panic("scripted") }}
			verif.Assert(o.c.Init() == nil, "init")
			k = 0
		}
		if end == 1 {
			errs++
		}
		o.d.Answer = func(e fakedb.Event) fakedb.Answer {
			a := fakedb.Answer{}
			if e.Kind == "exec" {
				a.Sleep = d
				if end == 1 {
					a.Err = errAbort
				}
			}
			return w.answer(o, e, a)
		}
		want = append(want, k)
		queries += int64(k)
	}
	w.run(context.Background())
	verif.Reach("done")
	w.order()
	for i, o := range w.cs {
		verif.Assert(o.runs == 1, "every client runs once")
		verif.Assert(o.closed == 1, "the stage returns after every client finished")
		verif.Assert(o.q == want[i], "every client does its work")
		verif.Assert(o.c.Error.Err == nil == (o.q == int(o.c.Iter) && !o.c.Statements[0].DDL), "the error of a client is its own")
	}
	if w.coll != nil {
		verif.Assert(len(w.rep) == 1 && len(w.rep[0]) == 1, "statistics are reported once")
		s := w.rep[0][0].Total
		verif.Assert(int64(s.N[stats.TOTAL]) == queries, "every query of the stage is reported")
		var n uint64
		for _, v := range s.Errors {
			n += v
		}
		verif.Assert(int64(n) == errs, "every error of the stage is reported")
	}
}

// H_together: all clients of an execution group run at the same time.
func H_together() {
	w := newWorld(config.Stage{}, false)
	k := verif.Int64("clients", 1, 2)
	w.add(2, int(k))
	w.add(int(k), 2)
	var in [2]int
	gate := [2]chan bool{make(chan bool), make(chan bool)}
	for _, o := range w.cs {
		o := o
		o.c.Statements[0].Inputs = []string{"@d"}
		o.c.Statements[0].Query = "q %d"
		o.c.Data[0].Inputs = []data.ValueFunc{func(data.RunCount) []interface{} {
			w.mu.Lock()
			in[o.eg]++
			if int64(in[o.eg]) == k+2 {
				close(gate[o.eg])
			}
			w.mu.Unlock()
			<-gate[o.eg] // until all clients are here
			return []interface{}{1}
		}}
		verif.Assert(o.c.Init() == nil, "init")
	}
	w.run(context.Background())
	verif.Reach("done")
	w.order()
	for _, o := range w.cs {
		verif.Assert(o.runs == 1 && o.q == 1 && o.closed == 1, "every client runs once")
	}
}

// H_stop: runtime and cancellation.
func H_stop() {
	ms, slack := time.Millisecond, time.Duration(0)
	if verif.Native() { // real time: coarser and less exact
		ms, slack = 100*ms, 60*ms
	}
	cfg := config.Stage{}
	at := time.Duration(verif.Pick("at", 0, verif.Bound(5, 9))) * ms
	how := verif.Choose("how", 3)
	if how == 0 {
		cfg.Runtime = at.String()
	}
	w := newWorld(cfg, verif.Choose("stats", 2) == 1)
	w.add(2)
	w.add(1, 1)
	if how == 2 {
		w.g[0][0].Runtime = at
		verif.Assume(at > 0)
	} else if verif.Choose("longer group runtime", 2) == 1 {
		w.g[0][0].Runtime = time.Hour // the stage's ends before
	}
	hang := verif.Choose("hang", 2) == 1
	verif.Assume(!hang || how != 2)
	for _, o := range w.cs {
		o := o
		d := 3 * ms
		if o.no%2 == 0 {
			d = time.Duration(verif.Int64("ms", 0, int64(verif.Bound(3, 4)))) * ms
		}
		o.c.Iter = uint(verif.Int64("iter", 1, 2))
		if o.eg == 0 && (how == 2 || o.no == 0) {
			o.c.Iter = 0
			if d == 0 {
				d = ms
			}
		}
		o.d.Answer = func(e fakedb.Event) fakedb.Answer {
			a := fakedb.Answer{}
			if e.Kind == "exec" {
				a.Sleep = d
				if hang && o.no == 0 {
					a.Hold = time.Hour
				}
			}
			return w.answer(o, e, a)
		}
	}
	ctx := context.Background()
	if how == 1 {
		c, cancel := context.WithCancel(ctx)
		ctx = c
		if at == 0 {
			cancel()
		} else {
			time.AfterFunc(at, cancel)
		}
	}
	t := w.run(ctx)
	w.mu.Lock()
	defer w.mu.Unlock()
	verif.Reach("done")
	w.order()
	for _, o := range w.cs {
		verif.Assert(o.runs <= 1, "no client runs twice")
	}
	if how == 2 {
		for _, o := range w.cs {
			verif.Assert(o.runs == 1 && o.closed == 1, "every client runs once")
			if o.eg == 1 {
				verif.Assert(uint(o.q) == o.c.Iter, "the runtime of a client group is not the one of other client groups")
			}
		}
		for _, e := range w.log {
			verif.Assert(e.o.eg == 1 || e.kind != "exec" || e.at <= at+slack, "a client group does not work after its runtime")
			verif.Assert(e.o.eg == 0 || e.at >= at-slack, "clients run for their runtime")
		}
		return
	}
	verif.Assert(t <= at+20*time.Millisecond+slack, "the stage returns when its runtime elapsed or it is cancelled")
	verif.Assert(t >= at-slack, "the stage runs for its runtime")
	for _, e := range w.log {
		verif.Assert(e.kind != "exec" || e.at <= at+slack, "no client works after the runtime elapsed or the run was cancelled")
		verif.Assert(!hang || e.o.eg == 0, "no further execution group starts")
	}
	for _, o := range w.cs {
		if !hang || o.no != 0 {
			verif.Assert(o.closed == o.runs, "clients have finished when the stage returns")
			verif.Assert(o.c.Error.Err == nil, "runtime and cancellation are not errors")
		}
	}
	if w.coll != nil {
		verif.Assert(len(w.rep) == 1, "statistics are reported once")
		n := 0
		for _, o := range w.cs {
			n += o.q
		}
		if !hang {
			verif.Assert(int(w.rep[0][0].Total.N[stats.TOTAL]) == n, "every query of the stage is reported")
		}
	}
}

// H_sched: any interleaving.
func H_sched() {
	w := newWorld(config.Stage{}, false)
	w.add(1, 1)
	w.add(1)
	cancelled := verif.Choose("cancelled", 2) == 1
	n := verif.Int64("iter", 1, 2)
	for _, o := range w.cs {
		o.c.Iter = uint(n)
	}
	ctx, cancel := context.WithCancel(context.Background())
	verif.Sched(verif.Bound(1, 2))
	verif.SchedIn("github.com/square/finch/")
	if cancelled {
		go cancel()
	}
	w.run(ctx)
	verif.SchedOff()
	verif.Reach("done")
	w.order()
	for _, o := range w.cs {
		verif.Assert(o.runs <= 1, "no client runs twice")
		if !cancelled {
			verif.Assert(o.runs == 1 && o.closed == 1 && int64(o.q) == n, "every client does its work before the stage returns")
		}
	}
	cancel()
}
