// Package c34: events and reporting intervals.
package c34

import (
	"fmt"
	"math"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/stats"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound 3 clients: one with trx A and B, one with trx A, one without statistics; H_ops: any 3 (quick) or 4 (thorough) of: record an event of any of 2 (thorough: 4) types and any response time below 10 microseconds (symbolic; quick: of the first operation), an error, a collection after 0 or 1.5 seconds, then the final one; H_freq: periodic collection every 2 s, up to 2 (quick) or 3 (thorough) events at any of 6 times, stopped at any half second up to 4.5 s, with ticks before or after the stop at the same time; H_sched: recording and collecting at the same time, every interleaving with up to 2 preemptions at atomic operations
//verif:opt H_freq validate=no fp=mono
//verif:opt H_ops fp=mono
//verif:opt H_sched fp=mono
//verif:assume response times below 10 microseconds (buckets are C33)

type event struct {
	trx  string
	typ  byte
	d    int64
	err  uint16
	isEr bool
}

// tot is what a set of events amounts to.
type tot struct {
	n        [4]uint64
	min, max [4]int64
	errs     map[uint16]uint64
}

func sum(evs []event, trx string) tot {
	t := tot{errs: map[uint16]uint64{}}
	add := func(typ byte, d int64) {
		if t.n[typ] == 0 || d < t.min[typ] {
			t.min[typ] = d
		}
		if t.n[typ] == 0 || d > t.max[typ] {
			t.max[typ] = d
		}
		t.n[typ]++
	}
	for _, e := range evs {
		if trx != "" && e.trx != trx {
			continue
		}
		if e.isEr {
			t.errs[e.err]++
			continue
		}
		if e.typ != stats.TOTAL {
			add(e.typ, e.d)
		}
		add(stats.TOTAL, e.d)
	}
	return t
}

// same reports whether s is t.
func same(s *stats.Stats, t tot) bool {
	ok := s != nil
	if !ok {
		return false
	}
	for i := range t.n {
		ok = ok && s.N[i] == t.n[i]
		if t.n[i] > 0 {
			ok = ok && s.Min[i] == t.min[i] && s.Max[i] == t.max[i] && s.Buckets[i][0] == t.n[i]
		}
	}
	var a, b uint64
	for k, v := range s.Errors {
		ok = ok && v == t.errs[k]
		a += v
	}
	for _, v := range t.errs {
		b += v
	}
	return ok && a == b
}

// dur is the response time of event i.
func dur(i int) int64 {
	if i == 0 || verif.Thorough() {
		return verif.Int64("d", 0, 9)
	}
	return int64(3 + i)
}

type reporter struct {
	got     []stats.Instance
	stopped int
}

func (r *reporter) Make(string, map[string]string) (stats.Reporter, error) { return r, nil }
func (r *reporter) Report(from []stats.Instance) {
	verif.Assert(len(from) == 1, "one local report per interval")
	r.got = append(r.got, from[0])
}
func (r *reporter) Stop() { r.stopped++ }

var registered = 0

type world struct {
	r    *reporter
	c    *stats.Collector
	slot []*stats.Trx // client 1 A, client 1 B, client 2 A
	want [][]event    // of each interval
	cur  []event
	at   []time.Duration // end of each interval
}

func newWorld(freq string) *world {
	registered++
	w := &world{r: &reporter{}}
	name := fmt.Sprintf("c34-%d", registered)
	verif.Assert(stats.Register(name, w.r) == nil, "register")
	c, err := stats.NewCollector(config.Stats{Freq: freq, Report: map[string]map[string]string{name: {}}}, "h", 1)
	verif.Assert(err == nil, "collector")
	w.c = c
	w.slot = []*stats.Trx{stats.NewTrx("A"), stats.NewTrx("B"), stats.NewTrx("A")}
	c.Watch([]*stats.Trx{w.slot[0], w.slot[1]})
	c.Watch([]*stats.Trx{w.slot[2]})
	c.Watch([]*stats.Trx{nil})
	return w
}

func (w *world) record(slot int, typ byte, d int64) {
	w.slot[slot].Record(typ, d)
	w.cur = append(w.cur, event{trx: w.slot[slot].Name, typ: typ, d: d})
}

func (w *world) error(slot int, code uint16) {
	w.slot[slot].Error(code)
	w.cur = append(w.cur, event{trx: w.slot[slot].Name, err: code, isEr: true})
}

// end ends the interval.
func (w *world) end(at time.Duration) {
	w.want = append(w.want, w.cur)
	w.at = append(w.at, at)
	w.cur = nil
}

// check checks everything that was reported, after the run: reporters may still use it.
func (w *world) check() {
	verif.Assert(len(w.r.got) == len(w.want), "every interval is reported once")
	prev := time.Duration(0)
	var secs float64
	for i, in := range w.r.got {
		verif.Assert(in.Interval == uint(i+1), "intervals are numbered consecutively from one")
		verif.Assert(in.Hostname == "h" && in.Clients == 2, "instance and clients with statistics")
		verif.Assert(same(in.Total, sum(w.want[i], "")), "every event is in the total of the interval it was recorded in")
		verif.Assert(len(in.Trx) == 2, "every trx is reported")
		for _, t := range []string{"A", "B"} {
			verif.Assert(same(in.Trx[t], sum(w.want[i], t)), "every event is in its trx of the interval it was recorded in")
		}
		if !verif.Native() {
			verif.Assert(near(in.Seconds, w.at[i]-prev), "duration of the interval")
			verif.Assert(near(in.Runtime, w.at[i]), "runtime at the end of the interval")
		}
		prev = w.at[i]
		secs += in.Seconds
		verif.Assert(math.Abs(secs-in.Runtime) < 1e-6, "durations add up to the runtime")
	}
}

func near(s float64, d time.Duration) bool { return math.Abs(s-d.Seconds()) < 1e-6 }

// H_ops: any sequence of operations.
func H_ops() {
	w := newWorld("")
	t0 := time.Now()
	w.c.Start()
	n := verif.Bound(3, 4)
	for i := 0; i < n; i++ {
		switch op := verif.Choose("op", 5); op {
		case 0, 1, 2:
			types := []byte{stats.READ, stats.TOTAL, stats.WRITE, stats.COMMIT}
			w.record(op, types[verif.Choose("type", verif.Bound(2, 4))], dur(i))
		case 3:
			w.error(verif.Choose("slot", 3), 1213)
		default:
			if verif.Choose("sleep", 2) == 1 {
				time.Sleep(1500 * time.Millisecond)
			}
			verif.Assert(w.c.Collect(), "reported")
			w.end(time.Since(t0))
		}
	}
	verif.Reach("operations done")
	time.Sleep(time.Second)
	verif.Assert(w.c.Stop(time.Second, false), "reported")
	w.end(time.Since(t0))
	verif.Assert(time.Since(t0) < time.Duration(1500*n+1100)*time.Millisecond, "does not wait")
	w.check()
	verif.Assert(w.r.stopped == 1, "reporters are stopped")
}

// H_freq: periodic collection.
func H_freq() {
	w := newWorld("2s")
	t0 := time.Now()
	stop := time.Duration(verif.Pick("stop", 0, 9)) * 500 * time.Millisecond
	k := verif.Choose("events", verif.Bound(3, 4))
	type at struct {
		t time.Duration
		d int64
	}
	var evs []at
	for i := 0; i < k; i++ {
		t := []time.Duration{100, 1900, 2100, 2400, 3200, 4300}[verif.Choose("time", 6)] * time.Millisecond
		verif.Assume(t < stop && (len(evs) == 0 || t >= evs[len(evs)-1].t))
		evs = append(evs, at{t, dur(i)})
	}
	verif.SelectND()
	w.c.Start()
	for i, e := range evs {
		time.Sleep(time.Until(t0.Add(e.t)))
		w.record(i%3, stats.READ, e.d)
	}
	time.Sleep(time.Until(t0.Add(stop)))
	all := w.cur
	w.cur = nil
	w.c.Stop(time.Second, verif.Choose("terminated", 2) == 1)
	verif.Assert(time.Since(t0) < stop+100*time.Millisecond, "does not wait")
	verif.Reach("stopped")
	// every event is in the interval of the next tick, or the final one
	var last time.Duration // end of the last interval reported
	for i := 0; ; i++ {
		end := 2 * time.Second * time.Duration(i+1)
		final := end >= stop
		if final {
			end = stop
		}
		var in []event
		for n, e := range evs {
			if e.t > last && e.t < end {
				in = append(in, all[n])
			}
		}
		if final && len(w.r.got) <= i && last > 0 && stop-last < time.Second {
			verif.KnownIf("C34-tail", len(in) > 0)
			verif.Assert(len(in) == 0, "events after the last periodic collection are reported")
			break
		}
		w.cur = in
		w.end(end)
		last = end
		if final {
			break
		}
	}
	w.check()
	verif.Assert(w.r.stopped == 1, "reporters are stopped")
}

// H_sched: recording while collecting.
func H_sched() {
	w := newWorld("")
	w.c.Start()
	d := verif.Int64("d", 0, 9)
	done := make(chan bool)
	verif.Sched(verif.Bound(2, 3))
	go func() {
		for i := 0; i < 2; i++ {
			w.slot[0].Record(stats.READ, d)
		}
		close(done)
	}()
	w.c.Collect()
	w.c.Collect()
	<-done
	verif.SchedOff()
	w.c.Stop(time.Second, false)
	verif.Reach("stopped")
	verif.Assert(len(w.r.got) == 3, "every interval is reported once")
	var n, t uint64
	for _, in := range w.r.got {
		n += in.Trx["A"].N[stats.READ]
		t += in.Total.N[stats.TOTAL]
		if in.Total.N[stats.READ] > 0 {
			verif.Assert(in.Total.Min[stats.READ] == d && in.Total.Max[stats.READ] == d, "events keep their response time")
		}
	}
	verif.Assert(n <= 2 && t <= 2, "no event is counted twice")
}
