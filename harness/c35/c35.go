// Package c35: intervals of several instances.
package c35

import (
	"fmt"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/stats"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_arrive: 1..3 instances (one may be local), any 5 (quick) or 6 (thorough) arrivals, each from any instance and of any interval from 1 to 4 (symbolic), in any order with duplicates and losses, then a forced report; H_stop: a local and 1..2 remote instances whose final report arrives before, during or after the wait for it, or never; H_sched: a local and 2 remote instances delivering 2 intervals, every interleaving with up to 1 (quick) or 2 (thorough) preemptions at locks
//verif:assume instances have different names; an instance delivers any report of an interval with the same content

type reported struct {
	in []stats.Instance
}

type reporter struct {
	got     []reported
	stopped int
}

func (r *reporter) Make(string, map[string]string) (stats.Reporter, error) { return r, nil }
func (r *reporter) Report(from []stats.Instance) {
	verif.Assert(len(from) > 0, "a report has an instance")
	verif.Assert(r.stopped == 0, "no report after the end")
	r.got = append(r.got, reported{append([]stats.Instance(nil), from...)})
}
func (r *reporter) Stop() { r.stopped++ }

var registered = 0

func newCollector(n uint) (*stats.Collector, *reporter, *stats.Trx) {
	registered++
	r := &reporter{}
	name := fmt.Sprintf("c35-%d", registered)
	verif.Assert(stats.Register(name, r) == nil, "register")
	c, err := stats.NewCollector(config.Stats{Report: map[string]map[string]string{name: {}}}, "local", n)
	verif.Assert(err == nil, "collector")
	t := stats.NewTrx("t")
	c.Watch([]*stats.Trx{t})
	return c, r, t
}

var hosts = []string{"local", "r1", "r2"}

// report is what a remote instance sends.
func report(host string, interval uint, n uint64) stats.Instance {
	in := stats.NewInstance(host)
	in.Interval = interval
	in.Clients = 1
	in.Total.N[stats.TOTAL] = n
	return in
}

type delivery struct {
	host string
	no   uint
	n    uint64
}

// model is what has to be reported.
type model struct {
	n    int // instances
	cur  []delivery
	no   uint // current interval
	want [][]delivery
}

func (m *model) flush() {
	if len(m.cur) > 0 {
		m.want = append(m.want, m.cur)
	}
	m.cur = nil
	m.no++
}

func (m *model) arrive(d delivery) {
	if d.no < m.no {
		return // late
	}
	if d.no > m.no {
		m.flush()
		m.no = d.no
	}
	for _, x := range m.cur {
		if x.host == d.host {
			return // again
		}
	}
	m.cur = append(m.cur, d)
	if len(m.cur) == m.n {
		m.flush()
	}
}

func (m *model) check(r *reporter) {
	verif.Assert(len(r.got) == len(m.want), "an interval is reported once, when it is complete or a later one arrives")
	for i, w := range m.want {
		got := r.got[i].in
		verif.Assert(len(got) == len(w), "an interval has exactly one report of every instance that delivered it")
		for _, d := range w {
			found := 0
			for _, in := range got {
				if in.Hostname == d.host {
					found++
					verif.Assert(in.Interval == d.no, "all reports of an interval have the same number")
					verif.Assert(in.Total.N[stats.TOTAL] == d.n, "a report is the one that the instance delivered")
				}
			}
			verif.Assert(found == 1, "an interval has one report of each instance")
		}
	}
}

// H_arrive: any order of arrival.
func H_arrive() {
	n := 1 + verif.Choose("instances", 3)
	first := verif.Choose("local", 2) // 0: hosts[0] is the local instance
	c, r, t := newCollector(uint(n))
	m := &model{n: n, no: 1}
	c.Start()
	collected := uint(0)
	for i := 0; i < verif.Bound(5, 6); i++ {
		h := verif.Choose("instance", n)
		if h == 0 && first == 0 {
			collected++
			for k := 0; k <= i; k++ {
				t.Record(stats.TOTAL, 3)
			}
			c.Collect()
			m.arrive(delivery{"local", collected, uint64(i + 1)})
		} else {
			no := uint(verif.Uint64("interval", 1, 4))
			host := hosts[h]
			if first == 1 && h == 0 {
				host = "r0"
			}
			c.Recv(report(host, no, uint64(100+i)))
			m.arrive(delivery{host, no, uint64(100 + i)})
		}
		m.check(r)
	}
	c.Lock()
	c.Report(true)
	c.Unlock()
	m.flush()
	verif.Reach("done")
	m.check(r)
}

// H_stop: the final interval.
func H_stop() {
	remotes := 1 + verif.Choose("remotes", 2)
	c, r, t := newCollector(uint(1 + remotes))
	c.Start()
	t.Record(stats.TOTAL, 3)
	at := make([]int64, remotes)
	for i := range at {
		// every 50 ms (the collector looks every 100 ms), before or after it stops at 1 s
		at[i] = verif.Int64("arrives", -1, int64(verif.Bound(4, 8)))*50 + 25
		if verif.Choose("late", 2) == 1 {
			at[i] += 1000
		}
		if at[i] < 0 { // before the local instance
			c.Recv(report(hosts[1+i], 1, uint64(i)))
			continue
		}
		i := i
		time.AfterFunc(time.Duration(at[i])*time.Millisecond, func() { c.Recv(report(hosts[1+i], 1, uint64(i))) })
	}
	last, in := int64(0), 1
	for _, x := range at {
		if x < 1000 {
			in++
		}
		if x > last {
			last = x
		}
	}
	t0 := time.Now()
	ok := c.Stop(time.Second, false)
	took := time.Since(t0)
	verif.Reach("stopped")
	verif.Assert(ok, "reported")
	verif.Assert(r.stopped == 1, "reporters are stopped")
	verif.Assert(len(r.got) == 1, "the final interval is reported once")
	if last >= 1000 { // incomplete
		verif.Assert(len(r.got[0].in) >= in && len(r.got[0].in) <= 1+remotes, "the final interval is reported with the instances that delivered it")
		verif.Assert(took <= 1200*time.Millisecond, "the wait times out")
		verif.Assert(in == 1+remotes || took >= time.Second, "missing instances are waited for")
	} else {
		verif.Assert(len(r.got[0].in) == 1+remotes, "the final interval is complete")
		verif.Assert(took <= time.Duration(last)*time.Millisecond+200*time.Millisecond, "the wait ends when the final interval is complete")
	}
	for _, x := range r.got[0].in {
		verif.Assert(x.Interval == 1, "the final interval")
	}
}

// H_sched: concurrent arrival.
func H_sched() {
	c, r, t := newCollector(3)
	c.Start()
	k := verif.Uint64("first interval", 1, 2)
	done := make(chan bool)
	verif.Sched(verif.Bound(1, 2))
	for i := 1; i <= 2; i++ {
		i := i
		go func() {
			for x := k; x <= 2; x++ {
				c.Recv(report(hosts[i], uint(x), uint64(10*i)+x))
			}
			done <- true
		}()
	}
	for x := 1; x <= 2; x++ {
		t.Record(stats.TOTAL, 3)
		c.Collect()
	}
	<-done
	<-done
	verif.SchedOff()
	c.Lock()
	c.Report(true)
	c.Unlock()
	verif.Reach("done")
	last := uint(0)
	for _, g := range r.got {
		no := g.in[0].Interval
		verif.Assert(no > last, "interval numbers never go backwards")
		last = no
		seen := map[string]bool{}
		for _, in := range g.in {
			verif.Assert(in.Interval == no, "all reports of an interval have the same number")
			verif.Assert(!seen[in.Hostname], "an interval has one report of each instance")
			seen[in.Hostname] = true
			if in.Hostname == "local" {
				verif.Assert(in.Total.N[stats.TOTAL] == 1, "a report is the one that the instance delivered")
			}
		}
	}
	verif.Assert(last == 2, "the last interval is reported")
}
