// Package c29: rate limits at every level.
package c29

import (
	"strconv"
	"time"

	"github.com/square/finch/client"
	"github.com/square/finch/config"
	"github.com/square/finch/limit"
	"github.com/square/finch/zzverif/verif"
	"github.com/square/finch/zzverif/wl"
)

//verif:opt * validate=no fp=fork
//verif:bound 2 execution groups (two client groups with 2 and 1 clients, and one client group with 1 client); H_one: one limit of either kind at any of the 4 levels, of any of its groups, any rate from 4 to 9 per second (symbolic), for 2 seconds; H_two: two limits of any kinds at different levels, rates 3..4 and 8..9 (symbolic), for 2 seconds; H_none: no limit
//verif:assume golang.org/x/time/rate runs under virtual time; every client takes permits as soon as it can

const (
	stage = iota
	eg
	cg
	cl
)

// setup allocates clients; set sets limits.
type shape struct {
	cg       []config.ClientGroup
	qps, tps int64 // of the stage
	clients  []*client.Client
	eg       []int // execution group of each client
	grp      []int // client group of each client
}

func newShape() *shape {
	return &shape{cg: []config.ClientGroup{{Group: "x", Clients: "2", Trx: []string{"A"}}, {Group: "x", Clients: "1", Trx: []string{"A"}}, {Group: "y", Clients: "1", Trx: []string{"A"}}}}
}

func rate(n int64) limit.Rate { return limit.NewRate(uint(n)) }

func (s *shape) alloc() {
	a := wl.Allocator(wl.Set([]int{1}, []bool{false}), s.cg)
	a.StageQPS, a.StageTPS = rate(s.qps), rate(s.tps)
	groups, err := a.Groups()
	verif.Assert(err == nil && len(groups) == 2, "groups")
	all, err := a.Clients(groups, false)
	verif.Assert(err == nil, "allocated")
	for e := range all {
		for k := range all[e] {
			for _, c := range all[e][k].Clients {
				s.clients = append(s.clients, c)
				s.eg = append(s.eg, e)
				s.grp = append(s.grp, groups[e][k])
			}
		}
	}
	verif.Assert(len(s.clients) == 4, "clients")
}

// set sets a limit of a level in client group i.
func (s *shape) set(tps bool, level, i int, n int64) {
	v := strconv.FormatInt(n, 10)
	g := &s.cg[i]
	switch {
	case level == stage && tps:
		s.tps = n
	case level == stage:
		s.qps = n
	case level == eg && tps:
		g.TPSExecGroup = v
	case level == eg:
		g.QPSExecGroup = v
	case level == cg && tps:
		g.TPSClients = v
	case level == cg:
		g.QPSClients = v
	case tps:
		g.TPS = v
	default:
		g.QPS = v
	}
}

// scope identifies the clients that share a limit of a level with client c, if it was set in client group i.
func (s *shape) scope(level, i, c int) (string, bool) {
	switch level {
	case stage:
		return "stage", true
	case eg:
		return "eg" + strconv.Itoa(s.eg[c]), s.cg[s.grp[c]].Group == s.cg[i].Group
	case cg:
		return "cg" + strconv.Itoa(s.grp[c]), s.grp[c] == i
	}
	return "cl" + strconv.Itoa(c), s.grp[c] == i
}

// draw lets every client take all the permits it gets.
func (s *shape) draw(seconds int) (q, t []int64) {
	q, t = make([]int64, len(s.clients)), make([]int64, len(s.clients))
	stop := make(chan bool)
	take := func(c <-chan bool, n *int64) {
		if c == nil {
			return
		}
		go func() {
			for {
				select {
				case <-c:
					*n++
				case <-stop:
					return
				}
			}
		}()
	}
	for i, c := range s.clients {
		take(c.QPS, &q[i])
		take(c.TPS, &t[i])
	}
	time.Sleep(time.Second) // take the permits that are ready at the start
	for i := range s.clients {
		q[i], t[i] = 0, 0
	}
	time.Sleep(time.Duration(seconds)*time.Second + time.Millisecond)
	verif.Quiesce()
	close(stop)
	verif.Quiesce()
	return q, t
}

const seconds = 2

// H_one: one limit.
func H_one() {
	s := newShape()
	tps := verif.Choose("tps", 2) == 1
	level := verif.Choose("level", 4)
	i := verif.Choose("client group", 3)
	n := verif.Int64("rate", 4, 9)
	s.set(tps, level, i, n)
	s.alloc()
	verif.Reach("allocated")
	sum := map[string]int64{}
	for k, c := range s.clients {
		_, limited := s.scope(level, i, k)
		verif.Assert((c.QPS != nil) == (limited && !tps), "a client has a QPS limit exactly when one is configured")
		verif.Assert((c.TPS != nil) == (limited && tps), "a client has a TPS limit exactly when one is configured")
	}
	q, t := s.draw(seconds)
	for k := range s.clients {
		if x, limited := s.scope(level, i, k); limited {
			sum[x] += q[k] + t[k]
		}
	}
	for _, got := range sum {
		verif.Assert(got <= n*seconds+4, "clients that share a limit do not exceed it together")
		verif.Assert(got >= n*seconds-2, "clients that share a limit share it with no others")
	}
}

// H_two: two limits.
func H_two() {
	s := newShape()
	var tps [2]bool
	var level, in [2]int
	var n [2]int64
	for k := range level {
		tps[k] = verif.Choose("tps", 2) == 1
		in[k] = verif.Choose("client group", 3)
	}
	level[0] = verif.Choose("level", 4)
	level[1] = (level[0] + 1 + verif.Choose("other level", 3)) % 4
	n[0], n[1] = verif.Int64("rate", 3, 4), verif.Int64("rate", 8, 9)
	for k := range level {
		s.set(tps[k], level[k], in[k], n[k])
	}
	s.alloc()
	verif.Reach("allocated")
	for c, x := range s.clients {
		var q, t bool
		for k := range level {
			if _, limited := s.scope(level[k], in[k], c); limited {
				q = q || !tps[k]
				t = t || tps[k]
			}
		}
		verif.Assert((x.QPS != nil) == q, "a client has a QPS limit exactly when one is configured")
		verif.Assert((x.TPS != nil) == t, "a client has a TPS limit exactly when one is configured")
	}
	q, t := s.draw(seconds)
	for k := range level {
		sum := map[string]int64{}
		for c := range s.clients {
			if x, limited := s.scope(level[k], in[k], c); limited {
				if tps[k] {
					sum[x] += t[c]
				} else {
					sum[x] += q[c]
				}
			}
		}
		for _, got := range sum {
			verif.Assert(got <= n[k]*seconds+6, "clients that share a limit do not exceed it together")
		}
	}
}

// H_none: no limit.
func H_none() {
	s := newShape()
	for i := range s.cg {
		z := strconv.FormatInt(verif.Int64("zero", 0, 0), 10)
		s.cg[i].QPS, s.cg[i].TPS, s.cg[i].QPSClients, s.cg[i].TPSClients, s.cg[i].QPSExecGroup, s.cg[i].TPSExecGroup = z, z, z, z, z, z
	}
	s.alloc()
	verif.Reach("allocated")
	for _, c := range s.clients {
		verif.Assert(c.QPS == nil && c.TPS == nil, "no limit unless configured")
	}
}
