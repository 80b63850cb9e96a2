// Package c28: clients of a workload.
package c28

import (
	"strconv"
	"time"

	"github.com/square/finch/client"
	"github.com/square/finch/config"
	"github.com/square/finch/trx"
	"github.com/square/finch/zzverif/verif"
	"github.com/square/finch/zzverif/wl"
)

//verif:bound 1..3 client groups in any execution groups, with up to 3, 2 and 1 clients (symbolic), one of 6 assignments of 3 trx with 1, 2 and 3 statements (repeated, reordered, all), with any of the iteration limits (symbolic, up to 2^31), a runtime, a database and statistics or without
//verif:assume allocation of data generators is C10's

func H_clients() {
	set := wl.Set([]int{1, 2, 3}, []bool{false, false, false})
	lists := [][]string{{"A"}, {"B", "A"}, {"A", "B", "C"}, {"C", "C", "A"}, nil, {"B", "B"}}
	n := 1 + verif.Choose("client groups", 3)
	type spec struct {
		clients             int64
		trx                 []string
		iter, iterCG, iterE int64
		runtime             int64
		stats               bool
		db                  string
	}
	var specs []spec
	var cg []config.ClientGroup
	withStats := verif.Choose("stats", 2) == 1
	for i := 0; i < n; i++ {
		var s spec
		s.clients = verif.Int64("clients", 1, []int64{3, 2, 1}[i])
		g := config.ClientGroup{Clients: strconv.FormatInt(s.clients, 10)}
		if i > 0 {
			g.Group = []string{"x", "y"}[verif.Choose("group", 2)]
		} else {
			g.Group = "x"
		}
		l := 3 - i
		if i == 0 || verif.Thorough() {
			l = verif.Choose("trx", len(lists))
		}
		s.trx = lists[l]
		g.Trx = lists[l]
		if s.trx == nil {
			s.trx = []string{"A", "B", "C"}
		}
		if i < 2 && (n < 3 || i == 1 || verif.Thorough()) {
			s.iter, s.iterCG, s.iterE = verif.Int64("iter", 0, 1<<31), verif.Int64("iter-clients", 0, 1<<31), verif.Int64("iter-exec-group", 0, 1<<31)
			g.Iter, g.IterClients, g.IterExecGroup = strconv.FormatInt(s.iter, 10), strconv.FormatInt(s.iterCG, 10), strconv.FormatInt(s.iterE, 10)
			s.runtime = verif.Int64("runtime", 1, 1<<30)
			g.Runtime = strconv.FormatInt(s.runtime, 10) + "ms"
		}
		s.stats = withStats
		if i == 1 {
			s.db = "d1"
			g.Db = "d1"
			if withStats && verif.Choose("disable stats", 2) == 1 {
				g.DisableStats = true
				s.stats = false
			}
		}
		specs = append(specs, s)
		cg = append(cg, g)
	}
	a := wl.Allocator(set, cg)
	groups, err := a.Groups()
	verif.Assert(err == nil, "groups")
	cl, err := a.Clients(groups, withStats)
	verif.Reach("allocated")
	verif.Assert(err == nil, "no error")
	verif.Assert(len(cl) == len(groups), "every execution group")

	type id struct{ e, g, c uint }
	ids := map[id]bool{}
	seen := map[*client.Client]bool{}
	stats := map[interface{}]bool{}
	egPtr := map[*uint32]int{} // iteration counter -> execution group
	cgPtr := map[*uint32]int{} // iteration counter -> client group
	for e := range groups {
		verif.Assert(len(cl[e]) == len(groups[e]), "every client group")
		for k, i := range groups[e] {
			s := specs[i]
			g := cl[e][k]
			verif.Assert(int64(len(g.Clients)) == s.clients, "the configured number of clients")
			verif.Assert(int64(g.Runtime) == s.runtime*int64(time.Millisecond), "the client group's runtime")
			for _, c := range g.Clients {
				verif.Assert(c != nil && !seen[c], "every client is its own")
				seen[c] = true
				rl := c.RunLevel
				verif.Assert(rl.Stage == 1 && rl.StageName == "s" && rl.ExecGroupName == cg[i].Group, "run level")
				x := id{rl.ExecGroup, rl.ClientGroup, rl.Client}
				verif.Assert(!ids[x], "a run level identifies one client")
				ids[x] = true
				verif.Assert(c.DefaultDb == s.db, "the client group's database")
				verif.Assert(int64(c.Iter) == s.iter, "the client's iterations")
				verif.Assert(c.DoneChan == a.DoneChan, "clients report to the stage")
				verif.Assert(c.DB != nil && c.DB == g.Clients[0].DB, "a connection pool of the client group")

				// iterations shared by client group and execution group
				verif.Assert(s.iterCG > 0 || c.IterClients == 0, "no client group limit unless configured")
				if s.iterCG > 0 {
					verif.Assert(int64(c.IterClients) == s.iterCG && c.IterClientsPtr != nil, "the client group's iterations")
					of, ok := cgPtr[c.IterClientsPtr]
					verif.Assert(!ok || of == i, "clients of one client group share a count")
					verif.Assert(c.IterClientsPtr == g.Clients[0].IterClientsPtr, "clients of a client group share the count")
					cgPtr[c.IterClientsPtr] = i
					_, other := egPtr[c.IterClientsPtr]
					verif.Assert(!other, "a client group's count is not an execution group's")
				}
				verif.Assert(s.iterE > 0 || c.IterExecGroup == 0, "no execution group limit unless configured")
				if s.iterE > 0 {
					verif.Assert(int64(c.IterExecGroup) == s.iterE && c.IterExecGroupPtr != nil, "the execution group's iterations")
					of, ok := egPtr[c.IterExecGroupPtr]
					verif.Assert(!ok || of == e, "clients of one execution group share a count")
					egPtr[c.IterExecGroupPtr] = e
					for p, pe := range egPtr {
						verif.Assert(pe != e || p == c.IterExecGroupPtr, "clients of an execution group share the count")
					}
					_, other := cgPtr[c.IterExecGroupPtr]
					verif.Assert(!other, "an execution group's count is not a client group's")
				}

				// statements and statistics
				verif.Assert(len(c.Stats) == len(s.trx), "statistics for each trx")
				j := 0
				for t, name := range s.trx {
					st := c.Stats[t]
					verif.Assert((st != nil) == s.stats, "statistics only when enabled")
					if st != nil {
						verif.Assert(st.Name == name && !stats[st], "each trx of a client has its own statistics")
						stats[st] = true
					}
					of := set.Statements[name]
					for q := range of {
						verif.Assert(j < len(c.Statements) && j < len(c.Data), "every statement")
						verif.Assert(c.Statements[j] == of[q], "statements in configured order")
						want := byte(0)
						if q == 0 {
							want |= trx.BEGIN
						}
						if q == len(of)-1 {
							want |= trx.END
						}
						verif.Assert(c.Data[j].TrxBoundary == want, "trx boundaries at the first and last statement of a trx")
						j++
					}
				}
				verif.Assert(j == len(c.Statements) && j == len(c.Data), "no other statements")
			}
		}
	}
}
