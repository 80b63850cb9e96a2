// Package c22: clients sharing iteration limits.
package c22

import (
	"context"
	"sync"

	"github.com/square/finch/zzverif/ck"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound 2 (quick) or 2..3 (thorough) clients in 1..2 client groups of one execution group, every combination of limits 0..2 (quick) or 0..3 (thorough)
//verif:bound interleavings with at most 2 preemptions (1 for two client groups in quick, 1 for three clients), at the atomic, lock and channel operations of package client (a call into database/sql is preempted only where it blocks)
//verif:assume the server answers every query without error (a scripted database/sql driver under the real database/sql)

func shared(clients, max, preempt int) {

	var eg uint32
	iterEG := uint32(verif.Uint64("iter-exec-group", 0, uint64(max)))
	groups := verif.Pick("groups", 1, 2)
	cg := make([]uint32, groups)
	iterCG := make([]uint32, groups)
	iterC := make([]uint, groups)
	for g := range iterCG {
		iterCG[g] = uint32(verif.Uint64("iter-clients", 0, uint64(max)))
		iterC[g] = uint(verif.Uint64("iter", 0, uint64(max)))
		verif.Assume(iterEG > 0 || iterCG[g] > 0 || iterC[g] > 0)
	}
	var rs []*ck.Run
	for c := 0; c < clients; c++ {
		g := c % groups
		r := ck.New([][]ck.Spec{{{Kind: ck.Write}}}, false)
		r.C.IterExecGroup, r.C.IterExecGroupPtr = iterEG, &eg
		r.C.IterClients, r.C.IterClientsPtr = iterCG[g], &cg[g]
		r.C.Iter = iterC[g]
		verif.Assert(r.C.Init() == nil, "init")
		rs = append(rs, r)
	}
	if groups == 2 && !verif.Thorough() {
		preempt--
	}
	verif.Sched(preempt)
	verif.SchedIn("github.com/square/finch")
	verif.Race()
	var wg sync.WaitGroup
	for _, r := range rs {
		r := r
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.C.Run(context.Background())
		}()
	}
	wg.Wait()
	verif.SchedOff()
	total := 0
	per := make([]int, groups)
	for c, r := range rs {
		n := len(r.Executed())
		total += n
		per[c%groups] += n
		lim := iterC[c%groups]
		verif.Assert(lim == 0 || uint(n) <= lim, "no client exceeds its own limit")
		verif.Assert(len(r.C.DoneChan) == 1 && r.C.Error.Err == nil, "a limit is not an error")
	}
	verif.Assert(iterEG == 0 || uint32(total) <= iterEG, "the execution group does not exceed its limit")
	for g := range per {
		verif.Assert(iterCG[g] == 0 || uint32(per[g]) <= iterCG[g], "the client group does not exceed its limit")
	}
	for c, r := range rs {
		g := c % groups
		own := iterC[g] > 0 && uint(len(r.Executed())) == iterC[g]
		group := iterCG[g] > 0 && uint32(per[g]) == iterCG[g]
		all := iterEG > 0 && uint32(total) == iterEG
		verif.Assert(own || group || all, "a client stops only when one of its limits is met exactly")
	}
	verif.Reach("ran")
}

// H_two: two clients.
func H_two() { shared(2, verif.Bound(2, 3), 2) }

// H_three: three clients.
//
//verif:opt H_three tier=thorough
func H_three() { shared(3, 2, 1) }
