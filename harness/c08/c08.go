// Package c08: multi-client data scopes.
package c08

import (
	"fmt"
	"sync"

	"github.com/square/finch"
	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/gen"
	"github.com/square/finch/zzverif/verif"
)

//verif:assume a client's iteration count starts at 1 and never decreases
//verif:bound histories: 4 (quick) or 5 (thorough) uses by 3 (quick) or 4 (thorough) clients with any client, client group and execution group numbers, any advance of the iteration
//verif:bound interleavings: 2 clients, 3 uses each, 1 (quick) or 3 (thorough) preemptions

var scopes = []string{finch.SCOPE_CLIENT_GROUP, finch.SCOPE_EXEC_GROUP, finch.SCOPE_WORKLOAD}

// clients: clients as the allocator numbers them: numbers repeat in every
// client group, client groups in every execution group.
func clients(scope int, n int) []data.RunCount {
	var out []data.RunCount
	for i := 0; i < n; i++ {
		var rc data.RunCount
		rc[data.CLIENT] = uint(verif.Uint64(fmt.Sprintf("client%d", i), 1, 1<<32))
		rc[data.CLIENT_GROUP] = 7
		rc[data.EXEC_GROUP] = 9
		if scope >= 1 {
			rc[data.CLIENT_GROUP] = uint(verif.Uint64(fmt.Sprintf("cg%d", i), 1, 1<<32))
		}
		if scope >= 2 {
			rc[data.EXEC_GROUP] = uint(verif.Uint64(fmt.Sprintf("eg%d", i), 1, 1<<32))
		}
		rc[data.STAGE] = 1
		for _, o := range out {
			verif.Assume(o[data.CLIENT] != rc[data.CLIENT] || o[data.CLIENT_GROUP] != rc[data.CLIENT_GROUP] || o[data.EXEC_GROUP] != rc[data.EXEC_GROUP])
		}
		out = append(out, rc)
	}
	return out
}

// H_history: one value per client and iteration, for every history of uses.
func H_history() {
	k := verif.Choose("scope", len(scopes))
	nc := verif.Bound(3, 4)
	rcs := clients(k, nc)
	g := &gen.Count{}
	s := data.NewScopedGenerator(data.Id{Scope: scopes[k], DataKey: "@d"}, g)
	want := make([]int64, nc)
	at := make([]uint, nc)
	made := int64(0)
	for i := 0; i < verif.Bound(4, 5); i++ {
		c := verif.Choose("who", nc)
		rc := &rcs[c]
		lo := uint64(0)
		if rc[data.ITER] == 0 {
			lo = 1
		}
		rc[data.ITER] += uint(verif.Uint64(fmt.Sprintf("iter%d", i), lo, 1<<32))
		rc[data.STATEMENT] += uint(verif.Uint64(fmt.Sprintf("stmt%d", i), 0, 1<<32))
		explicit := verif.Choose("explicit", 2) == 1
		fresh := explicit || want[c] == 0 || rc[data.ITER] != at[c]
		if fresh {
			made++
			want[c], at[c] = made, rc[data.ITER]
		}
		var v []interface{}
		if explicit {
			v = s.Call(*rc)
		} else {
			v = s.Values(*rc)
		}
		verif.Assert(len(v) == 1, "a use yields a value")
		n, ok := v[0].(int64)
		verif.Assert(ok && n == want[c], "one value per client and iteration")
		verif.Assert(g.N == made, "the generator is called once per client and iteration")
		verif.Observe("v", n)
		if fresh {
			verif.Assert(g.Last == *rc, "the generator sees the client's run count")
		}
		verif.Reach("used")
	}
}

// H_interleaved: clients use the key concurrently.
//
//verif:opt H_interleaved native=sched
func H_interleaved() {
	k := verif.Choose("scope", len(scopes))
	same := verif.Choose("samenumber", 2) == 1
	s := data.NewScopedGenerator(data.Id{Scope: scopes[k], DataKey: "@d"}, &gen.Atomic{})
	var got [2][3]int64
	verif.Sched(verif.Bound(1, 3))
	verif.Race()
	var wg sync.WaitGroup
	for c := 0; c < 2; c++ {
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			var rc data.RunCount
			rc[data.CLIENT], rc[data.CLIENT_GROUP], rc[data.EXEC_GROUP] = uint(c+1), 1, 1
			if same && k == 1 {
				rc[data.CLIENT], rc[data.CLIENT_GROUP] = 1, uint(c+1)
			}
			if same && k == 2 {
				rc[data.CLIENT], rc[data.EXEC_GROUP] = 1, uint(c+1)
			}
			for i, iter := range []uint{1, 1, 2} {
				rc[data.ITER] = iter
				v := s.Values(rc)
				verif.Assert(len(v) == 1, "a use yields a value")
				got[c][i] = v[0].(int64)
			}
		}()
	}
	wg.Wait()
	seen := map[int64]int{}
	for c := range got {
		verif.Assert(got[c][0] == got[c][1], "same value within an iteration")
		verif.Assert(got[c][2] > got[c][1], "new value in a new iteration")
		seen[got[c][0]]++
		seen[got[c][2]]++
	}
	for i := int64(1); i <= 4; i++ {
		verif.Assert(seen[i] == 1, "every generated value goes to one client and iteration")
	}
	verif.Reach("done")
}
