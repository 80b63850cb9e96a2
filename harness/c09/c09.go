// Package c09: stage and global scope.
package c09

import (
	"sync"

	"github.com/square/finch"
	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/gen"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound histories: 4 (quick) or 6 (thorough) uses with any run count
//verif:bound interleavings: 2 (quick) or 3 (thorough) clients, 2 uses each, 2 preemptions

var scopes = []string{finch.SCOPE_STAGE, finch.SCOPE_GLOBAL}

func anyCount(i int) data.RunCount {
	var rc data.RunCount
	for k := range rc {
		rc[k] = uint(verif.Uint64("count", 0, 1<<32))
	}
	return rc
}

// H_history: one value, whoever asks and whenever.
func H_history() {
	s := data.NewScopedGenerator(data.Id{Scope: scopes[verif.Choose("scope", 2)], DataKey: "@d"}, &gen.Count{Width: verif.Pick("width", 1, 2)})
	for i := 0; i < verif.Bound(4, 6); i++ {
		v := s.Values(anyCount(i))
		n, _ := s.Format()
		verif.Assert(len(v) == int(n), "the value is never missing")
		for _, x := range v {
			verif.Assert(x == int64(1), "every use returns the first value")
		}
		verif.Reach("used")
	}
}

// H_explicit: explicit calls generate a value that later uses repeat.
func H_explicit() {
	g := &gen.Count{}
	s := data.NewScopedGenerator(data.Id{Scope: scopes[verif.Choose("scope", 2)], DataKey: "@d"}, g)
	want := int64(0)
	for i := 0; i < verif.Bound(4, 5); i++ {
		var v []interface{}
		if verif.Choose("explicit", 2) == 1 {
			want++
			v = s.Call(anyCount(i))
		} else {
			if want == 0 {
				want = 1
			}
			v = s.Values(anyCount(i))
		}
		verif.Assert(len(v) == 1 && v[0] == want, "an explicit call renews the value, a use repeats it")
		verif.Assert(g.N == want, "nothing else generates a value")
		verif.Reach("used")
	}
}

// H_interleaved: concurrent first uses.
//
//verif:opt H_interleaved native=sched
func H_interleaved() {
	g := &gen.Atomic{}
	s := data.NewScopedGenerator(data.Id{Scope: scopes[verif.Choose("scope", 2)], DataKey: "@d"}, g)
	nc := verif.Bound(2, 3)
	verif.Sched(2)
	verif.Race()
	var wg sync.WaitGroup
	for c := 0; c < nc; c++ {
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2; i++ {
				var rc data.RunCount
				rc[data.CLIENT] = uint(c)
				rc[data.ITER] = uint(i)
				v := s.Values(rc)
				verif.Assert(len(v) == 1, "the value is never missing")
				verif.Assert(v[0] == int64(1), "every client sees the one value")
			}
		}()
	}
	wg.Wait()
	verif.Assert(g.N == 1, "one value is generated")
	verif.Reach("done")
}
