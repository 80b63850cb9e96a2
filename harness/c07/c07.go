// Package c07: single-client data scopes.
package c07

import (
	"fmt"

	"github.com/square/finch"
	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/gen"
	"github.com/square/finch/zzverif/verif"
)

//verif:assume run counters start at 1 and never decrease, as a client counts them
//verif:bound 4 (quick) or 6 (thorough) uses of one key, any advance of every counter (32 bit) before each use, plain or explicit use

var scopes = []string{finch.SCOPE_STATEMENT, finch.SCOPE_TRX, finch.SCOPE_ITER, finch.SCOPE_CLIENT, finch.SCOPE_ROW}
var counter = []byte{data.STATEMENT, data.TRX, data.ITER, data.CONN, data.STATEMENT}

func advance(rc *data.RunCount, step int) {
	for i := data.STATEMENT; i <= data.CONN; i++ {
		lo := uint64(0)
		if step == 0 {
			lo = 1
		}
		rc[i] += uint(verif.Uint64(fmt.Sprintf("advance%d.%d", step, i), lo, 1<<32))
	}
}

func use(s *data.ScopedGenerator, rc data.RunCount, explicit bool) int64 {
	var v []interface{}
	if explicit {
		v = s.Call(rc)
	} else {
		v = s.Values(rc)
	}
	verif.Assert(len(v) == 1, "a use yields the generator's value")
	n, ok := v[0].(int64)
	verif.Assert(ok, "a use yields the generator's value")
	return n
}

// H_scope: a new value exactly on the first use in a new scope iteration and on explicit calls.
func H_scope() {
	k := verif.Choose("scope", len(scopes))
	g := &gen.Count{}
	s := data.NewScopedGenerator(data.Id{Scope: scopes[k], DataKey: "@d"}, g)
	var rc data.RunCount
	rc[data.CLIENT] = uint(verif.Uint64("client", 1, 1000))
	rc[data.CLIENT_GROUP] = uint(verif.Uint64("cg", 1, 1000))
	rc[data.EXEC_GROUP] = uint(verif.Uint64("eg", 1, 1000))
	want := int64(0)
	at := uint(0)
	for i := 0; i < verif.Bound(4, 6); i++ {
		advance(&rc, i)
		explicit := verif.Choose("explicit", 2) == 1
		now := rc[counter[k]]
		fresh := explicit || want == 0 || now != at
		if fresh {
			want++
			at = now
		}
		v := use(s, rc, explicit)
		verif.Observe("v", v)
		verif.Assert(v == want, "the value changes exactly when the scope does")
		verif.Assert(g.N == want, "the generator is called once per change")
		if fresh {
			verif.Assert(g.Last == rc, "the generator sees the client's current run count")
			verif.Reach("new")
		} else {
			verif.Reach("same")
		}
	}
}

// H_value: value scope generates a value for every use.
func H_value() {
	g := &gen.Count{}
	s := data.NewScopedGenerator(data.Id{Scope: finch.SCOPE_VALUE, DataKey: "@d"}, g)
	var rc data.RunCount
	for i := 0; i < verif.Bound(4, 6); i++ {
		advance(&rc, i)
		explicit := verif.Choose("explicit", 2) == 1
		v := use(s, rc, explicit)
		verif.Assert(v == int64(i+1) && g.N == int64(i+1), "every use generates a value")
		verif.Assert(g.Last == rc, "the generator sees the client's current run count")
		verif.Reach("new")
	}
}

// H_two: two keys of one client do not influence each other.
func H_two() {
	k := verif.Choose("scope1", len(scopes))
	l := verif.Choose("scope2", len(scopes))
	g1, g2 := &gen.Count{}, &gen.Count{N: 100}
	s1 := data.NewScopedGenerator(data.Id{Scope: scopes[k], DataKey: "@d"}, g1)
	s2 := data.NewScopedGenerator(data.Id{Scope: scopes[l], DataKey: "@e"}, g2)
	var rc data.RunCount
	w1, w2 := int64(0), int64(100)
	a1, a2 := uint(0), uint(0)
	for i := 0; i < verif.Bound(3, 4); i++ {
		advance(&rc, i)
		if verif.Choose("key", 2) == 0 {
			if rc[counter[k]] != a1 {
				w1, a1 = w1+1, rc[counter[k]]
			}
			verif.Assert(use(s1, rc, false) == w1, "first key")
		} else {
			if rc[counter[l]] != a2 {
				w2, a2 = w2+1, rc[counter[l]]
			}
			verif.Assert(use(s2, rc, false) == w2, "second key")
		}
		verif.Reach("used")
	}
}

// H_delegate: a scoped key passes format, name and scanned values through.
func H_delegate() {
	k := verif.Choose("scope", len(scopes)+1)
	sc := finch.SCOPE_VALUE
	if k < len(scopes) {
		sc = scopes[k]
	}
	g := &gen.Count{Width: verif.Pick("width", 1, 3)}
	s := data.NewScopedGenerator(data.Id{Scope: sc, DataKey: "@d"}, g)
	n, f := s.Format()
	gn, gf := g.Format()
	verif.Assert(n == gn && f == gf, "format")
	verif.Assert(s.Name() == "count", "name")
	verif.Assert(len(s.Values(data.RunCount{1, 1, 1, 1})) == g.Width, "all values")
	c := data.NewColumn(nil)
	sc2 := data.NewScopedGenerator(data.Id{Scope: sc, DataKey: "@c"}, c)
	x := verif.Int64("x", -1<<63, 1<<63-1)
	verif.Assert(sc2.Scan(x) == nil, "scan")
	v := sc2.Values(data.RunCount{1, 1, 1, 1})
	verif.Assert(len(v) == 1 && v[0] == x, "scanned value")
	verif.Reach("delegated")
}
