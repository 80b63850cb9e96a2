// Package c10: sharing of data keys.
package c10

import (
	"github.com/square/finch"
	"github.com/square/finch/client"
	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/dbconn"
	"github.com/square/finch/trx"
	"github.com/square/finch/workload"
	"github.com/square/finch/zzverif/gen"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound 2 data keys of any scope (incl. the default), each used at 3 (quick) or 4 (thorough) places; the places are any increasing run levels (stage, exec group, client group, client, trx, query: any numbers from 1 to 65536)
//verif:assume a workload is allocated in the order of the run levels: exec groups, their client groups, their clients, their trx, their statements (checked by H_alloc for workload.Allocator, C28)

var scopes = []string{
	finch.SCOPE_STATEMENT, finch.SCOPE_TRX, finch.SCOPE_ITER, finch.SCOPE_CLIENT,
	finch.SCOPE_CLIENT_GROUP, finch.SCOPE_EXEC_GROUP, finch.SCOPE_WORKLOAD,
	finch.SCOPE_STAGE, finch.SCOPE_GLOBAL, "", finch.SCOPE_ROW,
}

type place struct{ stage, eg, cg, client, trx, query uint }

func (p place) level() finch.RunLevel {
	return finch.RunLevel{Stage: p.stage, ExecGroup: p.eg, ClientGroup: p.cg, Client: p.client, Trx: p.trx, Query: uint64(p.query)}
}

// same tells if a and b are in the same instance of the scope.
func same(a, b place, scope string) bool {
	switch scope {
	case finch.SCOPE_GLOBAL:
		return true
	case finch.SCOPE_STAGE, finch.SCOPE_WORKLOAD:
		return a.stage == b.stage
	case finch.SCOPE_EXEC_GROUP:
		return a.stage == b.stage && a.eg == b.eg
	case finch.SCOPE_CLIENT_GROUP:
		return a.stage == b.stage && a.eg == b.eg && a.cg == b.cg
	case finch.SCOPE_CLIENT, finch.SCOPE_ITER:
		return a.stage == b.stage && a.eg == b.eg && a.cg == b.cg && a.client == b.client
	case finch.SCOPE_TRX:
		return a.stage == b.stage && a.eg == b.eg && a.cg == b.cg && a.client == b.client && a.trx == b.trx
	}
	return a == b
}

// notBefore tells if b follows a (or is a) in allocation order.
func notBefore(a, b place) bool {
	x := [...]uint{a.stage, a.eg, a.cg, a.client, a.trx, a.query}
	y := [...]uint{b.stage, b.eg, b.cg, b.client, b.trx, b.query}
	ge := true
	for i := 5; i >= 0; i-- {
		ge = y[i] > x[i] || (y[i] == x[i] && ge)
	}
	return ge
}

func anyPlace() place {
	u := func(n string) uint { return uint(verif.Uint64(n, 1, 1<<16)) }
	return place{u("stage"), u("exec group"), u("client group"), u("client"), u("trx"), u("query")}
}

// H_scope: the k-th use shares its generator with an earlier use exactly when both are in the
// same instance of the scope.
func H_scope() {
	scope := scopes[verif.Choose("scope", len(scopes))]
	eff := scope
	g := &gen.Count{}
	if scope == "" {
		eff = finch.SCOPE_STATEMENT
		if verif.Choose("column", 2) == 1 {
			g.Id = "column"
			eff = finch.SCOPE_TRX
		}
	}
	if scope == finch.SCOPE_ROW {
		eff = finch.SCOPE_STATEMENT
	}
	s := data.NewScope()
	var orig data.Generator = g
	if g.Id == "column" {
		orig = col{g}
	}
	s.Keys["@d"] = data.Key{Name: "@d", Column: -1, Scope: scope, Generator: orig}
	other := &gen.Count{}
	s.Keys["@other"] = data.Key{Name: "@other", Column: -1, Scope: finch.SCOPE_TRX, Generator: other}

	n := verif.Bound(3, 4)
	// the other key is used at one of the places too
	oat := verif.Choose("other", n+1)
	var at []place
	var got []*data.ScopedGenerator
	for k := 0; k < n; k++ {
		p := anyPlace()
		if k > 0 {
			verif.Assume(notBefore(at[k-1], p))
		}
		if k == oat {
			o := s.Copy("@other", p.level())
			for _, x := range got {
				verif.Assert(o != x, "another key has its own generator")
			}
		}
		sg := s.Copy("@d", p.level())
		verif.Assert(sg != nil, "every use gets a generator")
		sh := 0
		for j := range got {
			if got[j] == sg {
				sh = 1
			}
			verif.Assert((got[j] == sg) == same(at[j], p, eff), "shared exactly within the scope")
		}
		verif.Observe("shared", sh)
		at = append(at, p)
		got = append(got, sg)
		verif.Reach("used")
	}
	// the original is never used, only its copies
	var rc data.RunCount
	for i := range rc {
		rc[i] = 1
	}
	distinct := 0
	for k := range got {
		first := true
		for j := 0; j < k; j++ {
			if got[j] == got[k] {
				first = false
			}
		}
		if first {
			distinct++
		}
		got[k].Values(rc)
	}
	verif.Assert(g.N == 0 && g.Copies == distinct, "the original generator is never used itself")
	verif.Assert(other.N == 0, "the original generator is never used itself")
}

type col struct{ *gen.Count }

func (c col) Name() string { return "column" }

// H_value: a value scoped key is never shared.
func H_value() {
	s := data.NewScope()
	g := &gen.Count{}
	s.Keys["@d"] = data.Key{Name: "@d", Column: -1, Scope: finch.SCOPE_VALUE, Generator: g}
	p, q := anyPlace(), anyPlace()
	verif.Assume(notBefore(p, q))
	a := s.Copy("@d", p.level())
	b := s.Copy("@d", q.level())
	verif.Assert(a != nil && b != nil, "every use gets a generator")
	if p != q {
		verif.Assert(a != b, "different statements do not share a value scoped key")
	}
	a.Values(data.RunCount{})
	b.Values(data.RunCount{})
	verif.Assert(g.N == 0, "the original generator is never used itself")
	verif.Reach("value")
}

// H_stages: between stages, global keys stay with their generator and everything else is forgotten.
func H_stages() {
	s := data.NewScope()
	scope := scopes[verif.Choose("scope", len(scopes))]
	k := &gen.Count{}
	s.Keys["@d"] = data.Key{Name: "@d", Column: -1, Scope: scope, Generator: k}
	p := anyPlace()
	a := s.Copy("@d", p.level())
	verif.Assert(a != nil, "every use gets a generator")
	s.Reset()
	q := anyPlace()
	verif.Assume(q.stage > p.stage)
	if scope == finch.SCOPE_GLOBAL {
		b := s.Copy("@d", q.level())
		verif.Assert(b != nil, "every use gets a generator")
		verif.Assert(a == b, "shared exactly within the scope")
		verif.Reach("kept")
		return
	}
	// the next stage's trx files load the key again
	_, there := s.Keys["@d"]
	verif.Assert(!there, "the key is loaded again")
	k2 := &gen.Count{}
	s.Keys["@d"] = data.Key{Name: "@d", Column: -1, Scope: scope, Generator: k2}
	b := s.Copy("@d", q.level())
	verif.Assert(b != nil && a != b, "shared exactly within the scope")
	verif.Assert(k2.Copies == 1 && k.Copies == 1, "a copy of the new generator")
	verif.Reach("again")
}

// who returns the number of the copy that generated the value.
type who struct {
	n  int64
	cp *int64
}

func (w who) Format() (uint, string) { return 1, "%d" }
func (w who) Copy() data.Generator {
	*w.cp++
	return who{*w.cp, w.cp}
}
func (w who) Values(data.RunCount) []interface{} { return []interface{}{w.n} }
func (w who) Scan(interface{}) error             { return nil }
func (w who) Name() string                       { return "who" }

var trxLists = [][]string{{"a", "b"}, {"b", "a"}, {"b"}}

// H_alloc: the inputs of the allocated clients.
func H_alloc() {
	scope := scopes[verif.Choose("scope", len(scopes)-2)]
	var copies int64
	d := data.NewScope()
	d.Keys["@d"] = data.Key{Name: "@d", Column: -1, Scope: scope, Generator: who{0, &copies}}
	one := func() *trx.Statement {
		return &trx.Statement{Query: "select %d", ResultSet: true, Inputs: []string{"@d"}, Calls: []byte{0}}
	}
	set := &trx.Set{
		Order: []string{"a", "b"},
		Statements: map[string][]*trx.Statement{
			"a": {{Query: "select %d %d", ResultSet: true, Inputs: []string{"@d", "@d"}, Calls: []byte{0, 1}}, one()},
			"b": {one()},
		},
		Meta: map[string]trx.Meta{},
		Data: d,
	}
	sizes := [...]string{"1", "2"}
	var wl []config.ClientGroup
	var groups [][]int
	for eg, n := 0, verif.Pick("exec groups", 1, 2); eg < n; eg++ {
		var ids []int
		for cg, m := 0, verif.Pick("client groups", 1, 2); cg < m; cg++ {
			ids = append(ids, len(wl))
			wl = append(wl, config.ClientGroup{
				Group:   [...]string{"x", "y"}[eg],
				Clients: sizes[verif.Choose("clients", 2)],
				Trx:     trxLists[verif.Choose("trx", verif.Bound(2, 3))],
			})
		}
		groups = append(groups, ids)
	}
	dbconn.SetConfig(config.MySQL{DSN: "u:p@tcp(127.0.0.1)/"})
	a := workload.Allocator{Stage: 1, StageName: "s", TrxSet: set, Workload: wl, DoneChan: make(chan *client.Client, 1)}
	clients, err := a.Clients(groups, false)
	verif.Assert(err == nil, "allocated")
	type use struct {
		p  place
		id int64
	}
	var uses []use
	for eg := range clients {
		for cg := range clients[eg] {
			for k, c := range clients[eg][cg].Clients {
				s := 0
				for t, name := range wl[groups[eg][cg]].Trx {
					for q, st := range set.Statements[name] {
						verif.Assert(len(c.Data[s].Inputs) == len(st.Inputs), "every use gets a generator")
						for _, f := range c.Data[s].Inputs {
							var rc data.RunCount
							for i := range rc {
								rc[i] = 7
							}
							v := f(rc)
							verif.Assert(len(v) == 1, "one value")
							id, _ := v[0].(int64)
							verif.Assert(id > 0, "the original generator is never used itself")
							uses = append(uses, use{place{1, uint(eg + 1), uint(cg + 1), uint(k + 1), uint(t + 1), uint(q + 1)}, id})
						}
						s++
					}
				}
			}
		}
	}
	for i := range uses {
		for j := 0; j < i; j++ {
			if (uses[i].id == uses[j].id) != same(uses[i].p, uses[j].p, scope) {
				verif.Fail("shared exactly within the scope")
			}
		}
		verif.Assert(true, "shared exactly within the scope")
	}
	verif.Reach("allocated")
}
