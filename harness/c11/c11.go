// Package c11: client-id.
package c11

import (
	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound up to 3 (quick) or 4 (thorough) ids, any run count

var ids = []struct {
	name string
	idx  byte
}{
	{"statement", data.STATEMENT}, {"trx", data.TRX}, {"iter", data.ITER}, {"conn", data.CONN},
	{"client", data.CLIENT}, {"client-group", data.CLIENT_GROUP}, {"exec-group", data.EXEC_GROUP},
}

func anyCount() data.RunCount {
	var rc data.RunCount
	for k := range rc {
		rc[k] = uint(verif.Uint64("count", 0, 1<<64-1))
	}
	return rc
}

// H_ids: one number per id, in order.
func H_ids() {
	n := verif.Pick("n", 1, verif.Bound(3, 4))
	csv := ""
	var want []byte
	for i := 0; i < n; i++ {
		k := verif.Choose("id", len(ids))
		if i > 0 {
			csv += ","
		}
		csv += ids[k].name
		want = append(want, ids[k].idx)
	}
	g, err := data.Make("client-id", "@d", map[string]string{"ids": csv})
	verif.Assert(err == nil, "accepted")
	if verif.Choose("copy", 2) == 1 {
		g = g.Copy()
	}
	nf, f := g.Format()
	verif.Assert(int(nf) == n && f == "%d", "format")
	rc1, rc2 := anyCount(), anyCount()
	v1 := g.Values(rc1)
	v2 := g.Values(rc2)
	verif.Assert(len(v1) == n && len(v2) == n, "one number per id")
	for i := range want {
		a, ok := v1[i].(uint)
		b, ok2 := v2[i].(uint)
		verif.Assert(ok && ok2, "numbers")
		verif.Observe("v", a)
		verif.Assert(a == rc1[want[i]] && b == rc2[want[i]], "the counters asked for, in order")
	}
	verif.Reach("ids")
}

// H_default: only the client number.
func H_default() {
	g, err := data.Make("client-id", "@d", nil)
	if verif.Choose("empty", 2) == 1 {
		g, err = data.Make("client-id", "@d", map[string]string{})
	}
	verif.Assert(err == nil, "accepted")
	nf, _ := g.Format()
	rc := anyCount()
	v := g.Values(rc)
	verif.Assert(nf == 1 && len(v) == 1 && v[0] == rc[data.CLIENT], "the client number")
	verif.Reach("default")
}

// H_unknown: unknown ids are rejected, wherever they are in the list.
func H_unknown() {
	bad := []string{"stage", "global", "workload", "row", "value", "foo", "", " client", "Client", "clients"}
	csv := ""
	pos := verif.Choose("pos", 3)
	for i := 0; i < 3; i++ {
		if i > 0 {
			csv += ","
		}
		if i == pos {
			csv += bad[verif.Choose("bad", len(bad))]
		} else {
			csv += ids[verif.Choose("id", len(ids))].name
		}
	}
	_, err := data.Make("client-id", "@d", map[string]string{"ids": csv})
	verif.Assert(err != nil, "unknown ids are rejected")
	verif.Reach("unknown")
}
