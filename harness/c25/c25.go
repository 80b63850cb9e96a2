// Package c25: statistics that a client records.
package c25

import (
	"context"
	"strings"

	"github.com/square/finch"
	"github.com/square/finch/client"
	"github.com/square/finch/config"
	"github.com/square/finch/dbconn"
	"github.com/square/finch/stats"
	"github.com/square/finch/workload"
	"github.com/square/finch/zzverif/ck"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/tf"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_count: 2..3 (quick) or 2..4 (thorough) statements of 8 kinds in 1..2 trx files split anywhere, 1..3 iterations (symbolic); H_error: 2 statements of 5 kinds (DDL and COMMIT too), up to 2 executions fail with any MySQL error code (symbolic), a lost connection or an error of reading rows; H_load: 2 loaded trx files of 2 statements with all first words
//verif:assume the server is a scripted database/sql driver under the real database/sql

var menu = []ck.Spec{
	{Kind: ck.Read},
	{Kind: ck.Write},
	{Kind: ck.Commit},
	{Kind: ck.Idle},
	{Kind: ck.Begin},
	{Kind: ck.Write, In: 1, Prepare: true},
	{Kind: ck.Read, Prepare: true},
	{Kind: ck.Other},
}

var errMenu = []ck.Spec{
	{Kind: ck.Read},
	{Kind: ck.Write, In: 1, Prepare: true},
	{Kind: ck.Commit},
	{Kind: ck.DDL},
	{Kind: ck.Idle},
}

type count struct {
	n      [4]uint64
	errors map[uint16]uint64
}

func check(st *stats.Trx, want count) {
	got := st.Swap()
	for i := range want.n {
		verif.Assert(got.N[i] == want.n[i], "each executed query is counted once under its type")
		sum := uint64(0)
		for _, b := range got.Buckets[i] {
			sum += b
		}
		verif.Assert(sum == want.n[i], "each executed query is in one bucket")
	}
	total := uint64(0)
	for code, n := range want.errors {
		verif.Assert(got.Errors[code] == n, "each error is counted once under its code")
		total += n
	}
	for _, n := range got.Errors {
		total -= n
	}
	verif.Assert(total == 0, "only errors are counted as errors")
}

func typ(k ck.Kind) int {
	switch k {
	case ck.Read:
		return 0
	case ck.Write:
		return 1
	case ck.Commit:
		return 2
	}
	return 3
}

func (c *count) add(t int) {
	c.n[t]++
	if t != 3 {
		c.n[3]++
	}
}

// H_count: no errors.
func H_count() {
	n := 2 + verif.Choose("statements", verif.Bound(2, 3))
	var all []ck.Spec
	for i := 0; i < n; i++ {
		all = append(all, menu[verif.Choose("kind", len(menu))])
	}
	trxs := [][]ck.Spec{all}
	if s := verif.Choose("split", n); s > 0 {
		trxs = [][]ck.Spec{all[:s], all[s:]}
	}
	r := ck.New(trxs, true)
	iter := verif.Int("iter", 1, 3)
	r.C.Iter = uint(iter)
	r.Run(context.Background())
	verif.Reach("done")
	want := make([]count, len(trxs))
	for i := range all {
		if all[i].Kind == ck.Idle {
			continue
		}
		for k := 0; k < iter; k++ {
			want[r.Trx[i]].add(typ(all[i].Kind))
		}
	}
	for t := range trxs {
		check(r.C.Stats[t], want[t])
	}
	verif.Assert(len(r.Executed()) > 0 || want[0].n[3]+want[len(want)-1].n[3] == 0, "queries were executed")
}

// H_error: errors of queries.
func H_error() {
	var all []ck.Spec
	for i := 0; i < 2; i++ {
		all = append(all, errMenu[verif.Choose("kind", len(errMenu))])
	}
	trxs := [][]ck.Spec{all}
	if verif.Choose("split", 2) == 1 {
		trxs = [][]ck.Spec{all[:1], all[1:]}
	}
	verif.Assume(all[0].Kind != ck.Idle || all[1].Kind != ck.Idle)
	r := ck.New(trxs, true)
	if verif.Choose("save columns", 2) == 1 {
		for i := range all {
			if all[i].Kind == ck.Read {
				r.C.Data[i].Outputs = []interface{}{sink{}}
			}
		}
	}
	r.C.Iter = 3
	first := verif.Int("first error", 0, 4)
	second := verif.Int("second error", 1, 5)
	verif.Assume(first < second)
	kind := verif.Choose("error", 3)
	code := uint16(verif.Int("code", 1, 65535))
	want := make([]count, len(trxs))
	for i := range want {
		want[i].errors = map[uint16]uint64{}
	}
	execs := 0
	r.D.Answer = func(e fakedb.Event) fakedb.Answer {
		switch e.Kind {
		case "exec", "query", "stmtexec", "stmtquery":
		default:
			return fakedb.Answer{}
		}
		if e.SQL == "ROLLBACK" {
			return fakedb.Answer{}
		}
		i := 0
		for i < len(all)-1 && (all[i].Kind == ck.Idle || !strings.HasPrefix(e.SQL, strings.Fields(r.SQL(i))[0])) {
			i++
		}
		want[r.Trx[i]].add(typ(all[i].Kind))
		execs++
		if execs-1 != first && execs-1 != second {
			return fakedb.Answer{}
		}
		switch {
		case kind == 0:
			want[r.Trx[i]].errors[code]++
			return fakedb.Answer{Err: ck.MySQLError(code)}
		case kind == 1:
			want[r.Trx[i]].errors[0]++
			return fakedb.Answer{Err: ck.BadConn}
		case all[i].Kind == ck.Read && r.C.Data[i].Outputs != nil:
			want[r.Trx[i]].errors[code]++
			return fakedb.Answer{RowsErr: ck.MySQLError(code)}
		}
		return fakedb.Answer{}
	}
	r.Run(context.Background())
	verif.Reach("done")
	for t := range trxs {
		check(r.C.Stats[t], want[t])
	}
}

type sink struct{}

func (sink) Scan(any interface{}) error { return nil }

// H_load: statements of trx files and clients with and without statistics.
func H_load() {
	words := []string{"SELECT", "INSERT", "UPDATE", "DELETE", "REPLACE", "COMMIT", "BEGIN", "SET"}
	types := []int{0, 1, 1, 1, 1, 2, 3, 3}
	var want [2]count
	text := [2]string{}
	for t := range text {
		for i := 0; i < 2; i++ {
			k := 1
			if t == 0 || i == 0 {
				k = verif.Choose("word", len(words))
			}
			text[t] += words[k] + " x\n\n"
			want[t].add(types[k])
		}
	}
	set, err := tf.Load2(text[0], text[1])
	verif.Assert(err == nil, "loaded")
	enabled := verif.Choose("statistics", 3)
	finch.ModifyDB = nil
	dbconn.SetConfig(config.MySQL{DSN: "u:p@tcp(127.0.0.1)/"})
	iter := verif.Int("iter", 1, 3)
	d := &fakedb.DB{}
	a := workload.Allocator{
		Stage: 1, StageName: "s", TrxSet: set,
		Workload: []config.ClientGroup{{Group: "g", Clients: "1", Trx: []string{"t", "u"}, Iter: "3", DisableStats: enabled == 1}},
		DoneChan: make(chan *client.Client, 1),
	}
	cl, err := a.Clients([][]int{{0}}, enabled != 2)
	verif.Assert(err == nil, "allocated")
	c := cl[0][0].Clients[0]
	c.Iter = uint(iter)
	c.DB = d.SQL()
	verif.Assert(c.Init() == nil, "initialized")
	c.Run(context.Background())
	verif.Reach("done")
	verif.Assert(len(d.Queries()) == 4*iter, "all executed")
	verif.Assert(len(c.Stats) == 2, "statistics for each trx")
	for t := range c.Stats {
		if enabled != 0 {
			verif.Assert(c.Stats[t] == nil, "a client without statistics records nothing")
			continue
		}
		w := want[t]
		for i := range w.n {
			w.n[i] *= uint64(iter)
		}
		verif.Assert(c.Stats[t].Name == []string{"t", "u"}[t], "statistics of the trx")
		check(c.Stats[t], w)
	}
}
