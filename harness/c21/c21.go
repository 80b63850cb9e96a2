// Package c21: a client executes its statements in order.
package c21

import (
	"context"
	"time"

	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/ck"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound 1..3 (quick) or 1..4 (thorough) statements of any kind in 1..2 trx files, 1..3 iterations (symbolic), any input values
//verif:assume the server answers every query without error (a scripted database/sql driver under the real database/sql)

var menu = []ck.Spec{
	{Kind: ck.Read},
	{Kind: ck.Write, In: 2},
	{Kind: ck.Idle},
	{Kind: ck.Read, In: 1, Prepare: true},
	{Kind: ck.Other, Prepare: true},
	{Kind: ck.Write, In: 1, Prepare: true, Multi: 2}, // with its copy
}

// statements are n statements from the menu, in 1 or 2 trx files.
func statements(n int) [][]ck.Spec {
	var all []ck.Spec
	for i := 0; i < n; i++ {
		k := verif.Choose("kind", len(menu))
		all = append(all, menu[k])
		if menu[k].Multi == 2 {
			all = append(all, ck.Spec{Kind: ck.Write, In: 1, Prepare: true})
		}
	}
	first := verif.Pick("first", 1, len(all))
	if first == len(all) {
		return [][]ck.Spec{all}
	}
	return [][]ck.Spec{all[:first], all[first:]}
}

// H_order: what the server gets, and what the data generators are asked.
func H_order() {
	trxs := statements(verif.Pick("n", 1, verif.Bound(3, 4)))
	r := ck.New(trxs, verif.Choose("stats", 2) == 1)
	r.Base = verif.Int64("base", -1<<62, 1<<62)
	iter := verif.Uint64("iter", 1, 3)
	r.C.Iter = uint(iter)
	t := time.Now()
	n := r.Run(context.Background())
	idle := time.Now().Sub(t)
	verif.Assert(n == 1 && r.C.Error.Err == nil, "done without error")

	ex := r.Executed()
	e, c, stmts, trxs2 := 0, 0, uint(0), uint(0)
	var waits time.Duration
	for it := uint64(1); it <= iter; it++ {
		for i, s := range r.Specs {
			if i == 0 || r.Trx[i] != r.Trx[i-1] {
				trxs2++
			}
			if s.Kind == ck.Idle {
				waits += r.Idle
				continue
			}
			stmts++
			verif.Assert(e < len(ex), "every statement is executed in every iteration")
			verif.Assert(r.IsRun(ex[e], i, r.Base+int64(c)+1), "statements are executed in order with the values of this execution")
			verif.Assert(ex[e].Conn == 1, "on one connection")
			e++
			for k := 0; k < s.In; k++ {
				verif.Assert(c < len(r.Calls) && r.Calls[c].Stmt == i && r.Calls[c].Input == k, "inputs are generated once per execution, in order")
				rc := r.Calls[c].RC
				verif.Assert(uint64(rc[data.ITER]) == it, "iteration count")
				verif.Assert(rc[data.STATEMENT] == stmts, "statement count")
				verif.Assert(rc[data.TRX] == trxs2, "trx count")
				verif.Assert(rc[data.CONN] == 1 && rc[data.CLIENT] == 4 && rc[data.CLIENT_GROUP] == 3 && rc[data.EXEC_GROUP] == 2 && rc[data.STAGE] == 1, "other counts")
				c++
			}
		}
	}
	verif.Assert(e == len(ex), "no statement is executed after the last iteration")
	verif.Assert(c == len(r.Calls), "no data is generated for anything else")
	verif.Assert(idle >= waits, "idle statements wait")
	verif.Reach("ran")
}
