// Package c24: prepared statements of a client.
package c24

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/square/finch/zzverif/ck"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound 2..3 statements (up to 5 with copies) from a menu of 5, in 1..2 trx files, 1..3 iterations (symbolic)
//verif:bound the connection is lost, or a query fails with any MySQL error code (symbolic), at most 1 (quick) or 2 (thorough) times, at any execution; preparing fails at most once, at any statement on the first or second connection
//verif:assume the server is a scripted database/sql driver under the real database/sql

var menu = []ck.Spec{
	{Kind: ck.Write},
	{Kind: ck.Write, In: 2, Prepare: true},
	{Kind: ck.Read, In: 1, Prepare: true},
	{Kind: ck.Write, In: 1, Prepare: true, Multi: 2},
	{Kind: ck.Read, Prepare: true, Multi: 3},
}

func statements(n int) (trxs [][]ck.Spec, ps []int) {
	var all []ck.Spec
	for i := 0; i < n; i++ {
		k := verif.Choose("kind", len(menu))
		s := menu[k]
		id := -1 // prepared statement the statement uses
		if s.Prepare {
			id = len(all)
		}
		all = append(all, s)
		ps = append(ps, id)
		for j := 1; j < s.Multi; j++ {
			c := s
			c.Multi = 0
			all = append(all, c)
			ps = append(ps, id)
		}
	}
	if verif.Choose("split", 2) == 0 {
		return [][]ck.Spec{all}, ps
	}
	return [][]ck.Spec{all[:1], all[1:]}, ps
}

// check follows the log: what is prepared where.
func check(r *ck.Run, ps []int) {
	type key struct{ conn, stmt int }
	open := map[key]string{}
	prepared := map[int][]string{} // conn -> SQL in order
	var all []string
	for i := range r.Specs {
		if ps[i] == i {
			all = append(all, r.C.Statements[i].Query)
		}
	}
	ran := map[int]bool{}
	for _, e := range r.D.Log {
		switch e.Kind {
		case "prepare":
			verif.Assert(!ran[e.Conn], "statements are prepared before the first iteration on a connection")
			prepared[e.Conn] = append(prepared[e.Conn], e.SQL)
		case "stmtexec", "stmtquery":
			verif.Assert(open[key{e.Conn, e.Stmt}] == e.SQL, "a prepared statement is used on the connection that prepared it while it is open")
			ran[e.Conn] = true
		case "exec", "query":
			ran[e.Conn] = true
		case "stmtclose":
			delete(open, key{e.Conn, e.Stmt})
		}
		if e.Kind == "prepare" {
			open[key{e.Conn, e.Stmt}] = e.SQL
		}
	}
	for c := range ran {
		got := map[string]int{}
		for _, q := range prepared[c] {
			got[q]++
		}
		want := map[string]int{}
		for _, q := range all {
			want[q]++
		}
		verif.Assert(fmt.Sprint(got) == fmt.Sprint(want), "every prepared statement is prepared exactly once per connection")
	}
	verif.Assert(r.D.Stmts == 0, "all prepared statements are closed when the client ends")
}

// H_prepare: iterations with lost connections.
func H_prepare() {
	trxs, ps := statements(verif.Pick("n", 2, verif.Bound(2, 3)))
	r := ck.New(trxs, false)
	r.Base = verif.Int64("base", -1<<62, 1<<62)
	r.C.Iter = uint(verif.Uint64("iter", 1, 3))
	faults := map[int]error{}
	for k := 0; k < verif.Bound(1, 2); k++ {
		at := verif.Pick("at", 0, 2*len(ps))
		if at < 2*len(ps) {
			faults[at] = ck.BadConn
			if verif.Choose("lost", 2) == 0 {
				faults[at] = ck.MySQLError(uint16(verif.Uint64("code", 1, 65535)))
			}
		}
	}
	n := 0
	r.D.Answer = func(e fakedb.Event) (a fakedb.Answer) {
		switch e.Kind {
		case "exec", "query", "stmtexec", "stmtquery":
			if e.SQL != "ROLLBACK" {
				a.Err = faults[n]
				n++
			}
		}
		return
	}
	verif.Assert(r.Run(context.Background()) == 1 && r.C.Error.Err == nil, "done without error")
	check(r, ps)
	// every statement is executed as it should, with its current inputs
	i, v := 0, 0
	for k, e := range r.Executed() {
		verif.Assert(r.IsRun(e, i, r.Base+int64(v)+1), "executed through the prepared statement with its current inputs")
		v += r.Specs[i].In
		i++
		if faults[k] != nil || i == len(r.Specs) {
			i = 0
		}
	}
	verif.Assert(v == len(r.Calls), "inputs are generated for executions only")
	verif.Reach("ran")
}

// H_fail: a statement cannot be prepared.
func H_fail() {
	trxs, ps := statements(2)
	r := ck.New(trxs, false)
	r.C.Iter = 2
	distinct := 0
	for i := range ps {
		if ps[i] == i {
			distinct++
		}
	}
	verif.Assume(distinct > 0)
	at := verif.Choose("at", 4)
	verif.Assume(at < 2*distinct)
	n, q := 0, 0
	r.D.Answer = func(e fakedb.Event) (a fakedb.Answer) {
		switch e.Kind {
		case "prepare":
			if n == at {
				a.Err = errors.New("no prepare")
			}
			n++
		case "exec", "query", "stmtexec", "stmtquery":
			if q == 1 {
				a.Err = ck.BadConn // prepare again
			}
			q++
		}
		return
	}
	verif.Assert(r.Run(context.Background()) == 1, "done")
	verif.Assert(r.C.Error.Err != nil && strings.Contains(r.C.Error.Err.Error(), "no prepare"), "a statement that cannot be prepared stops the client")
	check(r, ps)
	verif.Reach("ran")
}
