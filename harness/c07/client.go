package c07

import (
	"context"

	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/ck"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_client: a client with 2 trx files of 1 and 2 statements (one idle or not), 2..3 iterations (symbolic), of which 1 (quick) or 2 (thorough) executions fail with any MySQL error code (symbolic) or a lost connection
//verif:assume H_client: the server is a scripted database/sql driver under the real database/sql

// H_client: the counters a client passes to its data keys.
func H_client() {
	kinds := []ck.Spec{{Kind: ck.Read, In: 2}, {Kind: ck.Write, In: 1, Prepare: true}, {Kind: ck.Begin, In: 1}, {Kind: ck.Idle}}
	one := kinds[verif.Choose("first", 3)]
	two := kinds[verif.Choose("second", 4)]
	r := ck.New([][]ck.Spec{{one}, {two, {Kind: ck.Write, In: 1}}}, false)
	iter := verif.Int("iter", 2, 3)
	r.C.Iter = uint(iter)
	fail := map[int]bool{verif.Int("failing execution", 0, 4): true}
	if verif.Thorough() {
		fail[verif.Int("failing execution", 1, 6)] = true
	}
	code := uint16(verif.Int("code", 1, 65535))
	lost := verif.Choose("lost", 2) == 1
	execs, errs := 0, 0
	r.D.Answer = func(e fakedb.Event) fakedb.Answer {
		switch e.Kind {
		case "exec", "query", "stmtexec", "stmtquery":
		default:
			return fakedb.Answer{}
		}
		if e.SQL == "ROLLBACK" {
			return fakedb.Answer{}
		}
		execs++
		if !fail[execs-1] {
			return fakedb.Answer{}
		}
		errs++
		if lost {
			return fakedb.Answer{Err: ck.BadConn}
		}
		return fakedb.Answer{Err: ck.MySQLError(code)}
	}
	var want data.RunCount
	want[data.CLIENT], want[data.CLIENT_GROUP], want[data.EXEC_GROUP], want[data.STAGE] = 4, 3, 2, 1
	seen := 0 // errors
	last := 99
	r.Hook = func(c ck.Call) {
		if c.Input > 0 { // the same use of the statement
			verif.Assert(c.RC == want, "all keys of a statement see the same counters")
			return
		}
		want[data.STATEMENT]++
		if c.Stmt <= last || errs > seen {
			want[data.ITER]++
			last = -1
		}
		if c.Stmt == 0 || c.Stmt == 1 || c.Stmt == 2 && last < 1 { // first executed statement of a trx
			want[data.TRX]++
		}
		last = c.Stmt
		seen = errs
		want[data.CONN] = uint(1 + errs)
		verif.Assert(c.RC[data.STATEMENT] == want[data.STATEMENT], "statement")
		verif.Assert(c.RC[data.TRX] == want[data.TRX], "trx")
		verif.Assert(c.RC[data.ITER] == want[data.ITER], "iteration")
		verif.Assert(c.RC[data.CONN] == want[data.CONN], "connection: connects and recovered errors")
		verif.Assert(c.RC == want, "client")
		verif.Reach("used")
	}
	r.Run(context.Background())
}
