// Package c23: how a client handles query errors.
package c23

import (
	"context"
	"database/sql/driver"
	"errors"

	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/ck"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound 1 (quick) or 2 (thorough) failing executions anywhere in 2..3 iterations (symbolic) of 4 statement layouts; any MySQL error code 1..65535 (symbolic), a lost connection or another error; from the query, its rows or closing them
//verif:bound reconnecting fails 0..1 times
//verif:assume the server is a scripted database/sql driver under the real database/sql; ROLLBACK and USE do not fail

var errOther = errors.New("other error")

var layouts = [][][]ck.Spec{
	{{{Kind: ck.Begin}, {Kind: ck.Write, In: 1}, {Kind: ck.Commit}}},
	{{{Kind: ck.Write, In: 1, Prepare: true}}, {{Kind: ck.Read}, {Kind: ck.Read, In: 1, Prepare: true}}},
	{{{Kind: ck.Read}}, {{Kind: ck.Idle}, {Kind: ck.Write}}},
	{{{Kind: ck.Other}, {Kind: ck.DDL}}},
}

type out struct{ data.Generator }

func (out) Scan(any interface{}) error { return nil }

type fault struct {
	at   int    // execution
	kind int    // 0 MySQL error, 1 lost connection, 2 other
	code uint16 // MySQL error code
	when int    // 0 query, 1 rows, 2 close
}

func (f fault) err() error {
	switch f.kind {
	case 1:
		return ck.BadConn
	case 2:
		return errOther
	}
	return ck.MySQLError(f.code)
}

func anyFault(lo, hi int) fault {
	f := fault{at: verif.Pick("at", lo, hi), kind: verif.Choose("fault", 3), when: verif.Choose("when", 3)}
	if f.kind == 0 {
		f.code = uint16(verif.Uint64("code", 1, 65535))
	}
	return f
}

// H_error: the server sees what the documentation says.
func H_error() {
	l := verif.Choose("layout", len(layouts))
	r := ck.New(layouts[l], true)
	r.C.DefaultDb = "db"
	per := 0 // executions per iteration
	for i, s := range r.Specs {
		if s.Kind != ck.Idle {
			per++
		}
		if s.Kind == ck.Read {
			r.C.Data[i].Outputs = []interface{}{out{}}
		}
	}
	r.Base = verif.Int64("base", -1<<62, 1<<62)
	iter := verif.Uint64("iter", 2, 3)
	r.C.Iter = uint(iter)
	faults := []fault{anyFault(0, 2*per)}
	if verif.Thorough() {
		faults = append(faults, anyFault(0, 2*per))
		verif.Assume(faults[0].at < faults[1].at)
	}
	refuse := verif.Choose("refuse", 2) // refused reconnects

	// what must happen
	type want struct {
		what string // connect, exec, rollback, close
		i    int
		val  int
		last bool
	}
	wants := []want{{what: "connect"}}
	exec, vals := 0, 0
	var bad []fault // that happened
	stopped := false
ITER:
	for it := uint64(1); it <= iter; it++ {
		for i, s := range r.Specs {
			if s.Kind == ck.Idle {
				continue
			}
			wants = append(wants, want{what: "exec", i: i, val: vals + 1})
			vals += s.In
			at := exec
			exec++
			for _, f := range faults {
				if f.at != at {
					continue
				}
				bad = append(bad, f)
				known := false
				if f.kind == 0 {
					switch f.code {
					case 1205, 1290, 1836:
						wants = append(wants, want{what: "rollback"})
						continue ITER
					case 1213, 1317, 1062:
						continue ITER
					case 1046, 1064, 1146:
						known = true
					}
				}
				if s.Kind == ck.DDL {
					verif.Assume(!known) // not documented
					stopped = true
					break ITER
				}
				wants = append(wants, want{what: "close"}, want{what: "connect"})
				continue ITER
			}
		}
	}

	// run
	n, refused := 0, 0
	r.D.Answer = func(e fakedb.Event) (a fakedb.Answer) {
		switch e.Kind {
		case "connect":
			if n > 0 && refused < refuse {
				refused++
				a.Err = errOther
			}
		case "exec", "query", "stmtexec", "stmtquery":
			if e.SQL == "ROLLBACK" || e.SQL == "USE `db`" {
				return
			}
			at := n
			n++
			read := e.Kind == "query" || e.Kind == "stmtquery"
			if read {
				a.Rows = [][]driver.Value{{int64(1)}}
			}
			for _, f := range faults {
				switch {
				case f.at != at:
				case f.when == 0 || !read:
					a.Err = f.err()
				case f.when == 1:
					a.RowsErr = f.err()
				case f.when == 2:
					a.CloseErr = f.err()
				}
			}
		}
		return
	}
	done := r.Run(context.Background())

	verif.Assert(done == 1, "done")
	verif.Assert((r.C.Error.Err != nil) == stopped, "only an unhandled error on DDL stops the client")
	var log []fakedb.Event

	for k, e := range r.D.Log {
		switch e.Kind {
		case "prepare", "stmtclose":
			continue
		case "connect":
			if k+1 < len(r.D.Log) && r.D.Log[k+1].Kind == "connect" {
				continue // refused
			}

		}
		log = append(log, e)
	}
	k, conn := 0, 0
	next := func() fakedb.Event {
		k++
		if k > len(log) {
			return fakedb.Event{}
		}
		return log[k-1]
	}
	for _, w := range wants {
		e := next()
		switch w.what {
		case "connect":
			conn = e.Conn
			verif.Assert(e.Kind == "connect", "client connects first, and after an error that is not handled")
			e = next()
			verif.Assert(e.Kind == "exec" && e.SQL == "USE `db`" && e.Conn == conn, "the default database is selected on each connection")
		case "close":
			verif.Assert(e.Kind == "close" && e.Conn == conn, "an error that is not handled disconnects the client")
		case "rollback":
			verif.Assert(e.Kind == "exec" && e.SQL == "ROLLBACK" && e.Conn == conn, "the transaction is rolled back on the same connection")
		case "exec":
			verif.Assert(e.Conn == conn && r.IsRun(e, w.i, r.Base+int64(w.val)), "after an error the next iteration starts at the first statement, with new values, on the right connection; no statement is skipped or repeated")
		}
	}
	verif.Assert(next().Kind == "close", "the client disconnects when it is done")
	verif.Assert(k == len(log), "nothing is executed after the last iteration")

	// each error is counted once
	got := map[uint16]uint64{}
	for _, s := range r.C.Stats {
		for c, n := range s.Swap().Errors {
			if n > 0 {
				got[c] += n
			}
		}
	}
	total := uint64(0)
	for _, n := range got {
		total += n
	}
	verif.Assert(total == uint64(len(bad)), "every error is counted once")
	for _, f := range bad {
		n := uint64(1)
		if len(bad) == 2 && bad[0].code == bad[1].code {
			n = 2
		}
		verif.Assert(got[f.code] == n, "an error is counted under its code")
	}
	verif.Reach("ran")
}
