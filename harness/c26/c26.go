// Package c26: how a client ends.
package c26

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"strings"
	"time"

	"github.com/square/finch/client"
	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/ck"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound a client with 5 statements in 2 trx files and up to 3 iterations that ends at any point: iteration limit, data limit, any MySQL error (symbolic code) on DDL, failed USE, PREPARE or ROLLBACK, panic of a generator, of a limit or while saving a column or insert ID, cancelled or elapsed runtime at any call of the driver
//verif:bound interleavings of the client and the stage that waits for it with at most 1 preemption at the synchronisation of package client
//verif:assume the server is a scripted database/sql driver under the real database/sql; a call of the driver returns when its context is cancelled

var trxs = [][]ck.Spec{
	{{Kind: ck.Begin}, {Kind: ck.Write, In: 1, Prepare: true}, {Kind: ck.Read}, {Kind: ck.Commit}},
	{{Kind: ck.DDL}},
}

type gen struct {
	data.Generator
	f func()
}

func (g gen) Scan(any interface{}) error { g.f(); return nil }

type limit struct{ more func() bool }

func (l limit) More(*sql.Conn) bool            { return l.more() }
func (l limit) Affected(int64)                 {}
func (l limit) Current() (p float64, s string) { return }

func query(e fakedb.Event) bool {
	switch e.Kind {
	case "exec", "query", "stmtexec", "stmtquery":
		return e.SQL != "ROLLBACK" && !strings.HasPrefix(e.SQL, "USE ")
	}
	return false
}

// end runs the client, waits for its report and checks what is left.
func end(r *ck.Run, ctx context.Context) error {
	done := make(chan *client.Client)
	r.C.DoneChan = done
	verif.Assert(r.C.Init() == nil, "init")
	verif.Sched(1)
	verif.SchedIn("github.com/square/finch")
	go r.C.Run(ctx)
	c := <-done
	open, stmts := r.D.Open, r.D.Stmts
	verif.SchedOff()
	verif.Assert(c == r.C, "the client reports itself")
	verif.Assert(stmts == 0, "prepared statements are closed before the client reports")
	verif.Assert(open == 0, "the connection is closed before the client reports")
	verif.Quiesce()
	n := 0
	select {
	case <-done:
		n++
	default:
	}
	verif.Assert(n == 0, "the client reports once")
	verif.Assert(r.D.Open == 0 && r.D.Stmts == 0, "nothing is left open")
	return c.Error.Err
}

// H_limit: limits are no errors.
func H_limit() {
	r := ck.New(trxs, true)
	r.C.DefaultDb = "db"
	r.C.Iter = uint(verif.Uint64("iter", 1, 3))
	if verif.Choose("limit", 2) == 1 {
		at := verif.Pick("stmt", 0, 4)
		verif.Assume(at != 2)
		n, max := int64(0), verif.Int64("max", 0, 3)
		r.C.Statements[at].Limit = limit{func() bool { n++; return n <= max }}
	}
	verif.Assert(end(r, context.Background()) == nil, "a limit is not an error")
	verif.Reach("ended")
}

// H_fatal: errors that stop the client.
func H_fatal() {
	r := ck.New(trxs, true)
	r.C.DefaultDb = "db"
	r.C.Iter = 2
	code := uint16(verif.Uint64("code", 1, 65535))
	fatal := errors.New("fatal error")
	kind := verif.Choose("kind", 4)
	at := verif.Choose("at", 2) // first or second time
	n, first := 0, true
	r.D.Answer = func(e fakedb.Event) (a fakedb.Answer) {
		hit := false
		switch kind {
		case 0: // DDL
			if e.Kind == "exec" && e.SQL == "q4" {
				hit = true
			}
		case 1: // USE
			hit = strings.HasPrefix(e.SQL, "USE ")
		case 2: // PREPARE
			hit = e.Kind == "prepare"
		case 3: // ROLLBACK
			hit = e.SQL == "ROLLBACK"
			if e.Kind == "query" {
				a.Err = ck.MySQLError(1205)
			}
		}
		if hit {
			if n == at {
				a.Err = fatal
				if kind == 0 {
					a.Err = ck.MySQLError(code)
				}
			}
			n++
		} else if (kind == 1 || kind == 2) && e.Kind == "query" && first {
			first = false
			a.Err = ck.BadConn // to USE and prepare again
		}
		return
	}
	if kind == 0 {
		for _, c := range []uint16{1205, 1213, 1290, 1317, 1836, 1062, 1046, 1064, 1146} {
			verif.Assume(code != c)
		}
	}
	err := end(r, context.Background())
	verif.Assert(err != nil, "the failure that stopped the client is reported")
	text := "fatal error"
	if kind == 0 {
		text = "scripted"
	}
	verif.Assert(strings.Contains(err.Error(), text), "the error reported is the failure")
	verif.Reach("ended")
}

// H_panic: generators and limits that panic.
func H_panic() {
	r := ck.New(trxs, true)
	r.C.Iter = 2
	at := verif.Choose("at", 2)
	n := 0
	boom := func() {
		if n == at {
			panic("boom")
		}
		n++
	}
	switch verif.Choose("kind", 3) {
	case 0:
		r.Hook = func(ck.Call) { boom() }
	case 1:
		r.C.Statements[1].Limit = limit{func() bool { boom(); return true }}
	case 2:
		r.C.Data[1].InsertId = gen{f: boom}
	}
	err := end(r, context.Background())
	verif.Assert(err != nil && strings.Contains(err.Error(), "boom"), "the panic is reported")
	verif.Reach("ended")
}

// H_scan: panic while saving a column.
func H_scan() {
	r := ck.New(trxs, true)
	r.C.Iter = 1
	r.C.Data[2].Outputs = []interface{}{gen{f: func() { panic("boom") }}}
	r.D.Answer = func(e fakedb.Event) (a fakedb.Answer) {
		if e.Kind == "query" {
			a.Rows = [][]driver.Value{{int64(1)}}
		}
		return
	}
	err := end(r, context.Background())
	verif.Assert(err != nil && strings.Contains(err.Error(), "boom"), "the panic is reported")
	verif.Reach("ended")
}

// H_cancel: cancelled during or between any calls.
func H_cancel() {
	r := ck.New(trxs, true)
	r.C.DefaultDb = "db"
	r.C.Iter = 3
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	at := verif.Pick("at", 0, 24) // call of the driver
	answer := verif.Choose("answer", 3)
	code := uint16(verif.Uint64("code", 1, 65535))
	fault := verif.Choose("fault", 3) // an earlier failure
	if at == 0 {
		cancel()
	}
	n, failed := 0, false
	r.D.Answer = func(e fakedb.Event) (a fakedb.Answer) {
		if e.Kind == "close" || e.Kind == "stmtclose" {
			return
		}
		n++
		if n == at {
			cancel()
			switch answer { // completes, or is interrupted
			case 1:
				a.Err = context.Canceled
			case 2:
				a.Err = ck.MySQLError(code)
			}
			return
		}
		if e.Kind == "query" && !failed {
			failed = true
			switch fault {
			case 1:
				a.Err = ck.MySQLError(1205)
			case 2:
				a.Err = ck.BadConn
			}
		}
		return
	}
	err := end(r, ctx)
	verif.Assert(err == nil, "a cancelled runtime is not an error")
	verif.Reach("ended")
}

// H_elapsed: the runtime elapses while the client waits or cannot connect.
func H_elapsed() {
	r := ck.New([][]ck.Spec{{{Kind: ck.Idle}, {Kind: ck.Write, Prepare: true}}}, true)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(verif.Pick("ms", 1, 9))*time.Millisecond)
	defer cancel()
	refuse := verif.Choose("refuse", 2) == 1
	code := uint16(verif.Uint64("code", 1, 65535))
	n := 0
	r.D.Answer = func(e fakedb.Event) (a fakedb.Answer) {
		if e.Kind == "connect" && refuse {
			a.Err = errors.New("refused")
		}
		if e.Kind == "stmtexec" {
			n++
			if n%2 == 0 {
				a.Err = ck.MySQLError(code)
			}
		}
		return
	}
	err := end(r, ctx)
	verif.Assert(err == nil, "an elapsed runtime is not an error")
	verif.Reach("ended")
}
