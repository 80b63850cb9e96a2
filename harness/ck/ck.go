// Package ck builds clients on a scripted database.
package ck

import (
	"context"
	"database/sql/driver"
	"fmt"
	"strings"
	"time"

	"github.com/go-sql-driver/mysql"
	"github.com/square/finch"
	"github.com/square/finch/client"
	"github.com/square/finch/data"
	"github.com/square/finch/stats"
	"github.com/square/finch/trx"
	"github.com/square/finch/zzverif/fakedb"
)

// Kind is a kind of statement.
type Kind int

const (
	Read Kind = iota
	Write
	Other // SET, ...
	Begin
	Commit
	DDL
	Idle
)

// Spec is a statement.
type Spec struct {
	Kind    Kind
	Prepare bool
	Multi   int // PrepareMulti
	In      int // inputs
}

// Call is one call of an input.
type Call struct {
	Stmt, Input int
	RC          data.RunCount
}

// Run is a client and all it did.
type Run struct {
	C     *client.Client
	D     *fakedb.DB
	Calls []Call
	Base  int64 // values are Base+1, Base+2, ... in call order
	Specs []Spec
	Trx   []int // trx number of each statement
	Idle  time.Duration
	Hook  func(c Call) // called for each input
}

// New makes a client for the trx files.
func New(trxs [][]Spec, withStats bool) *Run {
	client.ConnectRetryWait = time.Millisecond
	r := &Run{D: &fakedb.DB{}, Idle: 2 * time.Millisecond}
	r.C = &client.Client{
		DoneChan: make(chan *client.Client, 4),
		RunLevel: finch.RunLevel{Stage: 1, StageName: "s", ExecGroup: 2, ExecGroupName: "e", ClientGroup: 3, Client: 4},
	}
	for t, ss := range trxs {
		var st *stats.Trx
		if withStats {
			st = stats.NewTrx(fmt.Sprintf("trx%d", t))
		}
		r.C.Stats = append(r.C.Stats, st)
		for i, s := range ss {
			r.add(s, t, i == 0, i == len(ss)-1)
		}
	}
	r.C.DB = r.D.SQL()
	return r
}

// SQL is the query of statement i.
func (r *Run) SQL(i int) string {
	s := r.Specs[i]
	q := fmt.Sprintf("q%d", i)
	if s.Multi > 0 {
		q = "multi"
	}
	for j := range r.Specs[:i] {
		if j+r.Specs[j].Multi > i {
			q = "multi"
		}
	}
	for k := 0; k < s.In; k++ {
		if s.Prepare {
			q += " ?"
		} else {
			q += " %d"
		}
	}
	return q
}

func (r *Run) add(s Spec, t int, first, last bool) {
	i := len(r.Specs)
	r.Specs = append(r.Specs, s)
	r.Trx = append(r.Trx, t)
	st := &trx.Statement{Trx: fmt.Sprintf("trx%d", t), Prepare: s.Prepare, PrepareMulti: s.Multi}
	switch s.Kind {
	case Read:
		st.ResultSet = true
	case Write:
		st.Write = true
	case Begin:
		st.Begin = true
	case Commit:
		st.Commit = true
	case DDL:
		st.DDL = true
	case Idle:
		st.Idle = r.Idle
	}
	st.Query = r.SQL(i)
	var sd client.StatementData
	for k := 0; k < s.In; k++ {
		k := k
		st.Inputs = append(st.Inputs, fmt.Sprintf("@d%d", k))
		st.Calls = append(st.Calls, 0)
		sd.Inputs = append(sd.Inputs, func(rc data.RunCount) []interface{} {
			c := Call{i, k, rc}
			if r.Hook != nil {
				r.Hook(c)
			}
			r.Calls = append(r.Calls, c)
			return []interface{}{r.Base + int64(len(r.Calls))}
		})
	}
	if first {
		sd.TrxBoundary |= trx.BEGIN
	}
	if last {
		sd.TrxBoundary |= trx.END
	}
	r.C.Statements = append(r.C.Statements, st)
	r.C.Data = append(r.C.Data, sd)
}

// Run runs the client until it is done; it returns how often it reported.
func (r *Run) Run(ctx context.Context) int {
	if err := r.C.Init(); err != nil {
		return 0
	}
	r.C.Run(ctx)
	return len(r.C.DoneChan)
}

// Executed are the statements the server got, without those the client adds itself.
func (r *Run) Executed() []fakedb.Event {
	var out []fakedb.Event
	for _, e := range r.D.Queries() {
		if e.SQL == "ROLLBACK" || strings.HasPrefix(e.SQL, "USE ") {
			continue
		}
		out = append(out, e)
	}
	return out
}

// IsRun checks that event e is statement i with the given first value.
func (r *Run) IsRun(e fakedb.Event, i int, first int64) bool {
	s := r.Specs[i]
	kind := "exec"
	if s.Kind == Read {
		kind = "query"
	}
	if s.Prepare {
		kind = "stmt" + kind
	}
	if e.Kind != kind {
		return false
	}
	var vals []interface{}
	for k := 0; k < s.In; k++ {
		vals = append(vals, first+int64(k))
	}
	if s.Prepare {
		if e.SQL != r.SQL(i) || len(e.Args) != len(vals) {
			return false
		}
		for k := range vals {
			if e.Args[k] != vals[k] {
				return false
			}
		}
		return true
	}
	return len(e.Args) == 0 && e.SQL == fmt.Sprintf(r.SQL(i), vals...)
}

// MySQLError is an error of the server.
func MySQLError(code uint16) error { return &mysql.MySQLError{Number: code, Message: "scripted"} }

// BadConn is the error of a lost connection.
var BadConn = driver.ErrBadConn
