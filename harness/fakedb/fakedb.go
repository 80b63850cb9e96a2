// Package fakedb is a database/sql driver whose answers a harness scripts. It records every
// call it gets.
package fakedb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"io"
	"sync"
	"time"
)

// Event is one call of the driver.
type Event struct {
	Kind string // connect, exec, query, prepare, stmtexec, stmtquery, stmtclose, close
	Conn int    // 1, 2, ... in connect order
	Stmt int    // prepared statement number: 1, 2, ... in prepare order
	SQL  string
	Args []interface{}
}

// Answer is what the driver returns.
type Answer struct {
	Err      error
	Rows     [][]driver.Value
	RowsErr  error // returned after Rows
	CloseErr error // returned by Rows.Close
	Affected int64
	InsertId int64
	Sleep    time.Duration // before the answer, unless the context is done
	Hold     time.Duration // before the answer, whatever the context
}

// wait waits as long as the answer takes.
func (a *Answer) wait(ctx context.Context) error {
	if a.Hold > 0 {
		time.Sleep(a.Hold)
	}
	if a.Sleep > 0 {
		t := time.NewTimer(a.Sleep)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	return nil
}

// DB scripts a database.
type DB struct {
	mu     sync.Mutex
	Log    []Event
	Answer func(e Event) Answer // called with the lock held
	conns  int
	stmts  int
	Open   int // open connections
	Stmts  int // open prepared statements
}

// SQL returns a connection pool for the database.
func (d *DB) SQL() *sql.DB { return sql.OpenDB(connector{d}) }

func (d *DB) call(e Event) Answer {
	d.mu.Lock()
	defer d.mu.Unlock()
	switch e.Kind {
	case "connect":
		d.conns++
		e.Conn = d.conns
	case "prepare":
		d.stmts++
		e.Stmt = d.stmts
	}
	d.Log = append(d.Log, e)
	var a Answer
	if d.Answer != nil {
		a = d.Answer(e)
	}
	if a.Err == nil {
		switch e.Kind {
		case "connect":
			d.Open++
		case "prepare":
			d.Stmts++
		}
	}
	switch e.Kind {
	case "close":
		d.Open--
	case "stmtclose":
		d.Stmts--
	}
	return a
}

// Queries returns the executed statements: their SQL text in order.
func (d *DB) Queries() []Event {
	var q []Event
	for _, e := range d.Log {
		switch e.Kind {
		case "exec", "query", "stmtexec", "stmtquery":
			q = append(q, e)
		}
	}
	return q
}

type connector struct{ d *DB }

func (c connector) Connect(ctx context.Context) (driver.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	c.d.mu.Lock()
	no := c.d.conns + 1
	c.d.mu.Unlock()
	a := c.d.call(Event{Kind: "connect"})
	if err := a.wait(ctx); err != nil {
		return nil, err
	}
	if a.Err != nil {
		return nil, a.Err
	}
	return &conn{d: c.d, no: no}, nil
}
func (c connector) Driver() driver.Driver { return nil }

type conn struct {
	d  *DB
	no int
}

func (c *conn) CheckNamedValue(v *driver.NamedValue) error { return nil }

func values(args []driver.NamedValue) []interface{} {
	var v []interface{}
	for i := range args {
		v = append(v, args[i].Value)
	}
	return v
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	a := c.d.call(Event{Kind: "exec", Conn: c.no, SQL: q, Args: values(args)})
	if err := a.wait(ctx); err != nil {
		return nil, err
	}
	if a.Err != nil {
		return nil, a.Err
	}
	return result{a}, nil
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	a := c.d.call(Event{Kind: "query", Conn: c.no, SQL: q, Args: values(args)})
	if err := a.wait(ctx); err != nil {
		return nil, err
	}
	if a.Err != nil {
		return nil, a.Err
	}
	return &rows{a: a}, nil
}

func (c *conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	c.d.mu.Lock()
	no := c.d.stmts + 1
	c.d.mu.Unlock()
	a := c.d.call(Event{Kind: "prepare", Conn: c.no, SQL: q})
	if err := a.wait(ctx); err != nil {
		return nil, err
	}
	if a.Err != nil {
		return nil, a.Err
	}
	return &stmt{c: c, no: no, q: q}, nil
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}
func (c *conn) Close() error {
	c.d.call(Event{Kind: "close", Conn: c.no})
	return nil
}
func (c *conn) Begin() (driver.Tx, error) { return nil, driver.ErrSkip }

type stmt struct {
	c  *conn
	no int
	q  string
}

func (s *stmt) CheckNamedValue(v *driver.NamedValue) error { return nil }
func (s *stmt) Close() error {
	s.c.d.call(Event{Kind: "stmtclose", Conn: s.c.no, Stmt: s.no, SQL: s.q})
	return nil
}
func (s *stmt) NumInput() int                                   { return -1 }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) { return nil, driver.ErrSkip }
func (s *stmt) Query(args []driver.Value) (driver.Rows, error)  { return nil, driver.ErrSkip }

func (s *stmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	a := s.c.d.call(Event{Kind: "stmtexec", Conn: s.c.no, Stmt: s.no, SQL: s.q, Args: values(args)})
	if err := a.wait(ctx); err != nil {
		return nil, err
	}
	if a.Err != nil {
		return nil, a.Err
	}
	return result{a}, nil
}

func (s *stmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	a := s.c.d.call(Event{Kind: "stmtquery", Conn: s.c.no, Stmt: s.no, SQL: s.q, Args: values(args)})
	if err := a.wait(ctx); err != nil {
		return nil, err
	}
	if a.Err != nil {
		return nil, a.Err
	}
	return &rows{a: a}, nil
}

type result struct{ a Answer }

func (r result) LastInsertId() (int64, error) { return r.a.InsertId, nil }
func (r result) RowsAffected() (int64, error) { return r.a.Affected, nil }

type rows struct {
	a Answer
	n int
}

func (r *rows) Columns() []string {
	if len(r.a.Rows) == 0 {
		return []string{"c"}
	}
	return make([]string, len(r.a.Rows[0]))
}
func (r *rows) Close() error { return r.a.CloseErr }
func (r *rows) Next(dest []driver.Value) error {
	if r.n >= len(r.a.Rows) {
		if r.a.RowsErr != nil {
			return r.a.RowsErr
		}
		return io.EOF
	}
	copy(dest, r.a.Rows[r.n])
	r.n++
	return nil
}
