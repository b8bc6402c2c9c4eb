// Package zzdrv is a fake database driver for harnesses. The real database/sql runs on top of it. Every
// operation is recorded and every operation may fail as the harness decides.
package zzdrv

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"io"
	"sync"
	_ "unsafe" // linkname

	"github.com/effective-security/xdb/internal/zzsym"
)

//go:linkname drivers database/sql.drivers
var drivers map[string]driver.Driver

// Register makes d the driver of that name, in place of a real one.
func Register(name string, d driver.Driver) { drivers[name] = d }

// Err is a fault injected at one operation.
type Err struct {
	Op string
	N  int
	// Cause is what the error wraps, if anything
	Cause error
}

func (e *Err) Unwrap() error { return e.Cause }

func (e *Err) Error() string { return "injected fault in " + e.Op }

// Event is one driver-level operation.
type Event struct {
	Op     string // open, ping, begin, commit, rollback, exec, query, next, rowsclose, close
	Conn   int
	Tx     int // transaction the connection is in, 0 if none
	Query  string
	Args   []any
	Names  []string
	Iso    int
	RO     bool
	Failed bool
}

// Table is the answer to one query.
type Table struct {
	Cols []string
	Rows [][]driver.Value
}

// DB is the fake server.
type DB struct {
	Log []Event
	// Fault decides whether the operation fails.
	Fault func(op string) error
	// Answer returns the rows of a query.
	Answer func(query string, args []any) Table
	// ArgNames are the names of the arguments of the query that is being answered.
	ArgNames []string
	// Shared marks state used by several goroutines.
	Conns, Txs, OpenConns, OpenRows, OpenTxs int
	Last                                     error
}

// Open returns a database/sql handle on the fake server.
func (d *DB) Open() *sql.DB { return sql.OpenDB(&connector{d}) }

// FailAt makes the n-th operation from now on fail (1-based, 0 none; closing a connection is not counted).
func (d *DB) FailAt(n int) {
	k := 0
	d.Fault = func(op string) error {
		if op == "close" {
			return nil
		}
		k++
		if k == n {
			return &Err{Op: op, N: k}
		}
		return nil
	}
}

// Failed is the operation that failed last, "" if none.
func (d *DB) Failed() string {
	if d.Last == nil {
		return ""
	}
	return d.Last.(*Err).Op
}

// Count is the number of operations of a kind.
func (d *DB) Count(op string) int {
	n := 0
	for i := range d.Log {
		if d.Log[i].Op == op {
			n++
		}
	}
	return n
}

var mu sync.Mutex

// lock keeps the records of the server consistent in native runs (the engine switches at scheduling points only).
func lock() func() {
	if zzsym.Symbolic() {
		return func() {}
	}
	mu.Lock()
	return mu.Unlock
}

func (d *DB) event(e Event) error {
	var err error
	if d.Fault != nil {
		err = d.Fault(e.Op)
	}
	defer lock()()
	e.Failed = err != nil
	d.Log = append(d.Log, e)
	if err != nil {
		d.Last = err
	}
	return err
}

type connector struct{ d *DB }

func (c *connector) Connect(context.Context) (driver.Conn, error) {
	if err := c.d.event(Event{Op: "open"}); err != nil {
		return nil, err
	}
	defer lock()()
	c.d.Conns++
	c.d.OpenConns++
	return &conn{d: c.d, id: c.d.Conns}, nil
}
func (c *connector) Driver() driver.Driver { return &Driver{DB: c.d} }

// Driver is the driver of the fake server; it records the names it is opened with.
type Driver struct {
	DB    *DB
	Names []string
}

func (d *Driver) Open(name string) (driver.Conn, error) {
	d.Names = append(d.Names, name)
	return (&connector{d.DB}).Connect(context.Background())
}

type conn struct {
	d      *DB
	id, tx int
	closed bool
}

func (c *conn) Prepare(string) (driver.Stmt, error) { panic("zzdrv: Prepare") }
func (c *conn) Begin() (driver.Tx, error)           { panic("zzdrv: Begin") }
func (c *conn) Close() error {
	if !c.closed {
		c.closed = true
		u := lock()
		c.d.OpenConns--
		u()
	}
	return c.d.event(Event{Op: "close", Conn: c.id, Tx: c.tx})
}
func (c *conn) Ping(context.Context) error {
	return c.d.event(Event{Op: "ping", Conn: c.id, Tx: c.tx})
}
func (c *conn) CheckNamedValue(*driver.NamedValue) error { return nil }

func (c *conn) BeginTx(_ context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := c.d.event(Event{Op: "begin", Conn: c.id, Tx: c.tx, Iso: int(o.Isolation), RO: o.ReadOnly}); err != nil {
		return nil, err
	}
	defer lock()()
	c.d.Txs++
	c.d.OpenTxs++
	c.tx = c.d.Txs
	return &tx{c, c.tx}, nil
}

func split(a []driver.NamedValue) (v []any, n []string) {
	for _, x := range a {
		v = append(v, x.Value)
		n = append(n, x.Name)
	}
	return
}

func (c *conn) ExecContext(_ context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	v, n := split(a)
	if err := c.d.event(Event{Op: "exec", Conn: c.id, Tx: c.tx, Query: q, Args: v, Names: n}); err != nil {
		return nil, err
	}
	return driver.RowsAffected(7), nil
}

func (c *conn) QueryContext(_ context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	v, n := split(a)
	if err := c.d.event(Event{Op: "query", Conn: c.id, Tx: c.tx, Query: q, Args: v, Names: n}); err != nil {
		return nil, err
	}
	t := Table{Cols: []string{"c"}}
	defer lock()()
	c.d.ArgNames = n
	if c.d.Answer != nil {
		t = c.d.Answer(q, v)
	}
	c.d.OpenRows++
	return &rows{c: c, t: t}, nil
}

type tx struct {
	c  *conn
	id int
}

func (t *tx) end(op string) error {
	err := t.c.d.event(Event{Op: op, Conn: t.c.id, Tx: t.id})
	t.c.tx = 0
	defer lock()()
	t.c.d.OpenTxs--
	return err
}
func (t *tx) Commit() error   { return t.end("commit") }
func (t *tx) Rollback() error { return t.end("rollback") }

type rows struct {
	c      *conn
	t      Table
	i      int
	closed bool
}

func (r *rows) Columns() []string { return r.t.Cols }
func (r *rows) Close() error {
	if !r.closed {
		r.closed = true
		u := lock()
		r.c.d.OpenRows--
		u()
	}
	return r.c.d.event(Event{Op: "rowsclose", Conn: r.c.id, Tx: r.c.tx})
}
func (r *rows) Next(dest []driver.Value) error {
	if err := r.c.d.event(Event{Op: "next", Conn: r.c.id, Tx: r.c.tx}); err != nil {
		return err
	}
	if r.i >= len(r.t.Rows) {
		return io.EOF
	}
	copy(dest, r.t.Rows[r.i])
	r.i++
	return nil
}
