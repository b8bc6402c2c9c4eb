package xdb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"io"

	"github.com/cockroachdb/errors"
	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
)

// A list query over up to 3 rows (thorough: 5) with any values, through the real database/sql, with a
// fault at any one driver operation (open, query, every iteration step, cursor close) or a row that does not
// scan (wrong type or refused by the model): all rows in order or an error, cursor closed.
func ZZP03_List() {
	max := 3
	if zzsym.Thorough() {
		max = 5
	}
	n := zzsym.Choose("rows", max+1)
	bad := zzsym.Choose("bad", n+1)
	t := zzTable(n, bad)
	d := &zzdrv.DB{Answer: func(string, []any) zzdrv.Table { return t }}
	at := zzsym.Choose("fault", n+5)
	zzFault(d, at)
	refuse := -1
	zzRefuse = 0
	if bad == n && n > 0 && at == 0 && zzsym.Choose("refuse", 2) == 1 {
		refuse = zzsym.Choose("which", n)
		zzScanErr = []error{zzScanRefused, sql.ErrNoRows, context.Canceled, io.EOF}[zzsym.Choose("how", 4)]
		zzRefuse = t.Rows[refuse][0].(int64)
		zzsym.Assume(zzRefuse != 0)
		for i := range t.Rows {
			if i != refuse {
				zzsym.Assume(t.Rows[i][0].(int64) != zzRefuse)
			}
		}
	}
	db := d.Open()
	a := zzsym.I64("arg")
	form := zzsym.Choose("form", 2)
	var list []*zzModel
	var err error
	res := &zzResult{}
	if form == 0 {
		list, err = ExecuteListQuery[zzModel](context.Background(), db, "SELECT ?", a, "b")
	} else {
		err = ExecuteQuery[zzModel](context.Background(), db, res, "SELECT ?", a, "b")
		list = res.rows
		zzsym.Assert((err == nil) == (res.set == 1), "the result is set exactly on success")
		zzsym.Assert(err != nil || !res.next && res.offset == 0, "a query without paging has no next page")
	}
	zzsym.Assert(d.OpenRows == 0, "the cursor is released")
	zzRan(d, "SELECT ?", a, "b")
	if refuse >= 0 {
		zzsym.Assert(err != nil && errors.Is(err, zzScanErr), "a refused row is reported")
	}
	// reporting a fault of the close after the last row is left open
	seen := d.Last != nil && d.Last.(*zzdrv.Err).Op != "rowsclose"
	if seen {
		zzsym.Assert(err != nil && errors.Is(err, d.Last), "a fault of the database is reported")
	}
	if bad < n && !seen {
		zzsym.Assert(err != nil, "a row that does not scan is reported")
	}
	if err == nil {
		zzSameRows(list, t)
	} else {
		zzsym.Assert(list == nil, "no partial list with an error")
		zzsym.Assert(d.Last != nil || bad < n || refuse >= 0, "no error without a fault")
	}
}

// Lists around and above the default page size: every row.
func ZZP03_Long() {
	n := []int{DefaultPageSize - 1, DefaultPageSize, DefaultPageSize + 1, 2*DefaultPageSize + 1, 20*DefaultPageSize + 1}[zzsym.Choose("n", 5)]
	t := zzdrv.Table{Cols: []string{"id", "name"}}
	for i := 0; i < n; i++ {
		t.Rows = append(t.Rows, []driver.Value{int64(i + 1), "n"})
	}
	last := zzsym.I64("last")
	t.Rows[n-1] = []driver.Value{last, "z"}
	d := &zzdrv.DB{Answer: func(string, []any) zzdrv.Table { return t }}
	zzRefuse = 0
	list, err := ExecuteListQuery[zzModel](context.Background(), d.Open(), "SELECT 1")
	zzsym.Assert(err == nil && d.OpenRows == 0, "succeeds")
	zzSameRows(list, t)
}

// A single-row query over 0 to 2 rows with a fault at any one operation or a row that does not scan:
// the first row or an error (the no-rows error if there is none), cursor closed.
func ZZP03_Row() {
	n := zzsym.Choose("rows", 3)
	bad := zzsym.Choose("bad", 2) - 1
	t := zzTable(n, bad)
	d := &zzdrv.DB{Answer: func(string, []any) zzdrv.Table { return t }}
	at := zzsym.Choose("fault", 6)
	zzFault(d, at)
	zzRefuse = 0
	m, err := QueryRow[zzModel](context.Background(), d.Open(), "SELECT 1", "x")
	zzsym.Assert(d.OpenRows == 0, "the cursor is released")
	zzRan(d, "SELECT 1", "x")
	if d.Last != nil && !(d.Last.(*zzdrv.Err).Op == "rowsclose" && n == 0) {
		zzsym.Assert(err != nil && errors.Is(err, d.Last) || err != nil && bad == 0 && n > 0, "a fault of the database is reported")
	}
	if n == 0 && (d.Last == nil || d.Last.(*zzdrv.Err).Op == "rowsclose" && !errors.Is(err, d.Last)) {
		zzsym.Assert(errors.Is(err, sql.ErrNoRows), "no rows is reported")
	}
	if err != nil {
		zzsym.Assert(m == nil, "no record with an error")
		zzsym.Assert(d.Last != nil || n == 0 || bad == 0, "no error without a fault")
		return
	}
	zzsym.Assert(n > 0 && bad != 0, "a record needs a row")
	zzsym.Assert(zzsym.And(m.Scans == 1, m.ID == t.Rows[0][0].(int64), m.Name == t.Rows[0][1].(string)), "the first row")
}

// Two list queries in a row on one pool of at most one connection: a failed first query (any fault)
// does not block or spoil the second.
func ZZP03_Again() {
	t := zzTable(2, 2)
	d := &zzdrv.DB{Answer: func(string, []any) zzdrv.Table { return t }}
	zzFault(d, zzsym.Choose("fault", 8))
	zzRefuse = 0
	db := d.Open()
	db.SetMaxOpenConns(1)
	_, _ = ExecuteListQuery[zzModel](context.Background(), db, "SELECT 1")
	d.Fault, d.Last = nil, nil
	list, err := ExecuteListQuery[zzModel](context.Background(), db, "SELECT 2")
	zzsym.Assert(err == nil && d.OpenRows == 0, "the next query succeeds")
	zzSameRows(list, t)
}

// A list of 255, 501 or 1025 rows queried with 40 arguments, with a fault at, just before or just after its last row or at row 500, or with a row there that does not
// scan: every row, or an error and no list.
func ZZP03_LongFault() {
	n := []int{255, 501, 1025}[zzsym.Choose("n", 3)]
	t := zzdrv.Table{Cols: []string{"id", "name"}}
	for i := 0; i < n; i++ {
		t.Rows = append(t.Rows, []driver.Value{int64(i + 1), "n"})
	}
	at := []int{1, n / 2, 500, n - 1, n}[zzsym.Choose("at", 5)]
	zzsym.Assume(at <= n)
	t.Rows[at-1][0] = zzsym.I64("id")
	d := &zzdrv.DB{Answer: func(string, []any) zzdrv.Table { return t }}
	kind := zzsym.Choose("kind", 4)
	switch kind {
	case 1:
		zzFault(d, at+2) // connection and query, then the rows
	case 2:
		zzFault(d, at+3)
	case 3:
		t.Rows[at-1][0] = "not a number"
	}
	zzRefuse = 0
	var args []any
	for i := 0; i < 40; i++ {
		args = append(args, zzsym.I64("arg"))
	}
	res := &zzResult{}
	err := ExecuteQuery[zzModel](context.Background(), d.Open(), res, "SELECT 1", args...)
	zzsym.Assert(d.OpenRows == 0, "the cursor is released")
	zzRan(d, "SELECT 1", args...)
	if kind == 3 {
		zzsym.Assert(err != nil, "a row that does not scan is reported")
	}
	if d.Last != nil && d.Last.(*zzdrv.Err).Op != "rowsclose" {
		zzsym.Assert(err != nil && errors.Is(err, d.Last), "a fault of the database is reported")
	}
	if err != nil {
		zzsym.Assert(res.set == 0 && (kind == 3 || d.Last != nil), "no result with an error, no error without a fault")
		return
	}
	zzSameRows(res.rows, t)
}
