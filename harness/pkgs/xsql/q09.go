package xsql

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"

	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
)

// zzServer answers with n rows of two columns of any values; row bad does not scan.
func zzServer(n, bad int) (*zzdrv.DB, [][]driver.Value) {
	t := zzdrv.Table{Cols: []string{"id", "name"}}
	for i := 0; i < n; i++ {
		var id driver.Value = zzsym.I64("id")
		if i == bad {
			id = "no number"
		}
		t.Rows = append(t.Rows, []driver.Value{id, zzsym.Str("name", 1)})
	}
	return &zzdrv.DB{Answer: func(string, []any) zzdrv.Table { return t }}, t.Rows
}

func zzSent(d *zzdrv.DB, op, text string, args ...any) {
	n := 0
	for _, e := range d.Log {
		if e.Op != op {
			zzsym.Assert(e.Op != "query" && e.Op != "exec", "nothing else is run")
			continue
		}
		n++
		zzsym.Assert(e.Query == text && zzArgsEq(e.Args, args), "statement and arguments are passed unchanged")
	}
	zzsym.Assert(n <= 1, "the statement runs once")
}

// zzFresh checks that the next statement from the pool is a new one.
func zzFresh() {
	q := NoDialect.From("n").Where("n=?", 3)
	zzsym.Assert(q.String() == "FROM n \nWHERE n=?" && len(q.Args()) == 1 && len(q.Dest()) == 0, "recycled statements start empty")
	q.Close()
}

// A query over 0 to 3 rows (thorough: 5) of any values through the real database/sql, with or without scan
// targets and handler, closing variant or not, and a fault at any one driver operation (open, query, each
// iteration step, cursor close) or a row that does not scan.
func ZZQ09_Query() {
	max := 3
	if zzsym.Thorough() {
		max = 5
	}
	n := zzsym.Choose("rows", max+1)
	bad := zzsym.Choose("bad", n+1)
	d, rows := zzServer(n, bad)
	d.FailAt(zzsym.Choose("fault", n+5))
	db := d.Open()
	arg := zzsym.Int("arg")
	var id int64
	var name string
	q := NoDialect.Select("id, name").From("t").Where("k=?", arg)
	targets := zzsym.Choose("targets", 2) == 1
	if targets {
		q.To(&id, &name)
	}
	calls := 0
	same := true
	var h func(*sql.Rows)
	handler := zzsym.Choose("handler", 2) == 1
	if handler {
		h = func(r *sql.Rows) {
			if targets && calls < n && calls != bad {
				same = zzsym.And(same, id == rows[calls][0].(int64), name == rows[calls][1].(string))
			}
			calls++
		}
	}
	var err error
	closing := zzsym.Choose("closing", 2) == 1
	if closing {
		err = q.QueryAndClose(context.Background(), db, h)
	} else {
		err = q.Query(context.Background(), db, h)
	}
	zzsym.Assert(d.OpenRows == 0, "the cursor is released")
	zzSent(d, "query", "SELECT id, name \nFROM t \nWHERE k=?", arg)
	f := d.Failed()
	if f != "" && f != "rowsclose" {
		zzsym.Assert(err != nil && errors.Is(err, d.Last), "a fault of the database is reported")
	}
	scanFails := targets && bad < n
	good := n
	if scanFails {
		good = bad
		if f == "" {
			zzsym.Assert(err != nil, "a row that does not scan is reported")
		}
		if f == "rowsclose" {
			zzsym.Assert(err != nil, "a row that does not scan is reported whatever the close says")
		}
	}
	if err == nil {
		zzsym.Assert(!handler || calls == n, "the handler is called for every row")
	} else {
		zzsym.Assert(d.Last != nil || scanFails, "no error without a fault")
		zzsym.Assert(calls <= good, "the handler is called for scanned rows only")
	}
	zzsym.Assert(same, "rows are scanned in order before the handler is called")
	if closing {
		zzFresh()
	} else {
		zzsym.Assert(q.String() == "SELECT id, name \nFROM t \nWHERE k=?" && zzArgsEq(q.Args(), []any{arg}), "the statement can be used again")
	}
}

// A single-row query over 0 to 2 rows with a fault at any operation or a row that does not scan, closing
// variant or not.
func ZZQ09_QueryRow() {
	n := zzsym.Choose("rows", 3)
	bad := zzsym.Choose("bad", 2) - 1
	d, rows := zzServer(n, bad)
	d.FailAt(zzsym.Choose("fault", 6))
	arg := zzsym.Int("arg")
	var id int64
	var name string
	q := Postgres.From("t").Select("id, name").Where("k=?", arg)
	targets := zzsym.Choose("targets", 2) == 1
	if targets {
		q.To(&id, &name)
	}
	var err error
	if zzsym.Choose("closing", 2) == 1 {
		err = q.QueryRowAndClose(context.Background(), d.Open())
		zzFresh()
	} else {
		err = q.QueryRow(context.Background(), d.Open())
	}
	zzsym.Assert(d.OpenRows == 0, "the cursor is released")
	zzSent(d, "query", "SELECT id, name \nFROM t \nWHERE k=$1", arg)
	f := d.Failed()
	if f != "" && f != "rowsclose" {
		zzsym.Assert(errors.Is(err, d.Last), "a fault of the database is reported")
	}
	if f == "" && n == 0 {
		zzsym.Assert(errors.Is(err, sql.ErrNoRows), "no rows is reported")
	}
	if !targets {
		return // what a row without targets means is left open
	}
	if err == nil {
		zzsym.Assert(n > 0 && bad != 0, "success needs a row that scans")
		zzsym.Assert(zzsym.And(id == rows[0][0].(int64), name == rows[0][1].(string)), "the first row is scanned")
	} else {
		zzsym.Assert(d.Last != nil || n == 0 || bad == 0, "no error without a fault")
	}
}

// Executing with a fault at any operation, closing variant or not, twice.
func ZZQ09_Exec() {
	d := &zzdrv.DB{}
	d.FailAt(zzsym.Choose("fault", 4))
	db := d.Open()
	for i := 0; i < 2; i++ {
		d.Log, d.Last = nil, nil
		arg, v := zzsym.Int("arg"), zzsym.Int("v")
		q := Postgres.Update("t").Where("k=?", arg).Set("c", v)
		var err error
		var res sql.Result
		if zzsym.Choose("closing", 2) == 1 {
			res, err = q.ExecAndClose(context.Background(), db)
			zzFresh()
		} else {
			res, err = q.Exec(context.Background(), db)
		}
		zzSent(d, "exec", "UPDATE t \nSET c=$1 \nWHERE k=$2", v, arg)
		if d.Last != nil {
			zzsym.Assert(errors.Is(err, d.Last), "a fault of the database is reported")
		} else {
			zzsym.Assert(err == nil, "no error without a fault")
			k, e2 := res.RowsAffected()
			zzsym.Assert(k == 7 && e2 == nil, "the database's result")
			zzsym.Assert(d.Count("exec") == 1, "the statement runs")
		}
	}
}
