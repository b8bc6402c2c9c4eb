package xdb

import (
	"database/sql/driver"
	stderrors "errors"

	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
)

// zzModel is a record with one integer and one text column.
type zzModel struct {
	ID    int64
	Name  string
	Scans int
}

var zzScanRefused = stderrors.New("scan refused")

// zzScanErr is the error of a refused row.
var zzScanErr = zzScanRefused

// zzRefuse makes the scan of the row with this id fail.
var zzRefuse int64

func (m *zzModel) ScanRow(rows Row) error {
	m.Scans++
	if err := rows.Scan(&m.ID, &m.Name); err != nil {
		return err
	}
	if zzRefuse != 0 && m.ID == zzRefuse {
		return zzScanErr
	}
	return nil
}

// zzFault makes the operation number at (1-based, 0 none) fail.
func zzFault(d *zzdrv.DB, at int) {
	n := 0
	d.Fault = func(op string) error {
		if op == "close" {
			return nil
		}
		n++
		if n == at {
			return &zzdrv.Err{Op: op, N: n}
		}
		return nil
	}
}

// zzTable is a table of n rows with any ids (distinct from 0) and one-byte names; if bad is below n
// the id of that row is a text that does not convert.
func zzTable(n, bad int) zzdrv.Table {
	t := zzdrv.Table{Cols: []string{"id", "name"}}
	for i := 0; i < n; i++ {
		var id driver.Value = zzsym.I64("id")
		if i == bad {
			id = "not a number"
		}
		t.Rows = append(t.Rows, []driver.Value{id, zzsym.Str("name", 1)})
	}
	return t
}

func zzSameRows(list []*zzModel, t zzdrv.Table) {
	zzsym.Assert(len(list) == len(t.Rows), "every row is returned")
	for i, m := range list {
		zzsym.Assert(m != nil && m.Scans == 1, "scanned once")
		zzsym.Assert(zzsym.And(any(m.ID) == any(t.Rows[i][0]), m.Name == t.Rows[i][1].(string)), "in order with its values")
	}
}

// zzRan checks that the query reached the database once with its text and arguments.
func zzRan(d *zzdrv.DB, q string, args ...any) {
	n := 0
	for _, e := range d.Log {
		if e.Op == "query" {
			n++
			zzsym.Assert(e.Query == q && len(e.Args) == len(args), "the query is passed on")
			for i := range args {
				zzsym.Assert(e.Args[i] == args[i], "its arguments are passed on")
			}
		}
	}
	zzsym.Assert(n <= 1, "the query runs once")
}
