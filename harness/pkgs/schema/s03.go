package schema

import (
	"errors"

	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
)

func zzSmall(w *zzCat) {
	col := func(n string, o int64) zzCol { return zzCol{name: n, typ: "int", udt: "int", null: "NO", ord: o} }
	pk := []zzIdx{{name: "pk", pk: true, unique: true, cols: []string{"id"}}}
	for _, n := range []string{"a", "b", "c"} {
		w.tabs = append(w.tabs, zzTab{schema: "s", name: n, typ: "BASE TABLE", cols: []zzCol{col("id", 1), col("r", 2)}, idx: pk})
	}
	w.views = []zzTab{{schema: "s", name: "v", cols: []zzCol{col("id", 1)}}, {schema: "s", name: "w", cols: []zzCol{col("id", 1)}}}
	w.fks = []zzFK{{"f1", "s", "a", "r", "s", "b", "id"}, {"f2", "s", "b", "r", "s", "c", "id"}}
}

// zzList makes any one listing and tells how much it returned.
func zzList(w *zzCat) (int, error) {
	var f []string
	if zzsym.Choose("filter", 2) == 1 {
		f = []string{"a", "v"}
	}
	switch zzsym.Choose("op", 4) {
	case 0:
		tt, err := w.p.ListTables(w.ctx, nil, f, false)
		return len(tt), err
	case 1:
		tt, err := w.p.ListTables(w.ctx, nil, f, true)
		return len(tt), err
	case 2:
		tt, err := w.p.ListViews(w.ctx, nil, f)
		return len(tt), err
	}
	kk, err := w.p.ListForeignKeys(w.ctx, nil, f)
	return len(kk), err
}

// Every listing (with and without dependencies, of some and of all) of a catalog with three chained tables, two views and two foreign keys; any one
// operation of the database (connecting, any query, fetching any row or the end of any result) fails; both databases.
func ZZS03_Operations() {
	w := zzNew()
	zzSmall(w)
	at := zzsym.IntRange("at", 0, 60)
	k := 0
	w.d.Fault = func(op string) error {
		if op == "close" || op == "rowsclose" {
			return nil
		}
		k++
		if k == at {
			return &zzdrv.Err{Op: op, N: k}
		}
		return nil
	}
	n, err := zzList(w)
	zzsym.Assert((err != nil) == (w.d.Failed() != ""), "a failure of the database is reported, and only that")
	if err != nil {
		zzsym.Assert(errors.Is(err, w.d.Last), "with its cause")
		zzsym.Assert(n == 0, "and without a partial result")
	}
	zzsym.Assert(w.d.OpenRows == 0, "every cursor is released")
	// the provider remains usable
	w.d.Fault, w.d.Last = nil, nil
	_, err = w.p.ListTables(w.ctx, nil, nil, true)
	zzsym.Assert(err == nil && w.d.OpenRows == 0, "the provider remains usable")
}

// The same listings; one value of one row of one result is NULL or a text where a number belongs, so that it cannot be scanned.
func ZZS03_Scan() {
	w := zzNew()
	zzSmall(w)
	query := zzsym.IntRange("query", 0, 12)
	row := zzsym.Choose("row", 2)
	cell := zzsym.Choose("cell", 8)
	k, bad := 0, false
	w.mangle = func(kind string, t *zzdrv.Table) {
		k++
		if k-1 != query || row >= len(t.Rows) || cell >= len(t.Cols) {
			return
		}
		switch f := zzField(kind, t.Cols[cell]); {
		case f == "max":
			t.Rows[row][cell], bad = "many", true
		case kind == "views":
			// NULLs in place of the column are valid
			if f == "schema" || f == "table" {
				t.Rows[row][cell], bad = nil, true
			} else if f == "ord" {
				t.Rows[row][cell], bad = "first", true
			}
		default:
			t.Rows[row][cell], bad = nil, true
		}
	}
	n, err := zzList(w)
	zzsym.Assert((err != nil) == bad, "a row that cannot be scanned is reported, and only that")
	zzsym.Assert(err == nil || n == 0, "without a partial result")
	zzsym.Assert(w.d.OpenRows == 0, "every cursor is released")
}

// An index (of a listed table or of a dependency) on a column that is not visible, an index without columns, a foreign key of a column or to a
// table that is not visible; with and without dependencies; both databases.
func ZZS03_Invisible() {
	w := zzNew()
	zzSmall(w)
	t := zzsym.Choose("table", 3)
	pk := zzsym.Choose("pk", 2) == 1
	switch zzsym.Choose("what", 4) {
	case 0:
		w.tabs[t].idx = []zzIdx{{name: "i", pk: pk, cols: []string{"hidden"}}}
	case 1:
		w.tabs[t].idx = []zzIdx{{name: "i", pk: pk, cols: []string{""}}}
	case 2:
		w.fks = append(w.fks, zzFK{"f3", "s", w.tabs[t].name, "hidden", "s", "a", "id"})
	case 3:
		w.fks = append(w.fks, zzFK{"f3", "s", w.tabs[t].name, "id", "other", "hidden", "id"})
	}
	_, err := zzList(w)
	zzsym.Assert(err == nil, "listing succeeds")
	zzsym.Assert(w.d.OpenRows == 0, "every cursor is released")
}

// A large database (24 tables and views, 60 columns, 80 foreign keys): any one operation of any listing fails, counted from the first or from the last one.
func ZZS03_Large() {
	w := zzNew()
	zzBigDB(w, false)
	op := zzsym.Choose("op", 3)
	list := func() (int, error) {
		switch op {
		case 0:
			tt, err := w.p.ListTables(w.ctx, nil, nil, true)
			return len(tt), err
		case 1:
			tt, err := w.p.ListViews(w.ctx, nil, nil)
			return len(tt), err
		}
		kk, err := w.p.ListForeignKeys(w.ctx, nil, nil)
		return len(kk), err
	}
	at := zzsym.IntRange("at", 1, 900)
	k := 0
	w.d.Fault = func(op string) error {
		if op == "close" || op == "rowsclose" {
			return nil
		}
		k++
		if k == at {
			return &zzdrv.Err{Op: op, N: k}
		}
		return nil
	}
	n, err := list()
	zzsym.Assert((err != nil) == (w.d.Failed() != ""), "a failure of the database is reported, and only that")
	if err != nil {
		zzsym.Assert(errors.Is(err, w.d.Last), "with its cause")
		zzsym.Assert(n == 0, "and without a partial result")
	} else {
		zzsym.Assert(n >= 24, "everything is listed")
	}
	zzsym.Assert(w.d.OpenRows == 0, "every cursor is released")
}
