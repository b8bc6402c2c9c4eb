package xdb

import (
	"context"
	"database/sql"
	"database/sql/driver"

	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
)

// zzPaged calls the paged query in one of the calling forms: 0 parameter set, 1 numbers, 2 ints,
// 3 named arguments. The first argument is always "w".
func zzPaged(db DB, res *zzResult, form int, limit, offset uint32) error {
	ctx := context.Background()
	switch form {
	case 0:
		return ExecuteQueryWithPagination[zzModel](ctx, db, res, "Q", NewQueryParams("q").Set(3, "w").SetPage(limit, offset))
	case 1:
		return ExecuteQueryWithPagination[zzModel](ctx, db, res, "Q", "w", limit, offset)
	case 2:
		return ExecuteQueryWithPagination[zzModel](ctx, db, res, "Q", "w", int(limit), int(offset))
	}
	return ExecuteQueryWithPagination[zzModel](ctx, db, res, "Q", "w", sql.Named("limit", limit), sql.Named("offset", int(offset)))
}

func zzNum(v any) uint32 {
	switch x := v.(type) {
	case uint32:
		return x
	case int:
		return uint32(x)
	}
	zzsym.Assert(false, "paging argument of the given type")
	return 0
}

// One paged query with any page size and offset (offset plus rows below 2^32) that returns 0 to 3 rows, in
// all 4 calling forms, with or without a fault.
func ZZP04_Page() {
	n := zzsym.Choose("rows", 4)
	t := zzTable(n, n)
	d := &zzdrv.DB{Answer: func(string, []any) zzdrv.Table { return t }}
	zzFault(d, zzsym.Choose("fault", n+4))
	limit, offset := zzsym.U32("limit"), zzsym.U32("offset")
	zzsym.Assume(offset <= 1<<32-1-4)
	form := zzsym.Choose("form", 4)
	res := &zzResult{}
	zzRefuse = 0
	err := zzPaged(d.Open(), res, form, limit, offset)
	size := limit
	if form == 0 {
		size = uint32(zzsym.IteU64(limit == 0, DefaultPageSize, uint64(limit)))
	}
	for _, e := range d.Log {
		if e.Op == "query" {
			zzsym.Assert(e.Query == "Q" && len(e.Args) == 3 && e.Args[0] == any("w"), "the arguments reach the database")
			zzsym.Assert(zzNum(e.Args[1]) == size && zzNum(e.Args[2]) == offset, "with the page size and offset")
		}
	}
	zzsym.Assert(d.OpenRows == 0, "the cursor is released")
	if err != nil {
		zzsym.Assert(d.Last != nil && res.set == 0, "an error only for a fault, without a result")
		return
	}
	zzsym.Assert(d.Last == nil || d.Last.(*zzdrv.Err).Op == "rowsclose", "a fault is reported")
	zzsym.Assert(res.set == 1, "one result")
	zzSameRows(res.rows, t)
	full := zzsym.And(size > 0, uint32(n) >= size)
	zzsym.Assert(res.next == full, "a next page exactly after a full page")
	if res.next {
		zzsym.Assert(res.offset == offset+uint32(n), "the next page starts after the rows returned")
	} else {
		zzsym.Assert(res.offset == 0, "no next offset without a next page")
	}
}

type zzQP struct {
	QueryParams
	pageLimit, pageOffset, curLimit uint32
}

func (q zzQP) Page() (uint32, uint32) { return q.pageLimit, q.pageOffset }
func (q zzQP) Cursor() (uint32, any)  { return q.curLimit, nil }

// Paging values as the only arguments, and parameter sets of another kind that page by offset and by cursor
// with different sizes: each call uses its own.
func ZZP04_Forms() {
	n := zzsym.Choose("rows", 3)
	t := zzTable(n, n)
	d := &zzdrv.DB{Answer: func(string, []any) zzdrv.Table { return t }}
	res := &zzResult{}
	ctx := context.Background()
	zzRefuse = 0
	a, b, c := zzsym.U32("limit"), zzsym.U32("offset"), zzsym.U32("climit")
	zzsym.Assume(b < 1<<31)
	qp := zzQP{NewQueryParams("q"), a, b, c}
	var err error
	form := zzsym.Choose("form", 4)
	switch form {
	case 0:
		err = ExecuteQueryWithPagination[zzModel](ctx, d.Open(), res, "Q", a, b)
	case 1:
		err = ExecuteQueryWithPagination[zzModel](ctx, d.Open(), res, "Q", int(a), sql.Named("o", b))
	case 2:
		err = ExecuteQueryWithPagination[zzModel](ctx, d.Open(), res, "Q", qp)
	default:
		err = ExecuteQueryWithCursor[zzModel](ctx, d.Open(), nil, res, "Q", qp)
		a = c
	}
	zzsym.Assert(err == nil && res.set == 1, "succeeds")
	zzSameRows(res.rows, t)
	zzsym.Assert(res.next == zzsym.And(a > 0, uint32(n) >= a), "a next page exactly after a full page")
	if res.next && form < 3 {
		zzsym.Assert(res.offset == b+uint32(n), "the next page starts after the rows returned")
	} else {
		zzsym.Assert(res.offset == 0, "no next offset")
	}
}

// Parameter set without paging, and fewer than 2 plain arguments: no next page.
func ZZP04_Unpaged() {
	n := zzsym.Choose("rows", 3)
	t := zzTable(n, n)
	d := &zzdrv.DB{Answer: func(string, []any) zzdrv.Table { return t }}
	res := &zzResult{}
	ctx := context.Background()
	zzRefuse = 0
	var err error
	form := zzsym.Choose("form", 7)
	switch form {
	case 0:
		err = ExecuteQueryWithPagination[zzModel](ctx, d.Open(), res, "Q", NewQueryParams("q").Set(1, "v").Set(2, "w"))
	case 6:
		err = ExecuteQuery[zzModel](ctx, d.Open(), res, "Q", NewQueryParams("q").Set(1, "v").Set(2, "w"))
	case 1:
		err = ExecuteQueryWithPagination[zzModel](ctx, d.Open(), res, "Q")
	case 2:
		err = ExecuteQueryWithPagination[zzModel](ctx, d.Open(), res, "Q", "w")
	case 3:
		err = ExecuteQueryWithCursor[zzModel](ctx, d.Open(), nil, res, "Q", NewQueryParams("q").Set(1, "v").Set(2, "w"))
	case 4:
		err = ExecuteQueryWithCursor[zzModel](ctx, d.Open(), nil, res, "Q")
	default:
		err = ExecuteQueryWithCursor[zzModel](ctx, d.Open(), nil, res, "Q", "w")
	}
	zzsym.Assert(err == nil && res.set == 1, "succeeds")
	for _, e := range d.Log {
		if e.Op == "query" {
			zzsym.Assert(e.Query == "Q", "the query reaches the database")
			switch form {
			case 1, 4:
				zzsym.Assert(len(e.Args) == 0, "without arguments")
			case 2, 5:
				zzsym.Assert(len(e.Args) == 1 && e.Args[0] == any("w"), "with its argument")
			default:
				zzsym.Assert(len(e.Args) == 2 && e.Args[0] == any("v") && e.Args[1] == any("w"), "with its arguments")
			}
		}
	}
	zzSameRows(res.rows, t)
	zzsym.Assert(!res.next && res.offset == 0, "no next page without paging")
}

// Cursor paging with any page size over 0 to 3 rows, as parameter set or plain arguments.
func ZZP04_Cursor() {
	n := zzsym.Choose("rows", 4)
	t := zzTable(n, n)
	d := &zzdrv.DB{Answer: func(string, []any) zzdrv.Table { return t }}
	zzFault(d, zzsym.Choose("fault", n+4))
	limit, after := zzsym.U32("limit"), zzsym.I64("after")
	res := &zzResult{}
	zzRefuse = 0
	calls := 0
	fn := func(m *zzModel) string { calls++; return "c:" + m.Name }
	ctx := context.Background()
	var err error
	form := zzsym.Choose("form", 3)
	size := limit
	switch form {
	case 0:
		size = uint32(zzsym.IteU64(limit == 0, DefaultPageSize, uint64(limit)))
		err = ExecuteQueryWithCursor(ctx, d.Open(), fn, res, "Q", NewQueryParams("q").SetCursor(limit, 2, after))
	case 1:
		err = ExecuteQueryWithCursor(ctx, d.Open(), fn, res, "Q", after, limit)
	default:
		err = ExecuteQueryWithCursor(ctx, d.Open(), fn, res, "Q", after, int(limit))
	}
	for _, e := range d.Log {
		if e.Op == "query" {
			zzsym.Assert(e.Query == "Q" && len(e.Args) == 2 && e.Args[0].(int64) == after && zzNum(e.Args[1]) == size, "cursor and page size reach the database")
		}
	}
	zzsym.Assert(d.OpenRows == 0, "the cursor is released")
	if err != nil {
		zzsym.Assert(d.Last != nil && res.set == 0, "an error only for a fault, without a result")
		return
	}
	zzsym.Assert(d.Last == nil || d.Last.(*zzdrv.Err).Op == "rowsclose", "a fault is reported")
	zzsym.Assert(res.set == 1, "one result")
	zzSameRows(res.rows, t)
	zzsym.Assert(res.next == zzsym.And(size > 0, uint32(n) >= size), "a next page exactly after a full page")
	if n > 0 {
		m := res.rows[n-1]
		zzsym.Assert(res.cursor(m) == "c:"+m.Name && calls == 1, "the cursor function is passed on")
	}
}

// Walking a table of 0 to 5 rows (thorough: 8) with page sizes 1 to 4 in all calling forms: every row once,
// in order, and the walk ends.
func ZZP04_Walk() {
	max := 5
	if zzsym.Thorough() {
		max = 8
	}
	n := zzsym.Choose("rows", max+1)
	all := zzTable(n, n)
	d := &zzdrv.DB{Answer: func(_ string, a []any) zzdrv.Table {
		lim, off := int(zzNum(a[1])), int(zzNum(a[2]))
		t := zzdrv.Table{Cols: all.Cols}
		if off < n {
			t.Rows = all.Rows[off:]
		}
		if len(t.Rows) > lim {
			t.Rows = t.Rows[:lim]
		}
		return t
	}}
	limit := uint32(1 + zzsym.Choose("limit", 4))
	form := zzsym.Choose("form", 4)
	zzRefuse = 0
	db := d.Open()
	var got []*zzModel
	var offset uint32
	for pages := 0; ; pages++ {
		zzsym.Assert(pages <= n, "the walk ends")
		res := &zzResult{}
		zzsym.Assert(zzPaged(db, res, form, limit, offset) == nil, "succeeds")
		got = append(got, res.rows...)
		if !res.next {
			break
		}
		zzsym.Assert(res.offset > offset, "the offset advances")
		offset = res.offset
	}
	zzSameRows(got, all)
}

// Pages of 255, 256, 500, 501 or 1500 rows with any page size and offset, and cursor pages: a next page exactly after a full page.
func ZZP04_Long() {
	n := []int{255, 256, 500, 501, 1500}[zzsym.Choose("n", 5)]
	t := zzdrv.Table{Cols: []string{"id", "name"}}
	for i := 0; i < n; i++ {
		t.Rows = append(t.Rows, []driver.Value{int64(i + 1), "n"})
	}
	d := &zzdrv.DB{Answer: func(string, []any) zzdrv.Table { return t }}
	limit, offset := zzsym.U32("limit"), zzsym.U32("offset")
	zzsym.Assume(offset <= 1<<32-1-2000)
	res := &zzResult{}
	zzRefuse = 0
	form := zzsym.Choose("form", 5)
	size := limit
	if form == 0 || form == 4 {
		size = uint32(zzsym.IteU64(limit == 0, DefaultPageSize, uint64(limit)))
	}
	full := zzsym.And(size > 0, uint32(n) >= size)
	if form == 4 {
		err := ExecuteQueryWithCursor(context.Background(), d.Open(), func(m *zzModel) string { return m.Name }, res, "Q", NewQueryParams("q").SetCursor(limit, 2, "x"))
		zzsym.Assert(err == nil && res.set == 1, "one result")
	} else {
		zzsym.Assert(zzPaged(d.Open(), res, form, limit, offset) == nil && res.set == 1, "one result")
		if full {
			zzsym.Assert(res.offset == offset+uint32(n), "the next page starts after the rows returned")
		} else {
			zzsym.Assert(res.offset == 0, "no next offset without a next page")
		}
	}
	zzSameRows(res.rows, t)
	zzsym.Assert(res.next == full, "a next page exactly after a full page")
}
