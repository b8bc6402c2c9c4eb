package xsql

import (
	"strconv"

	"github.com/effective-security/xdb/internal/zzsym"
)

// zzValue makes the value of a column: a plain value or an expression with 0 to 2 arguments.
func zzValue(l string) (plain bool, expr string, args []any) {
	switch k := zzsym.Choose(l, 4); k {
	case 0:
		return true, "?", []any{zzsym.Int(l + "v")}
	case 1:
		return false, "now()", nil
	case 2:
		return false, "f(?)", []any{zzsym.Int(l + "v")}
	default:
		return false, "? + ?", []any{zzsym.Int(l + "v"), zzsym.Int(l + "w")}
	}
}

// INSERT of 1 to 3 columns (thorough: 4), each a plain value or an expression with 0 to 2 arguments of any
// value, the RETURNING clause and reads of the text anywhere in between.
func ZZQ06_Single() {
	max := 3
	if zzsym.Thorough() {
		max = 4
	}
	n := 1 + zzsym.Choose("cols", max)
	d, pg := NoDialect, false
	if zzsym.Choose("dialect", 2) == 1 {
		d, pg = Postgres, true
	}
	q := d.InsertInto("t")
	cols, vals := "", ""
	var want []any
	at := zzsym.Choose("at", n+2)
	for i := 0; i < n; i++ {
		if i == at {
			q.Returning("id")
			_ = q.String()
		}
		plain, e, a := zzValue("v" + strconv.Itoa(i))
		c := "c" + strconv.Itoa(i)
		if plain {
			q.Set(c, a[0])
		} else {
			q.SetExpr(c, e, a...)
		}
		if i > 0 {
			cols += ", "
			vals += ", "
		}
		cols += c
		vals += e
		want = append(want, a...)
	}
	if at == n {
		q.Returning("id")
	}
	text := "INSERT INTO t \n( " + cols + " \n) VALUES ( " + vals + " \n)"
	if at <= n {
		text += " \nRETURNING id"
	}
	if pg {
		text = zzPg(text)
	}
	zzsym.Assert(q.String() == text, "each value is in the place of its column")
	zzsym.Assert(zzArgsEq(q.Args(), want), "arguments in column order")
}

// Multi-row INSERT of 1 to 3 rows of 1 to 2 columns, values as above, rows started by NewRow or the first
// one set directly, RETURNING before any of the rows, at the end or not at all.
func ZZQ06_Rows() {
	rows := 1 + zzsym.Choose("rows", 3)
	n := 1 + zzsym.Choose("cols", 2)
	direct := zzsym.Choose("direct", 2) == 1
	at := zzsym.Choose("returning", rows+2)
	q := NoDialect.InsertInto("t")
	cols, vals := "", ""
	var want []any
	for r := 0; r < rows; r++ {
		var row Row
		if r == at {
			q.Returning("id")
		}
		if r > 0 || !direct {
			row = q.NewRow()
		}
		if r > 0 {
			vals += "  ), ( "
		}
		for i := 0; i < n; i++ {
			plain, e, a := zzValue("v" + strconv.Itoa(r) + strconv.Itoa(i))
			c := "c" + strconv.Itoa(i)
			switch {
			case row == nil && plain:
				q.Set(c, a[0])
			case row == nil:
				q.SetExpr(c, e, a...)
			case plain:
				row = row.Set(c, a[0])
			default:
				row = row.SetExpr(c, e, a...)
			}
			if r == 0 {
				if i > 0 {
					cols += ", "
				}
				cols += c
			}
			if i > 0 {
				vals += ", "
			}
			vals += e
			want = append(want, a...)
		}
	}
	ret := ""
	if at == rows {
		q.Returning("id")
	}
	if at <= rows {
		ret = "RETURNING id"
	}
	zzsym.Assert(zzSquash(q.String()) == zzSquash("INSERT INTO t ( "+cols+" ) VALUES ( "+vals+" )"+ret), "one group per row, values in the order of the columns")
	zzsym.Assert(zzArgsEq(q.Args(), want), "arguments row by row")
}

// zzSquash drops the layout of a text.
func zzSquash(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\n' {
			r += string(s[i : i+1])
		}
	}
	return r
}

// UPDATE of 1 to 3 columns, with WHERE before, between or after.
func ZZQ06_Update() {
	n := 1 + zzsym.Choose("cols", 3)
	q := NoDialect.Update("t")
	at := zzsym.Choose("at", n+1)
	k := zzsym.Int("k")
	sets := ""
	var want []any
	for i := 0; i < n; i++ {
		if i == at {
			q.Where("k=?", k)
		}
		plain, e, a := zzValue("v" + strconv.Itoa(i))
		c := "c" + strconv.Itoa(i)
		if plain {
			q.Set(c, a[0])
		} else {
			q.SetExpr(c, e, a...)
		}
		if i > 0 {
			sets += ", "
		}
		sets += c + "=" + e
		want = append(want, a...)
	}
	if at == n {
		q.Where("k=?", k)
	}
	want = append(want, k)
	zzsym.Assert(q.String() == "UPDATE t \nSET "+sets+" \nWHERE k=?", "assignments in call order")
	zzsym.Assert(zzArgsEq(q.Args(), want), "arguments in column order")
}

// 20 rows of 12 columns, with the values of zzValue in turn, RETURNING before any of the first three rows, before the 10th or at the end.
func ZZQ06_Many() {
	at := []int{0, 1, 2, 10, 20}[zzsym.Choose("returning", 5)]
	d, pg := NoDialect, false
	if zzsym.Choose("dialect", 2) == 1 {
		d, pg = Postgres, true
	}
	q := d.InsertInto("t")
	var cols, vals string
	var want []any
	for r := 0; r <= 20; r++ {
		if r == at {
			q.Returning("id")
		}
		if r == 20 {
			break
		}
		row := q.NewRow()
		if r > 0 {
			vals += "), ("
		}
		for i := 0; i < 12; i++ {
			c := "c" + strconv.Itoa(i)
			if r == 0 {
				cols += "," + c
			}
			e, a := "?", []any{zzsym.Int("v")}
			switch (r + i) % 4 {
			case 0:
				row = row.Set(c, a[0])
			case 1:
				e, a = "now()", nil
				row = row.SetExpr(c, e)
			case 2:
				e = "f(?)"
				row = row.SetExpr(c, e, a...)
			default:
				e, a = "?+?+?", append(a, zzsym.Int("w"), zzsym.Int("x"))
				row = row.SetExpr(c, e, a...)
			}
			if i > 0 {
				vals += ","
			}
			vals += e
			want = append(want, a...)
		}
	}
	text := "INSERT INTO t (" + cols[1:] + ") VALUES (" + vals + ") RETURNING id"
	if pg {
		text = zzPg(text)
	}
	zzsym.Assert(zzSquash(q.String()) == zzSquash(text), "one group per row, values in the order of the columns")
	zzsym.Assert(zzArgsEq(q.Args(), want), "arguments row by row")
}
