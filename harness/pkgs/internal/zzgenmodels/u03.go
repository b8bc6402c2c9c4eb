// Package zzgenmodels checks the code that the repository's generator makes for two fixed databases (harness/gen/u03).
package zzgenmodels

import (
	"context"
	"database/sql/driver"
	"errors"
	"strings"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzmsmodel"
	"github.com/effective-security/xdb/internal/zzmsschema"
	rows "github.com/effective-security/xdb/internal/zzodmodel"
	"github.com/effective-security/xdb/internal/zzodschema"
	"github.com/effective-security/xdb/internal/zzpgmodel"
	"github.com/effective-security/xdb/internal/zzpgschema"
	"github.com/effective-security/xdb/internal/zzsym"
	"github.com/effective-security/xdb/schema"
)

// zzServe is a server whose table has the rows: it answers SELECT a, b, ... FROM table.
func zzServe(table string, rows ...map[string]driver.Value) *zzdrv.DB {
	d := &zzdrv.DB{}
	d.Answer = func(q string, _ []any) zzdrv.Table {
		f := strings.FieldsFunc(q, func(r rune) bool { return r == ' ' || r == '\n' || r == ',' })
		zzsym.Assert(len(f) > 3 && f[0] == "SELECT", "the statement selects columns")
		t := zzdrv.Table{}
		k := 1
		for ; k < len(f) && f[k] != "FROM"; k++ {
			t.Cols = append(t.Cols, f[k])
		}
		zzsym.Assert(k+1 < len(f) && f[k+1] == table, "the statement selects from the table")
		for _, r := range rows {
			var l []driver.Value
			for _, c := range t.Cols {
				v, ok := r[c]
				zzsym.Assert(ok || c == "NULL", "the statement selects columns of the table")
				l = append(l, v)
			}
			t.Rows = append(t.Rows, l)
		}
		return t
	}
	return d
}

func zzText(l string) string {
	s := zzsym.Str(l, zzsym.Choose(l+".len", 3))
	for i := 0; i < len(s); i++ {
		zzsym.Assume(s[i] < 0x80)
	}
	return s
}

// zzNull is NULL or the value.
func zzNull(l string, v driver.Value) driver.Value {
	if zzsym.Bool(l + ".null") {
		return nil
	}
	return v
}

// A row of the 18 column table in the values the Postgres driver delivers: any integers, numbers, texts of up to 2 bytes, times and bits; the
// nullable columns NULL or not (all, none or any one of them); read as one row, in a list, with columns given by the metadata in its order or nulled.
func ZZU03_Row() {
	id, parent, total := zzsym.I64("id"), zzsym.I64("parent"), zzsym.I64("total")
	seats, quota := zzsym.I32("seats"), zzsym.I32("quota")
	active, hidden := zzsym.Bool("active"), zzsym.Bool("hidden")
	score := zzsym.F64("score")
	name, email := zzText("name"), zzText("email")
	at := time.Unix(int64(zzsym.U32("at")), 0).UTC()
	row := map[string]driver.Value{
		"id": id, "parent_id": parent, "name": name, "email": email, "seats": int64(seats), "quota": int64(quota), "total": total,
		"active": active, "hidden": hidden, "score": score, "rate": []byte("12.5"), "created_at": at, "updated_at": at.Add(time.Second),
		"ref": []byte("0a1b2c3d-0000-4000-8000-0123456789ab"), "data": []byte{1, 2, 3}, "meta": []byte(`{"a":1}`), "tags": []byte(`{a,"b c"}`), "member_ids": []byte(`{1,22}`),
	}
	nullable := []string{"parent_id", "email", "quota", "hidden", "rate", "updated_at", "ref", "data", "meta", "tags", "member_ids"}
	null := map[string]bool{}
	switch k := zzsym.Choose("null", len(nullable)+2); k {
	case 0:
	case 1:
		for _, c := range nullable {
			null[c] = true
		}
	default:
		null[nullable[k-2]] = true
	}
	q := zzpgschema.Org.Table.Select().String()
	how := zzsym.Choose("how", 3)
	if how == 2 {
		q = zzpgschema.OrgTableInfo.SelectAliased("", null).String()
	} else {
		for c := range null {
			row[c] = nil
		}
	}
	d := zzServe("public.orgs", row)
	var m *zzpgmodel.Org
	var err error
	if how == 0 {
		m, err = xdb.QueryRow[zzpgmodel.Org](context.Background(), d.Open(), q)
	} else {
		var l []*zzpgmodel.Org
		l, err = xdb.ExecuteListQuery[zzpgmodel.Org](context.Background(), d.Open(), q)
		if err == nil {
			zzsym.Assert(len(l) == 1, "one row")
			m = l[0]
		}
	}
	zzsym.Assert(err == nil && m != nil, "a row of the table is read")
	zzsym.Assert(zzInt(m.ID) == id, "id")
	zzsym.Assert(zzTxt(m.Name) == name, "name")
	zzsym.Assert(zzsym.And(zzInt(m.Seats) == int64(seats), zzInt(m.Total) == total), "integers")
	zzsym.Assert(zzBool(m.Active) == active, "active")
	zzsym.Assert(zzsym.Or(zzFlt(m.Score) == score, score != score), "score")
	zzsym.Assert(zzTime(m.CreatedAt).Equal(at), "created_at")
	has := func(c string, is, zero bool) {
		if null[c] {
			zzsym.Assert(zero, c+" is NULL")
		} else {
			zzsym.Assert(is, c)
		}
	}
	has("parent_id", zzInt(m.ParentID) == parent, zzInt(m.ParentID) == 0)
	has("email", zzTxt(m.Email) == email, zzTxt(m.Email) == "")
	has("quota", zzInt(m.Quota) == int64(quota), zzInt(m.Quota) == 0)
	has("hidden", zzBool(m.Hidden) == hidden, !zzBool(m.Hidden))
	has("rate", zzFlt(m.Rate) == 12.5, zzFlt(m.Rate) == 0)
	has("updated_at", zzTime(m.UpdatedAt).Equal(at.Add(time.Second)), zzTime(m.UpdatedAt).IsZero())
	has("ref", zzTxt(m.Ref) == "0a1b2c3d-0000-4000-8000-0123456789ab", zzTxt(m.Ref) == "")
	has("data", zzTxt(m.Data) == "\x01\x02\x03", zzTxt(m.Data) == "")
	has("meta", zzTxt(m.Meta) == `{"a":1}`, zzTxt(m.Meta) == "")
	has("tags", zzTxt(m.Tags) == `{"a","b c"}`, zzTxt(m.Tags) == "")
	has("member_ids", zzTxt(m.MemberIds) == "{1,22}", zzTxt(m.MemberIds) == "")
	zzsym.Reached("end")
}

// A row of the SQL Server table, in the values its driver delivers: any integers, bit and text of up to 2 bytes; any nullable column NULL or not.
func ZZU03_RowMS() {
	id, line, kind, code := zzsym.I64("id"), zzsym.I32("line"), zzsym.Byte("kind"), zzsym.I16("code")
	open := zzsym.Bool("open")
	zzsym.Assume(line >= 0) // xdb.ID32 reports negative numbers
	title := zzText("title")
	at := time.Unix(1700000000, 0).UTC()
	row := map[string]driver.Value{"OrderID": id, "LineId": zzNull("line", int64(line)), "Kind": int64(kind), "Code": zzNull("code", int64(code)), "Title": zzNull("title", title),
		"Open": open, "Price": zzNull("price", []byte("1.25")), "Key": []byte{0x33, 0x22, 0x11, 0, 0x55, 0x44, 0x77, 0x66, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xff}, "Since": zzNull("since", at)}
	d := zzServe("dbo.Orders", row)
	m, err := xdb.QueryRow[zzmsmodel.Order](context.Background(), d.Open(), zzmsschema.OrderTableInfo.Select().String())
	zzsym.Assert(err == nil && m != nil, "a row of the table is read")
	zzsym.Assert(zzsym.And(zzInt(m.OrderID) == id, zzInt(m.Kind) == int64(kind), zzBool(m.Open) == open), "columns")
	if row["LineId"] == nil {
		line = 0
	}
	if row["Code"] == nil {
		code = 0
	}
	if row["Title"] == nil {
		title = ""
	}
	zzsym.Assert(zzsym.And(zzInt(m.LineID) == int64(line), zzInt(m.Code) == int64(code)), "integers")
	zzsym.Assert(zzTxt(m.Title) == title, "Title")
	zzsym.Assert(row["Price"] == nil && zzFlt(m.Price) == 0 || row["Price"] != nil && zzFlt(m.Price) == 1.25, "Price")
	zzsym.Assert(zzTxt(m.Key) == "00112233-4455-6677-8899-AABBCCDDEEFF", "Key")
	zzsym.Assert(row["Since"] == nil && zzTime(m.Since).IsZero() || row["Since"] != nil && zzTime(m.Since).Equal(at), "Since")
	zzsym.Reached("end")
}

// zzOf is the value of a field as a driver value.
func zzOf(f any) any {
	if v, ok := f.(driver.Valuer); ok {
		r, err := v.Value()
		zzsym.Assert(err == nil, "a value that was read can be written")
		f = r
	}
	switch x := f.(type) {
	case []byte:
		if x == nil {
			return nil
		}
		return string(x)
	case int:
		return int64(x)
	case int32:
		return int64(x)
	case int16:
		return int64(x)
	case int8:
		return int64(x)
	case uint8:
		return int64(x)
	case uint16:
		return int64(x)
	case uint32:
		return int64(x)
	case uint64:
		return int64(x)
	case float32:
		return float64(x)
	}
	return f
}

// zzAs is the value of a field of any type that gives the driver a T, the zero T for NULL.
func zzAs[T any](f any) T {
	var zero T
	switch x := f.(type) { // as Value(), without looking whether it is zero
	case xdb.ID:
		f = int64(x.UInt64())
	case xdb.ID32:
		f = int64(x)
	case xdb.Int64:
		f = int64(x)
	case xdb.Int32:
		f = int64(x)
	case xdb.Float:
		f = float64(x)
	case xdb.Bool:
		f = bool(x)
	case xdb.NULLString:
		f = string(x)
	case xdb.UUID:
		f = string(x)
	case xdb.Time:
		f = time.Time(x)
	}
	v := zzOf(f)
	if v == nil {
		return zero
	}
	r, ok := v.(T)
	zzsym.Assert(ok, "the field gives the driver a value of the column's kind")
	return r
}

func zzInt(f any) int64      { return zzAs[int64](f) }
func zzFlt(f any) float64    { return zzAs[float64](f) }
func zzBool(f any) bool      { return zzAs[bool](f) }
func zzTxt(f any) string     { return zzAs[string](f) }
func zzTime(f any) time.Time { return zzAs[time.Time](f) }

type zzField struct {
	col      string
	val      driver.Value
	req, opt any
	want     any
}

func zzFields(l []zzField, null bool) {
	for _, f := range l {
		zzsym.Assert(zzOf(f.req) == f.want, f.col)
		if null || f.want == any(false) { // these types give false as NULL, as they do zero
			f.want = nil
		}
		zzsym.Assert(zzOf(f.opt) == f.want, f.col+" that may be NULL")
	}
}

// Every column type of Postgres and SQL Server the generator knows, in a nullable column (NULL or not) and in one that is not: the values the drivers
// deliver (any integer of the column's type, bit and ASCII text of up to 2 bytes) are in the model's field, and back in what the field gives the driver.
func ZZU03_Types() {
	i2, i4, i8, u1, bit := zzsym.I16("i2"), zzsym.I32("i4"), zzsym.I64("i8"), zzsym.Byte("u1"), zzsym.Bool("bit")
	// the types of nullable numbers give zero, false and "" as NULL
	zzsym.Assume(zzsym.And(i2 != 0, i4 > 0, i8 != 0, u1 != 0))
	txt := zzsym.Str("txt", 1+zzsym.Choose("txt.len", 2))
	for i := 0; i < len(txt); i++ {
		zzsym.Assume(txt[i] < 0x80)
	}
	at := time.Unix(1700000000, 0).UTC()
	null := zzsym.Bool("null")
	zone := "0a1b2c3d-0000-4000-8000-0123456789ab"
	ctx := context.Background()
	serve := func(table string, l []zzField) *zzdrv.DB {
		row := map[string]driver.Value{}
		for _, f := range l {
			row[f.col] = f.val
			row["n"+f.col] = f.val
			if null {
				row["n"+f.col] = nil
			}
		}
		return zzServe(table, row)
	}
	if zzsym.Bool("sqlserver") {
		guid := []byte{0x33, 0x22, 0x11, 0, 0x55, 0x44, 0x77, 0x66, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xff}
		fields := func(m *zzmsmodel.Kind) []zzField {
			return []zzField{
				{"x_bigint", i8, m.XBigint, m.NxBigint, i8}, {"x_int", int64(i4), m.XInt, m.NxInt, int64(i4)}, {"x_smallint", int64(i2), m.XSmallint, m.NxSmallint, int64(i2)},
				{"x_tinyint", int64(u1), m.XTinyint, m.NxTinyint, int64(u1)}, {"x_decimal", []byte("1.25"), m.XDecimal, m.NxDecimal, 1.25}, {"x_real", 1.5, m.XReal, m.NxReal, 1.5},
				{"x_bit", bit, m.XBit, m.NxBit, bit}, {"x_nchar", txt, m.XNchar, m.NxNchar, txt}, {"x_nvarchar", txt, m.XNvarchar, m.NxNvarchar, txt}, {"x_char", txt, m.XChar, m.NxChar, txt},
				{"x_varchar", txt, m.XVarchar, m.NxVarchar, txt}, {"x_date", at, m.XDate, m.NxDate, at}, {"x_datetime", at, m.XDatetime, m.NxDatetime, at}, {"x_datetime2", at, m.XDatetime2, m.NxDatetime2, at},
				{"x_uniqueidentifier", guid, m.XUniqueidentifier, m.NxUniqueidentifier, "00112233-4455-6677-8899-AABBCCDDEEFF"}}
		}
		d := serve("dbo.kinds", fields(&zzmsmodel.Kind{}))
		m, err := xdb.QueryRow[zzmsmodel.Kind](ctx, d.Open(), zzmsschema.KindTableInfo.Select().String())
		zzsym.Assert(err == nil && m != nil, "a row of the table is read")
		zzFields(fields(m), null)
	} else {
		fields := func(m *zzpgmodel.Kind) []zzField {
			return []zzField{
				{"x_int2", int64(i2), m.XInt2, m.NxInt2, int64(i2)}, {"x_int4", int64(i4), m.XInt4, m.NxInt4, int64(i4)}, {"x_int8", i8, m.XInt8, m.NxInt8, i8}, {"some_id", int64(i4), m.SomeID, m.NsomeID, int64(i4)},
				{"x_numeric", []byte("1.25"), m.XNumeric, m.NxNumeric, 1.25}, {"x_float4", 1.5, m.XFloat4, m.NxFloat4, 1.5}, {"x_float8", 2.5, m.XFloat8, m.NxFloat8, 2.5}, {"x_bool", bit, m.XBool, m.NxBool, bit},
				{"x_jsonb", []byte(`{"a":1}`), m.XJsonb, m.NxJsonb, `{"a":1}`}, {"x_bytea", []byte(txt), m.XBytea, m.NxBytea, txt}, {"x_bpchar", []byte(txt), m.XBpchar, m.NxBpchar, txt},
				{"x_text", txt, m.XText, m.NxText, txt}, {"x_varchar", txt, m.XVarchar, m.NxVarchar, txt}, {"x_cidr", []byte(txt), m.XCidr, m.NxCidr, txt}, {"x_inet", []byte(txt), m.XInet, m.NxInet, txt},
				{"x_ltree", []byte(txt), m.XLtree, m.NxLtree, txt}, {"x_time", at, m.XTime, m.NxTime, at}, {"x_date", at, m.XDate, m.NxDate, at}, {"x_timestamp", at, m.XTimestamp, m.NxTimestamp, at},
				{"x_timestamptz", at, m.XTimestamptz, m.NxTimestamptz, at}, {"x_uuid", []byte(zone), m.XUUID, m.NxUUID, zone}, {"x_list_int8", []byte("{1,-22}"), m.XListInt8, m.NxListInt8, "{1,-22}"},
				{"x_list_text", []byte(`{a,"b c"}`), m.XListText, m.NxListText, `{"a","b c"}`}, {"x_list_varchar", []byte(`{a}`), m.XListVarchar, m.NxListVarchar, `{"a"}`}}
		}
		d := serve("public.kinds", fields(&zzpgmodel.Kind{}))
		m, err := xdb.QueryRow[zzpgmodel.Kind](ctx, d.Open(), zzpgschema.KindTableInfo.Select().String())
		zzsym.Assert(err == nil && m != nil, "a row of the table is read")
		zzFields(fields(m), null)
	}
	zzsym.Reached("end")
}

// Tables generated with a definitions file (names of a table and a field, types of two columns, a column that is dropped), a suffix and the schema's
// name: any integers, texts of up to 2 bytes, NULL or not.
func ZZU03_Overrides() {
	ctx := context.Background()
	id, n, count := zzsym.I64("id"), zzsym.I64("n"), zzsym.U32("count")
	at := time.Unix(1700000000, 0).UTC()
	if zzsym.Bool("clients") {
		typ := zzText("type")
		row := map[string]driver.Value{"id": id, "custom": n, "row_count": int64(count), "_since": zzNull("since", at), "type": zzNull("type", typ)}
		d := zzServe("sales.customers", row)
		m, err := xdb.QueryRow[rows.Client](ctx, d.Open(), zzodschema.Client.Table.Select().String())
		zzsym.Assert(err == nil && m != nil, "a row of the table is read")
		zzsym.Assert(zzsym.And(zzInt(m.ID) == id, int64(m.Special) == n, zzInt(m.RowCount) == int64(count)), "integers")
		zzsym.Assert(row["_since"] == nil && zzTime(m.Xsince).IsZero() || row["_since"] != nil && zzTime(m.Xsince).Equal(at), "_since")
		if row["type"] == nil {
			typ = ""
		}
		zzsym.Assert(zzTxt(m.Type) == typ, "type")
		zzsym.Assert((&rows.ClientResult{}).GetTableInfo() == zzodschema.Client.Table && zzodschema.MyDbTables["customers"] == zzodschema.Client.Table, "metadata")
		c := zzodschema.Client
		zzsym.Assert(c.Special.Name == "custom" && c.RowCount.Name == "row_count" && c.RowCount.Position == 4 && c.Xsince.Nullable, "definitions of the columns")
	} else {
		city := zzText("city")
		row := map[string]driver.Value{"org_id": id, "city": zzNull("city", city)}
		d := zzServe("sales.addresses", row)
		res := &rows.SalesAddressRowResult{}
		err := xdb.ExecuteQueryWithPagination[rows.SalesAddressRow](ctx, d.Open(), res, zzodschema.SalesAddressRow.Table.Select().String(), 5, 3)
		zzsym.Assert(err == nil && len(res.Rows) == 1 && !res.HasNextPage && res.NextOffset == 0, "a row of the table is read")
		m := res.Rows[0]
		zzsym.Assert(zzInt(m.OrgID) == id, "org_id")
		zzsym.Assert((m.City == nil) == (row["city"] == nil) && (m.City == nil || *m.City == city), "city")
		m.Cached()["a"] = 1
		zzsym.Assert(len(m.Cached()) == 1, "cached properties")
		zzsym.Assert(res.GetTableInfo() == zzodschema.SalesAddressRow.Table && zzodschema.MyDbTables["addresses"] == zzodschema.SalesAddressRow.Table, "metadata")
	}
	zzsym.Reached("end")
}

type zzRow struct {
	n   int
	err error
}

func (r *zzRow) Scan(dest ...any) error {
	r.n += len(dest)
	return r.err
}
func (r *zzRow) Err() error { return nil }

// A row that cannot be read is reported with its cause.
func ZZU03_Failure() {
	e := errors.New("boom")
	r := &zzRow{}
	if zzsym.Bool("fails") {
		r.err = e
	}
	var got error
	n := 0
	switch zzsym.Choose("table", 4) {
	case 0:
		got, n = new(zzpgmodel.Org).ScanRow(r), len(zzpgschema.OrgTableInfo.Columns)
	case 1:
		got, n = new(zzpgmodel.Role).ScanRow(r), len(zzpgschema.RoleTableInfo.Columns)
	case 2:
		got, n = new(zzpgmodel.OrgName).ScanRow(r), len(zzpgschema.OrgNameTableInfo.Columns)
	default:
		got, n = new(zzmsmodel.Order).ScanRow(r), len(zzmsschema.OrderTableInfo.Columns)
	}
	zzsym.Assert((got == nil) == (r.err == nil) && (got == nil || errors.Is(got, e)), "a row that cannot be read is reported with its cause")
	zzsym.Assert(r.n == n, "every column is read, once")
	zzsym.Reached("end")
}

// Listings of 0 to 3 rows with any ids, page by page (limit 0 to 3 and any offset) and with a cursor: rows, next page, next offset and cursor.
func ZZU03_Pages() {
	n := zzsym.Choose("rows", 4)
	var rows []map[string]driver.Value
	ids := make([]int64, n)
	for i := range ids {
		ids[i] = zzsym.I64("id")
		rows = append(rows, map[string]driver.Value{"id": ids[i], "name": "n"})
	}
	d := zzServe("public.roles", rows...)
	q := zzpgschema.Role.Table.Select().String()
	limit := uint32(zzsym.Choose("limit", 4))
	offset := zzsym.U32("offset")
	zzsym.Assume(offset < 1<<31)
	res := &zzpgmodel.RoleResult{}
	if zzsym.Bool("old") {
		// a result that was used before
		res.Rows, res.NextOffset, res.HasNextPage = zzpgmodel.RoleSlice{{}}, 77, true
	}
	var err error
	next := limit > 0 && uint32(n) >= limit
	switch zzsym.Choose("how", 3) {
	case 0:
		err = xdb.ExecuteQueryWithPagination[zzpgmodel.Role](context.Background(), d.Open(), res, q, limit, offset)
		if next {
			zzsym.Assert(res.NextOffset == offset+uint32(n), "next offset")
		} else {
			zzsym.Assert(res.NextOffset == 0, "next offset")
		}
		zzsym.Assert(res.Cursor == "", "no cursor")
	case 1:
		calls := 0
		err = xdb.ExecuteQueryWithCursor(context.Background(), d.Open(), func(last *zzpgmodel.Role) string {
			calls++
			zzsym.Assert(n > 0 && last != nil && zzInt(last.ID) == ids[n-1], "the cursor is made of the last row")
			return "after"
		}, res, q, "", limit)
		if next && n > 0 {
			zzsym.Assert(res.Cursor == "after" && calls == 1, "cursor")
		} else {
			zzsym.Assert(res.Cursor == "" && calls == 0, "no cursor")
		}
	default:
		next = false
		err = xdb.ExecuteQuery[zzpgmodel.Role](context.Background(), d.Open(), res, q)
		zzsym.Assert(res.NextOffset == 0, "next offset")
	}
	zzsym.Assert(err == nil, "the listing succeeds")
	zzsym.Assert(res.HasNextPage == next, "next page")
	zzsym.Assert(len(res.Rows) == n, "all rows")
	for i, r := range res.Rows {
		zzsym.Assert(zzInt(r.ID) == ids[i], "the rows in order")
	}
	zzsym.Assert(d.OpenRows == 0, "rows stay open")
	zzsym.Reached("end")
}

// What the generated packages declare: the definitions and metadata of every table refer to each other.
func ZZU03_Declared() {
	zzsym.Assert((&zzpgmodel.OrgResult{}).GetTableInfo() == &zzpgschema.OrgTableInfo, "metadata of the model")
	zzsym.Assert((&zzpgmodel.RoleResult{}).GetTableInfo() == &zzpgschema.RoleTableInfo, "metadata of the model")
	zzsym.Assert((&zzpgmodel.OrgNameResult{}).GetTableInfo() == &zzpgschema.OrgNameTableInfo, "metadata of the model")
	zzsym.Assert((&zzmsmodel.OrderResult{}).GetTableInfo() == &zzmsschema.OrderTableInfo, "metadata of the model")
	zzsym.Assert(zzpgschema.Org.Table == &zzpgschema.OrgTableInfo && zzpgschema.Role.Table == &zzpgschema.RoleTableInfo && zzmsschema.Order.Table == &zzmsschema.OrderTableInfo, "metadata of the definitions")
	zzsym.Assert(len(zzpgschema.MyDbTables) == 4 && len(zzmsschema.MyDbTables) == 2, "the map of tables")
	zzsym.Assert(zzpgschema.MyDbTables["orgs"] == &zzpgschema.OrgTableInfo && zzpgschema.MyDbTables["roles"] == &zzpgschema.RoleTableInfo && zzpgschema.MyDbTables["org_names"] == &zzpgschema.OrgNameTableInfo && zzmsschema.MyDbTables["Orders"] == &zzmsschema.OrderTableInfo, "the map of tables")
	o := zzpgschema.OrgTableInfo
	zzsym.Assert(o.Schema == "public" && o.Name == "orgs" && o.SchemaName == "public.orgs" && o.PrimaryKey == "id" && len(o.Indexes) == 1 && o.Dialect.Provider() == "postgres", "metadata")
	zzsym.Assert(zzmsschema.OrderTableInfo.Dialect.Provider() == "sqlserver" && zzmsmodel.Dialect.Provider() == "sqlserver" && zzpgmodel.Dialect.Provider() == "postgres", "dialect")
	c := zzpgschema.Org
	for i, x := range []schema.Column{c.ID, c.ParentID, c.Name, c.Email, c.Seats, c.Quota, c.Total, c.Active, c.Hidden, c.Score, c.Rate, c.CreatedAt, c.UpdatedAt, c.Ref, c.Data, c.Meta, c.Tags, c.MemberIds} {
		zzsym.Assert(x.Name == o.Columns[i] && int(x.Position) == i+1, "definitions of the columns")
	}
	// properties cached on a model
	r := &zzpgmodel.Role{}
	r.Cached()["a"] = 1
	zzsym.Assert(len(r.Cached()) == 1 && len((&zzpgmodel.Role{}).Cached()) == 0, "cached properties")
	zzsym.Reached("end")
}
