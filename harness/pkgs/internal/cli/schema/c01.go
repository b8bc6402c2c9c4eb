package schema

import (
	"bytes"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"os"
	"strconv"
	"strings"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/cli"
	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
	"github.com/effective-security/xdb/schema"
)

func zzSrc(i int, sslmode string) string {
	return []string{"postgres://u:p@h1?sslmode=" + sslmode, "sqlserver://sa:p@h2?encrypt=" + sslmode}[i]
}

func zzServer() (*zzdrv.DB, *zzdrv.Driver, *zzdrv.Driver) {
	d := &zzdrv.DB{}
	pg, ms := &zzdrv.Driver{DB: d}, &zzdrv.Driver{DB: d}
	zzdrv.Register("postgres", pg)
	zzdrv.Register("sqlserver", ms)
	return d, pg, ms
}

// The source given as an option (any text of up to 3 bytes), in the environment, both or neither.
func ZZC01_Source() {
	opt, env := "", ""
	if zzsym.Bool("option") {
		opt = zzsym.Str("opt", 1+zzsym.Choose("len", 3))
	}
	if zzsym.Bool("environment") {
		env = zzSrc(zzsym.Choose("env", 2), "x")
	}
	old, had := os.LookupEnv("XDB_DATASOURCE")
	os.Setenv("XDB_DATASOURCE", env)
	defer func() {
		if had {
			os.Setenv("XDB_DATASOURCE", old)
		} else {
			os.Unsetenv("XDB_DATASOURCE")
		}
	}()
	c := &cli.Cli{SQLSource: opt, Debug: zzsym.Bool("debug")}
	err := c.AfterApply(nil, nil)
	want := opt
	if opt == "" {
		want = env
	}
	zzsym.Assert((err != nil) == (want == ""), "refused exactly without a source")
	if err == nil {
		zzsym.Assert(c.SQLSource == want, "the option wins over the environment")
	}
}

// Sequences of up to 4 uses of one command context (thorough: 5): connecting, the schema provider, closing, with a
// fault at any operation of the server, for both databases.
func ZZC01_Connection() {
	d, pg, ms := zzServer()
	which := zzsym.Choose("src", 2)
	src := zzSrc(which, "disable")
	db := []string{"", "db1"}[zzsym.Choose("db", 2)]
	d.FailAt(zzsym.Choose("fault", 6))
	c := &cli.Cli{SQLSource: src}
	var open xdb.Provider
	n := 4
	if zzsym.Thorough() {
		n = 5
	}
	usedSchema := false
	for i := 0; i < n; i++ {
		failed := len(d.Log)
		switch zzsym.Choose("op", 3) {
		case 0:
			p, err := c.DB(db)
			zzAttempt(d, failed, p == nil, err)
			if open != nil {
				zzsym.Assert(err == nil && p == open, "one connection for all commands")
			}
			if err == nil {
				open = p
				zzsym.Assert(p.Name() == []string{"postgres", "sqlserver"}[which], "of the driver the source names")
			}
		case 1:
			p, err := c.SchemaProvider(db)
			zzAttempt(d, failed, p == nil, err)
			if err == nil {
				usedSchema = true
				zzsym.Assert(p.Name() == []string{"postgres", "sqlserver"}[which], "of the driver the source names")
			}
			if open == nil && err == nil {
				if open, err = c.DB(db); err != nil {
					zzsym.Assert(false, "the schema provider shares the connection")
				}
			}
		case 2:
			c.Close()
			zzsym.Assert(d.OpenConns == 0, "closing releases the connection")
			if usedSchema {
				return // a context is not used again after closing
			}
			open = nil
		}
		names := append(append([]string{}, pg.Names...), ms.Names...)
		for _, s := range names {
			zzsym.Assert(strings.Contains(s, []string{"@h1", "@h2"}[which]) && strings.Contains(s, "db1") == (db != ""), "connected to the requested source and database")
		}
		zzsym.Assert((which == 0 || len(pg.Names) == 0) && (which == 1 || len(ms.Names) == 0), "by its driver")
	}
	c.Close()
	c.Close()
	zzsym.Assert(d.OpenConns == 0 && zzsym.Live() == 0, "nothing stays open")
}

// zzAttempt: an attempt fails if and only if an operation of the server failed in it, and with that cause.
func zzAttempt(d *zzdrv.DB, from int, none bool, err error) {
	failed := false
	for _, e := range d.Log[from:] {
		failed = failed || e.Failed
	}
	zzsym.Assert(failed == (err != nil) && none == (err != nil), "a failure to connect is reported, success is not")
	zzsym.Assert(err == nil || errors.Is(err, d.Last), "with its cause")
}

// The commands listing views and foreign keys of up to 2 rows through the whole stack, for both databases, with
// filters, and a fault at any operation of the server: everything in the output, or an error.
func ZZC01_Commands() {
	d, _, _ := zzServer()
	src := zzSrc(zzsym.Choose("src", 2), "disable")
	keys := zzsym.Bool("keys")
	filter := [][]string{nil, {"S1"}}[zzsym.Choose("filter", 2)]
	var rows [][]driver.Value
	var want []string
	for i := zzsym.Choose("rows", 3); i > 0; i-- {
		s := []string{"s1", "s2"}[zzsym.Choose("schema", 2)]
		name := "n" + zzsym.Str("name", 1)
		for _, b := range []byte(name) {
			zzsym.Assume('a' <= b && b <= 'z')
		}
		for _, w := range want {
			zzsym.Assume(!strings.HasSuffix(w, name))
		}
		if filter == nil || s == "s1" {
			want = append(want, s+"."+name)
		}
		if keys {
			rows = append(rows, []driver.Value{"fk" + name, s, name, "c", "r", "t", "d"})
		} else {
			rows = append(rows, []driver.Value{s, name, "c", "int", "int4", "YES", nil, int64(1)})
		}
	}
	d.Answer = func(string, []any) zzdrv.Table {
		t := zzdrv.Table{Cols: []string{"1", "2", "3", "4", "5", "6", "7", "8"}, Rows: rows}
		if keys {
			t.Cols = t.Cols[:7]
		}
		return t
	}
	d.FailAt(zzsym.Choose("fault", 8))
	out := &bytes.Buffer{}
	c := (&cli.Cli{SQLSource: src, O: "json"}).WithWriter(out)
	var err error
	if keys {
		err = (&PrintFKCmd{DB: "db1", Schema: filter}).Run(c)
	} else {
		err = (&PrintViewsCmd{DB: "db1", Schema: filter}).Run(c)
	}
	c.Close()
	if d.Failed() == "rowsclose" && err == nil {
		d.Last = nil // everything was read before
	}
	zzsym.Assert((err != nil) == (d.Last != nil), "a failure is reported, success is not")
	zzsym.Assert(d.OpenConns == 0 && d.OpenRows == 0 && zzsym.Live() == 0, "nothing stays open")
	if err != nil {
		zzsym.Assert(out.Len() == 0, "nothing is printed as a result")
		return
	}
	zzPrinted(out, keys, want)
}

// zzPrinted asserts that the output lists exactly those.
func zzPrinted(out *bytes.Buffer, keys bool, want []string) {
	var got []string
	if keys {
		var l schema.ForeignKeys
		zzsym.Assert(json.Unmarshal(out.Bytes(), &l) == nil, "the output is JSON")
		for _, k := range l {
			got = append(got, k.Schema+"."+k.Table)
		}
	} else {
		var l schema.Tables
		zzsym.Assert(json.Unmarshal(out.Bytes(), &l) == nil, "the output is JSON")
		for _, t := range l {
			got = append(got, t.Schema+"."+t.Name)
		}
	}
	zzsym.Assert(len(got) == len(want), "everything that matches is printed")
	for _, g := range got {
		n := 0
		for _, w := range want {
			if w == g {
				n++
			}
		}
		zzsym.Assert(n == 1, "once")
	}
}

// The same commands on a large database: 60 rows of 3 schemas, with a filter of up to 20 names, and a fault at the
// start or far in the rows.
func ZZC01_Large() {
	d, _, _ := zzServer()
	src := zzSrc(zzsym.Choose("src", 2), "disable")
	keys := zzsym.Bool("keys")
	var filter []string
	match := map[string]bool{"s0": true, "s1": true, "s2": true}
	if n := []int{0, 1, 20}[zzsym.Choose("filter", 3)]; n > 0 {
		for i := 0; i < n; i++ {
			filter = append(filter, "none"+strconv.Itoa(i))
		}
		filter[n-1] = "S1"
		match = map[string]bool{"s1": true}
	}
	var rows [][]driver.Value
	var want []string
	for i := 0; i < 60; i++ {
		s := "s" + strconv.Itoa(i%3)
		name := "n" + strconv.Itoa(i)
		if match[s] {
			want = append(want, s+"."+name)
		}
		if keys {
			rows = append(rows, []driver.Value{"fk" + name, s, name, "c", "r", "t", "d"})
		} else {
			rows = append(rows, []driver.Value{s, name, "c", "int", "int4", "YES", nil, int64(1)})
		}
	}
	d.Answer = func(string, []any) zzdrv.Table {
		t := zzdrv.Table{Cols: []string{"1", "2", "3", "4", "5", "6", "7", "8"}, Rows: rows}
		if keys {
			t.Cols = t.Cols[:7]
		}
		return t
	}
	d.FailAt([]int{0, 3, 20, 60}[zzsym.Choose("fault", 4)])
	out := &bytes.Buffer{}
	c := (&cli.Cli{SQLSource: src, O: "json"}).WithWriter(out)
	var err error
	if keys {
		err = (&PrintFKCmd{DB: "db1", Schema: filter}).Run(c)
	} else {
		err = (&PrintViewsCmd{DB: "db1", Schema: filter}).Run(c)
	}
	c.Close()
	if d.Failed() == "rowsclose" && err == nil {
		d.Last = nil // everything was read before
	}
	zzsym.Assert((err != nil) == (d.Last != nil), "a failure is reported, success is not")
	zzsym.Assert(d.OpenConns == 0 && d.OpenRows == 0 && zzsym.Live() == 0, "nothing stays open")
	if err != nil {
		zzsym.Assert(out.Len() == 0, "nothing is printed as a result")
		return
	}
	zzPrinted(out, keys, want)
}
