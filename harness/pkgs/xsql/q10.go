package xsql

import (
	"strconv"

	"github.com/effective-security/xdb/internal/zzsym"
)

// Any 3 lookups (thorough: 4) under any one-byte names in one of two dialects, each with a constructor that
// would make another statement, with unrelated unnamed and named statements built in between.
func ZZQ10_Lookups() {
	n := 3
	if zzsym.Thorough() {
		n = 4
	}
	type entry struct {
		d          int
		name, text string
	}
	ds := []SQLDialect{NoDialect, Postgres}
	var known []entry
	for i := 0; i < n; i++ {
		l := string(rune('0' + i))
		k := zzsym.Choose("dialect"+l, 2)
		d := ds[k]
		name := zzsym.Str("name"+l, 1)
		built := 0
		v := zzsym.Int("v" + l)
		text, key := d.GetOrCreateQuery(name, func(got string) Builder {
			built++
			zzsym.Assert(got == name, "the constructor is told the name")
			if zzsym.Choose("nested"+l, 2) == 1 {
				_ = d.Select(l + "x").String()
			}
			q := d.From(l).Where("k=?", v)
			if zzsym.Choose("named"+l, 2) == 1 {
				q.SetName("other" + l)
			}
			return q
		})
		zzsym.Assert(key == name, "the key is the name")
		want := "FROM " + l + " \nWHERE k=?"
		if k == 1 {
			want = "FROM " + l + " \nWHERE k=$1"
		}
		fresh := true
		for _, e := range known {
			if e.d == k && e.name == name {
				fresh = false
				want = e.text
			}
		}
		if fresh {
			known = append(known, entry{k, name, want})
			zzsym.Assert(built == 1, "an unknown name is built once")
		} else {
			zzsym.Assert(built == 0, "a known name is not built again")
		}
		zzsym.Assert(text == want, "the text of the name")
		switch zzsym.Choose("between"+l, 3) {
		case 1:
			q := d.From("u").Where(l)
			_ = q.String()
			q.Close()
		case 2:
			c, ok := d.GetCachedQuery(name)
			zzsym.Assert(ok && c == want, "the cached text of the name")
		}
	}
	// and again, all of them
	for _, e := range known {
		text, _ := ds[e.d].GetOrCreateQuery(e.name, func(string) Builder {
			zzsym.Assert(false, "a known name is not built again")
			return nil
		})
		zzsym.Assert(text == e.text, "always the same text")
	}
}

// A name is never known because of an unnamed statement: after an unnamed statement of any two-byte text was
// built, a name of up to 12 bytes of any value is unknown.
func ZZQ10_Unnamed() {
	s := zzsym.Str("s", 2)
	q := NoDialect.New(s)
	_ = q.String()
	name := zzsym.Str("name", 1+zzsym.Choose("len", 12))
	_, ok := NoDialect.GetCachedQuery(name)
	zzsym.Assert(!ok, "the name is unknown")
}

// A constructor whose statement has an empty text is called once too.
func ZZQ10_Empty() {
	d := []SQLDialect{NoDialect, Postgres}[zzsym.Choose("dialect", 2)]
	name := zzsym.Str("name", 2)
	built := 0
	for i := 0; i < 3; i++ {
		text, _ := d.GetOrCreateQuery(name, func(string) Builder {
			built++
			return d.New("")
		})
		zzsym.Assert(text == "", "the text of the name")
	}
	zzsym.Assert(built == 1, "an unknown name is built once")
}

// 300 names, looked up again in another order, with unnamed statements built in between: each is built once.
func ZZQ10_Many() {
	d := []SQLDialect{NoDialect, Postgres}[zzsym.Choose("dialect", 2)]
	const n = 300
	built := make([]int, n)
	for i := 0; i < 2*n; i++ {
		k := i
		if i >= n {
			k = (i * 7) % n
		}
		text, _ := d.GetOrCreateQuery("name"+strconv.Itoa(k), func(string) Builder {
			built[k]++
			return d.From("t" + strconv.Itoa(k))
		})
		zzsym.Assert(text == "FROM t"+strconv.Itoa(k), "always the same text")
		q := d.From("u" + strconv.Itoa(i))
		_ = q.String()
		q.Close()
	}
	for _, b := range built {
		zzsym.Assert(b == 1, "an unknown name is built once, a known one not again")
	}
}
