package xdb

import (
	"github.com/effective-security/xdb/internal/zzsym"
)

// zzText is an ASCII text of length 0..max (every byte below 0x80).
func zzText(label string, max int) string {
	s := zzsym.Str(label, zzsym.Choose(label+".len", max+1))
	for i := 0; i < len(s); i++ {
		zzsym.Assume(s[i] < 0x80)
	}
	return s
}

// zzStored is a database value as the driver returns it: the text or its bytes.
func zzStored(v any) (any, []byte) {
	s, ok := v.(string)
	zzsym.Assert(ok, "a non-empty collection is written as text")
	if zzsym.Choose("repr", 2) == 0 {
		return s, nil
	}
	b := []byte(s)
	return b, b
}

func zzClobber(b []byte) {
	for i := range b {
		b[i] = 'x'
	}
}

func zzStrs() []string {
	var l []string
	for i := zzsym.Choose("n", 3); i > 0; i-- {
		l = append(l, zzText("s", 1))
	}
	return l
}

// String lists of up to 2 ASCII strings of up to 1 byte each, plus one of 2 bytes or multi-byte
// characters, written and read back as text or bytes over any of 3 previous contents.
func ZZT10_Strings() {
	var l Strings
	switch zzsym.Choose("shape", 3) {
	case 0:
		l = Strings(zzStrs())
	case 1:
		s := zzsym.Str("two", 2)
		zzsym.Assume(zzsym.And(s[0] < 0x80, s[1] < 0x80))
		l = Strings{s}
	default:
		l = Strings{"héllo", "日本", "\u2028\U0001F600", "a\tb\"c\\d</script>&"}
	}
	v, err := l.Value()
	zzsym.Assert(err == nil, "writing a string list succeeds")
	var prev, dst Strings
	switch zzsym.Choose("prev", 3) {
	case 0:
	case 1:
		prev = Strings{"old"}
		dst = prev
	default:
		prev = Strings{"old1", "old2", "old3", "old4", "old5"}
		dst = prev
	}
	if l == nil {
		zzsym.Assert(v == nil, "a nil list is NULL")
		zzsym.Assert(dst.Scan(v) == nil && dst == nil, "NULL gives nil")
		return
	}
	src, raw := zzStored(v)
	zzsym.Assert(dst.Scan(src) == nil, "reading back succeeds")
	zzClobber(raw)
	zzsym.Assert(dst != nil && len(dst) == len(l), "same number of strings")
	for i := range l {
		zzsym.Assert(dst[i] == l[i], "same string")
	}
	for i := range prev {
		zzsym.Assert(prev[i] == []string{"old1", "old2", "old3", "old4", "old5"}[i] || len(prev) == 1 && prev[0] == "old", "the list read before is unchanged")
	}
}

// Metadata of up to 2 entries (keys and values ASCII up to 1 byte), every map order, both
// representations, over an empty or non-empty previous content.
func ZZT10_Metadata() {
	m := Metadata{}
	var keys, vals []string
	for i := zzsym.Choose("n", 3); i > 0; i-- {
		k, v := zzText("k", 1), zzText("v", 1)
		for _, x := range keys {
			zzsym.Assume(x != k)
		}
		keys, vals = append(keys, k), append(vals, v)
		m[k] = v
	}
	zzsym.MapOrder(true)
	v, err := m.Value()
	zzsym.Assert(err == nil, "writing metadata succeeds")
	var dst Metadata
	if zzsym.Choose("prev", 2) == 1 {
		dst = Metadata{"old": "1", "": "2"}
	}
	if len(keys) == 0 {
		zzsym.Assert(v == nil, "empty metadata is NULL")
		zzsym.Assert(dst.Scan(v) == nil && dst == nil, "NULL gives nil")
		return
	}
	src, raw := zzStored(v)
	zzsym.Assert(dst.Scan(src) == nil, "reading back succeeds")
	zzClobber(raw)
	zzsym.Assert(len(dst) == len(keys), "same number of entries")
	for i, k := range keys {
		x, ok := dst[k]
		zzsym.Assert(zzsym.And(ok, x == vals[i]), "same entry")
	}
	zzsym.Assert(len(m) == len(keys), "writing does not change the metadata")
}

// Metadata and KVSet with non-ASCII content, fixed samples as text or bytes.
func ZZT10_Unicode() {
	m := Metadata{"ключ": "значение", "a\"b\\": "\u2028\n<>&\U0001F600"}
	v, err := m.Value()
	zzsym.Assert(err == nil, "writing succeeds")
	src, _ := zzStored(v)
	var dst Metadata
	zzsym.Assert(dst.Scan(src) == nil, "reading succeeds")
	zzsym.Assert(len(dst) == 2 && dst["ключ"] == "значение" && dst["a\"b\\"] == "\u2028\n<>&\U0001F600", "same content")
	kv := KVSet{"é": {"日", "\u2029"}, "n": nil, "z": {}}
	v, err = kv.Value()
	zzsym.Assert(err == nil, "writing succeeds")
	src, _ = zzStored(v)
	var d2 KVSet
	zzsym.Assert(d2.Scan(src) == nil, "reading succeeds")
	zzsym.Assert(len(d2) == 3 && len(d2["é"]) == 2 && d2["é"][0] == "日" && d2["é"][1] == "\u2029" && len(d2["n"]) == 0 && len(d2["z"]) == 0, "same content")
}

// KVSet of up to 2 keys (ASCII up to 1 byte; quick: the second is fixed) with up to 2 values of up to 1 byte.
func ZZT10_KVSet() {
	m := KVSet{}
	var keys []string
	var vals [][]string
	for i := zzsym.Choose("n", 3); i > 0; i-- {
		k := "kk"
		if len(keys) == 0 || zzsym.Thorough() {
			k = zzText("k", 1)
		}
		for _, x := range keys {
			zzsym.Assume(x != k)
		}
		var vs []string
		if len(keys) == 0 {
			vs = zzStrs()
		} else {
			vs = []string{"v"}
		}
		keys, vals = append(keys, k), append(vals, vs)
		m[k] = vs
	}
	zzsym.MapOrder(true)
	v, err := m.Value()
	zzsym.Assert(err == nil, "writing succeeds")
	var dst KVSet
	if zzsym.Choose("prev", 2) == 1 {
		dst = KVSet{"old": {"1"}, "": {"2"}}
	}
	if len(keys) == 0 {
		zzsym.Assert(v == nil, "an empty set is NULL")
		zzsym.Assert(dst.Scan(v) == nil && dst == nil, "NULL gives nil")
		return
	}
	src, raw := zzStored(v)
	zzsym.Assert(dst.Scan(src) == nil, "reading back succeeds")
	zzClobber(raw)
	zzsym.Assert(len(dst) == len(keys), "same number of entries")
	for i, k := range keys {
		x, ok := dst[k]
		zzsym.Assert(zzsym.And(ok, len(x) == len(vals[i])), "same number of values")
		for j := range vals[i] {
			zzsym.Assert(x[j] == vals[i][j], "same value")
		}
	}
}

// Empty text (string or bytes) gives the empty collection, whatever the destination held; values
// of other kinds are errors for metadata and sets.
func ZZT10_Empty() {
	var e any = ""
	if zzsym.Choose("repr", 2) == 1 {
		e = []byte{}
	}
	s, m, kv := Strings{"old"}, Metadata{"old": "1"}, KVSet{"old": {"1"}}
	zzsym.Assert(s.Scan(e) == nil && s != nil && len(s) == 0, "empty text is an empty list")
	zzsym.Assert(m.Scan(e) == nil && m != nil && len(m) == 0, "empty text is empty metadata")
	zzsym.Assert(kv.Scan(e) == nil && kv != nil && len(kv) == 0, "empty text is an empty set")
	m, kv = Metadata{"old": "1"}, KVSet{"old": {"1"}}
	zzsym.Assert(m.Scan(zzsym.I64("n")) != nil && m["old"] == "1", "a number is refused")
	zzsym.Assert(kv.Scan(zzsym.I64("n")) != nil && len(kv["old"]) == 1, "a number is refused")
}

// Reading any text of up to 4 bytes (as text or bytes): either an error that leaves the
// destination as it was, or content that is written back and read as the same content.
func ZZT10_AnyText() {
	n := zzsym.Choose("len", 5)
	t := zzsym.Str("t", n)
	for i := 0; i < n; i++ {
		zzsym.Assume(t[i] < 0x80)
	}
	var src any = t
	if zzsym.Choose("repr", 2) == 1 {
		src = []byte(t)
	}
	l := Strings{"old"}
	if err := l.Scan(src); err != nil {
		zzsym.Assert(len(l) == 1 && l[0] == "old", "an error leaves the list unchanged")
		return
	}
	v, err := l.Value()
	zzsym.Assert(err == nil, "content that was read can be written")
	var l2 Strings
	zzsym.Assert(l2.Scan(v) == nil && len(l2) == len(l), "and read again")
	for i := range l {
		zzsym.Assert(l2[i] == l[i], "with the same strings")
	}
}

// Merging metadata or sets of up to 2 entries each with any keys (1 byte) and values (0 or 1 byte), in every map
// order: the union, the merged-in entries win, the merged-in collection is unchanged.
func ZZT10_Merge() {
	gen := func(l string) (Metadata, []string, []string) {
		var m Metadata
		var ks, vs []string
		n := zzsym.Choose(l+".n", 4)
		if n > 0 {
			m = Metadata{}
		}
		for i := 1; i < n; i++ {
			k, v := zzsym.Str(l+".k", 1), zzsym.Str(l+".v", 1-zzsym.Choose(l+".e", 2))
			for _, x := range ks {
				zzsym.Assume(x != k)
			}
			m[k] = v
			ks, vs = append(ks, k), append(vs, v)
		}
		return m, ks, vs
	}
	a, ak, av := gen("a")
	b, bk, bv := gen("b")
	zzsym.MapOrder(true)
	isSet := zzsym.Choose("set", 2) == 1
	var ka, kb KVSet
	if isSet {
		if a != nil {
			ka = KVSet{}
		}
		for k, v := range a {
			ka[k] = []string{v}
		}
		if b != nil {
			kb = KVSet{}
		}
		for k, v := range b {
			kb[k] = []string{v}
		}
		zzsym.Assert((&ka).Merge(kb) == &ka, "returns the receiver")
		a, b = Metadata{}, Metadata{}
		for k, v := range ka {
			zzsym.Assert(len(v) == 1, "values kept whole")
			a[k] = v[0]
		}
		for k, v := range kb {
			zzsym.Assert(len(v) == 1, "values kept whole")
			b[k] = v[0]
		}
	} else {
		zzsym.Assert((&a).Merge(b) == &a, "returns the receiver")
	}
	zzsym.Assert(a != nil, "the result is not nil")
	size := len(bk)
	for i, k := range bk {
		v, ok := a[k]
		zzsym.Assert(zzsym.And(ok, v == bv[i]), "merged-in entry wins")
		v, ok = b[k]
		zzsym.Assert(zzsym.And(ok, v == bv[i]), "merged-in collection unchanged")
	}
	for i, k := range ak {
		over := false
		for _, x := range bk {
			over = zzsym.Or(over, x == k)
		}
		if !over {
			size++
			v, ok := a[k]
			zzsym.Assert(zzsym.And(ok, v == av[i]), "other entries stay")
		}
	}
	zzsym.Assert(len(a) == size && len(b) == len(bk), "nothing else")
}

// Ordered listings of metadata with up to 3 entries (keys and values of 1 byte) in every map
// order: every entry once, keys ascending; stopping early visits no more.
func ZZT10_Ordered() {
	var m Metadata
	var ks, vs []string
	n := zzsym.Choose("n", 5)
	if n > 0 {
		m = Metadata{}
	}
	for i := 1; i < n; i++ {
		k, v := zzsym.Str("k", 1), zzsym.Str("v", 1)
		for _, x := range ks {
			zzsym.Assume(x != k)
		}
		m[k] = v
		ks, vs = append(ks, k), append(vs, v)
	}
	zzsym.MapOrder(true)
	pairs := m.OrderedPairs()
	zzsym.Assert(len(pairs) == 2*len(ks), "one pair per entry")
	value := func(k string) (r string, ok bool) {
		for i := range ks {
			if ks[i] == k {
				return vs[i], true
			}
		}
		return "", false
	}
	for i := 0; i < len(pairs); i += 2 {
		v, ok := value(pairs[i])
		zzsym.Assert(ok && v == pairs[i+1], "pair of the content")
		zzsym.Assert(i == 0 || pairs[i-2] < pairs[i], "in key order")
	}
	ok := m.OrderedKeys()
	zzsym.Assert(len(ok) == len(ks), "every key once")
	for i := range ok {
		zzsym.Assert(ok[i] == pairs[2*i], "keys in order")
	}
	stop := zzsym.Choose("stop", 3)
	var seen []string
	m.RangeOrdered(func(k, v string) bool {
		seen = append(seen, k, v)
		return len(seen) < 2*stop
	})
	want := len(ks)
	if want > stop {
		want = stop
	}
	if want == 0 && len(ks) > 0 {
		want = 1
	}
	zzsym.Assert(len(seen) == 2*want, "stops when asked to")
	for i := range seen {
		zzsym.Assert(seen[i] == pairs[i], "visits in order")
	}
	cnt := 0
	m.Range(func(k, v string) bool {
		w, ok := value(k)
		zzsym.Assert(ok && w == v, "visits the content")
		cnt++
		return true
	})
	zzsym.Assert(cnt == len(ks) && len(m.Keys()) == len(ks), "visits everything once")
}

// Larger collections: 12 strings, 9 entries, and sets of 9 keys with 9 values, fixed keys and values of any
// lower-case letter: read back complete, and listed completely in key order.
func ZZT10_Large() {
	letter := func() string {
		s := zzsym.Str("s", 1)
		zzsym.Assume(zzsym.And(s[0] >= 'a', s[0] <= 'z'))
		return s
	}
	switch zzsym.Choose("type", 3) {
	case 0:
		var l, r Strings
		for i := 0; i < 12; i++ {
			l = append(l, letter())
		}
		v, err := l.Value()
		zzsym.Assert(err == nil && r.Scan(v) == nil && len(r) == 12, "reads what it wrote")
		for i := range l {
			zzsym.Assert(r[i] == l[i], "same string")
		}
	case 1:
		m, r := Metadata{}, Metadata{}
		keys := []string{"k5", "k1", "long key with blanks", "k3", "", "k2", "k9", "ключ", "k10"}
		sorted := []string{"", "k1", "k10", "k2", "k3", "k5", "k9", "long key with blanks", "ключ"}
		for _, k := range keys {
			m[k] = letter()
		}
		v, err := m.Value()
		zzsym.Assert(err == nil && r.Scan(v) == nil && len(r) == len(keys), "reads what it wrote")
		for _, k := range keys {
			zzsym.Assert(r[k] == m[k], "same entry")
		}
		p, o := m.OrderedPairs(), m.OrderedKeys()
		zzsym.Assert(len(p) == 2*len(keys) && len(o) == len(keys), "every pair once")
		for i, k := range sorted {
			zzsym.Assert(p[2*i] == k && o[i] == k, "in key order")
			zzsym.Assert(p[2*i+1] == m[k], "with its value")
		}
		a := Metadata{"k5": "x", "y": "z"}
		(&a).Merge(m)
		zzsym.Assert(len(a) == len(keys)+1 && a["y"] == "z", "union")
		for _, k := range keys {
			zzsym.Assert(a[k] == m[k], "merged-in entry wins")
		}
	default:
		m, r := KVSet{}, KVSet{}
		for i := 0; i < 9; i++ {
			var vs []string
			for j := 0; j < 9; j++ {
				vs = append(vs, letter())
			}
			m["k"+string(rune('0'+i))] = vs
		}
		v, err := m.Value()
		zzsym.Assert(err == nil && r.Scan(v) == nil && len(r) == len(m), "reads what it wrote")
		for k, vs := range m {
			zzsym.Assert(len(r[k]) == len(vs), "same number of values")
			for j := range vs {
				zzsym.Assert(r[k][j] == vs[j], "same value")
			}
		}
	}
}

// A copy of a list made before the list is read again stays as it was, also after the list has been extended.
func ZZT10_Copies() {
	v, _ := Strings{"a", "b"}.Value()
	var x Strings
	zzsym.Assert(x.Scan(v) == nil, "reads")
	old := x
	next := [][]string{nil, {}, {"c"}, {"c", "d"}, {"c", "d", "e"}}[zzsym.Choose("next", 5)]
	var w any = ""
	if next != nil {
		w, _ = Strings(next).Value()
	}
	w, _ = zzStored(w)
	zzsym.Assert(x.Scan(w) == nil, "reads again")
	zzsym.Assert(len(x) == len(next), "the new content")
	x = append(x, "z")
	zzsym.Assert(len(old) == 2 && old[0] == "a" && old[1] == "b", "an earlier copy keeps its content")
}

func zzLetter() string {
	s := zzsym.Str("s", 1)
	zzsym.Assume(zzsym.And(s[0] >= 'a', s[0] <= 'z'))
	return s
}

// zzWords: n different texts in a scrambled order; some are prefixes of others, every 7th has more than 200 characters.
func zzWords(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		s := "w"
		for j := i*17%n + 1; j > 0; j /= 5 {
			s += string(rune('a' + j%5))
		}
		if i%7 == 3 {
			for len(s) < 200 {
				s += s
			}
		}
		r = append(r, s)
	}
	return r
}

func zzSorted(l []string) []string {
	r := append([]string(nil), l...)
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// Large collections: 40 or 150 strings, entries or keys (with 40 values), up to 12 KB of text, with one letter of any value in one of 3 places: read
// back complete, merged and listed completely in key order.
func ZZT10_Many() {
	n := []int{40, 150}[zzsym.Choose("n", 2)]
	words := zzWords(n)
	p := []int{0, n / 2, n - 1}[zzsym.Choose("place", 3)]
	switch zzsym.Choose("type", 3) {
	case 0:
		l, r := Strings(words), Strings{}
		l[p] += zzLetter()
		v, err := l.Value()
		zzsym.Assert(err == nil, "writes")
		src, _ := zzStored(v)
		zzsym.Assert(r.Scan(src) == nil && len(r) == n, "reads what it wrote")
		for i := range l {
			zzsym.Assert(r[i] == l[i], "same string")
		}
	case 1:
		m, r := Metadata{}, Metadata{}
		for i, k := range words {
			m[k] = words[n-1-i]
		}
		m[words[p]] += zzLetter()
		v, err := m.Value()
		zzsym.Assert(err == nil, "writes")
		src, _ := zzStored(v)
		zzsym.Assert(r.Scan(src) == nil && len(r) == n, "reads what it wrote")
		a := Metadata{words[1]: "x", "y": "z"}
		(&a).Merge(m)
		zzsym.Assert(len(a) == n+1 && a["y"] == "z", "union")
		pairs, keys, sorted := m.OrderedPairs(), m.OrderedKeys(), zzSorted(words)
		zzsym.Assert(len(pairs) == 2*n && len(keys) == n && len(m.Keys()) == n, "every pair once")
		for i, k := range sorted {
			zzsym.Assert(r[k] == m[k], "same entry")
			zzsym.Assert(a[k] == m[k], "merged-in entry wins")
			zzsym.Assert(pairs[2*i] == k && keys[i] == k, "in key order")
			zzsym.Assert(pairs[2*i+1] == m[k], "with its value")
		}
	default:
		m, r := KVSet{}, KVSet{}
		for i, k := range words {
			m[k] = []string{words[n-1-i], "v"}
		}
		m[words[p]] = append(append([]string(nil), words[:40]...), zzLetter())
		v, err := m.Value()
		zzsym.Assert(err == nil, "writes")
		src, _ := zzStored(v)
		zzsym.Assert(r.Scan(src) == nil && len(r) == n, "reads what it wrote")
		a := KVSet{words[1]: {"x"}, "y": {"z"}}
		(&a).Merge(m)
		zzsym.Assert(len(a) == n+1 && len(a["y"]) == 1, "union")
		for _, k := range words {
			zzsym.Assert(len(r[k]) == len(m[k]) && len(a[k]) == len(m[k]), "same number of values")
			for j := range m[k] {
				zzsym.Assert(r[k][j] == m[k][j] && a[k][j] == m[k][j], "same value")
			}
		}
	}
}
