package xdb

import (
	"time"

	"github.com/effective-security/xdb/internal/zzsym"
)

// zzInstant is any instant within +-2^40 seconds (34000 years) of 1970, in one of three zones.
func zzInstant(label string) time.Time {
	sec := int64(zzsym.IntRange(label+".sec", -(1 << 40), 1<<40))
	ms := int64(zzsym.IntRange(label+".ms", 0, 999))
	ns := int64(zzsym.IntRange(label+".ns", 0, 999999))
	t := time.Unix(sec, ms*1000000+ns)
	switch zzsym.Choose(label+".zone", 3) {
	case 1:
		return t.In(time.FixedZone("e", 3600*5+1800))
	case 2:
		return t.In(time.FixedZone("w", -3600*8))
	}
	return t.UTC()
}

// same instant, and UTC
func zzSame(got Time, want time.Time, what string) {
	g := time.Time(got)
	zzsym.Assert(g.Unix() == want.Unix() && g.Nanosecond() == want.Nanosecond(), what+": same instant")
	zzsym.Assert(g.Location() == time.UTC, what+": in UTC")
}

// the millisecond below t
func zzMs(t time.Time) time.Time {
	return time.Unix(t.Unix(), int64(t.Nanosecond())/1000000*1000000)
}

// Scan, Value, UTC, Ptr, TimePtr, NullTime of every instant in three zones.
func ZZT07_Convert() {
	t := zzInstant("t")
	old := Time(time.Unix(zzsym.I64("old")&0xffffffff, 0))
	zzsym.Assert(old.Scan(t) == nil, "scan of a time")
	zzSame(old, t, "Scan")
	v, err := Time(t).Value()
	zzsym.Assert(err == nil, "value")
	zero := t.IsZero()
	if zero {
		zzsym.Assert(v == nil, "zero time is NULL")
	} else {
		vt, ok := v.(time.Time)
		zzsym.Assert(ok, "value is a time")
		zzSame(Time(vt), t, "Value")
	}
	u := UTC(t)
	zzSame(u, zzMs(t), "UTC")
	zzSame(Time(Time(t).UTC()), t, "Time.UTC")
	p := Time(t).Ptr()
	if zero {
		zzsym.Assert(p == nil, "Ptr of zero time")
	} else {
		zzsym.Assert(p != nil, "Ptr")
		zzSame(Time(*p), t, "Ptr")
	}
	zzsym.Assert(Time(t).IsZero() == zero && Time(t).IsNil() == zero, "IsZero")
	zzsym.Assert(Time(t).UnixMilli() == t.Unix()*1000+int64(t.Nanosecond())/1000000, "UnixMilli")
}

// zzDur is any duration within +-2^32 seconds (136 years).
func zzDur(label string) int64 {
	d := int64(zzsym.IntRange(label+".sec", 0, 1<<32))*1000000000 + int64(zzsym.IntRange(label+".ms", 0, 999))*1000000 + int64(zzsym.IntRange(label+".ns", 0, 999999))
	if zzsym.Bool(label + ".neg") {
		return -d
	}
	return d
}

// Add of every duration of up to +-2^32 seconds (136 years) to every instant.
func ZZT07_Add() {
	t := zzInstant("t")
	d := zzDur("d")
	got := Time(t).Add(time.Duration(d))
	zzSame(got, zzMs(t.Add(time.Duration(d))), "Add")
}

// FromUnixMilli / UnixMilli of every millisecond count within +-2^40 seconds (34000 years).
func ZZT07_Milli() {
	ms := int64(zzsym.IntRange("sec", 0, 1<<40))*1000 + int64(zzsym.IntRange("ms", 0, 999))
	if zzsym.Bool("neg") {
		ms = -ms
	}
	t := FromUnixMilli(ms)
	zzsym.Assert(t.UnixMilli() == ms, "milliseconds there and back")
	g := time.Time(t)
	zzsym.Assert(g.Location() == time.UTC, "in UTC")
	zzsym.Assert(g.Nanosecond()%1000000 == 0, "whole milliseconds")
	zzSame(UTC(g), g, "UTC keeps whole milliseconds")
	zzSame(t.Add(0), g, "Add(0) keeps whole milliseconds")
}

// Now and FromNow at every clock reading are UTC, whole milliseconds, not after the clock, and less
// than one millisecond before it.
func ZZT07_Now() {
	before := time.Now()
	var t Time
	d := time.Duration(0)
	if zzsym.Bool("from") {
		d = time.Duration(zzDur("d"))
		t = FromNow(d)
	} else {
		t = Now()
	}
	after := time.Now()
	g := time.Time(t)
	zzsym.Assert(g.Location() == time.UTC, "in UTC")
	zzsym.Assert(g.Nanosecond()%1000000 == 0, "whole milliseconds")
	zzsym.Assert(!g.After(after.Add(d)), "not after the clock")
	zzsym.Assert(!g.Before(before.Add(d-time.Millisecond)), "truncated by less than 1 ms")
}

var zzDays = []int64{
	19723,  // 2024-01-01
	19782,  // 2024-02-29
	11016,  // 2000-02-29
	20088,  // 2024-12-31
	-1,     // 1969-12-31
	-25509, // 1900-02-28
	47482,  // 2100-01-01
	10957,  // 2000-01-01
}

// Text and JSON: any millisecond (JSON: any nanosecond digit group of the listed precision) of 8
// chosen days (leap days, year ends, before 1970), hours, minutes and seconds free.
func ZZT07_Text() {
	day := zzDays[zzsym.Choose("day", len(zzDays))]
	h := int64(zzsym.IntRange("h", 0, 23))
	mi := int64(zzsym.IntRange("m", 0, 59))
	s := int64(zzsym.IntRange("s", 0, 59))
	ms := int64(zzsym.IntRange("ms", 0, 999))
	t := time.Unix(day*86400+h*3600+mi*60+s, ms*1000000).UTC()
	x := Time(t)
	if zzsym.Bool("json") {
		b, err := x.MarshalJSON()
		zzsym.Assert(err == nil, "json")
		y := FromUnixMilli(5)
		zzsym.Assert(y.UnmarshalJSON(b) == nil, "reads its own JSON")
		zzSame(y, t, "JSON")
		return
	}
	txt := x.String()
	zzSame(ParseTime(txt), t, "ParseTime(String)")
	var y Time
	zzsym.Assert(y.Scan(txt) == nil, "scan of text")
	zzSame(y, t, "Scan(String)")
}

// Zero time and empty text correspond; malformed JSON is an error that leaves the time unchanged.
func ZZT07_Zero() {
	var z Time
	zzsym.Assert(z.String() == "", "zero time has empty text")
	b, err := z.MarshalJSON()
	zzsym.Assert(err == nil && string(b) == `""`, "zero time has empty JSON")
	y := FromUnixMilli(5)
	zzsym.Assert(y.UnmarshalJSON(b) == nil && y.IsZero(), "empty JSON is the zero time")
	p := ParseTime("")
	zzsym.Assert(p.IsZero(), "empty text is the zero time")
	w := FromUnixMilli(5)
	zzsym.Assert(w.Scan("") == nil && w.IsZero(), "scan of empty text")
	w = FromUnixMilli(5)
	zzsym.Assert(w.Scan(nil) == nil && w.IsZero(), "scan of NULL")
}

// RFC 3339 text with any offset (whole hours and minutes) of one of 3 days is converted to UTC.
func ZZT07_Offset() {
	day := []string{"2024-02-29", "2023-12-31", "2000-01-01"}[zzsym.Choose("day", 3)]
	base := []int64{19782, 19722, 10957}[zzsym.Choose("day", 3)]
	_ = base
	h := zzsym.IntRange("h", 0, 23)
	oh := zzsym.IntRange("oh", 0, 14)
	om := zzsym.IntRange("om", 0, 59)
	neg := zzsym.Bool("neg")
	two := func(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }
	sign := "+"
	off := int64(oh*3600 + om*60)
	if neg {
		sign = "-"
		off = -off
	}
	txt := day + "T" + two(h) + ":15:30" + sign + two(oh) + ":" + two(om)
	ref, err := time.Parse(time.DateOnly, day)
	zzsym.Assert(err == nil, "reference day")
	want := time.Unix(ref.Unix()+int64(h)*3600+15*60+30-off, 0)
	if zzsym.Bool("json") {
		var y Time
		zzsym.Assert(y.UnmarshalJSON([]byte("\""+txt+"\"")) == nil, "JSON with offset")
		zzSame(y, want, "JSON with offset")
	} else {
		zzSame(ParseTime(txt), want, "text with offset")
	}
}
