package flake

import (
	"time"

	"github.com/effective-security/xdb/internal/zzsym"
)

// zzTime is any time the nanosecond clock can represent within the given seconds.
func zzTime(l string, lo, hi int) time.Time {
	sec := zzsym.IntRange(l+".sec", lo, hi)
	ms := zzsym.IntRange(l+".ms", 0, 999)
	ns := zzsym.IntRange(l+".ns", 0, 999999)
	return time.Unix(int64(sec), int64(ms*1000000+ns))
}

// zzClock makes f the clock.
func zzClock(f func() time.Time) { NowFunc = f }

// zzNew creates a generator, or reports that it was refused.
func zzNew(st Settings) (g IDGenerator, refused bool) {
	defer func() {
		if r := recover(); r != nil {
			zzStop(r)
			g, refused = nil, true
		}
	}()
	return NewIDGenerator(st), false
}

// zzNext is the next id, or reports that it was refused.
func zzNext(g IDGenerator) (id uint64, refused bool) {
	defer func() {
		if r := recover(); r != nil {
			zzStop(r)
			id, refused = 0, true
		}
	}()
	return g.NextID(), false
}

// zzStop lets the end of a case pass.
func zzStop(r any) {
	if s, ok := r.(zzsym.Stop); ok {
		panic(s)
	}
}

func zzMachine(id uint16) func() (uint16, error) {
	return func() (uint16, error) { return id, nil }
}

const (
	zzLo, zzHi = -9200000000, 9200000000 // seconds whose nanoseconds fit an int64
)
