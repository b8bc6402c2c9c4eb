package flake

import (
	"time"

	"github.com/effective-security/xdb/internal/zzsym"
)

// Any start time and any behaviour of the clock between the years 1678 and 2261 (every reading is independent of the
// others: it may stand still, jump forward or backward), any machine id: the first id and the next 4 (thorough: 7).
func ZZF01T_AnyClock() {
	n := 4
	if zzsym.Thorough() {
		n = 7
	}
	mid := zzsym.U16("machine")
	start := zzTime("start", zzLo, zzHi)
	i := 0
	zzClock(func() time.Time {
		i++
		return zzTime("now", zzLo, zzHi)
	})
	g, refused := zzNew(Settings{StartTime: start, MachineID: zzMachine(mid)})
	if refused {
		return
	}
	zzFollow(g, n)
}

// zzFollow checks the next n ids of a fresh generator.
func zzFollow(g IDGenerator, n int) {
	last := FirstID(g)
	zzsym.Assert(LastID(g) == last, "the first id is the last so far")
	for k := 0; k < n; k++ {
		id, refused := zzNext(g)
		if refused {
			zzsym.Reached("exhausted")
			// time never runs backward in the generator: it stays exhausted
			_, again := zzNext(g)
			zzsym.Assert(again, "an exhausted time range stays exhausted")
			return
		}
		zzsym.Assert(id > last, "ids are strictly increasing")
		zzsym.Assert(LastID(g) == id, "and the last one is known")
		last = id
	}
}

// Any number of ids, up to 130, requested within one millisecond at any time between 1970 and 2261, then 2 (thorough:
// 4) more at any readings of the clock.
func ZZF01T_Burst() {
	n := 2
	if zzsym.Thorough() {
		n = 4
	}
	now := zzTime("now", 1609459200, zzHi)
	still := true
	zzClock(func() time.Time {
		if still {
			return now
		}
		return zzTime("later", 0, zzHi)
	})
	g, refused := zzNew(Settings{MachineID: zzMachine(zzsym.U16("machine"))})
	if refused {
		return
	}
	last := FirstID(g)
	for k := zzsym.Choose("burst", 131); k > 0; k-- {
		id, refused := zzNext(g)
		if refused {
			return
		}
		zzsym.Assert(id > last, "ids are strictly increasing")
		last = id
	}
	still = false
	for k := 0; k < n; k++ {
		id, refused := zzNext(g)
		if refused {
			return
		}
		zzsym.Assert(id > last, "ids are strictly increasing")
		last = id
	}
}

// At the end of the time range: any clock within the last or past it.
func ZZF01T_Exhausted() {
	// the last millisecond a generator that starts now can express is 2^41-1 milliseconds away
	start := time.Unix(1609459200, 0)
	off := zzsym.IntRange("off", -3, 3)
	cur := start
	zzClock(func() time.Time { return cur })
	g, refused := zzNew(Settings{StartTime: start, MachineID: zzMachine(zzsym.U16("machine"))})
	zzsym.Assert(!refused, "a generator is created")
	last := FirstID(g)
	at := time.UnixMilli(start.UnixMilli() + 1<<41 + int64(off))
	cur = at
	for k := 0; k < 5; k++ {
		id, refused := zzNext(g)
		zzsym.Assert(refused == (off >= 0), "ids are handed out while the time fits, and refused when it does not")
		if !refused {
			zzsym.Assert(id > last && id>>63 == 0, "ids are strictly increasing")
			last = id
		}
		if k == 2 {
			cur = start
			if off < 0 {
				cur = at
			}
		}
	}
}
