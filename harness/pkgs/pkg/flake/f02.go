package flake

import (
	"time"

	"github.com/effective-security/xdb/internal/zzsym"
)

// zzRun lets n callers take k ids each from one generator after a burst of ids, under every interleaving with up
// to p preemptions, and checks what they got.
func zzRun(n, k, p, burst int, reader bool, adv func() int) {
	base := time.UnixMilli(1700000000000)
	off := 0
	conc := false
	zzClock(func() time.Time {
		if conc {
			off += adv()
		}
		return base.Add(time.Duration(off) * time.Millisecond)
	})
	g, refused := zzNew(Settings{MachineID: zzMachine(zzsym.U16("machine"))})
	zzsym.Assert(!refused, "a generator is created")
	first := FirstID(g)
	for i := 0; i < burst; i++ {
		first = g.NextID()
	}
	zzsym.Shared(g)
	zzsym.Races()
	zzsym.Concurrent(p)
	conc = true
	ids := make([][]uint64, n)
	done := make(chan bool, n+1)
	for c := 0; c < n; c++ {
		go func() {
			for i := 0; i < k; i++ {
				ids[c] = append(ids[c], g.NextID())
			}
			done <- true
		}()
	}
	seen := uint64(0)
	if reader {
		go func() {
			seen = LastID(g)
			done <- true
		}()
		<-done
	}
	for c := 0; c < n; c++ {
		<-done
	}
	known := seen == first
	top := first
	for c := range ids {
		prev := first
		for i, a := range ids[c] {
			zzsym.Assert(a > prev, "each caller sees its ids increase")
			prev = a
			known = zzsym.Or(known, seen == a)
			top = zzsym.IteU64(a > top, a, top)
			for d := 0; d < c; d++ {
				for _, b := range ids[d] {
					zzsym.Assert(a != b, "no two callers get the same id")
				}
			}
			_ = i
		}
	}
	if reader {
		zzsym.Assert(known, "the last id is one that is handed out")
	}
	zzsym.Assert(LastID(g) == top, "in the end the last id is the highest handed out")
}

// 2 callers of 2 ids each (thorough: 3 callers) within one clock tick, right after start or at the end of the sequence of
// a tick, every interleaving with up to 2 preemptions (thorough: 3).
func ZZF02_SameTick() {
	n, p := 2, 2
	if zzsym.Thorough() {
		n, p = 3, 3
	}
	zzRun(n, 2, p, []int{0, 61, 62}[zzsym.Choose("burst", 3)], false, func() int { return 0 })
}

// 2 callers of 2 ids each while the clock advances or falls back by a millisecond between any two of its readings, with
// up to 2 preemptions (thorough: 3).
func ZZF02_MovingClock() {
	p := 2
	if zzsym.Thorough() {
		p = 3
	}
	zzRun(2, 2, p, 0, false, func() int { return zzsym.Choose("adv", 3) - 1 })
}

// One caller and one reader of the last id, every interleaving with up to 3 preemptions.
func ZZF02_LastID() {
	zzRun(1, 2, 3, 62*zzsym.Choose("burst", 2), true, func() int { return 0 })
}
