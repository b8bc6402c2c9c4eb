package flake

import (
	"errors"
	"time"

	"github.com/effective-security/xdb/internal/zzsym"
)

// zzParts is what an id decomposes into.
func zzParts(id uint64) (t, seq, mid uint64) {
	d := Decompose(id)
	zzsym.Assert(len(d) == 5 && d["id"] == id, "decomposition names the id")
	zzsym.Assert(d["msb"] == 0, "the top bit is clear")
	return d["time"], d["sequence"], d["machine_id"]
}

// Any start time, any clock reading not before it, any machine id, after 0 to 130 ids of that millisecond.
func ZZF03T_Parts() {
	mid := zzsym.U16("machine")
	start := zzTime("start", 0, zzHi)
	now := zzTime("now", 0, zzHi)
	zzClock(func() time.Time { return now })
	g, refused := zzNew(Settings{StartTime: start, MachineID: zzMachine(mid)})
	if refused {
		return
	}
	id := FirstID(g)
	base, _, _ := zzParts(id) // 1 if now is in the millisecond of the start, else the elapsed milliseconds
	el := uint64(now.UnixMilli() - start.UnixMilli())
	zzsym.Assert(base == zzsym.IteU64(el == 0, 1, el), "the elapsed time is that of the clock")
	n := zzsym.Choose("burst", 131)
	for k := 1; k <= n; k++ {
		var r bool
		if id, r = zzNext(g); r {
			return
		}
	}
	t, seq, m := zzParts(id)
	zzsym.Assert(m == uint64(mid), "with its machine id")
	zzsym.Assert(zzsym.And(t == base+uint64(n/64), seq == uint64(n%64)), "and the time and sequence number it was made from")
	zzsym.Assert(IDTime(g, id).UnixNano() == (start.UnixMilli()+int64(t))*1000000, "its time is the start time plus the elapsed milliseconds")
}

// Every 64-bit number.
func ZZF03T_Layout() {
	id := zzsym.U64("id")
	d := Decompose(id)
	zzsym.Assert(len(d) == 5 && d["id"] == id, "decomposition names the id")
	zzsym.Assert(zzsym.And(d["machine_id"] < 1<<16, d["sequence"] < 1<<6, d["msb"] == id>>63), "parts are within their width")
	zzsym.Assert(d["time"]<<22|d["sequence"]<<16|d["machine_id"] == id, "and make up the id")
	start := zzTime("start", 0, 4000000000)
	zzClock(func() time.Time { return start.Add(time.Hour) })
	g, _ := zzNew(Settings{StartTime: start, MachineID: zzMachine(7)})
	if id>>63 == 0 {
		zzsym.Assert(IDTime(g, id).UnixMilli() == start.UnixMilli()+int64(id>>22), "the time of any id is the start time plus its elapsed milliseconds")
	}
}

// Two generators with any two different machine ids, any start times and clock readings from 1970 to 2261, two ids each.
func ZZF03T_Machines() {
	a, b := zzsym.U16("a"), zzsym.U16("b")
	zzsym.Assume(a != b)
	zzClock(func() time.Time { return zzTime("now", 0, zzHi) })
	var ids [2][]uint64
	for i, m := range []uint16{a, b} {
		g, refused := zzNew(Settings{StartTime: zzTime("start", 0, zzHi), MachineID: zzMachine(m)})
		if refused {
			return
		}
		id, refused := zzNext(g)
		if refused {
			return
		}
		ids[i] = []uint64{FirstID(g), id}
	}
	for _, x := range ids[0] {
		for _, y := range ids[1] {
			zzsym.Assert(x != y, "generators with different machine ids never produce the same id")
		}
	}
}

// Any start time and clock reading; machine id sources that fail or not; checks that reject or not.
func ZZF03T_Refused() {
	st := Settings{}
	now := zzTime("now", 1609459200, zzHi)
	zzClock(func() time.Time { return now })
	future := false
	switch zzsym.Choose("start", 2) {
	case 0:
		st.StartTime = zzTime("start", 1, zzHi)
		future = st.StartTime.Sub(now) > 0
	case 1: // not set: 2021-01-01
	}
	mid := zzsym.U16("machine")
	fail := zzsym.Choose("source", 2) == 1
	st.MachineID = func() (uint16, error) {
		if fail {
			return mid, errors.New("no machine id")
		}
		return mid, nil
	}
	reject := zzsym.Choose("check", 3)
	if reject > 0 {
		st.CheckMachineID = func(id uint16) bool {
			zzsym.Assert(id == mid, "the machine id is what is checked")
			return reject == 1
		}
	}
	g, refused := zzNew(st)
	if fail || reject == 2 {
		zzsym.Assert(refused && g == nil, "an unusable machine id is refused")
		return
	}
	if future {
		zzsym.Assert(refused, "a start time in the future is refused")
		return
	}
	start := int64(1609459200000)
	if !st.StartTime.IsZero() {
		start = st.StartTime.UnixMilli()
	}
	over := now.UnixMilli()-start >= 1<<41
	zzsym.Assert(refused == over, "usable settings are accepted")
}
