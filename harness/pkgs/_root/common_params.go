package xdb

import (
	"github.com/effective-security/xdb/internal/zzsym"
)

// zzShape is the reference description of what a parameter set holds.
type zzShape struct {
	pos    uint64
	enumP  []uint32
	enumV  []int32
	flags  []int32
	paging int // 0 none, 1 page, 2 cursor
	limit  uint32
	offset uint32
	cursor any
	cols   []string
	args   []any
}

func zzPos(label string) uint32 { return uint32(zzsym.IntRange(label, 0, 63)) }

// zzSetter applies one setter to the set and to the reference. kind: 0 Set, 1 SetEnum, 2 SetFlags,
// 3 SetPage, 4 SetCursor, 5 SetNullColums, 6 AddArgs.
func zzSetter(l string, kind int, b *QueryParamsBuilder, s *zzShape) {
	switch kind {
	case 0:
		p, v := zzPos(l+".pos"), zzsym.U64(l+".val")
		b.Set(p, v)
		s.pos |= 1 << p
		s.args = append(s.args, v)
	case 1:
		p, v := zzPos(l+".epos"), zzsym.I32(l+".eval")
		b.SetEnum(p, v)
		s.pos |= 1 << p
		s.enumP, s.enumV = append(s.enumP, p), append(s.enumV, v)
	case 2:
		var f []int32
		for i := zzsym.Choose(l+".nf", 3); i > 0; i-- {
			f = append(f, zzsym.I32(l+".flag"))
		}
		b.SetFlags(f...)
		s.flags = append([]int32(nil), f...)
	case 3:
		lim, off := zzsym.U32(l+".limit"), zzsym.U32(l+".offset")
		b.SetPage(lim, off)
		if lim == 0 {
			lim = DefaultPageSize
		}
		s.paging, s.limit, s.offset = 1, lim, off
		s.args = append(s.args, lim, off)
	case 4:
		p, lim := zzPos(l+".cpos"), zzsym.U32(l+".climit")
		var c any
		if zzsym.Choose(l+".cursor", 2) == 1 {
			c = zzsym.U64(l + ".cval")
		}
		b.SetCursor(lim, p, c)
		if lim == 0 {
			lim = DefaultPageSize
		}
		s.pos |= 1 << p
		s.paging, s.limit, s.cursor = 2, lim, c
		s.args = append(s.args, c, lim)
	case 5:
		var cols []string
		for i := zzsym.Choose(l+".nc", 3); i > 0; i-- {
			cols = append(cols, zzsym.Str(l+".col", 1+zzsym.Choose(l+".cl", 2)))
		}
		b.SetNullColums(cols)
		s.cols = append([]string(nil), cols...)
	case 6:
		v := zzsym.U64(l + ".arg")
		b.AddArgs(v)
		s.args = append(s.args, v)
	}
}
