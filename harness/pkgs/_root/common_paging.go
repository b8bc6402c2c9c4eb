package xdb

type zzResult struct {
	rows   []*zzModel
	set    int
	next   bool
	offset uint32
	cursor func(*zzModel) string
}

func (r *zzResult) SetResult(rows []*zzModel, hasNextPage bool, nextOffset uint32) {
	r.rows, r.next, r.offset = rows, hasNextPage, nextOffset
	r.set++
}

func (r *zzResult) SetResultWithCursor(rows []*zzModel, hasNextPage bool, cursor func(lastRow *zzModel) string) {
	r.rows, r.next, r.cursor = rows, hasNextPage, cursor
	r.set++
}
