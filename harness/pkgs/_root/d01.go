package xdb

import (
	"context"
	"database/sql"

	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
)

// One transaction with any isolation level and access mode (or no options), then any 3 operations (thorough: 4)
// out of: statements (exec, query, query of one row) on the transaction or its parent, commit, rollback and
// close of the transaction, commit and rollback of the parent, nested begin; any single driver operation of
// the whole may fail.
func ZZD01_OneTx() {
	w := zzNewW()
	w.faults()
	var opts *sql.TxOptions
	iso, ro := 0, false
	if zzsym.Choose("opts", 2) == 1 {
		iso, ro = int(zzsym.U16("iso")), zzsym.Bool("ro")
		opts = &sql.TxOptions{Isolation: sql.IsolationLevel(iso), ReadOnly: ro}
	}
	w.begin(opts, iso, ro)
	if len(w.txs) == 0 {
		w.stmt(w.p, nil, 0)
		return
	}
	tx := w.txs[0]
	n := 3
	if zzsym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		switch k := zzsym.Choose("op", 12); k {
		case 0, 1, 2:
			w.stmt(tx.p, tx, k)
		case 3, 4, 5:
			w.stmt(w.p, nil, k-3)
		case 6, 7, 8:
			w.end(tx, k-6)
		case 9, 10:
			w.none(k - 9)
		case 11:
			mark := len(w.d.Log)
			p, err := tx.p.BeginTx(context.Background(), opts)
			zzsym.Assert(p == nil && err != nil && len(w.d.Log) == mark, "transactions do not nest")
		}
	}
}

// Two transactions side by side (begun before or between the operations) and any 4 operations (thorough: 5)
// out of: exec on the parent or either transaction, commit, rollback or close of either.
func ZZD01_TwoTx() {
	w := zzNewW()
	i1, i2 := int(zzsym.U16("iso1")), int(zzsym.U16("iso2"))
	w.begin(&sql.TxOptions{Isolation: sql.IsolationLevel(i1)}, i1, false)
	n := 4
	if zzsym.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		k := zzsym.Choose("op", 9)
		if len(w.txs) == 1 && k >= 5 {
			zzsym.Assume(k == 5)
			w.begin(&sql.TxOptions{Isolation: sql.IsolationLevel(i2), ReadOnly: true}, i2, true)
			continue
		}
		switch {
		case k == 0:
			w.stmt(w.p, nil, 0)
		case k < 5:
			if k == 1 {
				w.stmt(w.txs[0].p, w.txs[0], 0)
			} else {
				w.end(w.txs[0], k-2)
			}
		case k == 5:
			w.stmt(w.txs[1].p, w.txs[1], 0)
		default:
			w.end(w.txs[1], k-6)
		}
	}
	w.stmt(w.p, nil, 0)
}

// A statement whose context ended does not run, in the transaction or outside, and the transaction goes on.
func ZZD01_Context() {
	w := zzNewW()
	w.begin(nil, 0, false)
	tx := w.txs[0]
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	w.ctx = ctx
	if zzsym.Choose("in", 2) == 1 {
		w.stmt(tx.p, tx, zzsym.Choose("kind", 3))
	} else {
		w.stmt(w.p, nil, zzsym.Choose("kind", 3))
	}
	w.ctx = nil
	w.stmt(tx.p, tx, zzsym.Choose("kind", 3))
	w.end(tx, zzsym.Choose("end", 3))
}

// Identifiers and names of a transaction-scoped provider are those of its parent, for any generator state.
func ZZD01_Same() {
	w := zzNewW()
	w.gen.n = zzsym.U64("n")
	zzsym.Assume(w.gen.n < 1<<62)
	w.begin(nil, 0, false)
	tx := w.txs[0].p
	a, b := w.p.NextID().UInt64(), tx.NextID().UInt64()
	zzsym.Assert(zzsym.And(b == a+1, w.gen.n == b), "both take their ids from the same generator")
}

// Long use: 240 operations in one of 4 orders on up to 12 transactions side by side, 30 in all, with statements of up to 30 arguments of any value; any one
// operation, or every commit, may fail.
func ZZD01_Long() {
	w := zzNewW()
	step := []int{1, 3, 5, 7}[zzsym.Choose("order", 4)]
	fault := zzsym.Choose("fault", 8)
	k := 0
	w.d.Fault = func(op string) error {
		if op == "close" || op == "open" {
			return nil
		}
		k++
		if fault == 1 && op == "commit" || fault > 1 && k == fault*fault*8 {
			return &zzdrv.Err{Op: op}
		}
		return nil
	}
	open := 0
	at := func(n int) *zzT { return w.txs[n%len(w.txs)] }
	for i := 0; i < 240; i++ {
		w.nargs = 1 + []int{0, 1, 3, 30}[i%4]
		open = 0
		for _, t := range w.txs {
			if !t.done {
				open++
			}
		}
		w.d.Last = nil
		switch c := (i*step + i/11) % 11; {
		case len(w.txs) == 0 || (c < 2 || open == 0) && open < 12 && len(w.txs) < 30:
			w.begin(&sql.TxOptions{Isolation: sql.IsolationLevel(i % 7), ReadOnly: i%2 == 1}, i%7, i%2 == 1)
		case c == 2:
			w.stmt(w.p, nil, i%3)
		case c == 3 && open > 6:
			w.end(at(i), i%3)
		case c == 4:
			w.none(i % 2)
		default:
			t := at(i * step)
			w.stmt(t.p, t, i%3)
		}
	}
	for i := range w.txs {
		w.d.Last = nil
		w.end(w.txs[len(w.txs)-1-i], i%3)
	}
	zzsym.Assert(w.d.OpenTxs == 0 && w.d.OpenRows == 0, "nothing stays open")
}
