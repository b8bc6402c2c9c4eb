package xdb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"

	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
)

type zzIDGen struct{ n uint64 }

func (g *zzIDGen) NextID() uint64 { g.n++; return g.n }

// zzT is the reference state of one transaction-scoped provider.
type zzT struct {
	p    Provider
	id   int // driver-level transaction
	done bool
}

type zzW struct {
	d   *zzdrv.DB
	gen *zzIDGen
	p   *SQLProvider
	txs []*zzT
	n   int
	ctx context.Context // not nil: an ended context for statements
	// not 0: one less is the number of arguments of the statements
	nargs int
}

func zzNewW() *zzW {
	w := &zzW{d: &zzdrv.DB{}, gen: &zzIDGen{n: 40}}
	p, err := New("postgres", w.d.Open(), w.gen)
	zzsym.Assert(err == nil, "a provider is created")
	w.p = p
	return w
}

// faults lets one driver operation of the rest of the case fail.
func (w *zzW) faults() {
	used := false
	w.d.Fault = func(op string) error {
		if used || op == "close" || op == "open" || zzsym.Choose("fault", 2) == 0 {
			return nil
		}
		used = true
		e := &zzdrv.Err{Op: op}
		if op == "commit" || op == "rollback" {
			e.Cause = []error{nil, context.Canceled, driver.ErrBadConn}[zzsym.Choose("cause", 3)]
		}
		return e
	}
}

// take returns the operations since the mark, other than opening and closing connections.
func (w *zzW) take(mark int) (r []zzdrv.Event) {
	for _, e := range w.d.Log[mark:] {
		if e.Op != "open" && e.Op != "close" {
			r = append(r, e)
		}
	}
	return
}

func (w *zzW) begin(opts *sql.TxOptions, iso int, ro bool) {
	mark := len(w.d.Log)
	p, err := w.p.BeginTx(context.Background(), opts)
	ev := w.take(mark)
	zzsym.Assert(len(ev) == 1 && ev[0].Op == "begin", "one transaction is started")
	zzsym.Assert(zzsym.And(ev[0].Iso == iso, ev[0].RO == ro), "with the isolation level and access mode asked for")
	if ev[0].Failed {
		zzsym.Assert(err != nil && errors.Is(err, w.d.Last) && p == nil, "a failed begin is reported")
		return
	}
	zzsym.Assert(err == nil && p != nil, "a transaction-scoped provider is returned")
	w.txs = append(w.txs, &zzT{p: p, id: w.d.Txs})
	zzsym.Assert(p.Tx() != nil && p.DB() == DB(p.Tx()) && p.Name() == "postgres", "bound to the transaction")
	zzsym.Assert(w.p.Tx() == nil, "the parent stays outside of it")
}

// stmt runs one statement through p and checks where it went. tx is nil for the parent.
func (w *zzW) stmt(p Provider, tx *zzT, kind int) {
	w.n++
	q := "stmt " + string(rune('a'+w.n))
	var args []any
	k := w.nargs - 1
	if k < 0 {
		k = zzsym.Choose("args", 3)
	}
	for ; k > 0; k-- {
		args = append(args, zzsym.U64("arg"))
	}
	mark := len(w.d.Log)
	var err error
	op := "query"
	ctx := w.ctx
	if ctx == nil {
		ctx = context.Background()
	}
	switch kind {
	case 0:
		op = "exec"
		var r sql.Result
		r, err = p.ExecContext(ctx, q, args...)
		if err == nil {
			k, e2 := r.RowsAffected()
			zzsym.Assert(k == 7 && e2 == nil, "the result is the one of the database")
		}
	case 1:
		var r *sql.Rows
		r, err = p.QueryContext(ctx, q, args...)
		if err == nil {
			err = r.Close()
		}
	case 2:
		var s string
		err = p.QueryRowContext(ctx, q, args...).Scan(&s)
		if err == sql.ErrNoRows {
			err = nil
		}
	}
	ev := w.take(mark)
	if w.ctx != nil && (tx == nil || !tx.done) {
		zzsym.Assert(len(ev) == 0 && errors.Is(err, context.Canceled), "a statement whose context ended does not run")
		return
	}
	if tx != nil && tx.done {
		zzsym.Assert(len(ev) == 0 && errors.Is(err, sql.ErrTxDone), "a finished transaction runs nothing")
		return
	}
	want := 0
	if tx != nil {
		want = tx.id
	}
	zzsym.Assert(len(ev) > 0 && ev[0].Op == op && ev[0].Query == q && len(ev[0].Args) == len(args), "the statement reaches the database once")
	for i := range args {
		zzsym.Assert(ev[0].Args[i].(uint64) == args[i].(uint64), "with its arguments")
	}
	failed := false
	for i, e := range ev {
		zzsym.Assert(e.Tx == want, "in exactly its transaction")
		zzsym.Assert(i == 0 || e.Op == "next" || e.Op == "rowsclose", "and nothing else does")
		failed = failed || e.Failed
	}
	zzsym.Assert((err != nil) == failed, "its outcome is reported")
	if failed {
		zzsym.Assert(errors.Is(err, w.d.Last), "with the error of the database")
	}
}

// end finishes a transaction: 0 commit, 1 rollback, 2 close.
func (w *zzW) end(tx *zzT, kind int) {
	mark := len(w.d.Log)
	op, err := "rollback", error(nil)
	switch kind {
	case 0:
		op = "commit"
		err = tx.p.Commit()
	case 1:
		err = tx.p.Rollback()
	case 2:
		err = tx.p.Close()
	}
	ev := w.take(mark)
	// database/sql itself drops a connection the driver calls bad
	zzsym.Assert(w.d.OpenConns > 0 || errors.Is(w.d.Last, driver.ErrBadConn), "the connection stays open")
	if tx.done {
		zzsym.Assert(len(ev) == 0, "a finished transaction is not finished again")
		if kind == 0 {
			zzsym.Assert(errors.Is(err, sql.ErrTxDone), "a second commit is an error")
		} else {
			zzsym.Assert(err == nil, "rollback or close after the end is no error")
		}
		return
	}
	tx.done = true
	zzsym.Assert(len(ev) == 1 && ev[0].Op == op && ev[0].Tx == tx.id, "exactly this transaction ends, once")
	if ev[0].Failed {
		zzsym.Assert(err != nil && errors.Is(err, w.d.Last), "a failure to end it is reported")
	} else {
		zzsym.Assert(err == nil, "success is reported")
	}
}

// none checks the transaction operations of a provider without transaction, and nested begin.
func (w *zzW) none(kind int) {
	mark := len(w.d.Log)
	switch kind {
	case 0:
		zzsym.Assert(w.p.Commit() != nil, "commit without transaction is an error")
	case 1:
		zzsym.Assert(w.p.Rollback() != nil, "rollback without transaction is an error")
	}
	zzsym.Assert(len(w.d.Log) == mark, "the database is not involved")
}
