package xdb

import (
	"database/sql"
	stderrors "errors"
	"fmt"
	"strings"

	"github.com/cockroachdb/errors"
	"github.com/effective-security/xdb/internal/zzsym"
)

// zzErr is an error with a fixed text that hides its cause's text.
type zzErr struct {
	msg   string
	cause error
}

func (e *zzErr) Error() string { return e.msg }
func (e *zzErr) Unwrap() error { return e.cause }

const zzNoRowsText = "no rows in result set"

// zzNear is the no-rows text between any two bytes with one byte at any position replaced by any
// byte (so possibly unchanged).
func zzNear() string {
	b := []byte(zzNoRowsText)
	b[zzsym.Choose("pos", len(b))] = zzsym.Byte("b")
	return zzsym.Str("pre", 1) + string(b) + zzsym.Str("post", zzsym.Choose("post.len", 2))
}

// zzChain is an error chain of the given depth; noRows and notFound tell what it contains.
func zzChain(depth int, short bool) (err error, noRows, notFound bool) {
	switch zzsym.Choose("base", 6) {
	case 0:
		err, noRows = sql.ErrNoRows, true
	case 1:
		m := zzsym.Str("msg", 2)
		if !short {
			m = zzNear()
		}
		err = stderrors.New(m)
	case 2:
		err, notFound = &ErrorNotFound{ID: zzsym.Str("id", 1), Table: zzsym.Str("table", 1)}, true
	case 3:
		err, notFound, noRows = NewErrorNotFound(sql.ErrNoRows, "t", "1"), true, true
	case 4:
		err, notFound = &ErrorNotFound{Table: zzsym.Str("table", zzsym.Choose("tl", 2)), Err: stderrors.New("revoked")}, true
	default:
		err = &zzErr{msg: "connection refused"}
	}
	for i := 0; i < depth; i++ {
		switch zzsym.Choose("wrap", 6) {
		case 0:
			err = errors.Wrap(err, zzsym.Str("m", 1))
		case 1:
			err = errors.WithStack(err)
		case 2:
			err = fmt.Errorf("failed: %w", err)
		case 3:
			err = &zzErr{msg: "hidden", cause: err}
		case 4:
			err = errors.WithMessage(err, "context")
		default:
			err = stderrors.Join(stderrors.New("first"), err)
		}
	}
	if strings.Contains(err.Error(), zzNoRowsText) {
		noRows = true
	}
	return
}

func zzCheckNotFound(err error, noRows, notFound bool) {
	zzsym.Assert(IsNotFoundError(err) == (noRows || notFound), "recognised exactly")
	table := zzsym.Str("tbl", zzsym.Choose("tbl.len", 3))
	var id any
	var text string
	switch zzsym.Choose("idkind", 4) {
	case 0:
		n := zzsym.U64("n")
		zzsym.Assume(n != 0)
		id, text = NewID(n), zzDec(n)
	case 1:
		s := zzsym.Str("sid", 2)
		id, text = s, s
	case 2:
		n := zzsym.U64("n")
		id, text = n, zzDec(n)
	default:
		id, text = Int64(-7), "-7"
	}
	r := CheckNotFoundError(err, table, id)
	zzsym.Assert(r != nil, "an error stays an error")
	zzsym.Assert(errors.Is(r, err), "the result matches the original error")
	zzsym.Assert(IsNotFoundError(r) == (noRows || notFound), "the result is classified as before")
	if noRows {
		var nf *ErrorNotFound
		zzsym.Assert(errors.As(r, &nf), "a no-rows error becomes a not-found error")
		zzsym.Assert(nf.Table == table && nf.ID == text, "with the given table and id")
		zzsym.Assert(nf.Is(&ErrorNotFound{Table: table, ID: text}), "equal to a not-found error of the same table and id")
	} else {
		zzsym.Assert(r.Error() == err.Error(), "other errors keep their text")
		var nf, nf0 *ErrorNotFound
		zzsym.Assert(errors.As(r, &nf) == errors.As(err, &nf0) && nf == nf0, "no not-found error is made of another error")
	}
}

// Error chains: 5 kinds of root errors (no-rows, any near-miss of the no-rows text, not-found with
// and without cause, other), unwrapped or wrapped once in 6 ways; any table name of up to 2 bytes and
// ids of 4 kinds.
func ZZT11_Single() {
	zzCheckNotFound(zzChain(zzsym.Choose("depth", 2), false))
}

// Chains of wrapping depth 2 (thorough: 2 or 3) with short messages.
func ZZT11_Deep() {
	d := 2
	if zzsym.Thorough() {
		d += zzsym.Choose("depth", 2)
	}
	zzCheckNotFound(zzChain(d, true))
}

// nil stays nil and is not a not-found error.
func ZZT11_Nil() {
	zzsym.Assert(!IsNotFoundError(nil), "nil is not an error")
	zzsym.Assert(CheckNotFoundError(nil, zzsym.Str("t", 1), zzsym.U64("id")) == nil, "nil stays nil")
}

// Not-found errors compare by table and id (any texts of up to 2 bytes).
func ZZT11_Is() {
	a := &ErrorNotFound{Table: zzsym.Str("t1", zzsym.Choose("l1", 3)), ID: zzsym.Str("i1", zzsym.Choose("l2", 3))}
	b := &ErrorNotFound{Table: zzsym.Str("t2", zzsym.Choose("l3", 3)), ID: zzsym.Str("i2", zzsym.Choose("l4", 3)), Err: sql.ErrNoRows}
	zzsym.Assert(a.Is(b) == (a.Table == b.Table && a.ID == b.ID), "same table and id")
	zzsym.Assert(!a.Is(sql.ErrNoRows), "other errors are different")
	zzsym.Assert(a.Unwrap() == nil && b.Unwrap() == sql.ErrNoRows, "the original error is kept")
	zzsym.Assert(strings.Contains(a.Error(), a.Table) && strings.HasSuffix(a.Error(), a.ID), "the text names table and id")
}
