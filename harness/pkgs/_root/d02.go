package xdb

import (
	"context"
	"errors"
	"time"

	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
)

// closed checks the state after a successful Close of the provider.
func (w *zzW) closed() {
	zzsym.Assert(w.d.OpenConns == 0, "every connection is closed")
	zzsym.Assert(w.d.Count("close") == w.d.Conns, "once")
	zzsym.Assert(zzsym.Live() == 0, "the background activity has ended")
	n := len(w.d.Log)
	time.Sleep(10 * time.Minute)
	zzsym.Assert(len(w.d.Log) == n, "and the database is left alone")
	_, err := w.p.BeginTx(context.Background(), nil)
	_, err2 := w.p.ExecContext(context.Background(), "x")
	zzsym.Assert(err != nil && err2 != nil && len(w.d.Log) == n, "a closed provider is unusable")
}

// Any sequence of 4 (thorough: 6) of: running a statement, waiting until between keep-alive periods, waiting past one
// period, waiting past several, a transaction that is closed, rolled back or committed, Close; any pings and any one close of a connection may fail; then
// Close is called until it succeeds, and once more.
func ZZD02T_Sequential() {
	w := zzNewW()
	failed := 0
	fails := zzsym.Choose("fails", 3) // 0 none, 1 pings, 2 one close of a connection
	w.d.Fault = func(op string) error {
		if op == "ping" && fails == 1 || op == "close" && fails == 2 && failed == 0 {
			failed++
			return &zzdrv.Err{Op: op}
		}
		return nil
	}
	n := 4
	if zzsym.Thorough() {
		n = 6
	}
	closed := false
	close1 := func() {
		w.d.Last = nil
		err := w.p.Close()
		zzsym.Assert((err != nil) == (w.d.Failed() == "close"), "a failed close is reported, a successful one is not an error")
		if err != nil {
			zzsym.Assert(errors.Is(err, w.d.Last), "with the cause")
			return
		}
		closed = true
	}
	for i := 0; i < n && !closed; i++ {
		switch zzsym.Choose("op", 6) {
		case 0:
			_, err := w.p.ExecContext(context.Background(), "x")
			zzsym.Assert(err == nil || failed > 0, "a statement runs")
		case 1:
			time.Sleep(35 * time.Second)
		case 2:
			time.Sleep(61 * time.Second)
		case 3:
			pings := w.d.Count("ping") + w.d.Count("open")
			time.Sleep(5 * time.Minute)
			zzsym.Assert(w.d.Count("close") > 0 || w.d.Count("ping")+w.d.Count("open") > pings, "an open provider keeps the database connection alive")
		case 4:
			tx, err := w.p.BeginTx(context.Background(), nil)
			if err == nil {
				switch zzsym.Choose("end", 3) {
				case 0:
					err = tx.Close()
				case 1:
					err = tx.Rollback()
				case 2:
					err = tx.Commit()
				}
				zzsym.Assert(err == nil && w.d.OpenTxs == 0, "the transaction ends")
			} else {
				zzsym.Assert(failed > 0, "a transaction begins")
			}
		case 5:
			close1()
		}
	}
	for i := 0; i < 3 && !closed; i++ {
		close1()
	}
	zzsym.Assert(closed, "close can be retried until it succeeds")
	zzsym.Assert(w.p.Close() == nil, "closing again is harmless")
	w.closed()
}

// Close at the same moment as a keep-alive tick or right before or after one, under every interleaving with up to 3
// preemptions (thorough: 4) at synchronisation points and accesses of the provider's fields.
func ZZD02T_Racing() {
	w := zzNewW()
	zzsym.Shared(w.p)
	zzsym.Races()
	if zzsym.Thorough() {
		zzsym.Concurrent(4)
	} else {
		zzsym.Concurrent(3)
	}
	switch zzsym.Choose("when", 3) {
	case 0:
		time.Sleep(60 * time.Second)
	case 1:
		time.Sleep(60*time.Second - 1)
	case 2:
		time.Sleep(120*time.Second + 1)
	}
	zzsym.Assert(w.p.Close() == nil, "close succeeds")
	zzsym.Assert(w.p.Close() == nil, "and again")
	time.Sleep(time.Second) // a check under way ends and its connection with it
	w.closed()
}

// 40 to 50 keep-alive periods, of which any first ones or every second one fail to ping, with statements and transactions now and then; the keep-alive goes on,
// and Close ends everything.
func ZZD02T_Long() {
	w := zzNewW()
	fails := []int{0, 1, 7, 12, 30, -1}[zzsym.Choose("fails", 6)]
	n := 0
	w.d.Fault = func(op string) error {
		if op == "ping" {
			n++
			if n <= fails || fails < 0 && n%2 == 0 {
				return &zzdrv.Err{Op: op}
			}
		}
		return nil
	}
	busy := zzsym.Choose("busy", 2) == 1
	for i := 0; i < 8; i++ {
		pings := w.d.Count("ping")
		time.Sleep(5*time.Minute + 30*time.Second*time.Duration(i%3))
		zzsym.Assert(w.d.Count("ping") > pings, "an open provider keeps the database connection alive")
		if busy {
			_, err := w.p.ExecContext(context.Background(), "x")
			zzsym.Assert(err == nil, "a statement runs")
			tx, err := w.p.BeginTx(context.Background(), nil)
			zzsym.Assert(err == nil && tx.Close() == nil && w.d.OpenTxs == 0, "closing a transaction rolls it back")
		}
	}
	zzsym.Assert(w.p.Close() == nil && w.p.Close() == nil, "close succeeds")
	w.closed()
}
