package notifier

import (
	"context"
	"time"

	"github.com/effective-security/xdb"
	pq "github.com/effective-security/xdb/internal/zzpq"
	"github.com/effective-security/xdb/internal/zzsym"
)

type zzProv struct{ xdb.Provider }

func (zzProv) ConnectionString() string { return "postgres://host/db" }

type zzSent struct{ ch, raw string }

// zzSink is a callback that records what it gets, and what came after stop was set
type zzSink struct {
	got   []*Notification
	stop  bool
	after int
	gate  chan struct{} // not nil: the callback waits for it
}

func (s *zzSink) cb(n *Notification) {
	if s.stop {
		s.after++
	}
	s.got = append(s.got, n)
	if s.gate != nil {
		<-s.gate
	}
}

func (s *zzSink) exactly(want []zzSent, msg string) {
	zzsym.Assert(len(s.got) == len(want), msg+": number of deliveries")
	s.prefix(want, msg)
}

func (s *zzSink) prefix(want []zzSent, msg string) {
	zzsym.Assert(len(s.got) <= len(want), msg+": more deliveries than notifications")
	for i, n := range s.got {
		zzsym.Assert(n != nil, msg+": nil notification")
		zzsym.Assert(n.Channel == want[i].ch, msg+": channel")
		zzsym.Assert(n.RawPayload == want[i].raw, msg+": raw payload")
	}
}

func zzNew() (Listener, *pq.Listener) {
	l := NewListener(zzProv{}, 0, 0)
	zzsym.Assert(pq.Last.DSN == "postgres://host/db", "connection string")
	return l, pq.Last
}

// Contents, order and multiplicity of what is delivered.
func ZZN01T_Delivery() {
	l, srv := zzNew()
	s := &zzSink{}
	ctx, cancel := context.WithCancel(context.Background())
	zzsym.Assert(l.Listen(ctx, "t", s.cb) == nil, "Listen fails")
	var want []zzSent
	var vals []string
	k := 2
	if zzsym.Thorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		if zzsym.Bool("lost") {
			srv.Reconnected()
		}
		v, raw := "", ""
		switch zzsym.Choose("payload", 4) {
		case 0:
		case 1:
			v = zzsym.Str("v", 1)
			ok := zzsym.And(v[0] >= 0x20, zzsym.And(v[0] < 0x7f, zzsym.And(v[0] != '"', v[0] != '\\')))
			zzsym.Assume(ok)
			raw = []string{"", " ", "\n"}[zzsym.Choose("space", 3)] + `{"k":"` + v + `"}`
		case 2:
			raw = zzsym.Str("raw", 2) // need not decode
		default:
			raw = []string{"{}", "[]", "null", `{"k":`}[zzsym.Choose("fixed", 4)]
		}
		vals = append(vals, v)
		want = append(want, zzSent{"t", raw})
		srv.Send("t", raw)
		if zzsym.Bool("settle") {
			zzsym.Live()
		}
	}
	zzsym.Live()
	s.exactly(want, "delivery")
	for i, n := range s.got {
		if vals[i] != "" {
			x, ok := n.Payload["k"].(string)
			zzsym.Assert(len(n.Payload) == 1 && ok, "decoded payload")
			zzsym.Assert(x == vals[i], "decoded payload value")
		}
	}
	cancel()
	zzsym.Assert(l.Close() == nil, "Close fails")
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Close")
	zzsym.Reached("end")
}

// Nothing is delivered after the context ended, the channel is given up, and nothing accumulates.
func ZZN01T_Cancel() {
	l, srv := zzNew()
	s := &zzSink{}
	live := -1
	var want []zzSent
	for round := 0; round < 2; round++ {
		ctx, cancel := context.WithCancel(context.Background())
		s.stop = false
		zzsym.Assert(l.Listen(ctx, "t", s.cb) == nil, "Listen fails")
		raw := string([]byte{byte('0' + round)})
		srv.Send("t", raw)
		want = append(want, zzSent{"t", raw})
		zzsym.Live()
		s.exactly(want, "before the context ends")
		s.stop = true
		cancel()
		n := zzsym.Choose("later", 3)
		for i := 0; i < n; i++ {
			srv.Send("t", "x")
		}
		zzsym.Live()
		zzsym.Assert(s.after == 0, "a notification is delivered after the context ended")
		zzsym.Assert(!srv.Open("t"), "the channel is still listened to after the context ended")
		srv.Send("t", "y")
		m := zzsym.Live()
		zzsym.Assert(s.after == 0, "a notification is delivered after the context ended")
		if live >= 0 {
			zzsym.Assert(m <= live, "background activity accumulates")
		}
		live = m
	}
	zzsym.Assert(l.Close() == nil, "Close fails")
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Close")
	zzsym.Reached("end")
}

// Closing ends everything, whatever is pending, and nothing is delivered afterwards.
func ZZN01T_Close() {
	pq.Cap = zzsym.IntRange("cap", 1, 2)
	pq.Cap = int(zzsym.Concretize(uint64(pq.Cap)))
	l, srv := zzNew()
	s := &zzSink{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if zzsym.Bool("listen") {
		zzsym.Assert(l.Listen(ctx, "t", s.cb) == nil, "Listen fails")
		if zzsym.Bool("settle") {
			srv.Send("t", "1")
			zzsym.Live()
			zzsym.Assert(len(s.got) == 1, "delivery")
			s.got = nil
		}
		n := zzsym.Choose("pending", 6)
		for i := 0; i < n; i++ {
			srv.Send("t", "x")
		}
	}
	zzsym.Assert(l.Close() == nil, "Close fails")
	s.stop = true
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Close")
	zzsym.Assert(s.after == 0, "a notification is delivered after Close")
	zzsym.Assert(l.Listen(ctx, "u", s.cb) != nil, "Listen after Close succeeds")
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Listen on a closed listener")
	zzsym.Reached("end")
}

// Callbacks get the notifications of their own topic only.
func ZZN01T_Topics() {
	l, srv := zzNew()
	topics := []string{"a", "b"}
	sinks := []*zzSink{{}, {}}
	want := make([][]zzSent, 2)
	cancels := make([]func(), 2)
	for i, t := range topics {
		ctx, cancel := context.WithCancel(context.Background())
		cancels[i] = cancel
		zzsym.Assert(l.Listen(ctx, t, sinks[i].cb) == nil, "Listen fails")
	}
	for i := 0; i < 4; i++ {
		k := zzsym.Choose("topic", 2)
		raw := string([]byte{byte('0' + i)})
		srv.Send(topics[k], raw)
		want[k] = append(want[k], zzSent{topics[k], raw})
	}
	zzsym.Live()
	for k := range sinks {
		sinks[k].exactly(want[k], "two topics")
	}
	// one ends, the other goes on
	e := zzsym.Choose("ends", 2)
	cancels[e]()
	sinks[e].stop = true
	zzsym.Live()
	for i := 0; i < 2; i++ {
		srv.Send(topics[e], "x")
		srv.Send(topics[1-e], "z")
		want[1-e] = append(want[1-e], zzSent{topics[1-e], "z"})
	}
	zzsym.Live()
	zzsym.Assert(sinks[e].after == 0, "a notification is delivered after the context ended")
	sinks[1-e].exactly(want[1-e], "the topic that goes on")
	zzsym.Assert(l.Listen(context.Background(), topics[1-e], sinks[e].cb) != nil, "a second Listen on an open topic succeeds")
	cancels[1-e]()
	zzsym.Assert(l.Close() == nil, "Close fails")
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Close")
	zzsym.Reached("end")
}

// Idle periods change nothing.
func ZZN01T_Idle() {
	l, srv := zzNew()
	s := &zzSink{}
	ctx, cancel := context.WithCancel(context.Background())
	zzsym.Assert(l.Listen(ctx, "t", s.cb) == nil, "Listen fails")
	var want []zzSent
	live := -1
	for i := 0; i < 3; i++ {
		if zzsym.Bool("refuse") {
			srv.Refuse["PING"] = pq.ErrServer
		}
		time.Sleep(time.Duration(zzsym.Choose("idle", 3)) * 40 * time.Second)
		raw := string([]byte{byte('0' + i)})
		srv.Send("t", raw)
		want = append(want, zzSent{"t", raw})
		n := zzsym.Live()
		s.exactly(want, "after an idle period")
		if live >= 0 {
			zzsym.Assert(n <= live, "background activity accumulates")
		}
		live = n
	}
	cancel()
	s.stop = true
	zzsym.Live()
	time.Sleep(3 * time.Minute)
	zzsym.Assert(s.after == 0, "a notification is delivered after the context ended")
	zzsym.Assert(l.Close() == nil, "Close fails")
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Close")
	zzsym.Reached("end")
}

// A context that ends while the callback is busy and more notifications are pending than any buffer holds.
func ZZN01T_Busy() {
	pq.Cap = int(zzsym.Concretize(uint64(zzsym.IntRange("cap", 1, 2))))
	l, srv := zzNew()
	s := &zzSink{gate: make(chan struct{})}
	ctx, cancel := context.WithCancel(context.Background())
	zzsym.Assert(l.Listen(ctx, "t", s.cb) == nil, "Listen fails")
	n := zzsym.Choose("pending", 6)
	for i := 0; i < n; i++ {
		srv.Send("t", "x")
	}
	zzsym.Live()
	cancel()
	s.stop = true
	close(s.gate)
	zzsym.Live()
	zzsym.Assert(s.after == 0, "a notification is delivered after the context ended")
	zzsym.Assert(!srv.Open("t"), "the channel is still listened to after the context ended")
	zzsym.Assert(l.Close() == nil, "Close fails")
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Close")
	zzsym.Reached("end")
}

// Callbacks that take any of several times, up to minutes: every notification is delivered all the same.
func ZZN01T_Slow() {
	pq.Cap = int(zzsym.Concretize(uint64(zzsym.IntRange("cap", 1, 2))))
	l, srv := zzNew()
	s := &zzSink{}
	took := []time.Duration{0, 5 * time.Second, 90 * time.Second}[zzsym.Choose("took", 3)]
	ctx, cancel := context.WithCancel(context.Background())
	zzsym.Assert(l.Listen(ctx, "t", func(n *Notification) {
		s.cb(n)
		time.Sleep(took)
	}) == nil, "Listen fails")
	var want []zzSent
	for i := 0; i < 4; i++ {
		raw := string([]byte{byte('0' + i)})
		srv.Send("t", raw)
		want = append(want, zzSent{"t", raw})
		if zzsym.Bool("pause") {
			time.Sleep(20 * time.Second)
		}
	}
	time.Sleep(10 * time.Minute)
	zzsym.Live()
	s.exactly(want, "slow callbacks")
	cancel()
	zzsym.Assert(l.Close() == nil, "Close fails")
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Close")
	zzsym.Reached("end")
}

// A refused LISTEN is reported and leaves nothing behind.
func ZZN01T_Refused() {
	l, srv := zzNew()
	s := &zzSink{}
	ctx, cancel := context.WithCancel(context.Background())
	base := zzsym.Live()
	srv.Refuse["LISTEN t"] = pq.ErrServer
	zzsym.Assert(l.Listen(ctx, "t", s.cb) != nil, "Listen does not report the failure")
	zzsym.Assert(zzsym.Live() <= base+1, "goroutines remain after a failed Listen")
	srv.Send("t", "x")
	zzsym.Live()
	zzsym.Assert(len(s.got) == 0, "delivery after a failed Listen")
	delete(srv.Refuse, "LISTEN t")
	zzsym.Assert(l.Listen(ctx, "t", s.cb) == nil, "Listen fails after an earlier failure")
	srv.Send("t", "y")
	zzsym.Live()
	s.exactly([]zzSent{{"t", "y"}}, "after an earlier failure")
	if zzsym.Bool("unlisten fails") {
		srv.Refuse["UNLISTEN t"] = pq.ErrServer
	}
	cancel()
	s.stop = true
	zzsym.Live()
	srv.Send("t", "z")
	zzsym.Live()
	zzsym.Assert(s.after == 0, "a notification is delivered after the context ended")
	zzsym.Assert(l.Close() == nil, "Close fails")
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Close")
	zzsym.Reached("end")
}

// Every interleaving (within the preemption bound) of a server that sends with a user who cancels or closes.
func ZZN01T_Schedules() {
	how := zzsym.Choose("end", 3)
	zzsym.Races()
	n := 1
	if zzsym.Thorough() {
		n = 2
	}
	zzsym.Concurrent(n)
	l, srv := zzNew()
	s := &zzSink{}
	ctx, cancel := context.WithCancel(context.Background())
	zzsym.Assert(l.Listen(ctx, "t", s.cb) == nil, "Listen fails")
	want := []zzSent{{"t", "0"}, {"t", "1"}}
	fin := make(chan struct{})
	go func() {
		for _, w := range want {
			srv.Send(w.ch, w.raw)
		}
		close(fin)
	}()
	if how > 0 {
		cancel()
	}
	if how == 0 {
		<-fin
		zzsym.Live()
		s.exactly(want, "schedule")
	}
	if how == 2 {
		zzsym.Live()
		s.prefix(want, "schedule with cancellation")
	}
	zzsym.Assert(l.Close() == nil, "Close fails")
	cancel()
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Close")
	s.prefix(want, "schedule")
	zzsym.Reached("end")
}

// Two calls of Listen for one channel at the same time: one of them is refused, the other gets every notification. Every interleaving within the
// preemption bound of 1 (thorough: 2).
func ZZN01T_Twice() {
	zzsym.Races()
	n := 1
	if zzsym.Thorough() {
		n = 2
	}
	zzsym.Concurrent(n)
	l, srv := zzNew()
	var s [2]zzSink
	var errs [2]error
	fin := make(chan struct{})
	go func() {
		errs[1] = l.Listen(context.Background(), "t", s[1].cb)
		close(fin)
	}()
	errs[0] = l.Listen(context.Background(), "t", s[0].cb)
	<-fin
	zzsym.Assert((errs[0] == nil) != (errs[1] == nil), "one of two calls of Listen for a channel succeeds")
	srv.Send("t", "0")
	srv.Send("t", "1")
	zzsym.Live()
	won := 0
	if errs[0] != nil {
		won = 1
	}
	s[won].exactly([]zzSent{{"t", "0"}, {"t", "1"}}, "the one that succeeded")
	s[1-won].exactly(nil, "the one that was refused")
	zzsym.Assert(l.Close() == nil, "Close fails")
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Close")
	zzsym.Reached("end")
}

// Large amounts: 300 notifications in one burst while the callback is busy, on one topic or spread over 20; with payloads of up to 9000 bytes or
// 80 keys, one value of which is any letter; later ones after the connection was lost 3 times: all delivered, in order, decoded.
func ZZN01T_Many() {
	l, srv := zzNew()
	nt := []int{1, 20}[zzsym.Choose("topics", 2)]
	long := zzsym.Choose("long", 3)
	slow := zzsym.Choose("slow", 2) == 1
	c := zzsym.Str("c", 1)
	zzsym.Assume(zzsym.And(c[0] >= 'a', c[0] <= 'z'))
	raw := `{"k":"` + c + `"}`
	keys := 1
	switch long {
	case 1:
		pad := "p"
		for len(pad) < 9000 {
			pad += pad
		}
		raw = `{"pad":"` + pad + `","k":"` + c + `"}`
		keys = 2
	case 2:
		raw = `{`
		for i := 0; i < 80; i++ {
			raw += `"x` + string(rune('a'+i%26)) + string(rune('a'+i/26)) + `":1,`
		}
		raw += `"k":"` + c + `"}`
		keys = 81
	}
	ctx, cancel := context.WithCancel(context.Background())
	sinks := make([]*zzSink, nt)
	want := make([][]zzSent, nt)
	topics := make([]string, nt)
	for i := range topics {
		topics[i] = "t" + string(rune('a'+i))
		s := &zzSink{}
		sinks[i] = s
		if slow {
			s.gate = make(chan struct{})
		}
		zzsym.Assert(l.Listen(ctx, topics[i], s.cb) == nil, "Listen fails")
	}
	for i := 0; i < 300; i++ {
		if i%100 == 50 {
			srv.Reconnected()
		}
		k := i * 7 % nt
		r := raw
		if long > 0 && i%100 > 0 {
			r = string(rune('0'+i/30)) + string(rune('0'+i%30))
		}
		srv.Send(topics[k], r)
		want[k] = append(want[k], zzSent{topics[k], r})
	}
	zzsym.Live()
	if slow {
		for _, s := range sinks {
			close(s.gate)
		}
	}
	zzsym.Live()
	for k, s := range sinks {
		s.exactly(want[k], "many")
		for i, n := range s.got {
			if want[k][i].raw == raw {
				x, ok := n.Payload["k"].(string)
				zzsym.Assert(ok && x == c && len(n.Payload) == keys, "decoded payload")
			}
		}
	}
	cancel()
	zzsym.Assert(l.Close() == nil, "Close fails")
	zzsym.Assert(zzsym.Live() == 0, "goroutines remain after Close")
	zzsym.Reached("end")
}
