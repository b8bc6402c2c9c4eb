// Package pq is a model of the LISTEN/NOTIFY part of github.com/lib/pq, for checking pkg/notifier: one
// connection on which the server's messages (notifications and acknowledgements) arrive in order, and which the
// harness controls. Everything else is the real package's.
package pq

import (
	"context"
	"errors"
	"net"
	"sync"
	"time"

	"github.com/lib/pq"
)

type (
	Notification      = pq.Notification
	ListenerEventType = pq.ListenerEventType
	EventCallbackType = pq.EventCallbackType
	Dialer            = pq.Dialer
	Error             = pq.Error
	StringArray       = pq.StringArray
	Int64Array        = pq.Int64Array
)

const (
	ListenerEventConnected               = pq.ListenerEventConnected
	ListenerEventDisconnected            = pq.ListenerEventDisconnected
	ListenerEventReconnected             = pq.ListenerEventReconnected
	ListenerEventConnectionAttemptFailed = pq.ListenerEventConnectionAttemptFailed
)

var (
	ErrChannelAlreadyOpen = pq.ErrChannelAlreadyOpen
	ErrChannelNotOpen     = pq.ErrChannelNotOpen
	ErrLost               = errors.New("no connection")
	ErrServer             = errors.New("the server refuses")
)

func QuoteIdentifier(s string) string { return pq.QuoteIdentifier(s) }
func QuoteLiteral(s string) string    { return pq.QuoteLiteral(s) }

var _ context.Context

// message from the server: a notification (nil after a reconnection) or an acknowledgement
type message struct {
	n   *Notification
	ack chan error
	err error
}

// Listener has the semantics of pq.Listener.
type Listener struct {
	Notify chan *Notification

	lock     sync.Mutex // held during a request, as in pq
	closed   bool
	channels map[string]struct{}

	qmu    sync.Mutex
	queue  []message
	wake   *sync.Cond
	down   bool            // the queue ends: the connection was closed
	server map[string]bool // what the server was asked to listen to
	Refuse map[string]error
	Pings  int
	Asked  []string
	DSN    string
}

// Last is the listener created last; Cap is the size of the buffer between the connection and the user
var (
	Last *Listener
	Cap  = 32
)

func NewListener(dsn string, minReconnect, maxReconnect time.Duration, cb EventCallbackType) *Listener {
	l := &Listener{Notify: make(chan *Notification, Cap), channels: map[string]struct{}{}, Refuse: map[string]error{}, server: map[string]bool{}, DSN: dsn}
	l.wake = sync.NewCond(&l.qmu)
	Last = l
	go l.main(cb)
	return l
}

func NewDialListener(d Dialer, dsn string, minReconnect, maxReconnect time.Duration, cb EventCallbackType) *Listener {
	return NewListener(dsn, minReconnect, maxReconnect, cb)
}

func (l *Listener) main(cb EventCallbackType) {
	if cb != nil {
		cb(ListenerEventConnected, nil)
	}
	for {
		l.qmu.Lock()
		for len(l.queue) == 0 && !l.down {
			l.wake.Wait()
		}
		if len(l.queue) == 0 {
			l.qmu.Unlock()
			break
		}
		x := l.queue[0]
		l.queue = l.queue[1:]
		l.qmu.Unlock()
		if x.ack != nil {
			x.ack <- x.err
			continue
		}
		if x.n == nil && cb != nil {
			cb(ListenerEventDisconnected, ErrLost)
			cb(ListenerEventReconnected, nil)
		}
		l.Notify <- x.n
	}
	close(l.Notify)
}

func (l *Listener) push(x message) bool {
	l.qmu.Lock()
	defer l.qmu.Unlock()
	if l.down {
		return false
	}
	l.queue = append(l.queue, x)
	l.wake.Broadcast()
	return true
}

// request sends a command and waits for its acknowledgement, which arrives behind everything sent before
func (l *Listener) request(what string, effect func()) error {
	l.Asked = append(l.Asked, what)
	err := l.Refuse[what]
	ack := make(chan error, 1)
	l.qmu.Lock()
	if l.down {
		l.qmu.Unlock()
		return ErrLost
	}
	if err == nil {
		effect()
	}
	l.queue = append(l.queue, message{ack: ack, err: err})
	l.wake.Broadcast()
	l.qmu.Unlock()
	return <-ack
}

func (l *Listener) NotificationChannel() <-chan *Notification { return l.Notify }

func (l *Listener) Listen(channel string) error {
	l.lock.Lock()
	defer l.lock.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	if _, ok := l.channels[channel]; ok {
		return ErrChannelAlreadyOpen
	}
	if err := l.request("LISTEN "+channel, func() { l.server[channel] = true }); err != nil {
		return err
	}
	l.channels[channel] = struct{}{}
	return nil
}

func (l *Listener) Unlisten(channel string) error {
	l.lock.Lock()
	defer l.lock.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	if _, ok := l.channels[channel]; !ok {
		return ErrChannelNotOpen
	}
	if err := l.request("UNLISTEN "+channel, func() { delete(l.server, channel) }); err != nil {
		return err
	}
	delete(l.channels, channel)
	return nil
}

func (l *Listener) UnlistenAll() error {
	l.lock.Lock()
	defer l.lock.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	if err := l.request("UNLISTEN *", func() { l.server = map[string]bool{} }); err != nil {
		return err
	}
	l.channels = map[string]struct{}{}
	return nil
}

func (l *Listener) Ping() error {
	l.lock.Lock()
	defer l.lock.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.Pings++
	return l.request("PING", func() {})
}

func (l *Listener) Close() error {
	l.lock.Lock()
	defer l.lock.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	l.qmu.Lock()
	l.down = true
	l.wake.Broadcast()
	l.qmu.Unlock()
	return nil
}

// Send is the server's side: somebody notifies the channel. It tells whether the server passes it on.
func (l *Listener) Send(channel, extra string) bool {
	l.qmu.Lock()
	ok := l.server[channel]
	l.qmu.Unlock()
	return ok && l.push(message{n: &Notification{Channel: channel, Extra: extra}})
}

// Reconnected is what arrives after a lost connection came back.
func (l *Listener) Reconnected() { l.push(message{}) }

// Open tells whether the channel is being listened to.
func (l *Listener) Open(channel string) bool {
	l.lock.Lock()
	defer l.lock.Unlock()
	_, ok := l.channels[channel]
	return ok
}
