// Package zzstub holds Go models of library functions, executed by the engine in place
// of the originals (see DESIGN.md, "stubs").
package zzstub

import (
	"fmt"
	"reflect"
)

type withMsg struct {
	msg   string
	cause error
}

func (e *withMsg) Error() string {
	if e.cause == nil {
		return e.msg
	}
	return e.msg + ": " + e.cause.Error()
}
func (e *withMsg) Unwrap() error { return e.cause }

type withText struct {
	msg   string
	cause error
}

func (e *withText) Error() string { return e.msg }
func (e *withText) Unwrap() error { return e.cause }

// lazyText is a formatted text that is computed when it is asked for.
type lazyText struct {
	format string
	args   []any
}

func lazy(format string, args []any) lazyText {
	l := lazyText{format, append([]any(nil), args...)}
	for i, a := range l.args {
		if b, ok := a.([]byte); ok {
			l.args[i] = append([]byte{}, b...)
		}
	}
	return l
}

func (l lazyText) text() string { return fmt.Sprintf(l.format, l.args...) }

type lazyErr struct {
	t     lazyText
	cause error
}

func (e *lazyErr) Error() string { return e.t.text() }
func (e *lazyErr) Unwrap() error { return e.cause }

type lazyMsg struct {
	t     lazyText
	cause error
}

func (e *lazyMsg) Error() string { return e.t.text() + ": " + e.cause.Error() }
func (e *lazyMsg) Unwrap() error { return e.cause }

// WrapLazy models fmt.Errorf.
func WrapLazy(format string, args []any, cause error) error {
	return &lazyErr{lazy(format, args), cause}
}

type lazyAll struct {
	t    lazyText
	errs []error
}

func (e *lazyAll) Error() string   { return e.t.text() }
func (e *lazyAll) Unwrap() []error { return e.errs }

// WrapLazyAll models fmt.Errorf with several errors to wrap.
func WrapLazyAll(format string, args []any, causes []any) error {
	r := &lazyAll{t: lazy(format, args)}
	for _, c := range causes {
		if e, ok := c.(error); ok {
			r.errs = append(r.errs, e)
		}
	}
	return r
}

type withStack struct{ cause error }

func (e *withStack) Error() string { return e.cause.Error() }
func (e *withStack) Unwrap() error { return e.cause }

type joined struct{ errs []error }

func (e *joined) Error() string {
	s := ""
	for i, x := range e.errs {
		if i > 0 {
			s += "\n"
		}
		s += x.Error()
	}
	return s
}
func (e *joined) Unwrap() []error { return e.errs }

func New(msg string) error { return &withMsg{msg: msg} }

func Errorf(format string, args ...any) error {
	return fmt.Errorf(format, args...)
}

// WrapRaw is an error with the given text that wraps another one.
func WrapRaw(msg string, cause error) error { return &withText{msg, cause} }

func Wrap(err error, msg string) error {
	if err == nil {
		return nil
	}
	return &withMsg{msg, err}
}

func Wrapf(err error, format string, args ...any) error {
	if err == nil {
		return nil
	}
	return &lazyMsg{lazy(format, args), err}
}

func WithStack(err error) error {
	if err == nil {
		return nil
	}
	return &withStack{err}
}

func Unwrap(err error) error {
	if u, ok := err.(interface{ Unwrap() error }); ok {
		return u.Unwrap()
	}
	return nil
}

func Cause(err error) error {
	for err != nil {
		u := Unwrap(err)
		if u == nil {
			return err
		}
		err = u
	}
	return nil
}

func Join(errs ...error) error {
	var l []error
	for _, e := range errs {
		if e != nil {
			l = append(l, e)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return &joined{l}
}

func comparable_(a error) bool {
	switch a.(type) {
	case *withMsg, *withText, *withStack, *joined, *lazyErr, *lazyMsg:
		return true
	}
	return true
}

func Is(err, target error) bool {
	for err != nil {
		if eq(err, target) {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if Is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

func eq(a, b error) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	return a == b
}

// CIs models Is of cockroachdb/errors: like Is, and errors whose chains have the same types and the same text are the same.
func CIs(err, target error) bool {
	if target == nil {
		return err == nil
	}
	if Is(err, target) {
		return true
	}
	for e := err; e != nil; e = Unwrap(e) {
		if sameMark(e, target) {
			return true
		}
	}
	return false
}

func sameMark(a, b error) bool {
	x, y := a, b
	for x != nil && y != nil {
		if reflect.TypeOf(x) != reflect.TypeOf(y) {
			return false
		}
		x, y = Unwrap(x), Unwrap(y)
	}
	return x == nil && y == nil && a.Error() == b.Error()
}
