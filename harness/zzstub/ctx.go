package zzstub

import "context"

type valueCtx struct {
	context.Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

// WithValue models context.WithValue.
func WithValue(parent context.Context, key, val any) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	return &valueCtx{parent, key, val}
}
