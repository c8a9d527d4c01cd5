// Package scontext stands in for package context on the simulated machine.
package scontext

import (
	"context"

	"verifsim/simrt"
	"verifsim/stime"
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

type Context interface {
	Deadline() (stime.Time, bool)
	Done() *simrt.Chan[struct{}]
	Err() error
	Value(key interface{}) interface{}
}

type (
	CancelFunc      func()
	CancelCauseFunc func(cause error)
)

type ctx struct {
	parent   Context
	mu       simrt.Mutex
	done     *simrt.Chan[struct{}]
	err      error
	cause    error
	deadline stime.Time
	timed    bool
	timer    *stime.Timer
	kids     []*ctx
	k, v     interface{}
	value    bool
}

var background = &ctx{}

func Background() Context { return background }
func TODO() Context       { return background }

func (c *ctx) Deadline() (stime.Time, bool) {
	if c.timed {
		return c.deadline, true
	}
	if c.parent != nil {
		return c.parent.Deadline()
	}
	return stime.Time{}, false
}

func (c *ctx) Done() *simrt.Chan[struct{}] {
	if c.done == nil && c.parent != nil {
		return c.parent.Done()
	}
	return c.done
}

func (c *ctx) Err() error {
	if c.done == nil {
		if c.parent != nil {
			return c.parent.Err()
		}
		return nil
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ctx) Value(key interface{}) interface{} {
	if c.value && c.k == key {
		return c.v
	}
	if c.parent != nil {
		return c.parent.Value(key)
	}
	return nil
}

func (c *ctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.cause = err, cause
	c.done.Close()
	kids := c.kids
	c.kids = nil
	c.mu.Unlock()
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}

func derive(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: simrt.NewChan[struct{}](0)}
	for p := parent; p != nil; {
		q, ok := p.(*ctx)
		if !ok { // somebody else's implementation
			if d := p.Done(); d != nil {
				simrt.GoNamed("context", func() {
					d.Recv()
					c.cancel(p.Err(), p.Err())
				})
			}
			break
		}
		if q.done != nil {
			q.mu.Lock()
			err, cause := q.err, q.cause
			if err == nil {
				q.kids = append(q.kids, c)
			}
			q.mu.Unlock()
			if err != nil {
				c.cancel(err, cause)
			}
			break
		}
		p = q.parent
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := derive(parent)
	return c, func() { c.cancel(Canceled, Canceled) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := derive(parent)
	return c, func(cause error) {
		if cause == nil {
			cause = Canceled
		}
		c.cancel(Canceled, cause)
	}
}

func WithDeadline(parent Context, t stime.Time) (Context, CancelFunc) {
	c := derive(parent)
	if d, ok := parent.Deadline(); !ok || t.Before(d) {
		c.deadline, c.timed = t, true
		if left := stime.Until(t); left <= 0 {
			c.cancel(DeadlineExceeded, DeadlineExceeded)
		} else if c.Err() == nil {
			c.timer = stime.AfterFunc(left, func() { c.cancel(DeadlineExceeded, DeadlineExceeded) })
		}
	}
	return c, func() { c.cancel(Canceled, Canceled) }
}

func WithTimeout(parent Context, d stime.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, stime.Now().Add(d))
}

func WithValue(parent Context, k, v interface{}) Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	return &ctx{parent: parent, k: k, v: v, value: true}
}

func WithoutCancel(parent Context) Context { return &ctx{k: nil, parent: &plain{parent}} }

// plain keeps a context's values only.
type plain struct{ c Context }

func (p *plain) Deadline() (stime.Time, bool)    { return stime.Time{}, false }
func (p *plain) Done() *simrt.Chan[struct{}]     { return nil }
func (p *plain) Err() error                      { return nil }
func (p *plain) Value(k interface{}) interface{} { return p.c.Value(k) }

func Cause(x Context) error {
	for x != nil {
		c, ok := x.(*ctx)
		if !ok {
			return x.Err()
		}
		if c.done != nil {
			c.mu.Lock()
			defer c.mu.Unlock()
			return c.cause
		}
		x = c.parent
	}
	return nil
}
