// Package vcontext replaces context under the scheduler.
package vcontext

import (
	"context"
	"time"

	"verifmc/vsched"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                       { return context.Background() }
func TODO() Context                             { return context.TODO() }
func WithValue(p Context, key, val any) Context { return context.WithValue(p, key, val) }
func WithoutCancel(p Context) Context           { return context.WithoutCancel(p) }

type ctx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children []*ctx
	after    []*afterFunc
	deadline time.Time
	hasDL    bool
	stop     func() bool
	sv       vsched.SyncVar
}

type afterFunc struct {
	f    func()
	dead bool
}

type key struct{}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	if vsched.Active() && !vsched.Killing() {
		vsched.Point("ctx.Err")
		if c.err != nil {
			c.sv.AcquireRead()
		} else {
			c.sv.Touch(false)
		}
	}
	return c.err
}
func (c *ctx) Value(k any) any {
	if _, ok := k.(key); ok {
		return c
	}
	return c.parent.Value(k)
}

// cancel is atomic: no scheduling point inside.
func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	c.sv.Release()
	if c.stop != nil {
		c.stop()
	}
	vsched.CloseNow[struct{}](c.done)
	for _, k := range c.children {
		k.cancel(err, cause)
	}
	for _, a := range c.after {
		if !a.dead {
			a.dead = true
			vsched.GoLater(a.f)
		}
	}
}

func newCtx(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(key{}).(*ctx); ok {
		p.sv.Touch(true)
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if d := parent.Done(); d != nil {
		if parent.Err() != nil {
			c.cancel(parent.Err(), nil)
		} else {
			vsched.GoNamed("ctx", func() {
				a, b := vsched.RecvCase(d), vsched.RecvCase[struct{}](c.done)
				if vsched.Select(false, a, b) == 0 {
					c.cancel(parent.Err(), nil)
				}
			})
		}
	}
	return c
}

func (c *ctx) cancelOp(err, cause error) {
	if vsched.Active() {
		if vsched.Killing() {
			return
		}
		vsched.Point("cancel")
	}
	c.cancel(err, cause)
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancelOp(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancelOp(Canceled, cause) }
}

func Cause(x Context) error {
	if c, ok := x.Value(key{}).(*ctx); ok {
		return c.cause
	}
	return x.Err()
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	c.hasDL, c.deadline = true, time.Now().Add(d)
	if d <= 0 {
		c.cancel(DeadlineExceeded, cause)
	} else {
		c.stop = vsched.AddTimer(int64(d), func() { c.stop = nil; c.cancel(DeadlineExceeded, cause) })
	}
	return c, func() { c.cancelOp(Canceled, nil) }
}

func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	return WithTimeoutCause(parent, time.Until(t), nil)
}

func WithDeadlineCause(parent Context, t time.Time, cause error) (Context, CancelFunc) {
	return WithTimeoutCause(parent, time.Until(t), cause)
}

func AfterFunc(x Context, f func()) (stop func() bool) {
	a := &afterFunc{f: f}
	if c, ok := x.Value(key{}).(*ctx); ok {
		c.sv.Touch(true)
		if c.err != nil {
			a.dead = true
			vsched.Go(f)
		} else {
			c.after = append(c.after, a)
		}
	} else if d := x.Done(); d != nil {
		vsched.GoNamed("afterfunc", func() {
			vsched.Recv(d)
			if !a.dead {
				a.dead = true
				f()
			}
		})
	}
	return func() bool { was := !a.dead; a.dead = true; return was }
}
