// Package simcontext is package context inside a simulated process: contexts
// are cancelled by the simulated clock and through the simulator's channels.
package simcontext

import (
	"context"
	"time"

	"btrsim/simrt"
)

type key int

const self key = 0

type ctx struct {
	parent      context.Context
	done        chan struct{}
	err, cause  error
	deadline    time.Time
	hasDeadline bool
	timer       *simrt.Timer
	children    map[int]*ctx
	order       int
	after       []func()
	sv          simrt.SyncVar
}

var _ context.Context = (*ctx)(nil)

func now() time.Time { return time.Unix(0, simrt.NowNS()) }

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDeadline {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	if c.err != nil {
		c.sv.Acquire()
	}
	return c.err
}
func (c *ctx) Value(k any) any {
	if k == self {
		return c
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	c.sv.Release()
	if c.timer != nil {
		c.timer.Stop()
	}
	simrt.CloseChan((chan<- struct{})(c.done))
	for i := 0; i < c.order; i++ {
		if k := c.children[i]; k != nil {
			delete(c.children, i)
			k.cancel(err, cause)
		}
	}
	for _, f := range c.after {
		f()
	}
}

func newCtx(parent context.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{}), children: map[int]*ctx{}}
	if p, ok := parent.Value(self).(*ctx); ok && parent.Done() == p.Done() {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children[p.order] = c
			p.order++
		}
	} else if parent.Done() != nil {
		simrt.Go(func() {
			simrt.Recv(parent.Done())
			c.cancel(parent.Err(), context.Cause(parent))
		})
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if !simrt.Inside() {
		return context.WithCancel(parent)
	}
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	if !simrt.Inside() {
		return context.WithCancelCause(parent)
	}
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	if !simrt.Inside() {
		return context.WithDeadlineCause(parent, d, cause)
	}
	c := newCtx(parent)
	if p, ok := parent.Deadline(); ok && p.Before(d) {
		d = p
	}
	c.deadline, c.hasDeadline = d, true
	if c.err == nil {
		if w := d.Sub(now()); w <= 0 {
			c.cancel(context.DeadlineExceeded, cause)
		} else {
			c.timer = simrt.NewTimer(int64(w), func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, now().Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, now().Add(d), cause)
}

func Cause(c context.Context) error {
	if p, ok := c.Value(self).(*ctx); ok {
		return p.cause
	}
	return context.Cause(c)
}

func AfterFunc(c context.Context, f func()) (stop func() bool) {
	if !simrt.Inside() {
		return context.AfterFunc(c, f)
	}
	k := newCtx(c)
	state := 0
	run := func() {
		if state == 0 {
			state = 1
			simrt.Go(f)
		}
	}
	if k.err != nil {
		run()
	} else {
		k.after = append(k.after, run)
	}
	return func() bool {
		if state == 0 {
			state = 2
			return true
		}
		return false
	}
}
