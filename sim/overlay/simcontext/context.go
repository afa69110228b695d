// Package context is the simulated counterpart of the standard package: the same
// tree of contexts, with the simulator's channels and clock.
package context

import (
	"context"

	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
	time "github.com/KitchenMishap/pudding-shed/verifsim/simtime"
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

type (
	CancelFunc      func()
	CancelCauseFunc func(cause error)
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *simrt.Chan[struct{}]
	Err() error
	Value(key any) any
}

type node struct {
	parent   *node
	kids     []*node
	done     *simrt.Chan[struct{}]
	err      error
	cause    error
	deadline time.Time
	hasDl    bool
	key, val any
	after    []func()
	other    Context // a parent that is not ours
}

func (n *node) Deadline() (time.Time, bool) { return n.deadline, n.hasDl }
func (n *node) Done() *simrt.Chan[struct{}] { return n.done }
func (n *node) Err() error                  { simrt.P(); return n.err }
func (n *node) Value(k any) any {
	for p := n; p != nil; p = p.parent {
		if p.key != nil && p.key == k {
			return p.val
		}
		if p.other != nil {
			return p.other.Value(k)
		}
	}
	return nil
}

func Background() Context { return &node{} }
func TODO() Context       { return &node{} }

func child(c Context) *node {
	if c == nil {
		panic("cannot create context from nil parent")
	}
	n := &node{done: simrt.MakeChan[struct{}]()}
	if p, ok := c.(*node); ok {
		n.parent = p
		p.kids = append(p.kids, n)
		n.deadline, n.hasDl = p.deadline, p.hasDl
		if p.err != nil {
			n.cancel(p.err, p.cause)
		}
		return n
	}
	n.other = c
	n.deadline, n.hasDl = c.Deadline()
	if d := c.Done(); d != nil {
		simrt.Go(func() {
			sel := &watch{d, n}
			sel.run(c)
		})
	}
	return n
}

type watch struct {
	d *simrt.Chan[struct{}]
	n *node
}

func (w *watch) run(c Context) {
	w.d.Recv2()
	w.n.cancel(c.Err(), nil)
}

func (n *node) cancel(err, cause error) {
	if n.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	n.err, n.cause = err, cause
	if n.done != nil {
		n.done.Close()
	}
	for _, f := range n.after {
		simrt.Go(f)
	}
	for _, k := range n.kids {
		k.cancel(err, cause)
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	n := child(parent)
	return n, func() { n.cancel(Canceled, nil) }
}
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	n := child(parent)
	return n, func(c error) { n.cancel(Canceled, c) }
}
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	n := child(parent)
	if !n.hasDl || d.Before(n.deadline) {
		n.deadline, n.hasDl = d, true
		t := time.AfterFunc(time.Until(d), func() { n.cancel(DeadlineExceeded, cause) })
		return n, func() { t.Stop(); n.cancel(Canceled, nil) }
	}
	return n, func() { n.cancel(Canceled, nil) }
}
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), cause)
}
func WithValue(parent Context, key, val any) Context {
	if key == nil {
		panic("nil key")
	}
	n := child(parent)
	n.key, n.val = key, val
	return n
}
func WithoutCancel(parent Context) Context { return &node{other: parent} }
func Cause(c Context) error {
	if n, ok := c.(*node); ok {
		return n.cause
	}
	return c.Err()
}
func AfterFunc(c Context, f func()) (stop func() bool) {
	n := child(c)
	if n.err != nil {
		simrt.Go(f)
		return func() bool { return false }
	}
	n.after = append(n.after, f)
	return func() bool {
		if n.err != nil || n.after == nil {
			return false
		}
		n.after = nil
		return true
	}
}

// Plain wraps c for code of the standard library, which sees only its values.
func Plain(c Context) context.Context { return context.WithValue(context.Background(), wrapped{}, c) }

type wrapped struct{}

// Of is the context that Plain wrapped, or nil.
func Of(c context.Context) Context {
	s, _ := c.Value(wrapped{}).(Context)
	return s
}
