package simrt

// Chan is the simulated channel: the semantics of the language's channels,
// with every blocking decision made by the simulator's scheduler.
type Chan[T any] struct {
	buf    []T
	cap    int
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]
}

type waiter[T any] struct {
	t    *Task
	val  T
	ok   bool
	done bool
	sel  *Selector
	idx  int
}

func (w *waiter[T]) stale() bool { return w.done || (w.sel != nil && w.sel.fired >= 0) }
func (w *waiter[T]) complete(s *Sim, ok bool) {
	w.ok = ok
	w.done = true
	if w.sel != nil {
		w.sel.fired = w.idx
	}
	s.ready(w.t)
}

func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		if n[0] < 0 {
			panic("makechan: size out of range")
		}
		c.cap = n[0]
	}
	return c
}

func need() *Sim {
	s := S
	if s == nil {
		panic("simulated channel used outside the simulation")
	}
	checkDying()
	return s
}

func (c *Chan[T]) popRecv() *waiter[T] {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if !w.stale() && w.t.state == stBlocked {
			return w
		}
	}
	return nil
}
func (c *Chan[T]) popSend() *waiter[T] {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if !w.stale() && w.t.state == stBlocked {
			return w
		}
	}
	return nil
}

func (c *Chan[T]) trySend(s *Sim, v T) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := c.popRecv(); w != nil {
		w.val = v
		w.complete(s, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}
func (c *Chan[T]) tryRecv(s *Sim) (v T, ok bool, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		var z T
		c.buf[0] = z
		c.buf = c.buf[1:]
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			w.complete(s, true)
		}
		return v, true, true
	}
	if w := c.popSend(); w != nil {
		v = w.val
		w.complete(s, true)
		return v, true, true
	}
	if c.closed {
		return v, false, true
	}
	return v, false, false
}

func (c *Chan[T]) Send(v T) {
	s := need()
	P()
	if c == nil {
		s.park("send on nil channel")
	}
	if c.trySend(s, v) {
		P()
		return
	}
	w := &waiter[T]{t: s.cur, val: v}
	c.sendq = append(c.sendq, w)
	s.park("chan send")
	if !w.ok {
		panic("send on closed channel")
	}
}

func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }

func (c *Chan[T]) Recv2() (T, bool) {
	s := need()
	P()
	if c == nil {
		s.park("receive on nil channel")
	}
	if v, ok, done := c.tryRecv(s); done {
		return v, ok
	}
	w := &waiter[T]{t: s.cur}
	c.recvq = append(c.recvq, w)
	s.park("chan receive")
	return w.val, w.ok
}

func (c *Chan[T]) Close() {
	if S != nil && S.aborted {
		return
	}
	s := need()
	P()
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.complete(s, false)
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.complete(s, false)
	}
	P()
}

func (c *Chan[T]) Len() int {
	P()
	if c == nil {
		return 0
	}
	return len(c.buf)
}
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// ForceSend is used by timers (scheduler context): non-blocking, drops when full.
func (c *Chan[T]) ForceSend(v T) {
	if S != nil && !c.closed {
		c.trySend(S, v)
	}
}

// ---- select

type Selector struct {
	t      *Task
	fired  int
	hasDef bool
	try    []func() bool
	enq    []func()
}

func NewSelect(hasDefault bool) *Selector {
	s := need()
	return &Selector{t: s.cur, fired: -1, hasDef: hasDefault}
}

type RecvCase[T any] struct {
	Val T
	OK  bool
}

func SelRecv[T any](sel *Selector, c *Chan[T]) *RecvCase[T] {
	rc := &RecvCase[T]{}
	idx := len(sel.try)
	var w *waiter[T]
	sel.try = append(sel.try, func() bool {
		if w != nil { // completed by a sender
			rc.Val, rc.OK = w.val, w.ok
			return true
		}
		if c == nil {
			return false
		}
		v, ok, done := c.tryRecv(S)
		if done {
			rc.Val, rc.OK = v, ok
		}
		return done
	})
	sel.enq = append(sel.enq, func() {
		if c != nil {
			w = &waiter[T]{t: sel.t, sel: sel, idx: idx}
			c.recvq = append(c.recvq, w)
		}
	})
	return rc
}

func SelSend[T any](sel *Selector, c *Chan[T], v T) {
	idx := len(sel.try)
	var w *waiter[T]
	sel.try = append(sel.try, func() bool {
		if w != nil {
			if !w.ok {
				panic("send on closed channel")
			}
			return true
		}
		if c == nil {
			return false
		}
		return c.trySend(S, v)
	})
	sel.enq = append(sel.enq, func() {
		if c != nil {
			w = &waiter[T]{t: sel.t, val: v, sel: sel, idx: idx}
			c.sendq = append(c.sendq, w)
		}
	})
}

// Do returns the index of the case that proceeds (-1 for default). Cases are
// polled from a chosen starting point, as the language picks among ready ones.
func (sel *Selector) Do() int {
	s := need()
	P()
	n := len(sel.try)
	start := 0
	if n > 1 {
		start = s.Draw(StreamMisc, n)
	}
	for k := 0; k < n; k++ {
		i := (start + k) % n
		if sel.try[i]() {
			return i
		}
	}
	if sel.hasDef {
		P()
		return -1
	}
	for _, e := range sel.enq {
		e()
	}
	s.park("select")
	sel.try[sel.fired]()
	return sel.fired
}

// ---- wait queues for the sync shims

type WaitQ struct{ q []*Task }

func (w *WaitQ) Wait(why string) {
	s := need()
	w.q = append(w.q, s.cur)
	s.park(why)
}
func (w *WaitQ) WakeOne() bool {
	if S == nil {
		return false
	}
	for len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		if t.state == stBlocked {
			S.ready(t)
			return true
		}
	}
	return false
}
func (w *WaitQ) WakeAll() {
	for w.WakeOne() {
	}
}
func (w *WaitQ) Empty() bool { return len(w.q) == 0 }

// Need panics/unwinds as appropriate; exported for the shims.
func Need() *Sim { return need() }

// ---- condition variables: a signal that arrives between enqueueing and
// parking must not be lost.

type condTicket struct{ signalled bool }

func (s *Sim) EnqueueCur(w *WaitQ) *Task {
	t := s.cur
	t.waiting = &condTicket{}
	w.q = append(w.q, t)
	return t
}

func (s *Sim) ParkUnlessReady(t *Task, w *WaitQ, why string) {
	checkDying()
	tk := t.waiting.(*condTicket)
	if tk.signalled {
		t.waiting = nil
		P()
		return
	}
	s.park(why)
	t.waiting = nil
}

// WakeCond signals the longest waiter.
func (w *WaitQ) WakeCond() bool {
	if S == nil {
		return false
	}
	for len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		tk, _ := t.waiting.(*condTicket)
		if tk == nil || tk.signalled {
			continue
		}
		tk.signalled = true
		S.ready(t)
		return true
	}
	return false
}

// MakeFor makes a channel of a named or parameterised channel type.
func MakeFor[C interface{ ~*Chan[T] }, T any](n ...int) C { return C(MakeChan[T](n...)) }
