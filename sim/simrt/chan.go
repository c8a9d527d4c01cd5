package simrt

import "runtime"

func goexit() { runtime.Goexit() }

type waiter[T any] struct {
	t    *Task
	val  T
	ok   bool
	done *bool // shared by the cases of one select: completed
	idx  int
	recv *T
	rok  *bool
}

// Chan models a Go channel with Go's semantics: FIFO wait queues, direct
// hand-over, close.
type Chan[T any] struct {
	buf    []T
	cap    int
	closed bool
	sendq  []*waiter[T]
	recvq  []*waiter[T]
	timer  bool
}

func MakeChanOf[T any](_ *Chan[T], n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	if uint64(n) > 1<<40 {
		panic("makechan: size out of range")
	}
	SP(3)
	return &Chan[T]{cap: n}
}

func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	SP(4)
	return len(c.buf)
}

func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

func blockForever(why string) {
	s := S
	for {
		s.block(why)
	}
}

func BlockForever() {
	if S == nil {
		panic("blocked outside simulation")
	}
	SP(5)
	blockForever("select {}")
}

func (c *Chan[T]) popRecv() *waiter[T] {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.done != nil && *w.done {
			continue
		}
		return w
	}
	return nil
}

func (c *Chan[T]) popSend() *waiter[T] {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.done != nil && *w.done {
			continue
		}
		return w
	}
	return nil
}

func (c *Chan[T]) hasRecv() bool {
	for len(c.recvq) > 0 && c.recvq[0].done != nil && *c.recvq[0].done {
		c.recvq = c.recvq[1:]
	}
	return len(c.recvq) > 0
}

func (c *Chan[T]) hasSend() bool {
	for len(c.sendq) > 0 && c.sendq[0].done != nil && *c.sendq[0].done {
		c.sendq = c.sendq[1:]
	}
	return len(c.sendq) > 0
}

func (w *waiter[T]) finish() {
	if w.done != nil {
		*w.done = true
	}
	w.t.selIdx = w.idx
	S.ready(w.t)
}

// trySend: 1 done, 0 would block; panics when closed.
func (c *Chan[T]) trySend(v T) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := c.popRecv(); w != nil {
		*w.recv = v
		*w.rok = true
		w.finish()
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *Chan[T]) tryRecv() (v T, ok bool, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		var zero T
		c.buf[0] = zero
		c.buf = c.buf[1:]
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			w.ok = true
			w.finish()
		}
		return v, true, true
	}
	if w := c.popSend(); w != nil {
		w.ok = true
		w.finish()
		return w.val, true, true
	}
	if c.closed {
		return v, false, true
	}
	return v, false, false
}

func (c *Chan[T]) Send(v T) {
	s := S
	if s == nil {
		panic("channel send outside simulation")
	}
	if s.dead {
		goexit()
	}
	SP(6)
	if c == nil {
		blockForever("send on nil channel")
	}
	if c.trySend(v) {
		return
	}
	w := &waiter[T]{t: s.cur, val: v}
	c.sendq = append(c.sendq, w)
	s.block("channel send")
	if !w.ok {
		panic("send on closed channel")
	}
}

func (c *Chan[T]) Recv2() (T, bool) {
	s := S
	if s == nil {
		panic("channel receive outside simulation")
	}
	if s.dead {
		goexit()
	}
	SP(7)
	if c == nil {
		blockForever("receive from nil channel")
	}
	if v, ok, done := c.tryRecv(); done {
		return v, ok
	}
	var v T
	var ok bool
	w := &waiter[T]{t: s.cur, recv: &v, rok: &ok}
	c.recvq = append(c.recvq, w)
	s.block("channel receive")
	return v, ok
}

func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

func (c *Chan[T]) Close() {
	s := S
	if s == nil {
		panic("close outside simulation")
	}
	if s.dead {
		return
	}
	SP(8)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.finish() // zero value, ok=false
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.ok = false
		w.t.selPanic = w.done != nil
		w.finish()
	}
}

// NonBlockingSend is for simulator-internal use (timers): no scheduling.
func (c *Chan[T]) NonBlockingSend(v T) bool {
	if c.closed {
		return false
	}
	return c.trySend(v)
}

// Drain empties the buffer (timer channels on Stop/Reset).
func (c *Chan[T]) Drain() bool {
	n := len(c.buf)
	c.buf = nil
	return n > 0
}

func NewChan[T any](n int) *Chan[T] { return &Chan[T]{cap: n} }

// ---- select

type Case interface {
	try() bool
	enqueue(t *Task, idx int, done *bool)
	isNil() bool
	afterBlock(t *Task)
}

type SendC[T any] struct {
	c *Chan[T]
	v T
	w *waiter[T]
}

type RecvC[T any] struct {
	c  *Chan[T]
	v  T
	ok bool
}

func SendCase[T any](c *Chan[T], v T) *SendC[T] { return &SendC[T]{c: c, v: v} }
func RecvCase[T any](c *Chan[T]) *RecvC[T]      { return &RecvC[T]{c: c} }

func (x *SendC[T]) isNil() bool { return x.c == nil }
func (x *RecvC[T]) isNil() bool { return x.c == nil }
func (x *SendC[T]) try() bool   { return x.c.trySend(x.v) }
func (x *RecvC[T]) try() bool {
	v, ok, done := x.c.tryRecv()
	if done {
		x.v, x.ok = v, ok
	}
	return done
}
func (x *SendC[T]) enqueue(t *Task, idx int, done *bool) {
	x.w = &waiter[T]{t: t, val: x.v, done: done, idx: idx}
	x.c.sendq = append(x.c.sendq, x.w)
}
func (x *RecvC[T]) enqueue(t *Task, idx int, done *bool) {
	w := &waiter[T]{t: t, done: done, idx: idx, recv: &x.v, rok: &x.ok}
	x.c.recvq = append(x.c.recvq, w)
}
func (x *SendC[T]) afterBlock(t *Task) {
	if !x.w.ok {
		panic("send on closed channel")
	}
}
func (x *RecvC[T]) afterBlock(t *Task) {}
func (x *RecvC[T]) Val() T             { return x.v }
func (x *RecvC[T]) Val2() (T, bool)    { return x.v, x.ok }

// Select executes a select statement and returns the index of the chosen
// case, -1 for default.  Among ready cases the choice is seeded.
func Select(hasDefault bool, cases ...Case) int {
	s := S
	if s == nil {
		panic("select outside simulation")
	}
	if s.dead {
		goexit()
	}
	SP(9)
	n := len(cases)
	if n > 0 {
		off := int(s.derived(9) % uint64(n))
		// a seeded permutation: rotation plus direction
		rev := s.derived(10)&1 == 1
		for k := 0; k < n; k++ {
			i := (off + k) % n
			if rev {
				i = (off + n - k) % n
			}
			if !cases[i].isNil() && cases[i].try() {
				s.mix(uint64(i) + 100)
				return i
			}
		}
	}
	if hasDefault {
		return -1
	}
	done := false
	any := false
	for i, c := range cases {
		if !c.isNil() {
			c.enqueue(s.cur, i, &done)
			any = true
		}
	}
	if !any {
		blockForever("select with no ready case possible")
	}
	t := s.cur
	s.block("select")
	i := t.selIdx
	s.mix(uint64(i) + 200)
	cases[i].afterBlock(t)
	return i
}
