package simrt

// Synchronisation primitives with the semantics of package sync.

type Mutex struct {
	locked bool
	owner  int
	q      []*Task
	q1     *Task
}

func (m *Mutex) Lock() {
	s := S
	if s == nil {
		return
	}
	if s.dead {
		goexit()
	}
	SP(40)
	for m.locked {
		m.q = append(m.q, s.cur)
		s.block("Mutex.Lock")
	}
	m.locked = true
	m.owner = s.cur.ID
}

func (m *Mutex) TryLock() bool {
	s := S
	if s == nil {
		return true
	}
	SP(40)
	if m.locked {
		return false
	}
	m.locked = true
	m.owner = s.cur.ID
	return true
}

func (m *Mutex) Unlock() {
	s := S
	if s == nil || s.dead {
		return
	}
	if !m.locked {
		Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	for _, t := range m.q {
		s.ready(t)
	}
	m.q = m.q[:0]
	SP(41)
}

// RWMutex: a pending writer keeps new readers out; readers that waited for a
// writer get in when it unlocks.
type RWMutex struct {
	w       bool // announced writer
	active  bool // writer holds the lock
	readers int
	wq      []*Task // writers waiting to announce
	drain   *Task   // announced writer waiting for readers
	rq      []*rwait
}

type rwait struct {
	t       *Task
	granted bool
}

func (m *RWMutex) Lock() {
	s := S
	if s == nil {
		return
	}
	if s.dead {
		goexit()
	}
	SP(42)
	for m.w {
		m.wq = append(m.wq, s.cur)
		s.block("RWMutex.Lock")
	}
	m.w = true
	for m.readers > 0 {
		m.drain = s.cur
		s.block("RWMutex.Lock (readers)")
	}
	m.drain = nil
	m.active = true
}

func (m *RWMutex) TryLock() bool {
	s := S
	if s == nil {
		return true
	}
	SP(42)
	if m.w || m.readers > 0 {
		return false
	}
	m.w, m.active = true, true
	return true
}

func (m *RWMutex) Unlock() {
	s := S
	if s == nil || s.dead {
		return
	}
	if !m.active {
		Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.active, m.w = false, false
	for _, r := range m.rq {
		r.granted = true
		m.readers++
		s.ready(r.t)
	}
	m.rq = nil
	for _, t := range m.wq {
		s.ready(t)
	}
	m.wq = nil
	SP(43)
}

func (m *RWMutex) RLock() {
	s := S
	if s == nil {
		return
	}
	if s.dead {
		goexit()
	}
	SP(44)
	if m.w {
		r := &rwait{t: s.cur}
		m.rq = append(m.rq, r)
		for !r.granted {
			s.block("RWMutex.RLock")
		}
		return
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	s := S
	if s == nil {
		return true
	}
	SP(44)
	if m.w {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	s := S
	if s == nil || s.dead {
		return
	}
	if m.readers <= 0 {
		Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 && m.drain != nil {
		s.ready(m.drain)
	}
	SP(45)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Locker interface {
	Lock()
	Unlock()
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	SP(46)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct {
	n int
	q []*Task
}

func (w *WaitGroup) Add(d int) {
	s := S
	SP(47)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 && s != nil && !s.dead {
		for _, t := range w.q {
			s.ready(t)
		}
		w.q = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	s := S
	if s == nil {
		return
	}
	if s.dead {
		goexit()
	}
	SP(48)
	for w.n > 0 {
		w.q = append(w.q, s.cur)
		s.block("WaitGroup.Wait")
	}
}

type Cond struct {
	L Locker
	q []*cwait
}

type cwait struct {
	t  *Task
	on bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	s := S
	if s == nil {
		panic("Cond.Wait outside simulation")
	}
	if s.dead {
		goexit()
	}
	w := &cwait{t: s.cur}
	c.q = append(c.q, w)
	c.L.Unlock()
	for !w.on {
		s.block("Cond.Wait")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	SP(49)
	if len(c.q) > 0 {
		c.q[0].on = true
		S.ready(c.q[0].t)
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	SP(49)
	for _, w := range c.q {
		w.on = true
		S.ready(w.t)
	}
	c.q = nil
}
