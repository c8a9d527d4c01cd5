package simrt

import "container/heap"

type timer struct {
	at   int64
	tie  uint64
	seq  uint64
	f    func()
	idx  int
	live bool
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	if h[i].tie != h[j].tie {
		return h[i].tie < h[j].tie
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) {
	t := x.(*timer)
	t.idx = len(*h)
	*h = append(*h, t)
}
func (h *timerHeap) Pop() interface{} {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	return t
}

// addTimer registers f to be called (by the scheduler, not in a task) at
// monotonic time at.  Coinciding timers fire in a seeded order.
func (s *Sim) addTimer(at int64, f func()) *timer {
	s.timerSeq++
	t := &timer{at: at, tie: Hash64(s.cfg.Seed, 77, s.timerSeq), seq: s.timerSeq, f: f, live: true}
	heap.Push(&s.timers, t)
	return t
}

func (s *Sim) delTimer(t *timer) bool {
	if t == nil || !t.live {
		return false
	}
	t.live = false
	heap.Remove(&s.timers, t.idx)
	return true
}

// fireDue fires every timer due now.  In an idle machine timers fire one at
// a time with the woken tasks getting a chance to run in between only if the
// scheduler picks them; coinciding timers are all fired.
func (s *Sim) fireDue() {
	for len(s.timers) > 0 && s.timers[0].at <= s.now {
		t := heap.Pop(&s.timers).(*timer)
		t.live = false
		t.f()
	}
}

// TimerHandle is an opaque simulated timer.
type TimerHandle struct{ t *timer }

// AfterNS calls f in scheduler context after d ns of simulated time.
func AfterNS(d int64, f func()) *TimerHandle {
	s := S
	if d < 0 {
		d = 0
	}
	at := s.now + d
	if at < s.now { // overflow
		at = 1<<63 - 1
	}
	return &TimerHandle{s.addTimer(at, f)}
}

func (h *TimerHandle) Stop() bool { return S.delTimer(h.t) }

// SleepNS blocks the current task for d ns of simulated time.
func SleepNS(d int64) {
	s := S
	if s == nil {
		return
	}
	if s.dead {
		goexit()
	}
	if d <= 0 {
		SP(2)
		return
	}
	t := s.cur
	at := s.now + d
	if at < s.now {
		at = 1<<63 - 1
	}
	s.addTimer(at, func() { s.ready(t) })
	s.block("sleep")
}

func NowNS() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

func WallNS() int64 {
	if S == nil {
		return 1400000000 * 1000000000
	}
	return S.wallOff + S.now
}

// SpawnFromTimer starts a task from scheduler context.
func SpawnFromTimer(name string, f func()) {
	S.newTask(name, f)
	S.Stats["tasks"]++
}
