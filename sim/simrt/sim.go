// Package simrt is the deterministic simulation runtime.  Instrumented code
// runs on real goroutines, but exactly one of them is ever released at a
// time; which one, and every timer, wall-clock reading, select choice, map
// order and fault, is decided here from a seed or from a recorded trace.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

const (
	stRunnable = iota
	stRunning
	stBlocked
	stStalled
	stDone
)

type Task struct {
	ID      int
	Name    string
	Parent  int
	points  int64 // scheduling points this task has passed
	spin    int   // Gosched calls since it last blocked
	stop    int64 // next point count needing attention (replay preemption / stall)
	prio    int64
	state   uint8
	resume  chan struct{}
	exited  chan struct{}
	waitOn  string
	started bool

	intentMap   unsafe.Pointer
	intentWrite bool

	// filled in by whoever completes a blocked channel operation
	selIdx   int
	selOK    bool
	selPanic bool

	stalls  []stall
	Tag     interface{} // harness data
	spawned int
}

type stall struct {
	at  int64
	dur int64
}

// Decision is one scheduling decision that differs from the default.
type Decision struct {
	T  int   `json:"t"`  // task at whose scheduling point the decision was taken
	P  int64 `json:"p"`  // that task's point count
	To int   `json:"to"` // task released
}

// Outcome kinds.
const (
	OutOK       = "ok"
	OutCrash    = "host-crash" // a panic escaped a goroutine, or a fatal runtime error
	OutDeadlock = "deadlock"   // nothing can run and the root is not finished
	OutCap      = "step-cap"   // more scheduling points than allowed: no progress
	OutExit     = "exit"       // os.Exit was called
)

type Outcome struct {
	Kind    string
	Msg     string
	Stack   string
	Task    string
	Blocked []string
}

type Config struct {
	Seed      uint64
	Strat     Strategy
	Trace     []Decision // replay when Replay
	Replay    bool
	Cap       int64
	Cost      int64 // simulated ns charged per synchronisation point
	Stalls    []StallSpec
	WallStart int64
	Jumps     []Jump // wall clock jumps at monotonic times
	MapOrder  bool   // permute map iteration orders
}

type StallSpec struct {
	Task int   `json:"task"`
	At   int64 `json:"at"`
	Dur  int64 `json:"dur"`
}

type Jump struct {
	At    int64 `json:"at"`
	Delta int64 `json:"delta"`
}

// Strategy of the seeded scheduler for one run.
type Strategy struct {
	Kind     string `json:"kind"`  // "random", "pct", "rtb"
	GapP     int64  `json:"gap_p"` // mean gap between preemptions at plain points; 0 = never
	GapS     int64  `json:"gap_s"` // mean gap at synchronisation points; 0 = never
	Depth    int    `json:"depth"` // pct change points
	Len      int64  `json:"len"`   // pct assumed run length
	FavorMap bool   `json:"favor_map"`
	FavorMid bool   `json:"favor_mid"` // more switches inside conditions and read-modify-writes
}

type Sim struct {
	cfg      Config
	tasks    []*Task
	run      []*Task // runnable, in no particular order; sorted when choosing
	cur      *Task
	now      int64
	wallOff  int64
	timers   timerHeap
	timerSeq uint64
	rng      *Rand
	dead     bool
	ender    *Task
	ended    bool
	done     chan struct{}
	out      Outcome

	gateP, gateS int64
	total        int64
	chgPts       []int64 // pct change points (total point counts), ascending
	lowPrio      int64

	traceMap map[[2]int64]int
	nextPre  map[int][]int64 // per task: sorted preemption points (replay)
	Recorded []Decision

	idleWaiters []*idleWaiter
	hash        uint64 // interleaving hash over synchronisation events
	Switches    int64
	objSeq      int64
	Stats       map[string]int64
	evSeq       int64
	Log         []string // optional event log
	LogOn       bool
	FS          *FS
	randSrc     *Rand
	mapSeq      uint64
	tl          int
	hostOut     HostIO
}

// S is the running simulation, nil outside one.
var S *Sim

func Active() bool { return S != nil }

func New(cfg Config) *Sim {
	if cfg.Cap == 0 {
		cfg.Cap = 3000000
	}
	s := &Sim{cfg: cfg, done: make(chan struct{}, 1), rng: NewRand(cfg.Seed ^ 0x5851f42d4c957f2d), Stats: map[string]int64{}}
	s.randSrc = NewRand(cfg.Seed ^ 0xabcdef12345)
	s.hash = 1469598103934665603
	s.wallOff = cfg.WallStart
	if s.wallOff == 0 {
		s.wallOff = 1400000000 * 1000000000
	}
	if cfg.Replay {
		s.traceMap = map[[2]int64]int{}
		s.nextPre = map[int][]int64{}
		for _, d := range cfg.Trace {
			s.traceMap[[2]int64{int64(d.T), d.P}] = d.To
			s.nextPre[d.T] = append(s.nextPre[d.T], d.P)
		}
		for k := range s.nextPre {
			l := s.nextPre[k]
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		}
		s.gateP, s.gateS = 1<<62, 1<<62
	} else {
		s.gateP, s.gateS = s.gap(cfg.Strat.GapP), s.gap(cfg.Strat.GapS)
		if cfg.Strat.Kind == "pct" {
			n := cfg.Strat.Len
			if n < 16 {
				n = 16
			}
			for i := 0; i < cfg.Strat.Depth; i++ {
				s.chgPts = append(s.chgPts, int64(s.rng.Uint64()%uint64(n)))
			}
			sort.Slice(s.chgPts, func(i, j int) bool { return s.chgPts[i] < s.chgPts[j] })
			s.gateP, s.gateS = 1<<62, 1<<62
		}
	}
	for _, j := range cfg.Jumps {
		d := j.Delta
		s.addTimer(j.At, func() { s.wallOff += d; s.Stats["clock-jump"]++ })
	}
	s.FS = NewFS()
	return s
}

func (s *Sim) gap(mean int64) int64 {
	if mean <= 0 {
		return 1 << 62
	}
	if mean == 1 {
		return 1
	}
	// geometric with the given mean
	n := int64(1)
	for s.rng.Uint64()%uint64(mean) != 0 {
		n++
		if n > mean*12 {
			break
		}
	}
	return n
}

func (s *Sim) newTask(name string, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, resume: make(chan struct{}, 1), exited: make(chan struct{}), state: stRunnable, stop: 1 << 62}
	if s.cur != nil {
		t.Parent = s.cur.ID
	}
	if s.cfg.Strat.Kind == "pct" && !s.cfg.Replay {
		t.prio = int64(s.rng.Uint64() >> 2)
	}
	for _, st := range s.cfg.Stalls {
		if st.Task == t.ID {
			t.stalls = append(t.stalls, stall{st.At, st.Dur})
		}
	}
	sort.Slice(t.stalls, func(i, j int) bool { return t.stalls[i].at < t.stalls[j].at })
	s.tasks = append(s.tasks, t)
	s.setStop(t)
	s.run = append(s.run, t)
	go func() {
		<-t.resume
		finished := false
		defer func() {
			if finished {
				return
			}
			// panic or Goexit
			if !s.dead {
				if r := recover(); r != nil {
					s.ender = t
					s.end(Outcome{Kind: OutCrash, Msg: panicString(r), Task: t.Name, Stack: stackOf()})
				} else {
					// Goexit by the program itself: the task is over
					t.state = stDone
					close(t.exited)
					s.exitSwitch(t)
					return
				}
			} else {
				recover()
			}
			t.state = stDone
			close(t.exited)
		}()
		if s.dead {
			finished = true
			t.state = stDone
			close(t.exited)
			return
		}
		t.started = true
		f()
		finished = true
		t.state = stDone
		close(t.exited)
		if s.dead {
			return
		}
		s.exitSwitch(t)
	}()
	return t
}

func panicString(r interface{}) string {
	if e, ok := r.(error); ok {
		return e.Error()
	}
	return fmt.Sprint(r)
}

func stackOf() string {
	st := string(debug.Stack())
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/golisp/") {
			out = append(out, strings.TrimSpace(l))
			if len(out) > 14 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

func (s *Sim) exitSwitch(t *Task) {
	t.points++
	if t.ID == 0 {
		s.end(Outcome{Kind: OutOK})
		return
	}
	nxt := s.pick(t, false)
	if nxt == nil {
		return
	}
	s.handoff(nxt)
}

// Run executes root as task 0 and returns when the run has ended and every
// goroutine of it is gone.
func (s *Sim) Run(root func()) Outcome {
	if S != nil {
		panic("nested simulation")
	}
	S = s
	t := s.newTask("root", root)
	s.remove(t)
	for _, f := range pending {
		s.newTask("background", f)
	}
	pending = nil
	t.state = stRunning
	s.cur = t
	t.resume <- struct{}{}
	<-s.done
	if s.ender != nil {
		<-s.ender.exited
	}
	// kill what is left
	for i := 0; i < len(s.tasks); i++ {
		k := s.tasks[i]
		if k.state != stDone {
			select {
			case k.resume <- struct{}{}:
			default:
			}
		}
		<-k.exited
	}
	S = nil
	return s.out
}

func (s *Sim) end(o Outcome) {
	if s.ended {
		return
	}
	s.ended = true
	for _, t := range s.tasks {
		if t != s.cur && t.state == stBlocked {
			o.Blocked = append(o.Blocked, fmt.Sprintf("%s(%d): %s", t.Name, t.ID, t.waitOn))
		}
	}
	s.out = o
	s.dead = true
	s.done <- struct{}{}
}

// Die ends the run from the current task.
func (s *Sim) endHere(o Outcome) {
	if !s.ended {
		s.ender = s.cur
	}
	s.end(o)
	runtime.Goexit()
}

// Fatal models an unrecoverable runtime error: the host process dies.
func Fatal(msg string) {
	s := S
	if s == nil {
		panic(msg)
	}
	if s.dead {
		runtime.Goexit()
	}
	s.endHere(Outcome{Kind: OutCrash, Msg: "fatal error: " + msg, Task: s.cur.Name, Stack: stackOf()})
}

// Exit models os.Exit.
func Exit(code int) {
	s := S
	if s == nil {
		panic("exit outside simulation")
	}
	if s.dead {
		runtime.Goexit()
	}
	s.endHere(Outcome{Kind: OutExit, Msg: fmt.Sprint(code), Task: s.cur.Name})
}

func (s *Sim) remove(t *Task) {
	for i, x := range s.run {
		if x == t {
			s.run[i] = s.run[len(s.run)-1]
			s.run = s.run[:len(s.run)-1]
			return
		}
	}
}

func (s *Sim) setStop(t *Task) {
	t.stop = 1 << 62
	if len(t.stalls) > 0 {
		t.stop = t.stalls[0].at
	}
	if s.nextPre != nil {
		l := s.nextPre[t.ID]
		for len(l) > 0 && l[0] <= t.points {
			l = l[1:]
		}
		s.nextPre[t.ID] = l
		if len(l) > 0 && l[0] < t.stop {
			t.stop = l[0]
		}
	}
}

// ready makes a blocked task runnable.
func (s *Sim) ready(t *Task) {
	if t.state == stBlocked {
		t.state = stRunnable
		t.waitOn = ""
		s.run = append(s.run, t)
	}
}

// block parks the current task until made ready.
func (s *Sim) block(why string) {
	t := s.cur
	t.state = stBlocked
	t.waitOn = why
	t.spin = 0
	t.points++
	s.total++
	s.switchFrom(t)
}

func (s *Sim) switchFrom(t *Task) {
	nxt := s.pick(t, false)
	if nxt == t {
		t.state = stRunning
		s.cur = t
		return
	}
	if nxt != nil {
		s.handoff(nxt)
	}
	<-t.resume
	if s.dead {
		runtime.Goexit()
	}
}

func (s *Sim) handoff(nxt *Task) {
	nxt.state = stRunning
	s.cur = nxt
	s.Switches++
	nxt.resume <- struct{}{}
}

// pick chooses the next task to run.  cur has been moved to its new state
// already; if it is runnable (preemption) it is in s.run as well.
// Returns nil when the run has ended.
func (s *Sim) pick(cur *Task, preempt bool) *Task {
	for {
		if len(s.run) == 0 {
			if s.idle() {
				cur.points++
				continue
			}
			if s.wakeIdleWaiter() {
				cur.points++
				continue
			}
			o := Outcome{Kind: OutDeadlock, Task: cur.Name}
			s.end(o)
			for _, t := range s.tasks {
				if t == cur && t.state == stBlocked {
					s.out.Blocked = append(s.out.Blocked, fmt.Sprintf("%s(%d): %s", t.Name, t.ID, t.waitOn))
				}
			}
			return nil
		}
		break
	}
	var ch *Task
	if len(s.run) == 1 {
		ch = s.run[0]
	} else {
		def := s.defaultPick(cur)
		ch = def
		if s.cfg.Replay {
			if to, ok := s.traceMap[[2]int64{int64(cur.ID), cur.points}]; ok {
				for _, r := range s.run {
					if r.ID == to {
						ch = r
					}
				}
			}
		} else {
			ch = s.choose(cur, preempt)
			if ch != def {
				s.Recorded = append(s.Recorded, Decision{cur.ID, cur.points, ch.ID})
			}
		}
	}
	s.remove(ch)
	if ch != cur {
		s.mix(uint64(ch.ID)<<32 | 7)
	}
	return ch
}

// defaultPick: keep running the current task, else round robin by id.
func (s *Sim) defaultPick(cur *Task) *Task {
	var lo, hi *Task
	for _, r := range s.run {
		if r == cur {
			return r
		}
		if lo == nil || r.ID < lo.ID {
			lo = r
		}
		if r.ID > cur.ID && (hi == nil || r.ID < hi.ID) {
			hi = r
		}
	}
	if hi != nil {
		return hi
	}
	return lo
}

func (s *Sim) sorted() []*Task {
	sort.Slice(s.run, func(i, j int) bool { return s.run[i].ID < s.run[j].ID })
	return s.run
}

func (s *Sim) choose(cur *Task, preempt bool) *Task {
	l := s.sorted()
	switch s.cfg.Strat.Kind {
	case "pct":
		best := l[0]
		for _, t := range l {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	case "rtb":
		if !preempt {
			return l[s.rng.Intn(len(l))]
		}
		fallthrough
	default:
		if preempt {
			// choose someone else
			n := s.rng.Intn(len(l) - 1)
			for _, t := range l {
				if t == cur {
					continue
				}
				if n == 0 {
					return t
				}
				n--
			}
		}
		return l[s.rng.Intn(len(l))]
	}
}

func (s *Sim) mix(v uint64) {
	h := s.hash
	h ^= v
	h *= 1099511628211
	h ^= h >> 29
	s.hash = h
}

func (s *Sim) InterleavingHash() uint64 { return s.hash }

// P is a plain scheduling point: inserted before statements that touch
// memory other processes can reach.
func P() {
	s := S
	if s == nil {
		return
	}
	t := s.cur
	t.points++
	s.total++
	s.gateP--
	if s.gateP > 0 && t.points < t.stop && s.total < s.cfg.Cap && len(s.chgPts) == 0 && !s.dead {
		return
	}
	s.slowPoint(t, false)
}

// SP is a synchronisation point: around locks, channels, atomics, map and
// package variable accesses, I/O.
func SP(op uint64) {
	s := S
	if s == nil {
		return
	}
	t := s.cur
	t.points++
	s.total++
	s.mix(uint64(t.ID)<<8 | op)
	if s.cfg.Cost > 0 {
		s.now += s.cfg.Cost
		if len(s.timers) > 0 && s.timers[0].at <= s.now {
			s.fireDue()
		}
	}
	s.gateS--
	if s.gateS > 0 && t.points < t.stop && s.total < s.cfg.Cap && len(s.chgPts) == 0 && !s.dead {
		return
	}
	s.slowPoint(t, true)
}

func (s *Sim) slowPoint(t *Task, sync bool) {
	if s.dead {
		runtime.Goexit()
	}
	if s.total >= s.cfg.Cap {
		s.endHere(Outcome{Kind: OutCap, Task: t.Name, Msg: fmt.Sprintf("more than %d steps", s.cfg.Cap), Stack: stackOf()})
	}
	pre := false
	if s.cfg.Replay {
		if t.points >= t.stop {
			if _, ok := s.traceMap[[2]int64{int64(t.ID), t.points}]; ok {
				pre = true
			}
		}
	} else {
		if len(s.chgPts) > 0 && s.total >= s.chgPts[0] {
			s.chgPts = s.chgPts[1:]
			s.lowPrio--
			t.prio = s.lowPrio
			pre = true
		}
		if sync && s.gateS <= 0 {
			s.gateS = s.gap(s.cfg.Strat.GapS)
			pre = true
		}
		if !sync && s.gateP <= 0 {
			s.gateP = s.gap(s.cfg.Strat.GapP)
			pre = true
		}
	}
	if len(t.stalls) > 0 && t.points >= t.stalls[0].at {
		d := t.stalls[0].dur
		t.stalls = t.stalls[1:]
		s.Stats["stall"]++
		s.setStop(t)
		t.state = stBlocked
		t.waitOn = "stalled"
		s.addTimer(s.now+d, func() { s.ready(t) })
		s.switchFrom(t)
		return
	}
	if t.points >= t.stop {
		s.setStop(t)
	}
	if pre && len(s.run) > 0 {
		t.state = stRunnable
		s.run = append(s.run, t)
		nxt := s.pick(t, true)
		if nxt == t {
			t.state = stRunning
			s.cur = t
			return
		}
		s.handoff(nxt)
		<-t.resume
		if s.dead {
			runtime.Goexit()
		}
	}
}

// Y yields and passes its argument through: the read half of a
// read-modify-write has happened, the write half has not.
func Y[T any](v T) T {
	favorMid()
	P()
	return v
}

// B is a point between the parts of a condition.
func B() bool {
	favorMid()
	P()
	return true
}

func favorMid() {
	if s := S; s != nil && s.cfg.Strat.FavorMid && !s.cfg.Replay && !s.dead && len(s.run) > 0 && s.rng.Intn(6) == 0 {
		s.gateP = 1
	}
}

// Gosched lets another task run if the scheduler wants it to.
func Gosched() {
	s := S
	if s == nil {
		return
	}
	if s.dead {
		runtime.Goexit()
	}
	t := s.cur
	t.points++
	s.total++
	if s.total >= s.cfg.Cap {
		s.endHere(Outcome{Kind: OutCap, Task: t.Name, Msg: "step cap"})
	}
	t.spin++
	if len(s.run) == 0 && t.spin > 50 {
		// let time pass so that spinning makes progress
		if len(s.timers) > 0 {
			s.now = s.timers[0].at
			s.fireDue()
		}
	}
	if len(s.run) == 0 {
		return
	}
	t.state = stRunnable
	t.waitOn = ""
	l := s.run
	nxt := l[0]
	for _, x := range l {
		if x.ID < nxt.ID {
			nxt = x
		}
	}
	if !s.cfg.Replay {
		ch := s.sorted()[s.rng.Intn(len(s.run))]
		if ch != nxt {
			s.Recorded = append(s.Recorded, Decision{t.ID, t.points, ch.ID})
		}
		nxt = ch
	} else if to, ok := s.traceMap[[2]int64{int64(t.ID), t.points}]; ok {
		for _, r := range s.run {
			if r.ID == to {
				nxt = r
			}
		}
	}
	s.run = append(s.run, t)
	s.remove(nxt)
	s.handoff(nxt)
	<-t.resume
	if s.dead {
		runtime.Goexit()
	}
}

// pending are goroutines started before the simulation.
var pending []func()

// PreRun forgets what an earlier execution left behind.
func PreRun() { pending = nil; resetKeys() }

// Live reports whether the simulation is running (and not being torn down).
func Live() bool { return S != nil && !S.dead }

// Go starts a task.
func Go(f func()) { GoNamed("goroutine", f) }

func GoNamed(name string, f func()) *Task {
	s := S
	if s == nil {
		// package initialisation: starts with the simulation
		pending = append(pending, f)
		return nil
	}
	if s.dead {
		runtime.Goexit()
	}
	t := s.newTask(name, f)
	s.Stats["tasks"]++
	SP(1)
	return t
}

// ---- introspection for the harness

func (s *Sim) Now() int64   { return s.now }
func (s *Sim) Wall() int64  { return s.wallOff + s.now }
func (s *Sim) Total() int64 { return s.total }

// ParentOf tells which task started a task.
func (s *Sim) ParentOf(id int) int { return s.tasks[id].Parent }

func (s *Sim) NTasks() int    { return len(s.tasks) }
func CurID() int              { return S.cur.ID }
func CurTask() *Task          { return S.cur }
func (t *Task) Points() int64 { return t.points }

// Seq returns the next event sequence number; a total order of everything
// the harness records.
func Seq() int64 {
	S.evSeq++
	return S.evSeq
}

// Alive lists tasks that are neither finished nor the current one.
func (s *Sim) Alive() []*Task {
	var l []*Task
	for _, t := range s.tasks {
		if t.state != stDone && t != s.cur {
			l = append(l, t)
		}
	}
	return l
}

func (t *Task) WaitOn() string { return t.waitOn }
func (t *Task) Done() bool     { return t.state == stDone }

type idleWaiter struct {
	t     *Task
	until int64
	last  bool
}

// QuiesceLast is Quiesce for the caller that ends the run: it goes behind
// every other waiter.
func QuiesceLast(horizon int64) {
	s := S
	w := &idleWaiter{t: s.cur, until: s.now + horizon, last: true}
	s.idleWaiters = append(s.idleWaiters, w)
	s.block("harness: waiting for the end")
}

func (s *Sim) firstIdle() int {
	for i, w := range s.idleWaiters {
		if !w.last {
			return i
		}
	}
	return 0
}

// Quiesce blocks the caller until nothing else can run: every other task is
// finished or blocked with no timer due within horizon ns.
func Quiesce(horizon int64) {
	s := S
	w := &idleWaiter{t: s.cur, until: s.now + horizon}
	s.idleWaiters = append(s.idleWaiters, w)
	s.block("harness: waiting for quiescence")
}

func (s *Sim) wakeIdleWaiter() bool {
	if len(s.idleWaiters) == 0 {
		return false
	}
	i := s.firstIdle()
	w := s.idleWaiters[i]
	s.idleWaiters = append(s.idleWaiters[:i:i], s.idleWaiters[i+1:]...)
	s.ready(w.t)
	return true
}

// idle advances time to the next timer; false when there is none (or only
// beyond the horizon of a quiescence waiter).
func (s *Sim) idle() bool {
	if len(s.timers) == 0 {
		return false
	}
	if len(s.idleWaiters) > 0 && s.timers[0].at > s.idleWaiters[s.firstIdle()].until {
		return false
	}
	if s.timers[0].at > s.now {
		s.now = s.timers[0].at
	}
	s.fireDue()
	return true
}
