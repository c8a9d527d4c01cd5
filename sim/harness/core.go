// Package main is the simulation harness: it generates workloads and fault
// plans from seeds, runs them against the instrumented interpreter under
// simrt, judges what happened, minimises what fails and replays it.
package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
	"verifsim/slog"
	"verifsim/sos"
)

type D = golisp.Data
type Env = golisp.SymbolTableFrame
type Rand = simrt.Rand

// Op is one step of a client.
type Op struct {
	K string   `json:"k"`
	A []int64  `json:"a,omitempty"`
	S []string `json:"s,omitempty"`
}

func (o Op) String() string {
	p := []string{o.K}
	for _, a := range o.A {
		p = append(p, fmt.Sprint(a))
	}
	for _, s := range o.S {
		p = append(p, fmt.Sprintf("%q", s))
	}
	return "(" + strings.Join(p, " ") + ")"
}

// Workload is everything a run does besides scheduling.
type Workload struct {
	Prop    string            `json:"prop"`
	Variant string            `json:"variant,omitempty"`
	N       map[string]int64  `json:"n,omitempty"`
	Clients [][]Op            `json:"clients,omitempty"`
	Text    []string          `json:"text,omitempty"`
	Faults  []simrt.IOFault   `json:"faults,omitempty"`
	Stalls  []simrt.StallSpec `json:"stalls,omitempty"`
	Jumps   []simrt.Jump      `json:"jumps,omitempty"`
	Strat   simrt.Strategy    `json:"strat"`
	Cost    int64             `json:"cost,omitempty"`
}

func (w *Workload) clone() *Workload {
	b, _ := json.Marshal(w)
	n := &Workload{}
	json.Unmarshal(b, n)
	return n
}

func (w *Workload) n(k string) int64 { return w.N[k] }
func (w *Workload) set(k string, v int64) {
	if w.N == nil {
		w.N = map[string]int64{}
	}
	w.N[k] = v
}

// Violation is what a property check found.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func bad(class, format string, a ...interface{}) *Violation {
	return &Violation{class, fmt.Sprintf(format, a...)}
}

// Ctx carries one run: its seed, its recorded or replayed schedules, and what
// was measured.
type Ctx struct {
	Seed   uint64
	Replay bool
	Traces [][]simrt.Decision // one per simulated execution of the run

	Execs    int
	Recorded [][]simrt.Decision
	Hash     uint64
	ILHashes []uint64
	SimNS    float64
	Points   int64
	Switches int64
	Stats    map[string]int64
	Notes    []string
	Verbose  bool
	Distinct []uint64 // property specific distinct-case hashes
	Trivial  bool     // the run exercised nothing worth counting
}

func (c *Ctx) stat(k string, n int64) {
	if c.Stats == nil {
		c.Stats = map[string]int64{}
	}
	c.Stats[k] += n
}

func (c *Ctx) logf(f string, a ...interface{}) {
	if c.Verbose {
		c.Notes = append(c.Notes, fmt.Sprintf(f, a...))
	}
}

func (c *Ctx) mix(s string) { c.Hash = simrt.Hash64(c.Hash, simrt.HashString(s)) }

// Exec is one simulated execution of a run.
type Exec struct {
	C     *Ctx
	W     *Workload
	S     *simrt.Sim
	Env   *Env
	Hist  []*Ev
	Vars  map[string]*D
	Procs []*D // process objects of clients run as processes
	bad   *Violation
	left  int
	out   simrt.Outcome
}

// Fail records a violation seen while the run proceeds.
func (e *Exec) Fail(class, f string, a ...interface{}) {
	if e.bad == nil {
		e.bad = bad(class, f, a...)
	}
}

// Ev is one operation of the history.
type Ev struct {
	Client, Idx int
	Op          Op
	Inv, Ret    int64 // sequence numbers; Ret 0 while pending
	Parked      int64 // sequence number at which it was known to be blocked
	InvT, RetT  int64 // simulated time
	Out         string
	Err         string
	Panic       string
	task        *simrt.Task
}

func (v *Ev) String() string {
	s := fmt.Sprintf("c%d.%d %v [%d,%d]", v.Client, v.Idx, v.Op, v.Inv, v.Ret)
	if v.Ret == 0 {
		s += " pending"
	} else {
		s += " -> " + v.Out
	}
	if v.Err != "" {
		s += " error"
	}
	if v.Panic != "" {
		s += " PANIC " + v.Panic
	}
	return s
}

// Opt configures one simulated execution.
type Opt struct {
	W          *Workload
	Sequential bool // no preemption at all
	MapOrder   int  // 0: seeded, -1: sorted
	Seed       uint64
	Cap        int64
	NoFaults   bool
	Setup      func(e *Exec) // runs before the simulation starts
	Root       func(e *Exec) // runs as task 0
	KeepFS     *simrt.FS     // durable state surviving from an earlier execution
}

// Sim runs one simulated execution from a fresh interpreter.
func (c *Ctx) Sim(o Opt) *Exec {
	w := o.W
	idx := c.Execs
	c.Execs++
	seed := o.Seed
	if seed == 0 {
		seed = simrt.Hash64(c.Seed, 1000+uint64(idx))
	}
	cfg := simrt.Config{Seed: seed, Strat: w.Strat, Cost: w.Cost, Cap: o.Cap, MapOrder: o.MapOrder == 0}
	if !o.NoFaults {
		cfg.Stalls, cfg.Jumps = w.Stalls, w.Jumps
	}
	if o.Sequential {
		cfg.Strat = simrt.Strategy{}
	}
	if c.Replay {
		cfg.Replay = true
		if idx < len(c.Traces) {
			cfg.Trace = c.Traces[idx]
		}
	}
	s := simrt.New(cfg)
	if o.KeepFS != nil {
		s.FS = o.KeepFS
	}
	if !o.NoFaults {
		for i := range w.Faults {
			f := w.Faults[i]
			s.FS.Faults = append(s.FS.Faults, &f)
		}
	}
	e := &Exec{C: c, W: w, S: s, Vars: map[string]*D{}}
	simrt.PreRun()
	sos.Reset()
	slog.Reset()
	golisp.VerifReset()
	e.Env = golisp.NewSymbolTableFrameBelow(golisp.Global, "harness")
	if o.Setup != nil {
		o.Setup(e)
	}
	e.out = s.Run(func() { o.Root(e) })
	c.Recorded = append(c.Recorded, s.Recorded)
	c.ILHashes = append(c.ILHashes, s.InterleavingHash())
	c.SimNS += float64(s.Now())
	c.Points += s.Total()
	c.Switches += s.Switches
	for k, v := range s.Stats {
		c.stat(k, v)
	}
	c.mix(e.out.Kind + e.out.Msg)
	c.Hash = simrt.Hash64(c.Hash, s.InterleavingHash())
	for _, h := range e.Hist {
		c.mix(plain(h.String()))
	}
	for _, ev := range s.FS.Console {
		c.mix(plain(ev.Text))
	}
	return e
}

var addresses = regexp.MustCompile(`0x[0-9a-f]+|goroutine [0-9]+|c000[0-9a-f]+`)

// plain leaves out what the host's memory allocator decides: addresses and
// goroutine numbers in printed pointers and stack traces.
func plain(s string) string {
	if strings.Contains(s, "0x") || strings.Contains(s, "goroutine") || strings.Contains(s, "c000") {
		return addresses.ReplaceAllString(s, "@")
	}
	return s
}

// Crash reports executions that ended in a way no property allows.
func (e *Exec) Crash() *Violation {
	switch e.out.Kind {
	case simrt.OutOK:
		return e.bad
	case simrt.OutCrash:
		return bad("host-crash", "the host program dies: %s in %s\n%s", e.out.Msg, e.out.Task, e.out.Stack)
	case simrt.OutDeadlock:
		return bad("deadlock", "nothing can run any more: %s", strings.Join(e.out.Blocked, "; "))
	case simrt.OutCap:
		return bad("no-progress", "no progress: %s\n%s", e.out.Msg, e.out.Stack)
	default:
		return bad("exit", "the host program exits with status %s", e.out.Msg)
	}
}

// Capped says whether the run was cut short by its step limit.
func (e *Exec) Capped() bool { return e.out.Kind == simrt.OutCap }

// ---- clients

// Begin and End bracket one operation of the history.
func (e *Exec) Begin(client, idx int, op Op) *Ev {
	ev := &Ev{Client: client, Idx: idx, Op: op, Inv: simrt.Seq(), InvT: simrt.NowNS(), task: simrt.CurTask()}
	e.Hist = append(e.Hist, ev)
	return ev
}

func (e *Exec) End(ev *Ev, v *D, err error) {
	ev.Ret = simrt.Seq()
	ev.RetT = simrt.NowNS()
	if err != nil {
		ev.Err = err.Error()
		ev.Out = "error"
	} else {
		ev.Out = enc(v)
	}
}

// Do runs one operation, turning an escaping panic into part of the history.
func (e *Exec) Do(client, idx int, op Op, f func() (*D, error)) *Ev {
	ev := e.Begin(client, idx, op)
	e.run(ev, f)
	return ev
}

func (e *Exec) run(ev *Ev, f func() (*D, error)) {
	var v *D
	var err error
	fin := false
	defer func() {
		if fin || !simrt.Live() {
			return
		}
		r := recover()
		ev.Ret = simrt.Seq()
		ev.RetT = simrt.NowNS()
		ev.Panic = fmt.Sprint(r)
		ev.Out = "panic"
	}()
	v, err = f()
	fin = true
	e.End(ev, v, err)
}

// RunClients runs every client of the workload on its own goroutine (or,
// with lisp set, inside a process forked by the interpreter) and waits until
// they have all finished or nothing can run any more.
func (e *Exec) RunClients(lisp bool, do func(client int, idx int, op Op) (*D, error)) {
	w := e.W
	e.left = len(w.Clients)
	body := func(c int) {
		for i, op := range w.Clients[c] {
			if op.K == "quiesce" {
				simrt.Quiesce(op.A[0])
				now := simrt.Seq()
				for _, h := range e.Hist {
					if h.Ret == 0 && h.Parked == 0 && (strings.HasPrefix(h.task.WaitOn(), "chan") || h.task.WaitOn() == "select") {
						h.Parked = now
					}
				}
				continue
			}
			if op.K == "pause" {
				simrt.SleepNS(op.A[0])
				continue
			}
			i, op := i, op
			e.Do(c, i, op, func() (*D, error) { return do(c, i, op) })
		}
		e.left--
	}
	for c := range w.Clients {
		c := c
		if lisp {
			e.forkGo(fmt.Sprintf("client%d", c), func() { body(c) })
		} else {
			simrt.GoNamed(fmt.Sprintf("client%d", c), func() { body(c) })
		}
	}
	simrt.QuiesceLast(e.horizon())
}

func (e *Exec) horizon() int64 { return 1 << 60 }

// forkGo runs f inside a process forked through the interpreter.
func (e *Exec) forkGo(name string, f func()) {
	prim("h-"+name, func([]*D, *Env) (*D, error) {
		f()
		return nil, nil
	})
	p, err := evalS(e.Env, "(fork (lambda (p) (h-"+name+")))")
	if err != nil {
		e.Fail("harness", "fork of a client failed: %v", err)
	}
	e.Procs = append(e.Procs, p)
}

func sortedKeys(m map[string]int64) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
