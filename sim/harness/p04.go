package main

import (
	"fmt"
	"sort"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C04: schedule, abandon, reset-timeout.

func init() {
	register(&Prop{ID: "C04", Gen: genSched, Run: runSched, Quick: 60000, Thorough: 2500000,
		Rule: "a run is 1-4 clients scheduling 1-6 functions (15 kinds of bodies, including ones that abandon, reset or join other scheduled processes; arguments of all kinds; delays from negative ones to 50 days) and abandoning, resetting (also in bursts) and joining them at times before, at and after the deadlines, with stalls, a cost per step and wall clock jumps in part of the runs; non-trivial when at least one scheduled function met an abandon, reset or join"})
}

// genSchedHeld is one scheduled process that is held up beyond its deadline
// while messages for it arrive before and after that.
func genSchedHeld(r *Rand) *Workload {
	w := &Workload{}
	w.set("lisp", int64(r.Intn(2)))
	w.set("vararg", 0)
	nc := 1 + r.Intn(2)
	w.Clients = make([][]Op, nc)
	d := int64(2 + r.Intn(5))
	w.Clients[0] = append(w.Clients[0], Op{K: "sched", A: []int64{0, int64([]int{0, 0, 4, 9}[r.Intn(4)]), d, int64(r.Intn(5))}})
	for n := 1 + r.Intn(5); n > 0; n-- {
		c := r.Intn(nc)
		if r.Intn(3) > 0 {
			w.Clients[c] = append(w.Clients[c], Op{K: "pause", A: []int64{int64(r.Intn(int(2*d)+1)) * 500000}})
		}
		w.Clients[c] = append(w.Clients[c], Op{K: []string{"reset", "reset", "reset", "abandon"}[r.Intn(4)], A: []int64{0}})
	}
	if r.Bool(1, 2) {
		c := r.Intn(nc)
		w.Clients[c] = append(w.Clients[c], Op{K: "join", A: []int64{0}})
	}
	for n := r.Intn(2); n >= 0; n-- {
		w.Stalls = append(w.Stalls, simrt.StallSpec{Task: nc + 1 + r.Intn(2), At: int64(r.Intn(20)), Dur: (d + int64(r.Intn(int(3*d)))) * 1000000})
	}
	return w
}

func genSched(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	if r.Intn(8) == 0 {
		return genSchedHeld(r)
	}
	nc := 1 + r.Intn(4)
	np := 1 + r.Intn(5)
	w.Clients = make([][]Op, nc)
	w.set("lisp", int64(r.Intn(2)))
	w.set("vararg", int64(r.Intn(4)))
	half := []int64{500000, 1000000, 250000}[r.Intn(3)]
	scale := int64(1)
	if r.Intn(4) == 0 {
		scale = []int64{10, 100, 997, 60000, 86400000}[r.Intn(5)]
		half *= scale
	}
	kind := swarm(r, schedKinds)
	for i := 0; i < np; i++ {
		c := r.Intn(nc)
		k := int64(kind(r))
		d := []int64{0, 1, 2, 3, 5, 8, 10, 50, -1, -7}[r.Intn(10)]
		if r.Intn(2) == 0 {
			d = int64(1 + r.Intn(6))
		}
		d *= scale
		x := int64(r.Intn(5))
		switch {
		case k == 13: // an earlier one
			x = int64(r.Intn(i + 1))
			if x == int64(i) {
				k = 0
			}
		case k >= 11:
			x = int64(r.Intn(np))
		case k != 4 && k != 7 && r.Intn(2) == 0:
			x = 100 + int64(r.Intn(len(forkVals)))
		}
		if r.Intn(3) == 0 && len(w.Clients[c]) == 0 {
			w.Clients[c] = append(w.Clients[c], Op{K: "pause", A: []int64{int64(r.Intn(8)) * half}})
		}
		w.Clients[c] = append(w.Clients[c], Op{K: "sched", A: []int64{int64(i), k, d, x}})
		for r.Intn(6) < 5 {
			cl := c
			if r.Intn(2) == 0 {
				cl = r.Intn(nc)
			}
			t := int64(r.Intn(i + 1))
			if r.Intn(3) > 0 {
				t = int64(i)
			}
			if r.Intn(2) == 0 {
				p := int64(r.Intn(12)) * half
				if r.Intn(4) == 0 && d > 0 { // meet the deadline
					p = d * 1000000
				}
				w.Clients[cl] = append(w.Clients[cl], Op{K: "pause", A: []int64{p}})
			}
			op := []string{"reset", "reset", "abandon", "join"}[r.Intn(4)]
			n := 1
			if op == "reset" && r.Intn(4) == 0 {
				n = 2 + r.Intn(2)
			}
			for ; n > 0; n-- {
				w.Clients[cl] = append(w.Clients[cl], Op{K: op, A: []int64{t}})
			}
		}
		if r.Intn(10) == 0 {
			w.Clients[c] = append(w.Clients[c], Op{K: "misuse", A: []int64{700 + int64(i), int64(r.Intn(12))}, S: []string{misuse("process", r)}})
		}
	}
	if r.Intn(2) == 0 {
		if r.Intn(2) == 0 { // scheduled processes held up just after their start or a reset
			for n := r.Intn(3); n >= 0; n-- {
				w.Stalls = append(w.Stalls, simrt.StallSpec{Task: nc + 1 + r.Intn(np+1), At: int64(r.Intn(16)), Dur: int64(1+r.Intn(24)) * 500000})
			}
		} else {
			addStalls(w, r, nc+np)
		}
		if len(w.Stalls) == 0 {
			w.Cost = int64(r.Intn(3)) * 2000
		}
	}
	addJumps(w, r, 40000000)
	return w
}

// addJumps makes the wall clock jump in part of the runs.
func addJumps(w *Workload, r *Rand, span int64) {
	if r.Intn(4) != 0 {
		return
	}
	for i := 0; i <= r.Intn(3); i++ {
		d := []int64{1, 1000, 3600000, 86400000, 1000000000, 7}[r.Intn(6)] * 1000000
		if r.Intn(2) == 0 {
			d = -d
		}
		w.Jumps = append(w.Jumps, simrt.Jump{At: int64(r.Intn(int(span))), Delta: d})
	}
	sort.Slice(w.Jumps, func(i, j int) bool { return w.Jumps[i].At < w.Jumps[j].At })
}

const schedKinds = 15

const schedLib = `
(define (w0 p me x) (h-ran me p x) (list 'r me x))
(define (w1 p me x) (h-ran me p x) (no-such-function) (h-late me) 5)
(define (w2 p me x) (h-ran me p x) (h-panic x) (h-late me) 5)
(define (w3 p me x) (h-ran me p x) (let ((v (join p))) (list 'self v x)))
(define (w4 p me x) (h-ran me p x) (sleep (+ x 1)) (list 'r me x))
(define (w5 p me x) (h-ran me p x) (abandon p) (list 'r me x))
(define (w6 p me x) (h-ran me p x) (reset-timeout p) (list 'r me x))
(define (w7 p me x) (h-ran me p x) (schedule x w0 (+ me 1000) x) (list 'r me x))
(define (wv p me x . rest) (h-ran me p x))
(define (w9 p me x) (h-ran me p x) nil)
(define (w10 p me x) (h-ran me p x) (list 'r (proc-sleep p 2) x))
(define (w11 p me x) (h-ran me p x) (h-act me "abandon" x) (list 'r me x))
(define (w12 p me x) (h-ran me p x) (h-act me "reset" x) (list 'r me x))
(define (w13 p me x) (h-ran me p x) (h-act me "join" x) (list 'r me x))
(define w14 (let ((k 0)) (lambda (p me . x) (set! k me) (h-ran me p (car x)) (h-act me "reset" (car x)) (h-act me "abandon" (car x)) (list 'r me (car x)))))
`

var schedVar = []string{
	"(define (w8 p . rest) (h-ran (car rest) p (cadr rest)) rest)",
	"(define (w8 p me . rest) (h-ran me p (car rest)) (cons me rest))",
	"(define (w8 p me x . rest) (h-ran me p x) (cons me (cons x rest)))",
	"(define w8 (lambda (p me x . rest) (h-ran me p x) (append (list me x) rest)))",
}

var schedFuns = map[string]string{"abandon": "abandon", "reset": "reset-timeout", "join": "join"}

type schedRec struct {
	runs []int64 // times
	x    string
	obj  *D
	same bool
	late bool
}

func runSched(w *Workload, c *Ctx) *Violation {
	recs := map[int64]*schedRec{}
	get := func(i int64) *schedRec {
		if recs[i] == nil {
			recs[i] = &schedRec{}
		}
		return recs[i]
	}
	pobjs := map[int64]*D{}
	var labels objs
	var alive []string
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		iv := golisp.IntegerValue
		prim("h-ran", func(a []*D, env *Env) (*D, error) {
			r := get(iv(a[0]))
			r.runs = append(r.runs, simrt.NowNS())
			r.x = enc(labels.label(a[2]))
			r.obj = a[1]
			return nil, nil
		})
		prim("h-late", func(a []*D, env *Env) (*D, error) { get(iv(a[0])).late = true; return nil, nil })
		prim("h-panic", func(a []*D, env *Env) (*D, error) { c.stat("inject-panic", 1); panic("injected panic") })
		labels = defObjs(e)
		prim("h-act", func(a []*D, env *Env) (*D, error) {
			j := iv(a[2])
			o := pobjs[j]
			if o == nil {
				return nil, nil
			}
			k := golisp.StringValue(a[1])
			e.Do(5000+int(iv(a[0])), 0, Op{K: k, A: []int64{j}, S: []string{"proc"}}, func() (*D, error) {
				d, err := golisp.Eval(call(schedFuns[k], o), env)
				return labels.label(d), err
			})
			return nil, nil
		})
		e.must(schedLib)
		e.must(schedVar[w.n("vararg")])
	}, Root: func(e *Exec) {
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			a := op.A
			wait := func() *D {
				for k := 0; pobjs[a[0]] == nil && k < 60; k++ {
					simrt.SleepNS(500000)
				}
				return pobjs[a[0]]
			}
			switch op.K {
			case "sched":
				v, err := evalS(e.Env, fmt.Sprintf("(schedule %d w%d %d %s)", a[2], a[1], a[0], forkExpr(a[3])))
				if err == nil {
					pobjs[a[0]] = v
				}
				return nil, err
			case "abandon", "reset", "join":
				o := wait()
				if o == nil {
					return sym("skipped"), nil
				}
				h := e.Hist[len(e.Hist)-1]
				for k := len(e.Hist) - 1; k >= 0; k-- {
					if e.Hist[k].Client == cl && e.Hist[k].Idx == i {
						h = e.Hist[k]
					}
				}
				h.InvT, h.Inv = simrt.NowNS(), simrt.Seq()
				d, err := golisp.Eval(call(schedFuns[op.K], o), e.Env)
				return labels.label(d), err
			case "misuse":
				id := a[0]
				switch a[1] {
				case 0:
					return evalS(e.Env, fmt.Sprintf("(schedule 1 w0 %d)", id))
				case 1:
					return evalS(e.Env, fmt.Sprintf("(schedule 1 w0 %d 1 1)", id))
				case 2:
					return evalS(e.Env, fmt.Sprintf("(schedule \"1\" w0 %d 1)", id))
				case 3:
					return evalS(e.Env, fmt.Sprintf("(schedule 1 h-ran %d 1)", id))
				case 4:
					return evalS(e.Env, "(abandon (fork (lambda (p) 1)))")
				case 5:
					return evalS(e.Env, "(reset-timeout (fork (lambda (p) 1)))")
				case 6:
					return evalS(e.Env, "(abandon (atomic))")
				case 10:
					return evalS(e.Env, op.S[0])
				case 8:
					return evalS(e.Env, fmt.Sprintf("(schedule 1 wv %d)", id))
				case 9:
					return evalS(e.Env, fmt.Sprintf("(begin (define (wv2 p a b c . rest) (h-ran a p 0)) (schedule 1 wv2 %d 0))", id))
				case 7:
					return evalS(e.Env, "(reset-timeout 5)")
				}
				return evalS(e.Env, "(join (make-channel))")
			}
			return nil, nil
		})
		for _, t := range e.S.Alive() {
			alive = append(alive, t.Name+": "+t.WaitOn())
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	exact := len(w.Stalls) == 0 && w.Cost == 0
	c.Trivial = true
	per := map[int64][]*Ev{}
	sched := map[int64]*Ev{}
	for _, h := range e.Hist {
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		if h.Op.K == "misuse" {
			if h.Err == "" {
				return bad("misuse", "%v is accepted", h)
			}
			continue
		}
		if h.Out == "skipped" {
			continue
		}
		if h.Ret == 0 {
			return bad("blocked", "%v never returns", h)
		}
		if h.Op.K == "sched" {
			sched[h.Op.A[0]] = h
			if h.Err != "" {
				return bad("error", "%v fails: %s", h, h.Err)
			}
			continue
		}
		if h.Err != "" && h.Op.K != "join" {
			return bad("error", "%v fails: %s", h, h.Err)
		}
		c.Trivial = false
		if exact && h.Op.K != "join" && h.RetT != h.InvT {
			return bad("slow", "%v took %d ns", h, h.RetT-h.InvT)
		}
		per[h.Op.A[0]] = append(per[h.Op.A[0]], h)
	}
	for i, s := range sched {
		ms := func(n int64) int64 {
			if n < 0 {
				n = 0
			}
			return n * 1000000
		}
		delay := ms(s.Op.A[2])
		rec := get(i)
		l := per[i]
		sort.SliceStable(l, func(a, b int) bool { return l[a].RetT < l[b].RetT })
		trace := func() string { return histText(append([]*Ev{s}, l...)) + fmt.Sprintf("\nran at %v", rec.runs) }
		if len(rec.runs) > 1 {
			return bad("ran-twice", "scheduled function %d ran %d times\n%s", i, len(rec.runs), trace())
		}
		if len(rec.runs) == 1 {
			if rec.obj != pobjs[i] && !(golisp.ObjectP(rec.obj) && golisp.ObjectValue(rec.obj) == golisp.ObjectValue(pobjs[i])) {
				return bad("process-object", "scheduled function %d received another process object than schedule returned", i)
			}
			if rec.x != forkEnc(s.Op.A[3]) {
				return bad("args", "scheduled function %d received %s instead of %s", i, rec.x, forkExpr(s.Op.A[3]))
			}
			if rec.late {
				return bad("late", "scheduled function %d went on after a failure", i)
			}
		}
		// lower bound and certainty
		low := s.InvT + delay
		never, maybe := false, false
		for _, h := range l {
			switch h.Op.K {
			case "reset":
				if h.Out == "\"OK\"" && h.RetT < low && h.InvT+delay > low {
					low = h.InvT + delay
				}
			case "abandon":
				maybe = true
				if h.RetT < low {
					never = true
				}
			}
		}
		switch {
		case len(rec.runs) == 1 && never:
			return bad("ran-after-abandon", "scheduled function %d ran although it was abandoned before its deadline\n%s", i, trace())
		case len(rec.runs) == 1 && rec.runs[0] < low:
			return bad("early", "scheduled function %d ran at %d, before %d\n%s", i, rec.runs[0], low, trace())
		case len(rec.runs) == 0 && !maybe:
			return bad("never-ran", "scheduled function %d never ran\n%s", i, trace())
		}
		if exact {
			const dead = int64(-1)
			set := map[int64]bool{s.RetT + delay: true}
			for n, h := range l {
				if h.Op.K == "join" {
					continue
				}
				nx := map[int64]bool{}
				t := h.RetT
				for d := range set {
					switch {
					case d == dead || d < t:
						nx[d] = true
					default:
						if h.Op.K == "reset" {
							nx[t+delay] = true
						} else {
							nx[dead] = true
						}
						if d == t {
							nx[d] = true
						}
					}
				}
				if h.Op.K == "reset" && h.Out != "\"OK\"" {
					// Refused: right when over, or when another reset of the same moment is waiting.
					other, over := false, false
					for m, o := range l {
						if m != n && o.Op.K == "reset" && o.RetT == t {
							other = true
						}
					}
					for d := range set {
						if d == dead || d <= t {
							over = true
						}
					}
					if !other && !over {
						return bad("reset-refused", "%v is refused although the function has not run yet\n%s", h, trace())
					}
				}
				set = nx
			}
			if len(rec.runs) == 1 && !set[rec.runs[0]] {
				return bad("not-on-time", "scheduled function %d ran at %d, expected one of %v\n%s", i, rec.runs[0], keysOf(set), trace())
			}
			if len(rec.runs) == 0 && !set[dead] {
				return bad("never-ran", "scheduled function %d never ran, expected at %v\n%s", i, keysOf(set), trace())
			}
		}
		// joins
		ok, errs := 0, 0
		for _, h := range l {
			if h.Op.K != "join" {
				continue
			}
			if h.Err != "" {
				errs++
				continue
			}
			ok++
			want := "()"
			if len(rec.runs) == 1 {
				x := forkEnc(s.Op.A[3])
				switch s.Op.A[1] {
				case 1, 2, 9:
				case 3:
					want = fmt.Sprintf("(self () %s)", x)
				case 8:
					want = fmt.Sprintf("(%d %s)", i, x)
				case 10:
					want = fmt.Sprintf("(r #f %s)", x)
				default:
					want = fmt.Sprintf("(r %d %s)", i, x)
				}
			}
			if h.Out != want {
				return bad("join-value", "%v, expected %s\n%s", h, want, trace())
			}
			if len(rec.runs) == 1 && h.RetT < rec.runs[0] {
				return bad("join-early", "%v before the function ran\n%s", h, trace())
			}
			if exact && len(rec.runs) == 1 && s.Op.A[1] != 13 {
				end := rec.runs[0]
				switch s.Op.A[1] {
				case 4:
					end += ms(s.Op.A[3] + 1)
				case 10:
					end += ms(2)
				}
				if end < h.InvT {
					end = h.InvT
				}
				if h.RetT != end {
					return bad("join-late", "%v, expected to return at %d\n%s", h, end, trace())
				}
			}
		}
		if ok+errs > 0 && ok != 1 {
			return bad("join-count", "scheduled process %d was joined %d times with and %d times without success\n%s", i, ok, errs, trace())
		}
		if s.Op.A[1] == 7 && len(rec.runs) == 1 {
			n := get(i + 1000)
			if len(n.runs) != 1 || n.runs[0] < rec.runs[0]+ms(s.Op.A[3]) || exact && n.runs[0] != rec.runs[0]+ms(s.Op.A[3]) {
				return bad("nested", "the function scheduled by process %d with delay %d ran at %v, scheduled at %v", i, s.Op.A[3], n.runs, rec.runs)
			}
		}
	}
	for i := range recs {
		if i >= 700 && i < 1000 && len(recs[i].runs) > 0 {
			return bad("misuse-ran", "a wrongly scheduled function ran")
		}
	}
	if len(alive) > 0 {
		return bad("left-over", "still running or blocked at the end: %v", alive)
	}
	return nil
}

func keysOf(m map[int64]bool) []int64 {
	var l []int64
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
