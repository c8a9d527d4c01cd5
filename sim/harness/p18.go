package main

import (
	"fmt"
	"strconv"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C18: sleeping and measuring time.

func init() {
	register(&Prop{ID: "C18", Gen: genTimes, Run: runTimes, Quick: 100000, Thorough: 5000000,
		Rule: "a run is 1-5 processes sleeping, timing nested sleeps, computations, failing expressions and joins, reading the wall clock and computing, under jumps of the wall clock in both directions and, in part of the runs, stalls or a cost per step; non-trivial when something slept or was timed"})
}

func genTimes(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nc := 1 + r.Intn(5)
	w.set("lisp", int64(r.Intn(2)))
	w.set("off", int64(r.Intn(1000000)))
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 1 + r.Intn(6); n > 0; n-- {
			d := int64(r.Intn(25))
			switch r.Intn(12) {
			case 0:
				d = 0
			case 1:
				d = -int64(r.Intn(5))
			case 2:
				d = []int64{1000, 60000, 86400000, 40, 1 << 31, 1<<31 + 7, 1<<32 + 3, 4000000, 32768, 65537}[r.Intn(10)]
			}
			k := []string{"sleep", "sleep", "sleep", "time", "time", "timed", "times", "timework", "timefail", "timejoin", "millis", "millis", "work", "pause", "bad"}[r.Intn(15)]
			ops = append(ops, Op{K: k, A: []int64{d, int64(r.Intn(10))}})
			if k == "pause" {
				ops[len(ops)-1].A[0] = int64(r.Intn(20)) * 333333
			}
		}
		w.Clients = append(w.Clients, ops)
	}
	if r.Intn(3) == 0 {
		addStalls(w, r, nc)
		if len(w.Stalls) == 0 {
			w.Cost = int64(r.Intn(4)) * 20000
		}
	}
	addJumps(w, r, 100000000)
	if r.Intn(2) == 0 {
		addJumps(w, r, 30000000)
	}
	return w
}

func runTimes(w *Workload, c *Ctx) *Violation {
	type rec struct{ w0, w1 int64 }
	recs := map[string]*rec{}
	key := func(cl, i int) string { return fmt.Sprint(cl, ".", i) }
	e := c.Sim(Opt{W: w, Root: func(e *Exec) {
		simrt.SleepNS(w.n("off"))
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			r := &rec{}
			recs[key(cl, i)] = r
			src := ""
			d, m := op.A[0], op.A[1]
			switch op.K {
			case "sleep":
				src = fmt.Sprintf("(sleep %d)", d)
			case "time":
				src = fmt.Sprintf("(time (sleep %d))", d)
			case "timed":
				src = fmt.Sprintf("(let ((x (time (sleep %d)))) (sleep %d) x)", d, m)
			case "times":
				src = fmt.Sprintf("(time (begin (sleep %d) (time (sleep %d))))", d, m)
			case "timework":
				src = "(time (fold-left + 0 '(1 2 3 4)))"
			case "timefail":
				src = fmt.Sprintf("(time (begin (sleep %d) (error \"timed\") (sleep 50)))", d)
			case "timejoin":
				src = fmt.Sprintf("(time (join (fork (lambda (p) (sleep %d)))))", d)
			case "millis":
				src = "(millis)"
			case "work":
				src = "(fold-left + 0 (map (lambda (x) (* x x)) '(1 2 3)))"
			case "bad":
				src = []string{"(sleep \"1\")", "(sleep 1.5)", "(sleep 'a)", "(sleep '(1))", "(sleep #t)"}[m%5]
			}
			x := parse(src)
			for _, h := range e.Hist {
				if h.Client == cl && h.Idx == i {
					h.InvT = simrt.NowNS()
				}
			}
			r.w0 = simrt.WallNS()
			v, err := golisp.Eval(x, e.Env)
			r.w1 = simrt.WallNS()
			return v, err
		})
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	exact := len(w.Stalls) == 0 && w.Cost == 0
	c.Trivial = true
	for _, h := range e.Hist {
		if h.Ret == 0 {
			return bad("blocked", "%v never returns", h)
		}
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		k := h.Op.K
		if (h.Err != "") != (k == "bad" || k == "timefail") {
			return bad("error", "%v: %q", h, h.Err)
		}
		if k == "timefail" && !strings.Contains(h.Err, "timed") {
			return bad("error", "%v: %q", h, h.Err)
		}
		took := h.RetT - h.InvT
		want := int64(0) // ms the operation takes
		says := int64(0) // ms it reports
		ms := func(d int64) int64 {
			if d < 0 {
				return 0
			}
			return d
		}
		d, m := ms(h.Op.A[0]), ms(h.Op.A[1])
		switch k {
		case "sleep", "timefail":
			want = d
		case "time", "timejoin":
			want, says = d, d
		case "timed":
			want, says = d+m, d
		case "times":
			want, says = d+m, d+m
		}
		if k != "millis" && k != "work" && k != "bad" {
			c.Trivial = false
		}
		if took < want*1000000 {
			return bad("early", "%v took %d ns", h, took)
		}
		if exact && took != want*1000000 {
			return bad("late", "%v took %d ns", h, took)
		}
		if strings.HasPrefix(k, "time") && k != "timefail" {
			n, err := strconv.ParseInt(h.Out, 10, 64)
			if err != nil {
				return bad("time", "%v is not a number", h)
			}
			if n < says || n > took/1000000 || exact && n != says {
				return bad("time", "%v reports %d ms when %d ns went by", h, n, took)
			}
		}
		if k == "millis" {
			n, _ := strconv.ParseInt(h.Out, 10, 64)
			r := recs[key(h.Client, h.Idx)]
			a, b := r.w0/1000000, r.w1/1000000
			jumped := r.w1-r.w0 != took
			if !jumped && (n < a || n > b) {
				return bad("millis", "%v: the wall clock shows %d to %d", h, a, b)
			}
		}
	}
	return nil
}
