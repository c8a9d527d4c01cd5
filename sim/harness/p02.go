package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"verifsim/golisp"
)

// C02: atomics.

func init() {
	register(&Prop{ID: "C02", Gen: genAtomic, Run: runAtomic, Quick: 150000, Thorough: 6000000,
		Rule: "a run is 1-5 clients doing 2-20 load/store/add/swap/compare-and-swap operations on 1-3 atomics (including Lisp-level increment loops and compare-and-swap retry loops, aliases of the atomics in frames, lists and closures, and rejected operations, which must change nothing); non-trivial when two clients used one atomic"})
}

var intPool = []int64{0, 1, -1, 2, 3, 5, 7, 100, -100, 1 << 31, -(1 << 31), 1<<32 + 5, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 255, 256, 65536}

func genAtomic(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	na := 1 + r.Intn(3)
	if r.Intn(12) == 0 {
		na = 4 + r.Intn(9)
	}
	w.set("na", int64(na))
	val := func() int64 {
		if r.Intn(2) == 0 {
			return int64(r.Intn(4))
		}
		return intPool[r.Intn(len(intPool))]
	}
	for i := 0; i < na; i++ {
		w.set(fmt.Sprint("init", i), val())
		w.set(fmt.Sprint("noinit", i), int64(r.Intn(4)/3))
	}
	w.set("lisp", int64(r.Intn(2)))
	nc := 1 + r.Intn(5)
	total := 4 + r.Intn(18)
	w.Clients = make([][]Op, nc)
	pick := swarm(r, 13)
	for k := 0; k < total; k++ {
		c := r.Intn(nc)
		a := int64(r.Intn(na))
		var op Op
		switch pick(r) {
		case 12:
			op = Op{K: "bad", A: []int64{a, int64(r.Intn(8)), val()}}
			if r.Bool(1, 2) {
				op = Op{K: "bad", A: []int64{a, 8, 0}, S: []string{misuse("atomic", r)}}
				w.Clients[c] = append(w.Clients[c], op)
				continue
			}
		case 0, 1:
			op = Op{K: "load", A: []int64{a}}
		case 2:
			op = Op{K: "store", A: []int64{a, val()}}
		case 3, 4, 5:
			op = Op{K: "add", A: []int64{a, val()}}
		case 6, 7:
			op = Op{K: "swap", A: []int64{a, val()}}
		case 8, 9, 10:
			op = Op{K: "cas", A: []int64{a, val(), val()}}
		default:
			op = Op{K: "casinc", A: []int64{a}}
		}
		if r.Intn(3) == 0 {
			op.S = []string{[]string{"(car atl%d)", "(get-slot atf at%d:)", "(at%d: atf)", "(atc%d)", "(let ((x at%d)) x)"}[r.Intn(5)]}
		}
		w.Clients[c] = append(w.Clients[c], op)
	}
	addStalls(w, r, nc)
	return w
}

func atomExpr(op Op) *D {
	if op.K == "bad" && op.A[1] == 8 {
		return parse(op.S[0])
	}
	a := sym(fmt.Sprintf("at%d", op.A[0]))
	if len(op.S) > 0 {
		a = parse(fmt.Sprintf(op.S[0], op.A[0]))
	}
	switch op.K {
	case "bad":
		v := num(op.A[2])
		switch op.A[1] {
		case 0:
			return call("atomic-store!", a, str("7"))
		case 1:
			return call("atomic-add!", a, golisp.FloatWithValue(1.5))
		case 2:
			return call("atomic-swap!", a, parse("'sym"))
		case 3:
			return call("atomic-compare-and-swap!", a, v, parse("'(1)"))
		case 4:
			return call("atomic-compare-and-swap!", a, str("x"), v)
		case 5:
			return call("atomic-store!", a, a)
		case 6:
			return call("atomic-add!", a, parse("(no-such-function 1)"))
		}
		return call("atomic-swap!", a)
	case "load":
		return call("atomic-load", a)
	case "store":
		return call("atomic-store!", a, num(op.A[1]))
	case "add":
		return call("atomic-add!", a, num(op.A[1]))
	case "swap":
		return call("atomic-swap!", a, num(op.A[1]))
	case "cas":
		return call("atomic-compare-and-swap!", a, num(op.A[1]), num(op.A[2]))
	}
	return nil
}

func runAtomic(w *Workload, c *Ctx) *Violation {
	na := int(w.n("na"))
	init := make([]int64, na)
	var exprs [][]*D
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		for i := 0; i < na; i++ {
			if w.n(fmt.Sprint("noinit", i)) == 1 {
				e.must(fmt.Sprintf("(define at%d (atomic))", i))
			} else {
				init[i] = w.n(fmt.Sprint("init", i))
				e.Env.BindLocallyTo(sym("tmp"), num(init[i]))
				e.must(fmt.Sprintf("(define at%d (atomic tmp))", i))
			}
		}
		e.must("(define atf (make-frame))")
		for i := 0; i < na; i++ {
			e.must(strings.Replace("(begin (define atl# (list at#)) (define (atc#) at#) (set-slot! atf at#: at#))", "#", fmt.Sprint(i), -1))
		}
		for _, cl := range w.Clients {
			var l []*D
			for _, op := range cl {
				l = append(l, atomExpr(op))
			}
			exprs = append(exprs, l)
		}
	}, Root: func(e *Exec) {
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			if op.K == "casinc" {
				// increment by retrying: recorded as its own elementary operations
				for k := 0; ; k++ {
					ld := Op{K: "load", A: op.A, S: op.S}
					ev := e.Do(cl, i, ld, func() (*D, error) { return golisp.Eval(atomExpr(ld), e.Env) })
					n, err := strconv.ParseInt(ev.Out, 10, 64)
					if err != nil {
						return nil, nil
					}
					cs := Op{K: "cas", A: []int64{op.A[0], n, n + 1}, S: op.S}
					ev = e.Do(cl, i, cs, func() (*D, error) { return golisp.Eval(atomExpr(cs), e.Env) })
					if ev.Out == "#t" || k > 20 {
						return nil, nil
					}
				}
			}
			return golisp.Eval(exprs[cl][i], e.Env)
		})
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	per := make([][]*Ev, na)
	cl := make([]map[int]bool, na)
	for i := range cl {
		cl[i] = map[int]bool{}
	}
	for _, h := range e.Hist {
		if h.Op.K == "casinc" {
			continue
		}
		if h.Op.K == "bad" && h.Panic == "" {
			if h.Err == "" && h.Ret != 0 {
				return bad("accepted", "an unsuitable operation is accepted: %v", h)
			}
			if h.Ret != 0 {
				continue
			}
		}
		if h.Panic != "" || h.Err != "" {
			return bad("atomic-error", "an atomic operation fails: %v", h)
		}
		if h.Ret == 0 {
			return bad("atomic-blocked", "an atomic operation never returns: %v", h)
		}
		a := int(h.Op.A[0])
		per[a] = append(per[a], h)
		cl[a][h.Client] = true
	}
	c.Trivial = true
	for a := 0; a < na; a++ {
		if len(cl[a]) > 1 {
			c.Trivial = false
		}
		c.stat("ops", int64(len(per[a])))
		m := &Model{Init: fmt.Sprint(init[a]), Step: atomStep}
		why, gave := Linearizable(m, per[a], 400000)
		if gave {
			c.stat("lin-gave-up", 1)
		}
		if why != "" {
			return bad("not-linearizable", "atomic %d (initially %d): %s\nhistory:\n%s", a, init[a], why, histText(per[a]))
		}
	}
	return nil
}

func atomStep(st string, ev *Ev) (bool, string) {
	cur, _ := strconv.ParseInt(st, 10, 64)
	f := func(n int64) string { return strconv.FormatInt(n, 10) }
	switch ev.Op.K {
	case "load":
		return ev.Out == st, st
	case "store":
		return true, f(ev.Op.A[1])
	case "add":
		n := f(cur + ev.Op.A[1])
		return ev.Out == n, n
	case "swap":
		return ev.Out == st, f(ev.Op.A[1])
	case "cas":
		if cur == ev.Op.A[1] {
			return ev.Out == "#t", f(ev.Op.A[2])
		}
		return ev.Out == "#f", st
	}
	return false, st
}

var _ = strings.Join
