package main

import (
	"fmt"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C05: proc-sleep and wake.

func init() {
	register(&Prop{ID: "C05", Gen: genWake, Run: runWake, Quick: 200000, Thorough: 8000000,
		Rule: "a run is 1-5 processes sleeping (0-12 ms, also negative, in part of the runs up to 12 days) on their own or, in part of the runs, each other's process objects, or those of finished, waiting and abandoned processes, and waking each other singly or in bursts at times before, at and after the timeouts, with stalls, a cost per step and wall clock jumps in part of the runs; non-trivial when a sleep and a wake met on one process object"})
}

func genWake(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nc := 1 + r.Intn(4)
	if r.Intn(2) == 0 {
		nc = 2
	}
	foreign := r.Intn(4) == 0
	targets := nc
	if r.Intn(2) == 0 {
		targets = 1 + r.Intn(nc)
	}
	half := []int64{500000, 1000000}[r.Intn(2)]
	scale := int64(1)
	if r.Intn(4) == 0 {
		scale = []int64{10, 1000, 60000, 86400000}[r.Intn(4)]
		half *= scale
	}
	extra := 0
	if foreign {
		extra = r.Intn(4)
	}
	w.set("extra", int64(extra))
	w.Clients = make([][]Op, nc)
	for c := range w.Clients {
		n := 1 + r.Intn(7)
		for i := 0; i < n; i++ {
			switch k := r.Intn(10); {
			case k < 4 && (c < targets || foreign):
				t := int64(c)
				if foreign {
					t = int64(r.Intn(nc + extra))
				}
				d := int64(r.Intn(6))
				if r.Intn(8) == 0 {
					d = []int64{0, 0, -1, 12}[r.Intn(4)]
				}
				w.Clients[c] = append(w.Clients[c], Op{K: "sleep", A: []int64{t, d * scale}})
			case k < 8:
				m := 1
				if r.Intn(4) == 0 {
					m = 2
				}
				t := int64(r.Intn(targets))
				if extra > 0 && r.Intn(2) == 0 {
					t = int64(nc + r.Intn(extra))
				}
				for ; m > 0; m-- {
					w.Clients[c] = append(w.Clients[c], Op{K: "wake", A: []int64{t}})
				}
			case k < 9:
				w.Clients[c] = append(w.Clients[c], Op{K: "pause", A: []int64{int64(r.Intn(10)) * half}})
			default:
				if r.Intn(6) == 0 {
					w.Clients[c] = append(w.Clients[c], Op{K: "misuse", A: []int64{4}, S: []string{misuse("process", r)}})
				} else if r.Intn(6) == 0 {
					w.Clients[c] = append(w.Clients[c], Op{K: "misuse", A: []int64{int64(r.Intn(4))}})
				}
			}
		}
	}
	if r.Intn(2) == 0 {
		addStalls(w, r, nc)
		if r.Intn(2) == 0 {
			for n := r.Intn(3); n >= 0; n-- {
				w.Stalls = append(w.Stalls, simrt.StallSpec{Task: 1 + r.Intn(nc), At: int64(r.Intn(250)), Dur: int64(1+r.Intn(24)) * 500000})
			}
		}
		if len(w.Stalls) == 0 {
			w.Cost = int64(r.Intn(3)) * 2000
		}
	}
	addJumps(w, r, 20000000)
	return w
}

func runWake(w *Workload, c *Ctx) *Violation {
	nc := len(w.Clients)
	var others []*D
	e := c.Sim(Opt{W: w, Root: func(e *Exec) {
		for i := int64(0); i < w.n("extra"); i++ {
			d, _ := evalS(e.Env, []string{"(fork (lambda (p) 1))", "(schedule 3 (lambda (p) 1))", "(let ((p (schedule 5000 (lambda (p) 1)))) (abandon p) p)"}[i])
			others = append(others, d)
		}
		e.RunClients(true, func(cl, i int, op Op) (*D, error) {
			for len(e.Procs) < nc {
				simrt.SleepNS(500000)
			}
			a := op.A
			target := func() *D {
				if a[0] >= int64(nc) {
					return others[a[0]-int64(nc)]
				}
				return e.Procs[a[0]]
			}
			h := e.Hist[len(e.Hist)-1]
			for k := len(e.Hist) - 1; k >= 0; k-- {
				if e.Hist[k].Client == cl && e.Hist[k].Idx == i {
					h = e.Hist[k]
					break
				}
			}
			h.InvT, h.Inv = simrt.NowNS(), simrt.Seq()
			switch op.K {
			case "sleep":
				return golisp.Eval(call("proc-sleep", target(), num(a[1])), e.Env)
			case "wake":
				return golisp.Eval(call("wake", target()), e.Env)
			case "misuse":
				switch a[0] {
				case 4:
					return evalS(e.Env, op.S[0])
				case 0:
					return evalS(e.Env, "(wake 1)")
				case 1:
					return evalS(e.Env, "(wake (atomic 5))")
				case 2:
					return golisp.Eval(call("proc-sleep", e.Procs[cl], str("1")), e.Env)
				}
				return evalS(e.Env, "(proc-sleep 5 5)")
			}
			return nil, nil
		})
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	exact := len(w.Stalls) == 0 && w.Cost == 0
	per := make([][]*Ev, nc+int(w.n("extra")))
	for _, h := range e.Hist {
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		if h.Ret == 0 {
			return bad("blocked", "%v never returns", h)
		}
		if h.Op.K == "misuse" {
			if h.Err == "" {
				return bad("misuse", "%v is accepted", h)
			}
			continue
		}
		if h.Err != "" {
			return bad("error", "%v fails: %s", h, h.Err)
		}
		if h.Op.K == "wake" && exact && h.RetT != h.InvT {
			return bad("wake-slow", "%v took %d ns", h, h.RetT-h.InvT)
		}
		per[h.Op.A[0]] = append(per[h.Op.A[0]], h)
	}
	c.Trivial = true
	for p, l := range per {
		var sl, wk []*Ev
		for _, h := range l {
			if h.Op.K == "sleep" {
				sl = append(sl, h)
			} else {
				wk = append(wk, h)
			}
		}
		if len(sl) > 0 && len(wk) > 0 {
			c.Trivial = false
		}
		own := true
		for i, s := range sl {
			for _, o := range sl[i+1:] {
				if o.Inv < s.Ret && s.Inv < o.Ret {
					own = false
				}
			}
		}
		var adj []*Ev
		for _, h := range l {
			if h.Op.K != "sleep" {
				adj = append(adj, h)
				continue
			}
			d := h.Op.A[1] * 1000000
			if d < 0 {
				d = 0
			}
			if h.Out == "#f" {
				if h.RetT < h.InvT+d {
					return bad("short-sleep", "%v returned false after %d ns\n%s", h, h.RetT-h.InvT, histText(l))
				}
				if exact && h.RetT != h.InvT+d {
					return bad("long-sleep", "%v returned false after %d ns\n%s", h, h.RetT-h.InvT, histText(l))
				}
				// It decided at its timeout or later: wakes before that count.
				k := *h
				for _, x := range wk {
					if x.RetT < h.InvT+d && x.Ret > k.Inv && x.Ret < k.Ret {
						k.Inv = x.Ret
					}
				}
				adj = append(adj, &k)
				continue
			}
			if h.Out != "#t" {
				return bad("result", "%v", h)
			}
			if exact && h.RetT > h.InvT+d {
				return bad("long-sleep", "%v returned after %d ns\n%s", h, h.RetT-h.InvT, histText(l))
			}
			if exact && own && h.RetT != h.InvT {
				// woken while asleep: at the moment of the first wake since it fell asleep
				first := int64(-1)
				for _, x := range wk {
					if x.Inv > h.Inv && (first < 0 || x.InvT < first) {
						first = x.InvT
					}
				}
				if first != h.RetT {
					return bad("late-wake", "%v was woken at %d but the first wake since it fell asleep came at %d\n%s", h, h.RetT, first, histText(l))
				}
			}
			adj = append(adj, h)
		}
		m := &Model{Init: "0", Step: func(st string, ev *Ev) (bool, string) {
			if ev.Op.K == "wake" {
				return true, "1"
			}
			if ev.Out == "#t" {
				return st == "1", "0"
			}
			return st == "0", "0"
		}}
		why, gave := Linearizable(m, adj, 400000)
		if gave {
			c.stat("lin-gave-up", 1)
		}
		if why != "" {
			return bad("not-linearizable", "process %d: %s\n%s", p, why, histText(l))
		}
	}
	return nil
}

var _ = fmt.Sprint
