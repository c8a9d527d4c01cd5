package main

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C06: frame slots.

func init() {
	register(&Prop{ID: "C06", Gen: genSlots, Run: runSlots, Quick: 60000, Thorough: 2500000,
		Rule: "a run is 2-4 clients doing 2-6 slot reads, writes, existence tests, removals (function and shorthand forms), parent changes and variable references and assignments inside methods on 1-4 frames in a random inheritance graph (none, chain, diamond, cycle, parents that are not frames); non-trivial when two clients touched one slot name and one of them changed it"})
}

// Slot names: 0,1 plain; 2-4 parents.
var slotNames = []string{"aa", "bb", "pp*", "qq*", "oo*"}

const nSlots = 5

func genSlots(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nf := 1 + r.Intn(5)
	nc := 2 + r.Intn(3)
	pick := swarm(r, 20)
	w.set("nf", int64(nf))
	w.set("lisp", int64(r.Intn(2)))
	outer := int64(r.Intn(2)) // variables of the slots' names outside of the methods
	w.set("outer", outer)
	uniq := int64(100)
	// set-up: client 0's first ops are run sequentially before the clients.
	var setup []Op
	shape := r.Intn(6)
	for f := 0; f < nf; f++ {
		for s := 0; s < 2; s++ {
			if r.Intn(3) == 0 {
				uniq++
				k := "set"
				if r.Intn(5) == 0 {
					k = "void"
				}
				setup = append(setup, Op{K: k, A: []int64{int64(f), int64(s), uniq}})
			}
		}
		par := func(s, g int) {
			setup = append(setup, Op{K: "setp", A: []int64{int64(f), int64(s), int64(g)}})
		}
		switch shape {
		case 0: // chain
			if f+1 < nf {
				par(2, f+1)
			}
		case 1: // cycle
			par(2, (f+1)%nf)
		case 2: // diamond
			if f == 0 && nf > 2 {
				par(2, 1)
				par(3, 2)
				if nf > 3 && r.Intn(2) == 0 {
					par(4, 3)
				}
			} else if f < nf-1 {
				par(2, nf-1)
			}
		case 3: // random
			par(2, r.Intn(nf))
			if r.Intn(2) == 0 {
				par(3, r.Intn(nf))
			}
			if r.Intn(2) == 0 {
				par(4, r.Intn(nf))
			}
		case 4:
			if r.Intn(2) == 0 {
				par(2+r.Intn(3), r.Intn(nf))
			}
		}
	}
	w.Clients = append(w.Clients, setup)
	focus := int64(r.Intn(2))
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 2 + r.Intn(4); n > 0; n-- {
			f := int64(r.Intn(nf))
			if r.Intn(2) == 0 {
				f = 0
			}
			s := focus
			if r.Intn(4) == 0 {
				s = 1 - s
			}
			uniq++
			form := int64(r.Intn(2))
			switch k := pick(r); {
			case k < 4:
				ops = append(ops, Op{K: "get", A: []int64{f, s, form}})
			case k < 6:
				ops = append(ops, Op{K: "getnil", A: []int64{f, s}})
			case k < 8:
				ops = append(ops, Op{K: "has", A: []int64{f, s, form}})
			case k < 11:
				v := uniq
				switch r.Intn(12) {
				case 0:
					v = 0 // nil
				case 1:
					v = -1 // no value
				}
				ops = append(ops, Op{K: "set", A: []int64{f, s, v, form}})
			case k < 14:
				ops = append(ops, Op{K: "remove", A: []int64{f, s}})
			case k < 16:
				ops = append(ops, Op{K: "ref", A: []int64{f, s, outer}})
			case k < 18 && outer == 0:
				v := uniq
				if r.Intn(10) == 0 {
					v = -1
				}
				ops = append(ops, Op{K: "assign", A: []int64{f, s, v}})
			case k < 18:
				ops = append(ops, Op{K: "ref", A: []int64{f, s, outer}})
			case k < 19:
				ops = append(ops, Op{K: "setp", A: []int64{f, int64(2 + r.Intn(3)), int64(r.Intn(nf+1) - 1)}})
			default:
				ops = append(ops, Op{K: "remove", A: []int64{f, int64(2 + r.Intn(3))}})
			}
		}
		w.Clients = append(w.Clients, ops)
	}
	addStalls(w, r, nc)
	return w
}

func slotExpr(op Op) string {
	a := op.A
	s := slotNames[a[1]]
	f := fmt.Sprintf("f%d", a[0])
	form := len(a) > 2 && a[len(a)-1] == 1
	switch op.K {
	case "get":
		if form {
			return fmt.Sprintf("(%s: %s)", s, f)
		}
		return fmt.Sprintf("(get-slot %s %s:)", f, s)
	case "getnil":
		return fmt.Sprintf("(get-slot-or-nil %s %s:)", f, s)
	case "has":
		if form {
			return fmt.Sprintf("(%s:? %s)", s, f)
		}
		return fmt.Sprintf("(has-slot? %s %s:)", f, s)
	case "set":
		v := fmt.Sprint(a[2])
		switch a[2] {
		case 0:
			v = "nil"
		case -1:
			v = "(if #f 1)"
		}
		if len(a) > 3 && a[3] == 1 {
			return fmt.Sprintf("(%s:! %s %s)", s, f, v)
		}
		return fmt.Sprintf("(set-slot! %s %s: %s)", f, s, v)
	case "setp":
		if a[2] < 0 {
			return fmt.Sprintf("(begin (set-slot! %s %s: 7) nil)", f, s)
		}
		return fmt.Sprintf("(begin (set-slot! %s %s: f%d) nil)", f, s, a[2])
	case "remove":
		return fmt.Sprintf("(remove-slot! %s %s:)", f, s)
	case "ref":
		return fmt.Sprintf("(send %s ref-%s:)", f, s)
	case "void": // in the set-up only
		return fmt.Sprintf("(begin (set-slot! %s %s: 1) (send %s void-%s:) nil)", f, s, f, s)
	case "assign":
		if a[2] == -1 {
			return fmt.Sprintf("(send %s void-%s:)", f, s)
		}
		return fmt.Sprintf("(send %s assign-%s: %d)", f, s, a[2])
	}
	return ""
}

// slotState is the reference: frame*nSlots+slot -> "" missing, "n" nil, "v" no value, value,
// "F<i>" a frame.
type slotState []string

func (st slotState) enc() string { return strings.Join(st, ",") }

// find returns the candidates for a lookup; none when the slot is not found.
func (st slotState) find(f, s int64) []string {
	if v := st[f*nSlots+s]; v != "" {
		return []string{v}
	}
	var out []string
	seen := map[int64]bool{f: true}
	todo := []int64{f}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for p := int64(2); p < nSlots; p++ {
			v := st[x*nSlots+p]
			if !strings.HasPrefix(v, "F") {
				continue
			}
			g := int64(v[1] - '0')
			if seen[g] {
				continue
			}
			seen[g] = true
			if u := st[g*nSlots+s]; u != "" {
				out = append(out, u)
			} else {
				todo = append(todo, g)
			}
		}
	}
	return out
}

func slotVal(v string) string {
	switch {
	case v == "n" || v == "v":
		return "()"
	case strings.HasPrefix(v, "F"):
		return "<frame>"
	}
	return v
}

func slotStep(st string, ev *Ev) (bool, string) {
	s := slotState(strings.Split(st, ","))
	a := ev.Op.A
	oneOf := func(l []string) bool {
		for _, v := range l {
			if slotVal(v) == ev.Out {
				return true
			}
		}
		return false
	}
	with := func(v string) string {
		n := append(slotState{}, s...)
		n[a[0]*nSlots+a[1]] = v
		return n.enc()
	}
	switch ev.Op.K {
	case "get":
		c := s.find(a[0], a[1])
		if len(c) == 0 {
			return ev.Err != "", st
		}
		return oneOf(c), st
	case "getnil", "ref":
		c := s.find(a[0], a[1])
		if len(c) == 0 {
			if len(a) > 2 && a[2] == 1 {
				return ev.Out == "outer", st
			}
			return ev.Out == "()", st
		}
		return oneOf(c), st
	case "has":
		if len(s.find(a[0], a[1])) == 0 {
			return ev.Out == "#f", st
		}
		return ev.Out == "#t", st
	case "set":
		v := fmt.Sprint(a[2])
		switch a[2] {
		case 0:
			v = "n"
		case -1:
			v = "v"
		}
		return ev.Out == slotVal(v), with(v)
	case "void":
		return ev.Out == "()", with("v")
	case "setp":
		v := "7"
		if a[2] >= 0 {
			v = fmt.Sprintf("F%d", a[2])
		}
		return ev.Out == "()", with(v)
	case "remove":
		if s[a[0]*nSlots+a[1]] == "" {
			return ev.Out == "#f", st
		}
		return ev.Out == "#t", with("")
	case "assign":
		if len(s.find(a[0], a[1])) == 0 {
			return ev.Err != "", st
		}
		v := fmt.Sprint(a[2])
		if a[2] == -1 {
			v = "v"
		}
		return ev.Out == slotVal(v), with(v)
	}
	return false, st
}

const slotMethods = `
(define (slot-frame) (make-frame
  ref-aa: (lambda () aa) ref-bb: (lambda () bb)
  void-aa: (lambda () (set! aa (if #f 1))) void-bb: (lambda () (set! bb (if #f 1)))
  assign-aa: (lambda (v) (set! aa v)) assign-bb: (lambda (v) (set! bb v))))
`

func runSlots(w *Workload, c *Ctx) *Violation {
	nf := int(w.n("nf"))
	if nf < 1 {
		nf = 1
	}
	fit := func(op Op) Op {
		if op.A[0] >= int64(nf) || op.K == "ref" && w.n("outer") != op.A[2] || op.K == "assign" && w.n("outer") != 0 || op.K == "setp" && op.A[2] >= int64(nf) {
			op.K = "skip"
		}
		return op
	}
	st := make(slotState, nf*nSlots)
	init := st.enc()
	exprs := make([][]*D, len(w.Clients))
	cl := &Workload{}
	*cl = *w
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		if w.n("outer") == 1 {
			e.must("(begin (define aa 'outer) (define bb 'outer))")
		}
		e.must(slotMethods)
		for f := 0; f < nf; f++ {
			e.must(fmt.Sprintf("(define f%d (slot-frame))", f))
		}
		if len(w.Clients) == 0 {
			return
		}
		for i, ops := range w.Clients {
			for _, op := range ops {
				op = fit(op)
				src := slotExpr(op)
				if src == "" {
					src = "nil"
				}
				exprs[i] = append(exprs[i], parse(src))
				if i == 0 && op.K != "skip" {
					e.must(src)
					ok, n := slotStep(init, &Ev{Op: op, Out: slotVal(fmt.Sprint(op.A[2]))})
					if op.K == "setp" || op.K == "void" {
						ok, n = slotStep(init, &Ev{Op: op, Out: "()"})
					}
					if !ok {
						panic("harness: set-up step " + op.String())
					}
					init = n
				}
			}
		}
	}, Root: func(e *Exec) {
		saved := e.W
		run := *w
		run.Clients = append([][]Op{nil}, w.Clients[min(1, len(w.Clients)):]...)
		e.W = &run
		e.RunClients(w.n("lisp") == 1, func(c, i int, op Op) (*D, error) {
			return golisp.Eval(exprs[c][i], e.Env)
		})
		e.W = saved
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	var hist []*Ev
	touched := map[int64]map[int]bool{}
	changed := map[int64]bool{}
	for _, h := range e.Hist {
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		if h.Ret == 0 {
			return bad("blocked", "%v never returns\n%s", h, histText(e.Hist))
		}
		if fit(h.Op).K == "skip" {
			continue
		}
		s := h.Op.A[1]
		if touched[s] == nil {
			touched[s] = map[int]bool{}
		}
		touched[s][h.Client] = true
		if h.Op.K != "get" && h.Op.K != "getnil" && h.Op.K != "has" && h.Op.K != "ref" {
			changed[s] = true
		}
		hist = append(hist, h)
	}
	c.Trivial = true
	for s := range touched {
		if len(touched[s]) > 1 && changed[s] {
			c.Trivial = false
		}
	}
	c.stat("ops", int64(len(hist)))
	why, gave := Linearizable(&Model{Init: init, Step: slotStep}, hist, 300000)
	if gave {
		c.stat("lin-gave-up", 1)
	}
	if why != "" {
		return bad("not-linearizable", "frames initially %s (slots of each: %v): %s\nhistory:\n%s", init, slotNames, why, histText(hist))
	}
	return nil
}

var _ = sort.Strings
var _ = simrt.Seq
