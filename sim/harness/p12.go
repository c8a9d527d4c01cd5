package main

import (
	"fmt"
	"strings"

	"verifsim/golisp"
)

// C12: failures at any step.

func init() {
	register(&Prop{ID: "C12", Gen: genFail, Run: runFail, Quick: 12000, Thorough: 800000,
		Rule: "a run is 1-3 generated programs of 1-3 statements over most special forms and higher-order built-ins; each is run once alone to record its steps, then all are run concurrently 3 times with 1-3 failures injected at random dynamic steps each (a failing primitive with or without a value, or a failing built-in); non-trivial when a failure was injected"})
}

func genFail(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	w.set("lisp", int64(r.Intn(2)))
	w.set("lib", int64(r.Intn(3)))
	for c := 1 + r.Intn(3); c > 0; c-- {
		g := &Gen{r: r, prog: len(w.Clients), wrap: 60, max: 40, Lib: true, Handlers: true, Natural: true, Define: true, Time: true, Iso: true}
		var ops []Op
		for n := 1 + r.Intn(3); n > 0; n-- {
			var s string
			g.Top()
			switch r.Intn(8) {
			case 0:
				v := g.fresh("i")
				s = fmt.Sprintf("(define %s %s)", v, g.I())
				g.ints = append(g.ints, v)
			case 1:
				v := g.fresh("l")
				s = fmt.Sprintf("(define %s %s)", v, g.L())
				g.lists = append(g.lists, v)
			case 2:
				s = fmt.Sprintf("(list %s %s %s)", g.library(), g.library(), g.library())
			case 3, 4:
				s = g.onError()
			default:
				s = g.U()
			}
			ops = append(ops, Op{K: "eval", S: []string{s}})
		}
		w.Clients = append(w.Clients, ops)
	}
	for i := 0; i < 9; i++ {
		w.set(fmt.Sprint("f", i), int64(r.Intn(1<<30)))
	}
	addStalls(w, r, 4)
	return w
}

type failEv struct {
	kind byte // t step, m mark, h handler, r result of a statement
	k, n int64
	val  string
	nat  string // the failure is a built-in's, with this in its message
}

func (e failEv) String() string {
	switch e.kind {
	case 't':
		return fmt.Sprintf("step %d = %s", e.k, e.val)
	case 'f':
		return fmt.Sprintf("step %d fails", e.k)
	case 'm':
		return fmt.Sprintf("mark %d.%d", e.k, e.n)
	case 'h':
		return fmt.Sprintf("handler %d: %s", e.k, e.val)
	}
	return fmt.Sprintf("statement %d: %s", e.k, e.val)
}

// failProg is one program's state in one execution.
type failProg struct {
	log   []failEv
	steps int
	fail  map[int]bool // dynamic steps that fail
}

func (c *Ctx) failExec(w *Workload, only int, faults []map[int]bool) (*Exec, []*failProg) {
	ps := make([]*failProg, len(w.Clients))
	exprs := make([][]*D, len(w.Clients))
	envs := make([]*Env, len(w.Clients))
	run := *w
	dead := make([]bool, len(w.Clients))
	o := Opt{W: &run, Setup: func(e *Exec) {
		step := func(a []*D, v *D) (*failProg, bool) {
			p := ps[golisp.IntegerValue(a[0])]
			k := golisp.IntegerValue(a[1])
			p.steps++
			if p.fail[p.steps] {
				p.log = append(p.log, failEv{kind: 'f', k: k})
				return p, true
			}
			p.log = append(p.log, failEv{kind: 't', k: k, val: encDeep(v)})
			return p, false
		}
		prim("h-t", func(a []*D, env *Env) (*D, error) {
			if p, fail := step(a, a[2]); fail {
				err := fmt.Errorf("injected%d.", p.steps)
				if p.steps%2 == 0 {
					return a[2], err
				}
				return nil, err
			}
			return a[2], nil
		})
		prim("h-f", func(a []*D, env *Env) (*D, error) {
			_, fail := step(a, golisp.LispFalse)
			return golisp.BooleanWithValue(fail), nil
		})
		prim("h-m", func(a []*D, env *Env) (*D, error) {
			p := ps[golisp.IntegerValue(a[0])]
			p.log = append(p.log, failEv{kind: 'm', k: golisp.IntegerValue(a[1]), n: golisp.IntegerValue(a[2])})
			return nil, nil
		})
		prim("h-h", func(a []*D, env *Env) (*D, error) {
			p := ps[golisp.IntegerValue(a[0])]
			p.log = append(p.log, failEv{kind: 'h', k: golisp.IntegerValue(a[1]), val: golisp.StringValue(a[2])})
			return nil, nil
		})
		golisp.ParseAndEvalAllInEnvironment(genLib, golisp.Global)
		for i := range w.Clients {
			ps[i] = &failProg{}
			if faults != nil {
				ps[i].fail = faults[i]
			}
			envs[i] = golisp.NewSymbolTableFrameBelow(golisp.Global, fmt.Sprint("prog", i))
			for _, op := range w.Clients[i] {
				exprs[i] = append(exprs[i], parse(op.S[0]))
			}
		}
	}, Root: func(e *Exec) {
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			if dead[cl] {
				return nil, nil
			}
			d, err := golisp.Eval(exprs[cl][i], envs[cl])
			ev := failEv{kind: 'r', k: int64(i), val: encDeep(d)}
			if err != nil {
				dead[cl] = true
				ev.val = "error " + err.Error()
			}
			ps[cl].log = append(ps[cl].log, ev)
			return d, err
		})
	}}
	if only >= 0 {
		run.Clients = make([][]Op, len(w.Clients))
		run.Clients[only] = w.Clients[only]
		o.Sequential, o.NoFaults, o.Cap = true, true, 100000
	}
	e := c.Sim(o)
	return e, ps
}

// failExpect computes what must happen from the run without failures.  The
// vals of handlers and results are texts the real ones must contain.
func failExpect(ref []failEv, fail map[int]bool) (out []failEv, injected int) {
	type open struct {
		k   int64
		pos int
	}
	var stack []open
	steps := 0
	for pos := 0; pos < len(ref); pos++ {
		ev := ref[pos]
		switch ev.kind {
		case 'm':
			switch ev.n {
			case 1:
				stack = append(stack, open{ev.k, pos})
			case 2:
				stack = stack[:len(stack)-1]
			}
			out = append(out, ev)
		case 't':
			steps++
			if !fail[steps] {
				out = append(out, ev)
				continue
			}
			injected++
			out = append(out, failEv{kind: 'f', k: ev.k})
			msg := fmt.Sprintf("injected%d.", steps)
			if ev.nat != "" {
				msg = strings.TrimPrefix(ev.nat, "any")
			}
			handled := false
			for len(stack) > 0 && !handled {
				o := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				// the handler expression
				steps++
				if fail[steps] {
					injected++
					out = append(out, failEv{kind: 'f', k: o.k + 1})
					msg = fmt.Sprintf("injected%d.", steps)
					continue
				}
				out = append(out, failEv{kind: 't', k: o.k + 1, val: "<function>"}, failEv{kind: 'h', k: o.k, val: msg})
				steps++
				if fail[steps] {
					injected++
					out = append(out, failEv{kind: 'f', k: o.k + 2})
					msg = fmt.Sprintf("injected%d.", steps)
					continue
				}
				out = append(out, failEv{kind: 't', k: o.k + 2, val: "0"})
				handled = true
				// go on behind this on-error
				depth := 0
				for pos = o.pos; ; pos++ {
					if ref[pos].kind == 'm' && ref[pos].k == o.k {
						if ref[pos].n == 1 {
							depth++
						}
						if ref[pos].n == 3 {
							depth--
							if depth == 0 {
								break
							}
						}
					}
				}
				pos-- // and see the mark itself
			}
			if !handled {
				// the statement fails
				for ; ref[pos].kind != 'r'; pos++ {
				}
				return append(out, failEv{kind: 'r', k: ref[pos].k, val: "error " + msg}), injected
			}
		default:
			out = append(out, ev)
		}
	}
	return out, injected
}

func failMatch(want, got failEv) bool {
	if want.kind != got.kind || want.k != got.k || want.n != got.n {
		return false
	}
	if want.kind == 'h' {
		return got.val != "" && strings.Contains(got.val, want.val)
	}
	if want.kind == 'r' && strings.HasPrefix(want.val, "error ") {
		m := strings.TrimPrefix(want.val, "error ")
		return strings.HasPrefix(got.val, "error ") && strings.Contains(got.val, m)
	}
	return want.val == got.val
}

func runFail(w *Workload, c *Ctx) *Violation {
	var refs [][]failEv
	src := func(i int) string {
		var l []string
		for _, op := range w.Clients[i] {
			l = append(l, op.S[0])
		}
		return strings.Join(l, "\n")
	}
	for i := range w.Clients {
		e, ps := c.failExec(w, i, nil)
		if e.Capped() {
			c.Trivial = true
			return nil
		}
		if v := e.Crash(); v != nil {
			return v
		}
		for _, h := range e.Hist {
			if h.Ret == 0 {
				return bad("blocked", "%v alone never returns", h)
			}
			if h.Panic != "" {
				c.Trivial = true
				return nil // a program that panics by itself
			}
		}
		l := ps[i].log
		for _, ev := range l {
			if ev.kind == 'h' {
				c.Trivial = true
				return nil
			}
		}
		refs = append(refs, l)
	}
	c.Trivial = true
	for round := 0; round < 3; round++ {
		faults := make([]map[int]bool, len(w.Clients))
		var want [][]failEv
		for i := range w.Clients {
			faults[i] = map[int]bool{}
			n := 0
			for _, ev := range refs[i] {
				if ev.kind == 't' {
					n++
				}
			}
			if n > 0 {
				f := w.n(fmt.Sprint("f", round*3+i%3))
				for x := 1 + f%3; x > 0; x-- {
					faults[i][1+int(f/7)%(n+2)] = true
					f = f/3*2 + 77
				}
				if f%5 == 0 {
					faults[i][faultList(faults[i])[0]+1] = true // in the handler
				}
			}
			x, n := failExpect(failNatural(refs[i], src(i), i), faults[i])
			want = append(want, x)
			if n > 0 {
				c.Trivial = false
			}
			c.stat("injected-failure", int64(n))
		}
		e, ps := c.failExec(w, -1, faults)
		if v := e.Crash(); v != nil {
			return v
		}
		for _, h := range e.Hist {
			if h.Ret == 0 {
				return bad("blocked", "%v never returns", h)
			}
			if h.Panic != "" {
				return bad("panic", "%v panics after a failure: %s", h, h.Panic)
			}
		}
		for i := range w.Clients {
			a, b := want[i], ps[i].log
			for j := 0; j < len(a) || j < len(b); j++ {
				if j < len(a) && j < len(b) && failMatch(a[j], b[j]) {
					continue
				}
				x, y, before := "(nothing more)", "(nothing more)", "the start"
				if j < len(a) {
					x = a[j].String()
				}
				if j < len(b) {
					y = b[j].String()
				}
				if j > 0 && j-1 < len(b) {
					before = b[j-1].String()
				}
				return bad("failure", "program %d, failing at %v: after %s\nmust come  %s\nbut came   %s\nprogram:\n%s", i, faultList(faults[i]), before, x, y, src(i))
			}
			c.stat("ops", int64(len(b)))
		}
	}
	return nil
}

// failNatural marks the steps whose failure is a built-in's.
func failNatural(ref []failEv, src string, prog int) []failEv {
	out := append([]failEv{}, ref...)
	for j := range out {
		if out[j].kind != 't' {
			continue
		}
		t := fmt.Sprintf("(h-f %d %d)", prog, out[j].k)
		if strings.Contains(src, t) {
			out[j].nat = "any"
			if m := fmt.Sprintf("boom%d.", out[j].k); strings.Contains(src, t+" (error \""+m) {
				out[j].nat = m
			}
		}
	}
	return out
}

func faultList(m map[int]bool) (l []int) {
	for i := 0; i < 100000 && len(l) < len(m); i++ {
		if m[i] {
			l = append(l, i)
		}
	}
	return
}
