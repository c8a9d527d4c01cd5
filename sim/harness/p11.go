package main

import (
	"fmt"
	"strings"

	"verifsim/golisp"
)

// C11: methods and the frames they run on.

func init() {
	register(&Prop{ID: "C11", Gen: genMethods, Run: runMethods, Quick: 40000, Thorough: 2500000,
		Rule: "a run is 2-4 clients sending messages to 2-4 frames (random inheritance) that share 3-5 function objects under 3 slot names, which are also called directly as global functions; the functions call each other by name, by send, super send, slot application, map, apply, in local variables, through lambdas and in forked processes, and write a slot; in a third of the runs some of the functions are made by methods of the frames; non-trivial when two clients called one function"})
}

// The functions are Text-encoded as client 0's ops:
//   {K:"slot", A:[frame, name, fn]}  {K:"par", A:[frame, parentslot, frame]}
//   {K:"fn", A:[fn, action kind, x, y, ...]}

const methNames = 3

func genMethods(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nf, nfn := 2+r.Intn(3), 3+r.Intn(3)
	w.set("nf", int64(nf))
	w.set("nfn", int64(nfn))
	w.set("lisp", int64(r.Intn(2)))
	var ops []Op
	for f := 0; f < nf; f++ {
		for m := 0; m < methNames; m++ {
			if r.Intn(5) < 3 {
				ops = append(ops, Op{K: "slot", A: []int64{int64(f), int64(m), int64(r.Intn(nfn))}})
			}
		}
		if f+1 < nf && r.Intn(4) > 0 {
			ops = append(ops, Op{K: "par", A: []int64{int64(f), 0, int64(f + 1 + r.Intn(nf-f-1))}})
			if r.Intn(3) == 0 {
				ops = append(ops, Op{K: "par", A: []int64{int64(f), 1, int64(f + 1 + r.Intn(nf-f-1))}})
			}
		} else if r.Intn(5) == 0 {
			ops = append(ops, Op{K: "par", A: []int64{int64(f), 0, int64(r.Intn(nf))}})
		}
	}
	kinds := []string{"name", "name", "send", "send", "short", "super", "supershort", "applyslot", "applysuper", "map", "apply", "global", "local", "lambda", "lambdafork", "write", "foreach", "forkfn", "letname", "doname", "handler", "sched", "evalname", "casename", "writeself", "letfn", "localmap", "localapply"}
	kind := swarm(r, len(kinds))
	homes := r.Intn(3) == 0
	for f := 0; f < nfn; f++ {
		if r.Intn(3) == 0 {
			ops = append(ops, Op{K: "var", A: []int64{int64(f), 0, 0, 0}})
		}
		if homes && r.Intn(2) == 0 { // made by a method of a frame
			ops = append(ops, Op{K: "home", A: []int64{int64(f), 0, int64(r.Intn(nf)), 0}})
		}
		for n := r.Intn(4); n > 0; n-- {
			k := kinds[kind(r)]
			ops = append(ops, Op{K: k, A: []int64{int64(f), int64(r.Intn(methNames)), int64(r.Intn(nf)), int64(r.Intn(nfn))}})
		}
	}
	w.Clients = append(w.Clients, ops)
	nc := 2 + r.Intn(3)
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 1 + r.Intn(3); n > 0; n-- {
			k := []string{"send", "send", "send", "short", "applyslot", "global", "map", "apply", "name"}[r.Intn(9)]
			ops = append(ops, Op{K: k, A: []int64{int64(1 + r.Intn(2)), int64(r.Intn(methNames)), int64(r.Intn(nf)), int64(r.Intn(nfn))}})
		}
		w.Clients = append(w.Clients, ops)
	}
	addStalls(w, r, nc)
	return w
}

// methAction is the Lisp for one action; d is the depth argument.
func methAction(k string, m, f, fn int64, d string) string {
	switch k {
	case "name":
		return fmt.Sprintf("(m%d c %s)", m, d)
	case "letname":
		return fmt.Sprintf("(let ((zz 1)) (m%d c %s))", m, d)
	case "send":
		return fmt.Sprintf("(send f%d m%d: c %s)", f, m, d)
	case "short":
		return fmt.Sprintf("(m%d:> f%d c %s)", m, f, d)
	case "super":
		return fmt.Sprintf("(send-super m%d: c %s)", m, d)
	case "supershort":
		return fmt.Sprintf("(m%d:^ c %s)", m, d)
	case "applyslot":
		return fmt.Sprintf("(apply-slot f%d m%d: c (list %s))", f, m, d)
	case "applysuper":
		return fmt.Sprintf("(apply-slot-super m%d: (list c %s))", m, d)
	case "map":
		return fmt.Sprintf("(map g%d (list c) (list %s))", fn, d)
	case "foreach":
		return fmt.Sprintf("(for-each g%d (list c) (list %s))", fn, d)
	case "apply":
		return fmt.Sprintf("(apply g%d (list c %s))", fn, d)
	case "global":
		return fmt.Sprintf("(g%d c %s)", fn, d)
	case "local":
		return fmt.Sprintf("(let ((lf g%d)) (lf c %s))", fn, d)
	case "localmap":
		return fmt.Sprintf("(let ((lf g%d)) (map lf (list c) (list %s)) (define lz c) (set! lz 2))", fn, d)
	case "localapply":
		return fmt.Sprintf("(let ((lf g%d)) (begin (apply lf (list c %s)) (set! lf 1) (define lf 2)))", fn, d)
	case "lambda":
		return fmt.Sprintf("((lambda (c e) (m%d c e)) c %s)", m, d)
	case "lambdafork":
		return fmt.Sprintf("(join (fork (lambda (p c e) (m%d c e)) c %s))", m, d)
	case "sched":
		return fmt.Sprintf("(join (schedule 1 (lambda (p c e) (m%d c e)) c %s))", m, d)
	case "doname":
		return fmt.Sprintf("(do ((zz 0 (+ zz 1))) ((> zz 0) 1) (m%d c %s))", m, d)
	case "casename":
		return fmt.Sprintf("(case 3 ((1) 2) (else (cond (#f 1) (else (and #t (m%d c %s))))))", m, d)
	case "handler":
		return fmt.Sprintf("(on-error (error \"x\") (lambda (zz) (m%d c %s)))", m, d)
	case "evalname":
		return fmt.Sprintf("(eval (list 'm%d c %s))", m, d)
	case "letfn":
		return fmt.Sprintf("(let again ((zz 0)) (if (< zz 1) (again (+ zz 1)) (m%d c %s)))", m, d)
	case "writeself":
		return fmt.Sprintf("(ww:! self (+ (* c 100) %d))", fn)
	case "forkfn":
		return fmt.Sprintf("(join (fork gp c %s))", d)
	case "write":
		return fmt.Sprintf("(set! ww (+ (* c 100) %d))", fn)
	}
	panic(k)
}

type methCtx struct{ frame, owner int } // -1: none; owner -2: ambiguous

type methModel struct {
	slots   []map[string]int // m0.. -> fn
	par     [][]int
	bodies  [][]Op
	home    []int // the frame whose method made it, -1: none
	rep     []string
	writes  map[string]bool
	client  int64
	used    map[int]bool
	invalid bool
	steps   int
}

func (m *methModel) lookup(f int, name string, seen map[int]bool) (fn, owner int) {
	if seen[f] {
		return -1, -1
	}
	seen[f] = true
	if fn, ok := m.slots[f][name]; ok {
		return fn, f
	}
	for _, p := range m.par[f] {
		if fn, owner = m.lookup(p, name, seen); owner >= 0 {
			return
		}
	}
	return -1, -1
}

// owners of a function above and at f
func (m *methModel) owners(f, fn int, seen map[int]bool) (l []int) {
	if seen[f] {
		return
	}
	seen[f] = true
	for i := 0; i < methNames; i++ {
		if g, ok := m.slots[f][fmt.Sprint("m", i)]; ok && g == fn {
			l = append(l, f)
			break
		}
	}
	for _, p := range m.par[f] {
		l = append(l, m.owners(p, fn, seen)...)
	}
	return
}

func (m *methModel) run(fn int, c methCtx, d int64) bool {
	m.steps++
	if m.steps > 150 {
		m.invalid = true
		return false
	}
	m.used[fn] = true
	if c.frame < 0 && m.home[fn] >= 0 {
		c = methCtx{m.home[fn], m.home[fn]}
	}
	m.rep = append(m.rep, methReport(fmt.Sprint("g", fn), c.frame))
	if d <= 0 {
		return true
	}
	for _, op := range m.bodies[fn] {
		if !m.act(op.K, op.A[1], int(op.A[2]), int(op.A[3]), c, d-1) {
			return false
		}
	}
	return true
}

func methReport(fn string, frame int) string {
	if frame < 0 {
		return fn + " on no frame"
	}
	return fmt.Sprintf("%s on f%d", fn, frame)
}

// act returns false if the action fails.
func (m *methModel) act(k string, mi int64, f, fn int, c methCtx, d int64) bool {
	name := fmt.Sprint("m", mi)
	switch k {
	case "var", "home":
		return true
	case "name", "letname", "lambda", "lambdafork", "doname", "casename", "handler", "evalname", "letfn", "sched":
		if c.frame >= 0 {
			if g, o := m.lookup(c.frame, name, map[int]bool{}); o >= 0 {
				ok := m.run(g, methCtx{c.frame, o}, d)
				return ok || k == "lambdafork" || k == "sched"
			}
		}
		m.rep = append(m.rep, methReport("plain", -1))
		return true
	case "send", "short", "applyslot":
		g, o := m.lookup(f, name, map[int]bool{})
		if o < 0 {
			return false
		}
		return m.run(g, methCtx{f, o}, d)
	case "super", "supershort", "applysuper":
		if c.frame < 0 {
			return false
		}
		if c.owner == -2 {
			m.invalid = true
			return false
		}
		seen := map[int]bool{c.owner: true}
		for _, p := range m.par[c.owner] {
			if g, o := m.lookup(p, name, seen); o >= 0 {
				return m.run(g, methCtx{c.frame, o}, d)
			}
		}
		return false
	case "map", "foreach", "apply":
		if c.frame >= 0 {
			if l := m.owners(c.frame, fn, map[int]bool{}); len(l) == 1 {
				return m.run(fn, methCtx{c.frame, l[0]}, d)
			} else if len(l) > 1 {
				return m.run(fn, methCtx{c.frame, -2}, d)
			}
		}
		return m.run(fn, methCtx{-1, -1}, d)
	case "global":
		return m.run(fn, methCtx{-1, -1}, d)
	case "local", "localmap", "localapply":
		return m.run(fn, c, d)
	case "forkfn":
		m.rep = append(m.rep, methReport("gp", -1))
		return true
	case "write", "writeself":
		if c.frame < 0 {
			return false // undefined variable
		}
		m.writes[fmt.Sprintf("%d %d", c.frame, m.client*100+int64(fn))] = true
		return true
	}
	return false
}

func runMethods(w *Workload, c *Ctx) *Violation {
	nf, nfn := int(w.n("nf")), int(w.n("nfn"))
	mod := &methModel{writes: map[string]bool{}}
	for i := 0; i < nf; i++ {
		mod.slots = append(mod.slots, map[string]int{})
		mod.par = append(mod.par, nil)
	}
	mod.bodies = make([][]Op, nfn)
	for i := 0; i < nfn; i++ {
		mod.home = append(mod.home, -1)
	}
	pars := make([]map[int64]int, nf)
	for _, op := range w.Clients[0] {
		switch op.K {
		case "slot":
			mod.slots[op.A[0]][fmt.Sprint("m", op.A[1])] = int(op.A[2])
		case "par":
			if pars[op.A[0]] == nil {
				pars[op.A[0]] = map[int64]int{}
			}
			pars[op.A[0]][op.A[1]] = int(op.A[2])
		default:
			mod.bodies[op.A[0]] = append(mod.bodies[op.A[0]], op)
			if op.K == "home" {
				mod.home[op.A[0]] = int(op.A[2])
			}
		}
	}
	for f, p := range pars {
		for k := int64(0); k < 2; k++ {
			if g, ok := p[k]; ok {
				mod.par[f] = append(mod.par[f], g)
			}
		}
	}
	// what must happen
	want := make([][][]string, len(w.Clients))
	fails := make([][]bool, len(w.Clients))
	users := map[int]int{}
	total := 0
	for cl := 1; cl < len(w.Clients); cl++ {
		mod.used = map[int]bool{}
		for _, op := range w.Clients[cl] {
			mod.rep, mod.client = nil, int64(cl)
			mod.steps = 0
			ok := mod.act(op.K, op.A[1], int(op.A[2]), int(op.A[3]), methCtx{-1, -1}, op.A[0])
			if mod.invalid {
				c.Trivial = true
				return nil
			}
			want[cl] = append(want[cl], mod.rep)
			fails[cl] = append(fails[cl], !ok)
			total += len(mod.rep)
		}
		for f := range mod.used {
			users[f]++
		}
	}
	c.Trivial = true
	for _, n := range users {
		if n > 1 {
			c.Trivial = false
		}
	}
	got := make([][][]string, len(w.Clients))
	for cl := range w.Clients {
		got[cl] = make([][]string, len(w.Clients[cl]))
	}
	at := make([]int, len(w.Clients)) // the operation each client is at
	run := *w
	run.Clients = append([][]Op{nil}, w.Clients[1:]...)
	frames := map[*golisp.FrameMap]int{}
	final := make([]string, nf)
	e := c.Sim(Opt{W: &run, Setup: func(e *Exec) {
		prim("h-r", func(a []*D, env *Env) (*D, error) {
			cl := int(golisp.IntegerValue(a[1]))
			fn := golisp.StringValue(a[0])
			f := -1
			if env.Frame != nil {
				f = frames[env.Frame]
			}
			s := methReport(fn, f)
			self := -1
			if golisp.FrameP(a[2]) {
				self = frames[golisp.FrameValue(a[2])]
			}
			id := -1
			if golisp.IntegerP(a[3]) {
				id = int(golisp.IntegerValue(a[3]))
			}
			if self != f || id != f {
				s = fmt.Sprintf("%s with self=%s id=%d on frame %d", fn, enc(a[2]), id, f)
				if self >= 0 {
					s += fmt.Sprintf(" (self is f%d)", self)
				}
			}
			got[cl][at[cl]] = append(got[cl][at[cl]], s)
			return nil, nil
		})
		g := ""
		for f := 0; f < nf; f++ {
			g += fmt.Sprintf("(define f%d {id: %d ww: 0})\n", f, f)
		}
		for i := 0; i < nfn; i++ {
			param, d := "d", "d"
			for _, op := range mod.bodies[i] {
				if op.K == "var" {
					param, d = ". d", "(car d)"
				}
			}
			if h := mod.home[i]; h >= 0 {
				if param == "d" {
					param = "(c d)"
				} else {
					param = "(c . d)"
				}
				g += fmt.Sprintf("(set-slot! f%d mk: (lambda () (lambda %s ", h, param)
			} else {
				g += fmt.Sprintf("(define (g%d c %s) ", i, param)
			}
			g += fmt.Sprintf("(h-r \"g%d\" c self id) (if (> %s 0) (begin ", i, d)
			for _, op := range mod.bodies[i] {
				if op.K != "var" && op.K != "home" {
					g += methAction(op.K, op.A[1], op.A[2], op.A[3], "(- "+d+" 1)") + " "
				}
			}
			g += "1) 2))"
			if h := mod.home[i]; h >= 0 {
				g += fmt.Sprintf("))\n(define g%d (send f%d mk:)) (remove-slot! f%d mk:)", i, h, h)
			}
			g += "\n"
		}
		for i := 0; i < methNames; i++ {
			g += fmt.Sprintf("(define (m%d c d) (h-r \"plain\" c self id))\n", i)
		}
		g += "(define (gp p c d) (h-r \"gp\" c self id))\n"
		for f := 0; f < nf; f++ {
			for i := 0; i < methNames; i++ {
				if fn, ok := mod.slots[f][fmt.Sprint("m", i)]; ok {
					g += fmt.Sprintf("(set-slot! f%d m%d: g%d)\n", f, i, fn)
				}
			}
		}
		for f := 0; f < nf; f++ {
			for k, p := range mod.par[f] {
				g += fmt.Sprintf("(set-slot! f%d %s: f%d)\n", f, []string{"pp*", "qq*"}[k], p)
			}
		}
		// make it global, where the functions are
		if _, err := golisp.ParseAndEvalAllInEnvironment(g, golisp.Global); err != nil {
			panic(setupFailure(err.Error()))
		}
		for f := 0; f < nf; f++ {
			d, _ := evalS(golisp.Global, fmt.Sprint("f", f))
			frames[golisp.FrameValue(d)] = f
		}
	}, Root: func(e *Exec) {
		var exprs [][]*D
		for cl, ops := range run.Clients {
			var l []*D
			for _, op := range ops {
				l = append(l, parse(fmt.Sprintf("(let ((c %d)) %s)", cl, methAction(op.K, op.A[1], op.A[2], op.A[3], fmt.Sprint(op.A[0])))))
			}
			exprs = append(exprs, l)
		}
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			at[cl] = i
			return golisp.Eval(exprs[cl][i], golisp.NewSymbolTableFrameBelow(golisp.Global, "client"))
		})
		for f := range final {
			d, _ := evalS(golisp.Global, fmt.Sprintf("(get-slot f%d ww:)", f))
			final[f] = enc(d)
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	for _, h := range e.Hist {
		if h.Ret == 0 {
			return bad("blocked", "%v never returns", h)
		}
		if h.Panic != "" {
			return bad("panic", "%v panics: %s", h, h.Panic)
		}
		wl, gl := want[h.Client][h.Idx], got[h.Client][h.Idx]
		if strings.Join(wl, ";") != strings.Join(gl, ";") {
			return bad("frame", "%v: the calls must be\n  %s\nbut were\n  %s", h, strings.Join(wl, "; "), strings.Join(gl, "; "))
		}
		if (h.Err != "") != fails[h.Client][h.Idx] {
			return bad("error", "%v: fails: %v, expected to fail: %v", h, h.Err, fails[h.Client][h.Idx])
		}
	}
	for f, v := range final {
		if v != "0" && !mod.writes[fmt.Sprintf("%d %s", f, v)] {
			return bad("write", "slot ww: of f%d is %s, which no method running on it wrote", f, v)
		}
		if v == "0" {
			for i := 0; i < len(w.Clients)*100+10; i++ {
				k := fmt.Sprintf("%d %d", f, i)
				if mod.writes[k] && strings.HasPrefix(k, fmt.Sprint(f, " ")) {
					return bad("write", "slot ww: of f%d was written (%s) but is still 0", f, k)
				}
			}
		}
	}
	c.stat("ops", int64(total))
	return nil
}
