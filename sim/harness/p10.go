package main

import (
	"fmt"
	"regexp"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C10: independent programs.

func init() {
	register(&Prop{ID: "C10", Gen: genIndep, Run: runIndep, Quick: 16000, Thorough: 400000,
		Rule: "a run is 2-4 generated programs of 1-4 statements each, in an environment of its own, using most special forms and higher-order built-ins, the same global functions, macros and variable names, own processes, channels, atomics and frames, some failing, or 2-3 programs that use the same calls, 2-9 of 330, of built-ins and forms with arguments of their own; each is run alone and all concurrently; non-trivial when the programs took more than 100 steps together"})
}

func genIndep(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	w.set("lisp", int64(r.Intn(2)))
	w.set("global", int64(r.Intn(3)/2))
	switch r.Intn(6) {
	case 0, 1:
		return genAlike(r, w)
	case 2, 3:
		return genCalls(r, w)
	}
	var first *Gen
	for c := 2 + r.Intn(3); c > 0; c-- {
		g := &Gen{r: r, prog: len(w.Clients), wrap: 20, Lib: true, Handlers: true, Fail: true, Procs: true, Define: true}
		g.Focus(r, first)
		if first == nil {
			first = g
		}
		own := func(p string) string { // of a variable of this program's environment
			if w.n("global") == 1 {
				return fmt.Sprintf("%s%d", g.fresh(p), g.prog)
			}
			return g.fresh(p)
		}
		var ops []Op
		for n := 1 + r.Intn(4); n > 0; n-- {
			var s string
			g.Top()
			switch r.Intn(9) {
			case 0:
				v := own("i")
				s = fmt.Sprintf("(define %s %s)", v, g.I())
				g.ints = append(g.ints, v)
			case 1:
				v := own("l")
				s = fmt.Sprintf("(define %s %s)", v, g.L())
				g.lists = append(g.lists, v)
			case 2:
				f, v := own("f"), g.fresh("i")
				s = fmt.Sprintf("(define (%s %s) %s)", f, v, g.in([]string{v}, nil, nil, func() string { return g.body(g.I) }))
				g.funs = append(g.funs, f)
			case 3:
				fr := own("fr")
				s = fmt.Sprintf("(define %s (make-frame iv: %s m: lib-meth n: (lambda (x) (+ (m x) iv))))", fr, g.I())
				if r.Intn(2) == 0 {
					s = fmt.Sprintf("(begin %s (list (send %s m: %s) (send %s n: %s) (lib-inc 3) (map lib-twice '(1 2))))", s, fr, g.I(), fr, g.I())
				}
			case 4:
				f := own("j")
				s = fmt.Sprintf("(begin (defmacro (%s a . b) `(list ,a ,@b ,(+ 1 %s))) (%s %s %s))", f, g.I(), f, g.I(), g.I())
			case 5, 6:
				s = fmt.Sprintf("(list %s %s %s)", g.library(), g.library(), g.library())
			default:
				s = g.U()
			}
			ops = append(ops, Op{K: "eval", S: []string{s}})
		}
		w.Clients = append(w.Clients, ops)
	}
	addStalls(w, r, 4)
	return w
}

var progNo = regexp.MustCompile(`\((h-[tmhf]) 0 `)

// genAlike: short programs that differ in their constants only, so that they
// are in the same functions, macros and forms nearly all the time.
func genAlike(r *Rand, w *Workload) *Workload {
	g := &Gen{r: r, prog: 0, wrap: 10, max: 2 + r.Intn(14), Lib: true, Handlers: true, Fail: true, Procs: r.Intn(3) == 0, Holes: true}
	g.Focus(r, nil)
	var shapes []string
	for n := 1 + r.Intn(2); n > 0; n-- {
		g.Top()
		var s string
		switch r.Intn(4) {
		case 0:
			s = fmt.Sprintf("(list %s %s)", g.library(), g.library())
		case 1:
			s = g.U()
		default:
			s = g.int1()
		}
		for m := 1 + r.Intn(3); m > 0; m-- {
			shapes = append(shapes, s)
		}
	}
	nc := 2 + r.Intn(3)
	for c := 0; c < nc; c++ {
		var ops []Op
		k := 0
		for _, s := range shapes {
			for strings.Contains(s, "\x01") {
				s = strings.Replace(s, "\x01", fmt.Sprint(c*7+k%7), 1)
				k++
			}
			ops = append(ops, Op{K: "eval", S: []string{progNo.ReplaceAllString(s, fmt.Sprintf("($1 %d ", c))}})
		}
		w.Clients = append(w.Clients, ops)
	}
	if r.Intn(3) > 0 {
		w.Strat = simrt.Strategy{Kind: "random", GapS: int64(1 + r.Intn(6)), GapP: int64(r.Intn(12)), FavorMid: r.Intn(2) == 0}
	}
	return w
}

const indepLib = genLib + `
(define (lib-meth x) (list x iv))
`

func (c *Ctx) indepExec(w *Workload, only int) (*Exec, [][]string) {
	logs := make([][]string, len(w.Clients))
	exprs := make([][]*D, len(w.Clients))
	envs := make([]*Env, len(w.Clients))
	at := make([]int64, len(w.Clients)) // the meeting points they have reached
	run := *w
	if only >= 0 {
		run.Faults = nil
	}
	o := Opt{W: &run, Setup: func(e *Exec) {
		if only < 0 && w.n("diag") > 0 {
			golisp.IsInteractive = w.n("interactive") == 1
			if w.n("tracing") == 1 {
				golisp.LispTrace = true
			}
			for _, op := range w.Clients[len(w.Clients)-1] {
				if op.K == "line" {
					e.S.FS.Lines = append(e.S.FS.Lines, op.S[0])
				}
			}
			for i := 0; i < 4000; i++ {
				e.S.FS.Lines = append(e.S.FS.Lines, ":c")
			}
		}
		prim("h-t", func(a []*D, env *Env) (*D, error) {
			p := golisp.IntegerValue(a[0])
			logs[p] = append(logs[p], fmt.Sprint(golisp.IntegerValue(a[1]), "=", encDeep(a[2])))
			return a[2], nil
		})
		prim("h-m", func(a []*D, env *Env) (*D, error) { return nil, nil })
		prim("h-h", func(a []*D, env *Env) (*D, error) {
			p := golisp.IntegerValue(a[0])
			logs[p] = append(logs[p], fmt.Sprint("handler ", golisp.IntegerValue(a[1]), " ", enc(a[2])))
			return nil, nil
		})
		golisp.ParseAndEvalAllInEnvironment(indepLib, golisp.Global)
		for i := range w.Clients {
			envs[i] = golisp.NewSymbolTableFrameBelow(golisp.Global, fmt.Sprint("prog", i))
			if w.n("global") == 1 {
				envs[i] = golisp.Global
			}
			for _, op := range w.Clients[i] {
				if op.K == "line" || op.K == "sync" {
					exprs[i] = append(exprs[i], nil)
					continue
				}
				exprs[i] = append(exprs[i], parse(op.S[0]))
			}
		}
	}, Root: func(e *Exec) {
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			if op.K == "line" {
				return nil, nil
			}
			if op.K == "sync" { // with the other programs
				at[cl] = op.A[0] + 1
				for k := 0; k < 3000 && only < 0; k++ {
					behind := false
					for _, n := range at {
						behind = behind || n <= op.A[0]
					}
					if !behind {
						break
					}
					simrt.SleepNS(1000)
				}
				return nil, nil
			}
			d, err := golisp.Eval(exprs[cl][i], envs[cl])
			out := encDeep(d)
			if err != nil {
				out = "error " + err.Error()
			}
			logs[cl] = append(logs[cl], fmt.Sprint("statement ", i, " -> ", out))
			return d, err
		})
	}}
	if only >= 0 {
		run.Clients = make([][]Op, len(w.Clients))
		run.Clients[only] = w.Clients[only]
		o.Sequential, o.NoFaults, o.Cap = true, true, 150000
		if w.n("diag") > 0 {
			o.Cap = 80000
		}
	} else if w.n("diag") > 0 {
		o.Cap = 10000000
	}
	e := c.Sim(o)
	return e, logs
}

func runIndep(w *Workload, c *Ctx) *Violation {
	var want [][]string
	steps := 0
	for i := range w.Clients {
		if w.n("diag") > 0 && i == len(w.Clients)-1 {
			break // no program
		}
		e, logs := c.indepExec(w, i)
		if e.Capped() {
			c.Trivial = true
			return nil // too long a program
		}
		if v := e.Crash(); v != nil {
			v.Detail = fmt.Sprintf("program %d alone: %s", i, v.Detail)
			return v
		}
		for _, h := range e.Hist {
			if h.Ret == 0 {
				return bad("blocked", "%v alone never returns", h)
			}
			if h.Panic != "" {
				logs[i] = append(logs[i], "panic "+h.Panic)
			}
		}
		want = append(want, logs[i])
		steps += len(logs[i])
	}
	e, got := c.indepExec(w, -1)
	if w.n("diag") > 0 && e.Capped() { // tracing and stepping through a long program
		c.stat("capped", 1)
		c.Trivial = true
		return nil
	}
	for _, p := range e.S.FS.Prompts {
		if p.EOF { // the debugger ran out of lines and the session was ended
			c.Trivial = true
			return nil
		}
	}
	if v := e.Crash(); v != nil {
		return v
	}
	for _, h := range e.Hist {
		if h.Ret == 0 {
			return bad("blocked", "%v never returns beside the others", h)
		}
		if h.Panic != "" {
			got[h.Client] = append(got[h.Client], "panic "+h.Panic)
		}
	}
	c.stat("ops", int64(steps))
	c.Trivial = steps < 10
	c.stat("debugger-lines", int64(len(e.S.FS.Prompts)))
	for i := range want {
		a, b := want[i], got[i]
		for j := 0; j < len(a) || j < len(b); j++ {
			x, y := "(nothing more)", "(nothing more)"
			if j < len(a) {
				x = a[j]
			}
			if j < len(b) {
				y = b[j]
			}
			if x != y {
				var src []string
				for _, op := range w.Clients[i] {
					src = append(src, op.S...)
				}
				return bad("interference", "program %d: alone it does  %s\nbeside the others  %s\nprogram:\n%s", i, x, y, strings.Join(src, "\n"))
			}
		}
	}
	return nil
}

// encDeep shows frames' contents too.
func encDeep(d *D) string {
	if golisp.FrameP(d) {
		m := golisp.FrameValue(d).Data
		ks := map[string]int64{}
		for k := range m {
			ks[k] = 1
		}
		s := "{"
		for _, k := range sortedKeys(ks) {
			s += k + " " + encDeep(m[k]) + " "
		}
		return s + "}"
	}
	return enc(d)
}
