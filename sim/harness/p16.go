package main

import (
	"fmt"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C16: loading source files.

func init() {
	register(&Prop{ID: "C16", Gen: genLoads, Run: runLoads, Quick: 60000, Thorough: 2000000,
		Rule: "a run is 1-4 processes loading 1-4 generated files (definitions, uses of them, effects, comments, empty and odd top-level forms, failing forms, nested loads, files cut off at any byte of a form) concurrently through load and the Go entry points, with opens and reads failing, slowed down and split at seeded points; non-trivial when two loads overlap, a file fails, is cut or a fault fires"})
}

func genLoads(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nf := 1 + r.Intn(4)
	nc := 1 + r.Intn(4)
	w.set("nf", int64(nf))
	w.set("lisp", int64(r.Intn(2)))
	if r.Intn(2) == 0 {
		w.set("maxread", int64(1+r.Intn(30)))
	}
	for f := 0; f < nf; f++ {
		var ops []Op
		n := r.Intn(9)
		for k := 0; k < n; k++ {
			op := Op{K: "log", A: []int64{int64(k), int64(r.Intn(8))}}
			switch x := r.Intn(16); {
			case x < 2:
				op.K = "def"
			case x < 4:
				op.K = "use"
			case x < 5:
				op.K = "fn"
			case x < 8:
				op.K = "odd"
				op.A[1] = int64(r.Intn(len(oddForms)))
			case x < 9 && r.Intn(2) == 0:
				op.K = "fail"
				op.A[1] = int64(r.Intn(4))
			case x < 11 && f < nf-1:
				op.K = []string{"load", "load", "try"}[r.Intn(3)]
				op.A[1] = int64(f + 1 + r.Intn(nf-f-1))
			case x < 12:
				op.K = []string{"multi", "macro", "uni"}[r.Intn(3)]
			case x < 13:
				op.K = []string{"again", "sleep", "join"}[r.Intn(3)]
			case x < 14:
				op.K = "val"
			}
			if r.Intn(120) == 0 {
				op.K = "big"
			}
			ops = append(ops, op)
		}
		w.Clients = append(w.Clients, ops)
		if r.Intn(3) == 0 {
			w.set(fmt.Sprintf("cut%d", f), int64(1+r.Intn([]int{14, 60}[r.Intn(2)])))
		}
		if r.Intn(3) == 0 {
			ft := simrt.IOFault{Op: []string{"read", "read", "read", "open"}[r.Intn(4)], Path: fmt.Sprintf("l%d.lsp", f), N: r.Intn(3), Kind: []string{"err", "err", "short", "delay"}[r.Intn(4)], Arg: int64(1 + r.Intn(20))}
			if w.n("maxread") > 0 && ft.Op == "read" {
				ft.N = r.Intn(12)
			}
			if ft.Kind == "delay" {
				ft.Arg *= 100000
			}
			if ft.Op == "open" && ft.Kind == "short" {
				ft.Kind = "err"
			}
			ft.Rest = r.Intn(3) == 0
			w.Faults = append(w.Faults, ft)
		}
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 1 + r.Intn(3); n > 0; n-- {
			f := int64(r.Intn(nf))
			if r.Intn(12) == 0 {
				f = 99 // there is no such file
			}
			ops = append(ops, Op{K: []string{"load", "load", "process", "env", "text", "letload", "penv", "parse", "tenv"}[r.Intn(9)], A: []int64{f, int64(r.Intn(4))}})
		}
		w.Clients = append(w.Clients, ops)
	}
	addStalls(w, r, nc)
	return w
}

var oddForms = []string{"()", "5", "\"text ( \"", "'()", "; nothing here\n", "#t", "'sym", "nil", "[1 2 3]", "{a: 1}", "(quote ())", "(begin)", ";;\n;;\n", "`(a ,(+ 1 2))", "(list)", "-7", "\"\"", "#f", "(if #f 1)", "{}"}

// what evaluating them gives; "?" is not looked at, "=" leaves the value of the form before
var oddFormValues = []string{"()", "5", "\"text ( \"", "()", "=", "#t", "sym", "()", "?", "?", "()", "?", "=", "(a 3)", "()", "-7", "\"\"", "#f", "()", "?"}

// how many forms a form of a file is
func loadForms(op Op) int {
	switch op.K {
	case "use", "fn", "macro", "uni":
		return 2
	case "odd":
		if oddFormValues[op.A[1]] == "=" {
			return 0
		}
	}
	return 1
}

func loadForm(f int, op Op) string {
	k := op.A[0]
	switch op.K {
	case "log":
		return fmt.Sprintf("(h-log \"%d.%d\")", f, k)
	case "def":
		return fmt.Sprintf("(define v%d-%d \"%d.%d\")", f, k, f, k)
	case "use":
		return fmt.Sprintf("(define w%d-%d (list \"%d\" \"%d\")) (h-log (str (car w%d-%d) \".\" (cadr w%d-%d)))", f, k, f, k, f, k, f, k)
	case "fn":
		return fmt.Sprintf("(define (f%d-%d x)\n  ; says it\n  (h-log x))\n(f%d-%d \"%d.%d\")", f, k, f, k, f, k)
	case "odd":
		return oddForms[op.A[1]]
	case "fail":
		return []string{fmt.Sprintf("(error \"stop-%d-%d\")", f, k), fmt.Sprintf("(no-such-%d-%d 1)", f, k), fmt.Sprintf("(begin (h-log \"%d.%d\") (error \"stop-%d-%d\"))", f, k, f, k), fmt.Sprintf("(let ((undefined-%d-%d (error \"undefined-%d-%d\"))) 1)", f, k, f, k)}[op.A[1]]
	case "load":
		return fmt.Sprintf("(load \"l%d.lsp\")", op.A[1])
	case "try":
		return fmt.Sprintf("(on-error (load \"l%d.lsp\") (lambda (m) (h-log \"%d.%d\")))", op.A[1], f, k)
	case "multi":
		return fmt.Sprintf("(let ((a 1)\n      (b \"x ; y)\"))\n  (h-log\n    (if (string=? b \"x ; y)\") \"%d.%d\" \"?\")))", f, k)
	case "macro":
		return fmt.Sprintf("(defmacro (mac%d-%d x)\n  `(h-log ,x))\n(mac%d-%d \"%d.%d\")", f, k, f, k, f, k)
	case "uni":
		return fmt.Sprintf("(define λé世%d-%d \"%d.%d\") ; é世界 (\n(h-log λé世%d-%d)", f, k, f, k, f, k)
	case "sleep":
		return fmt.Sprintf("(begin (sleep 1) (h-log \"%d.%d\"))", f, k)
	case "join":
		return fmt.Sprintf("(begin (join (fork (lambda (p) 1))) (h-log \"%d.%d\"))", f, k)
	case "big":
		return "(h-log ; " + strings.Repeat("()é", 400*int(1+k)) + fmt.Sprintf("\n \"%d.%d\")", f, k)
	case "val":
		return fmt.Sprintf("\"val-%d-%d\"", f, k)
	case "again":
		return fmt.Sprintf("(do ((i 0 (+ i 1))) ((> i 1) 1) (h-log \"%d.%d\"))", f, k)
	}
	panic(op.K)
}

type loadEnd struct {
	logs string
	err  string // what the failure must mention, "?" for any, "" for none
	io   bool
	val  string
}

func runLoads(w *Workload, c *Ctx) *Violation {
	nf := int(w.n("nf"))
	nc := len(w.Clients) - nf
	texts := make([]string, nf)
	forms := make([][]Op, nf)
	cut := make([]bool, nf)
	whole := make([]int, nf) // complete forms
	for f := 0; f < nf; f++ {
		forms[f] = w.Clients[f]
		for i, op := range forms[f] {
			texts[f] += loadForm(f, op) + []string{"\n", " ", "\n\n", " ; c\n", "\r\n"}[(int(op.A[0])+i)%5]
		}
		texts[f] = strings.TrimSpace(texts[f])
		n := int(w.n(fmt.Sprintf("cut%d", f)))
		if n > 0 && len(forms[f]) > 0 {
			last := forms[f][len(forms[f])-1]
			t := loadForm(f, last)
			if strings.HasSuffix(texts[f], t) && t != "'sym" && strings.ContainsRune("(\"[{'`", rune(t[0])) && n < len(t) && (n < 8 || loadForms(last) == 1) {
				texts[f] = texts[f][:len(texts[f])-n]
				forms[f] = forms[f][:len(forms[f])-1]
				cut[f] = true
				whole[f] = loadForms(last) - 1
			}
		}
		for _, op := range forms[f] {
			whole[f] += loadForms(op)
		}
	}
	logs := make([]string, nc)
	byTask := map[int]int{}
	type res struct {
		cl, i, f int
		logs     string
		err      string
		inv, ret int64
		kind     string
		val      string
		parsed   bool // and not evaluated
	}
	var results []*res
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		for f := range texts {
			e.S.FS.Put(fmt.Sprintf("l%d.lsp", f), []byte(texts[f]))
		}
		e.S.FS.MaxRead = int(w.n("maxread"))
		prim("h-log", func(a []*D, env *Env) (*D, error) {
			cl, ok := byTask[simrt.CurTask().ID]
			if !ok || len(a) != 1 || !golisp.StringP(a[0]) {
				e.Fail("stray", "a form was evaluated by another process, or with wrong values")
				return nil, nil
			}
			logs[cl] += golisp.StringValue(a[0]) + " "
			return nil, nil
		})
	}, Root: func(e *Exec) {
		run := *w
		run.Clients = w.Clients[nf:]
		e.W = &run
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			byTask[simrt.CurTask().ID] = cl
			f := int(op.A[0])
			path := fmt.Sprintf("l%d.lsp", f)
			r := &res{cl: cl, i: i, f: f, inv: simrt.Seq(), kind: op.K}
			results = append(results, r)
			logs[cl] = ""
			var err error
			var v *D
			env := golisp.Global
			switch op.K {
			case "letload":
				v, err = golisp.Eval(call("let", list(list(sym("x"), num(1))), call("load", str(path))), e.Env)
			case "penv", "tenv":
				for d := int64(0); d <= op.A[1]; d++ {
					env = golisp.NewSymbolTableFrameBelow(env, fmt.Sprintf("private-%d-%d-%d", cl, i, d))
				}
				if op.K == "tenv" && f < nf {
					v, err = golisp.ParseAndEvalAllInEnvironment(texts[f], env)
				} else {
					v, err = golisp.ProcessFileInEnvironment(path, env)
				}
			case "parse":
				if f >= nf {
					_, err = golisp.ProcessFile(path)
					break
				}
				l, err := golisp.ParseAll(texts[f])
				if n := whole[f]; cut[f] != (err != nil) || len(l) != n {
					e.Fail("parse", "ParseAll of %q gives %d forms instead of %d, and %v", texts[f], len(l), n, err)
				}
				r.parsed = true
				return nil, nil
			case "load":
				v, err = golisp.Eval(call("load", str(path)), e.Env)
			case "process":
				v, err = golisp.ProcessFile(path)
			case "env":
				v, err = golisp.ProcessFileInEnvironment(path, golisp.Global)
			case "text":
				if f < nf {
					v, err = golisp.ParseAndEvalAll(texts[f])
				} else {
					_, err = golisp.ProcessFile(path)
				}
			}
			r.ret = simrt.Seq()
			r.logs = logs[cl]
			r.val = enc(v)
			if err != nil {
				r.err = "!" + err.Error()
			} else if f < nf {
				for _, op := range forms[f] {
					name := fmt.Sprintf("v%d-%d", f, op.A[0])
					if op.K != "def" {
						continue
					}
					if v := env.ValueOf(golisp.Intern(name)); enc(v) != fmt.Sprintf("\"%d.%d\"", f, op.A[0]) {
						e.Fail("definition", "after %s of %q, %s has the value %s in the environment the file was evaluated in", r.kind, texts[f], name, enc(v))
					}
					if env != golisp.Global {
						if _, found := env.BindingNamed(name); !found {
							e.Fail("definition", "after %s of %q, %s is not defined in the environment the file was evaluated in", r.kind, texts[f], name)
						}
						for p := env.Parent; p != nil && p != golisp.Global; p = p.Parent {
							if _, found := p.BindingNamed(name); found {
								e.Fail("definition", "after %s of %q, %s is defined above the environment the file was evaluated in", r.kind, texts[f], name)
							}
						}
					}
				}
			}
			return nil, nil
		})
		// what was loaded into an environment of its own is defined there only
		global := make([]bool, nf)
		for _, r := range results {
			if r.f < nf && r.kind != "penv" && r.kind != "tenv" && !r.parsed {
				global[r.f] = true
			}
		}
		for f := range forms {
			for _, op := range forms[f] {
				if op.K == "load" || op.K == "try" {
					global[op.A[1]] = true
				}
			}
		}
		for f := range forms {
			for _, op := range forms[f] {
				name := fmt.Sprintf("v%d-%d", f, op.A[0])
				if op.K == "def" && !global[f] && golisp.NotNilP(golisp.Global.ValueOf(golisp.Intern(name))) {
					e.Fail("definition", "%s is defined in the global environment, but l%d.lsp was only loaded into other ones", name, f)
				}
			}
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	for _, h := range e.Hist {
		if h.Ret == 0 {
			return bad("blocked", "%v never returns", h)
		}
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		if h.Err != "" {
			return bad("error", "%v fails: %s", h, h.Err)
		}
	}
	faulty := make([]bool, nf)
	fired := 0
	for _, ft := range e.S.FS.Faults {
		for f := range faulty {
			if ft.Kind == "err" && ft.Fired > 0 && ft.Path == fmt.Sprintf("l%d.lsp", f) {
				faulty[f] = true
				fired++
			}
		}
	}
	// what loading a file may do, the latest file first
	ends := make([][]loadEnd, nf)
	for f := nf - 1; f >= 0; f-- {
		cur := []loadEnd{{val: "()"}}
		for _, op := range forms[f] {
			var next []loadEnd
			for _, s := range cur {
				if s.err != "" {
					next = append(next, s)
					continue
				}
				me := fmt.Sprintf("%d.%d ", f, op.A[0])
				switch op.K {
				case "log", "use", "fn", "multi", "macro", "uni", "sleep", "join", "big":
					s.logs += me
					s.val = "()"
				case "again":
					s.logs += me + me
					s.val = "1"
				case "def":
					s.val = "?"
				case "val":
					s.val = fmt.Sprintf("\"val-%d-%d\"", f, op.A[0])
				case "odd":
					if v := oddFormValues[op.A[1]]; v != "=" {
						s.val = v
					}
				case "fail":
					s.err = []string{fmt.Sprintf("stop-%d-%d", f, op.A[0]), fmt.Sprintf("no-such-%d-%d", f, op.A[0]), fmt.Sprintf("stop-%d-%d", f, op.A[0]), fmt.Sprintf("undefined-%d-%d", f, op.A[0])}[op.A[1]]
					if op.A[1] == 2 {
						s.logs += me
					}
				case "load", "try":
					for _, n := range ends[op.A[1]] {
						t := loadEnd{s.logs + n.logs, n.err, s.io || n.io, n.val}
						if n.err != "" && op.K == "try" {
							t.val = "?"
							t.logs += me
							t.err = ""
						}
						next = append(next, t)
					}
					continue
				}
				next = append(next, s)
			}
			if len(next) > 64 {
				next = next[:64]
				c.stat("cut-short", 1)
				c.Trivial = true
				return nil
			}
			cur = next
		}
		for i := range cur {
			if cut[f] && cur[i].err == "" {
				cur[i].err = "?"
			}
		}
		if faulty[f] {
			cur = append(cur, loadEnd{"", "l" + fmt.Sprint(f) + ".lsp", true, "?"})
		}
		ends[f] = cur
	}
	c.Trivial = fired == 0
	io := false
	for i, r := range results {
		if r.parsed {
			continue
		}
		if r.err != "" {
			c.Trivial = false
		}
		for _, o := range results[i+1:] {
			if o.inv < r.ret && r.inv < o.ret {
				c.Trivial = false
			}
		}
		if r.f >= nf {
			if r.err == "" || r.logs != "" {
				return bad("no-file", "loading a file that does not exist gives %q, evaluating %q", r.err, r.logs)
			}
			continue
		}
		list := ends[r.f]
		if (r.kind == "text" || r.kind == "tenv") && faulty[r.f] {
			list = list[:len(list)-1]
		}
		ok, normal := false, false
		for _, x := range list {
			if x.logs == r.logs && (x.err == "") == (r.err == "") && (x.err == "" || x.err == "?" || strings.Contains(r.err, x.err)) && (x.err != "" || x.val == "?" || x.val == r.val) {
				ok = true
				if !x.io {
					normal = true
				}
			}
		}
		if ok && !normal {
			io = true
		}
		if !ok {
			return bad("load", "%s of l%d.lsp evaluated %q and ended with %q, giving %s; possible: %+v; the file: %q", r.kind, r.f, r.logs, r.err, r.val, list, texts[r.f])
		}
	}
	if fired > 0 && !io {
		// every read error must have been met by some load that says so
		for f := range faulty {
			if !faulty[f] {
				continue
			}
			for _, r := range results {
				if r.f == f && r.kind != "text" && r.kind != "tenv" && !r.parsed && len(forms[f]) > 0 && forms[f][0].K == "log" {
					return bad("unreported", "a load of l%d.lsp met a read error and nobody was told", f)
				}
			}
		}
	}
	return nil
}
