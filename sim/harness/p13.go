package main

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C13: failures inside processes.

func init() {
	register(&Prop{ID: "C13", Gen: genVictims, Run: runVictims, Quick: 60000, Thorough: 1500000,
		Rule: "a run is 1-4 forked or scheduled processes and 1-2 other clients using shared frames, atomics, channels, environments, symbols and files; the processes fail by errors and panics of several kinds at a random place (plain, in arguments, methods, callbacks of built-ins, handlers, nested processes) or call built-ins with unsuitable arguments; afterwards every shared object is used again; non-trivial when a process failed"})
}

var victimFailures = []string{
	"(error \"failV.\")",
	"(panic! \"failV.\")",
	"(h-gopanic 0)", "(h-gopanic 1)", "(h-gopanic 2)", "(h-gopanic 3)",
	"(no-such-function \"failV.\")",
	"(map (lambda (x) (if (> x 1) (error \"failV.\") x)) '(1 2 3))",
	"(map (lambda (x) (if (> x 1) (h-gopanic 0) x)) '(1 2 3))",
	"(sort '(3 1 2) (lambda (a b) (panic! \"failV.\")))",
	"(for-each (lambda (x) (error \"failV.\")) '(1 2 3))",
	"(send FR boom: V)",
	"(send FR quake: V)",
	"(set-slot! FR sV: (error \"failV.\"))",
	"(set-slot! FR sV: (panic! \"failV.\"))",
	"(environment-define EV 'vV (panic! \"failV.\"))",
	"(channel-write CH (error \"failV.\"))",
	"(channel-write CH (panic! \"failV.\"))",
	"(atomic-add! AT (error \"failV.\"))",
	"(atomic-add! AT (panic! \"failV.\"))",
	"(write-string (error \"failV.\") PO)",
	"(write-string (panic! \"failV.\") PO)",
	"(on-error (error \"inner\") (lambda (m) (error \"failV.\")))",
	"(on-error (panic! \"failV.\") (lambda (m) 1))",
	"(let ((x 1)) (do ((i 0 (+ i 1))) ((> i 3) 1) (if (== i 2) (panic! \"failV.\") 1)))",
	"(intern (error \"failV.\"))",
	"(gensym (panic! \"failV.\"))",
	"(time (panic! \"failV.\"))",
	"(eval '(error \"failV.\") EV)",
	"(apply (lambda (x) (panic! \"failV.\")) '(1))",
	"(car 1 2 \"failV.\")",
	"(channel-read (h-proc))",
	"(fold-left (lambda (a b) (panic! \"failV.\")) 0 '(1 2))",
	"(begin (set-slot! FR sV: 77) (h-log V 77) (error \"failV.\"))",
	"(h-deep 5 V)",
	"(h-deeperr 5 V)",
	"(write-string \"x\" PX)", "(write 1 PX)", "(close-port (error \"failV.\"))", "(read PX)",
	"(load \"nofile\")", "(load \"badlib\")", "(load \"paniclib\")", "(load \"cutlib\")",
	"(exec (panic! \"failV.\"))", "(exec \"cmd\" (error \"failV.\"))",
	"(MFAIL V)", "(MPANIC V)", "(expand MFAIL V)",
	"{a: 1 b: (panic! \"failV.\")}", "{a: 1 b: (error \"failV.\")}",
	"`(1 ,(error \"failV.\"))", "`(1 ,@(panic! \"failV.\"))",
	"(case (error \"failV.\") ((1) 2))", "(cond ((panic! \"failV.\") 1))", "(let* ((a 1) (b (error \"failV.\"))) a)",
	"(let again ((i 0)) (if (> i 3) (error \"failV.\") (again (+ i 1))))", "(letrec ((f (lambda () (panic! \"failV.\")))) (f))",
	"(when #t (error \"failV.\"))", "(unless #f (panic! \"failV.\"))", "(and 1 (error \"failV.\"))", "(or #f (panic! \"failV.\"))",
	"(eval '(define q (panic! \"failV.\")) EV)", "(eval '(set! mark (error \"failV.\")) EV)", "(global-eval '(panic! \"failV.\"))",
	"(define gvV (error \"failV.\"))", "(set! gvV (panic! \"failV.\"))",
	"(FN1 1 2 3)", "(FN1)", "((lambda (x) x))", "(5 6)", "(\"text\" 1)",
	"(/ 1 0)", "(modulo 1 0)", "(nth 9 'x)", "(substring \"abc\" 5 9)", "(extract-byte [1 2] 7)", "(replace-byte! [1 2] 0 900)",
	"(filter (lambda (x) (panic! \"failV.\")) '(1 2))", "(reduce (lambda (a b) (error \"failV.\")) 0 '(1 2 3))", "(any (lambda (x) (error \"failV.\")) '(1))", "(find (lambda (x) (panic! \"failV.\")) '(1))",
	"(partition (lambda (x) (error \"failV.\")) '(1 2 3))",
	"(apply-slot FR boom: '(V))", "(quake:> FR V)", "(FR boom: V)", "(boom:> (clone FR) V)",
	"(fork (error \"failV.\"))", "(schedule 1 (panic! \"failV.\"))", "(proc-sleep (h-proc) (error \"failV.\"))", "(wake (panic! \"failV.\"))", "(join (error \"failV.\"))",
	"(fork 5)", "(schedule 1 car)", "(abandon (fork (lambda (p) 1)))", "(wake 3)", "(join 4)",
	"(write-log (error \"failV.\"))", "(format #f (panic! \"failV.\"))", "(write-line (error \"failV.\"))",
	"(on-error (on-error (error \"a\") (lambda (m) (panic! \"failV.\"))) (lambda (m) 1))",
	"(channel-write CHX 1)", "(close-channel CHX)",
	"(begin (join (fork (lambda (p) (join (fork (lambda (p) (panic! \"inner\"))))))) (error \"failV.\"))",
	"(begin (proc-sleep (fork (lambda (p) 1)) 2) (panic! \"failV.\"))",
	"(begin (intern \"only-V\") (gensym) (panic! \"failV.\"))",
	"(begin (define (own x) (error \"failV.\")) (map own '(1)))",
	"(sort '(3 1 2 5 4 9 8 7) (lambda (a b) (if (== a 4) (error \"failV.\") (< a b))))",
	"(for-each (lambda (x y) (if (> x 1) (panic! \"failV.\") y)) '(1 2) '(3 4))",
}

// genVictimsAlike: processes that fail in the same way at the same time.
func genVictimsAlike(r *Rand) *Workload {
	w := &Workload{}
	nv := 2 + r.Intn(3)
	w.set("nv", int64(nv))
	how := []int64{int64(r.Intn(3)), int64(r.Intn(5))}
	f := int64(0)
	if r.Intn(2) == 0 {
		f = int64(r.Intn(len(victimFailures)))
	}
	lead := r.Intn(3)
	for c := 0; c <= nv; c++ {
		var ops []Op
		for i := r.Intn(lead + 1); i > 0 || c == nv && len(ops) == 0; i-- {
			ops = append(ops, Op{K: []string{"add", "slot", "def", "method"}[r.Intn(4)], A: []int64{int64(10 + r.Intn(80)), 0}})
		}
		if c < nv {
			ops = append([]Op{{K: "how", A: how}}, ops...)
			if r.Intn(6) > 0 {
				ops = append(ops, Op{K: "fail", A: []int64{f}})
			}
		}
		w.Clients = append(w.Clients, ops)
	}
	w.Strat = simrt.Strategy{Kind: "random", GapS: int64(1 + r.Intn(6)), GapP: int64(r.Intn(12)), FavorMid: r.Intn(2) == 0}
	return w
}

func genVictims(r *Rand, run int, thorough bool) *Workload {
	if r.Intn(6) == 0 {
		return genVictimsAlike(r)
	}
	w := &Workload{}
	nv := 1 + r.Intn(4)
	w.set("nv", int64(nv))
	nc := nv + 1 + r.Intn(2)
	for c := 0; c < nc; c++ {
		var ops []Op
		if c < nv {
			ops = append(ops, Op{K: "how", A: []int64{int64(r.Intn(3)), int64(r.Intn(5))}})
		}
		failAt := -1
		n := 1 + r.Intn(5)
		if c < nv && r.Intn(5) > 0 {
			failAt = r.Intn(n + 1)
		}
		for i := 0; i <= n; i++ {
			if i == failAt {
				ops = append(ops, Op{K: "fail", A: []int64{int64(r.Intn(len(victimFailures)))}})
			}
			if i == n {
				break
			}
			v := int64(10 + r.Intn(80))
			k := []string{"add", "add", "slot", "slot", "write", "write", "def", "var", "method", "port", "intern", "caught", "nested", "caughtall", "sleep"}[r.Intn(15)]
			op := Op{K: k, A: []int64{v, int64(r.Intn(6))}}
			if k == "caughtall" {
				op.A[1] = int64(r.Intn(len(victimFailures)))
			}
			if c < nv && r.Intn(4) == 0 {
				op = Op{K: "odd", S: []string{oddCall(r)}}
			}
			ops = append(ops, op)
		}
		w.Clients = append(w.Clients, ops)
	}
	for i := 0; i < nv; i++ {
		if r.Intn(3) == 0 {
			c := nv + r.Intn(nc-nv)
			w.Clients[c] = append(w.Clients[c], Op{K: "joinv", A: []int64{int64(i), int64(r.Intn(2))}})
		}
	}
	addStalls(w, r, nc)
	return w
}

func victimAct(c int, op Op) string {
	v := int64(0)
	if len(op.A) > 0 {
		v = op.A[0]
	}
	switch op.K {
	case "add":
		return fmt.Sprintf("(begin (atomic-add! AT %d) 1)", v)
	case "slot":
		return fmt.Sprintf("(set-slot! FR s%d: %d)", c, v)
	case "write":
		return fmt.Sprintf("(begin (channel-write CH %d) 1)", int64(c)*100+v)
	case "def":
		return fmt.Sprintf("(environment-define EV 'v%d %d)", c, v)
	case "var":
		return fmt.Sprintf("(set! gv%d %d)", c, v)
	case "method":
		return fmt.Sprintf("(send FR put: %d)", v)
	case "port":
		return fmt.Sprintf("(write-string \"<%d-%d>\" PO)", c, v)
	case "intern":
		return fmt.Sprintf("(eq? (intern \"sym%d\") 'sym%d)", v, v)
	case "caught":
		return fmt.Sprintf("(on-error (begin (set-slot! FR s%d: %d) (error \"caught\")) (lambda (m) 1))", c, v)
	case "nested":
		return []string{"(join (fork (lambda (p) (error \"nested\"))))", "(join (fork (lambda (p) (panic! \"nested\"))))", "(join (schedule 1 (lambda (p) (panic! \"nested\"))))", "(fork (lambda (p) (error \"nested\")))", "(fork (lambda (p) (h-gopanic 1)))", "(join (schedule 2 (lambda (p) (error \"nested\"))))"}[op.A[1]]
	case "caughtall":
		// the handler is not run when the host panics, so only errors are caught
		f := strings.Replace(strings.Replace(victimFailures[op.A[1]], "failV", "handled", -1), "V", fmt.Sprint(c), -1)
		if !strings.Contains(f, "(error \"handled") && !strings.Contains(f, "boom:") || strings.Contains(f, "anic") || strings.Contains(f, "h-log") {
			f = "(error \"handled\")"
		}
		return fmt.Sprintf("(on-error (begin %s 1) (lambda (m) (atomic-add! AT %d) 1) (lambda (v) (atomic-add! AT %d) 1))", f, v, v)
	case "sleep":
		return fmt.Sprintf("(sleep %d)", op.A[1])
	case "joinv":
		return fmt.Sprintf("(let ((r (join (h-vic %d)))) (h-joined %d r) r)", v, v)
	case "fail":
		return strings.Replace(strings.Replace(victimFailures[op.A[0]], "failV", fmt.Sprintf("fail%d", c), -1), "V", fmt.Sprint(c), -1)
	case "odd":
		return op.S[0]
	}
	panic(op.K)
}

const victimLib = `
(define FR {mark: 0
 put: (lambda (x) (set! mark x) mark)
 boom: (lambda (v) (set! mark 5) (error (str "fail" v ".")))
 quake: (lambda (v) (set! mark 5) (panic! (str "fail" v ".")))})
(define AT (atomic 0))
(define CH (make-channel 60))
(define EV (make-top-level-environment "EV"))
(define PO (open-output-file "out.txt"))
(define PX (open-output-file "px.txt"))
(close-port PX)
(define CHX (make-channel 3))
(close-channel CHX)
(defmacro (MFAIL x) (error (str "fail" x ".")))
(defmacro (MPANIC x) (panic! (str "fail" x ".")))
(define (FN1 x) (+ x 1))
(define (h-deeperr n v) (if (== n 0) (error (str "fail" v ".")) (let ((q (h-deeperr (- n 1) v))) (+ q 1))))
(define (h-deep n v) (if (== n 0) (panic! (str "fail" v ".")) (+ 1 (h-deep (- n 1) v))))
`

func runVictims(w *Workload, c *Ctx) *Violation {
	nv := int(w.n("nv"))
	nc := len(w.Clients)
	acked := make([][]bool, nc)
	ended := make([]bool, nc)
	started := make([]int, nc)
	task := make([]int, nc)
	procs := make([]*D, nc)
	logged := make([]int64, nc)
	exprs := make([][]*D, nc)
	src := make([][]string, nc)
	for i := range acked {
		acked[i] = make([]bool, len(w.Clients[i]))
		exprs[i] = make([]*D, len(w.Clients[i]))
		src[i] = make([]string, len(w.Clients[i]))
	}
	joined := map[int]string{}
	type check struct{ src, want string }
	var checks []check
	var wedged *Violation
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		goPanics()
		prim("h-a", func(a []*D, env *Env) (*D, error) {
			acked[golisp.IntegerValue(a[0])][golisp.IntegerValue(a[1])] = true
			return a[2], nil
		})
		prim("h-log", func(a []*D, env *Env) (*D, error) {
			logged[golisp.IntegerValue(a[0])] = golisp.IntegerValue(a[1])
			return nil, nil
		})
		prim("h-s", func(a []*D, env *Env) (*D, error) {
			i := golisp.IntegerValue(a[0])
			started[i]++
			task[i] = simrt.CurTask().ID
			return nil, nil
		})
		prim("h-e", func(a []*D, env *Env) (*D, error) {
			ended[golisp.IntegerValue(a[0])] = true
			return nil, nil
		})
		prim("h-proc", func(a []*D, env *Env) (*D, error) { return procs[0], nil })
		prim("h-vic", func(a []*D, env *Env) (*D, error) { return procs[golisp.IntegerValue(a[0])], nil })
		prim("h-joined", func(a []*D, env *Env) (*D, error) {
			joined[int(golisp.IntegerValue(a[0]))] = enc(a[1])
			return nil, nil
		})
		e.S.FS.Put("badlib", []byte("(define bl 1)\n(no-such-thing)\n"))
		e.S.FS.Put("paniclib", []byte("(define pl 1)\n(panic! \"in a file\")\n"))
		e.S.FS.Put("cutlib", []byte("(define cl 1)\n(define cm (list 1 2"))
		for i := range w.Clients {
			for j, op := range w.Clients[i] {
				if op.K != "how" {
					src[i][j] = victimAct(i, op)
					exprs[i][j] = parse(src[i][j])
				}
			}
		}
	}, Root: func(e *Exec) {
		if _, err := golisp.ParseAndEvalAllInEnvironment(oddObjects+victimLib, golisp.Global); err != nil {
			e.Fail("harness", "%v", err)
			return
		}
		for i := 0; i < nc; i++ {
			golisp.Global.BindTo(sym(fmt.Sprint("gv", i)), num(0))
		}
		for i := 0; i < nv; i++ {
			how := w.Clients[i][0].A
			body := fmt.Sprintf("(h-s %d) ", i)
			for j := range w.Clients[i] {
				if exprs[i][j] != nil {
					body += fmt.Sprintf("(h-a %d %d %s) ", i, j, src[i][j])
				}
			}
			body += fmt.Sprintf("(h-e %d) 'ok%d", i, i)
			f := fmt.Sprintf("(fork (lambda (p) %s))", body)
			switch how[0] {
			case 1:
				f = fmt.Sprintf("(schedule %d (lambda (p) %s))", how[1], body)
			case 2:
				f = fmt.Sprintf("(fork (lambda (p x) %s) 4)", body)
			}
			d, err := evalS(e.Env, f)
			if err != nil {
				e.Fail("harness", "%s: %v", f, err)
				return
			}
			procs[i] = d
		}
		run := *w
		run.Clients = make([][]Op, nc)
		for i := nv; i < nc; i++ {
			run.Clients[i] = w.Clients[i]
		}
		e.W = &run
		e.RunClients(false, func(cl, i int, op Op) (*D, error) {
			d, err := golisp.Eval(exprs[cl][i], golisp.NewSymbolTableFrameBelow(golisp.Global, "client"))
			if err == nil {
				acked[cl][i] = true
			}
			return d, err
		})
		// everything must still be usable
		sum := int64(0)
		var vals []string
		last := func(i int, k ...string) (int64, bool) {
			v, ok := int64(0), false
			for j, op := range w.Clients[i] {
				for _, x := range k {
					if op.K == x && acked[i][j] {
						v, ok = op.A[0], true
					}
				}
			}
			return v, ok
		}
		for i := range w.Clients {
			for j, op := range w.Clients[i] {
				if !acked[i][j] {
					continue
				}
				switch op.K {
				case "add", "caughtall":
					sum += op.A[0]
				case "write":
					vals = append(vals, fmt.Sprint(int64(i)*100+op.A[0]))
				}
			}
			if v, ok := last(i, "slot", "caught"); ok || logged[i] != 0 {
				if logged[i] != 0 {
					v = logged[i]
				}
				checks = append(checks, check{fmt.Sprintf("(get-slot FR s%d:)", i), fmt.Sprint(v)})
			}
			if v, ok := last(i, "def"); ok {
				checks = append(checks, check{fmt.Sprintf("(environment-lookup EV 'v%d)", i), fmt.Sprint(v)})
			}
			if v, ok := last(i, "var"); ok {
				checks = append(checks, check{fmt.Sprintf("gv%d", i), fmt.Sprint(v)})
			}
		}
		checks = append(checks, check{"(atomic-load AT)", fmt.Sprint(sum)})
		sort.Strings(vals)
		for range vals {
			checks = append(checks, check{"(car (channel-read CH))", "value"})
		}
		checks = append(checks, check{"(car (channel-try-read CH))", "#f"})
		for i := 0; i < nv; i++ {
			if r, ok := joined[i]; ok {
				want := "()"
				if ended[i] {
					want = fmt.Sprint("ok", i)
				}
				if r != want {
					e.Fail("join", "the join on process %d gave %s instead of %s", i, r, want)
				}
				continue
			}
			checks = append(checks, check{fmt.Sprintf("(join (h-vic %d))", i), "join"})
		}
		for _, s := range []check{
			{"(begin (set-slot! FR new: 5) (get-slot FR new:))", "5"}, {"(send FR put: 9)", "9"}, {"(remove-slot! FR new:)", "#t"}, {"(has-slot? FR new:)", "#f"},
			{"(begin (clone FR) (str FR) (frame-keys FR) (equal? FR FR))", "#t"},
			{"(begin (environment-define EV 'fresh 3) (environment-bound-names EV) (environment-lookup EV 'fresh))", "3"},
			{"(begin (atomic-store! AT 1) (atomic-compare-and-swap! AT 1 2))", "#t"},
			{"(begin (channel-write CH 3) (car (channel-read CH)))", "3"},
			{"(begin (channel-write CH 3) (close-channel CH) (cadr (channel-read CH)))", "#t"},
			{"(join (fork (lambda (p) 8)))", "8"}, {"(join (schedule 1 (lambda (p) 8)))", "8"},
			{"(eq? (intern \"brand-new\") (intern \"brand-new\"))", "#t"}, {"(symbol? (gensym \"gg\"))", "#t"},
			{"(begin (write-string \"end\" PO) (close-port PO) 1)", "1"},
			{"(begin (set-slot! FR2 zz: 6) (str FR2) (clone FR2) (frame-keys FR2) (get-slot FR2 zz:))", "6"},
			{"(begin (remove-slot! FR2 zz:) (has-slot? FR3 q:) (equal? FR2 FR3) 1)", "1"},
			{"(begin (environment-define EV2 'zz 6) (environment-bindings EV2) (environment-lookup EV2 'zz))", "6"},
			{"(begin (channel-try-write CH2 1) (channel-try-read CH2) 1)", "1"},
			{"(begin (atomic-store! AT2 4) (atomic-load AT2))", "4"},
			{"(begin (define zz-global 4) zz-global)", "4"},
			{"(begin (str L2) (str BA2) (str S2) 1)", "1"},
			{"(begin (make-top-level-environment \"other\") (environment? (find-top-level-environment \"other\")))", "#t"},
			{"(+ 1 2)", "3"},
		} {
			checks = append(checks, s)
		}
		var got []string
		done := 0
		simrt.GoNamed("checker", func() {
			for i, s := range checks {
				v, err, pan := tryEval(golisp.Global, parse(s.src))
				out := enc(v)
				if err != nil {
					out = "error " + err.Error()
				}
				if pan != "" {
					out = "panic " + pan
				}
				want := s.want
				switch want {
				case "value":
					got = append(got, out)
					want = out
				case "join":
					var k int
					fmt.Sscanf(s.src, "(join (h-vic %d))", &k)
					want = "()"
					if ended[k] {
						want = fmt.Sprint("ok", k)
					}
				}
				if out != want {
					wedged = bad("unusable", "after the failures %s gives %s instead of %s", s.src, out, want)
					return
				}
				done = i + 1
			}
			sort.Strings(got)
			if strings.Join(got, " ") != strings.Join(vals, " ") {
				wedged = bad("channel", "the channel held %v instead of %v", got, vals)
			}
		})
		simrt.QuiesceLast(1 << 60)
		if wedged == nil && done < len(checks) {
			wedged = bad("wedged", "after the failures %s never returns", checks[done].src)
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	for _, h := range e.Hist {
		if h.Ret == 0 {
			return bad("blocked", "%v never returns", h)
		}
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		if h.Err != "" && h.Op.K != "odd" {
			return bad("error", "%v fails: %s", h, h.Err)
		}
	}
	if wedged != nil {
		return wedged
	}
	c.Trivial = true
	for i := 0; i < nv; i++ {
		if started[i] != 1 {
			return bad("not-run", "process %d was started %d times", i, started[i])
		}
		if ended[i] {
			for j, op := range w.Clients[i] {
				if op.K == "fail" {
					return bad("not-ended", "process %d went on after step %d failed: %s", i, j, src[i][j])
				}
			}
			continue
		}
		c.Trivial = false
		c.stat("failed-processes", 1)
		text, any := "", false
		for _, ev := range e.S.FS.Console {
			if ev.Task == task[i] {
				text += ev.Text
				any = true
			}
		}
		if !any {
			return bad("unreported", "process %d failed and nothing was reported on the console", i)
		}
		for j, op := range w.Clients[i] {
			// the step that failed
			if op.K == "how" || acked[i][j] {
				continue
			}
			m := fmt.Sprintf("fail%d.", i)
			if op.K == "fail" && strings.Contains(src[i][j], "(error \""+m) && !strings.Contains(text, m) {
				return bad("unreported", "process %d failed in %s but the console only shows %q", i, src[i][j], text)
			}
			break
		}
	}
	// what was written is there
	data, _ := e.S.FS.Get("out.txt")
	want := 0
	for i := range w.Clients {
		for j, op := range w.Clients[i] {
			if op.K == "port" && acked[i][j] {
				s := fmt.Sprintf("<%d-%d>", i, op.A[0])
				want += len(s)
				if !strings.Contains(string(data), s) {
					return bad("lost-write", "%s was written but the file contains %q", s, data)
				}
			}
		}
	}
	if len(data) != want+3 {
		return bad("lost-write", "the file contains %q", data)
	}
	return nil
}

// goPanics installs a primitive that panics.
func goPanics() {
	prim("h-gopanic", func(a []*D, env *Env) (*D, error) {
		switch golisp.IntegerValue(a[0]) {
		case 0:
			panic("a string")
		case 1:
			panic(fmt.Errorf("an error"))
		case 2:
			var l []int
			_ = l[len(a)]
		case 3:
			var m *golisp.FrameMap
			_ = m.Data
		}
		return nil, nil
	})
}
