package main

import (
	"fmt"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C17: restricted environments.

func init() {
	register(&Prop{ID: "C17", Gen: genRestricted, Run: runRestricted, Quick: 60000, Thorough: 3000000,
		Rule: "a run is 1-4 processes attempting every restricted built-in through generated routes (direct, aliased, apply, eval, callbacks of built-ins, closures, methods, macros, handlers, forked and scheduled processes) in restricted environments of several kinds, in unrestricted ones, and in one that is being restricted meanwhile; effects are read off the simulated machine; non-trivial when an attempt was made in a restricted environment"})
}

type attempt struct {
	name string
	args []string // ID is replaced by the number of the operation
}

var attempts = []attempt{
	{"open-input-file", []string{"\"in-ID.txt\""}},
	{"open-output-file", []string{"\"out-ID.txt\""}},
	{"open-output-file", []string{"\"out-ID.txt\"", "#t"}},
	{"close-port", []string{"(h-port ID)"}},
	{"write-bytes", []string{"[1 2 3]", "(h-port ID)"}},
	{"load", []string{"\"ld-ID.lsp\""}},
	{"global-eval", []string{"'(h-eff ID)"}},
	{"exec", []string{"\"cmd-ID\"", "\"arg\""}},
	{"environment-parent", []string{"(h-env)"}},
	{"system-global-environment", nil},
	{"make-top-level-environment", []string{"\"tl-ID\""}},
	{"make-top-level-environment", []string{"\"tl-ID\"", "'(a b)", "'(1 2)"}},
	{"find-top-level-environment", []string{"\"EV\""}},
	{"debug-on-error", []string{"#t"}},
	{"add-debug-on-entry", []string{"(h-fn ID)"}},
	{"panic!", []string{"\"panic-ID\""}},
	{"debug", nil},
}

const unrestrictedAttempts = 13 // the first ones are also made without restriction

// C: the call, F: the function, A: its arguments, L: a quoted call
var routes = []string{
	"C", "C", "(begin 1 C)", "(let ((x 1)) C)", "((lambda (x) C) 1)", "(apply F (list A))", "(apply F A '())", "(eval 'C)",
	"(map (lambda (z) C) '(1))", "(for-each (lambda (z) C) '(1))", "(let ((g F)) (g A))", "(begin (define (loc-ID) C) (loc-ID))",
	"(on-error C (lambda (m) (error m)))", "(on-error (error \"q\") (lambda (m) C))", "(cond (#t C))", "(if #t C)",
	"(do ((i 0 (+ i 1))) ((> i 0) 1) C)", "(let loop ((i 0)) (if (< i 1) (begin C (loop (+ i 1))) 1))",
	"(send {m: (lambda () C)} m:)", "(when #t C)", "(fold-left (lambda (a b) C) 0 '(1))",
	"(sort '(2 1) (lambda (a b) C #t))", "(filter (lambda (a) C) '(1))", "(case 1 ((1) C))", "(let* ((x C)) x)",
	"(letrec ((h (lambda () C))) (h))", "(begin (defmacro (mm-ID) 'C) (mm-ID))", "(time C)", "`(,C)", "(list C)", "(eval (list 'F A))",
	"((if #t F car) A)", "(let ((h (lambda (k) (k A)))) (h F))", "(apply-slot {m: (lambda () C)} m: '())", "(find (lambda (a) C) '(1))",
	"(begin (set! holder-ID F) (holder-ID A))", "(begin (define al-ID F) (al-ID A))", "((lambda () ((lambda () C))))", "(reduce (lambda (a b) C) 0 '(1 2))",
	"(and #t C)", "(or #f C)", "(any (lambda (a) C) '(1))", "(every (lambda (a) C) '(1))", "(unless #f C)", "(partition (lambda (a) C) '(1))",
	"J(join (fork (lambda (p) C)))", "J(join (schedule 1 (lambda (p) C)))", "J(join (fork (lambda (p x) C) 5))", "J(join (fork (lambda (p) (join (fork (lambda (q) C))))))",
	"J(join (fork F))", "J(join (schedule 1 F))",
	"(let ((fr {m: F})) ((m: fr) A))", "(1map F A)", "(1each F A)", "(1filter F A)", "(1apply F A)", "(1find F A)",
}

func buildRoute(route string, a attempt, id int) (string, bool, bool) {
	join := strings.HasPrefix(route, "J")
	route = strings.TrimPrefix(route, "J")
	args := strings.Replace(strings.Join(a.args, " "), "ID", fmt.Sprint(id), -1)
	if strings.HasPrefix(route, "(1") {
		if len(a.args) != 1 {
			return "", false, false
		}
		switch {
		case strings.HasPrefix(route, "(1map"):
			route = "(map F (list A))"
		case strings.HasPrefix(route, "(1each"):
			route = "(for-each F (list A))"
		case strings.HasPrefix(route, "(1filter"):
			route = "(filter F (list A))"
		case strings.HasPrefix(route, "(1apply"):
			route = "(apply apply F (list (list A)))"
		default:
			route = "(find F (list A))"
		}
	}
	c := strings.TrimSpace("(" + a.name + " " + args)
	s := strings.Replace(route, "ID", fmt.Sprint(id), -1)
	s = strings.Replace(s, "C", "\x01", -1)
	s = strings.Replace(s, " F", " \x02", -1)
	s = strings.Replace(s, "'F", "'\x02", -1)
	s = strings.Replace(s, " A", " \x03", -1)
	s = strings.Replace(s, "\x01", c+")", -1)
	s = strings.Replace(s, "\x02", a.name, -1)
	s = strings.Replace(s, "\x03", args, -1)
	return s, join, true
}

// harmless expressions: they are not refused anywhere
var harmless = [][2]string{
	{"(+ 1 2)", "3"}, {"(let ((a 1)) (+ a 1))", "2"}, {"(map (lambda (x) (* x x)) '(1 2 3))", "(1 4 9)"},
	{"(begin (define hl-ID 5) hl-ID)", "5"}, {"(begin (define (hf-ID x) (+ x 1)) (hf-ID 1))", "2"},
	{"(join (fork (lambda (p) (+ 1 2))))", "3"}, {"(on-error (error \"x\") (lambda (m) 7))", "7"},
	{"(eval '(+ 1 1))", "2"}, {"(apply + '(1 2))", "3"}, {"(send {a: (lambda () 4)} a:)", "4"}, {"(get-slot {a: 1} a:)", "1"},
	{"(let loop ((i 0)) (if (< i 3) (loop (+ i 1)) i))", "3"}, {"(do ((i 0 (+ i 1))) ((> i 2) i))", "3"},
	{"(begin (defmacro (hm-ID x) `(+ ,x 1)) (hm-ID 2))", "3"}, {"(string? (format #f \"~A\" 1))", "#t"},
	{"(write-string \"w\")", "()"}, {"(join (schedule 1 (lambda (p) 6)))", "6"}, {"(atomic-load (atomic 1))", "1"},
	{"(sort '(2 1) <)", "(1 2)"}, {"(car (list 8))", "8"},
}

func genRestricted(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nc := 1 + r.Intn(4)
	w.set("lisp", int64(r.Intn(2)))
	w.set("global", b2i(r.Intn(5) == 0))
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 1 + r.Intn(6); n > 0; n-- {
			k := []string{"R", "R", "let", "lam", "clo", "mac", "U", "S", "S", "S"}[r.Intn(10)]
			at := r.Intn(len(attempts))
			if k == "U" || k == "S" {
				at = r.Intn(unrestrictedAttempts)
			}
			ro := r.Intn(len(routes))
			if k == "S" && r.Intn(5) == 0 {
				k = "restrict"
			}
			op := Op{K: k, A: []int64{int64(at), int64(ro), 0}}
			if r.Intn(4) == 0 {
				op.A[2] = int64(r.Intn(len(routes)))
			}
			if k != "restrict" && r.Intn(6) == 0 {
				op.S = []string{"plain"}
				op.A[0] = int64(r.Intn(len(harmless)))
			}
			ops = append(ops, op)
		}
		w.Clients = append(w.Clients, ops)
	}
	addStalls(w, r, nc)
	return w
}

func runRestricted(w *Workload, c *Ctx) *Violation {
	type rec struct {
		id, cl, i int
		op        Op
		src       string
		join      bool
		nested    bool
		inv, ret  int64
		out, err  string
		skip      bool
		panicked  string
		val       *D
	}
	var recs [][]*rec
	id := 0
	for cl, l := range w.Clients {
		var row []*rec
		for i, op := range l {
			r := &rec{id: 100 + id, cl: cl, i: i, op: op}
			id++
			s, join, ok := "", false, true
			if op.K == "restrict" {
				s = "(restrict-environment)"
			} else if len(op.S) > 0 {
				s = strings.Replace(harmless[op.A[0]][0], "ID", fmt.Sprint(r.id), -1)
			} else {
				s, join, ok = buildRoute(routes[op.A[1]], attempts[op.A[0]], r.id)
			}
			if !ok {
				s = "1"
			}
			if len(op.A) > 2 && op.A[2] != op.A[1] && ok && len(op.S) == 0 && op.K != "restrict" {
				// the attempt within another route
				t := strings.Replace(routes[op.A[2]], "ID", fmt.Sprint(r.id)+"-o", -1)
				if strings.Contains(t, "C") && !strings.Contains(t, "F") {
					r.nested = true
					join = join || strings.HasPrefix(t, "J")
					s = strings.Replace(strings.TrimPrefix(t, "J"), "C", s, -1)
				}
			}
			r.skip = !ok
			r.src, r.join = s, join
			row = append(row, r)
		}
		recs = append(recs, row)
	}
	ports := map[int]*D{}
	eff := map[int]bool{}
	fns := map[int]*D{}
	var evEnv *D
	var sEnv *Env
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		for i := 0; i < id; i++ {
			e.S.FS.Put(fmt.Sprintf("in-%d.txt", 100+i), []byte("1"))
			e.S.FS.Put(fmt.Sprintf("ld-%d.lsp", 100+i), []byte(fmt.Sprintf("(h-eff %d)", 100+i)))
		}
		prim("h-port", func(a []*D, env *Env) (*D, error) { return ports[int(golisp.IntegerValue(a[0]))], nil })
		prim("h-env", func(a []*D, env *Env) (*D, error) { return evEnv, nil })
		prim("h-fn", func(a []*D, env *Env) (*D, error) { return fns[int(golisp.IntegerValue(a[0]))], nil })
		prim("h-eff", func(a []*D, env *Env) (*D, error) {
			eff[int(golisp.IntegerValue(a[0]))] = true
			return nil, nil
		})
	}, Root: func(e *Exec) {
		fail := func(err error) bool {
			if err != nil {
				e.Fail("harness", "%v", err)
			}
			return err != nil
		}
		var err error
		for i := 0; i < id; i++ {
			if _, err = evalS(golisp.Global, fmt.Sprintf("(define holder-%d 1)", 100+i)); fail(err) {
				return
			}
		}
		top := func(name string) *Env { return golisp.NewSymbolTableFrameBelow(golisp.Global, name) }
		ev := top("EV")
		evEnv = golisp.EnvironmentWithValue(ev)
		R, U := top("R"), top("U")
		sEnv = top("S")
		if w.n("global") == 1 {
			// the global environment is the restricted one
			R = golisp.Global
		}
		clear := func(src string) (*D, error) { return evalS(U, src) }
		if w.n("global") == 0 {
			clear = func(src string) (*D, error) { return evalS(golisp.Global, src) }
		}
		if _, err = evalS(R, "(restrict-environment)"); fail(err) {
			return
		}
		for i := 0; i < id; i++ {
			p, err := clear(fmt.Sprintf("(open-output-file \"port-%d.txt\")", 100+i))
			if fail(err) {
				return
			}
			ports[100+i] = p
			f, err := clear(fmt.Sprintf("(lambda (x) %d)", i))
			if fail(err) {
				return
			}
			fns[100+i] = f
		}
		for _, row := range recs {
			for _, r := range row {
				if r.op.K == "clo" {
					f, err := evalS(R, "(lambda () "+r.src+")")
					if fail(err) {
						return
					}
					r.val = f
				}
			}
		}
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			r := recs[cl][i]
			env, src := U, r.src
			var d *D
			switch op.K {
			case "R":
				env = R
			case "S", "restrict":
				env = sEnv
			case "let":
				src = "(let ((q 1)) (restrict-environment) " + src + ")"
			case "lam":
				src = "((lambda () (restrict-environment) " + src + "))"
			case "clo":
				d = golisp.Cons(r.val, nil)
			case "mac":
				env = golisp.NewSymbolTableFrameBelow(R, "inner")
			}
			if d == nil {
				d = parse(src)
			}
			r.inv = simrt.Seq()
			v, err, pan := tryEval(env, d)
			r.ret = simrt.Seq()
			r.out = enc(v)
			if err != nil {
				r.err = "!" + err.Error()
			}
			r.panicked = pan
			return nil, nil
		})
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	for _, h := range e.Hist {
		if h.Ret == 0 {
			return bad("blocked", "%v never returns: %s", h, recs[h.Client][h.Idx].src)
		}
	}
	if golisp.DebugOnEntry.Size() > 0 {
		return bad("effect", "a function was marked for debugging in a restricted environment")
	}
	if golisp.DebugOnError {
		return bad("effect", "debug-on-error was switched on in a restricted environment")
	}
	if len(e.S.FS.Prompts) > 0 {
		return bad("effect", "the debugger was entered from a restricted environment")
	}
	var rInv, rRet int64 = 1 << 62, 1 << 62
	for _, row := range recs {
		for _, r := range row {
			if r.op.K == "restrict" {
				if r.err != "" {
					return bad("restrict", "restrict-environment fails: %s", r.err)
				}
				if r.inv < rInv {
					rInv = r.inv
				}
				if r.ret < rRet {
					rRet = r.ret
				}
			}
		}
	}
	c.Trivial = true
	for _, row := range recs {
		for _, r := range row {
			if r.op.K == "restrict" || r.skip {
				continue
			}
			if len(r.op.S) > 0 {
				if want := harmless[r.op.A[0]][1]; r.out != want || r.err != "" || r.panicked != "" {
					return bad("refused", "%s (%s) gives %s %s %s instead of %s", r.src, r.op.K, r.out, r.err, r.panicked, want)
				}
				continue
			}
			must, may := true, true // must be refused, may be refused
			switch r.op.K {
			case "U":
				must, may = false, false
			case "S":
				must = r.inv > rRet
				may = r.ret > rInv
			}
			a := attempts[r.op.A[0]]
			// what happened on the machine
			effect := ""
			sid := fmt.Sprint(r.id)
			for _, o := range e.S.FS.Opened {
				if strings.HasSuffix(o, "/in-"+sid+".txt") || strings.HasSuffix(o, "/out-"+sid+".txt") || strings.HasSuffix(o, "/ld-"+sid+".lsp") {
					effect = "opened " + o
				}
			}
			for _, x := range e.S.FS.Execs {
				if len(x.Args) > 0 && x.Args[0] == "cmd-"+sid {
					effect = "ran a command"
				}
			}
			for _, j := range e.S.FS.Journal {
				if strings.HasSuffix(j.Path, "/port-"+sid+".txt") && (j.Kind == "close" || j.Kind == "write") {
					effect = j.Kind + " on a port"
				}
			}
			if eff[r.id] {
				effect = "evaluated in the global environment"
			}
			if golisp.TopLevelEnvironments.Environments["tl-"+sid] != nil {
				effect = "made a top level environment"
			}
			if strings.Contains(r.out, "<environment>") {
				effect = "reached an environment"
			}
			if r.panicked != "" {
				effect = "panicked"
			}
			where := fmt.Sprintf("%s: %s", map[string]string{"R": "in a restricted environment", "let": "in a restricted let", "lam": "in a restricted function", "clo": "in a closure made in a restricted environment", "mac": "in an environment below a restricted one", "S": "in an environment being restricted", "U": "in an unrestricted environment"}[r.op.K], r.src)
			if must {
				c.Trivial = false
				c.stat("attempts", 1)
				if effect != "" {
					return bad("effect", "%s %s", where, effect)
				}
				if !r.join && r.err == "" {
					return bad("no-error", "%s gives %s instead of an error", where, r.out)
				}
				if r.join && !r.nested && r.out != "()" {
					return bad("no-error", "%s gives %s", where, r.out)
				}
			}
			if !may {
				if r.nested && r.join {
					continue
				}
				if strings.HasPrefix(routes[r.op.A[1]], "J(join (fork F") || strings.HasPrefix(routes[r.op.A[1]], "J(join (schedule 1 F") {
					continue
				}
				if r.panicked != "" {
					return bad("refused", "%s panics: %s", where, r.panicked)
				}
				if r.err != "" && strings.Contains(r.err, "restricted") {
					return bad("refused", "%s fails: %s", where, r.err)
				}
				if r.err == "" && effect == "" && !r.join && a.name != "environment-parent" && a.name != "system-global-environment" && a.name != "find-top-level-environment" {
					return bad("refused", "%s gives %s without the effect", where, r.out)
				}
				if r.err == "" {
					c.stat("allowed", 1)
				} else {
					c.stat("allowed-failed", 1)
				}
			}
		}
	}
	return nil
}
