package main

import (
	"fmt"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C20: the interactive session.

func init() {
	register(&Prop{ID: "C20", Gen: genSession, Run: runSession, Quick: 100000, Thorough: 5000000,
		Rule: "a run is one interactive session of 1-20 lines (definitions, uses of them, malformed text, failing and panicking expressions, built-ins with unsuitable arguments, starts of background processes that work, fail or panic meanwhile, excursions into the debugger) with pauses between lines, ended by end of input or quit; non-trivial when a line failed"})
}

var malformedLines = []string{"(", "(1 2", "(a (b c)", "\"abc", "[1 2", "{a: 1", "'", "(1 . )", "(1 . 2 3)", "(define x", ",", "(let ((a 1)) a", "{a: (1}", "[1 2)", "`(a ,", "(\"x"}

var failingLines = []string{"(error \"boom\")", "(no-such-function 1)", "(+ 1 \"a\")", "(1 2)", "(begin (+ 1 2) (error \"late\"))", "(let ((x 1)) (error x))", "((lambda (x) x))", "(substring \"abc\" 5 9)", "(send {a: 1} b: 2)", "(load \"missing\")", "(if)", "(nth 1 2)", "(string->number 'a)", "(let ((v0 99)) (error \"x\"))", "(do ((v2 0 (+ v2 1))) ((> v2 3) (error \"x\")))", "((lambda (f1) (f1 2 3)) car)", "(let loop ((v1 5)) (if (== v1 0) (error \"x\") (loop (- v1 1))))", "(on-error (error \"x\") (lambda (m) (error m)))", "(begin (define-not v0 4))", "(map (lambda (v3) (car v3 1)) '(1 2))", "(eval '(let ((v0 3)) (no-such v0)))", "(send {v0: 5 m: (lambda (x) (set! v0 x) (error \"x\"))} m: 8)", "(car '(1) '(2))"}

var panickingLines = []string{"(panic! \"p\")", "(h-gopanic 0)", "(h-gopanic 1)", "(h-gopanic 2)", "(begin 1 (panic! \"q\"))", "(map (lambda (x) (panic! x)) '(1 2))", "((lambda (x) (h-gopanic 0)) 1)", "(let ((f {m: (lambda () (panic! \"m\"))})) (send f m:))", "(list 1 (h-gopanic 3))", "(on-error (panic! \"e\") (lambda (m) 1))", "(sort '(2 1 3) (lambda (a b) (panic! \"s\")))", "(let ((v0 99)) (panic! \"x\"))", "((lambda (v1) (panic! v1)) 77)", "(do ((v2 0 (+ v2 1))) ((> v2 3) 1) (if (== v2 2) (panic! \"x\") 1))", "(let loop ((n 30)) (if (== n 0) (panic! \"deep\") (+ 1 (loop (- n 1)))))", "(eval '(let ((v0 3)) (panic! \"x\")))", "(time (panic! \"t\"))", "(apply (lambda (v3) (h-gopanic 1)) '(5))"}

var backgroundLines = []string{"(fork (lambda (p) (error \"bg\")))", "(fork (lambda (p) (panic! \"bg\")))", "(fork (lambda (p) (h-gopanic 1)))", "(schedule 2 (lambda (p) (error \"bg\")))", "(schedule 1 (lambda (p) (panic! \"bg\")))", "(fork (lambda (p) (do ((i 0 (+ i 1))) ((> i 4) i) (sleep 1) (+ i 1))))",
	"(fork (lambda (p) (for-each (lambda (x) (global-eval '(+ 1 2)) (sleep 1)) '(1 2 3 4 5))))", "(fork (lambda (p) (for-each (lambda (x) (global-eval 'zz)) '(1 2 3 4 5 6 7 8))))", "(fork (lambda (p) (global-eval '(map (lambda (x) (+ x 1)) '(1 2 3)))))", "(fork (lambda (p) (set! bgv 1) (write-line \"bg\")))",
	"(fork (lambda (p) (proc-sleep p 3) (car 1)))", "(schedule 1 (lambda (p) (eval '(+ 1 (+ 2 3)) (system-global-environment))))", "(fork (lambda (p) (eval '(+ 1 (+ 2 3)) (procedure-environment bgf))))", "(define (bgf) 1)",
	"(define se (the-environment))", "(define se (the-environment))", "(fork (lambda (p) (for-each (lambda (x) (eval '(+ 1 (+ 2 3)) se)) '(1 2 3 4 5 6 7 8))))", "(fork (lambda (p) (for-each (lambda (x) (eval '(list 1 (list 2)) se) (sleep 1)) '(1 2 3 4))))", "(schedule 1 (lambda (p) (eval '(define zz (+ 1 2)) se)))"}

func genSession(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	kind := swarm(r, 20)
	mode := r.Intn(3) // 0 plain, 1 with background processes, 2 with the debugger
	var ops []Op
	n := 1 + r.Intn(20)
	for len(ops) < n {
		d := int64(0)
		if r.Intn(3) == 0 {
			d = int64(r.Intn(6)) * 500000
		}
		v, x := int64(r.Intn(4)), int64(r.Intn(90))
		next := ">" // the prompt after the line
		add := func(k, s string, a ...int64) {
			ops = append(ops, Op{K: k, S: []string{s, next}, A: append([]int64{d}, a...)})
		}
		switch kind(r) {
		case 16, 17:
			for m := r.Intn(3); m >= 0; m-- {
				add("inc", fmt.Sprintf("(set! v%d (+ v%d %d))", v, v, x), v, x)
			}
		case 18:
			if mode != 2 {
				add("incfail", fmt.Sprintf("(begin (set! v%d (+ v%d %d)) %s)", v, v, x, []string{"(error \"late\")", "(panic! \"late\")", "(no-such-function)", "(h-gopanic 2)"}[r.Intn(4)]), v, x)
			}
		case 19:
			if r.Intn(2) == 0 {
				add("mac", fmt.Sprintf("(defmacro (k%d a . b) `(+ ,a ,@b %d))", v, x), v, x)
			} else {
				add("macuse", fmt.Sprintf("(k%d %d 1)", v, x), v, x)
			}
		case 0, 1:
			add("def", fmt.Sprintf("(define v%d %d)", v, x), v, x)
		case 2:
			add("def", fmt.Sprintf("(begin (define v%d %d) v%d)", v, x, v), v, x)
		case 3, 4:
			add("ref", fmt.Sprintf("v%d", v), v)
		case 5:
			add("sum", fmt.Sprintf("(+ v%d %d)", v, x), v, x)
		case 6:
			add("fun", fmt.Sprintf("(define (f%d a) (+ a %d))", v, x), v, x)
		case 7:
			add("call", fmt.Sprintf("(f%d %d)", v, x), v, x)
		case 8:
			add("bad", malformedLines[r.Intn(len(malformedLines))])
		case 9, 10:
			if mode == 2 && r.Intn(3) == 0 {
				add("half", fmt.Sprintf("(begin (define v%d %d) (panic! \"half\"))", v, x), v, x)
			} else {
				add("fail", failingLines[r.Intn(len(failingLines))])
			}
		case 11, 12:
			add("panic", panickingLines[r.Intn(len(panickingLines))])
		case 13:
			switch r.Intn(4 + mode%2*2) {
			case 5:
				add("lit", "(map (lambda (x) (global-eval '(+ 1 2))) '(1 2 3))")
			case 0:
				add("blank", "")
			case 1:
				add("lit", []string{"5", "\"text\"", "'sym", "(list 1 2)", "#t", "{a: 1}", "[1 2]", "(global-eval '(+ 1 (+ 2 3)))", "(global-eval '(map (lambda (x) (+ x 1)) '(1 2 3)))", "(eval '(list 1 (list 2)) (system-global-environment))", "(fold-left + 0 (map (lambda (x) (global-eval 'car) x) '(1 2 3 4)))"}[r.Intn(11)])
			default:
				s := sharedOdd(r)
				if mode == 1 && strings.Contains(s, "FR") { // objects shared with failing processes
					s = "(length L2)"
				}
				if mode == 2 && (strings.Contains(s, "fork") || strings.Contains(s, "schedule") || strings.Contains(s, "proc-sleep") || strings.Contains(s, "reset-timeout")) {
					s = "(length L2)" // the debugger's steps concern all processes
				}
				add("odd", s)
			}
		case 14:
			if mode == 1 {
				add("bg", backgroundLines[r.Intn(len(backgroundLines))])
			}
		case 15:
			if mode == 1 {
				add("wait", "(sleep 3)")
			} else if mode == 2 {
				excursion(r, &next, add, v, x)
			}
		}
	}
	if r.Intn(5) == 0 {
		ops = append(ops, Op{K: "quit", S: []string{"(quit)", ""}, A: []int64{0}})
	}
	w.Clients = [][]Op{ops}
	addStalls(w, r, 3)
	return w
}

// excursion is a line that enters the debugger, and what is done there.
func excursion(r *Rand, next *string, add func(k, s string, a ...int64), v, x int64) {
	defer func() { *next = ">" }()
	inside := func(max int) {
		for m := r.Intn(max); m > 0; m-- {
			switch r.Intn(8) {
			case 0:
				add("cmd", []string{":b", ":d", ":?", ":f 0", ":f 9", ":f", ":f x", ":(", ":(+", ":(-", ":(+ car", ":(+ nosuch", ":e off", ":t off", ":e", ":e maybe", ":zzz", ":", ":r (", ":r (1 2", ":r (error \"x\")", ":r (panic! \"x\")", ":(- nosuch", ":(- f0"}[r.Intn(24)])
			case 1:
				add("panic", panickingLines[r.Intn(len(panickingLines))])
			case 2:
				add("fail", failingLines[r.Intn(len(failingLines))])
			case 3:
				add("bad", malformedLines[r.Intn(len(malformedLines))])
			case 4:
				add("lit", []string{"(+ 1 2)", "(map (lambda (x) (+ x 1)) '(1 2))", "5"}[r.Intn(3)])
			case 5:
				add("blank", "")
			case 6:
				add("gdef", fmt.Sprintf("(global-eval '(define v%d %d))", v+4, x), v+4, x)
			case 7:
				add("sum", fmt.Sprintf("(+ v%d %d)", v+4, x), v+4, x)
			}
		}
	}
	quit := func(answer string) { // :c, and what the line gives then
		*next = ">"
		add("leave:"+answer, ":c")
	}
	if r.Intn(12) == 0 {
		add("trace", []string{"(lisp-trace #t)", "(lisp-trace #f)", "(debug-trace #t)", "(debug-trace #f)"}[r.Intn(4)])
		return
	}
	if r.Intn(9) == 0 {
		add("lit", "(remove-debug-on-entry (lambda (x) x))")
		return
	}
	*next = "D"
	switch r.Intn(13) {
	case 12: // switches, and malformed requests to change them
		*next = ">"
		f, cmd := "lisp-trace", ":t"
		if r.Intn(2) == 0 {
			f, cmd = "debug-on-error", ":e"
		}
		add("lit", fmt.Sprintf("(%s %s)", f, []string{"#t", "#f"}[r.Intn(2)]))
		if r.Intn(3) > 0 {
			*next = "D"
			add("debug", "(+ 1 (begin (debug) 2))")
			for m := 1 + r.Intn(3); m > 0; m-- {
				add("cmd", cmd+[]string{"", " maybe", " ON", "  on", " on off", " #t", " on", " off", " ", " o"}[r.Intn(10)])
			}
			quit("3")
		}
		add("state", fmt.Sprintf("(%s)", f))
		add("lit", fmt.Sprintf("(%s #f)", f))
	case 11: // frames looked at while other processes evaluate in them
		*next = ">"
		add("lit", "(define se (the-environment))")
		n := 1 + r.Intn(3)
		for m := 0; m < n; m++ {
			add("lit", fmt.Sprintf("(define bg%d %s)", m, []string{"(fork (lambda (p) (for-each (lambda (x) (eval '(+ 1 (+ 2 3)) se)) '(1 2 3 4 5 6 7 8))))", "(fork (lambda (p) (do ((i 0 (+ i 1))) ((> i 9) i) (sleep 1) (eval '(list i) se) (eval '(define zz (+ 1 2)) se))))", "(fork (lambda (p) (do ((i 0 (+ i 1))) ((> i 20) i) (global-eval '(+ 1 (+ 2 3))))))"}[r.Intn(3)]))
		}
		*next = "D"
		add("debug", "(+ 1 (begin (debug) 2))")
		for m := 2 + r.Intn(5); m > 0; m-- {
			add("cmd", []string{":b", ":d", ":f 0", ":f 1", "(+ 1 2)", ":f"}[r.Intn(6)])
		}
		quit("3")
		for m := 0; m < n; m++ { // the debugger's steps concern all processes
			add("lit", fmt.Sprintf("(join bg%d)", m))
		}
	case 0, 1:
		k := r.Intn(5)
		add("debug", []string{"(debug)", "(+ 1 (begin (debug) 2))", "((lambda (x) (debug)) 1)", "(+ 1 (debug))", "(begin (debug) (+ 1 2) (+ 3 4))"}[k])
		inside(6)
		if r.Intn(3) > 0 {
			quit([]string{"()", "3", "()", "!", "7"}[k])
		} else {
			*next = ">"
			add("leave:"+[]string{"8", "3", "8", "9", "7"}[k], []string{":r 8", ":r (+ 3 5)", ":r (car '(8 1))"}[r.Intn(3)])
		}
	case 2: // steps
		k := r.Intn(3)
		add("debug", []string{"(begin (debug) (+ 1 2) (+ 3 4))", "(begin (debug) (error \"after\"))", "(begin (debug) (panic! \"after\"))"}[k])
		for m := 1 + r.Intn(2); m > 0; m-- {
			inside(3)
			add("cmd", ":s")
		}
		inside(3)
		answer := []string{"7", "!", "!"}[k]
		if r.Intn(2) == 0 {
			quit(answer)
		} else {
			*next = ">"
			add("leave:"+answer, ":r 60")
		}
	case 3: // steps until the line is done
		add("debug", []string{"(debug)", "((lambda (x) (debug)) 1)", "(list (debug))"}[r.Intn(3)])
		inside(3)
		*next = ">"
		add("leave:", ":s")
	case 4: // up
		switch r.Intn(3) {
		case 0:
			add("debug", "(begin ((lambda (x) (debug) x) 1) (+ 1 2))")
			inside(3)
			add("cmd", ":u")
			inside(3)
			quit("3")
		case 1:
			add("debug", "((lambda (x) (debug) (+ x 1)) 1)")
			inside(3)
			*next = ">"
			add("leave:2", ":u")
		case 2:
			add("debug", "((lambda (x) (debug) (error \"x\")) 1)")
			inside(3)
			*next = ">"
			add("leave:!", ":u")
		}
	case 5: // on error
		*next = ">"
		add("lit", "(debug-on-error #t)")
		*next = "D"
		add("fail", []string{"(error \"boom\")", "(+ 1 \"a\")", "(nth 1 2)", "(if)"}[r.Intn(4)])
		if r.Intn(2) == 0 {
			add("panic", panickingLines[r.Intn(len(panickingLines))])
		}
		*next = ">"
		add("leave:", ":c")
		add("lit", "(debug-on-error #f)")
	case 6, 7: // on entry
		*next = ">"
		add("def", fmt.Sprintf("(define (de%d a) (+ a %d))", v, x), 100+v, x)
		if r.Intn(2) == 0 {
			add("lit", fmt.Sprintf("(add-debug-on-entry de%d)", v))
		} else {
			*next = "D"
			add("debug", "(debug)")
			add("cmd", fmt.Sprintf(":(+ de%d", v))
			add("listed", ":(", v, 1)
			quit("()")
		}
		*next = "D"
		add("debug", fmt.Sprintf("(de%d 3)", v))
		inside(3)
		quit(fmt.Sprint(x + 3))
		if r.Intn(3) == 0 {
			*next = "D"
			add("debug", fmt.Sprintf("(map (lambda (z) (de%d z)) '(5))", v))
			inside(3)
			quit(fmt.Sprintf("(%d)", x+5))
		}
		if r.Intn(2) == 0 {
			add("lit", fmt.Sprintf("(remove-debug-on-entry de%d)", v))
		} else {
			*next = "D"
			add("debug", "(debug)")
			add("cmd", fmt.Sprintf(":(- de%d", v))
			add("listed", ":(", v, 0)
			quit("()")
		}
		add("value", fmt.Sprintf("(de%d 4)", v), x+4)
	case 8: // one debugger inside another
		add("debug", "(begin (debug) (+ 1 2))")
		inside(3)
		add("debug", []string{"(debug)", "(+ 1 (begin (debug) 2))"}[r.Intn(2)])
		inside(3)
		add("cmd", []string{":c", ":r 5"}[r.Intn(2)])
		inside(3)
		quit("3")
	case 9: // left by an error outside
		add("debug", "(list 1 (begin (debug) (no-such-function 1)))")
		inside(4)
		quit("!")
	case 10: // left open
		add("debug", "(debug)")
		inside(4)
		quit("()")
	}
}

// malformedCommand tells whether a command of the debugger is one it has to
// complain about.
func malformedCommand(s string) bool {
	switch t := strings.Split(s, " "); t[0] {
	case ":e", ":t":
		return len(t) != 2 || t[1] != "on" && t[1] != "off"
	case ":f":
		return len(t) != 2 || t[1] == "x"
	case ":r":
		return t[1] != "8" && t[1] != "60" && t[1] != "5" && t[1] != "(+" && t[1] != "(car"
	case ":(+", ":(-":
		return len(t) != 2 || t[1] == "nosuch"
	}
	return false
}

func runSession(w *Workload, c *Ctx) *Violation {
	lines := w.Clients[0]
	e := c.Sim(Opt{W: w, Root: func(e *Exec) {
		goPanics()
		if _, err := golisp.ParseAndEvalAllInEnvironment(oddObjects, golisp.Global); err != nil {
			panic(setupFailure(err.Error()))
		}
		for len(simrt.S.Alive()) > 0 {
			simrt.SleepNS(1000)
		}
		for _, op := range lines {
			e.S.FS.Lines = append(e.S.FS.Lines, op.S[0])
			e.S.FS.LineDelay = append(e.S.FS.LineDelay, op.A[0])
		}
		golisp.Repl()
		e.Fail("returned", "the session returns to its caller after %d of %d lines", len(e.S.FS.Prompts), len(lines))
	}})
	if e.out.Kind != simrt.OutExit {
		return e.Crash()
	}
	if e.bad != nil {
		return e.bad
	}
	if e.out.Msg != "0" {
		return bad("status", "the session exits with status %s", e.out.Msg)
	}
	fs := e.S.FS
	ps := fs.Prompts
	// the line that ends the session
	last := len(lines)
	for i, op := range lines {
		if op.K == "quit" {
			last = i
			break
		}
	}
	if len(ps) != last+1 || last == len(lines) && !ps[last].EOF {
		at := ""
		if len(ps) > 0 {
			at = ps[len(ps)-1].Line
		}
		all := ""
		for _, p := range ps {
			all += fmt.Sprintf("\n%q %q", p.Prompt, p.Line)
		}
		return bad("ended", "the session ends at line %d of %d: %s; all:%s", len(ps), len(lines), at, all)
	}
	vars := map[int64]string{}
	funs := map[int64]int64{}
	macs := map[int64]int64{}
	switches := map[string]string{"(lisp-trace)": "#f", "(debug-on-error)": "#f"}
	c.Trivial = true
	for i, p := range ps {
		if p.EOF || i >= last {
			break
		}
		op := lines[i]
		until := int64(1) << 62
		if i+1 < len(ps) {
			until = ps[i+1].Seq
		}
		var out []string
		text := ""
		for _, ev := range fs.Console {
			if ev.Seq > p.Seq && ev.Seq < until && ev.Task == 0 {
				text += ev.Text
			}
		}
		for _, l := range strings.Split(text, "\n") {
			if l != "" {
				out = append(out, l)
			}
		}
		var values, errors []string
		for _, l := range out {
			if strings.HasPrefix(l, "==> ") {
				values = append(values, l[4:])
			}
			if strings.HasPrefix(l, "Error") || strings.HasPrefix(l, "ERROR") || strings.HasPrefix(l, "Don't Panic") {
				errors = append(errors, l)
			}
		}
		ctx := fmt.Sprintf("line %d %s (at %q) is answered by %q", i+1, op.S[0], p.Prompt, out)
		value := func(v string) *Violation {
			if len(values) != 1 || len(errors) > 0 {
				return bad("answer", "%s", ctx)
			}
			if v != "" && values[0] != v {
				return bad("value", "%s instead of %s", ctx, v)
			}
			return nil
		}
		failed := func() *Violation {
			c.Trivial = false
			if len(errors) != 1 || len(values) > 0 {
				return bad("answer", "%s", ctx)
			}
			return nil
		}
		var v *Violation
		if i+1 < len(ps) && op.S[1] != "" && !strings.HasPrefix(ps[i+1].Prompt, op.S[1]) {
			return bad("prompt", "after %s the prompt is %q instead of %q", ctx, ps[i+1].Prompt, op.S[1]+"> ")
		}
		kind := op.K
		if strings.HasPrefix(kind, "leave") {
			kind = "leave"
		}
		switch op.S[0] {
		case "(lisp-trace #t)", ":t on":
			switches["(lisp-trace)"] = "#t"
		case "(lisp-trace #f)", ":t off":
			switches["(lisp-trace)"] = "#f"
		case "(debug-on-error #t)", ":e on":
			switches["(debug-on-error)"] = "#t"
		case "(debug-on-error #f)", ":e off":
			switches["(debug-on-error)"] = "#f"
		}
		switch kind {
		case "cmd":
			if strings.HasPrefix(p.Prompt, "D") && malformedCommand(op.S[0]) && len(out) == 0 {
				v = bad("answer", "%s: nothing is reported", ctx)
			}
		case "listed":
			found := false
			for _, l := range out {
				found = found || l == fmt.Sprint("de", op.A[1])
			}
			if found != (op.A[2] == 1) {
				v = bad("listed", "%s", ctx)
			}
		case "state":
			v = value(switches[op.S[0]])
		case "leave":
			switch x := strings.TrimPrefix(op.K, "leave:"); x {
			case "":
			case "!":
				v = failed()
			default:
				v = value(x)
			}
		case "value":
			v = value(fmt.Sprint(op.A[1]))
		case "trace":
			v = value("")
		case "gdef":
			v = value("")
			vars[op.A[1]] = fmt.Sprint(op.A[2])
		case "def":
			v = value("")
			vars[op.A[1]] = fmt.Sprint(op.A[2])
		case "half":
			v = failed()
			vars[op.A[1]] = fmt.Sprint(op.A[2])
		case "fun":
			v = value("")
			funs[op.A[1]] = op.A[2] + 1000
		case "ref":
			x := vars[op.A[1]]
			if x == "" {
				x = "()"
			}
			v = value(x)
		case "sum":
			if x := vars[op.A[1]]; x != "" {
				var n int64
				fmt.Sscan(x, &n)
				v = value(fmt.Sprint(n + op.A[2]))
			} else {
				v = failed()
			}
		case "inc", "incfail":
			x := vars[op.A[1]]
			if x == "" {
				v = failed()
				break
			}
			var n int64
			fmt.Sscan(x, &n)
			vars[op.A[1]] = fmt.Sprint(n + op.A[2])
			if op.K == "incfail" {
				v = failed()
			} else {
				v = value(vars[op.A[1]])
			}
		case "mac":
			v = value("")
			macs[op.A[1]] = op.A[2] + 1000
		case "macuse":
			if x := macs[op.A[1]]; x != 0 {
				v = value(fmt.Sprint(x - 1000 + op.A[2] + 1))
			} else {
				v = failed()
			}
		case "call":
			if x := funs[op.A[1]]; x != 0 {
				v = value(fmt.Sprint(x - 1000 + op.A[2]))
			} else {
				v = failed()
			}
		case "bad", "fail", "panic":
			v = failed()
		case "lit", "bg", "wait":
			v = value("")
		case "odd":
			if len(errors) > 0 && len(values) == 0 {
				c.Trivial = false
			} else if !strings.Contains(text, "==> ") { // not at the start of a line if it wrote something itself
				v = bad("answer", "%s", ctx)
			}
		}
		if v != nil {
			return v
		}
	}
	return nil
}
