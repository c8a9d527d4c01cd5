package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C26: finished work holds nothing.

func init() {
	register(&Prop{ID: "C26", Gen: genHolding, Run: runHolding, Quick: 8000, Thorough: 700000,
		Rule: "a run is four rounds of the same 1-4 clients doing 1-6 activities each that use files, loads, profiles, commands, processes, timers, channels, symbols, environments and JSON and give everything back, some of them failing or panicking half way, with I/O errors, a limit on open files, failing starts and stalls; after each round and a while open files, processes, commands and profiling are counted, and the reachable content of every table of the interpreter is compared between rounds; non-trivial when at least one file, process or command was used"})
}

const holdHandler = "(lambda (m) 'failed)"

// Activities.  K is the client's number, N a file's number, H a handler.
var holdings = []string{
	"(let ((p (open-input-file \"in.N\"))) (on-error (read p) H) (on-error (read p) H) (close-port p))",
	"(let ((p (open-input-file \"in.N\"))) (close-port p))",
	"(let ((p (open-input-file \"in.N\"))) (on-error (do ((x (read p) (read p))) ((eof-object? x))) H) (close-port p))",
	"(let ((p (open-input-file \"in.N\"))) (on-error (do ((x (read p) (read p))) ((eof-object? x))) H) (on-error (read p) H) (on-error (read p) H) (close-port p))",
	"(let ((p (open-input-file \"in.N\"))) (on-error (read p) H) (close-port p) (on-error (close-port p) H) (on-error (read p) H))",
	"(let ((p (open-input-file \"in.N\"))) (let ((a (fork (lambda (q) (on-error (read p) H))))) (on-error (close-port p) H) (join a)))",
	"(let ((p (open-input-file \"in.N\"))) (let ((a (fork (lambda (q) (on-error (read p) H)))) (b (fork (lambda (q) (on-error (read p) H) (on-error (read p) H))))) (join a) (join b) (close-port p)))",
	"(let ((p (open-input-file \"missing\"))) (close-port p))",
	"(let ((p (open-input-file \"dir\"))) (on-error (read p) H) (close-port p))", "(let ((p (open-input-file \"dir/in\"))) (on-error (read p) H) (close-port p))", "(let ((p (open-output-file \"dir\" #t))) (close-port p))", "(let ((p (open-output-file \"nodir/x\"))) (close-port p))", "(load \"dir\")", "(on-error (profile (hf 2) \"dir\") H)", "(profile (hf 2) \"nodir/prof\")",
	"(let ((p (open-output-file \"out.K\" #t))) (on-error (begin (write '(1 2) p) (newline p) (write-string \"abc\" p) (format p \"~A\" 5)) H) (close-port p))",
	"(let ((p (open-output-file \"shared\"))) (on-error (write-bytes [1 2 3] p) H) (close-port p))",
	"(let ((p (open-input-file \"in.N\"))) (on-error (let ((o (open-output-file \"copy.K\"))) (on-error (write (read p) o) H) (close-port o)) H) (close-port p))",
	"(let ((p (open-output-file \"out.K\"))) (on-error (read p) H) (close-port p))",
	"(load \"ok.l\")", "(load \"err.l\")", "(load \"bad.l\")", "(load \"panic.l\")", "(load \"nest.l\")", "(load \"missing\")", "(on-error (load \"err.l\") H)", "(on-error (load \"nest2.l\") H)", "(load 5)",
	"(profile (list (hf 2) (hf 3)) \"prof.K\")", "(profile (hf 2))", "(profile (error \"x\") \"prof.K\")", "(profile (panic! \"x\") \"prof.K\")", "(profile (hf (profile (hf 1) \"prof.b\")) \"prof.K\")", "(profile (join (fork (lambda (p) (hf 2)))) \"prof.s\")", "(profile (load \"err.l\") \"prof.K\")", "(on-error (profile (hf 2) \"prof.s\") H)", "(profile (hf 2) 5)",
	"(exec \"cmd\" \"a\" 1)", "(on-error (exec \"cmd\") H)", "(for-each (lambda (x) (exec \"cmd\" x)) '(1 2 3))",
	"(fork (lambda (p) 1))", "(join (fork (lambda (p) (list 1 2))))", "(fork (lambda (p) (error \"x\")))", "(fork (lambda (p) (panic! \"x\")))", "(join (fork (lambda (p) (panic! \"x\"))))", "(fork (lambda (p) (fork (lambda (q) (sleep 5)))))", "(begin (fork (lambda (p) (sleep 20))) (error \"y\"))", "(fork (lambda (p) (join p)))", "(let ((a (fork (lambda (p) (sleep 1))))) (on-error (join a) H) (on-error (join a) H))",
	"(schedule 10 (lambda (p) 1))", "(join (schedule 10 (lambda (p) 1)))", "(schedule 10 (lambda (p) (error \"x\")))", "(schedule 10 (lambda (p) (panic! \"x\")))", "(abandon (schedule 3600000 (lambda (p) 1)))", "(let ((s (schedule 3600000 (lambda (p) 1)))) (reset-timeout s) (sleep 1) (abandon s))", "(let ((s (schedule 20 (lambda (p) 1)))) (reset-timeout s) (reset-timeout s))", "(let ((s (schedule 1 (lambda (p) 1)))) (sleep 1) (abandon s) (join s))", "(let ((s (schedule 3600000 (lambda (p) 1)))) (abandon s) (reset-timeout s) (abandon s) (join s))", "(let ((s (schedule 1 (lambda (p) 1)))) (sleep 1) (reset-timeout s) (sleep 1) (reset-timeout s))",
	"(let ((a (fork (lambda (p) (proc-sleep p 3600000))))) (sleep 1) (wake a) (join a))", "(let ((a (fork (lambda (p) (proc-sleep p 5))))) (sleep 5) (wake a) (wake a))", "(let ((a (fork (lambda (p) (proc-sleep p 3600000) (error \"x\"))))) (wake a))",
	"(let ((c (make-channel))) (fork (lambda (p) (channel-read c))) (sleep 1) (close-channel c))", "(let ((c (make-channel 2))) (channel-write c 1) (channel-write c (list c)) (close-channel c))", "(let ((c (make-channel))) (fork (lambda (p) (channel-write c 1))) (channel-read c))", "(let ((c (make-channel))) (fork (lambda (p) (on-error (channel-write c 1) H))) (sleep 1) (close-channel c))",
	"(gensym)", "(gensym \"pre\")", "(intern \"same\")", "(string->symbol \"same2\")", "(json->lisp \"{\\\"ja\\\": [1, {\\\"jb\\\": 2}]}\")", "(lisp->json {a: 1 b: {c: 2}})", "(list-directory \".\")",
	"(make-top-level-environment \"Held\" '(a b) '(1 2))", "(eval '(define x 1) (make-top-level-environment \"Held\"))", "(let ((e (procedure-environment (lambda (x) x)))) (eval '(define y 5) e))", "(begin (define loc 1) (set! loc (list loc loc)))", "(let ((f {s1: 1 m: (lambda (x) (+ s1 x))})) (m:> f 2) (f: {f: f}))", "(eval '(defmacro (mm x) `(list ,x)))", "(define-record r a b)",
	"(set! hg (list 1 2))", "(set-slot! hfr s1: (list 1))", "(begin (set-slot! hfr tmp: 1) (remove-slot! hfr tmp:))", "(clone hfr)", "(str hfr)", "(write-log \"x\")", "(write-line \"x\")", "(parse \"(a b\")", "(parse \"(a b) c\")", "(eval (parse \"(+ 1 2)\"))", "(format #f \"~A\" 1)", "(error \"x\")", "(panic! \"x\")", "(car 5)", "(no-such 1)", "(lisp-trace #f)", "(debug-trace)", "(time (hf 5))", "(map hf '(1 2 3))", "(atomic-add! hat 1)", "(timer 5 (lambda () 1))", "(random 10)", "(doc 'car)", "(debug-on-entry)", "(begin (add-debug-on-entry hn) (remove-debug-on-entry hn))",
}

func genHolding(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nc := 1 + r.Intn(4)
	w.set("lisp", int64(r.Intn(2)))
	focus := r.Intn(len(holdings))
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 1 + r.Intn(6); n > 0; n-- {
			i := r.Intn(len(holdings))
			if r.Intn(3) == 0 {
				i = focus
			}
			s := holdings[i]
			s = strings.ReplaceAll(s, " H)", " "+holdHandler+")")
			s = strings.ReplaceAll(s, ".K\"", fmt.Sprintf(".%d\"", c))
			s = strings.ReplaceAll(s, "in.N", fmt.Sprintf("in.%d", r.Intn(4)))
			ops = append(ops, Op{K: "do", S: []string{s}})
			if r.Intn(8) == 0 {
				ops = append(ops, Op{K: "pause", A: []int64{int64(r.Intn(10)) * 1000000}})
			}
		}
		w.Clients = append(w.Clients, ops)
	}
	if r.Intn(2) == 0 {
		for n := 1 + r.Intn(3); n > 0; n-- {
			f := simrt.IOFault{Op: []string{"read", "read", "write", "close", "close", "create", "open", "exec"}[r.Intn(8)], N: r.Intn(6), Kind: "err", Rest: r.Intn(2) == 0}
			if f.Op == "write" && r.Intn(2) == 0 {
				f.Kind, f.Arg = []string{"short", "full"}[r.Intn(2)], int64(r.Intn(4))
			}
			w.Faults = append(w.Faults, f)
		}
	}
	if r.Intn(4) == 0 {
		w.set("maxopen", int64(1+r.Intn(4)))
	}
	if r.Intn(3) == 0 {
		w.set("maxread", int64(1+r.Intn(9)))
	}
	if r.Intn(4) == 0 {
		addStalls(w, r, nc)
	}
	return w
}

// footprint counts what is reachable from each package variable of the
// interpreter.
func footprint() map[string]int {
	out := map[string]int{}
	for name, p := range golisp.VerifVars() {
		seen := map[visit]bool{}
		n := 0
		walk(reflect.ValueOf(p).Elem(), seen, &n)
		out[name] = n
	}
	return out
}

type visit struct {
	p uintptr
	t reflect.Type
}

func walk(v reflect.Value, seen map[visit]bool, n *int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		k := visit{v.Pointer(), v.Type()}
		if seen[k] {
			return
		}
		seen[k] = true
		*n++
		if v.Type() == reflect.TypeOf((*D)(nil)) {
			walkData((*D)(v.UnsafePointer()), seen, n)
			return
		}
		walk(v.Elem(), seen, n)
	case reflect.Interface:
		if !v.IsNil() {
			walk(v.Elem(), seen, n)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			*n++
			walk(k, seen, n)
			walk(v.MapIndex(k), seen, n)
		}
	case reflect.Slice, reflect.Array:
		if k := v.Type().Elem().Kind(); k != reflect.Ptr && k != reflect.Interface && k != reflect.Struct && k != reflect.Map && k != reflect.Slice {
			*n += v.Len()
			return
		}
		for i := 0; i < v.Len(); i++ {
			*n++
			walk(v.Index(i), seen, n)
		}
	case reflect.Struct:
		switch p := v.Type().PkgPath(); {
		case p == "verifsim/golisp", p == "verifsim/slist", strings.HasSuffix(p, "set.v0"), p == "":
		default:
			return
		}
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), seen, n)
		}
	}
}

func walkData(d *D, seen map[visit]bool, n *int) {
	in := func(x interface{}) { walk(reflect.ValueOf(x), seen, n) }
	switch golisp.TypeOf(d) {
	case golisp.ConsCellType, golisp.AlistType, golisp.AlistCellType:
		in(golisp.Car(d))
		in(golisp.Cdr(d))
	case golisp.FrameType:
		in(golisp.FrameValue(d))
	case golisp.EnvironmentType:
		in(golisp.EnvironmentValue(d))
	case golisp.FunctionType:
		in(golisp.FunctionValue(d))
	case golisp.MacroType:
		in(golisp.MacroValue(d))
	case golisp.StringType, golisp.SymbolType:
		*n += len(golisp.StringValue(d)) / 64
	}
}

func runHolding(w *Workload, c *Ctx) *Violation {
	var prints []map[string]int
	done := 0
	e := c.Sim(Opt{W: w, Cap: 20000000, Setup: func(e *Exec) {
		fs := e.S.FS
		fs.Put("in.0", []byte("(a b) 1 2 \"str\" sym [1 2] {a: 1}"))
		fs.Put("in.1", []byte(strings.Repeat("(1 \"abc\" sym) ", 40)))
		fs.Put("in.2", []byte("(a (b"))
		fs.Put("in.3", nil)
		fs.Mkdir("dir")
		fs.Put("dir/in", []byte("(a b)"))
		fs.Put("ok.l", []byte("(define lib1 1) (set! lib1 (list 2 3)) (define (lib2 x) x)"))
		fs.Put("err.l", []byte("(define lib1 1) (error \"in file\") (define lib3 1)"))
		fs.Put("bad.l", []byte("(define lib1 1) (list 1 2"))
		fs.Put("panic.l", []byte("(define lib1 1) (panic! \"in file\")"))
		fs.Put("nest.l", []byte("(load \"ok.l\") (load \"err.l\") (load \"ok.l\")"))
		fs.Put("nest2.l", []byte("(load \"ok.l\") (join (fork (lambda (p) (load \"ok.l\")))) (load \"panic.l\")"))
		fs.MaxOpen = int(w.n("maxopen"))
		fs.MaxRead = int(w.n("maxread"))
	}, Root: func(e *Exec) {
		golisp.ParseAndEvalAllInEnvironment("(define (hf n) (if (< n 2) n (+ (hf (- n 1)) 1))) (define (hn) 1) (define hg '()) (define hfr {s1: 1}) (define hat (atomic))", golisp.Global)
		for round := 0; round < 4; round++ {
			left := len(w.Clients)
			body := func(cl int) {
				for i, op := range w.Clients[cl] {
					if op.K == "pause" {
						simrt.SleepNS(op.A[0])
						continue
					}
					e.Do(cl, i, op, func() (*D, error) {
						return golisp.Eval(parse(op.S[0]), golisp.NewSymbolTableFrameBelow(e.Env, "activity"))
					})
					done++
				}
				left--
			}
			for cl := range w.Clients {
				cl := cl
				if w.n("lisp") == 1 {
					e.forkGo(fmt.Sprintf("client%d", cl), func() { body(cl) })
				} else {
					simrt.GoNamed(fmt.Sprintf("client%d", cl), func() { body(cl) })
				}
			}
			for i := 0; left > 0; i++ {
				simrt.SleepNS(1000000000)
				if i > 600 {
					var s []string
					for _, t := range e.S.Alive() {
						s = append(s, t.WaitOn())
					}
					e.Fail("stuck", "round %d: activities that take milliseconds are not done after %d s; processes wait for: %s", round, i, strings.Join(s, ", "))
					return
				}
			}
			simrt.SleepNS(60000000000)
			for _, t := range e.S.Alive() {
				e.Fail("process-left", "after round %d a process is left waiting for %s", round, t.WaitOn())
				return
			}
			if n := e.S.FS.OpenHandles; n != 0 {
				e.Fail("file-left", "after round %d there are %d open files, opened were %s", round, n, strings.Join(last(e.S.FS.Opened, 12), " "))
				return
			}
			for _, r := range e.S.FS.Execs {
				if r.Err == "" && !r.Waited {
					e.Fail("command-left", "after round %d nobody has waited for a command that has finished", round)
					return
				}
			}
			if golisp.ProfileEnabled {
				e.Fail("profiling-left", "after round %d profiling is still enabled", round)
				return
			}
			prints = append(prints, footprint())
		}
		p, err := evalS(e.Env, "(open-input-file \"in.1\")")
		if err == nil {
			_, err = golisp.Eval(call("close-port", p), e.Env)
		}
		if err != nil && !strings.Contains(err.Error(), "input/output") && len(w.Faults) == 0 {
			e.Fail("exhausted", "when all is done a file cannot be opened: %v", err)
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	used := len(e.S.FS.Opened) + len(e.S.FS.Execs) + e.S.NTasks() - 4*len(w.Clients) - 1
	c.Trivial = used <= 0
	c.stat("activities", int64(done))
	var names []string
	for n := range prints[0] {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if prints[3][n] > prints[2][n] && prints[2][n] > prints[1][n] {
			return bad("growth", "with every round more is reachable from the interpreter's %s: %d, %d, %d, %d", n, prints[0][n], prints[1][n], prints[2][n], prints[3][n])
		}
	}
	return nil
}

func last(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}
