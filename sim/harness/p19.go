package main

import (
	"fmt"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C19: every built-in on shared objects of every type.

func init() {
	register(&Prop{ID: "C19", Gen: genShared, Run: runShared, Quick: 100000, Thorough: 3000000,
		Rule: "a run is 2-5 processes (or goroutines of the host) applying any of the built-ins, suitably or unsuitably, to shared lists, alists, frames, environments, channels, atomics, strings, bytearrays, ports, processes, functions and macros, some runs keeping to one or two families of objects; some operations wait (channels, join, sleeps); afterwards every object is used again; non-trivial when two processes used one family of objects"})
}

// The operations by family of object.  V is a value, N a small number, S a
// slot name, Y a symbol, F a function of one argument.
var families = map[string][]string{
	"channel": {"(channel-try-read CH2)", "(channel-try-write CH2 V)", "(channel-try-read CA)", "(channel-try-write CA V)", "(make-channel N)", "(str CA CH2)", "(equal? CA CH2)", "(lisp->json CA)",
		"(for-each (lambda (x) (channel-try-write CH2 x)) L2)"},
	"environment": {"(environment-define EV2 'Y V)", "(environment-assign! EV2 'a V)", "(environment-assign! EV2 'Y V)", "(environment-lookup EV2 'Y)", "(environment-lookup EV2 'a)", "(environment-bindings EV2)", "(environment-bound-names EV2)",
		"(environment-macro-names EV2)", "(environment-reference-type EV2 'Y)", "(environment-bound? EV2 'Y)", "(environment-assigned? EV2 'Y)", "(environment-assignable? EV2 'Y)", "(environment-definable? EV2 'Y)",
		"(environment-lookup-macro EV2 'Y)", "(eval '(define Y V) EV2)", "(eval '(set! Y V) EV2)", "(eval '(begin (set! a (+ a 1)) a) EV2)", "(eval 'Y EV2)", "(eval '(defmacro (Y x) x) EV2)", "(eval '(dump) EV2)", "(eval '(the-environment) EV2)",
		"(str EV2)", "(equal? EV2 EV2)", "(environment-parent EV2)", "(environment-has-parent? EV2)", "(make-top-level-environment \"T1\" '(a b) '(1 2))", "(make-top-level-environment \"EV2\")", "(find-top-level-environment \"T1\")", "(find-top-level-environment \"EV2\")",
		"(eval '((lambda (q) (define r q) (+ r Y)) V) EV2)", "(eval '(let ((q V)) (set! Y q) q) EV2)", "(eval '(do ((i 0 (+ i 1))) ((> i 2) i) (set! Y i)) EV2)", "(eval '(define (Y x) (* x a)) EV2)", "(environment-bindings (procedure-environment FN2))"},
	"global": {"(global-eval '(define Y V))", "(global-eval '(set! Y V))", "(global-eval 'Y)", "(set! GV2 V)", "GV2", "(define Y V)", "(global-eval '(defmacro (Y x) `(+ ,x 1)))", "(global-eval '(define (Y x) (+ x GV2)))", "(FN2 V)", "(MC2 V)", "(expand MC2 V)", "(gensym)", "(gensym-naked \"q\")", "(gensym \"p\")",
		"(intern \"Y\")", "(intern \"newV\")", "(str FN2)", "(definition-of FN2)", "(list car FN2)", "(environment-bound-names (system-global-environment))", "(dump)", "(add-debug-on-entry NC2)", "(remove-debug-on-entry NC2)", "(debug-on-entry)", "(debug-trace #f)", "(lisp-trace #f)", "(debug-on-error #f)",
		"(eval '(MC2 3))", "(apply FN2 '(1))", "(map FN2 L2)", "(load \"lib\")", "(parse \"(+ 1 2)\")", "(random-byte)", "(write-line V)", "(write-log \"note\")", "(time (FN2 1))", "(exec \"cmd\" \"arg\")"},
	"frame": {"(set-slot! FR2 S V)", "(set-slot! FR3 S V)", "(S FR2)", "(S! FR2 V)", "(S? FR2)", "(get-slot FR2 S)", "(get-slot-or-nil FR2 S)", "(has-slot? FR2 S)", "(remove-slot! FR2 S)", "(remove-slot! FR3 S)", "(frame-keys FR2)", "(frame-values FR2)", "(clone FR2)", "(clone FR3)", "(copy FR2)",
		"(equal? FR2 FR3)", "(equal? FR2 (clone FR2))", "(str FR2)", "(lisp->json FR2)", "(json->lisp (lisp->json FR3))", "(json->lisp \"{\\\"a\\\": [1, {\\\"b\\\": 2}]}\")", "(send FR2 n: V)", "(send FR2 m: V)", "(FR2 m: V)", "(m:> FR2 V)", "(send FR3 m: V)", "(send FR2 up: V)", "(send FR2 lk: V)", "(apply-slot FR2 n: '(V))", "(set-slot! FR2 p*: FR3)", "(remove-slot! FR2 p*:)", "(set-slot! FR2 q*: {s9: V})",
		"(set-slot! FR2 S (lambda (x) x))", "(send FR2 S V)", "(set-slot! FR2 n: (lambda (x) (list x s2)))", "(write-line FR2)"},
	"atomic": {"(atomic-load AT2)", "(atomic-store! AT2 W)", "(atomic-add! AT2 W)", "(atomic-swap! AT2 W)", "(atomic-compare-and-swap! AT2 W W)", "(atomic W)", "(str AT2)"},
	"list": {"(append! L2 (list V))", "(set-car! L2 V)", "(set-nth! N L2 V)", "(set-nth! L2 N V)", "(set-cdr! L2 (list V V))", "(length L2)", "(reverse L2)", "(sort L2 <)", "(map F L2)", "(for-each F L2)", "(fold-left + 0 L2)", "(fold-right + 0 L2)", "(reduce + 0 L2)", "(filter even? L2)", "(remove odd? L2)", "(partition 2 L2)", "(sublist L2 0 2)", "(flatten* (list L2 L2))",
		"(append L2 L2)", "(copy L2)", "(union L2 L2)", "(intersection L2 '(1 2))", "(complement L2 '(1))", "(nth L2 N)", "(list-ref L2 N)", "(take N L2)", "(drop N L2)", "(last-pair L2)", "(memq V L2)", "(find even? L2)", "(any even? L2)", "(every even? L2)", "(equal? L2 (copy L2))", "(str L2)", "(cons V L2)", "(apply + L2)", "(min L2)", "(list->bytearray L2)", "(lisp->json L2)", "`(a ,@L2 b)", "(string-join '(\"a\" \"b\") S2)",
		"(assoc 'a AL2)", "(acons 'Y V AL2)", "(dissoc 'a AL2)", "(rassoc 1 AL2)", "(alist AL2)", "(set! AL2 (acons 'Y V AL2))", "(set! L2 (list V V V))", "(pairlis L2 L2 AL2)", "(str AL2)", "(equal? AL2 (copy AL2))"},
	"string": {"(string-upcase! S2)", "(string-downcase! S2)", "(string-capitalize! S2)", "(string-length S2)", "(string-upcase S2)", "(string-split S2 \" \")", "(string-trim S2)", "(substring S2 1 3)", "(substring? \"ha\" S2)", "(string=? S2 \"x\")", "(string<? S2 \"x\")", "(str S2 S2)", "(parse S2)", "(intern S2)", "(string-prefix? S2 \"sh\")", "(format #f \"~A ~A\" S2 V)", "(lisp->json S2)", "(equal? S2 (copy S2))"},
	"bytes":  {"(replace-byte! BA2 N W)", "(replace-byte BA2 N W)", "(extract-byte BA2 N)", "(append-bytes BA2 W)", "(append-bytes! BA2 W)", "(append-bytes! BA2 BA2)", "(append-bytes! BA2 '(1 2 3))", "(extract-bytes BA2 0 2)", "(bytearray->list BA2)", "(str BA2)", "(equal? BA2 (copy BA2))", "(length BA2)", "(write-bytes BA2 PO2)"},
	"port":   {"(write-string \"val \" PO2)", "(write L2 PO2)", "(write V PO2)", "(newline PO2)", "(write-bytes BA2 PO2)", "(format PO2 \"~A\" V)", "(read PI2)", "(read PI2)", "(eof-object? (read PI2))", "(write-string \"con\")", "(newline)", "(write V)", "(close-port PO2)", "(close-port PI2)", "(open-output-file \"out2\" #t)", "(list-directory \".\")", "(str PO2)", "(read (open-input-file \"lib\"))"},
	"api":    {"(h-api A N)", "(h-api A N)", "(h-api A N)", "(h-api A N)", "(api-fn1)", "(api-fn2 1)", "(api-form1 1 2)", "(set-slot! FR2 S V)", "(get-slot FR2 S)", "(eval '(define Y V) EV2)", "(environment-bindings EV2)", "(global-eval '(define Y V))", "(dump)"},
	"process": {"(wake PR2)", "(wake PR3)", "(wake SC2)", "(reset-timeout SC2)", "(reset-timeout PR2)", "(abandon SC2)", "(abandon PR3)", "(str PR2 SC2)", "(fork (lambda (p) (FN2 1)))", "(fork (lambda (p) (proc-sleep p N)))", "(fork (lambda (p) (error \"x\")))", "(fork (lambda (p) (panic! \"x\")))", "(schedule N (lambda (p) (set! GV2 V)))", "(wake (fork (lambda (p) (proc-sleep p 5))))", "(abandon (schedule N (lambda (p) 1)))", "(reset-timeout (schedule 1 (lambda (p) 1)))",
		"(let ((q (schedule N (lambda (p) 1)))) (sleep N) (abandon q))", "(equal? PR2 PR3)"},
}

// apiCalls are uses a host program makes of the package, besides evaluating.
var apiCalls = []func(fr *golisp.FrameMap, frd *D, ev *Env, n int){
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { golisp.Intern(fmt.Sprint("api", n)) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		golisp.Global.BindTo(golisp.Intern(fmt.Sprint("y", n)), num(int64(n)))
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		golisp.Global.BindLocallyTo(golisp.Intern(fmt.Sprint("y", n)), num(int64(n)))
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		golisp.Global.ValueOf(golisp.Intern(fmt.Sprint("y", n)))
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		golisp.Global.FindBindingFor(golisp.Intern(fmt.Sprint("y", n)))
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		ev.SetTo(golisp.Intern("a"), num(int64(n)))
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		ev.BindTo(golisp.Intern(fmt.Sprint("y", n)), str("api"))
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { ev.DeleteBinding("y9") },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		golisp.MakePrimitiveFunction(fmt.Sprint("api-fn", n), "0|1", func(a *D, env *Env) (*D, error) { return num(1), nil })
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		golisp.MakeSpecialForm(fmt.Sprint("api-form", n), "*", func(a *D, env *Env) (*D, error) { return a, nil })
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { fr.Set(fmt.Sprintf("s%d:", n), num(1)) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { fr.Get(fmt.Sprintf("s%d:", n)) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { fr.HasSlot(fmt.Sprintf("s%d:", n)) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { fr.Remove(fmt.Sprintf("s%d:", n)) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { fr.Clone() },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { fr.Keys() },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { fr.Values() },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { fr.Set("n:", fr.Get("m:")) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { golisp.String(frd) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { golisp.PrintString(frd) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { golisp.IsEqual(frd, golisp.Copy(frd)) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { golisp.LispWithFramesToJson(frd) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		golisp.JsonStringToLispWithFrames("{\"s1\": [1, {\"b\": \"x\"}]}")
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { golisp.JsonStringToLisp("{\"s1\": [1, 2.5]}") },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { ev.DumpHeaders() },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { ev.Dump() },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { ev.CurrentCodeString() },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		golisp.NewSymbolTableFrameBelow(golisp.Global, fmt.Sprint("below", n))
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { golisp.ParseAndEval("(define y3 (list 1 2))") },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		golisp.ParseAndEvalAllInEnvironment("(define y2 1) y2", ev)
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { golisp.ProcessFile("lib") },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { golisp.LogPrintf("%d\n", n) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { golisp.LogPrintln("x", n) },
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) {
		golisp.ApplyWithoutEval(golisp.Global.ValueOf(golisp.Intern("FN2")), list(num(int64(n))), ev)
	},
	func(fr *golisp.FrameMap, frd *D, ev *Env, n int) { golisp.ProcessError("api", ev) },
}

var familyNames = []string{"api", "channel", "environment", "global", "frame", "atomic", "list", "string", "bytes", "port", "process"}

// builtins that store an argument in another one; they get only plain values
// so that no object comes to contain itself.
var storing = map[string]bool{"set-slot!": true, "environment-assign!": true, "environment-define": true, "environment-assign": true, "channel-try-write": true, "send": true, "eval": true, "global-eval": true, "send-super": true}

func sharedOdd(r *Rand) string {
	for {
		s := oddCall(r)
		if !storing[strings.Trim(strings.SplitN(s, " ", 2)[0], "()")] {
			return s
		}
	}
}

func familyCall(r *Rand, fam string) string {
	l := families[fam]
	s := l[r.Intn(len(l))]
	rep := func(k string, choice ...string) {
		for {
			i := -1
			for j := 0; j+len(k) <= len(s); j++ {
				if s[j:j+1] == k && (j == 0 || !word(s[j-1])) && (j+1 == len(s) || !word(s[j+1]) || s[j+1] == '?' || s[j+1] == '!') {
					i = j
					break
				}
			}
			if i < 0 {
				return
			}
			s = s[:i] + choice[r.Intn(len(choice))] + s[i+1:]
		}
	}
	rep("W", "1", "2", "5", "6", "200", "-1", "V")
	rep("V", "1", "2", "7", "-3", "200", "\"text\"", "'sy", "(list 1 2)", "#t", "nil", "4.5")
	rep("A", fmt.Sprint(r.Intn(len(apiCalls))))
	rep("N", "0", "1", "2", "3", "9")
	rep("S", "s1:", "s1:", "s2:", "s3:", "t4:")
	rep("Y", "y1", "y2", "y3")
	rep("F", "(lambda (x) x)", "succ", "FN2", "(lambda (x) (sleep 0) x)")
	return s
}

func word(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == ':' || c == '-'
}

func genShared(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nc := 2 + r.Intn(4)
	w.set("lisp", int64(r.Intn(2)))
	var fams []string
	if r.Intn(3) > 0 {
		for n := 1 + r.Intn(2); n > 0; n-- {
			fams = append(fams, familyNames[r.Intn(len(familyNames))])
		}
	} else {
		fams = familyNames
	}
	odd := r.Intn(3) * 2
	waits := r.Intn(3) == 0
	max := 6
	if thorough && r.Intn(4) == 0 {
		max = 14
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 1 + r.Intn(max); n > 0; n-- {
			k := r.Intn(20)
			switch {
			case k < odd:
				ops = append(ops, Op{K: "odd", S: []string{sharedOdd(r)}})
			case k < 10 && waits:
				switch r.Intn(9) {
				case 0, 1:
					ops = append(ops, Op{K: "read", A: []int64{int64(r.Intn(3))}})
				case 2, 3, 4:
					ops = append(ops, Op{K: "write", A: []int64{int64(r.Intn(3))}})
				case 5:
					if r.Intn(4) == 0 {
						ops = append(ops, Op{K: "close", A: []int64{int64(r.Intn(3))}})
					}
				case 6:
					ops = append(ops, Op{K: "join", A: []int64{int64(r.Intn(8))}})
				case 7:
					ops = append(ops, Op{K: "sleep", S: []string{fmt.Sprintf("(sleep %d)", r.Intn(6))}})
				case 8:
					ops = append(ops, Op{K: "sleep", S: []string{fmt.Sprintf("(proc-sleep %s %d)", []string{"PR2", "PR3", "SC2"}[r.Intn(3)], r.Intn(6))}})
				}
			default:
				f := fams[r.Intn(len(fams))]
				ops = append(ops, Op{K: "use", S: []string{familyCall(r, f), f}})
			}
		}
		w.Clients = append(w.Clients, ops)
	}
	addStalls(w, r, nc)
	return w
}

const sharedObjects = oddObjects + `
(define CA (make-channel))
(define CB (make-channel 1))
(define AL2 (list (cons 'a 1) (cons 'b 2)))
(define GV2 1)
(define (FN2 x) (define loc x) (+ loc GV2))
(define (NC2 x) x)
(defmacro (MC2 x) ` + "`" + `(+ ,x GV2))
(define PO2 (open-output-file "out"))
(define PI2 (open-input-file "in"))
(set-slot! FR2 up: (lambda (x) (send-super m: x)))
(set-slot! FR2 lk: (lambda (x) (set! s1 x) (list s1 s2)))
(define PR3 (fork (lambda (p) (proc-sleep p 3) (proc-sleep p 3))))
(define SC2 (schedule 4 (lambda (p) (proc-sleep p 2))))
`

// after uses every object once more.
var sharedAfter = []string{"(channel-try-read CH2)", "(channel-try-write CA 1)", "(set-slot! FR2 s1: 1)", "(set-slot! FR3 s1: 1)", "(str FR2)", "(atomic-load AT2)", "(environment-define EV2 'zz 1)", "(environment-bindings EV2)", "(global-eval '(define zz 1))",
	"(intern \"after\")", "(write-string \"x\" PO2)", "(read PI2)", "(str L2)", "(str AL2)", "(string-upcase! S2)", "(append-bytes! BA2 1)", "(str BA2)", "(FN2 1)", "(MC2 1)", "(join PR2)", "(join (fork (lambda (p) 1)))", "(gensym)", "(write-line 1)", "(write-log \"a\")", "(make-top-level-environment \"T9\")", "(find-top-level-environment \"T9\")"}

// alwaysUsable are those of them that work whatever values the objects hold.
var alwaysUsable = []string{"(set-slot! FR2 s1: 1)", "(set-slot! FR3 s1: 1)", "(str FR2)", "(atomic-load AT2)", "(environment-define EV2 'zz 1)", "(environment-bindings EV2)", "(global-eval '(define zz 1))",
	"(intern \"after\")", "(str L2)", "(str AL2)", "(str BA2)", "(join (fork (lambda (p) 1)))", "(gensym)", "(write-line 1)", "(write-log \"a\")", "(make-top-level-environment \"T9\")", "(find-top-level-environment \"T9\")"}

func runShared(w *Workload, c *Ctx) *Violation {
	chs := []string{"CH2", "CA", "CB"}
	after := map[string]string{}
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		e.S.FS.Put("in", []byte("(a b) 1 2 \"str\" sym [1 2] {a: 1} (c (d)) 3 4 5 6"))
		e.S.FS.Put("lib", []byte("(define lib1 1) (set! lib1 2)"))
	}, Root: func(e *Exec) {
		prim("h-client", func(a []*D, env *Env) (*D, error) {
			i := int(golisp.IntegerValue(a[0]))
			if i < len(e.Procs) {
				return e.Procs[i], nil
			}
			return nil, nil
		})
		prim("h-api", func(a []*D, env *Env) (*D, error) {
			frd := golisp.Global.ValueOf(golisp.Intern("FR2"))
			ev := golisp.Global.ValueOf(golisp.Intern("EV2"))
			apiCalls[golisp.IntegerValue(a[0])](golisp.FrameValue(frd), frd, golisp.EnvironmentValue(ev), int(golisp.IntegerValue(a[1])))
			return nil, nil
		})
		if _, err := golisp.ParseAndEvalAllInEnvironment(sharedObjects, golisp.Global); err != nil {
			panic(setupFailure(err.Error()))
		}
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			src := ""
			switch op.K {
			case "odd", "use", "sleep":
				src = op.S[0]
			case "read":
				src = "(channel-read " + chs[op.A[0]] + ")"
			case "write":
				src = "(channel-write " + chs[op.A[0]] + " 1)"
			case "close":
				src = "(close-channel " + chs[op.A[0]] + ")"
			case "join":
				src = fmt.Sprintf("(join %s)", []string{"PR2", "PR3", "SC2", "(h-client 0)", "(h-client 1)", "(h-client 2)", "(h-client 3)", "(fork (lambda (p) (sleep 1) 2))"}[op.A[0]])
			}
			x := parse(src)
			env := golisp.NewSymbolTableFrameBelow(golisp.Global, "client")
			return golisp.Eval(x, env)
		})
		// who still waits, and for what

		client := map[*simrt.Task]*Ev{}
		for _, h := range e.Hist {
			if h.Ret == 0 {
				client[h.task] = h
			}
		}
		for _, t := range e.S.Alive() {
			h := client[t]
			if h == nil {
				e.Fail("stuck", "a process that waits for nothing the program knows of is blocked: %s", t.WaitOn())
				return
			}
			delete(client, t)
			if h.Op.K != "read" && h.Op.K != "write" && h.Op.K != "join" {
				e.Fail("stuck", "%v blocks on %s", h, t.WaitOn())
				return
			}
			if w := t.WaitOn(); !strings.HasPrefix(w, "chan") && w != "select" {
				e.Fail("stuck", "%v waits for %s", h, w)
				return
			}
		}
		for _, h := range client {
			e.Fail("stuck", "%v is neither done nor blocked", h)
			return
		}
		busy := func(i int) bool { return i < len(w.Clients) && hasPending(e, i) }
		for _, h := range e.Hist {
			if h.Ret != 0 {
				continue
			}
			k := h.Op.A[0]
			switch h.Op.K {
			case "read":
				if v, err := evalS(golisp.Global, "(channel-try-read "+chs[k]+")"); err == nil && golisp.BooleanValue(golisp.Cadr(v)) {
					e.Fail("asleep", "%v waits although the channel held something", h)
				}
			case "write":
				if v, err := evalS(golisp.Global, "(channel-try-write "+chs[k]+" 9)"); err == nil && golisp.BooleanValue(v) {
					e.Fail("asleep", "%v waits although the channel had room", h)
				}
			case "join":
				if k < 3 || k == 7 || !busy(int(k-3)) {
					e.Fail("asleep", "%v waits although the process has finished", h)
				}
			}
		}
		for _, s := range sharedAfter {
			if s == "(channel-try-write CA 1)" || s == "(channel-try-read CH2)" {
				continue
			}
			v, err, pan := tryEval(golisp.Global, parse(s))
			if strings.HasPrefix(s, "(join (fork") && err == nil && pan == "" && enc(v) != "1" {
				after[s] = "gives " + enc(v)
			}
			if pan != "" {
				after[s] = "panic " + pan
			} else if err != nil {
				after[s] = err.Error()
			}
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	for _, s := range alwaysUsable {
		if after[s] != "" {
			return bad("unusable", "afterwards %s fails: %s", s, after[s])
		}
	}
	used := map[string]map[int]bool{}
	for _, h := range e.Hist {
		if len(h.Op.S) > 1 {
			if used[h.Op.S[1]] == nil {
				used[h.Op.S[1]] = map[int]bool{}
			}
			used[h.Op.S[1]][h.Client] = true
		}
	}
	c.Trivial = true
	for _, u := range used {
		if len(u) > 1 {
			c.Trivial = false
		}
	}
	return nil
}

func hasPending(e *Exec, client int) bool {
	for _, h := range e.Hist {
		if h.Client == client && h.Ret == 0 {
			return true
		}
	}
	return false
}
