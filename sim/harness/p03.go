package main

import (
	"fmt"
	"unsafe"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C03: fork and join.

func init() {
	register(&Prop{ID: "C03", Gen: genFork, Run: runFork, Quick: 60000, Thorough: 2500000,
		Rule: "a run is 1-4 clients forking 1-8 processes from 25 kinds of bodies (values of all kinds as arguments and results, short and long sleeps, loops, deep recursion, errors, handled errors, panics, self joins directly and from 27 kinds of forms (calls, closures of others, list functions, loops, methods, handlers, macro expansions, eval), nested forks, fans of processes, joins of other processes and of the parent, channel waits, variable arguments, calls of the forked functions), misuse of fork and join, and joining them in any order, number and from anywhere; non-trivial when at least one process was forked and one join issued"})
}

const forkKinds = 24
const forkWays = 26 // of joining oneself (kind 6)

// forkVals are arguments and results besides small numbers; x is 100 and up.
var forkVals = []string{"\"text\"", "#f", "#t", "'sym", "'slot:", "2.5", "9223372036854775807", "-1", "nil", "'(1 (2) \"x\")", "\"\"", "obj0", "obj1", "obj2", "obj3", "obj4", "obj5", "obj6", "obj7", "obj8", "obj9"}

// forkAny are the kinds that take any argument.
var forkAny = map[int64]bool{0: true, 1: true, 3: true, 5: true, 7: true, 8: true, 11: true, 12: true, 13: true, 14: true, 15: true, 16: true, 17: true, 18: true, 20: true, 21: true}

func forkExpr(x int64) string {
	if x >= 100 {
		return forkVals[x-100]
	}
	return fmt.Sprint(x)
}

// forkEnc is how x shows.
func forkEnc(x int64) string {
	s := forkExpr(x)
	switch {
	case s == "nil":
		return "()"
	case s == "2.5":
		return "2.5f"
	case s[0] == '\'':
		return s[1:]
	}
	return s
}

func genFork(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nc := 1 + r.Intn(4)
	np := 1 + r.Intn(7)
	w.Clients = make([][]Op, nc)
	w.set("lisp", int64(r.Intn(2)))
	w.set("vararg", int64(r.Intn(4)))
	fav := int64(-1)
	if r.Intn(3) == 0 {
		fav = int64(r.Intn(forkKinds))
	}
	kind := swarm(r, forkKinds)
	for i := 0; i < np; i++ {
		c := r.Intn(nc)
		k := int64(kind(r))
		if fav >= 0 && r.Intn(2) == 0 {
			k = fav
		}
		x := int64(r.Intn(5))
		if k == 6 {
			x = int64(r.Intn(forkWays))
		}
		if r.Intn(400) == 0 { // joins itself from code evaluated in another environment
			k, x = 24, int64(r.Intn(3))
		}
		if forkAny[k] && r.Intn(2) == 0 {
			x = 100 + int64(r.Intn(len(forkVals)))
		}
		if k == 9 || k == 23 {
			x = int64(r.Intn(i + 1)) // joins an earlier process
			if x == int64(i) {
				k = 0
			}
		}
		w.Clients[c] = append(w.Clients[c], Op{K: "fork", A: []int64{int64(i), k, x}})
		if k == 10 {
			w.Clients[c] = append(w.Clients[c], Op{K: "feed", A: []int64{int64(i), x}})
		}
		for r.Intn(5) < 3 {
			d := r.Intn(nc)
			t := int64(r.Intn(i + 1))
			if r.Intn(5) == 0 {
				w.Clients[d] = append(w.Clients[d], Op{K: "pause", A: []int64{int64(r.Intn(9)) * 1000000}})
			}
			w.Clients[d] = append(w.Clients[d], Op{K: "join", A: []int64{t}})
		}
		if r.Intn(6) == 0 {
			w.Clients[c] = append(w.Clients[c], Op{K: "call", A: []int64{500 + int64(i), []int64{0, 1, 16, 7, 11}[r.Intn(5)], int64(r.Intn(5))}})
		}
		if r.Intn(12) == 0 {
			w.Clients[c] = append(w.Clients[c], Op{K: "forkbad", A: []int64{600 + int64(i), int64(r.Intn(11)), x}, S: []string{misuse("process", r)}})
		}
	}
	if r.Intn(3) == 0 {
		for c := range w.Clients { // joins after everything
			for i := 0; i < np; i++ {
				if r.Intn(3) == 0 {
					w.Clients[c] = append(w.Clients[c], Op{K: "join", A: []int64{int64(i)}})
				}
			}
		}
	}
	addStalls(w, r, nc+np)
	return w
}

const forkLib = `
(define (jn me k) (h-join me k))
(define (w0 p me x) (h-ran me p x) (h-end me) (list 'r me x))
(define (w1 p me x) (h-ran me p x) (h-end me) nil)
(define (w2 p me x) (h-ran me p x) (sleep (+ x (% me 3))) (h-end me) (list 'r me x))
(define (w3 p me x) (h-ran me p x) (h-end me) (no-such-function x) (h-late me) (list 'r me x))
(define (w4 p me x) (h-ran me p x) (h-end me) (h-panic x) (h-late me) (list 'r me x))
(define (w5 p me x) (h-ran me p x) (let ((v (h-join me me))) (h-end me) (list 'self v x)))
(defmacro (mj who) (list 'quote (h-join who who)))
(define (w6 p me x) (h-ran me p x)
  (let ((v (case x
             ((0) (jn me me))
             ((1) (car (map (lambda (k) (h-join me k)) (list me))))
             ((2) (let* ((a me) (b (jn a a))) b))
             ((3) (apply jn (list me me)))
             ((4) (begin (define (inner z) (jn z z)) (inner me)))
             ((5) (let ((out 7)) (for-each (lambda (k) (set! out (jn me k))) (list me)) out))
             ((6) (if (nil? (filter (lambda (k) (jn me k) #f) (list me))) nil 7))
             ((7) (fold-left (lambda (a k) (jn me k)) 0 (list me)))
             ((8) (let loop ((n 3) (v 7)) (if (== n 0) v (loop (- n 1) (jn me me)))))
             ((9) (m:> {m: (lambda (k) (jn k k))} me))
             ((10) (let ((out 7)) (sort (list 2 1) (lambda (a b) (set! out (jn me me)) #t)) out))
             ((11) (letrec ((f (lambda (n) (if (== n 0) (jn me me) (f (- n 1)))))) (f 2)))
             ((12) (let ((d {d: 1})) (do ((i 0 (+ i 1)) (v 7 (jn me me))) ((== i 2) v))))
             ((13) (cond ((jn me me) 7) (else nil)))
             ((14) (eval (list 'jn me me)))
             ((15) (on-error (jn me me) (lambda (m) 7)))
             ((16) ((lambda (k . rest) (jn k k)) me))
             ((17) (let ((self-me me)) (fold-right (lambda (k a) (jn k k)) 0 (list me))))
             ((18) (if (any (lambda (k) (jn k k)) (list me)) 7 nil))
             ((19) (unless nil (jn me me)))
             ((20) (apply-slot {m: (lambda (k) (jn k k))} m: (list me)))
             ((21) (let* ((f {m: (lambda (k) (n:> self k)) n: (lambda (k) (jn k k))})) (m:> f me)))
             ((22) (let ((f {proto*: {m: (lambda (k) (jn k k))} m: (lambda (k) (send-super m: k))})) (m:> f me)))
             ((23) (eval ` + "`" + `(jn ,me ,me)))
             ((24) (car (list (when #t (jn me me)))))
             (else (eval (list 'mj me))))))
    (h-end me) (list 'self v x)))
(define (w7 p me x) (h-ran me p x) (h-put (+ me 1000) 0 x (fork w0 (+ me 1000) x))
  (let ((v (h-join me (+ me 1000)))) (h-end me) (list 'nest v)))
(define (w8 p me x) (h-ran me p x) (h-put (+ me 1000) 2 x (fork w2 (+ me 1000) x)) (h-end me) (list 'r me x))
(define (w9 p me x) (h-ran me p x) (let ((v (h-join me x))) (h-end me) (list 'other (if (nil? v) 1 2))))
(define (w10 p me x) (h-ran me p x) (let ((v (channel-read (h-chan me)))) (h-end me) v))
(define (wv p me x . rest) (h-ran me p x))
(define (w12 p me x) (h-ran me p x)
  (if (< me 3000)
      (begin (h-put (+ me 1000) 12 x (fork w12 (+ me 1000) x))
             (let ((v (h-join me (+ me 1000)))) (h-end me) (list 'rec v)))
      (begin (h-end me) (list 'leaf me))))
(define (w24 p me x) (h-ran me p x)
  (let ((v (case x
             ((0) (eval (list 'h-join me me 0) (system-global-environment)))
             ((1) (global-eval (list 'h-join me me 1)))
             (else (load (format #f "join~A.lsp" me))))))
    (h-end me) (list 'self v x)))
(define w13 (lambda (p me x) (h-ran me p x) (h-end me) (h-join me me) (h-join me me) "done"))
(define (w14 p me x) (h-ran me p x) (h-put (+ me 1000) 5 x (fork w5 (+ me 1000) x)) (h-join me me)
  (let ((v (h-join me (+ me 1000)))) (h-end me) (list 'nest v)))
(define (w15 p me x) (h-ran me p x)
  (let ((ps (map (lambda (k) (let ((n (+ me (* 1000 k)))) (h-put n 0 x (fork w0 n x)) n)) '(1 2 3))))
    (let ((v (map (lambda (n) (h-join me n)) ps))) (h-end me) (list 'fan v))))
(define (w16 p me x) (h-ran me p x) (do ((i 0 (+ i 1))) ((== i 3) (h-end me) (list 'r me x)) (if (== (% i 2) 0) (sleep 0) (h-join me me))))
(define (w17 p me x) (h-ran me p x) (let ((v (on-error (no-such-function x) (lambda (m) (h-join me me) x) (lambda () 'none)))) (h-end me) (list 'caught v)))
(define (w18 p me x) (h-ran me p x) (define (down n) (if (== n 0) (h-join me me) (begin (down (- n 1)) n))) (down 12) (h-end me) x)
(define (w19 p me x) (h-ran me p x) (sleep (* (+ x 1) 7000)) (h-end me) (list 'r me x))
(define (w20 p me x) (h-ran me p x) (h-put (+ me 1000) 21 x (fork w21 (+ me 1000) x)) (sleep 1) (h-end me) x)
(define (w21 p me x) (h-ran me p x) (let ((v (h-join me (- me 1000)))) (h-end me) (list 'other (if (nil? v) 1 2))))
(define (w22 p me x) (h-ran me p x) (h-give me (lambda (who k) (h-join who k))) (h-end me) (list 'r me x))
(define (w23 p me x) (h-ran me p x) (let* ((f (h-taken x)) (s (f me me)) (v (f me x))) (h-end me) (list 'other (if (nil? s) 1 2))))
`

// forkVar are functions of a variable number of arguments: all of them
// optional but the process, or some or all of those given required.
var forkVar = []string{
	"(define (w11 p . rest) (h-ran (car rest) p (cadr rest)) (h-end (car rest)) rest)",
	"(define (w11 p me . rest) (h-ran me p (car rest)) (h-end me) (cons me rest))",
	"(define (w11 p me x . rest) (h-ran me p x) (h-end me) (cons me (cons x rest)))",
	"(define w11 (lambda (p me x . rest) (h-ran me p x) (h-end me) (append (list me x) rest)))",
}

func forkWant(k, me, x int64) (string, bool) { return forkWantEnc(k, me, forkEnc(x)) }

func forkWantEnc(k, me int64, xs string) (string, bool) {
	r := fmt.Sprintf("(r %d %s)", me, xs)
	switch k {
	case 0, 2, 8, 16, 19, 22:
		return r, true
	case 1, 3, 4:
		return "()", true
	case 5, 6, 24:
		return fmt.Sprintf("(self () %s)", xs), true
	case 7:
		return fmt.Sprintf("(nest (r %d %s))", me+1000, xs), true
	case 14:
		return fmt.Sprintf("(nest (self () %s))", xs), true
	case 15:
		return fmt.Sprintf("(fan ((r %d %s) (r %d %s) (r %d %s)))", me+1000, xs, me+2000, xs, me+3000, xs), true
	case 17:
		return fmt.Sprintf("(caught %s)", xs), true
	case 18, 20:
		return xs, true
	case 23:
		return "(other 1)", true
	case 10:
		return fmt.Sprintf("(%s #t)", xs), true
	case 11:
		return fmt.Sprintf("(%d %s)", me, xs), true
	case 12:
		s := fmt.Sprintf("(leaf %d)", me%1000+3000)
		for i := me; i < 3000; i += 1000 {
			s = "(rec " + s + ")"
		}
		return s, true
	case 13:
		return "\"done\"", true
	}
	return "", false // depends on the race (kind 9)
}

type procRec struct {
	k      int64
	x      string
	obj    unsafe.Pointer
	put    int64
	ran    int
	ranX   string
	ranObj unsafe.Pointer
	end    int64
	late   bool
	call   bool
	bad    bool
}

func runFork(w *Workload, c *Ctx) *Violation {
	recs := map[int64]*procRec{}
	get := func(i int64) *procRec {
		if recs[i] == nil {
			recs[i] = &procRec{}
		}
		return recs[i]
	}
	pobjs := map[int64]*D{}
	chans := map[int64]*D{}
	given := map[int64]*D{}
	var labels objs
	var alive []string
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		iv := golisp.IntegerValue
		prim("h-ran", func(a []*D, env *Env) (*D, error) {
			r := get(iv(a[0]))
			r.ran++
			r.ranX = enc(labels.label(a[2]))
			if golisp.ObjectP(a[1]) {
				r.ranObj = golisp.ObjectValue(a[1])
			}
			return nil, nil
		})
		prim("h-end", func(a []*D, env *Env) (*D, error) { get(iv(a[0])).end = simrt.Seq(); return nil, nil })
		prim("h-late", func(a []*D, env *Env) (*D, error) { get(iv(a[0])).late = true; return nil, nil })
		prim("h-panic", func(a []*D, env *Env) (*D, error) {
			c.stat("inject-panic", 1)
			if iv(a[0])%2 == 0 {
				panic("injected panic")
			}
			var m map[string]int
			m["x"] = 1
			return nil, nil
		})
		prim("h-put", func(a []*D, env *Env) (*D, error) {
			r := get(iv(a[0]))
			r.k = iv(a[1])
			r.x = enc(labels.label(a[2]))
			if golisp.ObjectP(a[3]) {
				r.obj = golisp.ObjectValue(a[3])
			}
			r.put = simrt.Seq()
			pobjs[iv(a[0])] = a[3]
			return a[3], nil
		})
		prim("h-chan", func(a []*D, env *Env) (*D, error) { return chans[iv(a[0])], nil })
		prim("h-join", func(a []*D, env *Env) (*D, error) {
			me, j := iv(a[0]), iv(a[1])
			for k := 0; pobjs[j] == nil && k < 2000; k++ {
				simrt.SleepNS(1000) // not forked yet
			}
			if pobjs[j] == nil {
				return nil, nil
			}
			var v *D
			op := Op{K: "join", A: []int64{j}, S: []string{"proc"}}
			if len(a) > 2 {
				op.S = append(op.S, []string{"eval with an environment", "global-eval", "load"}[iv(a[2])])
			}
			e.Do(int(me), 0, op, func() (*D, error) {
				var err error
				v, err = golisp.Eval(call("join", pobjs[j]), env)
				return labels.label(v), err
			})
			return v, nil
		})
		prim("h-give", func(a []*D, env *Env) (*D, error) { given[iv(a[0])] = a[1]; return nil, nil })
		prim("h-taken", func(a []*D, env *Env) (*D, error) {
			for k := 0; given[iv(a[0])] == nil && k < 200; k++ {
				simrt.SleepNS(1000)
			}
			if f := given[iv(a[0])]; f != nil {
				return f, nil
			}
			return golisp.Eval(parse("(lambda (who k) (h-join who k))"), e.Env)
		})
		labels = defObjs(e)
		e.must(forkLib)
		e.must(forkVar[w.n("vararg")])
		for _, cl := range w.Clients {
			for _, op := range cl {
				if op.K == "fork" && op.A[1] == 24 {
					e.S.FS.Put(fmt.Sprintf("join%d.lsp", op.A[0]), []byte(fmt.Sprintf("(h-join %d %d 2)\n", op.A[0], op.A[0])))
				}
				if op.K == "fork" {
					chans[op.A[0]] = e.must("(make-channel)")
				}
			}
		}
	}, Root: func(e *Exec) {
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			a := op.A
			switch op.K {
			case "fork":
				return evalS(e.Env, fmt.Sprintf("(h-put %d %d %s (fork w%d %d %s))", a[0], a[1], forkExpr(a[2]), a[1], a[0], forkExpr(a[2])))
			case "feed":
				return golisp.Eval(call("channel-write", chans[a[0]], num(a[1])), e.Env)
			case "join":
				for k := 0; pobjs[a[0]] == nil && k < 2000; k++ {
					simrt.SleepNS(1000)
				}
				if pobjs[a[0]] == nil {
					return sym("skipped"), nil
				}
				d, err := golisp.Eval(call("join", pobjs[a[0]]), e.Env)
				return labels.label(d), err
			case "call":
				get(a[0]).call = true
				get(a[0]).x = forkEnc(a[2])
				return evalS(e.Env, fmt.Sprintf("(w%d 0 %d %d)", a[1], a[0], a[2]))
			case "forkbad":
				get(a[0]).bad = true
				switch a[1] {
				case 0:
					return evalS(e.Env, fmt.Sprintf("(fork w0 %d)", a[0]))
				case 1:
					return evalS(e.Env, fmt.Sprintf("(fork w0 %d 1 2)", a[0]))
				}
				if a[1] == 10 {
					return evalS(e.Env, op.S[0])
				}
				if a[1] > 2 {
					return evalS(e.Env, []string{"(join 5)", "(join obj4)", "(join)", "(join nil)", "(fork car 1)", fmt.Sprintf("(fork wv %d)", a[0]), fmt.Sprintf("(begin (define (wv2 p a b c . rest) (h-ran a p 0)) (fork wv2 %d 0))", a[0])}[a[1]-3])
				}
				return evalS(e.Env, fmt.Sprintf("(fork (h-ran %d 0 0))", a[0]))
			}
			return nil, nil
		})
		for _, t := range e.S.Alive() {
			alive = append(alive, t.Name+": "+t.WaitOn())
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	type jn struct{ ok, err, pend []*Ev }
	joins := map[int64]*jn{}
	self := func(me int, j int64) bool {
		return int64(me) == j
	}
	nj := 0
	for _, h := range e.Hist {
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		switch h.Op.K {
		case "fork", "feed", "call":
			if h.Ret == 0 {
				return bad("blocked", "%v never returns although nothing prevents it", h)
			}
			if h.Err != "" {
				return bad("error", "%v fails: %s", h, h.Err)
			}
			if h.Op.K == "call" {
				want, ok := forkWant(h.Op.A[1], h.Op.A[0], h.Op.A[2])
				if ok && h.Out != want {
					return bad("call-result", "calling a function that is also forked gives %s, expected %s", h.Out, want)
				}
			}
		case "forkbad":
			if h.Err == "" {
				// the third form passes a value that is not a function
				return bad("fork-misuse", "%v is accepted: %s", h, h.Out)
			}
		case "join":
			if h.Out == "skipped" {
				continue
			}
			nj++
			j := h.Op.A[0]
			// Client numbers of main clients overlap process ids; processes
			// record with Idx 0 through h-join and carry their own id.
			if h.task != nil && isProcJoin(e, h) && self(h.Client, j) {
				if len(h.Op.S) > 1 && (h.Ret == 0 || h.Err != "") {
					how := "blocks"
					if h.Ret != 0 {
						how = h.Err
					}
					return bad("self-join-env", "process %d joining itself in code evaluated by %s is not recognised: %s", j, h.Op.S[1], how)
				}
				if h.Ret == 0 {
					return bad("self-join-blocks", "process %d joining itself never returns", j)
				}
				if h.Err != "" || h.Out != "()" {
					return bad("self-join", "process %d joining itself gives %s %s, expected nil", j, h.Out, h.Err)
				}
				if len(w.Stalls) == 0 && h.RetT != h.InvT {
					return bad("self-join-slow", "process %d joining itself waited %d ns", j, h.RetT-h.InvT)
				}
				continue
			}
			if joins[j] == nil {
				joins[j] = &jn{}
			}
			switch {
			case h.Ret == 0:
				joins[j].pend = append(joins[j].pend, h)
			case h.Err != "":
				joins[j].err = append(joins[j].err, h)
			default:
				joins[j].ok = append(joins[j].ok, h)
			}
		}
	}
	c.Trivial = nj == 0
	for i, r := range recs {
		if r.bad {
			if r.ran > 0 && i >= 600 && r.obj == nil && r.ranX != "0" {
				return bad("fork-misuse-ran", "a process with the wrong number of arguments ran (%d)", i)
			}
			continue
		}
		if r.ran != 1 {
			return bad("ran", "the body of process %d ran %d times", i, r.ran)
		}
		if r.ranX != r.x {
			return bad("args", "process %d received %s instead of %s", i, r.ranX, r.x)
		}
		if r.call {
			continue
		}
		if r.ranObj != r.obj {
			return bad("process-object", "process %d received another process object than fork returned", i)
		}
		if r.late {
			return bad("late", "process %d went on after a failure", i)
		}
		j := joins[i]
		if j == nil {
			continue
		}
		if len(j.pend) > 0 {
			return bad("join-blocks", "%v never returns although the process has ended", j.pend[0])
		}
		if len(j.ok) != 1 {
			return bad("join-count", "process %d was joined %d times successfully and %d times with an error, expected exactly one success\n%s", i, len(j.ok), len(j.err), histText(append(j.ok, j.err...)))
		}
		if want, ok := forkWantEnc(r.k, i, r.x); ok && j.ok[0].Out != want {
			return bad("join-value", "%v: process %d (kind %d) returned %s", j.ok[0], i, r.k, want)
		}
		if r.end == 0 || j.ok[0].Ret < r.end {
			return bad("join-early", "%v returned before the process ended (at %d)", j.ok[0], r.end)
		}
	}
	if len(alive) > 0 {
		return bad("left-over", "still running or blocked at the end: %v", alive)
	}
	return nil
}

// isProcJoin tells joins issued by process bodies from those of the clients.
func isProcJoin(e *Exec, h *Ev) bool { return len(h.Op.A) == 1 && h.Op.S != nil }
