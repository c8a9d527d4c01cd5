package main

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C23: results do not depend on hash order.

func init() {
	register(&Prop{ID: "C23", Gen: genHash, Run: runHash, Quick: 30000, Thorough: 1500000,
		Rule: "a run is a program of 3-16 statements over frames (with several parents, methods, slots whose names differ in colons, shared and cyclic ones), alists, lists, environments and JSON in both directions, by Lisp and by the host's functions, each statement printing its result, executed with sorted tables and under 3 other seeded orders of every table; results, errors and output are compared by statement, those of enumerations as sets; non-trivial when at least four tables of two or more entries were enumerated"})
}

// The statements.  F is a frame, A an alist, S a slot name, K a key, V a
// value, E an environment, J a JSON text, G a list, Y a symbol.  Those
// starting with "*" are enumerations.
var hashStmts = []string{
	"(set! F F)", "(set! F NF)", "(set! F NF)", "(set! F NF)", "(set! F (clone F))", "(set! F (copy F))", "(set! F (json->lisp J))", "(set! F (json->lisp (lisp->json F)))",
	"(S! F V)", "(S! F V)", "(S! F F)", "(P! F F)", "(P! F F)", "(set-slot! F S V)", "(remove-slot! F S)", "(remove-slot! F P)", "(M! F (lambda (x) (list x s1 S)))", "(M! F (lambda (x) (send-super M x)))", "(M! F (lambda (x) (set! s1 x) (list s1 self)))", "(M! F (lambda (x) (apply-slot-super M (list x))))",
	"(M! F fn3)", "(M! F fn3)", "(M! F fn4)", "(M! F (lambda (x) (map fn3 (list x))))", "(M! F (lambda (x) (apply fn4 (list x))))", "(send {P f5 P f6 P f2 m1: (lambda (x) (map fn3 (list x)))} m1: V)", "(send {P f6 P F P f5 m1: (lambda (x) (list (apply fn3 (list x)) s1))} m1: V)",
	"(send {P F P f5 P f6} M V)", "(definition-of fn3)", "(str fn3 F)", "(for-each (lambda (x) (write x)) (list F A))", "(map (lambda (x) (send x M V)) (list F F))", "(fold-left (lambda (a b) (cons (str b) a)) '() (list F F))", "(set! F {S V P f5 P f6 P F})", "(let ((q F)) (S! q V) (str q))", "(`(a ,F))", "`(1 ,F ,@G)", "(equal? (list F) (list F))", "(find (lambda (x) (equal? x F)) (list F F))", "(filter (lambda (x) (S? x)) (list F F F))",
	"(set! F (json->lisp (lisp->json (list F))))", "(string-join (list (str F) (str A)) \",\")", "(intern (str F))", "(length (str F))", "(write-log F)", "(error (str F))", "(F F)", "(no-such F)",
	"(M! F (lambda (x) (n: self)))", "(M! F (lambda (x) ((lambda (y) (list y s2)) x)))", "(M! F (M: F))",
	"(str F)", "(str F)", "(write F)", "(write-line F)", "(format #f \"~A and ~S\" F F)", "(lisp->json F)", "(lisp->json F)", "(lisp->json (list F A F))", "(equal? F F)", "(equal? F (copy F))", "(equal? F (clone F))", "(equal? (json->lisp (lisp->json F)) F)",
	"(S F)", "(S F)", "(S? F)", "(get-slot-or-nil F S)", "(has-slot? F S)", "(send F M V)", "(M> F V)", "(send F M V)", "(apply-slot F M (list V))", "(on-error (S F) (lambda (m) m))",
	"(memq F (list F F F))", "(union (list F F) (list F))", "(intersection (list F F) (list F V))", "(complement (list F V) (list F))", "(list F A G)", "(sort (list V V 3) <)",
	"(set! A (acons 'K V A))", "(set! A (dissoc 'K A))", "(set! A '((K . 1) (K . 2) (K . \"x\")))", "(set! A (pairlis '(K K) '(1 2) A))", "(set! A (alist '((K . 1) (K . (2 3)))))", "(assoc 'K A)", "(rassoc 1 A)", "(lisp->json A)", "(str A)", "(equal? A A)", "(equal? A (copy A))", "(copy A)",
	"(environment-define E 'Y V)", "(environment-assign! E 'Y V)", "(environment-lookup E 'Y)", "(environment-bound? E 'Y)", "(environment-reference-type E 'Y)", "(eval '(list Y Y) E)", "(eval '(let ((Y F)) (str Y)) E)", "(str E)", "(equal? E E)", "(eval '(define (Y x) (list x Y)) E)", "(eval '(Y 1) E)",
	"(set! G (union G G '(1 2 K)))", "(set! G (intersection G '(1 2 3 K F)))", "(set! G (complement G '(2)))", "(set! G (append G (list F V)))", "(str G)", "(set! G '(3 K 1 2 V))", "(union G G)",
	"h:tolisp J", "h:toframes J", "h:json F", "h:json A", "h:fjson F", "h:fjson G", "h:map", "h:nested", "h:struct",
	"*frame-keys F", "*frame-values F", "*environment-bound-names E", "*environment-bindings E", "*environment-macro-names E", "*!dump E", "*debug-on-entry", "*add-debug-on-entry fn1", "*add-debug-on-entry fn2",
}

var hashJSON = []string{
	`{"a": 1, "b": [1, 2, {"c": 3, "d": null}], "e": true}`, `{"s1": 1, "s1:": 2, "s2": {"s3": 4, "s1": [5]}}`, `[{"x": 1, "y": 2, "z": 3}, {"x": 4, "w": {}}]`, `{"a": {"b": {"c": {"d": 1.5, "e": "x"}, "f": 2}, "g": 3}, "h": 4}`,
	`{}`, `{"b": 2, "a": 1, "": 0, "A": 3, "a b": 4}`, `{"s3": "q", "s1": "r", "s2": "t", "p*": {"s1": 1}}`, `[[], [[{"k": "v", "l": "m"}]]]`, `{"n": 1e3, "m": -2, "o": 12345678901}`, `{"a": 1, "a": 2, "b": 3, "b": 4}`, `{"bad": `, `5`,
}

func hashStmt(r *Rand) string {
	s := hashStmts[r.Intn(len(hashStmts))]
	rep := func(k string, choice ...string) {
		for {
			i := -1
			for j := 0; j+len(k) <= len(s); j++ {
				if s[j:j+len(k)] == k && (j == 0 || !word(s[j-1])) && (j+len(k) == len(s) || !word(s[j+len(k)])) {
					i = j
					break
				}
			}
			if i < 0 {
				return
			}
			s = s[:i] + choice[r.Intn(len(choice))] + s[i+len(k):]
		}
	}
	for n := 3; n > 0; n-- {
		rep("NF", "{S V S V S V}", "{P F P F S V M (lambda (x) (list x s2))}", "{S V P F M (lambda (x) (send-super M x))}", "{P {S V S V} P {S V M (lambda (x) x)} S V}", "{S F S V}", "{}", "{S V S {S V S V} t5: V t6: V}")
	}
	rep("V", "1", "2", "7", "-3", "4.5", "\"text\"", "'sy", "(list 1 2)", "#t", "nil", "f2", "f3", "car", "fn1")
	rep("F", "f1", "f1", "f1", "f2", "f2", "f3", "f4", "f5", "f6")
	rep("A", "al1", "al1", "al2")
	rep("S", "s1:", "s1:", "s2:", "s3:", "s4:", "s1::")
	rep("M", "m1:", "m1:", "m2:")
	rep("P", "p*:", "q*:", "r*:")
	rep("K", "ka", "kb", "kc")
	rep("E", "ev1", "ev2")
	rep("Y", "y1", "y2", "y3")
	rep("G", "g1", "g2")
	if strings.HasPrefix(s, "h:") {
		s = strings.Replace(s, "J", hashJSON[r.Intn(len(hashJSON))], 1)
	} else if j := r.Intn(len(hashJSON)); strings.Contains(s, " J") {
		s = strings.Replace(s, "J", fmt.Sprintf("%q", hashJSON[j]), 1)
	}
	return s
}

func genHash(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{Clients: make([][]Op, 1)}
	n := 3 + r.Intn(14)
	if thorough && r.Intn(4) == 0 {
		n += r.Intn(20)
	}
	for ; n > 0; n-- {
		w.Clients[0] = append(w.Clients[0], Op{K: "do", S: []string{hashStmt(r)}})
	}
	return w
}

type hashHost struct {
	Name  string
	Ports map[string]int
	Deep  map[string]map[string]interface{}
	List  []map[string]string
}

func hashValue(kind string) interface{} {
	switch kind {
	case "map":
		return map[string]interface{}{"a": 1, "b": "x", "c": []interface{}{1.5, map[string]interface{}{"d": 1, "e": 2, "f": nil}}, "g": true, "s1:": 1, "s1": 2}
	case "nested":
		return map[string]interface{}{"x": map[string]interface{}{"x1": map[string]interface{}{"p": 1, "q": 2}, "x2": 3}, "y": map[string]interface{}{"y1": "a", "y2": "b"}}
	}
	return hashHost{"n", map[string]int{"a": 1, "b": 2, "a:": 3}, map[string]map[string]interface{}{"u": {"v": 1, "w": 2}, "x": {"y": 3}}, []map[string]string{{"k": "l", "m": "n"}}}
}

// runHash1 runs the program once and gives each statement's outcome.
func runHash1(w *Workload, c *Ctx, order int) ([]string, *Violation) {
	var out []string
	e := c.Sim(Opt{W: w, Sequential: true, MapOrder: order, Root: func(e *Exec) {
		e.must(`(define f1 {s1: 1 s2: 2 s3: 3}) (define f2 {s1: 4 p*: f1 m1: (lambda (x) (list x s2))}) (define f3 {s2: 5 q*: {s2: 6 s4: 7 m2: (lambda (x) x)} p*: f2})
(define f4 {s4: f3 s3: "z" s1: nil}) (define al1 (alist '((ka . 1) (kb . 2)))) (define al2 (acons 'kc f1 nil)) (define g1 '(1 2 ka)) (define g2 (list f1 f2)) (define (fn1 x) x) (define (fn2 x) x)
(define depth 0) (define (fn3 x) (set! depth (+ depth 1)) (if (> depth 9) 'deep (send-super m1: x))) (define (fn4 x) (set! depth (+ depth 1)) (if (> depth 9) 'deep (m1:^ x))) (define f5 {m2: fn3 m1: fn4 q*: f2}) (define f6 {m2: fn3 m1: (lambda (x) (list "six" x)) p*: {m1: (lambda (x) (list "up" x))}})`)
		for _, n := range []string{"ev1", "ev2"} {
			e.must("(define " + n + " (make-top-level-environment \"" + n + "\" '(y1 y2) '(1 2)))")
			e.must("(eval '(defmacro (mc x) x) " + n + ") (eval '(defmacro (md x) x) " + n + ")")
		}
		for _, op := range w.Clients[0] {
			from := len(e.S.FS.Console)
			s := op.S[0]
			e.must("(set! depth 0)")
			var d *D
			var err error
			pan, text, set := "", "", false
			frameArg := func(a string) *D { return e.Env.ValueOf(sym(a)) }
			switch {
			case strings.HasPrefix(s, "h:"):
				f := strings.SplitN(s[2:], " ", 2)
				switch f[0] {
				case "tolisp":
					pan = catch(func() { d = golisp.JsonStringToLisp(f[1]) })
				case "toframes":
					pan = catch(func() { d = golisp.JsonStringToLispWithFrames(f[1]) })
				case "json":
					pan = catch(func() { text = golisp.LispToJsonString(frameArg(f[1])) })
				case "fjson":
					pan = catch(func() { text = golisp.LispWithFramesToJsonString(frameArg(f[1])) })
				case "map", "nested":
					d = list(golisp.JsonToLisp(hashValue(f[0])), golisp.JsonToLispWithFrames(hashValue(f[0])))
				case "struct":
					d = golisp.JsonToLispWithFrames(hashValue(f[0]))
				}
			case strings.HasPrefix(s, "*"):
				set = true
				src := "(" + s[1:] + ")"
				if strings.HasPrefix(s, "*!dump") {
					src = "(eval '(dump) " + s[7:] + ")"
				}
				d, err, pan = tryEval(e.Env, parse(src))
			default:
				d, err, pan = tryEval(e.Env, parse(s))
			}
			text += " value " + golisp.String(d) + " error "
			if err != nil {
				text += err.Error()
			}
			if pan != "" {
				text += " panic " + pan
			}
			con := ""
			for _, ev := range e.S.FS.Console[from:] {
				con += ev.Text
			}
			if set {
				var l []string
				for _, x := range items(d) {
					l = append(l, golisp.String(x))
				}
				lines := strings.Split(con, "\n")
				sort.Strings(l)
				sort.Strings(lines)
				text = strings.Join(append(l, lines...), "\n")
				if err != nil {
					text += err.Error()
				}
				text += pan
			} else {
				text += " output " + con
			}
			out = append(out, plain(text))
			c.mix(plain(text))
		}
	}})
	if v := e.Crash(); v != nil {
		return nil, v
	}
	return out, nil
}

func runHash(w *Workload, c *Ctx) *Violation {
	ref, v := runHash1(w, c, -1)
	if v != nil {
		return v
	}
	c.Trivial = true
	for k := 0; k < 3; k++ {
		got, v := runHash1(w, c, 0)
		if v != nil {
			return v
		}
		for i := range ref {
			if i < len(got) && got[i] != ref[i] {
				return bad("differs", "%v gives\n%s\nor\n%s\nas the tables are ordered", w.Clients[0][i], ref[i], got[i])
			}
		}
	}
	c.Trivial = c.Stats["map-order"] < 4
	return nil
}

// catch runs f, telling what it panicked with.
func catch(f func()) (pan string) {
	fin := false
	defer func() {
		if fin || !simrt.Live() {
			return
		}
		pan = fmt.Sprint(recover())
	}()
	f()
	fin = true
	return
}
