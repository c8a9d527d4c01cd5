package main

import (
	"fmt"
	"strings"
)

// A generator of terminating programs that use most special forms and
// built-ins.  Every wrapped subexpression reports its step number when it is
// reached: (h-t P K e) is a harness primitive.
type Gen struct {
	r     *Rand
	prog  int
	k     int
	wrap  int // percentage of subexpressions that report
	depth int
	ints  []string // variables in scope
	lists []string
	rol   []string // lists that must not be assigned
	ro    []string // variables in scope that must not be assigned
	funs  []string // local one-argument integer functions
	uniq  int      // for names that must not be shadowed
	size  int      // expressions generated since reset
	max   int      // after which only leaves are generated
	// what may appear
	Handlers bool // on-error
	Fail     bool // expressions that fail by themselves
	Natural  bool // expressions that fail when told to
	Procs    bool // fork and join, channels
	Iso      bool // nothing assigned inside on-error is visible outside it
	Lib      bool // global functions and macros of genLib
	Define   bool
	Time     bool
	Holes    bool // \x01 instead of integer literals
	// which forms; any if nil
	pickI, pickL, pickLib func(r *Rand) int
}

// Focus makes the programs of some runs use a few forms over and over.
func (g *Gen) Focus(r *Rand, o *Gen) {
	if o != nil {
		g.pickI, g.pickL, g.pickLib = o.pickI, o.pickL, o.pickLib
		return
	}
	g.pickI, g.pickL, g.pickLib = swarm(r, nInt), swarm(r, nList), swarm(r, nLib)
	if r.Intn(4) == 0 { // nearly everything is a call of a shared function
		g.pickI = func(r *Rand) int {
			if r.Intn(3) > 0 {
				return 25
			}
			return r.Intn(nInt)
		}
	}
}

const nInt, nList, nLib = 47, 24, 17

func (g *Gen) choose(f func(r *Rand) int, n int) int {
	if f == nil {
		return g.r.Intn(n)
	}
	return f(g.r)
}

func (g *Gen) pick(l ...string) string { return l[g.r.Intn(len(l))] }

func (g *Gen) w(e string) string {
	if g.r.Intn(100) >= g.wrap {
		return e
	}
	g.k++
	return fmt.Sprintf("(h-t %d %d %s)", g.prog, g.k, e)
}

func (g *Gen) step() string {
	g.k++
	return fmt.Sprintf("(h-t %d %d %d)", g.prog, g.k, g.k)
}

func (g *Gen) lit() string {
	if g.Holes {
		return "\x01"
	}
	return fmt.Sprint(g.r.Intn(23) - 5)
}

func (g *Gen) fresh(p string) string {
	// few names, so that scopes shadow each other and programs share them
	return p + g.pick("a", "b", "c", "x", "y")
}

func (g *Gen) uname(p string) string {
	g.uniq++
	return fmt.Sprint(p, g.uniq)
}

// leaf says whether to stop growing.
func (g *Gen) leaf() bool {
	g.size++
	if g.max == 0 {
		g.max = 60
	}
	return g.depth > 4 || g.size > g.max || g.r.Intn(9) == 0
}

// Top starts a new statement.
func (g *Gen) Top() { g.size = 0 }

// inRO is in with a read-only integer.
func (g *Gen) inRO(v string, f func() string) string {
	o := g.ro
	g.ro = append(append([]string{}, o...), v)
	s := f()
	g.ro = o
	return s
}

// in runs f one level deeper with more variables in scope.
func (g *Gen) in(ints, lists, funs []string, f func() string) string {
	i, l, u := g.ints, g.lists, g.funs
	// a name means one type only, by its prefix
	g.ints = append(append([]string{}, i...), ints...)
	g.lists = append(append([]string{}, l...), lists...)
	g.funs = append(append([]string{}, u...), funs...)
	s := f()
	g.ints, g.lists, g.funs = i, l, u
	return s
}

// I generates an integer expression.
func (g *Gen) I() string {
	g.depth++
	defer func() { g.depth-- }()
	if g.leaf() {
		if n := len(g.ints) + len(g.ro); n > 0 && g.r.Intn(3) > 0 {
			if i := g.r.Intn(n); i < len(g.ints) {
				return g.ints[i]
			} else {
				return g.ro[i-len(g.ints)]
			}
		}
		return g.w(g.lit())
	}
	return g.w(g.int1())
}

func (g *Gen) fn1() string { // a one-argument integer function
	switch g.r.Intn(5) {
	case 0:
		if len(g.funs) > 0 {
			return g.funs[g.r.Intn(len(g.funs))]
		}
	case 1:
		return g.pick("succ", "pred", "abs")
	case 2:
		if g.Lib {
			return g.pick("lib-twice", "lib-inc")
		}
	}
	v := g.fresh("i")
	return g.fw(fmt.Sprintf("(lambda (%s) %s)", v, g.in([]string{v}, nil, nil, func() string { return g.body(g.I) })))
}

// fw is w for functions.
func (g *Gen) fw(s string) string {
	if g.r.Intn(4) == 0 {
		return g.w(s)
	}
	return s
}

func (g *Gen) fn2() string {
	if g.r.Intn(4) == 0 {
		return g.pick("+", "-", "*")
	}
	v, u := "ip", "iq"
	return g.fw(fmt.Sprintf("(lambda (%s %s) %s)", v, u, g.in([]string{v, u}, nil, nil, func() string { return g.body(g.I) })))
}

func (g *Gen) pred() string {
	if g.r.Intn(4) == 0 {
		return g.pick("even?", "odd?", "positive?", "zero?")
	}
	v := g.fresh("i")
	return g.fw(fmt.Sprintf("(lambda (%s) %s)", v, g.in([]string{v}, nil, nil, func() string {
		return g.body(g.B)
	})))
}

// body is one or more expressions, the last by f.
func (g *Gen) body(f func() string) string {
	s := ""
	for g.r.Intn(3) == 0 && g.depth < 5 && g.size <= g.max {
		s += g.U() + " "
	}
	return s + f()
}

func (g *Gen) int1() string {
	switch g.choose(g.pickI, nInt) {
	case 0, 1:
		return fmt.Sprintf("(+ %s %s)", g.I(), g.I())
	case 2:
		return fmt.Sprintf("(- %s %s %s)", g.I(), g.I(), g.I())
	case 3:
		return fmt.Sprintf("(* %s %s)", g.I(), g.lit())
	case 4:
		return fmt.Sprintf("(%s %s)", g.pick("succ", "pred", "abs", "-"), g.I())
	case 5, 6:
		return fmt.Sprintf("(if %s %s %s)", g.B(), g.I(), g.I())
	case 7:
		return g.let("let", g.I)
	case 8:
		return g.let("let*", g.I)
	case 9:
		f := g.uname("r")
		v := g.uname("n")
		b := g.inRO(v, g.I)
		l := fmt.Sprintf("(%s %s)", f, g.fw(fmt.Sprintf("(lambda (%s) (if (< %s 1) %s (%s (- %s 1))))", v, v, b, f, v)))
		call := fmt.Sprintf("(%s %d)", f, g.r.Intn(3))
		switch g.r.Intn(3) {
		case 0:
			u := g.uname("n")
			return fmt.Sprintf("(letrec (%s (%s %s)) (+ %s %s))", l, u, g.I(), u, call)
		case 1:
			u := g.uname("n")
			return fmt.Sprintf("(letrec ((%s %s) %s) %s %s)", u, g.I(), l, g.inRO(u, g.U), call)
		}
		return fmt.Sprintf("(letrec (%s) %s)", l, call)
	case 10:
		return fmt.Sprintf("(length %s)", g.L())
	case 11:
		return fmt.Sprintf("(apply + %s)", g.L())
	case 12:
		return fmt.Sprintf("(%s %s %s %s)", g.pick("fold-left", "fold-right"), g.fn2(), g.I(), g.L())
	case 13:
		return fmt.Sprintf("(begin %s)", g.body(g.I))
	case 14:
		if len(g.ints) > 0 {
			return fmt.Sprintf("(begin (set! %s %s) %s)", g.ints[g.r.Intn(len(g.ints))], g.I(), g.I())
		}
		return g.I()
	case 15:
		return fmt.Sprintf("(%s %s)", g.fn1(), g.I())
	case 16:
		v, t := g.uname("n"), "is"
		return g.inRO(v, func() string {
			return g.in([]string{t}, nil, nil, func() string {
				return fmt.Sprintf("(do ((%s 0 %s) (%s 0 %s)) (%s %s) %s)", v, g.w("(+ "+v+" 1)"), t, g.I(),
					g.w(fmt.Sprintf("(> %s %d)", v, g.r.Intn(3))), g.body(g.I), g.body(g.U))
			})
		})
	case 17:
		return fmt.Sprintf("(case %s ((1 2 3) %s) ((4 5) %s) (else %s))", g.I(), g.I(), g.I(), g.body(g.I))
	case 18:
		return fmt.Sprintf("(cond (%s %s) (%s %s) (else %s))", g.B(), g.body(g.I), g.B(), g.I(), g.I())
	case 19:
		v, l := g.uname("n"), g.uname("r")
		return fmt.Sprintf("(let %s ((%s %d) (iz %s)) %s)", l, v, g.r.Intn(3), g.I(), g.inRO(v, func() string {
			return g.in([]string{"iz"}, nil, nil, func() string {
				return fmt.Sprintf("(if (< %s 1) %s (%s (- %s 1) %s))", v, g.I(), l, v, g.I())
			})
		}))
	case 20:
		return fmt.Sprintf("(eval '%s)", g.I())
	case 21:
		return fmt.Sprintf("(-> %s %s %s)", g.I(), g.pick("succ", "pred", "abs"), fmt.Sprintf("(+ %s)", g.I()))
	case 22:
		return fmt.Sprintf("(=> %s (+ %s) succ)", g.I(), g.I())
	case 23:
		return fmt.Sprintf("(send {%s: %s iv: %s} %s: %s)", "m", fmt.Sprintf("(lambda (im) %s)", g.in([]string{"im", "iv"}, nil, nil, func() string { return g.body(g.I) })), g.I(), "m", g.I())
	case 24:
		return fmt.Sprintf("(string-length (str %s %s))", g.I(), g.L())
	case 25:
		if g.Lib {
			switch g.choose(g.pickLib, nLib) {
			case 0:
				return fmt.Sprintf("(lib-fact %d)", g.r.Intn(4))
			case 1:
				return fmt.Sprintf("(lib-sum %s)", g.L())
			case 2:
				return fmt.Sprintf("(lib-mac-add %s %s)", g.I(), g.I())
			case 3:
				return fmt.Sprintf("((lib-compose %s %s) %s)", g.fn1(), g.fn1(), g.I())
			case 4:
				return fmt.Sprintf("(let ((ic (lib-counter %s))) (ic %s) (ic %s))", g.I(), g.I(), g.I())
			case 5:
				return fmt.Sprintf("(lib-rest %s %s %s %s)", g.I(), g.I(), g.I(), g.I())
			case 6:
				return fmt.Sprintf("(apply lib-rest %s %s)", g.I(), g.L())
			case 7:
				return fmt.Sprintf("(lib-do %s %d)", g.I(), g.r.Intn(4))
			case 8:
				return fmt.Sprintf("(lib-case %s %s)", g.I(), g.I())
			case 9:
				return fmt.Sprintf("(lib-cond %s %s)", g.I(), g.fn1())
			case 10:
				return fmt.Sprintf("(lib-mac-if %s %s %s)", g.B(), g.I(), g.I())
			case 11:
				return fmt.Sprintf("(lib-mac-rest %s %s %s)", g.I(), g.I(), g.I())
			case 12:
				if g.Handlers && !g.Iso {
					return fmt.Sprintf("(lib-try %s %s)", g.fn1(), g.I())
				}
			case 13:
				return fmt.Sprintf("(lib-inner %s %s)", g.I(), g.I())
			case 14:
				return fmt.Sprintf("(send lib-frame add: %s %s)", g.I(), g.I())
			case 15:
				return fmt.Sprintf("(lib-each %s %s)", g.fn2(), g.L())
			case 16:
				return fmt.Sprintf("(lib-mutual %d %s)", g.r.Intn(4), g.I())
			}
		}
		return g.I()
	case 26:
		if g.Handlers {
			return g.onError()
		}
		return g.I()
	case 27:
		if g.Natural {
			g.k++
			return fmt.Sprintf("(if (h-f %d %d) %s %s)", g.prog, g.k, g.pick(fmt.Sprintf("(error \"boom%d.\")", g.k), "(car 1 2)", "(nowhere 1)", "(/ 1 0)", "(+ 1 'a)", "(get-slot {} iq:)", "((lambda (ia) ia))", "(5 6)", "(lib-inc)", "(list-ref '(1 2) 'x)", "(set! nothing-such 1)", "(channel-read 4)", "(send {m: 3} m:)"), g.I())
		}
		if g.Fail && g.r.Intn(3) == 0 {
			return g.pick("(car 5 6)", "(error \"oops\")", "(undefined-thing 1)", "(/ 1 0)", "(+ 1 'a)", "(get-slot {} iq:)", "((lambda (ia) ia))")
		}
		return g.I()
	case 28:
		if g.Procs {
			return g.pick(
				fmt.Sprintf("(join (fork (lambda (p) %s)))", g.body(g.I)),
				fmt.Sprintf("(join (fork (lambda (p ix) %s) %s))", g.in([]string{"ix"}, nil, nil, func() string { return g.body(g.I) }), g.I()),
				fmt.Sprintf("(let ((ch (make-channel 2))) (channel-write ch %s) (car (channel-read ch)))", g.I()),
				fmt.Sprintf("(let ((at (atomic %s))) (atomic-add! at %s) (atomic-load at))", g.I(), g.I()),
				fmt.Sprintf("(join (schedule 3 (lambda (p) %s)))", g.body(g.I)))
		}
		return g.I()
	case 29:
		v := g.fresh("l")
		return fmt.Sprintf("(let ((%s (list %s %s))) (set-car! %s %s) (set-cdr! %s (list %s)) (set-nth! %s 1 %s) (car %s))", v, g.I(), g.I(), v, g.I(), v, g.I(), v, g.I(), v)
	case 30:
		return fmt.Sprintf("(let ((fr (make-frame iv: %s))) (set-slot! fr iw: %s) (iv:! fr %s) (+ (iv: fr) (get-slot fr iw:)))", g.I(), g.I(), g.I())
	case 31:
		return fmt.Sprintf("(apply-slot {m: (lambda (ip iq) %s)} m: %s (list %s))", g.in([]string{"ip", "iq"}, nil, nil, func() string { return g.I() }), g.I(), g.I())
	case 32:
		return fmt.Sprintf("(let* ((fp {m: (lambda (ip) %s)}) (fq {pp*: fp m: (lambda (ip) (+ %s (send-super m: %s)))})) (send fq m: %s))",
			g.in([]string{"ip"}, nil, nil, func() string { return g.I() }), g.I(), g.I(), g.I())
	case 33:
		if g.Define {
			v := g.fresh("i")
			f := g.uname("f")
			return fmt.Sprintf("((lambda (iz) (define %s %s) (define (%s ip) %s) (+ %s (%s %s))) %s)", v, g.I(), f, g.in([]string{"ip"}, nil, nil, func() string { return g.I() }), v, f, g.I(), g.I())
		}
		return g.I()
	case 34:
		return fmt.Sprintf("(car (set-cdr! %s (list %s)))", g.w("(list 1 2)"), g.I())
	case 35:
		return fmt.Sprintf("(set-car! %s %s)", g.w("(list 1 2)"), g.I())
	case 36:
		return fmt.Sprintf("(car (set-nth! %s %s %s))", g.w("(list 1 2 3)"), g.w(g.pick("1", "2")), g.I())
	case 37:
		return fmt.Sprintf("(let* ((fp {m: (lambda (ip iq) %s)}) (fq {pp*: fp m: (lambda (ip) (apply-slot-super m: %s (list %s)))})) (m:> fq %s))",
			g.in([]string{"ip", "iq"}, nil, nil, func() string { return g.I() }), g.I(), g.I(), g.I())
	case 38:
		return fmt.Sprintf("(eval %s (the-environment))", g.w("'"+g.I()))
	case 39:
		if g.Define {
			j := g.uname("j")
			if g.r.Intn(3) == 0 {
				return fmt.Sprintf("((lambda (iz) (defmacro (%s a . b) %s) (%s %s %s)) %s)", j, g.body(func() string { return g.w("`(+ 1 ,a ,@b)") }), j, g.I(), g.I(), g.I())
			}
			return fmt.Sprintf("((lambda (iz) (defmacro (%s a) %s) (%s %s)) %s)", j, g.w("`(+ 1 ,a)"), j, g.I(), g.I())
		}
		return g.I()
	case 40:
		return fmt.Sprintf("(apply %s %s (list %s))", g.fn2(), g.I(), g.I())
	case 41:
		v := g.uname("n")
		return fmt.Sprintf("((named-lambda (%s ip) %s) %s)", v, g.in([]string{"ip"}, nil, nil, func() string { return g.body(g.I) }), g.I())
	case 42:
		return fmt.Sprintf("(length (flatten `(1 (2 ,%s) ,@%s)))", g.I(), g.L())
	case 43:
		if g.Time {
			return fmt.Sprintf("(begin (time %s) 1)", g.I())
		}
		return g.I()
	case 44:
		return fmt.Sprintf("(length (list %s %s %s %s))", g.U(), g.B(), g.U(), g.I())
	case 45:
		v := g.fresh("i")
		return fmt.Sprintf("((lambda (%s . lr) %s) %s %s %s)", v, g.in([]string{v}, []string{"lr"}, nil, func() string { return g.body(g.I) }), g.I(), g.I(), g.I())
	case 46:
		v := g.fresh("l")
		return fmt.Sprintf("((lambda (ip . %s) %s) %s %s %s)", v, g.in([]string{"ip"}, []string{v}, nil, func() string { return fmt.Sprintf("(apply + ip %s)", g.L()) }), g.I(), g.I(), g.I())
	}
	return g.lit()
}

func (g *Gen) let(form string, f func() string) string {
	var b, ns []string
	n := 1 + g.r.Intn(2)
	for i := 0; i < n; i++ {
		v := g.fresh("i")
		if form == "let*" {
			b = append(b, fmt.Sprintf("(%s %s)", v, g.in(ns, nil, nil, g.I)))
		} else {
			b = append(b, fmt.Sprintf("(%s %s)", v, g.I()))
		}
		ns = append(ns, v)
	}
	return fmt.Sprintf("(%s (%s) %s)", form, strings.Join(b, " "), g.in(ns, nil, nil, func() string { return g.body(f) }))
}

// onError always evaluates to 7.  The marks tell its extent: 1 before it, 2 at
// the end of the guarded expression, 3 after it; the steps k+1 and k+2 are the
// evaluation of the handler and its body, k+3 the body of the other handler.
func (g *Gen) onError() string {
	k := g.k + 1
	g.k += 4
	p := g.prog
	ints, ro, lists, rol := g.ints, g.ro, g.lists, g.rol
	if g.Iso {
		g.ro = append(append([]string{}, ro...), ints...)
		g.rol = append(append([]string{}, rol...), lists...)
		g.ints, g.lists = nil, nil
	}
	body := g.body(g.I)
	g.ints, g.ro, g.lists, g.rol = ints, ro, lists, rol
	other := ""
	if g.r.Intn(3) == 0 {
		other = fmt.Sprintf(" (lambda () (h-t %d %d 0))", p, k+3)
	}
	return fmt.Sprintf("(begin (h-m %d %d 1) (on-error (begin %s (h-m %d %d 2)) (h-t %d %d (lambda (m) (h-h %d %d m) (h-t %d %d 0)))%s) (h-m %d %d 3) 7)",
		p, k, body, p, k, p, k+1, p, k, p, k+2, other, p, k)
}

// B generates a boolean.
func (g *Gen) B() string {
	g.depth++
	defer func() { g.depth-- }()
	if g.leaf() {
		return g.w(g.pick("#t", "#f"))
	}
	switch g.r.Intn(8) {
	case 0:
		return g.w(fmt.Sprintf("(and %s %s)", g.B(), g.B()))
	case 1:
		return g.w(fmt.Sprintf("(or %s %s)", g.B(), g.B()))
	case 2:
		return g.w(fmt.Sprintf("(not %s)", g.B()))
	case 3:
		return g.w(fmt.Sprintf("(%s %s %s)", g.pick("any", "every"), g.pred(), g.L()))
	case 4:
		return g.w(fmt.Sprintf("(equal? %s %s)", g.L(), g.L()))
	}
	return g.w(fmt.Sprintf("(%s %s %s)", g.pick("<", ">", "<=", "=="), g.I(), g.I()))
}

// L generates a list of integers.
func (g *Gen) L() string {
	g.depth++
	defer func() { g.depth-- }()
	if g.leaf() {
		if n := len(g.lists) + len(g.rol); n > 0 && g.r.Intn(3) > 0 {
			if i := g.r.Intn(n); i < len(g.lists) {
				return g.lists[i]
			} else {
				return g.rol[i-len(g.lists)]
			}
		}
		return g.w(g.pick("'(1 2 3)", "(list 4 5)", "'()", "'(9)"))
	}
	return g.w(g.list1())
}

func (g *Gen) list1() string {
	switch g.choose(g.pickL, nList) {
	case 0:
		return fmt.Sprintf("(list %s %s)", g.I(), g.I())
	case 1:
		return fmt.Sprintf("(cons %s %s)", g.I(), g.L())
	case 2, 3:
		return fmt.Sprintf("(map %s %s)", g.fn1(), g.L())
	case 4:
		return fmt.Sprintf("(filter %s %s)", g.pred(), g.L())
	case 5:
		return fmt.Sprintf("(append %s %s)", g.L(), g.L())
	case 6:
		return fmt.Sprintf("(reverse %s)", g.L())
	case 7:
		return fmt.Sprintf("(sort %s %s)", g.L(), g.pick("<", ">", "(lambda (ip iq) "+g.w("(< ip iq)")+")"))
	case 8:
		return fmt.Sprintf("`(1 ,%s ,@%s)", g.I(), g.L())
	case 9:
		return fmt.Sprintf("(remove %s %s)", g.pred(), g.L())
	case 10:
		return fmt.Sprintf("(map %s %s %s)", g.fn2(), g.L(), g.L())
	case 11:
		v := g.fresh("l")
		return fmt.Sprintf("(let ((%s %s)) %s)", v, g.L(), g.in(nil, []string{v}, nil, func() string { return g.body(g.L) }))
	case 12:
		return fmt.Sprintf("(if %s %s %s)", g.B(), g.L(), g.L())
	case 13:
		return fmt.Sprintf("(car (partition %s %s))", g.pred(), g.L())
	case 14:
		return fmt.Sprintf("(begin (for-each %s %s) %s)", g.fn1(), g.L(), g.L())
	case 15:
		return fmt.Sprintf("(let ((lz (list %s %s))) (append! lz %s) lz)", g.I(), g.I(), g.L())
	case 16:
		if g.Lib {
			return fmt.Sprintf("(lib-count %d)", g.r.Intn(4))
		}
		return g.L()
	case 17:
		if g.Lib {
			return fmt.Sprintf("(lib-mac-list %s %s)", g.I(), g.I())
		}
		return g.L()
	case 18:
		return fmt.Sprintf("(interval 1 %d)", 1+g.r.Intn(3))
	case 19:
		return fmt.Sprintf("(copy %s)", g.L())
	case 20:
		return fmt.Sprintf("(cons* %s %s)", g.I(), g.L())
	case 21:
		if g.Lib {
			return fmt.Sprintf("(lib-collect %s %s %s)", g.I(), g.I(), g.I())
		}
	case 22:
		if g.Lib {
			return fmt.Sprintf("(lib-where %s %s)", g.pred(), g.L())
		}
	}
	return fmt.Sprintf("(list %s)", g.I())
}

// U generates anything.
func (g *Gen) U() string {
	g.depth++
	defer func() { g.depth-- }()
	if g.leaf() {
		return g.I()
	}
	switch g.r.Intn(16) {
	case 0:
		return g.w(fmt.Sprintf("(when %s %s)", g.B(), g.body(g.I)))
	case 1:
		return g.w(fmt.Sprintf("(unless %s %s)", g.B(), g.body(g.I)))
	case 2:
		if len(g.ints) > 0 {
			return g.w(fmt.Sprintf("(set! %s %s)", g.ints[g.r.Intn(len(g.ints))], g.I()))
		}
	case 3:
		if len(g.lists) > 0 {
			return g.w(fmt.Sprintf("(set! %s %s)", g.lists[g.r.Intn(len(g.lists))], g.L()))
		}
	case 4, 5:
		return g.L()
	case 6:
		return g.w(fmt.Sprintf("(for-each %s %s)", g.fn1(), g.L()))
	case 7:
		return g.w(fmt.Sprintf("(%s %s %s)", g.pick("find", "find-tail", "memp"), g.pred(), g.L()))
	case 8:
		return g.w(fmt.Sprintf("(%s %s %s %s)", g.pick("reduce", "reduce-left", "reduce-right"), g.fn2(), g.I(), g.L()))
	case 9:
		return g.w(fmt.Sprintf("(%s %s %s)", g.pick("any", "every"), g.pred(), g.L()))
	case 10:
		return g.w(fmt.Sprintf("(str %s %s)", g.I(), g.L()))
	case 11:
		return g.w(fmt.Sprintf("(format #f \"~A-~S\" %s %s)", g.I(), g.L()))
	case 12:
		return g.w(fmt.Sprintf("(partition %s %s)", g.pick("2", g.pred()), g.L()))
	case 13:
		return g.w(fmt.Sprintf("(acons %s %s '((1 . 2)))", g.I(), g.I()))
	case 15:
		return g.library()
	case 14:
		if g.Time {
			return g.w(fmt.Sprintf("(begin (time %s) 1)", g.I()))
		}
	}
	return g.I()
}

// genLib is shared by every program.  S marks steps, replaced by the caller.
const genLib = `
(define (lib-inc n) (+ n 1))
(define (lib-twice n) (* n 2))
(define (lib-fact n) (if (< n 2) 1 (* n (lib-fact (- n 1)))))
(define (lib-sum l) (if (nil? l) 0 (+ (car l) (lib-sum (cdr l)))))
(define (lib-compose f g) (lambda (x) (f (g x))))
(define (lib-counter n) (lambda (d) (set! n (+ n d)) n))
(define (lib-count n) (let loop ((i 0) (acc '())) (if (== i n) (reverse acc) (loop (+ i 1) (cons i acc)))))
(define (lib-rest a . l) (if (nil? l) a (+ a (apply lib-rest l))))
(define (lib-collect a . l) (let ((t (map lib-inc l))) (cons a (append l t))))
(define (lib-do a n) (do ((i 0 (+ i 1)) (s a (+ s i))) ((== i n) s) (set! a (+ a 1))))
(define (lib-case a b) (case a ((0 1 2) (+ b 1)) ((3 4 5) (+ b a)) (else b)))
(define (lib-cond a f) (cond ((< a 0) (f a)) ((== a 0) 0) (else (+ 1 (f (- a 1))))))
(define (lib-try f a) (on-error (f a) (lambda (m) (string-length m)) (lambda () a)))
(define (lib-inner a b) (define c (+ a b)) (define (sq x) (* x c)) (let* ((d (sq a)) (e (sq d))) (+ c e)))
(define lib-frame {k: 3 add: (lambda (a b) (+ a b k (k: self)))})
(define (lib-each f l) (let ((t 0)) (for-each (lambda (x) (set! t (f t x))) l) t))
(define (lib-mutual n a) (letrec ((p (lambda (n) (if (< n 1) a (q (- n 1))))) (q (lambda (n) (if (< n 1) (- a) (p (- n 1)))))) (p n)))
(define (lib-where p l) (let loop ((l l) (r '())) (cond ((nil? l) (reverse r)) ((p (car l)) (loop (cdr l) (cons (car l) r))) (else (loop (cdr l) r)))))
(defmacro (lib-mac-if p a b) ` + "`(cond (,p ,a) (else ,b))" + `)
(defmacro (lib-mac-rest a . l) ` + "`(+ ,a ,@(reverse l))" + `)
(defmacro (lib-mac-add a b) ` + "`(let ((ima ,a) (imb ,b)) (+ ima imb)))" + `
(defmacro (lib-mac-list a b) ` + "`(list ,a ,@(list b b))) " + `
`

// library calls a built-in with generated arguments: I integer, L list,
// S string, P predicate, F one-argument function, B boolean.
var libraryCalls = []string{
	"(assq 'b (list (cons 'a I) (cons 'b I)))", "(assoc I (list (cons 1 I) (cons 2 L)))", "(rassoc I '((a . 1) (b . 2)))",
	"(dissoc 'a (list (cons 'a I) (cons 'b I)))", "(pairlis '(x y) (list I I))", "(acons I L '())", "(alist (list (list 'a I) (list 'b I)))",
	"(binary-and I I)", "(binary-or I I)", "(binary-not I)", "(left-shift I 3)", "(right-shift I 1)",
	"(bytearray->list (list->bytearray (list 1 2 (abs I))))", "(append-bytes [1 2] (abs I))", "(extract-bytes [1 2 3 4] 1 2)", "(replace-byte [1 2 3] 1 (abs I))", "(let ((by [1 2 3])) (replace-byte! by 0 7) (append-bytes! by 9) by)",
	"(string-split S \"a\")", "(string-join (list S S S) S)", "(string-trim S)", "(string-upcase S)", "(string-downcase S)", "(string-capitalize S)",
	"(let ((sx (str S S))) (string-upcase! sx) sx)", "(substring (str S \"abcdef\") 1 3)", "(substring? S S)", "(string-prefix? S S)", "(string<? S S)", "(string-ci=? S S)",
	"(number->string I)", "(number->string I 2)", "(string->number \"123\")", "(string->number \"1f\" 16)", "(quotient I 3)", "(% I 7)", "(modulo I 5)", "(min (cons I L))", "(max (cons I L))", "(pow I 2)", "(float I)", "(integer 3.7)", "(floor 2.5)", "(sign I)", "(/ I 4.0)", "(float->bits (float I))",
	"(interval 1 5 2)", "(interval 4)", "(general-car-cdr '((1 2) 3) 6)", "(second (cons I (cons I L)))", "(take 2 L)", "(drop 1 L)", "(list-ref L 0)", "(sublist 1 2 L)", "(list-head L 1)", "(list-tail L 1)", "(last-pair L)",
	"(memq I L)", "(member I L)", "(make-list 3 I)", "(flatten (list L (list I L)))", "(flatten* (list L (list I (list L))))", "(union L L)", "(intersection L L)", "(complement L L)", "(copy (list L I))", "(nth 1 (cons I L))",
	"(lisp->json {iq: I})", "(lisp->json (list I I))", "(json->lisp \"{\\\"a\\\": [1, 2, {\\\"b\\\": \\\"x\\\"}]}\")", "(str {iq: I})", "(format #f \"~5A|~S|~%\" I S)", "(format #f \"~A ~A\" L B)",
	"(parse \"(1 (a . b) {iq: 3})\")", "(str (parse \"(+ 1 'a \\\"s\\\" #t)\"))", "(eval (list '+ I I))", "(clone {iq: I iw: L})", "(has-slot? {iq: I} iq:)", "(frame-values {iq: I})", "(equal? {iq: I} {iq: I})", "(let ((fx {iq: I})) (remove-slot! fx iq:) (get-slot-or-nil fx iq:))",
	"(symbol? (intern S))", "(map + L (list I I I))", "(for-each F L)", "(any P L)", "(reduce + 0 L)", "(cadr (list I I))", "(list? L)", "(str (lambda (x) x))", "(environment-bound? (the-environment) 'car)", "(definition-of lib-inc)",
	"(expand (lib-mac-add 1 2))", "(str 'a \"b\" 2.5 '(1 . 2) '() #t)", "(eqv? S S)", "(atom? L)", "(nan? 1.5)", "(string-null? S)", "(write-string \"\")", "(eval '(let ((x 1)) (+ x I)) (the-environment))",
}

func (g *Gen) S() string {
	return g.w(g.pick("\"a\"", "\"banana\"", "\"Hello World\"", "\"\"", "\" x \"", "(str 1 2)"))
}

func (g *Gen) library() string {
	t := libraryCalls[g.r.Intn(len(libraryCalls))]
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		ok := (i == 0 || strings.IndexByte(" (", t[i-1]) >= 0) && (i+1 == len(t) || strings.IndexByte(" )}", t[i+1]) >= 0)
		if !ok {
			b.WriteByte(t[i])
			continue
		}
		switch t[i] {
		case 'I':
			b.WriteString(g.I())
		case 'L':
			b.WriteString(g.L())
		case 'S':
			b.WriteString(g.S())
		case 'P':
			b.WriteString(g.pred())
		case 'F':
			b.WriteString(g.fn1())
		case 'B':
			b.WriteString(g.B())
		default:
			b.WriteByte(t[i])
		}
	}
	g.k++
	return fmt.Sprintf("(h-t %d %d %s)", g.prog, g.k, b.String())
}

// swarm gives a choice among n that in half of the runs keeps to a few of
// them, so that rare combinations meet.
func swarm(r *Rand, n int) func(r *Rand) int {
	if r.Intn(2) == 0 {
		return func(r *Rand) int { return r.Intn(n) }
	}
	var few []int
	for i := 1 + r.Intn(4); i > 0; i-- {
		few = append(few, r.Intn(n))
	}
	return func(r *Rand) int {
		if r.Intn(12) == 0 {
			return r.Intn(n)
		}
		return few[r.Intn(len(few))]
	}
}
