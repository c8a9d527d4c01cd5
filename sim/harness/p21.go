package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C21: profiles.

func init() {
	register(&Prop{ID: "C21", Gen: genProfile, Run: runProfile, Quick: 20000, Thorough: 700000,
		Rule: "a run is 1-3 functions, some with percent signs in their names, and a profiled evaluation of 1-4 expressions over them: arithmetic, 16 special forms, functions passed to map, apply, filter, reduce and ->, macros, methods, named lets, errors caught and not, panics, and forked processes, joined or not, to the console or a file, with short writes, clock jumps and stalls, or, in one run in six, failing writes; non-trivial when at least four applications were recorded"})
}

var profNames = []string{"f0", "f%d1", "a%s-%v", "f3!", "%z", "five%%", "f->6", "f7?", "a-function-with-a-rather-long-name-for-a-function", "ünï-cödé", "xyzzy", "Upper", "+1", "a.b", "n100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"}

type profGen struct {
	r     *Rand
	funs  []string
	vars  []string
	depth int
	size  int
	proc  int
	calls int // that may still be generated
	fails bool
}

func (g *profGen) bind(v string, f func() string) string {
	o := g.vars
	g.vars = append(append([]string{}, o...), v)
	s := f()
	g.vars = o
	return s
}

func (g *profGen) cond() string {
	switch g.r.Intn(4) {
	case 0:
		return fmt.Sprintf("(and (< %s %s) (< %s %s))", g.e(), g.e(), g.e(), g.e())
	case 1:
		return fmt.Sprintf("(or (< %s %s) (< %s %s))", g.e(), g.e(), g.e(), g.e())
	}
	return fmt.Sprintf("(< %s %s)", g.e(), g.e())
}

func (g *profGen) v() string { return []string{"x", "y", "z"}[g.r.Intn(3)] }

func (g *profGen) mayCall() bool {
	if len(g.funs) == 0 || g.calls == 0 {
		return false
	}
	g.calls--
	return true
}

// e generates an integer expression.
func (g *profGen) e() string {
	g.depth++
	defer func() { g.depth-- }()
	g.size++
	if g.depth > 5 || g.size > 40 || g.r.Intn(6) == 0 {
		if len(g.vars) > 0 && g.r.Intn(2) == 0 {
			return g.vars[g.r.Intn(len(g.vars))]
		}
		return fmt.Sprint(g.r.Intn(12))
	}
	fun := func() string { return g.funs[g.r.Intn(len(g.funs))] }
	v := g.v()
	switch g.r.Intn(27) {
	case 0, 1:
		return fmt.Sprintf("(%s %s %s)", []string{"+", "-", "*"}[g.r.Intn(3)], g.e(), g.e())
	case 2:
		return fmt.Sprintf("(if %s %s %s)", g.cond(), g.e(), g.e())
	case 3:
		return fmt.Sprintf("(begin %s %s)", g.e(), g.e())
	case 4:
		a := g.e()
		return fmt.Sprintf("(let ((%s %s)) %s)", v, a, g.bind(v, g.e))
	case 5:
		a := g.e()
		return fmt.Sprintf("(let* ((%s %s)) %s %s)", v, a, g.bind(v, g.e), g.bind(v, g.e))
	case 6, 7, 8:
		if g.mayCall() {
			return fmt.Sprintf("(%s %s)", fun(), g.e())
		}
	case 9:
		return fmt.Sprintf("((lambda (%s) %s) %s)", v, g.bind(v, g.e), g.e())
	case 10:
		return fmt.Sprintf("(reduce + 0 (map (lambda (%s) %s) (list %s %s)))", v, g.bind(v, g.e), g.e(), g.e())
	case 11:
		if g.mayCall() {
			return fmt.Sprintf("(apply %s (list %s))", fun(), g.e())
		}
		return fmt.Sprintf("(apply + %s (list %s))", g.e(), g.e())
	case 12:
		if len(g.vars) > 0 {
			v = g.vars[g.r.Intn(len(g.vars))]
			return fmt.Sprintf("(begin (set! %s %s) %s)", v, g.e(), v)
		}
	case 13:
		return fmt.Sprintf("(cond (%s %s) (else %s))", g.cond(), g.e(), g.e())
	case 14:
		return fmt.Sprintf("(case %s ((1 2 3) %s) (else %s))", g.e(), g.e(), g.e())
	case 15:
		return fmt.Sprintf("(mac%d %s)", g.r.Intn(2), g.e())
	case 16:
		return fmt.Sprintf("(m:> fr %s)", g.e())
	case 17:
		return fmt.Sprintf("(let loop ((%s %d)) (if (< %s 2) (loop (+ %s 1)) %s))", v, g.r.Intn(2), v, v, g.bind(v, g.e))
	case 18:
		return fmt.Sprintf("(on-error %s (lambda (m) %s))", g.e(), g.e())
	case 19:
		return fmt.Sprintf("(on-error %s (lambda (m) %s) (lambda () %s))", g.e(), g.e(), g.e())
	case 20:
		return fmt.Sprintf("(begin (when %s %s) (unless %s %s) %s)", g.cond(), g.e(), g.cond(), g.e(), g.e())
	case 21:
		if g.mayCall() {
			return fmt.Sprintf("(-> %s %s (+ %s))", g.e(), fun(), g.e())
		}
	case 22:
		return fmt.Sprintf("(length (filter (lambda (%s) %s) (list %s %s)))", v, g.bind(v, g.cond), g.e(), g.e())
	case 23:
		if g.fails {
			return []string{"(error \"boom\")", "(h-boom)", "(error \"boom\")", "(undefined-function 1)", "(+ 1 'x)", "(f-arity 1 2)", "(sleep 'x)"}[g.r.Intn(7)]
		}
	case 24:
		return fmt.Sprintf("(begin (sleep %d) %s)", g.r.Intn(3), g.e())
	case 25, 26:
		if g.proc < 4 {
			g.proc++
			p := fmt.Sprintf("p%d", g.proc)
			// the child must not race for variables with anybody
			o := g.vars
			g.vars = nil
			b := g.e()
			g.vars = o
			if g.r.Intn(5) == 0 {
				return fmt.Sprintf("(let ((%s (fork (lambda (q) %s)))) %s)", p, b, g.e())
			}
			return fmt.Sprintf("(let ((%s (fork (lambda (q) %s)))) (begin %s (join %s) 5))", p, b, g.e(), p)
		}
	}
	return fmt.Sprintf("(+ %s 1)", g.e())
}

func genProfile(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{Clients: make([][]Op, 2)}
	g := &profGen{r: r, fails: r.Intn(2) == 0}
	for n := 1 + r.Intn(3); n > 0; n-- {
		name := profNames[r.Intn(len(profNames))]
		dup := false
		for _, f := range g.funs {
			dup = dup || f == name
		}
		if dup {
			continue
		}
		g.size, g.calls = 22, 2
		body := g.bind("x", g.e)
		w.Clients[0] = append(w.Clients[0], Op{K: "define", S: []string{name, body}})
		g.funs = append(g.funs, name)
	}
	g.calls = 3
	for n := 1 + r.Intn(4); n > 0; n-- {
		g.size = 12
		w.Clients[1] = append(w.Clients[1], Op{K: "eval", S: []string{g.e()}})
	}
	w.set("file", int64(r.Intn(2)))
	w.set("local", int64(r.Intn(3)))
	w.set("times", int64(1+r.Intn(2)))
	if r.Intn(3) == 0 {
		w.set("maxwrite", int64(1+r.Intn(30)))
	}
	if r.Intn(6) == 0 {
		path := "/dev/stdout"
		if w.n("file") == 1 {
			path = "prof.out"
		}
		for n := 1 + r.Intn(2); n > 0; n-- {
			w.Faults = append(w.Faults, simrt.IOFault{Op: "write", Path: path, N: r.Intn(12), Kind: "err", Rest: r.Intn(2) == 0})
		}
	}
	if w.n("file") == 1 && r.Intn(12) == 0 {
		w.Faults = append(w.Faults, simrt.IOFault{Op: "create", Path: "prof.out", N: r.Intn(2), Kind: "err"})
	}
	if r.Intn(4) == 0 {
		for n := 1 + r.Intn(2); n > 0; n-- {
			w.Jumps = append(w.Jumps, simrt.Jump{At: int64(r.Intn(400)), Delta: int64(r.Intn(20001)-10000) * 1e6})
		}
	}
	addStalls(w, r, 2)
	return w
}

// the model

var profPrims = map[string]bool{"+": true, "-": true, "*": true, "<": true, "list": true, "length": true, "map": true, "filter": true, "reduce": true,
	"apply": true, "error": true, "h-boom": true, "sleep": true, "fork": true, "join": true}

type profErr struct{ panicking bool }

type profRec struct {
	enter      bool
	kind, name string
}

func (r profRec) String() string {
	m := "exit"
	if r.enter {
		m = "enter"
	}
	return m + " " + r.kind + " " + r.name
}

type profFun struct {
	name   string
	params []string
	body   []*D
	env    *profEnv
}

type profProc struct {
	*profTrace
	val    interface{}
	err    *profErr
	joined bool
}

type profEnv struct {
	vars map[string]interface{}
	up   *profEnv
}

func (v *profEnv) find(n string) *profEnv {
	for ; v != nil; v = v.up {
		if _, ok := v.vars[n]; ok {
			return v
		}
	}
	return nil
}

type profTrace struct {
	recs []profRec
	kids []*profProc
}

func (t *profTrace) total() int {
	n := len(t.recs)
	for _, k := range t.kids {
		n += k.total()
	}
	return n
}

type profThrow struct{ profErr }

func (t *profTrace) fail() { panic(profThrow{profErr{false}}) }

// applied records one application around f.
func (t *profTrace) applied(kind, name string, f func() interface{}) interface{} {
	t.recs = append(t.recs, profRec{true, kind, name})
	defer func() { t.recs = append(t.recs, profRec{false, kind, name}) }()
	return f()
}

// try runs f, telling how it failed.
func profTry(f func() interface{}) (v interface{}, err *profErr) {
	defer func() {
		if r := recover(); r != nil {
			p, ok := r.(profThrow)
			if !ok {
				panic(r)
			}
			v, err = nil, &p.profErr
		}
	}()
	return f(), nil
}

func items(d *D) []*D {
	var l []*D
	for ; golisp.NotNilP(d); d = golisp.Cdr(d) {
		l = append(l, golisp.Car(d))
	}
	return l
}

func (t *profTrace) call(f interface{}, args []interface{}) interface{} {
	switch f := f.(type) {
	case *profFun:
		if len(args) != len(f.params) {
			t.fail()
		}
		env := &profEnv{map[string]interface{}{}, f.env}
		for i, p := range f.params {
			env.vars[p] = args[i]
		}
		return t.applied("func", f.name, func() (v interface{}) {
			for _, b := range f.body {
				v = t.eval(b, env)
			}
			return
		})
	case string:
		return t.prim(f, args)
	}
	t.fail()
	return nil
}

func (t *profTrace) prim(name string, a []interface{}) interface{} {
	return t.applied("prim", name, func() interface{} {
		ints := make([]int64, len(a))
		for i, v := range a {
			if n, ok := v.(int64); ok {
				ints[i] = n
			} else if name == "+" || name == "-" || name == "*" || name == "<" || name == "sleep" {
				t.fail()
			}
		}
		if a0 := len(a) > 0 && a[0] == nil; a0 && (name == "map" || name == "apply") {
			t.fail()
		}
		switch name {
		case "+":
			n := int64(0)
			for _, v := range ints {
				n += v
			}
			return n
		case "*":
			n := int64(1)
			for _, v := range ints {
				n *= v
			}
			return n
		case "-":
			return ints[0] - ints[1]
		case "<":
			return ints[0] < ints[1]
		case "list":
			return a
		case "length":
			return int64(len(a[0].([]interface{})))
		case "map":
			var l []interface{}
			for _, v := range a[1].([]interface{}) {
				l = append(l, t.call(a[0], []interface{}{v}))
			}
			return l
		case "filter":
			var l []interface{}
			for _, v := range a[1].([]interface{}) {
				if t.call(a[0], []interface{}{v}).(bool) {
					l = append(l, v)
				}
			}
			return l
		case "reduce":
			l := a[2].([]interface{})
			if len(l) == 0 {
				return a[1]
			}
			acc := l[0]
			for _, v := range l[1:] {
				acc = t.call(a[0], []interface{}{acc, v})
			}
			return acc
		case "apply":
			args := append([]interface{}{}, a[1:len(a)-1]...)
			return t.call(a[0], append(args, a[len(a)-1].([]interface{})...))
		case "send":
			return t.call(a[0], a[1:])
		case "error":
			t.fail()
		case "h-boom":
			panic(profThrow{profErr{true}})
		case "sleep":
			return nil
		case "fork":
			p := &profProc{profTrace: &profTrace{}}
			t.kids = append(t.kids, p)
			p.val, p.err = profTry(func() interface{} { return p.call(a[0], []interface{}{p}) })
			return p
		case "join":
			p := a[0].(*profProc)
			p.joined = true
			return p.val
		}
		panic("harness: no primitive " + name)
	})
}

func (t *profTrace) body(l []*D, env *profEnv) (v interface{}) {
	for _, b := range l {
		v = t.eval(b, env)
	}
	return
}

func truth(v interface{}) bool {
	b, ok := v.(bool)
	return !(ok && !b) && v != nil
}

func (t *profTrace) eval(d *D, env *profEnv) interface{} {
	switch {
	case golisp.IntegerP(d):
		return golisp.IntegerValue(d)
	case golisp.StringP(d):
		return golisp.StringValue(d)
	case golisp.SymbolP(d):
		n := golisp.StringValue(d)
		if f := env.find(n); f != nil {
			return f.vars[n]
		}
		if profPrims[n] {
			return n
		}
		return nil // only when minimised
	}
	l := items(d)
	a := l[1:]
	name := ""
	if golisp.SymbolP(l[0]) {
		name = golisp.StringValue(l[0])
		if env.find(name) != nil {
			name = ""
		}
	}
	form := func(f func() interface{}) interface{} { return t.applied("form", name, f) }
	lambda := func(name string, params *D, body []*D) *profFun {
		f := &profFun{name: name, body: body, env: env}
		for _, p := range items(params) {
			f.params = append(f.params, golisp.StringValue(p))
		}
		return f
	}
	switch name {
	case "undefined-function":
		t.fail()
	case "quote": // not recorded here
		return golisp.StringValue(a[0])
	case "if":
		return form(func() interface{} {
			if truth(t.eval(a[0], env)) {
				return t.eval(a[1], env)
			}
			return t.eval(a[2], env)
		})
	case "when", "unless":
		return form(func() interface{} {
			if truth(t.eval(a[0], env)) == (name == "when") {
				return t.body(a[1:], env)
			}
			return nil
		})
	case "begin":
		return form(func() interface{} { return t.body(a, env) })
	case "and", "or":
		return form(func() (v interface{}) {
			for _, b := range a {
				if v = t.eval(b, env); truth(v) == (name == "or") {
					return
				}
			}
			return
		})
	case "let", "let*":
		return form(func() interface{} {
			n := &profEnv{map[string]interface{}{}, env}
			if golisp.SymbolP(a[0]) {
				env = n
				f := lambda(golisp.StringValue(a[0]), nil, a[2:])
				var args []interface{}
				for _, b := range items(a[1]) {
					f.params = append(f.params, golisp.StringValue(golisp.Car(b)))
					args = append(args, t.eval(golisp.Cadr(b), n.up))
				}
				n.vars[f.name] = f
				return t.call(f, args)
			}
			for _, b := range items(a[0]) {
				n.vars[golisp.StringValue(golisp.Car(b))] = t.eval(golisp.Cadr(b), env)
			}
			return t.body(a[1:], n)
		})
	case "set!":
		return form(func() interface{} {
			v := t.eval(a[1], env)
			n := golisp.StringValue(a[0])
			f := env.find(n)
			if f == nil {
				t.fail() // only when minimised
			}
			f.vars[n] = v
			return v
		})
	case "lambda":
		return form(func() interface{} { return lambda("unnamed", a[0], a[1:]) })
	case "cond":
		return form(func() interface{} {
			for _, c := range a {
				if golisp.SymbolP(golisp.Car(c)) || truth(t.eval(golisp.Car(c), env)) {
					return t.body(items(golisp.Cdr(c)), env)
				}
			}
			return nil
		})
	case "case":
		return form(func() interface{} {
			k := t.eval(a[0], env)
			for _, c := range a[1:] {
				hit := golisp.SymbolP(golisp.Car(c))
				if !hit {
					for _, v := range items(golisp.Car(c)) {
						hit = hit || k == golisp.IntegerValue(v)
					}
				}
				if hit {
					return t.body(items(golisp.Cdr(c)), env)
				}
			}
			return nil
		})
	case "on-error":
		return form(func() interface{} {
			v, err := profTry(func() interface{} { return t.eval(a[0], env) })
			if err != nil && err.panicking {
				panic(profThrow{*err})
			}
			if err == nil {
				if len(a) < 3 {
					return v
				}
				return t.call(t.eval(a[2], env), nil)
			}
			return t.call(t.eval(a[1], env), []interface{}{"message"})
		})
	case "->":
		return form(func() interface{} {
			v := t.eval(a[0], env)
			for _, s := range a[1:] {
				x := list(s, num(v.(int64)))
				if !golisp.SymbolP(s) {
					x = golisp.Cons(golisp.Car(s), golisp.Cons(num(v.(int64)), golisp.Cdr(s)))
				}
				v = t.eval(x, env)
			}
			return v
		})
	case "mac0": // `(+ ,x 1)
		t.applied("form", "quasiquote", func() interface{} { return nil })
		return t.eval(call("+", a[0], num(1)), env)
	case "mac1": // `(let ((t1 ,x)) (* t1 2))
		t.applied("form", "quasiquote", func() interface{} { return nil })
		return t.eval(call("let", list(list(sym("t1"), a[0])), call("*", sym("t1"), num(2))), env)
	case "m:>":
		n := t.eval(a[1], env)
		return t.prim("send", []interface{}{env.find("fr").vars["fr"], n})
	}
	f := t.eval(l[0], env)
	if f == nil {
		t.fail()
	}
	var args []interface{}
	for _, x := range a {
		args = append(args, t.eval(x, env))
	}
	return t.call(f, args)
}

var profLine = regexp.MustCompile(`^\{time: (-?\d+) guid: (\d+) mode: '(enter|exit) type: '(\S+) name: '(.*)\}$`)

type profGot struct {
	profRec
	time, guid int64
}

func parseProfile(text string) (l []profGot, v *Violation) {
	if text != "" && !strings.HasSuffix(text, "\n") {
		return nil, bad("torn", "the profile ends in an incomplete record: %q", text[strings.LastIndex(text, "\n")+1:])
	}
	for _, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if text == "" {
			break
		}
		m := profLine.FindStringSubmatch(line)
		if m == nil {
			return nil, bad("garbled", "the profile has %q", line)
		}
		var g profGot
		g.time, _ = strconv.ParseInt(m[1], 10, 64)
		g.guid, _ = strconv.ParseInt(m[2], 10, 64)
		g.enter = m[3] == "enter"
		g.kind, g.name = m[4], m[5]
		l = append(l, g)
	}
	return
}

type profRound struct {
	from, upto   int // console events
	fromJ, uptoJ int
	t0, t1       int64
	val          *D
	err          error
	pan          string
	file         string
	want         interface{}
	werr         *profErr
	main         *profTrace
	open         int
	end          int // console events when everything had finished
	tasks0       int // tasks before and after
	tasks1       int
	noOpen       bool // the file could not be opened
}

func runProfile(w *Workload, c *Ctx) *Violation {
	var src []string
	for _, op := range w.Clients[1] {
		src = append(src, op.S[0])
	}
	if len(src) == 0 {
		src = []string{"1"}
	}
	program := "(begin " + strings.Join(src, " ") + ")"
	profiled := "(profile " + program + ")"
	if w.n("file") == 1 {
		profiled = "(profile " + program + " \"prof.out\")"
	}
	jumpBack := false
	for _, j := range w.Jumps {
		jumpBack = jumpBack || j.Delta < 0
	}
	var rounds []*profRound
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		prim("h-boom", func([]*D, *Env) (*D, error) { panic("boom") })
	}, Root: func(e *Exec) {
		e.S.FS.MaxWrite = int(w.n("maxwrite"))
		env := e.Env
		if w.n("local") == 1 {
			env = golisp.NewSymbolTableFrameBelow(env, "local")
		}
		def := func(s string) {
			if _, err := golisp.ParseAndEvalAllInEnvironment(s, env); err != nil {
				panic(setupFailure(s + ": " + err.Error()))
			}
		}
		def("(define fr {m: (lambda (x) (+ x 1))})")
		def("(defmacro (mac0 x) `(+ ,x 1))")
		def("(defmacro (mac1 x) `(let ((t1 ,x)) (* t1 2)))")
		def("(define (f-arity x) x)")
		menv := &profEnv{map[string]interface{}{}, nil}
		fun := func(name, body string) {
			menv.vars[name] = &profFun{name, []string{"x"}, []*D{parse(body)}, menv}
		}
		fun("f-arity", "x")
		menv.vars["fr"] = &profFun{"unnamed", []string{"x"}, []*D{parse("(+ x 1)")}, menv}
		for _, op := range w.Clients[0] {
			def("(define (" + op.S[0] + " x) " + op.S[1] + ")")
			fun(op.S[0], op.S[1])
		}
		for i := int64(0); i < w.n("times"); i++ {
			r := &profRound{main: &profTrace{}}
			r.want, r.werr = profTry(func() interface{} { return r.main.eval(parse(program), menv) })
			if r.main.total() > 500 {
				return
			}
			r.from, r.fromJ = len(e.S.FS.Console), len(e.S.FS.Journal)
			r.t0 = e.S.Wall()
			r.tasks0 = e.S.NTasks()
			opens := func() (n int) {
				for _, f := range e.S.FS.Faults {
					if f.Op == "create" {
						n += f.Fired
					}
				}
				return
			}
			before := opens()
			if w.n("local") == 2 {
				r.val, r.err, r.pan = tryEval(env, call("eval", call("quote", parse(profiled))))
			} else {
				r.val, r.err, r.pan = tryEval(env, parse(profiled))
			}
			r.t1 = e.S.Wall()
			r.noOpen = opens() > before
			r.upto, r.uptoJ = len(e.S.FS.Console), len(e.S.FS.Journal)
			r.open = e.S.FS.OpenHandles
			rounds = append(rounds, r)
			tryEval(env, parse("(+ 1 (* 2 3))")) // not profiled any more
			simrt.QuiesceLast(e.horizon())
			r.end = len(e.S.FS.Console)
			r.tasks1 = e.S.NTasks()
			if w.n("file") == 1 {
				b, _ := e.S.FS.Get("prof.out")
				r.file = string(b)
			}
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	faulted := false
	for _, f := range e.S.FS.Faults {
		faulted = faulted || f.Fired > 0 && f.Op == "write"
	}
	for _, r := range rounds {
		if v := r.check(w, c, e, profiled, faulted, jumpBack); v != nil {
			return v
		}
	}
	return nil
}

func (r *profRound) check(w *Workload, c *Ctx, e *Exec, profiled string, faulted, jumpBack bool) *Violation {
	got, want := "error", "error"
	if r.noOpen {
		// nothing may be evaluated, nor profiling be left on
		if r.err == nil && r.pan == "" {
			return bad("unreported", "%s gives %s though the file could not be opened", profiled, enc(r.val))
		}
		for i := r.from; i < r.end; i++ {
			if ev := e.S.FS.Console[i]; strings.Contains(ev.Text, "time:") {
				return bad("left-on", "profiling goes on after %s failed: %q", profiled, ev.Text)
			}
		}
		return nil
	}
	switch {
	case r.pan != "":
		got = "panic"
	case r.err == nil:
		got = enc(r.val)
	}
	switch {
	case r.werr == nil:
		want = fmt.Sprint(r.want)
	case r.werr.panicking:
		want = "panic"
	}
	if got != want {
		return bad("result", "%s gives %s (%v%s), not %s", profiled, got, r.err, r.pan, want)
	}
	if r.open != 0 {
		return bad("open", "the profile is left open after %s", profiled)
	}
	file := w.n("file") == 1
	texts := map[int]string{}
	for i := r.from; i < r.end; i++ {
		ev := e.S.FS.Console[i]
		if i >= r.upto && ev.Task == 0 && strings.Contains(ev.Text, "time:") {
			return bad("left-on", "profiling goes on after %s: %q", profiled, ev.Text)
		}
		if !file && ev.FD == 1 {
			texts[ev.Task] += ev.Text
		}
	}
	if faulted {
		return nil
	}
	if file {
		if _, v := parseProfile(r.file); v != nil {
			return v
		}
		n := 0
		for _, j := range e.S.FS.Journal[r.fromJ:] {
			if j.Kind == "write" && j.Path == e.S.FS.Abs("prof.out") && n < len(r.file) {
				texts[j.Task] += string(j.Data)
				n += len(j.Data)
			}
		}
		if n != len(r.file) {
			return bad("lost", "the profile has %d bytes of %d written", len(r.file), n)
		}
	}
	guids := map[int64]int{}
	records := 0
	var walk func(task int, t *profTrace, whole bool, failed bool) *Violation
	walk = func(task int, t *profTrace, whole bool, failed bool) *Violation {
		text := texts[task]
		if failed && !file {
			// its error is printed after its records
			keep := ""
			for _, line := range strings.SplitAfter(text, "\n") {
				if !profLine.MatchString(strings.TrimSuffix(line, "\n")) {
					break
				}
				keep += line
			}
			if strings.Contains(text[len(keep):], "{time:") {
				return bad("garbled", "process %d writes %q", task, text)
			}
			text = keep
		}
		got, v := parseProfile(text)
		if v != nil {
			return v
		}
		var stack []profGot
		n := 0
		last := int64(-1 << 62)
		for _, g := range got {
			records++
			if g.enter {
				guids[g.guid]++
				if guids[g.guid] > 1 {
					return bad("guid", "%s: identifier %d is used twice", profiled, g.guid)
				}
				stack = append(stack, g)
			} else {
				if len(stack) == 0 {
					return bad("nesting", "%s: process %d has %v without enter", profiled, task, g.profRec)
				}
				o := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if o.guid != g.guid || o.name != g.name || o.kind != g.kind {
					return bad("nesting", "%s: %v (%d) is closed by %v (%d)", profiled, o.profRec, o.guid, g.profRec, g.guid)
				}
			}
			if !jumpBack {
				if g.time < last {
					return bad("time", "%s: the time of %v is before the one of the record before", profiled, g.profRec)
				}
				if g.time < r.t0 || whole && g.time > r.t1 {
					return bad("time", "%s: %v is at %d, the run lasted from %d to %d", profiled, g.profRec, g.time, r.t0, r.t1)
				}
			}
			last = g.time
			if g.name == "quote" {
				continue
			}
			if n >= len(t.recs) || t.recs[n] != g.profRec {
				exp := "nothing more"
				if n < len(t.recs) {
					exp = t.recs[n].String()
				}
				return bad("records", "%s: process %d records %v where %s was done", profiled, task, g.profRec, exp)
			}
			n++
		}
		if whole && n < len(t.recs) {
			return bad("records", "%s: process %d does not record %v", profiled, task, t.recs[n])
		}
		// the processes it started, in order
		var kids []int
		for id := r.tasks0; id < e.S.NTasks(); id++ {
			if e.S.ParentOf(id) == task && id < r.tasks1 {
				kids = append(kids, id)
			}
		}
		if len(kids) > len(t.kids) {
			return bad("harness", "%d processes instead of %d", len(kids), len(t.kids))
		}
		for i, id := range kids {
			k := t.kids[i]
			if v := walk(id, k.profTrace, whole && k.joined, k.err != nil); v != nil {
				return v
			}
		}
		return nil
	}
	if v := walk(0, r.main, true, false); v != nil {
		return v
	}
	if records < 8 {
		c.Trivial = true
	}
	c.stat("records", int64(records))
	return nil
}
