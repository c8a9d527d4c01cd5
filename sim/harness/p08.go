package main

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/golisp"
)

// C08: environments.

func init() {
	register(&Prop{ID: "C08", Gen: genEnvs, Run: runEnvs, Quick: 60000, Thorough: 2500000,
		Rule: "a run is 2-4 clients doing 3-7 definitions, assignments, references, calls, environment operations and enumerations on a top-level environment T and an environment C inside it, on names defined in neither, one or both, with values, nil, functions and macros, and attempts to overwrite built-ins; non-trivial when two clients touched one name and one of them changed it, or an enumeration overlapped a definition"})
}

// Names and the only environments (0 T, 1 C, 2 global) in which each may be
// created while the clients run.
var envNames = []struct {
	name   string
	create int
}{{"n0", 0}, {"n1", 0}, {"m0", 1}, {"s0", -1}, {"u0", -1}, {"g0", 2}}

func genEnvs(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nc := 2 + r.Intn(3)
	w.set("lisp", int64(r.Intn(2)))
	w.set("preset", int64(r.Intn(8)))
	uniq := int64(100)
	focus := r.Intn(len(envNames))
	pick, pickVal := swarm(r, 30), swarm(r, 11)
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 3 + r.Intn(5); n > 0; n-- {
			nm := focus
			if r.Intn(3) == 0 {
				nm = r.Intn(len(envNames))
			}
			en := r.Intn(3)
			if r.Intn(2) == 0 && envNames[nm].create >= 0 {
				en = envNames[nm].create
			}
			op := func(k string) {
				ops = append(ops, Op{K: k, A: []int64{int64(en), int64(nm)}})
			}
			setop := func(k string) {
				uniq++
				kind := []string{"N", "N", "N", "N", "nil", "fn", "mac", "mac", "str", "none", "none"}[pickVal(r)]
				if k == "define" || k == "envdefine" {
					en = envNames[nm].create
					if en < 0 {
						en = r.Intn(2)
						if envNames[nm].name == "u0" {
							en = 0
						}
					}
				}
				if kind == "mac" && k != "envassign" {
					k, en = "define", envNames[nm].create
					if en < 0 {
						en = 0
					}
				}
				if kind == "mac" && k == "envassign" {
					kind = "N"
				}
				ops = append(ops, Op{K: k, A: []int64{int64(en), int64(nm), uniq}, S: []string{kind}})
			}
			switch k := pick(r); {
			case k < 4:
				op("ref")
			case k < 5:
				op("call")
			case k < 7:
				op("lookup")
			case k < 8:
				op("lookupmac")
			case k < 9:
				op([]string{"bound", "assignable"}[r.Intn(2)])
			case k < 10:
				op("reftype")
			case k < 11:
				op("assigned")
			case k < 15:
				setop("set")
			case k < 19:
				setop("define")
			case k < 21:
				setop("envdefine")
			case k < 23:
				setop("envassign")
			case k < 25:
				op("names")
			case k < 26:
				op("bindings")
			case k < 27:
				op("macros")
			default:
				ops = append(ops, Op{K: "prot", A: []int64{int64(en), int64(r.Intn(4)), int64(r.Intn(6))}})
			}
		}
		w.Clients = append(w.Clients, ops)
	}
	addStalls(w, r, nc)
	return w
}

var protNames = []string{"car", "pi", "+", "nil"}
var envVars = []string{"T", "C", "G"}

func envVal(op Op) string {
	switch op.S[0] {
	case "nil":
		return "nil"
	case "none": // evaluates to no value, which leaves the name unassigned
		return "(if #f 1)"
	case "fn":
		return fmt.Sprintf("(lambda () %d)", op.A[2])
	case "str":
		return fmt.Sprintf("\"v%d\"", op.A[2])
	}
	return fmt.Sprint(op.A[2])
}

func envExpr(op Op) string {
	a := op.A
	E := envVars[a[0]]
	if op.K == "prot" {
		n := protNames[a[1]]
		return []string{
			fmt.Sprintf("(eval '(set! %s 5) %s)", n, E),
			fmt.Sprintf("(environment-assign! %s '%s 5)", E, n),
			fmt.Sprintf("(environment-define G '%s 5)", n),
			fmt.Sprintf("(eval '(define %s 5) G)", n),
			fmt.Sprintf("(eval '(define (%s x) 5) G)", n),
			fmt.Sprintf("(eval '(defmacro (%s x) 5) G)", n),
		}[a[2]]
	}
	n := envNames[a[1]].name
	switch op.K {
	case "ref":
		return fmt.Sprintf("(eval '%s %s)", n, E)
	case "call":
		return fmt.Sprintf("(eval '(%s) %s)", n, E)
	case "lookup":
		return fmt.Sprintf("(environment-lookup %s '%s)", E, n)
	case "lookupmac":
		return fmt.Sprintf("(environment-lookup-macro %s '%s)", E, n)
	case "bound":
		return fmt.Sprintf("(environment-bound? %s '%s)", E, n)
	case "assignable":
		return fmt.Sprintf("(environment-assignable? %s '%s)", E, n)
	case "reftype":
		return fmt.Sprintf("(environment-reference-type %s '%s)", E, n)
	case "assigned":
		return fmt.Sprintf("(environment-assigned? %s '%s)", E, n)
	case "set":
		return fmt.Sprintf("(eval '(set! %s %s) %s)", n, envVal(op), E)
	case "define":
		if op.S[0] == "mac" {
			return fmt.Sprintf("(begin (eval '(defmacro (%s) %d) %s) nil)", n, op.A[2], E)
		}
		if op.S[0] == "fn" {
			return fmt.Sprintf("(begin (eval '(define (%s) %d) %s) nil)", n, op.A[2], E)
		}
		return fmt.Sprintf("(begin (eval '(define %s %s) %s) nil)", n, envVal(op), E)
	case "envdefine":
		return fmt.Sprintf("(environment-define %s '%s %s)", E, n, envVal(op))
	case "envassign":
		return fmt.Sprintf("(environment-assign! %s '%s %s)", E, n, envVal(op))
	case "names":
		return fmt.Sprintf("(environment-bound-names %s)", E)
	case "bindings":
		return fmt.Sprintf("(environment-bindings %s)", E)
	case "macros":
		return fmt.Sprintf("(environment-macro-names %s)", E)
	}
	return "nil"
}

// A name's state: its value in T, C and the global environment, "" when it
// has no binding there.  Values: "n<i>" numbers, "nil", "u" unassigned,
// "f<i>" functions, "m<i>" macros, "s<i>" strings.
func envStep(st string, ev *Ev) (bool, string) {
	v := strings.Split(st, ",")
	a := ev.Op.A
	at := -1
	chain := [][]int{{0, 2}, {1, 0, 2}, {2}}[a[0]]
	for _, l := range chain {
		if v[l] != "" {
			at = l
			break
		}
	}
	cur := ""
	if at >= 0 {
		cur = v[at]
	}
	put := func(l int, x string) string {
		n := append([]string{}, v...)
		n[l] = x
		return strings.Join(n, ",")
	}
	nv := func() string {
		k := ev.Op.S[0]
		if k == "nil" {
			return "nil"
		}
		if k == "none" {
			if strings.HasPrefix(ev.Op.K, "env") { // arguments of built-ins always have a value
				return "nil"
			}
			return "u"
		}
		return map[string]string{"N": "n", "fn": "f", "mac": "m", "str": "s"}[k] + fmt.Sprint(a[2])
	}
	kind := byte(0)
	if cur != "" {
		kind = cur[0]
	}
	switch ev.Op.K {
	case "ref":
		return ev.Out == envShow(cur), st
	case "call":
		if kind == 'f' || kind == 'm' {
			return ev.Out == cur[1:], st
		}
		return ev.Err != "", st
	case "lookup":
		if cur == "" || kind == 'u' || kind == 'm' {
			return ev.Err != "", st
		}
		return ev.Out == envShow(cur), st
	case "lookupmac":
		if kind == 'm' {
			return ev.Out == "<macro>", st
		}
		return ev.Out == "#f", st
	case "bound", "assignable":
		return ev.Out == map[bool]string{true: "#t", false: "#f"}[cur != ""], st
	case "reftype":
		want := "normal"
		switch {
		case cur == "":
			want = "unbound"
		case kind == 'u':
			want = "unassigned"
		case kind == 'm':
			want = "macro"
		}
		return ev.Out == want, st
	case "assigned":
		if cur == "" || kind == 'm' {
			return ev.Err != "", st
		}
		return ev.Out == map[bool]string{true: "#f", false: "#t"}[kind == 'u'], st
	case "set":
		if cur == "" {
			return ev.Err != "", st
		}
		return ev.Out == envShow(nv()), put(at, nv())
	case "envassign":
		if cur == "" {
			return ev.Out == "()", st
		}
		return ev.Out == envShow(nv()), put(at, nv())
	case "define", "envdefine":
		return ev.Err == "", put(int(a[0]), nv())
	case "local-bound": // an enumeration listed the name or not
		return (v[a[0]] != "") == (ev.Out == "#t"), st
	case "local-macro":
		return (v[a[0]] != "" && v[a[0]][0] == 'm') == (ev.Out == "#t"), st
	case "local-value":
		return v[a[0]] != "" && envShow(v[a[0]]) == ev.Out, st
	}
	return false, st
}

func envShow(v string) string {
	switch {
	case v == "" || v == "nil" || v == "u":
		return "()"
	case v[0] == 'f':
		return "<function " + v[1:] + ">"
	case v[0] == 'm':
		return "<macro>"
	case v[0] == 's':
		return "\"v" + v[1:] + "\""
	}
	return v[1:]
}

// encFn names functions by the constant they return.
func encFn(d *D) string {
	if golisp.FunctionP(d) {
		return "<function " + enc(golisp.Car(golisp.FunctionValue(d).Body)) + ">"
	}
	return enc(d)
}

func runEnvs(w *Workload, c *Ctx) *Violation {
	init := make([]string, len(envNames))
	exprs := make([][]*D, len(w.Clients))
	results := map[string]*D{}
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		e.must("(define T (make-top-level-environment \"T\" '(s0 u0)))")
		e.must("(define G (system-global-environment))")
		e.must("(eval '(define s0 1) T)")
		e.must("(define C (procedure-environment (eval '(let ((s0 2) (keep 1)) (lambda () keep)) T)))")
		for i := range envNames {
			init[i] = ",,"
		}
		init[3], init[4] = "n1,n2,", "u,,"
		for i, nm := range []int{0, 2, 5} {
			if w.n("preset")>>uint(i)&1 == 1 {
				l := envNames[nm].create
				e.must(fmt.Sprintf("(eval '(define %s 3) %s)", envNames[nm].name, envVars[l]))
				_, init[nm] = envStep(init[nm], &Ev{Op: Op{K: "define", A: []int64{int64(l), int64(nm), 3}, S: []string{"N"}}})
			}
		}
		for i, ops := range w.Clients {
			for _, op := range ops {
				exprs[i] = append(exprs[i], parse(envExpr(op)))
			}
		}
	}, Root: func(e *Exec) {
		e.RunClients(w.n("lisp") == 1, func(c, i int, op Op) (*D, error) {
			d, err := golisp.Eval(exprs[c][i], e.Env)
			results[fmt.Sprint(c, ".", i)] = d
			return d, err
		})
		for i, n := range protNames {
			v, err := evalS(e.Env, "(eval '"+n+" G)")
			if err != nil || enc(v) != []string{"<primitive>", "3.1415927f", "<primitive>", "()"}[i] {
				e.Fail("protected", "the built-in binding of %s became %s", n, enc(v))
			}
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	hist := make([][]*Ev, len(envNames))
	who := make([]map[int]bool, len(envNames))
	chg := make([]bool, len(envNames))
	c.Trivial = true
	for _, h := range e.Hist {
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		if h.Ret == 0 {
			return bad("blocked", "%v never returns\n%s", h, histText(e.Hist))
		}
		v := results[fmt.Sprint(h.Client, ".", h.Idx)]
		a := h.Op.A
		part := func(nm int, k, out string) {
			hist[nm] = append(hist[nm], &Ev{Client: h.Client, Idx: h.Idx, Inv: h.Inv, Ret: h.Ret, Op: Op{K: k, A: []int64{a[0], int64(nm)}}, Out: out})
		}
		tf := map[bool]string{true: "#t", false: "#f"}
		switch h.Op.K {
		case "prot":
			if h.Err == "" {
				return bad("protected", "%v (%s) does not fail", h, envExpr(h.Op))
			}
		case "names", "macros", "bindings":
			if h.Err != "" {
				return bad("error", "%v fails: %s", h, h.Err)
			}
			got := map[string]*D{}
			for x := v; golisp.NotNilP(x); x = golisp.Cdr(x) {
				d := golisp.Car(x)
				val := (*D)(nil)
				if h.Op.K == "bindings" {
					val = golisp.Cadr(d)
					d = golisp.Car(d)
				}
				n := golisp.StringValue(d)
				if _, dup := got[n]; dup {
					return bad("enumeration", "%v lists %s twice", h, n)
				}
				got[n] = val
				known := a[0] == 2 || n == "keep"
				for _, x := range envNames {
					known = known || x.name == n
				}
				if !known {
					return bad("enumeration", "%v lists %s, which nothing defined", h, n)
				}
			}
			if h.Op.K != "macros" {
				if _, ok := got["keep"]; a[0] == 1 && !ok {
					return bad("enumeration", "%v does not list keep, defined before", h)
				}
				if _, ok := got["car"]; a[0] == 2 && !ok {
					return bad("enumeration", "%v does not list car, defined before", h)
				}
			}
			for i, x := range envNames {
				val, in := got[x.name]
				if h.Op.K == "macros" {
					part(i, "local-macro", tf[in])
					continue
				}
				part(i, "local-bound", tf[in])
				if in && h.Op.K == "bindings" {
					part(i, "local-value", encFn(val))
				}
			}
			for _, g := range e.Hist {
				if g.Client != h.Client && g.Inv < h.Ret && h.Inv < g.Ret && strings.HasSuffix(g.Op.K, "define") {
					c.Trivial = false
				}
			}
		default:
			nm := a[1]
			if h.Err == "" {
				h.Out = encFn(v)
			}
			if who[nm] == nil {
				who[nm] = map[int]bool{}
			}
			who[nm][h.Client] = true
			switch h.Op.K {
			case "set", "define", "envdefine", "envassign":
				chg[nm] = true
			}
			if len(who[nm]) > 1 && chg[nm] {
				c.Trivial = false
			}
			hist[nm] = append(hist[nm], h)
		}
	}
	c.stat("ops", int64(len(e.Hist)))
	for i, hs := range hist {
		why, gave := Linearizable(&Model{Init: init[i], Step: envStep}, hs, 300000)
		if gave {
			c.stat("lin-gave-up", 1)
		}
		if why != "" {
			return bad("not-linearizable", "name %s, initially %q (T,C,G): %s\nhistory:\n%s", envNames[i].name, init[i], why, histText(hs))
		}
	}
	return nil
}

var _ = sort.Strings
