package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verifsim/golisp"
)

// C09: symbols.

func init() {
	register(&Prop{ID: "C09", Gen: genSyms, Run: runSyms, Quick: 100000, Thorough: 4000000,
		Rule: "a run is 2-5 clients creating symbols of 1-4 names not seen before (intern, reading source text, frame keys of converted JSON, slot references, shorthand forms, environment names) and generated symbols (plain and naked, default and given prefixes, failing calls in between; sometimes hundreds of prefixes or symbols); non-trivial when two clients created symbols of one name or prefix"})
}

func genSyms(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nc := 2 + r.Intn(4)
	w.set("lisp", int64(r.Intn(2)))
	names := 1 + r.Intn(4)
	// names that nearly coincide, long names, names of unusual characters
	shapes := []string{"sy%d", "sy%d", "sy%d", "Sy%d", "sy0%d", "s%d-sy", "sy%d?", "sy%d!", "s->y*%d", "s\u00e9%d\u03bb", "sy%d-0",
		"a-name-that-goes-on-and-on-and-on-without-any-end-in-sight-%d-and-then-some-more-of-the-same"}
	pick, shape := swarm(r, 16), swarm(r, len(shapes))
	var all []string
	for i := 0; i < names; i++ {
		all = append(all, fmt.Sprintf(shapes[shape(r)], r.Intn(3)))
	}
	many := r.Intn(60) == 0
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 2 + r.Intn(5); n > 0; n-- {
			k := []string{"intern", "intern", "parse", "parselist", "json", "slotref", "short", "envname", "gensym", "gensym", "gensymp", "gensymp", "gensyms", "naked", "nakedp", "genbad"}[pick(r)]
			i := r.Intn(names)
			ops = append(ops, Op{K: k, A: []int64{int64(i)}, S: []string{all[i]}})
		}
		if many {
			for n := 1 + r.Intn(2); n > 0; n-- {
				at := r.Intn(len(ops) + 1)
				op := Op{K: []string{"many", "many", "manyone"}[r.Intn(3)], A: []int64{int64(5 + r.Intn(300))}, S: []string{all[r.Intn(names)]}}
				ops = append(ops[:at], append([]Op{op}, ops[at:]...)...)
			}
		}
		w.Clients = append(w.Clients, ops)
	}
	addStalls(w, r, nc)
	return w
}

func runSyms(w *Workload, c *Ctx) *Violation {
	type made struct {
		ev   *Ev
		name string
		d    *D
	}
	var syms []made
	var gens []made
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		e.must("(define E (make-top-level-environment \"E\"))")
	}, Root: func(e *Exec) {
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			ev := (*Ev)(nil)
			for _, h := range e.Hist {
				if h.Client == cl && h.Idx == i {
					ev = h
				}
			}
			nm := op.S[0]
			add := func(name string, d *D) { syms = append(syms, made{ev, name, d}) }
			ev1 := func(d *D) (*D, error) { return golisp.Eval(d, e.Env) }
			switch op.K {
			case "intern":
				d, err := ev1(call("intern", str(nm)))
				if err == nil {
					add(nm, d)
				}
				return d, err
			case "parse":
				d, err := golisp.Parse(nm)
				if err == nil {
					add(nm, d)
				}
				return d, err
			case "parselist":
				d, err := golisp.Parse("(" + nm + " " + nm + ": . " + nm + ")")
				if err == nil {
					add(nm, golisp.Car(d))
					add(nm+":", golisp.Cadr(d))
					add(nm, golisp.Cddr(d))
				}
				return d, err
			case "json":
				d, err := ev1(call("car", call("frame-keys", call("json->lisp", str("{\""+nm+"\": 1}")))))
				if err == nil {
					add(nm+":", d)
				}
				return d, err
			case "slotref":
				// a reference inside a method makes the slot's name
				d, err := ev1(call("intern", str(nm)))
				if err != nil {
					return d, err
				}
				add(nm, d)
				d, err = ev1(call("car", call("frame-keys", call("json->lisp", str("{\""+nm+"\": 1}")))))
				add(nm+":", d)
				_, err = golisp.Eval(list(sym("send"), call("make-frame", sym("m:"), call("lambda", golisp.EmptyCons(), call("set!", golisp.Intern(nm), num(1))), d, num(4)), sym("m:")), e.Env)
				return d, err
			case "short":
				d, err := golisp.Parse("(" + nm + ":? (json->lisp \"{\\\"" + nm + "\\\": 1}\"))")
				if err != nil {
					return d, err
				}
				return ev1(d)
			case "envname":
				d, err := ev1(call("intern", str(nm)))
				if err != nil {
					return d, err
				}
				add(nm, d)
				_, err = ev1(call("environment-define", sym("E"), golisp.QuoteIt(d), num(1)))
				if err != nil {
					return nil, err
				}
				l, err := ev1(call("environment-bound-names", sym("E")))
				for x := l; golisp.NotNilP(x); x = golisp.Cdr(x) {
					add(golisp.StringValue(golisp.Car(x)), golisp.Car(x))
				}
				return nil, err
			case "gensym", "gensymp", "gensyms", "naked", "nakedp":
				f, p := "gensym", "GENSYM"
				if strings.HasPrefix(op.K, "naked") {
					f = "gensym-naked"
				}
				x := call(f)
				switch op.K {
				case "gensymp", "nakedp":
					p = "pre" + op.S[0]
					x = call(f, str(p))
				case "gensyms":
					p = "pre" + op.S[0]
					x = call(f, golisp.QuoteIt(sym(p)))
				}
				d, err := ev1(x)
				if err == nil {
					gens = append(gens, made{ev, p, d})
					if f == "gensym-naked" {
						add(golisp.StringValue(d), d)
					}
				}
				return d, err
			case "many", "manyone":
				f := []string{"gensym", "gensym-naked"}[op.A[0]%2]
				for j := int64(0); j < op.A[0]; j++ {
					p := "pre" + nm
					if op.K == "many" {
						p += fmt.Sprintf("-m%d", j)
					}
					d, err := ev1(call(f, str(p)))
					if err != nil {
						return d, err
					}
					if f == "gensym" {
						gens = append(gens, made{ev, p, d})
					} else {
						gens = append(gens, made{ev, p, golisp.SymbolWithName(strings.TrimSuffix(golisp.StringValue(d), ":"))})
						add(golisp.StringValue(d), d)
					}
				}
				return nil, nil
			case "genbad":
				_, err := ev1(call("gensym", num(5)))
				if err == nil {
					return nil, nil
				}
				return sym("failed"), nil
			}
			return nil, nil
		})
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	users := map[string]map[int]bool{}
	c.Trivial = true
	use := func(k string, cl int) {
		if users[k] == nil {
			users[k] = map[int]bool{}
		}
		users[k][cl] = true
		if len(users[k]) > 1 {
			c.Trivial = false
		}
	}
	for _, h := range e.Hist {
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		if h.Ret == 0 {
			return bad("blocked", "%v never returns", h)
		}
		if h.Err != "" {
			return bad("error", "%v fails: %s", h, h.Err)
		}
		if h.Op.K == "genbad" && h.Out != "failed" {
			return bad("error", "%v: gensym accepts a number", h)
		}
	}
	byName := map[string]made{}
	for _, m := range syms {
		use("s"+m.name, m.ev.Client)
		if !golisp.SymbolP(m.d) || golisp.StringValue(m.d) != m.name {
			return bad("wrong-name", "%v made %s for the name %s", m.ev, enc(m.d), m.name)
		}
		if o, ok := byName[m.name]; ok && o.d != m.d {
			return bad("two-symbols", "%v and %v got different symbols for the name %s", o.ev, m.ev, m.name)
		}
		byName[m.name] = m
	}
	// read again at the end, and compare
	nums := map[string]map[int]*Ev{}
	for _, m := range gens {
		use("g"+m.name, m.ev.Client)
		s := golisp.StringValue(m.d)
		if strings.HasPrefix(m.ev.Op.K, "naked") {
			if !strings.HasSuffix(s, ":") {
				return bad("wrong-name", "%v made %s", m.ev, s)
			}
			s = s[:len(s)-1]
		}
		n, err := strconv.Atoi(strings.TrimPrefix(s, m.name+"-"))
		if !golisp.SymbolP(m.d) || err != nil || !strings.HasPrefix(s, m.name+"-") {
			return bad("wrong-name", "%v made %s for the prefix %s", m.ev, s, m.name)
		}
		if nums[m.name] == nil {
			nums[m.name] = map[int]*Ev{}
		}
		if o := nums[m.name][n]; o != nil {
			return bad("repeated", "%v and %v both generated %s", o, m.ev, s)
		}
		nums[m.name][n] = m.ev
	}
	var prefixes []string
	for p := range nums {
		prefixes = append(prefixes, p)
	}
	sort.Strings(prefixes)
	for _, p := range prefixes {
		l := nums[p]
		for i := 0; i < len(l); i++ {
			if l[i] == nil {
				return bad("skipped", "%d symbols with the prefix %s were generated, but %s-%d was not", len(l), p, p, i)
			}
		}
	}
	c.stat("ops", int64(len(e.Hist)))
	return nil
}
