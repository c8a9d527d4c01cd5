package main

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C22: starting commands.

func init() {
	register(&Prop{ID: "C22", Gen: genExecs, Run: runExecs, Quick: 90000, Thorough: 8000000,
		Rule: "a run is 1-4 processes executing 1-6 commands each with up to 6 arguments of every type (strings a shell would take apart, empty strings, symbols, numbers, lists), unsuitable commands, failing arguments, from literals, variables, apply and map, with start failures at chosen calls and stalls; non-trivial when a command was started"})
}

var execWords = []string{"a", "two words", "", "$HOME", "; rm x", "\"q\"", "it's", "tab\there", "line\nbreak", "back\\slash", "*.go", "-x=1", "ü", "%d%s", "&&", "arg", " lead", "trail ", "a=b", "~", "'single'", "{a: 1}", "(1 2)", "#t", "nil", "-", "--", "\x01", "long " + strings.Repeat("word ", 60)}

func genExecs(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nc := 1 + r.Intn(4)
	w.set("lisp", int64(r.Intn(2)))
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 1 + r.Intn(6); n > 0; n-- {
			k := []string{"exec", "exec", "exec", "exec", "apply", "let", "map", "bad", "badarg", "pause", "method", "process", "handler", "macro", "mutate"}[r.Intn(15)]
			op := Op{K: k, A: []int64{int64(r.Intn(40))}}
			if k == "pause" {
				op.A[0] *= 1000000
			} else {
				m := r.Intn(7)
				if r.Intn(20) == 0 {
					m = 20 + r.Intn(30)
				}
				for ; m > 0; m-- {
					s := execWords[r.Intn(len(execWords))]
					op.S = append(op.S, []string{"s" + s, "s" + s, "ysym", "yslot:", "n" + fmt.Sprint(r.Intn(2000)-1000), "f", "l", "b", "z", "L", "F", "B", "e", "N9223372036854775807", "ynil", "y<=>", "q"}[r.Intn(17)])
				}
			}
			ops = append(ops, op)
		}
		w.Clients = append(w.Clients, ops)
	}
	if r.Intn(2) == 0 {
		for n := 1 + r.Intn(3); n > 0; n-- {
			w.Faults = append(w.Faults, simrt.IOFault{Op: "exec", N: r.Intn(8), Kind: "err"})
		}
	}
	if r.Intn(3) == 0 {
		addStalls(w, r, nc)
	}
	return w
}

// execArg is an argument as data and as the command gets it.
func execArg(s string) (*D, string) {
	switch s[0] {
	case 's':
		return str(s[1:]), s[1:]
	case 'y':
		return call("quote", sym(s[1:])), s[1:]
	case 'z':
		return parse("'()"), "()"
	case 'e':
		return parse("(list)"), "()"
	case 'L':
		return parse("(list \"a b\" 'c \"d\")"), "(\"a b\" c \"d\")"
	case 'F':
		return parse("{a: 1 b: \"x\"}"), "{a: 1 b: \"x\"}"
	case 'B':
		return parse("[1 2 255]"), "[1 2 255]"
	case 'q':
		return parse("''x"), "'x"
	case 'N':
		return parse(s[1:]), s[1:]
	case 'n':
		var n int64
		fmt.Sscan(s[1:], &n)
		return num(n), s[1:]
	case 'f':
		return parse("2.5"), "2.5"
	case 'l':
		return parse("'(1 (b 2))"), "(1 (b 2))"
	}
	return parse("#t"), "#t"
}

func quoteAll(l []*D) (q []*D) {
	for _, d := range l {
		q = append(q, call("quote", d))
	}
	return
}

func runExecs(w *Workload, c *Ctx) *Violation {
	name := func(cl, i int, op Op) string {
		return fmt.Sprintf([]string{"cmd-%d-%d", "cmd-%d-%d", "/bin/my cmd-%d-%d", "cmd-%d-%d -v", " ./c md;%d-%d\"'", "cmd-%d-%d"}[op.A[0]%6], cl, i)
	}
	want := func(cl, i int, op Op) []string {
		l := []string{name(cl, i, op)}
		for _, s := range op.S {
			_, t := execArg(s)
			l = append(l, t)
		}
		return l
	}
	e := c.Sim(Opt{W: w, Root: func(e *Exec) {
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			cmd := str(name(cl, i, op))
			var args []*D
			for _, s := range op.S {
				d, _ := execArg(s)
				args = append(args, d)
			}
			x := call("exec", append([]*D{cmd}, args...)...)
			switch op.K {
			case "bad": // not a string
				x = call("exec", append([]*D{parse([]string{"'cmd", "5", "nil", "'(\"cmd\" \"a\")", "#t", "(lambda () 1)", "{a: 1}"}[op.A[0]%7])}, args...)...)
			case "badarg":
				x = call("exec", append([]*D{cmd}, append(args, parse([]string{"(error \"arg\")", "(no-such-function)", "(+ 1 'a)"}[op.A[0]%3]))...)...)
			case "apply":
				x = call("apply", sym("exec"), call("list", append([]*D{cmd}, args...)...))
			case "let":
				x = golisp.Cons(sym("let"), list(list(list(sym("c"), cmd)), call("exec", append([]*D{sym("c")}, args...)...)))
			case "method":
				x = call("send", golisp.Cons(sym("make-frame"), list(sym("m:"), call("lambda", list(sym("c")), call("exec", append([]*D{sym("c")}, args...)...)))), sym("m:"), cmd)
			case "process":
				// its error is reported on the console and lost to the caller
				x = call("join", call("fork", call("lambda", list(sym("p")), call("on-error", x, call("lambda", list(sym("m")), call("quote", sym("failed")))))))
			case "handler":
				x = call("on-error", call("error", str("x")), call("lambda", list(sym("m")), x))
			case "macro":
				x = call("eval", call("list", append([]*D{call("quote", sym("exec")), cmd}, quoteAll(args)...)...))
			case "mutate":
				x = golisp.Cons(sym("let"), list(list(list(sym("c"), call("copy", cmd)), list(sym("a"), call("copy", str("arg")))), call("exec", append([]*D{sym("c")}, args...)...)))
			case "map":
				x = call("map", call("lambda", list(sym("c")), call("exec", append([]*D{sym("c")}, args...)...)), call("list", cmd))
			}
			v, err := golisp.Eval(x, e.Env)
			if op.K == "process" && err == nil && enc(v) == "failed" {
				return nil, fmt.Errorf("failed in its process")
			}
			return v, err
		})
		for _, t := range e.S.Alive() {
			e.Fail("stuck", "a process is left waiting for %s", t.WaitOn())
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	by := map[string][]*simrt.ExecRec{}
	for _, r := range e.S.FS.Execs {
		by[r.Args[0]] = append(by[r.Args[0]], r)
	}
	c.Trivial = true
	for _, h := range e.Hist {
		if h.Ret == 0 {
			return bad("blocked", "%v never returns", h)
		}
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		nm := name(h.Client, h.Idx, h.Op)
		recs := by[nm]
		delete(by, nm)
		if h.Op.K == "bad" || h.Op.K == "badarg" {
			if h.Err == "" {
				return bad("error", "%v reports no error", h)
			}
			if len(recs) > 0 {
				return bad("started", "%v starts %q", h, recs[0].Args)
			}
			continue
		}
		c.Trivial = false
		if len(recs) != 1 {
			return bad("count", "%v starts its command %d times", h, len(recs))
		}
		r := recs[0]
		if got, exp := fmt.Sprintf("%q", r.Args), fmt.Sprintf("%q", want(h.Client, h.Idx, h.Op)); got != exp {
			return bad("arguments", "%v starts %s", h, got)
		}
		if r.Seq < h.Inv || r.Seq > h.Ret {
			return bad("when", "%v starts its command at %d", h, r.Seq)
		}
		if (r.Err != "") != (h.Err != "") {
			return bad("error", "%v: %q; starting it: %q", h, h.Err, r.Err)
		}
		if r.Err == "" {
			if len(w.Stalls) == 0 && h.RetT != h.InvT {
				return bad("waited", "%v takes %d ns", h, h.RetT-h.InvT)
			}
			if !r.Done || !r.Waited {
				return bad("remains", "%v: the finished command is never waited for", h)
			}
		}
	}
	var rest []string
	for k := range by {
		rest = append(rest, k)
	}
	if len(rest) > 0 {
		sort.Strings(rest)
		return bad("started", "commands nobody asked for were started: %s", strings.Join(rest, " "))
	}
	return nil
}
