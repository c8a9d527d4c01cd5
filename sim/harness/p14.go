package main

import (
	"fmt"
	"strings"

	"strconv"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C14: reading from ports.

func init() {
	register(&Prop{ID: "C14", Gen: genPorts, Run: runPorts, Quick: 40000, Thorough: 2000000,
		Rule: "a run is 1-3 files of 0-12 generated expressions read by 1-4 processes through several own and shared ports, opened, read, drained and closed in any order, with reads split at seeded points, slowed down and failing, and generated values written and read back; non-trivial when reads of two ports, or of two processes, interleave or a fault fires"})
}

// formGen generates the text of values together with what reading gives.
type formGen struct {
	r       *Rand
	self    bool // only what evaluates to itself
	noFloat bool // no numbers that are written differently
}

var formFloats = []struct{ text, enc string }{{"1.5", "1.5"}, {"0.0", "0"}, {"-2.25", "-2.25"}, {"3.", "3"}, {"1234567.875", "1.2345679e+06"}, {"-0.5", "-0.5"}, {"100.0", "100"}, {"00.125", "0.125"}}

var formSymbols = []string{"a", "foo", "bar-baz", "+", "-", "->x", "x:", "slot:", "set!", "a.b", "...", "nil", "λx", "<=", "q?", "*", "list", "quote", "lambda", "e1", "_", "naïve", "<-ch", "x->y", "t", "f", "x2"}

var formStrings = []string{"", "a", "hello world", "(", ")", ";no", "a\nb", "tab\there", "\"", "\\", "\\n", "a\\\"b", "é世界", "'", "x  y", "#t", "0x1", "[1 2]", "\\\\", "{a: 1}", "\r", "ends\\"}

func (g *formGen) str() (string, string) {
	s := formStrings[g.r.Intn(len(formStrings))]
	if g.r.Intn(6) == 0 {
		s = strings.Repeat("long "+s, 1+g.r.Intn(40))
	} else if g.r.Intn(60) == 0 {
		// characters of several bytes across the ends of buffers
		s = strings.Repeat("x", g.r.Intn(4)) + strings.Repeat([]string{"é", "世", "é世界\n", "\U0001F600"}[g.r.Intn(4)], 700+g.r.Intn(1500))
	}
	t := strings.Replace(s, "\\", "\\\\", -1)
	t = strings.Replace(t, "\"", "\\\"", -1)
	if g.r.Intn(2) == 0 {
		t = strings.Replace(t, "\n", "\\n", -1)
	}
	return "\"" + t + "\"", strconv.Quote(s)
}

func (g *formGen) gap() string {
	switch g.r.Intn(12) {
	case 0:
		return "\n"
	case 1:
		return "  "
	case 2:
		return "\t\n "
	case 3:
		return " ; a comment (with \"\n"
	case 4:
		return "\r\n"
	}
	return " "
}

func (g *formGen) val(d int) (text, encoded string) {
	r := g.r
	k := r.Intn(14)
	if d <= 0 {
		k = r.Intn(8)
	}
	if g.self && (k == 5 || k == 6 || k == 8 || k == 9 || k == 10 || k == 11 || k == 13) {
		k = 0
		if d > 0 && r.Intn(4) == 0 {
			k = 13
		}
	}
	switch k {
	case 0, 1, 2:
		n := int64(r.Intn(200)) - 60
		if !g.noFloat && r.Intn(8) == 0 {
			f := formFloats[r.Intn(len(formFloats))]
			return f.text, f.enc + "f"
		}
		switch r.Intn(8) {
		case 0:
			n = []int64{0, 9223372036854775807, -9223372036854775808, 1 << 40, -1}[r.Intn(5)]
		case 1:
			if n >= 0 {
				return []string{fmt.Sprintf("0x%x", n), fmt.Sprintf("#x%X", n), fmt.Sprintf("#b%b", n)}[r.Intn(3)], fmt.Sprint(n)
			}
		}
		return fmt.Sprint(n), fmt.Sprint(n)
	case 3:
		return g.str()
	case 4:
		b := []string{"#t", "#f"}[r.Intn(2)]
		return b, b
	case 5, 6:
		s := formSymbols[r.Intn(len(formSymbols))]
		if r.Intn(12) == 0 && s != "nil" && s != "+" && s != "-" {
			s = strings.TrimSuffix(s, ":") + strings.Repeat("-sym", 1+r.Intn(30)) + fmt.Sprint(r.Intn(9))
		}
		return s, s
	case 7:
		var t, e []string
		b := []byte{'b'}
		for n := r.Intn(4); n > 0; n-- {
			v := r.Intn(256)
			t = append(t, fmt.Sprint(v))
			b = append(b, byte(v))
		}
		e = append(e, fmt.Sprintf("%v", b))
		return "[" + strings.Join(t, g.gap()) + "]", e[0]
	case 8, 9, 10:
		t, e := "(", "("
		n := r.Intn(5)
		for i := 0; i < n; i++ {
			if i > 0 {
				t += g.gap()
				e += " "
			}
			x, y := g.val(d - 1)
			if i == 0 && y == "quote" {
				x, y = "b", "b"
			}
			t += x
			e += y
		}
		return t + ")", e + ")"
	case 11: // dotted
		x, y := g.val(d - 1)
		if y == "quote" {
			x, y = "b", "b"
		}
		x2, y2 := g.val(0)
		return "(" + x + " . " + x2 + ")", "(" + y + " . " + y2 + ")"
	case 12:
		t, e := "{", "(make-frame"
		for i, n := 0, r.Intn(4); i < n; i++ {
			x, y := g.val(d - 1)
			if i > 0 {
				t += g.gap()
			}
			t += fmt.Sprintf("s%d:%s%s", i, g.gap(), x)
			e += fmt.Sprintf(" s%d: %s", i, y)
		}
		return t + "}", e + ")"
	}
	if g.self {
		return g.val(d - 1)
	}
	q := r.Intn(4)
	x, y := g.val(d - 1)
	return []string{"'", "`", ",", ",@"}[q] + x, "(" + []string{"quote", "quasiquote", "unquote", "unquote-splicing"}[q] + " " + y + ")"
}

func genPorts(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nf := 1 + r.Intn(3)
	nc := 1 + r.Intn(4)
	w.set("nf", int64(nf))
	w.set("lisp", int64(r.Intn(2)))
	if r.Intn(2) == 0 {
		w.set("maxread", int64(1+r.Intn(9)))
	}
	if r.Intn(3) == 0 {
		w.set("maxwrite", int64(1+r.Intn(6)))
	}
	if r.Intn(3) == 0 {
		w.set("cut", int64(1+r.Intn(6)))
	}
	shared := r.Intn(3) == 0
	w.set("shared", b2i(shared))
	g := &formGen{r: r}
	for f := 0; f < nf; f++ {
		var ops []Op
		for n := r.Intn(13); n > 0; n-- {
			t, e := g.val(2)
			if r.Intn(9) == 0 {
				t, e = g.val(3)
			}
			gap := g.gap()
			if r.Intn(10) == 0 && (strings.HasSuffix(t, ")") || strings.HasSuffix(t, "]") || strings.HasSuffix(t, "}")) {
				gap = ""
			}
			if n == 1 && r.Intn(3) == 0 {
				gap = ""
			}
			if r.Intn(60) == 0 {
				// across the end of the read buffer
				gap = " ;" + strings.Repeat("x", 4060+r.Intn(40)) + "\n"
			}
			ops = append(ops, Op{K: "form", S: []string{t, e, gap}})
		}
		w.Clients = append(w.Clients, ops)
		if r.Intn(2) == 0 {
			path := fmt.Sprintf("f%d.lsp", f)
			ft := simrt.IOFault{Op: "read", Path: path, N: r.Intn(4), Kind: []string{"err", "err", "short", "delay"}[r.Intn(4)], Arg: int64(1 + r.Intn(20))}
			if w.n("maxread") > 0 {
				ft.N = r.Intn(40)
			}
			if ft.Kind == "delay" {
				ft.Arg *= 100000
			}
			ft.Rest = r.Intn(3) == 0
			if r.Intn(8) == 0 {
				ft.Op, ft.Kind = "open", "err"
			}
			w.Faults = append(w.Faults, ft)
		}
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		np := 1 + r.Intn(3)
		for n := 1 + r.Intn(9); n > 0; n-- {
			p := int64(r.Intn(np))
			switch k := r.Intn(12); {
			case k < 2:
				ops = append(ops, Op{K: "open", A: []int64{p, int64(r.Intn(nf))}})
			case k < 7:
				ops = append(ops, Op{K: "read", A: []int64{p}})
			case k < 8:
				ops = append(ops, Op{K: []string{"drain", "drain", "drain", "missing"}[r.Intn(4)], A: []int64{p}})
			case k < 9:
				ops = append(ops, Op{K: "close", A: []int64{p}})
			case k < 10:
				op := Op{K: "rt"}
				for m := 1 + r.Intn(4); m > 0; m-- {
					g.self = r.Intn(2) == 0
					g.noFloat = true
					t, e := g.val(2)
					if r.Intn(40) == 0 && len(t) < 60 {
						// longer than any buffer
						t, e = "("+strings.Repeat(t+" ", 300)+")", "("+strings.TrimSuffix(strings.Repeat(e+" ", 300), " ")+")"
						if strings.HasPrefix(e, "(quote ") {
							t, e = "(1)", "(1)"
						}
					}
					if !g.self && strings.Contains(e, "make-frame") {
						t, e = "(a . b)", "(a . b)"
					}
					op.S = append(op.S, t, e)
				}
				g.self, g.noFloat = false, false
				ops = append(ops, op)
			default:
				if shared {
					ops = append(ops, Op{K: "sread"})
				} else {
					ops = append(ops, Op{K: "read", A: []int64{p}})
				}
			}
		}
		for p := 0; p < np; p++ {
			ops = append(ops, Op{K: "drain", A: []int64{int64(p)}})
		}
		if r.Intn(2) == 0 {
			ops = append([]Op{{K: "open", A: []int64{0, int64(r.Intn(nf))}}}, ops...)
		}
		w.Clients = append(w.Clients, ops)
	}
	addStalls(w, r, nc)
	return w
}

type readPort struct {
	d       *D
	file    int
	got     []string
	errAt   int // number of values before the first error, -1: none
	errText string
	closed  bool
	reads   int
}

func runPorts(w *Workload, c *Ctx) *Violation {
	nf := int(w.n("nf"))
	nc := len(w.Clients) - nf
	forms := make([][]string, nf)
	texts := make([]string, nf)
	cut := make([]bool, nf)
	for f := 0; f < nf; f++ {
		for _, op := range w.Clients[f] {
			texts[f] += op.S[0] + op.S[2]
			forms[f] = append(forms[f], op.S[1])
		}
		if k := int(w.n("cut")); f == 0 && k > 0 && len(forms[f]) > 0 {
			last := w.Clients[f][len(forms[f])-1]
			if s := last.S[0]; (s[0] == '(' || s[0] == '[' || s[0] == '{' || s[0] == '"') && k < len(s) {
				texts[f] = texts[f][:len(texts[f])-len(last.S[2])-k]
				forms[f] = forms[f][:len(forms[f])-1]
				cut[f] = true
			}
		}
	}
	var ports []*readPort
	mine := make([]map[int64]*readPort, nc)
	var shared *readPort
	type sread struct {
		inv, ret int64
		out      string
	}
	var sreads []*sread
	var wrong *Violation
	note := func(class, f string, a ...interface{}) {
		if wrong == nil {
			wrong = bad(class, f, a...)
		}
	}
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		for f := range texts {
			e.S.FS.Put(fmt.Sprintf("f%d.lsp", f), []byte(texts[f]))
		}
		e.S.FS.MaxRead = int(w.n("maxread"))
		e.S.FS.MaxWrite = int(w.n("maxwrite"))
	}, Root: func(e *Exec) {
		open := func(f int) (*readPort, error) {
			d, err := golisp.Eval(call("open-input-file", str(fmt.Sprintf("f%d.lsp", f))), e.Env)
			if err != nil {
				return nil, err
			}
			p := &readPort{d: d, file: f, errAt: -1}
			ports = append(ports, p)
			return p, nil
		}
		read := func(p *readPort) (*D, error) {
			p.reads++
			v, err := golisp.Eval(call("read", p.d), e.Env)
			out := enc(v)
			if err == nil && (!golisp.SymbolP(v) || out != "__EOF__") {
				t, err := golisp.Eval(call("eof-object?", call("quote", v)), e.Env)
				if err != nil || enc(t) != "#f" {
					note("eof", "eof-object? of %s, read from a file, gives %s, %v", out, enc(t), err)
				}
			}
			if err == nil && golisp.SymbolP(v) && out == "__EOF__" {
				t, err := golisp.Eval(call("eof-object?", call("quote", v)), e.Env)
				if err != nil || enc(t) != "#t" {
					note("eof", "eof-object? of the end of a file gives %s, %v", enc(t), err)
				}
			}
			if err != nil {
				if p.errAt < 0 {
					p.errAt = len(p.got)
					p.errText = err.Error()
				}
				if p.closed || p.errAt >= 0 {
					return nil, nil
				}
				return nil, err
			}
			if p.errAt < 0 {
				p.got = append(p.got, out)
			}
			return v, nil
		}
		if w.n("shared") == 1 {
			shared, _ = open(0)
			if shared != nil {
				ports = ports[1:]
			}
		}
		run := *w
		run.Clients = w.Clients[nf:]
		e.W = &run
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			if mine[cl] == nil {
				mine[cl] = map[int64]*readPort{}
			}
			switch op.K {
			case "open":
				p, err := open(int(op.A[1]))
				if err != nil {
					c.stat("open-errors", 1)
					return nil, nil
				}
				mine[cl][op.A[0]] = p
				return p.d, nil
			case "missing":
				for _, name := range []string{"no-such-file.lsp", "f0.lsp/x", ""} {
					if v, err := golisp.Eval(call("open-input-file", str(name)), e.Env); err == nil {
						note("missing", "opening the file %q, which is not there, gives %s", name, enc(v))
					}
				}
			case "read":
				if p := mine[cl][op.A[0]]; p != nil {
					if p.closed {
						v, err := golisp.Eval(call("read", p.d), e.Env)
						if err == nil {
							note("closed", "reading a closed port gives %s", enc(v))
						}
						return nil, nil
					}
					return read(p)
				}
			case "drain":
				if p := mine[cl][op.A[0]]; p != nil && !p.closed {
					for n := 0; n < len(forms[p.file])+3 && p.errAt < 0; n++ {
						read(p)
					}
				}
			case "close":
				if p := mine[cl][op.A[0]]; p != nil {
					was := p.closed
					p.closed = true
					_, err := golisp.Eval(call("close-port", p.d), e.Env)
					if err != nil && !was {
						return nil, err
					}
					return nil, nil
				}
			case "sread":
				if shared == nil {
					return nil, nil
				}
				s := &sread{inv: simrt.Seq()}
				sreads = append(sreads, s)
				v, err := golisp.Eval(call("read", shared.d), e.Env)
				s.ret = simrt.Seq()
				s.out = enc(v)
				if err != nil {
					s.out = "error " + err.Error()
				}
				return v, nil
			case "rt":
				name := str(fmt.Sprintf("rt%d-%d.lsp", cl, i))
				o, err := golisp.Eval(call("open-output-file", name), e.Env)
				if err != nil {
					return nil, err
				}
				var vals []*D
				for k := 0; k+1 < len(op.S); k += 2 {
					v, err := golisp.Parse(op.S[k])
					if err != nil {
						return nil, err
					}
					if x := enc(v); x != op.S[k+1] {
						note("parse", "%q parses as %s instead of %s", op.S[k], x, op.S[k+1])
					}
					if strings.HasPrefix(op.S[k+1], "(make-frame") {
						if v, err = golisp.Eval(v, e.Env); err != nil {
							return nil, err
						}
					}
					vals = append(vals, v)
					for _, x := range []*D{call("write", call("quote", v), o), call("newline", o)} {
						if _, err = golisp.Eval(x, e.Env); err != nil {
							return nil, err
						}
					}
				}
				if _, err = golisp.Eval(call("close-port", o), e.Env); err != nil {
					return nil, err
				}
				in, err := golisp.Eval(call("open-input-file", name), e.Env)
				if err != nil {
					return nil, err
				}
				for _, v := range vals {
					x, err := golisp.Eval(call("read", in), e.Env)
					if err != nil {
						return nil, err
					}
					if golisp.FrameP(v) {
						if x, err = golisp.Eval(x, e.Env); err != nil {
							return nil, err
						}
					}
					if encDeep(x) != encDeep(v) {
						data, _ := e.S.FS.Get(golisp.StringValue(name))
						note("round-trip", "%s was written and %s read back from %q", encDeep(v), encDeep(x), data)
					}
					eq, err := golisp.Eval(call("equal?", call("quote", x), call("quote", v)), e.Env)
					if err != nil || enc(eq) != "#t" {
						note("round-trip", "%s was written and what is read back is not equal to it", encDeep(v))
					}
				}
				x, err := golisp.Eval(call("read", in), e.Env)
				if err != nil || enc(x) != "__EOF__" {
					note("round-trip", "after the last value read gives %s, %v instead of the end of the file", enc(x), err)
				}
				golisp.Eval(call("close-port", in), e.Env)
			}
			return nil, nil
		})
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	for _, h := range e.Hist {
		if h.Ret == 0 {
			return bad("blocked", "%v never returns", h)
		}
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		if h.Err != "" {
			return bad("error", "%v fails: %s", h, h.Err)
		}
	}
	if wrong != nil {
		return wrong
	}
	readErr := make([]int, nf)
	faulty := make([]bool, nf)
	fired := 0
	for _, f := range e.S.FS.Faults {
		fired += f.Fired
		if f.Op == "read" && f.Kind == "err" {
			for i := range readErr {
				if f.Path == fmt.Sprintf("f%d.lsp", i) {
					readErr[i] = f.Fired
					faulty[i] = true
				}
			}
		}
	}
	c.Trivial = len(ports) < 2 && len(sreads) < 2 && fired == 0
	errs := make([]int, nf)
	open := make([]bool, nf) // some port of the file was not read to its end
	for _, p := range ports {
		want := forms[p.file]
		end := false
		for i, g := range p.got {
			x := "__EOF__"
			if i < len(want) {
				x = want[i]
			} else {
				end = true
			}
			if g == "__EOF__" && x == g && cut[p.file] {
				end = true
			}
			if g != x {
				return bad("wrong-read", "read %d of a port on file %d gives %s instead of %s; the file is %q", i, p.file, g, x, texts[p.file])
			}
		}
		if p.errAt >= 0 {
			if !faulty[p.file] && !(cut[p.file] && p.errAt == len(want)) {
				return bad("spurious-error", "reading file %d after %d values fails: %s; the file is %q", p.file, p.errAt, p.errText, texts[p.file])
			}
			errs[p.file]++
		} else if !end {
			open[p.file] = true
		}
	}
	if len(sreads) > 0 {
		want := forms[0]
		next := map[string]int{}
		bad1 := false
		for _, s := range sreads {
			if strings.HasPrefix(s.out, "error") {
				if !faulty[0] && !cut[0] {
					return bad("spurious-error", "reading the shared port fails: %s", s.out)
				}
				errs[0]++
				bad1 = true
			}
			next[s.out]++
		}
		open[0] = open[0] || len(next) <= len(want)
		if !bad1 {
			// the values are those at the front of the file, each once
			exp := map[string]int{}
			for i := range sreads {
				if i < len(want) {
					exp[want[i]]++
				} else {
					exp["__EOF__"]++
				}
			}
			for k, n := range next {
				if exp[k] != n {
					return bad("shared", "%d reads of a shared port gave %s %d times instead of %d; the file is %q", len(sreads), k, n, exp[k], texts[0])
				}
			}
			m := &Model{Init: "0", Step: func(st string, ev *Ev) (bool, string) {
				i, _ := strconv.Atoi(st)
				x := "__EOF__"
				if i < len(want) {
					x = want[i]
				}
				return ev.Out == x, strconv.Itoa(i + 1)
			}}
			var evs []*Ev
			for _, s := range sreads {
				evs = append(evs, &Ev{Inv: s.inv, Ret: s.ret, Out: s.out})
			}
			why, gave := Linearizable(m, evs, 100000)
			if gave {
				c.stat("lin-gave-up", 1)
			}
			if why != "" {
				return bad("shared-order", "reads of a shared port: %s", why)
			}
		}
	}
	for f := range errs {
		if readErr[f] > 0 && errs[f] == 0 && !open[f] {
			return bad("lost-error", "%d reads of file %d failed and nobody was told", readErr[f], f)
		}
	}
	return nil
}
