package main

import (
	"fmt"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C01: channels.

func init() {
	register(&Prop{ID: "C01", Gen: genChan, Run: runChan, Quick: 150000, Thorough: 6000000,
		Rule: "a run is 1-5 clients (goroutines or forked processes) doing 2-14 random channel operations each on 1-2 channels of capacity 0-6 with pauses, quiescence points and stalls (or one client filling and draining a larger channel); non-trivial when at least two clients completed or blocked in an operation on the same channel"})
}

var chanVals = []string{"n", "nil", "str", "list", "#t", "#f", "sym", "float", "ch", "empty", "none", "bytes", "alist", "dot", "obj", "obj"}

func genChan(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	if r.Intn(40) == 0 {
		w.Variant = "fill"
		w.set("cap0", int64([]int{1, 2, 7, 16, 33, 64, 100, 128, 257}[r.Intn(9)]))
		w.Clients = [][]Op{{}}
		return w
	}
	nch := 1 + r.Intn(2)
	w.set("nch", int64(nch))
	for i := 0; i < nch; i++ {
		c := []int64{0, 0, 0, 1, 1, 2, 3, 4, 6}[r.Intn(9)]
		w.set(fmt.Sprint("cap", i), c)
	}
	w.set("lisp", int64(r.Intn(2)))
	nc := 2 + r.Intn(4)
	if r.Intn(12) == 0 {
		nc = 1
	}
	total := 6 + r.Intn(18)
	if thorough {
		total += r.Intn(14)
	}
	pickVal := swarm(r, len(chanVals))
	closeP := []int{0, 3, 6, 12}[r.Intn(4)]
	tryP := []int{0, 30, 70}[r.Intn(3)]
	v := int64(1)
	w.Clients = make([][]Op, nc)
	role := r.Intn(3) // 0 mixed, 1 producers/consumers, 2 mixed
	for k := 0; k < total; k++ {
		c := r.Intn(nc)
		ch := int64(r.Intn(nch))
		sh := int64(r.Intn(3) / 2)
		var op Op
		x := r.Intn(100)
		read := r.Bool(1, 2)
		if role == 1 {
			read = c%2 == 1
		}
		try := r.Intn(100) < tryP
		switch {
		case x < closeP:
			op = Op{K: "close", A: []int64{ch}}
		case x > 95:
			op = Op{K: "pause", A: []int64{int64(r.Intn(5)) * 1000000}}
		case x == 95 && r.Bool(1, 2):
			op = Op{K: "misuse", A: []int64{0}, S: []string{misuse("channel", r)}}
		case x > 90 && c == 0:
			op = Op{K: "quiesce", A: []int64{0}}
		case read && try:
			op = Op{K: "tryread", A: []int64{ch}}
		case read:
			op = Op{K: "read", A: []int64{ch, 0, sh}}
		default:
			op = Op{K: "write", A: []int64{ch, v, sh}, S: []string{"n"}}
			if try {
				op.K = "trywrite"
			}
			if r.Intn(4) == 0 {
				op.S[0] = chanVals[pickVal(r)]
			}
			v++
		}
		w.Clients[c] = append(w.Clients[c], op)
	}
	addStalls(w, r, nc)
	return w
}

// things are values of every kind; those of one kind are no good where
// another is needed.
var things = [][2]string{
	{"channel", "(make-channel)"}, {"channel", "(make-channel 3)"}, {"atomic", "(atomic 5)"}, {"atomic", "(atomic)"},
	{"process", "(fork (lambda (p) 1))"}, {"process", "(fork (lambda (p) (sleep 5)))"}, {"", "5"}, {"", "\"text\""}, {"", "nil"}, {"", "'sym"}, {"", "'slot:"},
	{"", "'(1 2)"}, {"", "'(1 . 2)"}, {"", "car"}, {"", "if"}, {"", "(lambda (x) x)"}, {"", "{a: 1}"}, {"", "(list-to-bytearray '(1 2 3))"}, {"", "2.5"}, {"", "#t"}, {"", "(the-environment)"}, {"", "(list (atomic 1))"},
}

var misuses = map[string][]string{
	"channel": {"(channel-read %s)", "(channel-write %s 1)", "(channel-try-read %s)", "(channel-try-write %s 1)", "(close-channel %s)"},
	"atomic":  {"(atomic-load %s)", "(atomic-store! %s 1)", "(atomic-add! %s 1)", "(atomic-swap! %s 1)", "(atomic-compare-and-swap! %s 5 1)"},
	"process": {"(wake %s)", "(proc-sleep %s 1)", "(join %s)", "(abandon %s)", "(reset-timeout %s)"},
}

// badArgs are operations on the right object given the wrong other arguments.
var badArgs = map[string][]string{
	"channel": {"(make-channel -1)", "(make-channel -77777777777)", "(make-channel 2.5)", "(make-channel \"3\")", "(make-channel nil)", "(make-channel 1 2)", "(make-channel #t)", "(channel-read)", "(channel-write (make-channel 1))", "(channel-try-write (make-channel 1))", "(channel-read (make-channel 1) 1)", "(close-channel)"},
	"atomic":  {"(atomic \"5\")", "(atomic 2.5)", "(atomic 1 2)", "(atomic '(1))", "(atomic-store! (atomic) \"x\")", "(atomic-store! (atomic) 2.5)", "(atomic-add! (atomic) 1.5)", "(atomic-add! (atomic) '(1))", "(atomic-swap! (atomic) 'x)", "(atomic-swap! (atomic) 0.5)", "(atomic-compare-and-swap! (atomic) 0 \"x\")", "(atomic-compare-and-swap! (atomic) 0.5 1)", "(atomic-compare-and-swap! (atomic) 0)", "(atomic-load)"},
	"process": {"(fork)", "(fork 5)", "(fork 'car)", "(fork \"f\")", "(fork nil)", "(schedule 5)", "(schedule \"5\" (lambda (p) 1))", "(schedule 2.5 (lambda (p) 1))", "(schedule (lambda (p) 1) 5)", "(schedule 5 5)", "(schedule nil (lambda (p) 1))", "(proc-sleep (fork (lambda (p) 1)) \"5\")", "(proc-sleep (fork (lambda (p) 1)) 0.5)", "(wake)", "(join)"},
}

// misuse applies an operation on objects of one kind to something else.
func misuse(kind string, r *Rand) string {
	if r.Intn(3) == 0 {
		return badArgs[kind][r.Intn(len(badArgs[kind]))]
	}
	f := misuses[kind][r.Intn(len(misuses[kind]))]
	for {
		if t := things[r.Intn(len(things))]; t[0] != kind {
			return fmt.Sprintf(f, t[1])
		}
	}
}

// misused judges a misuse: it is an error, at once.
func misused(h *Ev) *Violation {
	switch {
	case h.Panic != "":
		return bad("misuse-panic", "%v panics", h)
	case h.Ret == 0:
		return bad("misuse-blocked", "%v never returns", h)
	case h.Err == "":
		return bad("misuse", "%v is accepted", h)
	}
	return nil
}

func addStalls(w *Workload, r *Rand, nc int) {
	if r.Intn(4) == 0 {
		for i := 0; i <= r.Intn(3); i++ {
			w.Stalls = append(w.Stalls, simrt.StallSpec{Task: 1 + r.Intn(nc*2), At: int64(r.Intn(900)), Dur: int64(1+r.Intn(40)) * 500000})
		}
	}
}

func chanVal(op Op) (*D, *D) { // expression, value
	q := func(d *D) (*D, *D) { return golisp.QuoteIt(d), d }
	n := op.A[1]
	switch op.S[0] {
	case "nil":
		return golisp.EmptyCons(), golisp.EmptyCons()
	case "empty":
		return str(""), str("")
	case "str":
		return str(fmt.Sprint("v", n)), str(fmt.Sprint("v", n))
	case "list":
		return q(list(num(n), str("x"), sym("y")))
	case "#t":
		return golisp.BooleanWithValue(true), golisp.BooleanWithValue(true)
	case "#f":
		return golisp.BooleanWithValue(false), golisp.BooleanWithValue(false)
	case "sym":
		return q(sym(fmt.Sprint("s", n)))
	case "float":
		return golisp.FloatWithValue(float32(n) + 0.5), golisp.FloatWithValue(float32(n) + 0.5)
	case "none": // an expression without a value
		return call("if", golisp.BooleanWithValue(false), num(1)), nil
	case "bytes":
		d := parse(fmt.Sprintf("[%d 0 255]", n&127))
		return q(d)
	case "alist":
		return q(parse(fmt.Sprintf("((a . %d) (b . ()))", n)))
	case "dot":
		return q(golisp.Cons(num(n), sym("t")))
	case "ch":
		return sym("ch0"), nil
	case "obj":
		n := sym(fmt.Sprint("obj", op.A[1]%int64(len(objKinds))))
		return n, n
	}
	return num(n), num(n)
}

func runChan(w *Workload, c *Ctx) *Violation {
	nch := int(w.n("nch"))
	if w.Variant == "fill" {
		nch = 1
	}
	var exprs [][]*D
	var known objs
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		known = defObjs(e)
		for i := 0; i < nch; i++ {
			cp := w.n(fmt.Sprint("cap", i))
			if cp == 0 {
				e.must(fmt.Sprintf("(define ch%d (make-channel))", i))
			} else {
				e.must(fmt.Sprintf("(define ch%d (make-channel %d))", i, cp))
			}
		}
		for _, cl := range w.Clients {
			var l []*D
			for _, op := range cl {
				l = append(l, chanExpr(op))
			}
			exprs = append(exprs, l)
		}
	}, Root: func(e *Exec) {
		if w.Variant == "fill" {
			chanFill(e, int(w.n("cap0")))
			return
		}
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			d, err := golisp.Eval(exprs[cl][i], e.Env)
			return known.label(d), err
		})
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	if w.Variant == "fill" {
		return nil
	}
	perChan := make([][]*Ev, nch)
	clientsOn := make([]map[int]bool, nch)
	for i := range clientsOn {
		clientsOn[i] = map[int]bool{}
	}
	for _, h := range e.Hist {
		if h.Op.K == "misuse" {
			if v := misused(h); v != nil {
				return v
			}
			continue
		}
		ch := int(h.Op.A[0])
		perChan[ch] = append(perChan[ch], h)
		clientsOn[ch][h.Client] = true
		if h.Panic != "" {
			return bad("channel-panic", "a channel operation panics instead of reporting an error: %v", h)
		}
	}
	c.Trivial = true
	for ch := 0; ch < nch; ch++ {
		if len(clientsOn[ch]) > 1 {
			c.Trivial = false
		}
		m := chanModel(int(w.n(fmt.Sprint("cap", ch))))
		why, gave := Linearizable(m, perChan[ch], 400000)
		if gave {
			c.stat("lin-gave-up", 1)
		} else {
			c.stat("lin-checked", 1)
		}
		c.stat("ops", int64(len(perChan[ch])))
		if why != "" {
			return bad("not-linearizable", "channel %d (capacity %d): %s\nhistory:\n%s", ch, w.n(fmt.Sprint("cap", ch)), why, histText(perChan[ch]))
		}
	}
	return nil
}

func histText(h []*Ev) string {
	var b strings.Builder
	for i, e := range h {
		if i > 60 {
			b.WriteString("  ...\n")
			break
		}
		fmt.Fprintf(&b, "  %v", e)
		if e.InvT != 0 || e.RetT != 0 {
			fmt.Fprintf(&b, " at %d..%d ns", e.InvT, e.RetT)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func chanExpr(op Op) *D {
	if op.K == "quiesce" || op.K == "pause" {
		return nil
	}
	ch := fmt.Sprintf("ch%d", op.A[0])
	short := len(op.A) > 2 && op.A[2] == 1
	switch op.K {
	case "read":
		if short {
			return list(sym("<-" + ch))
		}
		return call("channel-read", sym(ch))
	case "tryread":
		return call("channel-try-read", sym(ch))
	case "write":
		x, _ := chanVal(op)
		if short {
			return list(sym(ch+"<-"), x)
		}
		return call("channel-write", sym(ch), x)
	case "trywrite":
		x, _ := chanVal(op)
		return call("channel-try-write", sym(ch), x)
	case "close":
		return call("close-channel", sym(ch))
	case "misuse":
		return parse(op.S[0])
	}
	return nil
}

func chanOut(op Op) string {
	_, v := chanVal(op)
	if op.S[0] == "ch" {
		return "<Channel>"
	}
	return enc(v)
}

const sep = "\x00"

func chanModel(capacity int) *Model {
	// state: "o" or "c" followed by the queued values, each preceded by sep
	split := func(st string) (bool, []string) {
		p := strings.Split(st, sep)
		return p[0] == "c", p[1:]
	}
	m := &Model{Init: "o"}
	m.Step = func(st string, ev *Ev) (bool, string) {
		closed, q := split(st)
		isErr := ev.Err != ""
		switch ev.Op.K {
		case "write":
			if closed {
				return isErr, st
			}
			return !isErr && len(q) < capacity, st + sep + chanOut(ev.Op)
		case "trywrite":
			if closed {
				return isErr, st
			}
			if isErr {
				return false, st
			}
			if ev.Out == "#t" {
				return len(q) < capacity, st + sep + chanOut(ev.Op)
			}
			return ev.Out == "#f" && len(q) >= capacity, st
		case "read":
			if isErr {
				return false, st
			}
			if len(q) > 0 {
				return ev.Out == "("+q[0]+" #t)", st[:1] + st[1+len(sep)+len(q[0]):]
			}
			return closed && ev.Out == "(() #f)", st
		case "tryread":
			if isErr {
				return false, st
			}
			if len(q) > 0 {
				return ev.Out == "(#t "+q[0]+" #t)", st[:1] + st[1+len(sep)+len(q[0]):]
			}
			if closed {
				return ev.Out == "(#t () #f)", st
			}
			return ev.Out == "(#f () #t)", st
		case "close":
			if closed {
				return isErr, st
			}
			return !isErr, "c" + st[1:]
		}
		return false, st
	}
	if capacity == 0 {
		m.Pair = func(st string, a, b *Ev) (bool, string) {
			if st != "o" || a.Err != "" || b.Err != "" {
				return false, st
			}
			wr := func(x *Ev) bool { return x.Op.K == "write" || x.Op.K == "trywrite" && x.Out == "#t" }
			if wr(b) {
				a, b = b, a
			}
			if !wr(a) {
				return false, st
			}
			v := chanOut(a.Op)
			return b.Op.K == "read" && b.Out == "("+v+" #t)" || b.Op.K == "tryread" && a.Op.K == "write" && b.Out == "(#t "+v+" #t)", st
		}
	}
	m.Enabled = func(st string, ev *Ev, others []*Ev) bool {
		closed, q := split(st)
		switch ev.Op.K {
		case "write":
			if closed || len(q) < capacity {
				return true
			}
		case "read":
			if closed || len(q) > 0 {
				return true
			}
		default:
			return true // nothing else may block
		}
		for _, o := range others {
			if ev.Op.K == "write" && o.Op.K == "read" {
				return true
			}
		}
		return false
	}
	m.Refuse = func(st string, ev *Ev, waiting []*Ev) bool {
		// a try operation must not fail while a partner has been waiting all along
		var partner string
		switch {
		case ev.Op.K == "trywrite" && ev.Out == "#f":
			partner = "read"
		case ev.Op.K == "tryread" && strings.HasPrefix(ev.Out, "(#f"):
			partner = "write"
		default:
			return false
		}
		for _, o := range waiting {
			if o != ev && o.Op.K == partner && o.Parked < ev.Inv {
				return true
			}
		}
		return false
	}
	return m
}

// chanFill: one client sees exactly the requested capacity, and everything
// it wrote comes back in order after the close.
func chanFill(e *Exec, capacity int) {
	ok := 0
	for i := 0; i <= capacity; i++ {
		v, err := golisp.Eval(call("channel-try-write", sym("ch0"), num(int64(i))), e.Env)
		if err != nil {
			e.Fail("capacity", "try-write %d of a channel with capacity %d fails: %v", i, capacity, err)
			return
		}
		if enc(v) == "#t" {
			ok++
		}
	}
	if ok != capacity {
		e.Fail("capacity", "a channel of capacity %d accepted %d values", capacity, ok)
		return
	}
	golisp.Eval(call("close-channel", sym("ch0")), e.Env)
	for i := 0; i <= capacity; i++ {
		v, err := golisp.Eval(call("channel-read", sym("ch0")), e.Env)
		want := fmt.Sprintf("(%d #t)", i)
		if i == capacity {
			want = "(() #f)"
		}
		if err != nil || enc(v) != want {
			e.Fail("fifo", "read %d of a closed channel of capacity %d gives %s (%v), expected %s", i, capacity, enc(v), err, want)
			return
		}
	}
}
