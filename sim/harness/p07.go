package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C07: whole-frame operations.

func init() {
	register(&Prop{ID: "C07", Gen: genWhole, Run: runWhole, Quick: 60000, Thorough: 2500000,
		Rule: "a run is 2-4 clients doing 2-5 slot writes, removals and whole-frame operations (clone, copy, str, lisp->json, equal?, keys, values, length, alone and inside lists) on 1-4 frames that refer to each other through ordinary and parent slots, cycles and self-references included; non-trivial when a whole-frame operation overlapped a change of a frame it looked at"})
}

var wholeSlots = []string{"aa", "bb", "cc", "pp*"}

func genWhole(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nf := 1 + r.Intn(4)
	nc := 2 + r.Intn(3)
	w.set("nf", int64(nf))
	w.set("lisp", int64(r.Intn(2)))
	if r.Intn(6) == 0 {
		return genRing(r, w)
	}
	nested := r.Intn(3) > 0
	eqMode := r.Intn(3) == 0
	if eqMode {
		nf = 2 + r.Intn(2)
		w.set("nf", int64(nf))
	}
	bare := !eqMode && r.Intn(6) == 0 // frames with no slots but these, often none
	if bare {
		nested = false
		w.set("bare", 1)
	}
	w.set("noid", b2i(eqMode || bare))
	uniq := int64(100)
	pick, pickF := swarm(r, 22), func(r *Rand) int { return r.Intn(nf) }
	if r.Intn(2) == 0 {
		pickF = swarm(r, nf)
	}
	eqVals, eqSlots, eqPlain := 2+r.Intn(3), 1+r.Intn(2), r.Intn(2) == 0
	val := func() Op {
		f, s := int64(pickF(r)), int64(r.Intn(4))
		if eqMode && eqPlain {
			return Op{K: "set", A: []int64{f, int64(r.Intn(eqSlots)), int64(1 + r.Intn(eqVals))}, S: []string{"N"}}
		}
		if nested && r.Intn(3) == 0 || nested && s == 3 {
			return Op{K: "set", A: []int64{f, s, int64(r.Intn(nf))}, S: []string{"F"}}
		}
		if eqMode {
			return Op{K: "set", A: []int64{f, int64(r.Intn(eqSlots)), int64(1 + r.Intn(eqVals))}, S: []string{[]string{"N", "N", "N", "L", "S"}[r.Intn(5)]}}
		}
		uniq++
		return Op{K: "set", A: []int64{f, s, uniq}, S: []string{[]string{"N", "N", "N", "L", "S"}[r.Intn(5)]}}
	}
	var setup []Op
	if eqMode && eqPlain && r.Intn(3) > 0 {
		for f := 0; f < nf; f++ {
			setup = append(setup, Op{K: "set", A: []int64{int64(f), 0, int64(1 + r.Intn(eqVals))}, S: []string{"N"}})
		}
	}
	few := 3 * nf
	if bare {
		few = 3
	}
	for i := r.Intn(few); i > 0; i-- {
		setup = append(setup, val())
	}
	w.Clients = append(w.Clients, setup)
	if eqMode && r.Intn(3) == 0 {
		// two frames that are never equal but hold each other's old values
		set := func(f, v int) Op {
			return Op{K: "set", A: []int64{int64(f), 0, int64(1 + v%3)}, S: []string{"N"}}
		}
		w.Clients = [][]Op{{set(0, 0), set(1, 1)}}
		x, y := 0, 1
		var ops []Op
		for n := 2 + r.Intn(6); n > 0; n-- {
			v := 3 - x - y // the value neither frame holds
			if n%2 == 0 {
				x = v
			} else {
				y = v
			}
			ops = append(ops, set(n%2, v))
		}
		w.Clients = append(w.Clients, ops)
		for c := 1; c < nc; c++ {
			ops = nil
			for n := 1 + r.Intn(3); n > 0; n-- {
				f := int64(r.Intn(2))
				ops = append(ops, Op{K: []string{"equal", "equal", "equall", "member"}[r.Intn(4)], A: []int64{f, 1 - f}})
			}
			w.Clients = append(w.Clients, ops)
		}
		addStalls(w, r, nc)
		return w
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 2 + r.Intn(4); n > 0; n-- {
			f, g := int64(pickF(r)), int64(pickF(r))
			if eqMode && f == g && r.Intn(4) > 0 {
				g = (f + 1) % int64(nf)
			}
			k := pick(r)
			if eqMode && k >= 9 {
				k = 16 + r.Intn(6)
			}
			switch {
			case k < 7:
				ops = append(ops, val())
			case k < 9:
				ops = append(ops, Op{K: "remove", A: []int64{f, int64(r.Intn(4))}})
			case k < 11:
				ops = append(ops, Op{K: "clone", A: []int64{f, int64(r.Intn(2))}})
			case k < 13:
				ops = append(ops, Op{K: "copy", A: []int64{f, int64(r.Intn(2))}})
			case k < 15:
				ops = append(ops, Op{K: []string{"str", "strl", "fmt"}[r.Intn(3)], A: []int64{f}})
			case k < 16:
				ops = append(ops, Op{K: "json", A: []int64{f}})
			case k < 18:
				ops = append(ops, Op{K: []string{"equal", "equal", "equall", "member"}[r.Intn(4)], A: []int64{f, g}})
			case k < 20:
				ops = append(ops, Op{K: "keys", A: []int64{f}})
			case k < 21:
				ops = append(ops, Op{K: "values", A: []int64{f}})
			default:
				ops = append(ops, Op{K: "length", A: []int64{f}})
			}
		}
		w.Clients = append(w.Clients, ops)
	}
	addStalls(w, r, nc)
	return w
}

// genRing: frames that refer to each other in a ring, an operation that goes
// round it from each of them, and a writer for each, all at once.
func genRing(r *Rand, w *Workload) *Workload {
	nf := 2 + r.Intn(2)
	w.set("nf", int64(nf))
	w.set("noid", 0)
	rw := int64(r.Intn(2)) // the ring goes through slot aa or bb
	var setup []Op
	for f := 0; f < nf; f++ {
		setup = append(setup, Op{K: "set", A: []int64{int64(f), rw, int64((f + 1) % nf)}, S: []string{"F"}})
	}
	w.Clients = [][]Op{setup}
	look := swarm(r, 7)
	uniq := int64(100)
	for f := 0; f < nf; f++ {
		var ops, sets []Op
		for n := 1 + r.Intn(3); n > 0; n-- {
			k := []string{"equal", "copy", "str", "json", "equall", "fmt", "equal"}[look(r)]
			op := Op{K: k, A: []int64{int64(f), 0}}
			if k == "equal" || k == "equall" {
				op.A[1] = int64((f + 1 + r.Intn(nf-1)) % nf)
			}
			ops = append(ops, op)
		}
		for n := 1 + r.Intn(3); n > 0; n-- {
			uniq++
			sets = append(sets, Op{K: "set", A: []int64{int64(f), 2, uniq}, S: []string{"N"}})
		}
		w.Clients = append(w.Clients, ops, sets)
	}
	if r.Intn(2) == 0 {
		w.Strat = simrt.Strategy{Kind: "random", GapS: int64(1 + r.Intn(4)), GapP: int64(r.Intn(12))}
	}
	return w
}

func wholeVal(op Op) string {
	switch op.S[0] {
	case "F":
		return fmt.Sprintf("f%d", op.A[2])
	case "L":
		return fmt.Sprintf("(list %d %d)", op.A[2], op.A[2]+1)
	case "S":
		return fmt.Sprintf("\"s%d\"", op.A[2])
	}
	return fmt.Sprint(op.A[2])
}

func wholeExpr(op Op) string {
	a := op.A
	switch op.K {
	case "set":
		return fmt.Sprintf("(begin (set-slot! f%d %s: %s) nil)", a[0], wholeSlots[a[1]], wholeVal(op))
	case "remove":
		return fmt.Sprintf("(remove-slot! f%d %s:)", a[0], wholeSlots[a[1]])
	case "clone", "copy":
		if a[1] == 1 {
			return fmt.Sprintf("(let ((g (%s f%d))) (set-slot! g aa: 7) (remove-slot! g bb:) g)", op.K, a[0])
		}
		return fmt.Sprintf("(%s f%d)", op.K, a[0])
	case "str":
		return fmt.Sprintf("(str f%d)", a[0])
	case "strl":
		return fmt.Sprintf("(str (list f%d f%d))", a[0], a[0])
	case "fmt":
		return fmt.Sprintf("(format #f \"~A\" f%d)", a[0])
	case "json":
		return fmt.Sprintf("(lisp->json f%d)", a[0])
	case "equal":
		return fmt.Sprintf("(equal? f%d f%d)", a[0], a[1])
	case "equall":
		return fmt.Sprintf("(equal? (list 1 f%d) (list 1 f%d))", a[0], a[1])
	case "member":
		return fmt.Sprintf("(if (member f%d (list f%d)) #t #f)", a[0], a[1])
	case "keys":
		return fmt.Sprintf("(frame-keys f%d)", a[0])
	case "values":
		return fmt.Sprintf("(frame-values f%d)", a[0])
	case "length":
		return fmt.Sprintf("(length f%d)", a[0])
	}
	return "nil"
}

// snap is what one look at one frame showed: slot -> value, "F?" for a frame
// that cannot be told.
type snap map[string]string

func (s snap) enc() string {
	var l []string
	for k, v := range s {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// snapsOf collects the looks a printed, converted or copied value contains;
// it returns what the value itself is called.
type snapper struct {
	bare string // the frame all are, if they have no id slots
	out  []snap
	bad  string
	seen map[*golisp.FrameMap]string
	deep bool
	fs   map[*golisp.FrameMap]int
}

func (p *snapper) fail(f string, a ...interface{}) string {
	if p.bad == "" {
		p.bad = fmt.Sprintf(f, a...)
	}
	return "!"
}

func (p *snapper) add(s snap) string {
	p.out = append(p.out, s)
	id, ok := s["id"]
	if !ok && p.bare != "" {
		return p.bare
	}
	if !ok {
		return p.fail("a frame without its id slot: {%s}", s.enc())
	}
	return id
}

// value decodes a live value; frames are followed when deep (copies).
func (p *snapper) value(d *D) string {
	if !golisp.FrameP(d) {
		return strings.Replace(enc(d), " ", "_", -1)
	}
	m := golisp.FrameValue(d)
	if i, ok := p.fs[m]; ok {
		if p.deep {
			return p.fail("the copy contains the original frame f%d", i)
		}
		return fmt.Sprintf("F%d", i)
	}
	if !p.deep {
		return p.fail("an unknown frame %p", m)
	}
	return p.frame(m)
}

func (p *snapper) frame(m *golisp.FrameMap) string {
	if id, ok := p.seen[m]; ok {
		return id
	}
	if golisp.IntegerP(m.Data["id:"]) {
		p.seen[m] = fmt.Sprintf("F%d", golisp.IntegerValue(m.Data["id:"])-9000)
	}
	s := snap{}
	var keys []string
	for k := range m.Data {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if k == "id:" {
			s["id"] = p.seen[m]
			continue
		}
		s[strings.TrimSuffix(k, ":")] = p.value(m.Data[k])
	}
	return p.add(s)
}

// text decodes printed output.
func (p *snapper) text(s string) (string, string) {
	s = strings.TrimLeft(s, " ")
	switch {
	case s == "":
		return p.fail("printed text ends early"), ""
	case strings.HasPrefix(s, "{...}"):
		return "F?", s[5:]
	case s[0] == '{':
		s = s[1:]
		m := snap{}
		for {
			s = strings.TrimLeft(s, " ")
			if s == "" {
				return p.fail("printed frame ends early"), ""
			}
			if s[0] == '}' {
				return p.add(m), s[1:]
			}
			i := strings.Index(s, " ")
			if i < 0 || s[i-1] != ':' {
				return p.fail("strange slot in %q", s), ""
			}
			k := s[:i-1]
			var v string
			v, s = p.text(s[i:])
			if k == "id" {
				v = "F" + strings.TrimPrefix(v, "900")
			}
			if _, dup := m[k]; dup {
				return p.fail("slot %s printed twice", k), ""
			}
			m[k] = v
		}
	case s[0] == '(':
		i := strings.Index(s, ")")
		if i < 0 {
			return p.fail("strange list in %q", s), ""
		}
		return strings.Replace(s[:i+1], " ", "_", -1), s[i+1:]
	}
	i := strings.IndexAny(s, " })")
	if i < 0 {
		i = len(s)
	}
	return s[:i], s[i:]
}

func (p *snapper) json(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "F?"
	case float64:
		return fmt.Sprint(int64(v))
	case string:
		return fmt.Sprintf("%q", v)
	case []interface{}:
		var l []string
		for _, x := range v {
			l = append(l, p.json(x))
		}
		return "(" + strings.Join(l, "_") + ")"
	case map[string]interface{}:
		s := snap{}
		for k, x := range v {
			if k == "id" {
				s[k] = "F" + strings.TrimPrefix(p.json(x), "900")
			} else {
				s[k] = p.json(x)
			}
		}
		return p.add(s)
	}
	return p.fail("strange JSON value %v", v)
}

// wholeState is the reference: the slots of every frame.
type wholeState []snap

func parseWhole(st string) wholeState {
	var w wholeState
	for _, f := range strings.Split(st, "|") {
		s := snap{}
		for _, kv := range strings.Fields(f) {
			i := strings.Index(kv, "=")
			s[kv[:i]] = kv[i+1:]
		}
		w = append(w, s)
	}
	return w
}

func (w wholeState) enc() string {
	var l []string
	for _, s := range w {
		l = append(l, s.enc())
	}
	return strings.Join(l, "|")
}

func (w wholeState) equal(f, g int64) (eq bool, flat bool) {
	flat = true
	if f == g {
		return true, true
	}
	if len(w[f]) != len(w[g]) {
		return false, true
	}
	eq = true
	for k, v := range w[f] {
		if k == "id" {
			if w[g][k] != v {
				return false, true
			}
			continue
		}
		u := w[g][k]
		if strings.HasPrefix(v, "F") && strings.HasPrefix(u, "F") && u != v {
			flat = false
		} else if u != v {
			eq = false
		}
	}
	return
}

// wild says whether a look (possibly with unknown frames) shows the state.
func wild(look, st snap) bool {
	if len(look) != len(st) {
		return false
	}
	for k, v := range look {
		u, ok := st[k]
		if !ok || v != u && !(v == "F?" && strings.HasPrefix(u, "F")) {
			return false
		}
	}
	return true
}

func wholeStep(st string, ev *Ev) (bool, string) {
	w := parseWhole(st)
	a := ev.Op.A
	switch ev.Op.K {
	case "set":
		v := wholeValue(ev.Op)
		w[a[0]][wholeSlots[a[1]]] = v
		return ev.Out == "()", w.enc()
	case "remove":
		_, had := w[a[0]][wholeSlots[a[1]]]
		delete(w[a[0]], wholeSlots[a[1]])
		return ev.Out == map[bool]string{true: "#t", false: "#f"}[had], w.enc()
	case "look":
		return wild(parseWhole(ev.Op.S[0])[0], w[a[0]]), st
	case "keys":
		var l []string
		for k := range w[a[0]] {
			l = append(l, k+":")
		}
		sort.Strings(l)
		return strings.Join(l, " ") == ev.Op.S[0], st
	case "values":
		var l []string
		for _, v := range w[a[0]] {
			l = append(l, v)
		}
		sort.Strings(l)
		return strings.Join(l, " ") == ev.Op.S[0], st
	case "length":
		return ev.Out == fmt.Sprint(len(w[a[0]])), st
	case "equal", "equall", "member":
		eq, flat := w.equal(a[0], a[1])
		if ev.Out != "#t" && ev.Out != "#f" {
			return false, st
		}
		if !eq {
			return ev.Out == "#f", st
		}
		return !flat || ev.Out == "#t", st
	}
	return false, st
}

func wholeValue(op Op) string {
	switch op.S[0] {
	case "F":
		return fmt.Sprintf("F%d", op.A[2])
	case "L":
		return fmt.Sprintf("(%d_%d)", op.A[2], op.A[2]+1)
	case "S":
		return fmt.Sprintf("\"s%d\"", op.A[2])
	}
	return fmt.Sprint(op.A[2])
}

func runWhole(w *Workload, c *Ctx) *Violation {
	nf := int(w.n("nf"))
	if nf < 1 {
		nf = 1
	}
	fit := func(op Op) Op {
		if op.A[0] >= int64(nf) || op.K == "set" && op.S[0] == "F" && op.A[2] >= int64(nf) ||
			(op.K == "equal" || op.K == "equall" || op.K == "member") && op.A[1] >= int64(nf) {
			op.K = "skip"
		}
		return op
	}
	st := make(wholeState, nf)
	for f := range st {
		st[f] = snap{}
		if w.n("noid") == 0 {
			st[f]["id"] = fmt.Sprintf("F%d", f)
		}
	}
	init := st.enc()
	exprs := make([][]*D, len(w.Clients))
	frames := map[*golisp.FrameMap]int{}
	results := map[string]*D{}
	decode := func(op Op, v *D) ([]snap, string) {
		p := &snapper{fs: frames, seen: map[*golisp.FrameMap]string{}}
		if w.n("bare") == 1 {
			p.bare = fmt.Sprintf("F%d", op.A[0])
		}
		switch op.K {
		case "clone":
			if !golisp.FrameP(v) {
				return nil, "the result is not a frame"
			}
			if _, same := frames[golisp.FrameValue(v)]; same {
				return nil, "the clone is the original"
			}
			p.frame(golisp.FrameValue(v))
		case "copy":
			p.deep = true
			p.value(v)
		case "str", "strl", "fmt":
			s := golisp.StringValue(v)
			if op.K == "strl" {
				if len(s) < 2 || s[0] != '(' || s[len(s)-1] != ')' {
					return nil, "not a list: " + s
				}
				s = s[1 : len(s)-1]
			}
			for strings.TrimSpace(s) != "" && p.bad == "" {
				_, s = p.text(s)
			}
		case "json":
			var x interface{}
			if err := json.Unmarshal([]byte(golisp.StringValue(v)), &x); err != nil {
				return nil, "not JSON: " + golisp.StringValue(v)
			}
			p.json(x)
		}
		if p.bad == "" && len(p.out) == 0 {
			p.bad = "nothing there"
		}
		return p.out, p.bad
	}
	e := c.Sim(Opt{W: w, Cap: 400000, Setup: func(e *Exec) {
		for f := 0; f < nf; f++ {
			id := fmt.Sprintf("id: %d", 9000+f)
			if w.n("noid") == 1 {
				id = ""
			}
			d := e.must(fmt.Sprintf("(begin (define f%d (make-frame %s)) f%d)", f, id, f))
			frames[golisp.FrameValue(d)] = f
		}
		for i, ops := range w.Clients {
			for _, op := range ops {
				op = fit(op)
				exprs[i] = append(exprs[i], parse(wholeExpr(op)))
				if i == 0 && op.K == "set" {
					e.must(wholeExpr(op))
					_, init = wholeStep(init, &Ev{Op: op, Out: "()"})
				}
			}
		}
	}, Root: func(e *Exec) {
		saved := e.W
		run := *w
		run.Clients = append([][]Op{nil}, w.Clients[min(1, len(w.Clients)):]...)
		e.W = &run
		e.RunClients(w.n("lisp") == 1, func(c, i int, op Op) (*D, error) {
			d, err := golisp.Eval(exprs[c][i], e.Env)
			results[fmt.Sprint(c, ".", i)] = d
			if err == nil && (op.K == "clone" || op.K == "copy") {
				s, b := decode(op, d)
				results[fmt.Sprint(c, ".", i, "s")] = str(snapText(s, b))
			}
			return d, err
		})
		e.W = saved
		if w.n("noid") == 1 {
			// nothing changes any more: every pair, by the definition of equality
			fin := finalFrames(frames, nf)
			for f := 0; f < nf; f++ {
				for g := 0; g < nf; g++ {
					v, err := evalS(e.Env, fmt.Sprintf("(equal? f%d f%d)", f, g))
					want := fin.bisimilar(f, g, map[[2]int]bool{})
					if err != nil || enc(v) != map[bool]string{true: "#t", false: "#f"}[want] {
						e.Fail("equality", "(equal? f%d f%d) is %s (%v), the frames are %s", f, g, enc(v), err, fin.enc())
					}
				}
			}
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	var hist []*Ev
	c.Trivial = true
	for _, h := range e.Hist {
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		if h.Ret == 0 {
			return bad("blocked", "%v never returns\n%s", h, histText(e.Hist))
		}
		op := fit(h.Op)
		if op.K == "skip" {
			continue
		}
		if h.Err != "" {
			return bad("error", "%v fails: %s", h, h.Err)
		}
		v := results[fmt.Sprint(h.Client, ".", h.Idx)]
		switch op.K {
		case "clone", "copy", "str", "strl", "fmt", "json":
			s, b := decode(op, v)
			if op.K == "clone" || op.K == "copy" {
				if then := golisp.StringValue(results[fmt.Sprint(h.Client, ".", h.Idx, "s")]); then != snapText(s, b) {
					return bad("shared", "%v: the result changed after it was returned: %s, later %s", h, then, snapText(s, b))
				}
			}
			if b != "" {
				return bad("strange-result", "%v gives %s: %s", h, golisp.String(v), b)
			}
			root := -1
			for i, x := range s {
				id := strings.TrimPrefix(x["id"], "F")
				if w.n("bare") == 1 {
					id = fmt.Sprint(op.A[0])
				}
				f := int64(-1)
				fmt.Sscan(id, &f)
				if f < 0 || f >= int64(nf) {
					return bad("strange-result", "%v shows an unknown frame: %s", h, x.enc())
				}
				if f == op.A[0] {
					root = i
				}
				if len(op.A) > 1 && op.A[1] == 1 && f == op.A[0] { // modified afterwards
					if x["aa"] != "7" || x["bb"] != "" {
						return bad("shared", "%v: the changes made to the result are not in it: %s", h, x.enc())
					}
					k := &Ev{Client: h.Client, Idx: h.Idx, Inv: h.Inv, Ret: h.Ret, Op: Op{K: "look-mod", A: []int64{f}, S: []string{x.enc()}}, Out: h.Out}
					hist = append(hist, k)
					continue
				}
				hist = append(hist, &Ev{Client: h.Client, Idx: h.Idx, Inv: h.Inv, Ret: h.Ret, Op: Op{K: "look", A: []int64{f}, S: []string{x.enc()}}, Out: h.Out})
			}
			if root < 0 {
				return bad("strange-result", "%v does not show frame f%d: %s", h, op.A[0], golisp.String(v))
			}
		case "keys", "values":
			p := &snapper{fs: frames}
			var l []string
			for x := v; golisp.NotNilP(x); x = golisp.Cdr(x) {
				y := p.value(golisp.Car(x))
				if op.K == "values" && golisp.IntegerP(golisp.Car(x)) && golisp.IntegerValue(golisp.Car(x)) >= 9000 {
					y = "F" + strings.TrimPrefix(y, "900")
				}
				l = append(l, y)
			}
			sort.Strings(l)
			hist = append(hist, &Ev{Client: h.Client, Idx: h.Idx, Inv: h.Inv, Ret: h.Ret, Op: Op{K: op.K, A: op.A, S: []string{strings.Join(l, " ")}}, Out: h.Out})
		default:
			hist = append(hist, h)
		}
		if op.K != "set" && op.K != "remove" {
			for _, g := range e.Hist {
				if (g.Op.K == "set" || g.Op.K == "remove") && g.Client != h.Client && g.Inv < h.Ret && h.Inv < g.Ret {
					c.Trivial = false
				}
			}
		}
	}
	c.stat("ops", int64(len(hist)))
	step := func(st string, ev *Ev) (bool, string) {
		if ev.Op.K == "look-mod" {
			w := parseWhole(st)
			m := w[ev.Op.A[0]]
			m["aa"] = "7"
			delete(m, "bb")
			return wild(parseWhole(ev.Op.S[0])[0], m), st
		}
		return wholeStep(st, ev)
	}
	why, gave := Linearizable(&Model{Init: init, Step: step}, hist, 300000)
	if gave {
		c.stat("lin-gave-up", 1)
	}
	if why != "" {
		return bad("not-a-snapshot", "frames initially %s: %s\nhistory:\n%s", init, why, histText(hist))
	}
	return nil
}

func snapText(s []snap, b string) string {
	t := b
	for _, x := range s {
		t += "{" + x.enc() + "}"
	}
	return t
}

// finalFrames reads the frames at rest.
func finalFrames(frames map[*golisp.FrameMap]int, nf int) wholeState {
	st := make(wholeState, nf)
	p := &snapper{fs: frames}
	for m, f := range frames {
		st[f] = snap{}
		for k, v := range m.Data {
			st[f][strings.TrimSuffix(k, ":")] = p.value(v)
		}
	}
	return st
}

func (w wholeState) bisimilar(f, g int, seen map[[2]int]bool) bool {
	if f == g || seen[[2]int{f, g}] {
		return true
	}
	seen[[2]int{f, g}] = true
	if len(w[f]) != len(w[g]) {
		return false
	}
	for k, v := range w[f] {
		u := w[g][k]
		if strings.HasPrefix(v, "F") && strings.HasPrefix(u, "F") {
			if !w.bisimilar(int(v[1]-'0'), int(u[1]-'0'), seen) {
				return false
			}
		} else if u != v {
			return false
		}
	}
	return true
}
