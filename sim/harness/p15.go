package main

import (
	"fmt"
	"strconv"
	"strings"
	"unsafe"

	"verifsim/golisp"
	"verifsim/simrt"
)

// C15: writing to ports and the console.

func init() {
	register(&Prop{ID: "C15", Gen: genWrites, Run: runWrites, Quick: 100000, Thorough: 2000000,
		Rule: "a run is 1-4 processes writing with every output built-in to a shared port, to appending ports of their own on one file, to files of their own opened, closed and reopened, and to the console, with writes split, slowed down, failing and running out of space at seeded points and opens and closes failing; every instant of the files is looked at as what a kill would leave; non-trivial when two processes wrote to one file or the console or a fault fired"})
}

const (
	wShared = 0
	wAppend = 1
	wOwn    = 2
	wConsol = 3
)

func genWrites(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nc := 1 + r.Intn(4)
	w.set("lisp", int64(r.Intn(2)))
	w.set("old", int64(r.Intn(2)))
	w.set("sapp", int64(r.Intn(2)))
	if r.Intn(2) == 0 {
		w.set("maxwrite", int64(1+r.Intn(7)))
	}
	if r.Intn(4) == 0 {
		w.set("opcost", int64(r.Intn(3000)))
	}
	big := r.Intn(8) == 0
	w.set("big", b2i(big))
	if big && w.n("maxwrite") > 0 {
		w.set("maxwrite", int64(100+r.Intn(4000)))
	}
	kinds := []string{"ws", "ws", "wr", "wl", "wq", "wb", "fm", "fs", "nl", "we", "pl", "wn", "wf"}
	focus := r.Intn(6)
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 1 + r.Intn(8); n > 0; n-- {
			t := r.Intn(4)
			if focus < 4 && r.Intn(3) > 0 {
				t = focus
			}
			k := kinds[r.Intn(len(kinds))]
			if t == wOwn && r.Intn(4) == 0 {
				k = []string{"open", "open", "close"}[r.Intn(3)]
			}
			if t == wAppend && r.Intn(8) == 0 {
				k = []string{"open", "close"}[r.Intn(2)]
			}
			if big && r.Intn(4) == 0 {
				k = "wb"
			}
			ops = append(ops, Op{K: k, A: []int64{int64(t), int64(r.Intn(12)), int64(r.Intn(2)), int64(r.Intn(5))}})
		}
		w.Clients = append(w.Clients, ops)
	}
	for n := r.Intn(4); n > 0; n-- {
		f := simrt.IOFault{Op: "write", Path: []string{"shared.txt", "append.txt", fmt.Sprintf("own%d.txt", r.Intn(nc)), "/dev/stdout"}[(r.Intn(7)+1)/2], N: r.Intn(5),
			Kind: []string{"err", "full", "short", "delay"}[r.Intn(4)], Arg: int64(r.Intn(9))}
		if w.n("maxwrite") > 0 {
			f.N = r.Intn(20)
		}
		if f.Kind == "delay" {
			f.Arg = int64(1+r.Intn(20)) * 100000
		}
		f.Rest = r.Intn(4) == 0 && f.Kind != "delay"
		switch k := r.Intn(8); {
		case f.Path == "/dev/stdout":
		case k == 0:
			f = simrt.IOFault{Op: "close", Path: f.Path, N: r.Intn(2), Kind: "err"}
		case k == 1:
			f = simrt.IOFault{Op: "create", Path: f.Path, N: r.Intn(2), Kind: "err"}
		}
		w.Faults = append(w.Faults, f)
	}
	addStalls(w, r, nc)
	return w
}

// wrote is one output operation.
type wrote struct {
	text     string
	path     string
	inv, ret int64
	ok       bool
	length   int // of the file when it returned
	cl, i    int
	kind     string
	used     bool
}

func runWrites(w *Workload, c *Ctx) *Violation {
	nc := len(w.Clients)
	var all []*wrote
	type note struct {
		class, text string
	}
	var notes []note
	say := func(class, f string, a ...interface{}) {
		notes = append(notes, note{class, fmt.Sprintf(f, a...)})
	}
	errs := map[string]int{} // "op path" -> reported errors
	own := make([]string, nc)
	ownOpen := make([]*D, nc)
	ownDead := make([]bool, nc)
	app := make([]*D, nc)
	appClosed := make([]bool, nc)
	old := ""
	if w.n("old") == 1 {
		old = "(old content)\n"
	}
	// Split writes through different ports on one file mix, whatever the
	// interpreter does: then only one process appends.
	single := w.n("maxwrite") > 0
	for _, f := range w.Faults {
		if f.Kind == "short" && f.Path == "append.txt" {
			single = true
		}
	}
	var shared *D
	e := c.Sim(Opt{W: w, Setup: func(e *Exec) {
		e.S.FS.MaxWrite = int(w.n("maxwrite"))
		e.S.FS.OpCost = w.n("opcost")
		if old != "" {
			e.S.FS.Put("shared.txt", []byte(old))
			e.S.FS.Put("append.txt", []byte(old))
			for i := 0; i < nc; i++ {
				e.S.FS.Put(fmt.Sprintf("own%d.txt", i), []byte(old))
				own[i] = old
			}
		}
	}, Root: func(e *Exec) {
		open := func(path string, ap bool) *D {
			x := call("open-output-file", str(path), golisp.BooleanWithValue(ap))
			if !ap && len(path)%2 == 0 {
				x = call("open-output-file", str(path))
			}
			d, err := golisp.Eval(x, e.Env)
			if err != nil {
				errs["create "+path]++
				return nil
			}
			return d
		}
		clos := func(path string, p *D) {
			if _, err := golisp.Eval(call("close-port", p), e.Env); err != nil {
				errs["close "+path]++
			}
		}
		shared = open("shared.txt", w.n("sapp") == 1)
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			t := int(op.A[0])
			if t == wAppend && single && cl > 0 {
				t = wShared
			}
			var p *D
			path := ""
			switch t {
			case wShared:
				p, path = shared, "shared.txt"
				if p == nil {
					return nil, nil
				}
			case wAppend:
				path = "append.txt"
				if op.K == "close" {
					if app[cl] != nil && !appClosed[cl] {
						clos(path, app[cl])
						app[cl] = nil
					}
					return nil, nil
				}
				if app[cl] == nil {
					app[cl] = open(path, true)
				}
				if app[cl] == nil || op.K == "open" {
					return nil, nil
				}
				p = app[cl]
			case wOwn:
				path = fmt.Sprintf("own%d.txt", cl)
				switch op.K {
				case "open":
					if ownOpen[cl] != nil && !ownDead[cl] {
						return nil, nil
					}
					ap := op.A[2] == 1
					if d := open(path, ap); d != nil {
						ownOpen[cl], ownDead[cl] = d, false
						if !ap {
							own[cl] = ""
						}
					}
				case "close":
					if ownOpen[cl] != nil && !ownDead[cl] {
						clos(path, ownOpen[cl])
						ownDead[cl] = true
					}
				}
				data, _ := e.S.FS.Get(path)
				if string(data) != own[cl] {
					say("content", "after %s of %s the file contains %q instead of %q", op.K, path, data, own[cl])
				}
				if op.K == "open" || op.K == "close" || ownOpen[cl] == nil {
					return nil, nil
				}
				p = ownOpen[cl]
			}
			n := int(op.A[1])
			id := fmt.Sprintf("<%d.%d:", cl, i)
			body := strings.Repeat("abc", n/2)
			if len(op.A) > 3 {
				switch op.A[3] {
				case 1:
					body = "100%s %d%% é世" + body
				case 2:
					if op.K != "wr" {
						body = "\ttab\nline " + body + "\n"
					}
				}
				if w.n("big") == 1 && op.A[3] > 2 {
					body += strings.Repeat("0123456789", []int{30, 150, 500}[n%3])
				}
			}
			body += ">"
			text := id + body
			var x *D
			switch op.K {
			case "ws":
				x = call("write-string", str(text))
			case "we":
				text = ""
				x = call("write-string", str(text))
			case "wr":
				x = call("write", str(text))
				text = "\"" + text + "\""
			case "wl":
				x = call("write", call("quote", list(num(int64(cl)), num(int64(i)), list(str("x"), golisp.LispTrue), sym(strings.Repeat("y", n+1)))))
				text = fmt.Sprintf("(%d %d (\"x\" #t) %s)", cl, i, strings.Repeat("y", n+1))
			case "wn":
				k := 100000 + int64(1000*cl+10*i)
				x = call("write", num(k))
				text = fmt.Sprint(k)
			case "wf":
				x = call("write-string", call("format", golisp.LispFalse, str(id+"~A~S~V~~%"), str(body), num(int64(n)), num(2)))
				text = id + body + strconv.Itoa(n) + "~~\n"
			case "wq":
				x = call("write", call("quote", golisp.Cons(num(int64(100*cl+i)), sym("tail"))))
				text = fmt.Sprintf("(%d . tail)", 100*cl+i)
			case "wb":
				if p == nil {
					x = call("write-string", str(text))
					break
				}
				if len(text) > 300 {
					b := []byte(text)
					x = call("write-bytes", golisp.ObjectWithTypeAndValue("[]byte", unsafe.Pointer(&b)))
					break
				}
				var l []*D
				for _, b := range []byte(text) {
					l = append(l, num(int64(b)))
				}
				ba, err := golisp.Eval(call("list->bytearray", call("quote", list(l...))), e.Env)
				if err != nil {
					return nil, err
				}
				x = call("write-bytes", ba)
			case "fm":
				dst := p
				if p == nil {
					dst = golisp.LispTrue
				}
				x = call("format", dst, str(id+"~A~S~%"), str(body), num(int64(n)))
				text = id + body + strconv.Itoa(n) + "\n"
			case "fs":
				dst := p
				if p == nil {
					dst = golisp.LispTrue
				}
				x = call("format", dst, str(id+"~10A~~"), num(7))
				text = id + "7         ~"
			case "pl":
				x = call("write-string", str(text))
				if p == nil {
					x = call("write-line", str(id), num(7), str(body))
					text = id + "7" + body + "\n"
					path = "stderr"
				}
			case "nl":
				text = "\n"
				x = call("newline")
			default:
				return nil, nil
			}
			if p != nil && op.K != "fm" && op.K != "fs" {
				x = golisp.AppendBangList(x, list(p))
			}
			dead := t == wOwn && ownDead[cl]
			before := 0
			if t == wOwn {
				before = len(own[cl])
			}
			o := &wrote{text: text, path: path, inv: simrt.Seq(), cl: cl, i: i, kind: op.K}
			all = append(all, o)
			_, err := golisp.Eval(x, e.Env)
			o.ret = simrt.Seq()
			o.ok = err == nil
			data, _ := e.S.FS.Get(path)
			o.length = len(data)
			if err != nil && !dead {
				if path == "" {
					errs["write /dev/stdout"]++
				} else {
					errs["write "+path]++
				}
			}
			if t == wOwn {
				got := string(data)
				switch {
				case dead && err == nil:
					say("closed", "writing to a closed port succeeds")
				case dead && got != own[cl]:
					say("closed", "a failed write to a closed port changes the file")
				case dead:
				case err == nil && got != own[cl]+text:
					say("content", "after %s of %q to %s the file contains %q instead of %q", op.K, text, path, got, own[cl]+text)
				case err != nil && !(len(got) >= before && strings.HasPrefix(own[cl]+text, got)):
					say("content", "after a failed %s of %q to %s the file contains %q which is not %q and a prefix of it", op.K, text, path, got, own[cl])
				}
				own[cl] = got
			}
			return nil, nil
		})
		if shared != nil {
			clos("shared.txt", shared)
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	for _, h := range e.Hist {
		if h.Ret == 0 {
			return bad("blocked", "%v never returns", h)
		}
		if h.Panic != "" {
			return bad("panic", "%v panics", h)
		}
		if h.Err != "" {
			return bad("error", "%v fails: %s", h, h.Err)
		}
	}
	if len(notes) > 0 {
		return bad(notes[0].class, "%s", notes[0].text)
	}
	// every failure of the system is reported, and nothing else
	fired := map[string]int{}
	total := 0
	for _, f := range e.S.FS.Faults {
		total += f.Fired
		if f.Kind == "err" || f.Kind == "full" {
			fired[f.Op+" "+f.Path] += f.Fired
		}
	}
	for k, n := range errs {
		if fired[k] == 0 {
			return bad("spurious-error", "%d of %s failed without reason", n, k)
		}
	}
	for k, n := range fired {
		if n > 0 && errs[k] == 0 {
			return bad("unreported", "%d of %s failed and it was not reported", n, k)
		}
		if n > 0 && !strings.HasPrefix(k, "write") && errs[k] != n {
			return bad("unreported", "%d of %s failed and %d were reported", n, k, errs[k])
		}
	}
	// files written by several ports or processes
	writers := map[string]map[int]bool{}
	for _, o := range all {
		if writers[o.path] == nil {
			writers[o.path] = map[int]bool{}
		}
		writers[o.path][o.cl] = true
	}
	c.Trivial = total == 0
	for _, m := range writers {
		if len(m) > 1 {
			c.Trivial = false
		}
	}
	console := ""
	stderr := ""
	for _, ev := range e.S.FS.Console {
		if ev.FD == 2 {
			stderr += ev.Text
		} else {
			console += ev.Text
		}
	}
	appd, _ := e.S.FS.Get("append.txt")
	shd, _ := e.S.FS.Get("shared.txt")
	shOld := old
	if w.n("sapp") == 0 && shared != nil {
		shOld = ""
	}
	for _, f := range []struct{ path, data, old string }{{"shared.txt", string(shd), shOld}, {"append.txt", string(appd), old}, {"", console, ""}, {"stderr", stderr, ""}} {
		if !strings.HasPrefix(f.data, f.old) {
			return bad("old-content", "%s held %q when opened for append and now %q", f.path, f.old, f.data)
		}
		var ops []*wrote
		for _, o := range all {
			if o.path == f.path && !(o.text == "") {
				ops = append(ops, o)
			}
		}
		ends := map[*wrote]int{}
		if !explain(f.data, len(f.old), ops, ends) {
			return bad("content", "%q is not %q and the operations acknowledged on it, each in one piece: %s", f.data, f.old, opTexts(ops))
		}
		for _, a := range ops {
			ea, in := ends[a]
			if a.ok && !in {
				return bad("lost", "%q was written to %q and is not there: %q", a.text, f.path, f.data)
			}
			if a.ok && strings.HasSuffix(f.path, ".txt") && a.kind != "nl" && a.length < ea {
				return bad("not-yet", "%q was acknowledged when %s held only its first %d bytes: %q", a.text, f.path, a.length, f.data)
			}
			if a.kind == "nl" {
				continue
			}
			for _, b := range ops {
				eb, inb := ends[b]
				if in && inb && a.ok && b.ok && b.kind != "nl" && a.ret < b.inv && ea > eb {
					return bad("order", "%q was written after %q to %q but stands before it: %q", b.text, a.text, f.path, f.data)
				}
			}
		}
		// every instant: only appended to
		if strings.HasSuffix(f.path, ".txt") {
			have := f.old
			for _, j := range e.S.FS.Journal {
				if !strings.HasSuffix(j.Path, "/"+f.path) {
					continue
				}
				if j.Kind == "write" {
					if int(j.Off) != len(have) {
						return bad("instant", "%s was written at %d when it was %d long", f.path, j.Off, len(have))
					}
					have += string(j.Data)
				}
				if j.Kind == "trunc" && f.old != "" || j.Kind == "remove" {
					return bad("instant", "%s was truncated", f.path)
				}
			}
			if have != f.data {
				return bad("instant", "%s: %q %q", f.path, have, f.data)
			}
		}
	}
	return nil
}

func opTexts(ops []*wrote) string {
	var l []string
	for _, o := range ops {
		l = append(l, fmt.Sprintf("%q acknowledged=%v", o.text, o.ok))
	}
	return strings.Join(l, ", ")
}

// explain finds a way to read data from pos on as whole texts of operations
// and prefixes of failed ones.
func explain(data string, pos int, ops []*wrote, ends map[*wrote]int) bool {
	if pos == len(data) {
		for _, o := range ops {
			if o.ok && !o.used {
				return false
			}
		}
		return true
	}
	rest := data[pos:]
	nl := 0 // newlines are all alike: take acknowledged ones first, and only one
	for _, o := range ops {
		if o.kind == "nl" && !o.used && o.ok {
			nl = 1
		}
	}
	for _, o := range ops {
		if o.used || !strings.HasPrefix(rest, o.text) {
			continue
		}
		if o.kind == "nl" {
			if nl == 2 || nl == 1 && !o.ok {
				continue
			}
			nl = 2
		}
		o.used = true
		ends[o] = pos + len(o.text)
		if explain(data, pos+len(o.text), ops, ends) {
			o.used = false
			return true
		}
		o.used = false
		delete(ends, o)
	}
	for _, o := range ops {
		if o.used || o.ok || o.ret == 0 {
			continue
		}
		for k := len(o.text) - 1; k > 0; k-- {
			if !strings.HasPrefix(rest, o.text[:k]) {
				continue
			}
			o.used = true
			ends[o] = pos + k
			if explain(data, pos+k, ops, ends) {
				o.used = false
				return true
			}
			o.used = false
			delete(ends, o)
		}
	}
	return false
}
