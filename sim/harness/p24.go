package main

import (
	"errors"
	"fmt"
	"strings"

	"verifsim/golisp"
	"verifsim/simrt"
	"verifsim/slog"
)

// C24: logging.

func init() {
	register(&Prop{ID: "C24", Gen: genLogs, Run: runLogs, Quick: 120000, Thorough: 6000000,
		Rule: "a run is 1-5 processes issuing 1-8 log messages each (write-log of strings, numbers and symbols; the host's LogPrintf, LogPrint and LogPrintln; texts with newlines, percent signs and no end of line) to the console and 0-4 loggers, some registered meanwhile by several processes at once, with sinks and a console that are slow, fail or take only part at chosen writes, and stalls; non-trivial when two processes logged"})
}

var logTexts = []string{"plain", "two words", "", "100%", "%d %s %!", "a\nb", "tab\t", "\\n", "ü", "a long message that goes on for a while, and for a while more", "end\n"}

func genLogs(r *Rand, run int, thorough bool) *Workload {
	w := &Workload{}
	nc := 1 + r.Intn(5)
	w.set("lisp", int64(r.Intn(2)))
	w.set("before", int64(r.Intn(3)))
	sink := int64(10)
	for c := 0; c < nc; c++ {
		var ops []Op
		for n := 1 + r.Intn(8); n > 0; n-- {
			k := []string{"log", "log", "log", "log2", "printf", "print", "println", "add", "pause", "logn", "blank"}[r.Intn(11)]
			op := Op{K: k, A: []int64{int64(r.Intn(5)) * 100}, S: []string{logTexts[r.Intn(len(logTexts))]}}
			if k == "add" {
				op.A[0] = sink
				sink++
			}
			ops = append(ops, op)
		}
		w.Clients = append(w.Clients, ops)
	}
	if r.Intn(2) == 0 {
		for n := 1 + r.Intn(4); n > 0; n-- {
			f := simrt.IOFault{Op: "sink", N: r.Intn(6), Kind: []string{"err", "short", "delay", "err"}[r.Intn(4)], Arg: int64(1 + r.Intn(9)), Rest: r.Intn(4) == 0}
			if r.Intn(2) == 0 {
				f.Path = fmt.Sprintf("sink%d", []int{0, 1, 10, 11}[r.Intn(4)])
			}
			if f.Kind == "delay" {
				f.Arg *= 1000
			}
			if r.Intn(5) == 0 {
				f = simrt.IOFault{Op: "write", Path: "/dev/stdout", N: r.Intn(6), Kind: "err", Rest: r.Intn(4) == 0}
			}
			w.Faults = append(w.Faults, f)
		}
	}
	addStalls(w, r, nc)
	return w
}

// sinkWriter is a log sink of the host.
type sinkWriter struct {
	name   string
	added  *Ev // the registration, nil if before the run
	writes []sinkWrite
}

type sinkWrite struct {
	text   string
	failed bool
}

func (s *sinkWriter) Write(p []byte) (int, error) {
	simrt.SP(90)
	f := simrt.SinkFault(s.name)
	w := sinkWrite{text: string(p)}
	n := len(p)
	var err error
	if f != nil {
		switch f.Kind {
		case "err":
			w.failed, n, err = true, 0, errors.New("sink: device gone")
		case "short":
			w.failed, err = true, errors.New("sink: short write")
			if n > int(f.Arg) {
				n = int(f.Arg)
			}
		case "delay":
			simrt.SleepNS(f.Arg)
		}
	}
	s.writes = append(s.writes, w)
	simrt.SP(90)
	return n, err
}

func runLogs(w *Workload, c *Ctx) *Violation {
	var sinks []*sinkWriter
	texts := map[*Ev]string{}
	message := func(cl, i int, op Op) string {
		id := fmt.Sprintf("<%d.%d>", cl, i)
		switch op.K {
		case "log":
			return id + op.S[0] + "\r\n"
		case "log2":
			return id + op.S[0] + "7sym\r\n"
		case "blank":
			return "\r\n"
		case "logn":
			return id + "5-6\r\n"
		case "printf":
			return id + op.S[0] + "=12\n"
		case "print":
			return id + op.S[0]
		case "println":
			return id + op.S[0] + " 3\n"
		}
		return ""
	}
	e := c.Sim(Opt{W: w, Root: func(e *Exec) {
		for i := int64(0); i < w.n("before"); i++ {
			s := &sinkWriter{name: fmt.Sprintf("sink%d", i)}
			sinks = append(sinks, s)
			golisp.AddLog(slog.New(s, "", 0))
		}
		e.RunClients(w.n("lisp") == 1, func(cl, i int, op Op) (*D, error) {
			id := fmt.Sprintf("<%d.%d>", cl, i)
			switch op.K {
			case "add":
				s := &sinkWriter{name: fmt.Sprintf("sink%d", op.A[0])}
				for _, h := range e.Hist {
					if h.Client == cl && h.Idx == i {
						s.added = h
					}
				}
				sinks = append(sinks, s)
				golisp.AddLog(slog.New(s, "", 0))
			case "log":
				return golisp.Eval(call("write-log", str(id+op.S[0])), e.Env)
			case "log2":
				return golisp.Eval(call("write-log", str(id), str(op.S[0]), num(7), call("quote", sym("sym"))), e.Env)
			case "blank":
				return golisp.Eval([]*D{call("write-log", str("")), call("write-log", str(""), str(""))}[i%2], e.Env)
			case "logn":
				return golisp.Eval(call("write-log", str(id), num(5), num(-6)), e.Env)
			case "printf":
				golisp.LogPrintf("%s%s=%d\n", id, op.S[0], 12)
			case "print":
				golisp.LogPrint(id + op.S[0])
			case "println":
				golisp.LogPrintln(id+op.S[0], 3)
			}
			return nil, nil
		})
		for _, t := range e.S.Alive() {
			e.Fail("stuck", "a process is left waiting for %s", t.WaitOn())
		}
	}})
	if v := e.Crash(); v != nil {
		return v
	}
	logging := map[int]bool{}
	var msgs []*Ev
	for _, h := range e.Hist {
		if h.Ret == 0 {
			return bad("blocked", "%v never returns", h)
		}
		if h.Panic != "" || h.Err != "" {
			return bad("failed", "%v: %s%s", h, h.Err, h.Panic)
		}
		if h.Op.K != "add" {
			logging[h.Client] = true
			texts[h] = message(h.Client, h.Idx, h.Op)
			msgs = append(msgs, h)
		}
	}
	c.Trivial = len(logging) < 2
	// takes what was written apart into messages, in order
	split := func(what, content string, line bool) ([]*Ev, *Violation) {
		var seq []*Ev
		seen := map[*Ev]bool{}
		for content != "" {
			var m *Ev
			n := 0
			for _, h := range msgs {
				t := texts[h]
				if line && !strings.HasSuffix(t, "\n") {
					t += "\n"
				}
				if strings.HasPrefix(content, t) && (h.Op.K != "blank" || m == nil && !seen[h]) {
					m, n = h, len(t)
				}
			}
			if m == nil {
				return nil, bad("mixed", "%s holds %q, which is no message", what, content)
			}
			if seen[m] {
				return nil, bad("twice", "%s got %v twice", what, m)
			}
			seen[m] = true
			seq = append(seq, m)
			content = content[n:]
		}
		last := map[int]*Ev{}
		for _, m := range seq {
			if m.Op.K == "blank" {
				continue // they cannot be told apart
			}
			if l := last[m.Client]; l != nil && l.Idx > m.Idx {
				return nil, bad("order", "%s got %v after %v", what, m, l)
			}
			last[m.Client] = m
		}
		return seq, nil
	}
	// the console
	content := ""
	for _, ev := range e.S.FS.Console {
		content += ev.Text
	}
	consoleFaults := 0
	for _, f := range e.S.FS.Faults {
		if f.Op == "write" {
			consoleFaults += f.Fired
		}
	}
	seq, v := split("the console", content, false)
	if v != nil {
		return v
	}
	if len(seq)+consoleFaults != len(msgs) {
		return bad("lost", "the console got %d of %d messages", len(seq), len(msgs))
	}
	for _, s := range sinks {
		content := ""
		failed := map[string]int{}
		for _, wr := range s.writes {
			if wr.failed {
				failed[wr.text]++
			} else {
				content += wr.text
			}
		}
		seq, v := split(s.name, content, true)
		if v != nil {
			return v
		}
		got := map[*Ev]bool{}
		for _, m := range seq {
			got[m] = true
		}
		mustBlank, mayBlank, blanks := 0, 0, failed["\r\n"]
		for _, m := range msgs {
			if m.Op.K == "blank" {
				if s.added == nil || m.Inv > s.added.Ret {
					mustBlank++
				}
				if s.added == nil || m.Ret > s.added.Inv {
					mayBlank++
				}
				if got[m] {
					blanks++
				}
				continue
			}
			t := texts[m]
			if !strings.HasSuffix(t, "\n") {
				t += "\n"
			}
			must := s.added == nil || m.Inv > s.added.Ret
			may := s.added == nil || m.Ret > s.added.Inv
			if failed[t] > 1 || failed[t] == 1 && got[m] {
				return bad("twice", "%s was given %v again after it failed", s.name, m)
			}
			n := got[m] || failed[t] == 1
			if must && !n && len(failed) == 0 {
				return bad("lost", "%s did not get %v", s.name, m)
			}
			if must && !n {
				return bad("lost", "%s, which failed before, did not get %v", s.name, m)
			}
			if !may && n {
				return bad("early", "%s got %v, issued before it was registered", s.name, m)
			}
		}
		if blanks < mustBlank || blanks > mayBlank {
			return bad("lost", "%s got %d blank messages, of %d to %d", s.name, blanks, mustBlank, mayBlank)
		}
	}
	return nil
}
