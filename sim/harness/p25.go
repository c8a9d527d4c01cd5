package main

import (
	"fmt"
	"strings"

	"verifsim/simrt"
)

// C25: diagnostics.

func init() {
	register(&Prop{ID: "C25", Gen: genDiag, Run: runIndep, Quick: 8000, Thorough: 300000,
		Rule: "a run is 2-4 generated programs as for C10, each run alone without diagnostics and then all together while another process switches evaluation tracing, debug tracing and profiling on and off and puts breakpoints on the functions the programs share, at which the debugger is entered and obeys a script that looks, steps and continues, on a console that may be failing; non-trivial when the programs took more than 10 steps"})
}

var diagBreaks = []string{"lib-inc", "lib-twice", "lib-fact", "lib-sum", "lib-compose", "lib-count", "lib-rest", "lib-collect", "lib-do", "lib-case", "lib-cond", "lib-try", "lib-inner", "lib-each", "lib-mutual", "lib-where"}

var diagLines = []string{":c", ":c", ":c", ":s", ":s", ":s", ":u", ":b", ":d", ":f 0", ":f 1", ":f", ":f x", ":?", "", "(+ 1 2)", "(car 5)", "no-such-name", "(", "\"abc", ":t on", ":t off", ":t", ":(", ":(+ lib-inc", ":(- lib-inc", ":(+ no-such", ":bogus", ":r (no-such 1)", ":e off", "(list 1 (lib-twice 2))", "(panic! \"x\")", "(error \"y\")"}

func genDiag(r *Rand, run int, thorough bool) *Workload {
	w := genIndep(r, run, thorough)
	for c, l := range w.Clients { // they need not be at the same place
		var ops []Op
		for _, op := range l {
			if op.K != "sync" {
				ops = append(ops, op)
			}
		}
		w.Clients[c] = ops
	}
	w.set("diag", 1)
	w.set("interactive", int64(r.Intn(2)))
	w.set("tracing", int64(r.Intn(3)/2))
	var ops []Op
	for n := 1 + r.Intn(8); n > 0; n-- {
		s := ""
		fn := diagBreaks[r.Intn(len(diagBreaks))]
		switch r.Intn(12) {
		case 0, 1:
			s = "(lisp-trace #t)"
		case 2:
			s = "(lisp-trace #f)"
		case 3:
			s = "(debug-trace #t)"
		case 4:
			s = "(profile (sleep 1))"
		case 5:
			s = "(profile (lib-count 4) \"profile.dat\")"
		case 6:
			s = "(sleep 1)"
		case 7:
			s = fmt.Sprintf("(remove-debug-on-entry %s)", fn)
		case 8:
			s = "(debug-on-entry)"
		default:
			s = fmt.Sprintf("(add-debug-on-entry %s)", fn)
		}
		ops = append(ops, Op{K: "diag", S: []string{s}})
	}
	lines, n := diagLines, r.Intn(12)
	if r.Intn(4) == 0 { // stepping up and continuing
		lines, n = []string{":u", ":u", ":u", ":c", ":s", ":f 0"}, 10+r.Intn(40)
	}
	for ; n > 0; n-- {
		ops = append(ops, Op{K: "line", S: []string{lines[r.Intn(len(lines))]}})
	}
	for i := range ops {
		j := r.Intn(i + 1)
		ops[i], ops[j] = ops[j], ops[i]
	}
	// the environment of the switches
	w.Clients = append(w.Clients, ops)
	if r.Intn(4) == 0 {
		text := ""
		for _, l := range w.Clients {
			for _, op := range l {
				text += op.S[0]
			}
		}
		if !strings.Contains(text, "write-string") {
			w.Faults = append(w.Faults, simrt.IOFault{Op: "write", Path: "/dev/stdout", N: r.Intn(20), Kind: "err", Rest: r.Intn(2) == 0})
		}
		w.Faults = append(w.Faults, simrt.IOFault{Op: []string{"create", "write", "close"}[r.Intn(3)], Path: "profile.dat", N: r.Intn(3), Kind: "err", Rest: true})
	}
	return w
}
