package main

import (
	"time"

	"verifsim/simrt"
)

// minimiseFile shrinks the workload, the fault plan and the schedule of a
// violation while the same class of violation keeps occurring.
func minimiseFile(in, out string, secs float64) {
	r, err := readReplay(in)
	if err != nil {
		return
	}
	p := props[r.Property]
	if secs <= 0 {
		secs = 20
	}
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	class := r.Violation.Class
	best := &ReplayFile{}
	*best = *r

	// attempt with a given schedule
	try := func(w *Workload, traces [][]simrt.Decision, free bool, seed uint64) bool {
		c := &Ctx{Seed: seed, Replay: !free, Traces: traces}
		v, h := oneRun(p, w, c)
		if h != "" || v == nil || v.Class != class || knownFinding(p.ID, v) != "" {
			return false
		}
		nb := *best
		nb.Workload, nb.Traces, nb.Seed, nb.Violation, nb.Hash = w.clone(), c.Recorded, seed, v, c.Hash
		if !free {
			nb.Traces = traces
		}
		*best = nb
		return true
	}
	fails := func(w *Workload, k int) bool {
		if time.Now().After(deadline) {
			return false
		}
		if try(w, best.Traces, false, best.Seed) {
			return true
		}
		for i := 0; i < k && time.Now().Before(deadline); i++ {
			if try(w, nil, true, simrt.Hash64(r.Seed, 99, uint64(i))) {
				return true
			}
		}
		return false
	}
	if !try(r.Workload, r.Traces, false, r.Seed) {
		// keep the original
		writeJSON(out, r)
		return
	}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		// whole clients
		for i := len(best.Workload.Clients) - 1; i >= 0; i-- {
			w := best.Workload.clone()
			if i >= len(w.Clients) || len(w.Clients[i]) == 0 {
				continue
			}
			w.Clients[i] = nil
			if fails(w, 12) {
				changed = true
			}
		}
		for i := len(best.Workload.Faults) - 1; i >= 0; i-- {
			w := best.Workload.clone()
			w.Faults = append(w.Faults[:i], w.Faults[i+1:]...)
			if fails(w, 6) {
				changed = true
			}
		}
		for i := len(best.Workload.Stalls) - 1; i >= 0; i-- {
			w := best.Workload.clone()
			w.Stalls = append(w.Stalls[:i], w.Stalls[i+1:]...)
			if fails(w, 6) {
				changed = true
			}
		}
		for i := len(best.Workload.Jumps) - 1; i >= 0; i-- {
			w := best.Workload.clone()
			w.Jumps = append(w.Jumps[:i], w.Jumps[i+1:]...)
			if fails(w, 6) {
				changed = true
			}
		}
		// operations, in halves then one by one
		for ci := range best.Workload.Clients {
			for sz := (len(best.Workload.Clients[ci]) + 1) / 2; sz >= 1; sz /= 2 {
				for i := len(best.Workload.Clients[ci]) - sz; i >= 0; i -= sz {
					w := best.Workload.clone()
					if i+sz > len(w.Clients[ci]) {
						continue
					}
					w.Clients[ci] = append(w.Clients[ci][:i:i], w.Clients[ci][i+sz:]...)
					if fails(w, 10) {
						changed = true
					}
				}
			}
		}
		// lines of text
		for i := len(best.Workload.Text) - 1; i >= 0; i-- {
			w := best.Workload.clone()
			if i >= len(w.Text) {
				continue
			}
			w.Text = append(w.Text[:i], w.Text[i+1:]...)
			if fails(w, 4) {
				changed = true
			}
		}
		for k, lo := range p.MinN {
			for best.Workload.N[k] > lo {
				w := best.Workload.clone()
				w.N[k]--
				if !fails(w, 6) {
					break
				}
				changed = true
			}
		}
	}
	// schedule decisions: ddmin per execution
	for x := range best.Traces {
		for sz := (len(best.Traces[x]) + 1) / 2; sz >= 1; sz /= 2 {
			for i := len(best.Traces[x]) - sz; i >= 0; i -= sz {
				if time.Now().After(deadline) {
					break
				}
				if i+sz > len(best.Traces[x]) {
					continue
				}
				tr := make([][]simrt.Decision, len(best.Traces))
				copy(tr, best.Traces)
				tr[x] = append(append([]simrt.Decision{}, best.Traces[x][:i]...), best.Traces[x][i+sz:]...)
				try(best.Workload, tr, false, best.Seed)
			}
		}
	}
	best.Minimised = true
	// settle: the hash belongs to a pure replay
	c := &Ctx{Seed: best.Seed, Replay: true, Traces: best.Traces}
	if v, h := oneRun(p, best.Workload, c); h == "" && v != nil && v.Class == class {
		best.Violation, best.Hash = v, c.Hash
		writeJSON(out, best)
	}
}
