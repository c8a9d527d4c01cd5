package main

import (
	"fmt"
	"sort"
	"strings"
)

// LinOp is an operation for the linearizability checker.
type LinOp struct {
	Ev      *Ev
	Pending bool // never returned; known blocked when the run ended
}

// Model is a sequential specification over string-encoded states.
type Model struct {
	Init string
	// Step applies an operation that returned what it returned.
	Step func(st string, ev *Ev) (bool, string)
	// Pair optionally applies two operations at the same moment (rendezvous).
	Pair func(st string, a, b *Ev) (bool, string)
	// Enabled says whether a pending operation could complete in a state;
	// others are the other pending operations.
	Enabled func(st string, ev *Ev, others []*Ev) bool
	// Refuse optionally rejects linearizing ev now, given the operations not
	// yet linearized that are known to be waiting.
	Refuse func(st string, ev *Ev, waiting []*Ev) bool
	// MayHappen lets a pending operation have taken effect (it was cut off
	// rather than blocked).
	MayHappen bool
}

// Linearizable searches for a sequential order; it returns "" if there is
// one, otherwise an explanation.  gaveUp is set when the search was cut off.
func Linearizable(m *Model, hist []*Ev, budget int) (why string, gaveUp bool) {
	evs := append([]*Ev{}, hist...)
	sort.Slice(evs, func(i, j int) bool { return evs[i].Inv < evs[j].Inv })
	n := len(evs)
	if n == 0 {
		return "", false
	}
	if n > 192 {
		return "", true
	}
	type bits [3]uint64
	var done bits
	has := func(b *bits, i int) bool { return b[i>>6]&(1<<uint(i&63)) != 0 }
	setb := func(b *bits, i int) { b[i>>6] |= 1 << uint(i&63) }
	clr := func(b *bits, i int) { b[i>>6] &^= 1 << uint(i&63) }
	type key struct {
		b bits
		s string
	}
	seen := map[key]bool{}
	const inf = int64(1) << 62
	ret := func(e *Ev) int64 {
		if e.Ret == 0 {
			return inf
		}
		return e.Ret
	}
	best, bestSt := 0, m.Init
	var bestDone bits
	steps := 0
	var rec func(st string, cnt int) bool
	rec = func(st string, cnt int) bool {
		steps++
		if steps > budget {
			gaveUp = true
			return false
		}
		minRet := inf
		left := 0
		for i, e := range evs {
			if !has(&done, i) {
				if e.Ret != 0 {
					left++
				}
				if r := ret(e); r < minRet {
					minRet = r
				}
			}
		}
		if cnt >= best {
			best, bestSt, bestDone = cnt, st, done
		}
		if left == 0 {
			// every completed operation is placed; the blocked ones must be
			// unable to complete
			if m.Enabled != nil {
				var pend []*Ev
				for i, e := range evs {
					if !has(&done, i) {
						pend = append(pend, e)
					}
				}
				for _, e := range pend {
					if m.Enabled(st, e, pend) {
						return false
					}
				}
			}
			return true
		}
		k := key{done, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		var waiting []*Ev
		if m.Refuse != nil {
			for i, e := range evs {
				if !has(&done, i) && e.Parked != 0 {
					waiting = append(waiting, e)
				}
			}
		}
		for i, e := range evs {
			if has(&done, i) || e.Inv > minRet {
				continue
			}
			if e.Ret == 0 && !m.MayHappen {
				continue
			}
			if m.Refuse != nil && m.Refuse(st, e, waiting) {
				continue
			}
			if ok, ns := m.Step(st, e); ok {
				setb(&done, i)
				if rec(ns, cnt+1) {
					return true
				}
				clr(&done, i)
				if gaveUp {
					return false
				}
			}
			if m.Pair != nil {
				for j := i + 1; j < n; j++ {
					f := evs[j]
					if has(&done, j) || f.Inv > minRet || f.Ret == 0 {
						continue
					}
					if ok, ns := m.Pair(st, e, f); ok {
						setb(&done, i)
						setb(&done, j)
						if rec(ns, cnt+2) {
							return true
						}
						clr(&done, i)
						clr(&done, j)
						if gaveUp {
							return false
						}
					}
				}
			}
		}
		return false
	}
	if rec(m.Init, 0) {
		return "", false
	}
	if gaveUp {
		return "", true
	}
	var b strings.Builder
	fmt.Fprintf(&b, "no sequential order explains the history; the longest explained prefix leaves state %q and these operations unexplained:", bestSt)
	k := 0
	for i, e := range evs {
		if !has(&bestDone, i) {
			fmt.Fprintf(&b, "\n  %v", e)
			if k++; k > 12 {
				b.WriteString("\n  ...")
				break
			}
		}
	}
	return b.String(), false
}
