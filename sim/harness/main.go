package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/simrt"
)

// Prop is one property's generator and judge.
type Prop struct {
	ID       string
	Gen      func(r *Rand, run int, thorough bool) *Workload
	Run      func(w *Workload, c *Ctx) *Violation
	Quick    int // number of runs
	Thorough int
	Rule     string
	Stubs    []string
	// SizeOf lets minimisation shrink numbers in N (name -> smallest value)
	MinN map[string]int64
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// RunResult is what a worker reports for one run.
type RunResult struct {
	Run    int                `json:"run"`
	Seed   uint64             `json:"seed"`
	V      *Violation         `json:"v,omitempty"`
	W      *Workload          `json:"w,omitempty"`
	Traces [][]simrt.Decision `json:"traces,omitempty"`
	Hash   uint64             `json:"hash"`
}

// Batch is a worker's final report.
type Batch struct {
	Runs     int              `json:"runs"`
	Execs    int              `json:"execs"`
	Nontriv  int              `json:"nontriv"`
	SimNS    float64          `json:"simns"`
	Points   int64            `json:"points"`
	Switches int64            `json:"switches"`
	Stats    map[string]int64 `json:"stats"`
	IL       []uint64         `json:"il"`
	Cases    []uint64         `json:"cases"`
	Hash     uint64           `json:"hash"`
	Samples  []string         `json:"samples"`
	Done     bool             `json:"done"`
	Unstable int              `json:"unstable"`
}

// ReplayFile reproduces one violation exactly.
type ReplayFile struct {
	Property  string             `json:"property"`
	Violation *Violation         `json:"violation"`
	Seed      uint64             `json:"seed"`
	Run       int                `json:"run"`
	VerifSeed int64              `json:"verif_seed"`
	Minimised bool               `json:"minimised"`
	Free      bool               `json:"free,omitempty"` // schedule chosen from the seed instead of from Traces
	Workload  *Workload          `json:"workload"`
	Traces    [][]simrt.Decision `json:"schedule"`
	Hash      uint64             `json:"history_hash"`
}

func runSeed(seed int64, prop string, run int) uint64 {
	return simrt.Hash64(uint64(seed)+0x1234, simrt.HashString(prop), uint64(run))
}

func genWorkload(p *Prop, seed uint64, run int, thorough bool) *Workload {
	r := simrt.NewRand(seed)
	w := p.Gen(r, run, thorough)
	w.Prop = p.ID
	if w.Strat.Kind == "" {
		w.Strat = randStrat(r)
	}
	return w
}

func randStrat(r *Rand) simrt.Strategy {
	s := simrt.Strategy{}
	switch r.Intn(10) {
	case 0, 1, 2:
		s.Kind = "pct"
		s.Depth = 1 + r.Intn(6)
		s.Len = []int64{200, 600, 2000, 6000, 20000, 60000}[r.Intn(6)]
	case 3:
		s.Kind = "rtb"
	default:
		s.Kind = "random"
		s.GapS = []int64{1, 2, 3, 4, 6, 10, 20, 0}[r.Intn(8)]
		s.GapP = []int64{0, 0, 3, 8, 20, 50, 120, 400, 1500}[r.Intn(9)]
		if s.GapS == 0 && s.GapP == 0 {
			s.GapP = 40
		}
	}
	s.FavorMap = r.Intn(2) == 0
	s.FavorMid = r.Intn(3) == 0
	return s
}

// setupFailure is raised when code the scenario starts from, which the
// unchanged interpreter evaluates, fails.
type setupFailure string

// oneRun executes a run and catches harness failures.
func oneRun(p *Prop, w *Workload, c *Ctx) (v *Violation, harness string) {
	defer func() {
		if r := recover(); r != nil {
			simrt.S = nil
			if f, ok := r.(setupFailure); ok {
				v = bad("setup", "%s", string(f))
				return
			}
			harness = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	v = p.Run(w, c)
	return v, ""
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simcheck run|worker|replay|selftest|show ...")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	start := fs.Int("start", 0, "")
	stride := fs.Int("stride", 1, "")
	count := fs.Int("count", 0, "")
	secs := fs.Float64("secs", 0, "")
	root := fs.String("verif", "/verif", "")
	progress := fs.String("progress", "", "")
	procs := fs.Int("procs", 8, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "worker":
		worker(props[*prop], *tier == "thorough", *seed, *start, *stride, *count, *secs, *progress)
	case "run":
		os.Exit(runCheck(props[*prop], *tier, *seed, *root, *procs, *count, *secs))
	case "replay":
		os.Exit(replay(fs.Arg(0), *verbose))
	case "minimise":
		minimiseFile(fs.Arg(0), fs.Arg(1), *secs)
	case "one":
		one(props[*prop], *tier == "thorough", *seed, *start)
	case "list":
		var l []string
		for k := range props {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
	default:
		os.Exit(2)
	}
}

// one runs a single run verbosely.
func one(p *Prop, thorough bool, seed int64, run int) {
	rs := runSeed(seed, p.ID, run)
	w := genWorkload(p, rs, run, thorough)
	b, _ := json.Marshal(w)
	fmt.Println(string(b))
	c := &Ctx{Seed: rs, Verbose: true}
	t := time.Now()
	v, h := oneRun(p, w, c)
	for _, n := range c.Notes {
		fmt.Println(n)
	}
	if h != "" {
		fmt.Println("HARNESS", h)
	}
	if v != nil {
		fmt.Println("VIOLATION", v.Class, v.Detail)
	}
	fmt.Println("execs", c.Execs, "points", c.Points, "switches", c.Switches, "wall", time.Since(t), "hash", c.Hash, "stats", c.Stats, "simulated", time.Duration(int64(c.SimNS)))
	c2 := &Ctx{Seed: rs, Replay: true, Traces: c.Recorded}
	v2, _ := oneRun(p, w, c2)
	fmt.Println("replay hash", c2.Hash, "same", c2.Hash == c.Hash, "violation", v2 != nil)
}

func worker(p *Prop, thorough bool, seed int64, start, stride, count int, secs float64, progress string) {
	begin := time.Now()
	out := json.NewEncoder(os.Stdout)
	b := &Batch{Stats: map[string]int64{}}
	il := map[uint64]bool{}
	cases := map[uint64]bool{}
	var pf *os.File
	if progress != "" {
		pf, _ = os.Create(progress)
	}
	for i := start; i < count; i += stride {
		if secs > 0 && time.Since(begin).Seconds() > secs {
			break
		}
		rs := runSeed(seed, p.ID, i)
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		w := genWorkload(p, rs, i, thorough)
		c := &Ctx{Seed: rs}
		v, h := oneRun(p, w, c)
		if h != "" {
			fmt.Fprintf(os.Stderr, "harness failure in run %d: %s\n", i, h)
			os.Exit(4)
		}
		b.Runs++
		b.Execs += c.Execs
		b.SimNS += c.SimNS
		b.Points += c.Points
		b.Switches += c.Switches
		b.Hash += simrt.Hash64(c.Hash, uint64(i))
		for k, n := range c.Stats {
			b.Stats[k] += n
		}
		for _, x := range c.ILHashes {
			il[x] = true
		}
		if !c.Trivial {
			b.Nontriv++
			if len(c.Distinct) > 0 {
				for _, d := range c.Distinct {
					cases[d] = true
				}
			} else {
				wb, _ := json.Marshal(w)
				cases[simrt.Hash64(simrt.HashString(string(wb)), c.Hash)] = true
			}
		}
		// determinism: now and then the same run again from its recorded schedule
		if i%97 == 0 && v == nil {
			c2 := &Ctx{Seed: rs, Replay: true, Traces: c.Recorded}
			oneRun(p, w, c2)
			b.Stats["self-replays"]++
			if c2.Hash != c.Hash {
				b.Unstable++
				fmt.Fprintf(os.Stderr, "run %d does not replay identically\n", i)
			}
		}
		if len(b.Samples) < 1 && !c.Trivial {
			wb, _ := json.Marshal(w)
			b.Samples = append(b.Samples, fmt.Sprintf("run %d seed %d: %s", i, rs, wb))
		}
		if v != nil {
			b.flush(il, cases)
			out.Encode(map[string]interface{}{"result": &RunResult{Run: i, Seed: rs, V: v, W: w, Traces: c.Recorded, Hash: c.Hash}})
			if known := knownFinding(p.ID, v); known == "" {
				break
			}
		}
	}
	b.flush(il, cases)
	b.Done = true
	out.Encode(map[string]interface{}{"batch": b})
}

func (b *Batch) flush(il, cases map[uint64]bool) {
	b.IL, b.Cases = nil, nil
	for k := range il {
		b.IL = append(b.IL, k)
	}
	for k := range cases {
		b.Cases = append(b.Cases, k)
	}
}

type message struct {
	Result *RunResult `json:"result"`
	Batch  *Batch     `json:"batch"`
}

// startWorker runs a worker subprocess and collects its messages.
func startWorker(args []string, timeout time.Duration) (msgs []message, stderr string, err error) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, append([]string{"worker"}, args...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	op, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	tm := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	defer tm.Stop()
	sc := bufio.NewReaderSize(op, 1<<20)
	dec := json.NewDecoder(sc)
	for {
		var m message
		if e := dec.Decode(&m); e != nil {
			break
		}
		msgs = append(msgs, m)
	}
	err = cmd.Wait()
	return msgs, eb.String(), err
}

func knownFinding(prop string, v *Violation) string {
	for _, k := range knownList {
		if k.prop == prop && strings.Contains(v.Class+"|"+v.Detail, k.match) {
			return k.text
		}
	}
	return ""
}

type known struct{ prop, match, text string }

var knownList []known

// loadKnown reads /verif/known-findings.txt:  known: property=ID match="..." text
func loadKnown(root string) {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		f := strings.SplitN(l, " ", 2)
		if len(f) < 2 || !strings.HasPrefix(f[1], "match=\"") {
			continue
		}
		rest := strings.TrimPrefix(f[1], "match=\"")
		i := strings.Index(rest, "\"")
		if i < 0 {
			continue
		}
		knownList = append(knownList, known{f[0], rest[:i], strings.TrimSpace(rest[i+1:])})
	}
}

func init() {
	r := os.Getenv("VERIF_ROOT")
	if r == "" {
		r = "/verif"
	}
	loadKnown(r)
}

func runCheck(p *Prop, tier string, seed int64, root string, procs, count int, secs float64) int {
	if p == nil {
		fmt.Println("no such property")
		return 2
	}
	begin := time.Now()
	n := p.Quick
	limit := 100.0
	if tier == "thorough" {
		n = p.Thorough
		if n == 0 {
			n = p.Quick * 40
		}
		limit = 3000
	}
	if count > 0 {
		n = count
	}
	if secs > 0 {
		limit = secs
	}
	tmp, _ := os.MkdirTemp("", "simcheck")
	defer os.RemoveAll(tmp)
	var mu sync.Mutex
	var wg sync.WaitGroup
	var results []*RunResult
	var batches []*Batch
	var problems []string
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			prog := filepath.Join(tmp, fmt.Sprint("p", k))
			st := k
			for st < n {
				args := []string{"-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-start", fmt.Sprint(st), "-stride", fmt.Sprint(procs), "-count", fmt.Sprint(n), "-secs", fmt.Sprint(limit), "-progress", prog}
				msgs, serr, err := startWorker(args, time.Duration((limit+120)*float64(time.Second)))
				mu.Lock()
				ok := false
				for _, m := range msgs {
					if m.Result != nil {
						results = append(results, m.Result)
					}
					if m.Batch != nil {
						batches = append(batches, m.Batch)
						ok = true
					}
				}
				mu.Unlock()
				if ok {
					if serr != "" {
						mu.Lock()
						if strings.Contains(serr, "harness failure") {
							problems = append(problems, serr)
						} else {
							fmt.Fprintln(os.Stderr, "note:", serr)
						}
						mu.Unlock()
					}
					break
				}
				// the worker died: which run was it, and does it die again?
				b, _ := os.ReadFile(prog)
				run := -1
				fmt.Sscan(string(b), &run)
				if run < 0 {
					mu.Lock()
					problems = append(problems, "worker failed to start: "+serr+fmt.Sprint(err))
					mu.Unlock()
					break
				}
				m2, serr2, _ := startWorker([]string{"-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-start", fmt.Sprint(run), "-stride", "1", "-count", fmt.Sprint(run + 1)}, 60*time.Second)
				died := true
				for _, m := range m2 {
					if m.Batch != nil {
						died = false
					}
				}
				mu.Lock()
				if died && !strings.Contains(serr2, "harness failure") {
					rs := runSeed(seed, p.ID, run)
					results = append(results, &RunResult{Run: run, Seed: rs, V: bad("host-crash", "the host process itself died (not a modelled crash): %s", tail(serr2, 1500)), W: genWorkload(p, rs, run, tier == "thorough")})
					mu.Unlock()
					break
				}
				problems = append(problems, fmt.Sprintf("worker died in run %d: %s", run, tail(serr2+serr, 3000)))
				mu.Unlock()
				st = run + procs
			}
		}(k)
	}
	wg.Wait()
	searchWall := time.Since(begin).Seconds()

	// merge
	tot := &Batch{Stats: map[string]int64{}}
	il := map[uint64]bool{}
	cases := map[uint64]bool{}
	for _, b := range batches {
		tot.Runs += b.Runs
		tot.Execs += b.Execs
		tot.Nontriv += b.Nontriv
		tot.SimNS += b.SimNS
		tot.Points += b.Points
		tot.Switches += b.Switches
		tot.Hash += b.Hash
		tot.Unstable += b.Unstable
		for k, v := range b.Stats {
			tot.Stats[k] += v
		}
		for _, x := range b.IL {
			il[x] = true
		}
		for _, x := range b.Cases {
			cases[x] = true
		}
		if len(tot.Samples) < 3 {
			tot.Samples = append(tot.Samples, b.Samples...)
		}
	}
	sort.Slice(results, func(i, j int) bool { return results[i].Run < results[j].Run })
	var viol *RunResult
	knownSeen := map[string]int{}
	for _, r := range results {
		if k := knownFinding(p.ID, r.V); k != "" {
			knownSeen[k]++
			continue
		}
		if viol == nil {
			viol = r
		}
	}
	for _, k := range knownList {
		if k.prop == p.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", p.ID, k.text, knownSeen[k.text])
		}
	}
	rc := 0
	nviol := 0
	if viol != nil {
		nviol = 1
		rc = 1
		path := filepath.Join(root, "replay", fmt.Sprintf("%s-%d.json", p.ID, viol.Run))
		os.MkdirAll(filepath.Dir(path), 0777)
		rf := &ReplayFile{Property: p.ID, Violation: viol.V, Seed: viol.Seed, Run: viol.Run, VerifSeed: seed, Workload: viol.W, Traces: viol.Traces, Hash: viol.Hash}
		if viol.Traces == nil {
			rf.Free = true
		}
		writeJSON(path, rf)
		if !rf.Free {
			exe, _ := os.Executable()
			mt := 25.0
			if tier == "thorough" {
				mt = 120
			}
			cmd := exec.Command(exe, "minimise", "-secs", fmt.Sprint(mt), path, path+".min")
			tm := time.AfterFunc(time.Duration(mt+60)*time.Second, func() {
				if cmd.Process != nil {
					cmd.Process.Kill()
				}
			})
			cmd.Run()
			tm.Stop()
			if m, err := readReplay(path + ".min"); err == nil {
				rp := exec.Command(exe, "replay", path+".min")
				o, _ := rp.Output()
				if rp.ProcessState != nil && rp.ProcessState.ExitCode() == 1 {
					os.Rename(path+".min", path)
					rf = m
					_ = o
				} else {
					fmt.Printf("note: the minimised replay was not stable and was dropped\n")
				}
			}
			os.Remove(path + ".min")
			rp := exec.Command(exe, "replay", path)
			rp.Run()
			if rp.ProcessState == nil || rp.ProcessState.ExitCode() != 1 {
				fmt.Printf("note: the recorded schedule does not reproduce the violation in a fresh process\n")
			}
		}
		fmt.Printf("violation of %s in run %d (seed %d): %s\n%s\n", p.ID, viol.Run, viol.Seed, rf.Violation.Class, rf.Violation.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	for _, s := range problems {
		fmt.Fprintln(os.Stderr, "problem:", s)
		if rc == 0 {
			rc = 2
		}
	}
	if tot.Unstable > 0 && rc == 0 {
		fmt.Fprintln(os.Stderr, "some runs did not replay identically")
	}
	wall := time.Since(begin).Seconds()
	faults := map[string]int64{}
	other := map[string]int64{}
	for k, v := range tot.Stats {
		if strings.HasPrefix(k, "fault-") || k == "stall" || k == "clock-jump" || k == "map-order" || strings.HasPrefix(k, "inject-") || strings.HasPrefix(k, "crash-") {
			faults[k] = v
		} else {
			other[k] = v
		}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nviol,
		"coverage": map[string]interface{}{
			"evaluations":            tot.Execs,
			"distinct_nontrivial":    len(cases),
			"rule":                   p.Rule,
			"samples":                tot.Samples,
			"runs":                   tot.Runs,
			"runs_planned":           n,
			"runs_per_hour":          int64(float64(tot.Runs) / searchWall * 3600),
			"executions_per_hour":    int64(float64(tot.Execs) / searchWall * 3600),
			"simulated_seconds":      tot.SimNS / 1e9,
			"scheduling_points":      tot.Points,
			"task_switches":          tot.Switches,
			"distinct_interleavings": len(il),
			"interleaving_measure":   "hash of the sequence of task switches and of (task, kind) of synchronisation operations in each execution",
			"faults_injected":        faults,
			"counters":               other,
			"self_replays":           tot.Stats["self-replays"],
			"self_replays_unstable":  tot.Unstable,
			"run_digest":             fmt.Sprintf("%016x", tot.Hash),
			"known_findings_met":     knownSeen,
			"real_code":              "every non-test Go file of package golisp in the working tree (rewritten), set.v0 and bufrr as they are",
			"stubs":                  append([]string{"goroutine scheduler, channels, locks, timers, clocks, map order, files, console, processes and random numbers: simulator (simrt)", "goreadline (cgo line editor): scripted terminal"}, p.Stubs...),
		},
		"assumptions": []string{
			"code between two scheduling points runs atomically and memory is sequentially consistent",
			"Go's runtime behaves as simrt models it (locks, channels, timers, map access checks)",
			"the source rewriting preserves the meaning of the package",
		},
	}
	writeJSON(filepath.Join(root, "evidence", p.ID+".json"), ev)
	fmt.Printf("%s %s: %d runs, %d executions, %d distinct interleavings, %d distinct cases, %.1f s (%.0f s simulated), digest %016x, exit %d\n", p.ID, tier, tot.Runs, tot.Execs, len(il), len(cases), wall, tot.SimNS/1e9, tot.Hash, rc)
	return rc
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func writeJSON(path string, v interface{}) {
	os.MkdirAll(filepath.Dir(path), 0777)
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	os.WriteFile(path, append(b, '\n'), 0666)
}

func readReplay(path string) (*ReplayFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := &ReplayFile{}
	return r, json.Unmarshal(b, r)
}

// replay re-executes a replay file; exit 1 when the violation comes back.
func replay(path string, verbose bool) int {
	r, err := readReplay(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	p := props[r.Property]
	c := &Ctx{Seed: r.Seed, Replay: !r.Free, Traces: r.Traces, Verbose: verbose}
	v, h := oneRun(p, r.Workload, c)
	for _, n := range c.Notes {
		fmt.Println(n)
	}
	if h != "" {
		fmt.Println("harness failure:", h)
		return 2
	}
	if v == nil {
		fmt.Println("the violation does not occur")
		return 0
	}
	fmt.Printf("%s: %s\nhistory hash %d (recorded %d)\n", v.Class, v.Detail, c.Hash, r.Hash)
	if v.Class != r.Violation.Class || (r.Hash != 0 && c.Hash != r.Hash) {
		fmt.Println("differs from the recorded violation")
		return 3
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}
