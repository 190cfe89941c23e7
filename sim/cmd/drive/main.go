// Command drive runs one check: it builds the simulator from /repo's working
// tree, searches seeds on all cores, reproduces and minimises a violation in
// fresh processes, and writes evidence. It does not link the library.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/plan"
)

type result struct {
	Stats  *plan.Stats  `json:"stats"`
	Record *plan.Record `json:"record,omitempty"`
	Stall  string       `json:"stall,omitempty"`
}

var (
	root     string
	work     string
	prop     string
	tier     string
	seed     uint64
	binPlain string
	binRace  string
	start    = time.Now()
)

// racy properties also run under the race detector.
var racy = map[string]bool{"C01": true, "C10": true, "C11": true, "C12": true, "C18": true}

// minRuns is covered even on a slow machine, time permitting.
var minRuns = map[string]int64{"C01": 12000, "C02": 48000, "C03": 70000, "C04": 45000, "C05": 39000, "C06": 20000, "C07": 28000, "C08": 38000,
	"C09": 43000, "C10": 12000, "C11": 12000, "C12": 150000, "C13": 29000, "C14": 30000, "C15": 150000, "C16": 30000, "C18": 20000, "C21": 30000}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check %s: %s\n", prop, fmt.Sprintf(f, a...))
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if work != "" {
		os.RemoveAll(work)
	}
}

func main() {
	var replay, dur string
	flag.StringVar(&root, "root", "/verif", "framework directory")
	flag.StringVar(&prop, "prop", "", "property")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&replay, "replay", "", "replay this file instead of searching")
	flag.StringVar(&dur, "dur", "", "seconds of search")
	flag.Parse()
	seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = n
		} else {
			for _, c := range s {
				seed = seed*131 + uint64(c)
			}
		}
	}
	var err error
	work, err = os.MkdirTemp("", "verifdrive")
	if err != nil {
		fatal("%v", err)
	}
	if replay != "" {
		os.Exit(replayFile(replay))
	}
	build()
	built := time.Since(start).Seconds()
	d := 40.0
	if tier == "thorough" {
		d = 780
	}
	if dur != "" {
		d, _ = strconv.ParseFloat(dur, 64)
	}
	os.Exit(search(d, built))
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

// build instruments the library and compiles the worker.
func build() {
	sim := filepath.Join(root, "sim")
	run := func(args ...string) error {
		c := exec.Command("go", args...)
		c.Dir = sim
		c.Env = goEnv()
		var b bytes.Buffer
		c.Stdout, c.Stderr = &b, &b
		if err := c.Run(); err != nil {
			return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, b.String())
		}
		return nil
	}
	var last error
	for _, level := range []string{"3", "2", "1"} {
		if last = run("run", "./instr", "-sim", sim, "-out", filepath.Join(work, "src"), "-level", level); last != nil {
			continue
		}
		ov := filepath.Join(work, "src", "overlay.json")
		binPlain = filepath.Join(work, "sim")
		var wg sync.WaitGroup
		var e1, e2 error
		wg.Add(1)
		go func() { defer wg.Done(); e1 = run("build", "-overlay", ov, "-o", binPlain, "./cmd/sim") }()
		if racy[prop] {
			binRace = filepath.Join(work, "simrace")
			wg.Add(1)
			go func() { defer wg.Done(); e2 = run("build", "-race", "-overlay", ov, "-o", binRace, "./cmd/sim") }()
		}
		wg.Wait()
		if e1 == nil && e2 == nil {
			if level != "3" {
				fmt.Printf("note: the library could only be instrumented at level %s\n", level)
			}
			return
		}
		if last = e1; last == nil {
			last = e2
		}
	}
	fatal("build failed: %v", last)
}

func workerEnv(i int, tag string) []string {
	return append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single",
		"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(work, fmt.Sprintf("race.%s.%d", tag, i)))
}

func isRace(i int) bool { return binRace != "" && i%8 < 5 }

func binOf(race bool) string {
	if race {
		return binRace
	}
	return binPlain
}

type worker struct {
	i      int
	race   bool
	cmd    *exec.Cmd
	out    string
	state  string
	hashes string
	errb   bytes.Buffer
	err    error
	res    *result
	step   int
}

func search(dur, built float64) int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	var ws []*worker
	done := make(chan *worker, n)
	for i := 0; i < n; i++ {
		w := &worker{i: i, race: isRace(i), step: n, out: filepath.Join(work, fmt.Sprintf("out.%d", i)), state: filepath.Join(work, fmt.Sprintf("state.%d", i)), hashes: filepath.Join(work, fmt.Sprintf("hash.%d", i))}
		w.cmd = exec.Command(binOf(w.race), "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i), "-step", fmt.Sprint(n), "-dur", fmt.Sprint(dur), "-min", fmt.Sprint(minRuns[prop]/int64(n)), "-out", w.out, "-state", w.state, "-hashes", w.hashes)
		w.cmd.Env = workerEnv(i, "w")
		w.cmd.Stderr = &w.errb
		ws = append(ws, w)
		if err := w.cmd.Start(); err != nil {
			fatal("cannot start worker: %v", err)
		}
		go func() { w.err = w.cmd.Wait(); done <- w }()
	}
	limit := time.After(time.Duration(6*dur)*time.Second + 5*time.Minute)
	left := n
	var bad *worker
	stop := func() {
		for _, w := range ws {
			w.cmd.Process.Signal(syscall.SIGTERM)
		}
	}
	for left > 0 {
		select {
		case w := <-done:
			left--
			w.load()
			if bad == nil && (w.err != nil || w.res == nil || w.res.Record != nil) {
				bad = w
				stop()
				go func() {
					time.Sleep(60 * time.Second)
					for _, w := range ws {
						w.cmd.Process.Kill()
					}
				}()
			}
		case <-limit:
			for _, w := range ws {
				w.cmd.Process.Kill()
			}
			fatal("a worker does not end")
		}
	}
	searched := time.Since(start).Seconds() - built
	// the earliest run among the violations found is reported
	for _, w := range ws {
		if w.res != nil && w.res.Record != nil && (bad == nil || bad.res == nil || bad.res.Record == nil || w.res.Record.Run < bad.res.Record.Run) {
			bad = w
		}
	}
	if bad == nil {
		for _, w := range ws {
			if w.res.Stall != "" {
				if rec := serially(w); rec != nil {
					w.res.Record = rec
					bad = w
					break
				}
				fatal("the simulation stalled (%s): a blocking operation escapes the simulator", w.res.Stall)
			}
		}
	}
	if bad == nil {
		det := determinism(n)
		writeEvidence(ws, built, searched, det, nil)
		tot := merge(ws)
		if tot.Runs == 0 || tot.Skipped >= tot.Runs {
			fatal("no run was decided: %v", tot.SkipWhy)
		}
		fmt.Printf("OK property=%s tier=%s seed=%d runs=%d decided=%d steps=%d sim_time=%s wall=%.0fs determinism=%v\n", prop, tier, seed, tot.Runs, tot.Runs-tot.Skipped, tot.Steps, time.Duration(tot.SimNS), time.Since(start).Seconds(), det["equal"])
		cleanup()
		return 0
	}
	rp := report(bad, ws)
	writeEvidence(ws, built, searched, nil, rp)
	fmt.Printf("%s: %s\n%s\n", rp.Violation.Prop, rp.Violation.Class, rp.Violation.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp.path)
	cleanup()
	return 1
}

// serially repeats a run that stalled, one task after the other. A call that
// then still makes no progress waits for no other call: it hangs.
func serially(w *worker) *plan.Record {
	var run int64
	if _, err := fmt.Sscanf(w.res.Stall, "run %d", &run); err != nil {
		return nil
	}
	x, err := exec.Command(binOf(w.race), "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(run), "-show", "1").Output()
	var p plan.Plan
	if err != nil || json.Unmarshal(x, &p) != nil {
		return nil
	}
	p.Sched.Serial = true
	v, rec, _ := try(&p, w.race, "serial")
	if v == nil || rec == nil || v.Class != "hang" {
		return nil
	}
	rec.Plan, rec.Violation, rec.Run = &p, v, run
	return rec
}

func (w *worker) load() {
	b, err := os.ReadFile(w.out)
	if err != nil {
		return
	}
	var r result
	if json.Unmarshal(b, &r) == nil {
		w.res = &r
	}
}

// replayed is a replay file.
type replayed struct {
	Property  string          `json:"property"`
	Violation *plan.Violation `json:"violation"`
	Seed      uint64          `json:"seed"`
	Run       int64           `json:"run"`
	Race      bool            `json:"race_build"`
	// Mode plan: Plan alone shows the violation. Mode sequence: the runs
	// From, From+Step, ... Run of one process do.
	Mode     string     `json:"mode"`
	From     int64      `json:"from,omitempty"`
	Step     int64      `json:"step,omitempty"`
	Plan     *plan.Plan `json:"plan"`
	Original *plan.Plan `json:"original_plan,omitempty"`
	Shrunk   string     `json:"shrunk,omitempty"`
	Report   string     `json:"report,omitempty"`
	path     string
}

// try executes a plan in a fresh process and returns the violation.
func try(p *plan.Plan, race bool, tag string) (*plan.Violation, *plan.Record, string) {
	f := filepath.Join(work, "try."+tag+".json")
	out := filepath.Join(work, "try."+tag+".out")
	os.Remove(out)
	b, _ := json.Marshal(&plan.Record{Plan: p})
	os.WriteFile(f, b, 0o644)
	logs := filepath.Join(work, "race.try."+tag)
	c := exec.Command(binOf(race), "-replay", f, "-out", out)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+logs)
	var eb bytes.Buffer
	c.Stderr = &eb
	t := time.AfterFunc(150*time.Second, func() { c.Process.Kill() })
	err := c.Run()
	t.Stop()
	rep := ""
	ms, _ := filepath.Glob(logs + ".*")
	for _, m := range ms {
		x, _ := os.ReadFile(m)
		rep += string(x)
		os.Remove(m)
	}
	if err != nil {
		return crashed(p.Prop, eb.String(), err), nil, eb.String()
	}
	x, err := os.ReadFile(out)
	if err != nil {
		return nil, nil, rep
	}
	var r result
	if json.Unmarshal(x, &r) != nil || r.Record == nil {
		return nil, nil, rep
	}
	return r.Record.Violation, r.Record, rep
}

func crashed(prop, stderr string, err error) *plan.Violation {
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return nil // killed from outside
		}
	}
	if len(stderr) > 4000 {
		stderr = stderr[:4000]
	}
	return &plan.Violation{Prop: prop, Class: "crash", Msg: "the process died: " + stderr}
}

func report(w *worker, ws []*worker) *replayed {
	rp := &replayed{Property: prop, Seed: seed, Race: w.race, Mode: "plan"}
	rec := (*plan.Record)(nil)
	if w.res != nil {
		rec = w.res.Record
	}
	if rec == nil { // the process died: which run was it?
		b, err := os.ReadFile(w.state)
		if err != nil || len(b) < 8 {
			fatal("worker died: %v\n%s", w.err, w.errb.String())
		}
		run := int64(binary.LittleEndian.Uint64(b))
		c := exec.Command(binOf(w.race), "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(run), "-show", "1")
		x, err := c.Output()
		var p plan.Plan
		if err != nil || json.Unmarshal(x, &p) != nil {
			fatal("worker died: %v\n%s", w.err, w.errb.String())
		}
		v := crashed(prop, w.errb.String(), w.err)
		if v == nil {
			fatal("worker was ended: %v\n%s", w.err, w.errb.String())
		}
		rec = &plan.Record{Plan: &p, Violation: v, Run: run}
	}
	rp.Run = rec.Run
	rp.Plan = rec.Plan
	rp.Violation = rec.Violation
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0o755)
	rp.path = filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, rec.Run))
	var v *plan.Violation
	var r2 *plan.Record
	for k := 0; k < 10 && v == nil; k++ {
		v, r2, rp.Report = try(rec.Plan, w.race, "first")
	}
	if v == nil || (v.Class != rec.Violation.Class && rec.Violation.Class != "crash") {
		// it needs the runs before it
		rp.Mode, rp.From, rp.Step = "sequence", int64(w.i), int64(w.step)
		if !trySequence(rp) && !trySequence(rp) {
			// the library now depends on something the simulator does not decide
			rp.Shrunk = "did not show itself again: the library uses a source of nondeterminism the simulator does not control"
			rp.Violation.Msg += "\n(" + rp.Shrunk + ")"
		}
		rp.save()
		return rp
	}
	rp.Original = rec.Plan
	budget := 60 * time.Second
	if tier == "thorough" {
		budget = 240 * time.Second
	}
	m := &minimiser{race: w.race, class: v.Class, until: time.Now().Add(budget)}
	p := m.minimise(rec.Plan, r2)
	rp.Plan = p
	rp.Shrunk = m.summary(rec.Plan, p)
	v2, _, rep := try(p, w.race, "final")
	if v2 == nil || v2.Class != v.Class {
		rp.Plan, v2, rp.Shrunk = rec.Plan, v, "not shrunk"
	} else {
		rp.Report = rep
	}
	rp.Violation = v2
	rp.save()
	return rp
}

func (rp *replayed) save() {
	b, _ := json.MarshalIndent(rp, "", " ")
	os.WriteFile(rp.path, b, 0o644)
}

func trySequence(rp *replayed) bool {
	out := filepath.Join(work, "seq.out")
	n := (rp.Run-rp.From)/rp.Step + 1
	c := exec.Command(binOf(rp.Race), "-prop", rp.Property, "-seed", fmt.Sprint(rp.Seed), "-from", fmt.Sprint(rp.From), "-step", fmt.Sprint(rp.Step), "-runs", fmt.Sprint(n), "-out", out)
	c.Env = workerEnv(0, "seq")
	var eb bytes.Buffer
	c.Stderr = &eb
	t := time.AfterFunc(15*time.Minute, func() { c.Process.Kill() })
	err := c.Run()
	t.Stop()
	if err != nil {
		if v := crashed(rp.Property, eb.String(), err); v != nil && rp.Violation.Class == "crash" {
			return true
		}
		return false
	}
	b, err := os.ReadFile(out)
	var r result
	if err != nil || json.Unmarshal(b, &r) != nil || r.Record == nil || r.Record.Violation == nil {
		return false
	}
	return r.Record.Run == rp.Run && r.Record.Violation.Class == rp.Violation.Class
}

func replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	var rp replayed
	if err := json.Unmarshal(b, &rp); err != nil || rp.Plan == nil {
		fatal("bad replay file: %v", err)
	}
	prop = rp.Property
	build()
	if rp.Mode == "sequence" {
		if trySequence(&rp) {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", rp.Violation.Msg, prop, f)
			cleanup()
			return 1
		}
		fmt.Println("the violation does not occur")
		cleanup()
		return 0
	}
	v, rec, rep := try(rp.Plan, rp.Race, "replay")
	if v == nil {
		fmt.Println("the violation does not occur")
		cleanup()
		return 0
	}
	if rec != nil {
		fmt.Printf("execution hash %x\n", rec.Hash)
	}
	fmt.Printf("%s: %s\n%s", v.Class, v.Msg, rep)
	fmt.Printf("\nVIOLATION property=%s replay=%s\n", prop, f)
	cleanup()
	return 1
}

// determinism executes the first runs again, in fresh processes and with
// another split, and compares the execution hashes.
func determinism(n int) map[string]interface{} {
	const k = 12
	type job struct {
		from, step, runs int64
		race             bool
	}
	jobs := []job{{0, 1, k, false}, {0, 1, k, false}}
	if binRace != "" {
		jobs = append(jobs, job{0, 1, k, true})
	}
	var hs []uint64
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			out := filepath.Join(work, fmt.Sprintf("det.%d", i))
			c := exec.Command(binOf(j.race), "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(j.from), "-step", fmt.Sprint(j.step), "-runs", fmt.Sprint(j.runs), "-out", out)
			c.Env = workerEnv(i, "det")
			if c.Run() != nil {
				return
			}
			b, _ := os.ReadFile(out)
			var r result
			if json.Unmarshal(b, &r) == nil && r.Stats != nil {
				mu.Lock()
				hs = append(hs, r.Stats.RunHash)
				mu.Unlock()
			}
		}(i, j)
	}
	wg.Wait()
	eq := len(hs) == len(jobs)
	for _, h := range hs {
		if h != hs[0] {
			eq = false
		}
	}
	return map[string]interface{}{"runs_repeated": k, "processes": len(jobs), "equal": eq}
}

func merge(ws []*worker) *plan.Stats {
	t := &plan.Stats{Faults: map[string]int64{}, Probes: map[string]int64{}, SkipWhy: map[string]int64{}}
	sites := map[int]bool{}
	for _, w := range ws {
		if w.res == nil || w.res.Stats == nil {
			continue
		}
		s := w.res.Stats
		t.Runs += s.Runs
		t.Skipped += s.Skipped
		t.Execs += s.Execs
		t.Ops += s.Ops
		t.Steps += s.Steps
		t.Preempts += s.Preempts
		t.MapIters += s.MapIters
		t.MapPerms += s.MapPerms
		t.SimNS += s.SimNS
		if s.Pairs > t.Pairs {
			t.Pairs = s.Pairs
		}
		for _, x := range s.Sites {
			sites[x] = true
		}
		t.SiteTotal = s.SiteTotal
		for k, v := range s.Faults {
			t.Faults[k] += v
		}
		for k, v := range s.Probes {
			t.Probes[k] += v
		}
		for k, v := range s.SkipWhy {
			t.SkipWhy[k] += v
		}
		if len(t.Samples) < 3 {
			t.Samples = append(t.Samples, s.Samples...)
		}
	}
	for x := range sites {
		t.Sites = append(t.Sites, x)
	}
	return t
}

func writeEvidence(ws []*worker, built, searched float64, det map[string]interface{}, rp *replayed) {
	t := merge(ws)
	distinct := map[uint64]bool{}
	raceRuns := int64(0)
	for _, w := range ws {
		b, _ := os.ReadFile(w.hashes)
		for len(b) >= 8 {
			distinct[binary.LittleEndian.Uint64(b)] = true
			b = b[8:]
		}
		if w.race && w.res != nil && w.res.Stats != nil {
			raceRuns += w.res.Stats.Runs
		}
	}
	var samples []interface{}
	for _, s := range t.Samples {
		if len(samples) < 3 {
			samples = append(samples, json.RawMessage(s))
		}
	}
	if len(samples) == 0 && rp != nil {
		samples = append(samples, rp.Plan)
	}
	if len(samples) == 0 {
		samples = append(samples, "no run short enough to print")
	}
	hours := searched / 3600
	in := info[prop]
	cov := map[string]interface{}{
		"evaluations":         t.Runs,
		"distinct_nontrivial": len(distinct),
		"rule":                "one evaluation = one seeded run (plan generated, executed on the real library under the simulator, decided by the oracle). " + in.rule + " Non-trivial: the oracle reached a decision (the run was not skipped); distinct: different hash over schedule decisions, I/O events and results.",
		"samples":             samples,
		"executions":          t.Execs,
		"operations":          t.Ops,
		"runs_undecided":      t.Skipped,
		"undecided_reasons":   top(t.SkipWhy, 12),
		"runs_per_hour":       int64(float64(t.Runs) / hours),
		"seeds_per_hour":      int64(float64(t.Runs) / hours),
		"simulated_seconds":   float64(t.SimNS) / 1e9,
		"simulated_steps":     t.Steps,
		"faults_injected":     t.Faults,
		"map_iterations":      t.MapIters,
		"map_permutations":    t.MapPerms,
		"preemptions":         t.Preempts,
		"interleaving_measure": map[string]interface{}{
			"measure": "distinct (preempted statement, resumed statement) pairs, largest over workers (fingerprint set of 2^18)",
			"pairs":   t.Pairs,
		},
		"statements_reached": len(t.Sites),
		"statements_total":   t.SiteTotal,
		"probes":             t.Probes,
		"race_detector_runs": raceRuns,
		"workers":            len(ws),
		"build_seconds":      built,
		"search_seconds":     searched,
		"real_code":          in.real,
		"stubs":              in.stub,
	}
	if det != nil {
		cov["determinism_selftest"] = det
	}
	nv := 0
	if rp != nil {
		nv = 1
		cov["violation"] = map[string]interface{}{"class": rp.Violation.Class, "msg": rp.Violation.Msg, "replay": rp.path, "run": rp.Run, "shrunk": rp.Shrunk}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": in.assume, "wall_s": time.Since(start).Seconds(), "violations": nv,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("evidence: %v", err)
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644); err != nil {
		fatal("evidence: %v", err)
	}
}

func top(m map[string]int64, n int) map[string]int64 {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] || m[ks[i]] == m[ks[j]] && ks[i] < ks[j] })
	out := map[string]int64{}
	for i, k := range ks {
		if i < n {
			out[k] = m[k]
		}
	}
	return out
}
