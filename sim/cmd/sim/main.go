// Command sim is the worker: the instrumented library, the simulator and the
// scenarios in one process.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"verifsim/harness"
	"verifsim/plan"
)

func main() {
	var a harness.WorkerArgs
	var replay, show string
	var dur float64
	flag.StringVar(&a.Prop, "prop", "", "property")
	flag.Uint64Var(&a.Seed, "seed", 1, "seed")
	flag.Int64Var(&a.From, "from", 0, "first run")
	flag.Int64Var(&a.Step, "step", 1, "stride")
	flag.Int64Var(&a.Runs, "runs", 0, "number of runs")
	flag.Int64Var(&a.Min, "min", 0, "least number of runs")
	flag.Float64Var(&dur, "dur", 5, "seconds")
	flag.StringVar(&a.Out, "out", "", "result file")
	flag.StringVar(&a.State, "state", "", "state file")
	flag.StringVar(&a.Hashes, "hashes", "", "hash file")
	flag.StringVar(&replay, "replay", "", "decide the plan of this record")
	flag.StringVar(&show, "show", "", "print the plan of run -from")
	flag.Parse()
	a.Dur = time.Duration(dur * float64(time.Second))
	var res *harness.Result
	switch {
	case show != "":
		b, _ := json.MarshalIndent(harness.Generate(a.Prop, harness.RunSeed(a.Prop, a.Seed, a.From)), "", " ")
		fmt.Println(string(b))
		return
	case replay != "":
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rec plan.Record
		if err := json.Unmarshal(b, &rec); err != nil || rec.Plan == nil {
			fmt.Fprintln(os.Stderr, "bad replay file", err)
			os.Exit(2)
		}
		res = harness.Replay(rec.Plan)
	default:
		res = harness.Work(a)
	}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if a.Out != "" {
		os.WriteFile(a.Out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}
