package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"

	gjs "github.com/xeipuuv/gojsonschema"

	"verifsim/gen"
	"verifsim/plan"
	"verifsim/rt"
)

// WorkerArgs configure a worker process.
type WorkerArgs struct {
	Prop   string
	Seed   uint64
	From   int64
	Step   int64
	Runs   int64 // 0 = until the time is over
	Min    int64 // and at least so many
	Dur    time.Duration
	Out    string // statistics
	State  string // run being executed
	Hashes string
}

// RunSeed derives the seed of run i.
func RunSeed(prop string, seed uint64, i int64) uint64 {
	r := gen.New(hashStr(prop) ^ seed*0x9e3779b97f4a7c15)
	r = gen.New(r.U() ^ uint64(i)*0xd1342543de82ef95)
	return r.U()
}

// Result of a worker.
type Result struct {
	Stats  *plan.Stats  `json:"stats"`
	Record *plan.Record `json:"record,omitempty"`
	Stall  string       `json:"stall,omitempty"`
}

func trace(h []rt.Switch) []plan.Switch {
	var out []plan.Switch
	for _, s := range h {
		out = append(out, plan.Switch{Step: s.Step, To: s.To})
	}
	return out
}

// Work runs seeds until time, count or a violation ends it.
func Work(a WorkerArgs) *Result {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	defer Cleanup()
	res := &Result{Stats: stats}
	start := time.Now()
	var st *os.File
	if a.State != "" {
		st, _ = os.Create(a.State)
	}
	stop := make(chan os.Signal, 1)
	signal.Notify(stop, syscall.SIGTERM)
	seen := map[uint64]bool{}
	var buf [8]byte
	for n, i := int64(0), a.From; a.Runs == 0 || n < a.Runs; n, i = n+1, i+a.Step {
		select {
		case <-stop:
			a.Runs = 1
			continue
		default:
		}
		// a slow machine gets more time, so that it covers as much
		if t := time.Since(start); a.Runs == 0 && t > a.Dur && (n >= a.Min || t > 6*a.Dur) {
			break
		}
		if st != nil {
			binary.LittleEndian.PutUint64(buf[:], uint64(i))
			st.WriteAt(buf[:], 0)
		}
		p := Generate(a.Prop, RunSeed(a.Prop, a.Seed, i))
		runHash = 0xcbf29ce484222325
		v, skip := Check(p)
		stats.Runs++
		stats.RunHash = stats.RunHash*0x100000001b3 ^ runHash
		if skip != "" {
			stats.Skipped++
			if len(skip) > 60 {
				skip = skip[:60]
			}
			stats.SkipWhy[skip]++
			if skip == "stalled" {
				res.Stall = fmt.Sprintf("run %d stalled", i)
				break
			}
		} else {
			if !seen[runHash] {
				seen[runHash] = true
				stats.Nontrivial++
			}
			if len(stats.Samples) < 2 && v == nil && n >= 3 {
				b, _ := json.Marshal(p)
				if len(b) < 6000 {
					stats.Samples = append(stats.Samples, string(b))
				}
			}
		}
		if v != nil {
			res.Record = &plan.Record{Plan: p, Violation: v, Run: i, Hash: runHash}
			break
		}
	}
	finishStats()
	if a.Hashes != "" {
		b := make([]byte, 0, 8*len(seen))
		for h := range seen {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(a.Hashes, b, 0o644)
	}
	return res
}

func finishStats() {
	stats.Pairs = rt.PairCnt
	for i := range rt.Cov {
		if rt.Cov[i] > 0 && i >= 8 {
			stats.Sites = append(stats.Sites, i)
		}
	}
	stats.SiteTotal = len(gjs.VerifSites)
}

// Replay decides one plan and returns what was observed.
func Replay(p *plan.Plan) *Result {
	runtime.GOMAXPROCS(1)
	defer Cleanup()
	runHash = 0xcbf29ce484222325
	lastSwitches = nil
	v, skip := Check(p)
	rec := &plan.Record{Plan: p, Violation: v, Hash: runHash}
	rec.Switches = trace(lastSwitches)
	if skip == "stalled" {
		return &Result{Stats: stats, Record: rec, Stall: skip}
	}
	return &Result{Stats: stats, Record: rec}
}
