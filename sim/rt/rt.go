// Package rt is the simulator runtime that the instrumented library is linked
// against. It owns every source of nondeterminism inside the process: which
// task runs next (at every statement of the library), the order of every map
// iteration, blocking on sync primitives, and the clock. Exactly one task runs
// at any time; hand-offs between tasks are hidden from the race detector so
// that it sees only the synchronisation the library itself performs.
package rt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
	"unsafe"
)

const (
	MaxTasks = 64
	MaxSites = 1 << 14
)

// Switch is one scheduling decision: at global step Step, run task To.
type Switch struct {
	Step int64 `json:"s"`
	To   int   `json:"t"`
}

// Config decides one execution completely.
type Config struct {
	SchedSeed uint64
	Gap       int // mean number of steps between preemptions, 0 = none
	Hot       int // percent of preemptions at sites that touch shared state
	Explicit  []Switch
	UseExpl   bool
	MapSeed   uint64 // 0 = sorted order everywhere
	MapOnly   map[int64]bool
	Budget    int64 // steps allowed in total
	LoopMax   int32 // iterations allowed in one activation of a loop
}

// Outcome describes an execution.
type Outcome struct {
	Steps     int64
	Switches  []Switch
	Deadlock  string
	Panics    []*Panic // per task, nil if none
	Hash      uint64
	MapIters  int64
	MapPerm   int64
	SimTime   time.Duration
	Preempted int64
	Stalled   bool
}

// Panic is a panic that left a task.
type Panic struct {
	Val   string
	Stack string
	// Budget: the step budget was exhausted.
	Budget bool
}

type budgetPanic struct{}

func (budgetPanic) Error() string { return "step budget exhausted" }

type task struct {
	id       int
	own      int // the task that started it, or that one's
	wake     chan struct{}
	state    int8 // 0 runnable, 1 blocked, 2 done
	on       unsafe.Pointer
	lastSite int32
	iters    int64
	why      string
}

var (
	active   bool
	tasks    [MaxTasks]*task
	ntasks   int
	nmain    int // tasks that were not started by others
	cur      int
	steps    int64
	next     int64 // step of next preemption, -1 none
	cfg      Config
	rng      uint64
	hash     uint64
	expl     int
	swBuf    [1 << 17]Switch
	nsw      int
	budget   int64
	mapIters int64
	mapPerm  int64
	preempts int64
	fin      chan bool
	wg       *sync.WaitGroup
	simNow   int64
	panics   [MaxTasks]*Panic

	// Cov counts hits of each instrumented site since process start.
	Cov [MaxSites]uint32
	// PairSet is a fixed-size fingerprint set of preemption pairs since start.
	PairSet [1 << 18]bool
	PairCnt int
)

//go:norace
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func draw() uint64 {
	rng += 0x9e3779b97f4a7c15
	x := rng
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func note(x uint64) { hash = (hash ^ x) * 0x100000001b3 }

//go:norace
func schedNext() {
	if cfg.UseExpl {
		next = -1
		for expl < len(cfg.Explicit) {
			if cfg.Explicit[expl].Step > steps {
				next = cfg.Explicit[expl].Step
				return
			}
			expl++
		}
		return
	}
	if cfg.Gap <= 0 {
		next = -1
		return
	}
	next = steps + 1 + int64(draw()%uint64(2*cfg.Gap))
}

// Y is the yield point inserted before every statement of the library.
//
//go:norace
func Y(site int32) {
	if !active {
		return
	}
	steps++
	Cov[site]++
	tasks[cur].lastSite = site
	if next >= 0 && steps >= next {
		preempt(site)
	}
	if steps > budget {
		if Depth == 0 {
			Depth = depth()
		}
		panic(budgetPanic{})
	}
}

// H is the yield point next to statements that touch shared state.
//
//go:norace
func H(site int32) {
	if active && cfg.Hot > 0 && !cfg.UseExpl && int(draw()%100) < cfg.Hot {
		next = steps
	}
	Y(site)
}

// Looped: one activation of a loop exceeded LoopMax, which is far more than
// all data the library can loop over.
var Looped bool

// Loop counts the iterations of one activation of a loop of the library.
//
//go:norace
func Loop(n *int32) {
	if !active {
		return
	}
	*n++
	if *n > cfg.LoopMax {
		Looped = true
		budget = 0
		panic(budgetPanic{})
	}
}

// Depth of the stack when the step budget ran out.
var Depth int

func depth() int {
	var pcs [4096]uintptr
	return runtime.Callers(0, pcs[:])
}

//go:norace
func runnable(except int) int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if i != except && tasks[i].state == 0 {
			n++
		}
	}
	return n
}

//go:norace
func pick(except int) int {
	n := runnable(except)
	if n == 0 {
		return -1
	}
	if cfg.UseExpl {
		for j := 0; j < len(cfg.Explicit); j++ {
			if cfg.Explicit[j].Step == steps {
				t := cfg.Explicit[j].To
				if t != except && t >= 0 && t < ntasks && tasks[t].state == 0 {
					return t
				}
			}
		}
		for i := 0; i < ntasks; i++ {
			if i != except && tasks[i].state == 0 {
				return i
			}
		}
	}
	k := int(draw() % uint64(n))
	for i := 0; i < ntasks; i++ {
		if i != except && tasks[i].state == 0 {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

//go:norace
func preempt(site int32) {
	me := cur
	to := -1
	if cfg.UseExpl {
		// only switch if the listed target can run
		for j := expl; j < len(cfg.Explicit); j++ {
			if cfg.Explicit[j].Step == steps {
				t := cfg.Explicit[j].To
				if t != me && t >= 0 && t < ntasks && tasks[t].state == 0 {
					to = t
				}
				break
			}
		}
	} else {
		to = pick(me)
	}
	schedNext()
	if to < 0 {
		return
	}
	preempts++
	p := mix(uint64(uint32(site))<<32|uint64(uint32(tasks[to].lastSite))) % uint64(len(PairSet))
	if !PairSet[p] {
		PairSet[p] = true
		PairCnt++
	}
	handoff(me, to)
}

// logSwitch records a decision without allocating: append would be visible to
// the race detector.
//
//go:norace
func logSwitch(to int) {
	if nsw < len(swBuf) {
		swBuf[nsw].Step = steps
		swBuf[nsw].To = to
		nsw++
	}
	note(uint64(steps)<<8 | uint64(to))
}

//go:norace
func handoff(me, to int) {
	logSwitch(to)
	cur = to
	raceParking()
	raceDisable()
	tasks[to].wake <- struct{}{}
	<-tasks[me].wake
	raceEnable()
}

// block parks the current task until wakeAll(p) and runs another one.
//
//go:norace
func block(p unsafe.Pointer, why string) {
	me := cur
	t := tasks[me]
	t.state = 1
	t.on = p
	t.why = why
	to := pick(me)
	if to < 0 {
		raceParking()
		raceDisable()
		fin <- true
		<-t.wake // parked forever
		raceEnable()
		return
	}
	handoff(me, to)
}

//go:norace
func wakeAll(p unsafe.Pointer) {
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == 1 && tasks[i].on == p {
			tasks[i].state = 0
			tasks[i].on = nil
		}
	}
}

//go:norace
func waitTurn(i int) {
	raceDisable()
	<-tasks[i].wake
	raceEnable()
}

//go:norace
func finish(i int) {
	tasks[i].state = 2
	steps++
	to := pick(i)
	if to >= 0 {
		logSwitch(to)
		cur = to
		raceDisable()
		tasks[to].wake <- struct{}{}
		raceEnable()
		return
	}
	dead := false
	for j := 0; j < ntasks; j++ {
		if tasks[j].state == 1 {
			dead = true
		}
	}
	active = false
	raceDisable()
	fin <- dead
	raceEnable()
}

//go:norace
func setPanic(i int, p *Panic) { panics[i] = p }

func spawn(i int, f func(), w *sync.WaitGroup) {
	go func() {
		waitTurn(i)
		func() {
			defer func() {
				if r := recover(); r != nil {
					_, b := r.(budgetPanic)
					setPanic(i, &Panic{Val: fmt.Sprint(r), Stack: string(debug.Stack()), Budget: b})
				}
			}()
			f()
		}()
		raceParking()
		w.Done()
		finish(i)
	}()
}

//go:norace
func addTask() int {
	i := ntasks
	for k := nmain; k < ntasks; k++ { // a slot nobody uses any more
		if tasks[k].state == 2 && panics[k] == nil {
			i = k
			break
		}
	}
	if i == ntasks {
		ntasks++
	}
	own := i
	if active {
		own = tasks[cur].own
	}
	tasks[i] = &task{id: i, own: own, wake: make(chan struct{}, 1)}
	panics[i] = nil
	return i
}

// Go replaces the go statement inside the library.
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	i := addTask()
	wg.Add(1)
	spawn(i, f, wg)
	Y(0)
}

//go:norace
func Active() bool { return active }

// Cur returns the running task's index.
//
//go:norace
func Cur() int { return cur }

// Owner returns the task on whose behalf the running one works: what the
// library starts with a go statement belongs to the call that started it.
//
//go:norace
func Owner() int { return tasks[cur].own }

// Steps returns the global event sequence number.
//
//go:norace
func Steps() int64 { return steps }

// Tick advances the sequence number without yielding (history stamps).
//
//go:norace
func Tick() int64 { steps++; return steps }

// Note mixes an observable event into the execution hash.
//
//go:norace
func Note(s string) {
	for i := 0; i < len(s); i++ {
		note(uint64(s[i]))
	}
}

// Run executes fns as tasks under cfg and returns when all are done, or when
// they deadlock (the process must then be abandoned).
func Run(c Config, fns ...func()) *Outcome {
	if len(fns) == 0 {
		return &Outcome{}
	}
	if c.Budget == 0 {
		c.Budget = 20_000_000
	}
	if c.LoopMax == 0 {
		c.LoopMax = 20_000
	}
	cfg = c
	ntasks = 0
	steps = 0
	expl = 0
	hash = 0xcbf29ce484222325
	rng = mix(c.SchedSeed)
	nsw = 0
	budget = c.Budget
	Depth, Looped = 0, false
	mapIters, mapPerm, preempts = 0, 0, 0
	simNow = 0
	fin = make(chan bool, 1)
	wg = &sync.WaitGroup{}
	nmain = 1 << 30
	for range fns {
		addTask()
	}
	nmain = len(fns)
	wg.Add(len(fns))
	for i, f := range fns {
		spawn(i, f, wg)
	}
	cur = -1
	schedNext()
	first := pick(-1)
	logSwitch(first)
	cur = first
	active = true
	tasks[first].wake <- struct{}{}
	o := &Outcome{}
	tick := time.NewTicker(5 * time.Second)
	defer tick.Stop()
	for last, same, over := int64(-1), 0, false; !over; {
		select {
		case dead := <-fin:
			over = true
			if dead {
				o.Deadlock = "no task can run:"
				for i := 0; i < ntasks; i++ {
					if tasks[i].state == 1 {
						o.Deadlock += fmt.Sprintf(" task %d waits in %s;", i, tasks[i].why)
					}
				}
			}
		case <-tick.C:
			if now := Steps(); now != last {
				last, same = now, 0
			} else if same++; same >= 9 { // 45 s inside one statement
				o.Stalled = true
				over = true
			}
		}
	}
	active = false
	if o.Deadlock == "" && !o.Stalled {
		wg.Wait()
	}
	raceCollect()
	o.Steps = steps
	o.Switches = append([]Switch(nil), swBuf[:nsw]...)
	o.Hash = hash
	o.MapIters = mapIters
	o.MapPerm = mapPerm
	o.Preempted = preempts
	o.SimTime = time.Duration(simNow)
	o.Panics = append([]*Panic(nil), panics[:ntasks]...)
	return o
}

// Advance moves the simulated clock.
//
//go:norace
func Advance(d time.Duration) { simNow += int64(d) }

//go:norace
func nowNS() int64 { return simNow }

// Now, Since and Sleep replace the time package's in the library.
func Now() time.Time { return time.Unix(1_600_000_000, nowNS()) }

func Since(t time.Time) time.Duration { return Now().Sub(t) }

func Sleep(d time.Duration) {
	if !Active() {
		return
	}
	Advance(d)
	Y(0)
}

// Quiet runs f outside the simulation (package reset between runs).
func Quiet(f func()) { f() }

// GoCall replaces a go statement: f and args are already evaluated.
func GoCall(f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(argType(fv.Type(), i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
		// untyped constants arrive with their default type
		if t := argType(fv.Type(), i); in[i].Type() != t && in[i].Type().ConvertibleTo(t) {
			in[i] = in[i].Convert(t)
		}
	}
	Go(func() { fv.Call(in) })
}

func argType(t reflect.Type, i int) reflect.Type {
	if t.IsVariadic() && i >= t.NumIn()-1 {
		return t.In(t.NumIn() - 1).Elem()
	}
	return t.In(i)
}

// IsBudget tells whether a recovered value is the exhausted step budget.
func IsBudget(x interface{}) bool { _, ok := x.(budgetPanic); return ok }
