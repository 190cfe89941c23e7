package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/xeipuuv/gojsonreference"
	gjs "github.com/xeipuuv/gojsonschema"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
	"verifsim/rt"
)

// OpRes is what an operation returned.
type OpRes struct {
	Done   bool
	Err    string // error returned ("" = none)
	Nil    bool   // no schema / result was returned
	Valid  bool
	Errs   []string // canonical errors, sorted
	Panic  string
	Stack  string
	Bool   bool
	Fails  []string // values a format refused
	Call   int64
	Ret    int64
	Cons   []consult
	Set    [3]int // loader settings after the call
	Leak   string // a handle of this call still open at its return
	Fired  []string
	Bad    string // what the operation itself found wrong
	CBs    int    // callbacks that did something during this call
	CBAct  string // a callback panicked or failed
	Budget bool
	recs   []rec
	Deep   bool // it ran out in a very deep recursion or an endless loop
}

func (r *OpRes) sig() string {
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if !r.Done {
		return "not finished"
	}
	if r.Err != "" {
		return "error"
	}
	if r.Nil {
		return "ok"
	}
	return fmt.Sprintf("valid=%v %s", r.Valid, strings.Join(r.Errs, "\n"))
}

func (r *OpRes) String() string {
	s := r.sig()
	if r.Err != "" {
		s += ": " + r.Err
	}
	return s
}

// Hist is the history of one execution.
type Hist struct {
	Pre      []*OpRes
	Setup    []*OpRes
	Tasks    [][]*OpRes
	After    []*OpRes
	Evs      []Ev
	Handles  []handle
	Outs     []*rt.Outcome
	Races    int
	FDs      int
	Deadlock string
	Stalled  bool
	Alone    bool   // a stalled call was alone in progress
	Crash    string // panic in a goroutine the library started
	Spent    bool   // budget exhausted in such a goroutine
	Over     bool   // more events than can be recorded
	Steps    int64
	Hash     uint64
	Fired    []string
	RawDiff  string
	env      *env
}

func (h *Hist) all() []*OpRes {
	var a []*OpRes
	a = append(a, h.Setup...)
	for _, t := range h.Tasks {
		a = append(a, t...)
	}
	return append(a, h.After...)
}

// abnormal reports a panic, deadlock or exhausted budget anywhere.
func (h *Hist) abnormal() (class, msg string) {
	if h.Deadlock != "" {
		return "deadlock", h.Deadlock
	}
	if h.Crash != "" {
		return "panic", "a goroutine of the library panicked: " + h.Crash
	}
	if h.Stalled && h.Alone {
		return "hang", "a call made no progress for 45 s"
	}
	for i, r := range h.all() {
		if r.Deep {
			return "hang", fmt.Sprintf("operation %d recurses or loops without end", i)
		}
		if r.Panic != "" {
			return "panic", fmt.Sprintf("operation %d panicked: %s\n%s", i, r.Panic, trimStack(r.Stack))
		}
	}
	return "", ""
}

// skip tells why a history cannot be decided.
func (h *Hist) skip() string {
	if h.Stalled && !h.Alone {
		return "stalled"
	}
	if h.Over {
		return "too many events"
	}
	if h.Spent {
		return "over the step budget"
	}
	for _, r := range append(h.all(), h.Pre...) {
		if r.Budget && !r.Deep {
			return "over the step budget"
		}
	}
	return ""
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "gojsonschema.") || strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

type env struct {
	p       *plan.Plan
	docs    []string
	loaders []*gjs.SchemaLoader
	slots   []*gjs.Schema
	raws    []interface{}
	kept    []map[string]gjs.JSONLoader // loaders used again and again
	natives []interface{}
	imaps   []interface{}
	bytes   [][]byte
	last    [rt.MaxTasks]*gjs.Result

	lastShared [rt.MaxTasks]bool // its values are shared with other calls
	nested     []nested
	reader     io.Reader
	writer     io.Writer
}

// Opts of an execution.
type Opts struct {
	NoSched  bool // run tasks without preemption
	MapSeed  *uint64
	OnlyTask int // -1 all
	Budget   int64
	NoFaults bool
	NoCalls  bool // callbacks do nothing
	NoPre    bool // leave out the plan's earlier history
	Hook     func(e *env)
}

const maxSlots = 64

// stats of this process; lastSwitches of the last scheduled phase.
var (
	stats        = &plan.Stats{Faults: map[string]int64{}, Probes: map[string]int64{}, SkipWhy: map[string]int64{}}
	lastSwitches []rt.Switch
	runHash      uint64
)

func probe(name string) { stats.Probes[name]++ }

func (e *env) usesOS() bool {
	for _, r := range e.p.Res {
		if r.Store == "os" {
			return true
		}
	}
	return false
}

func draftOf(n int) gjs.Draft {
	switch n {
	case 4:
		return gjs.Draft4
	case 6:
		return gjs.Draft6
	case 7:
		return gjs.Draft7
	}
	return gjs.Hybrid
}

func draftNo(d gjs.Draft) int {
	switch d {
	case gjs.Draft4:
		return 4
	case gjs.Draft6:
		return 6
	case gjs.Draft7:
		return 7
	case gjs.Hybrid:
		return 0
	}
	return int(d)
}

// Exec runs the plan once.
func Exec(p *plan.Plan, o Opts) *Hist {
	http.DefaultTransport = transport{}
	gjs.VerifReset()
	resetWorld(p)
	if o.NoFaults {
		faultsOn = false
	}
	resetCheckers()
	e := &env{p: p, slots: make([]*gjs.Schema, maxSlots), nested: make([]nested, 0, 512)}
	curEnv, callsOn = e, !o.NoCalls && len(p.Calls) > 0
	callCount = [maxCalls]int{}
	gjs.ErrorTemplateFuncs = nil
	if p.Prop == "C18" {
		gjs.ErrorTemplateFuncs = textFuncs
	}
	if p.Locale {
		gjs.Locale = cbLocale{}
		gjs.ErrorTemplateFuncs = map[string]interface{}{"verifcb": func() string { e.fire("tmpl"); return "" }}
	}
	for _, d := range p.Docs {
		e.docs = append(e.docs, sub(d))
	}
	for _, f := range p.Formats {
		if c := checkers[f]; c != nil {
			gjs.FormatCheckers.Add(f, c)
		}
	}
	for _, l := range p.Loaders {
		sl := gjs.NewSchemaLoader()
		sl.AutoDetect, sl.Draft, sl.Validate = l.Auto, draftOf(l.Draft), l.Validate
		e.loaders = append(e.loaders, sl)
	}
	e.raws = make([]interface{}, len(e.docs))
	e.imaps = make([]interface{}, len(e.docs))
	e.natives = make([]interface{}, len(e.docs))
	e.bytes = make([][]byte, len(e.docs))
	for i, d := range e.docs {
		e.bytes[i] = append(make([]byte, 0, len(d)+4), d+"zzzz"...)[:len(d)]
		if v, err := model.Decode(d); err == nil {
			e.imaps[i] = imap(v, len(d))
			e.raws[i] = roomy(v)
			e.natives[i] = native(d)
		}
	}
	e.kept = make([]map[string]gjs.JSONLoader, len(e.docs))
	for i, d := range e.docs {
		e.kept[i] = map[string]gjs.JSONLoader{"kstr": gjs.NewStringLoader(d), "kbytes": gjs.NewBytesLoader(e.bytes[i]), "kgo": gjs.NewGoLoader(e.raws[i]), "kraw": gjs.NewRawLoader(e.raws[i])}
	}
	if o.Hook != nil {
		o.Hook(e)
	}
	h := &Hist{env: e}
	ms := p.Sched.MapSeed
	if o.MapSeed != nil {
		ms = *o.MapSeed
	}
	budget := o.Budget
	if budget == 0 {
		budget = 1_500_000
	}
	base := rt.Config{MapSeed: ms, Budget: budget, LoopMax: 20_000}
	for _, d := range e.docs { // even byte by byte, and several times
		base.LoopMax += 4 * int32(len(d))
	}
	for i := range p.Res {
		base.LoopMax += 4 * int32(len(p.Res[i].Body))
	}
	merge := func(out *rt.Outcome, mains int) bool {
		for i := mains; i < len(out.Panics); i++ {
			if x := out.Panics[i]; x != nil && x.Budget {
				h.Spent = true
			} else if x != nil {
				h.Crash = x.Val + "\n" + trimStack(x.Stack)
			}
		}
		h.Outs = append(h.Outs, out)
		h.Steps += out.Steps
		h.Hash = h.Hash*0x100000001b3 ^ out.Hash
		stats.Steps += out.Steps
		stats.Preempts += out.Preempted
		stats.MapIters += out.MapIters
		stats.MapPerms += out.MapPerm
		stats.SimNS += int64(out.SimTime)
		if out.Deadlock != "" {
			h.Deadlock = out.Deadlock
		}
		if out.Stalled {
			h.Stalled = true
			h.Alone = len(out.Panics) == 1 || p.Sched.Serial
		}
		return out.Deadlock == "" && !out.Stalled
	}
	stats.Execs++
	run := func(ph int, ops []plan.Op) []*OpRes {
		rs := mkRes(ops)
		if len(ops) == 0 || h.Deadlock != "" || h.Stalled {
			return rs
		}
		phase = ph
		c := base
		c.MapSeed = base.MapSeed + uint64(ph)*0x1234567
		if base.MapSeed == 0 {
			c.MapSeed = 0
		}
		merge(rt.Run(c, func() { e.runOps(ops, rs) }), 1)
		return rs
	}
	if len(p.Pre) > 0 && !o.NoPre {
		h.Pre = run(3, p.Pre)
		nev, nh, nfired = 0, 0, 0
	}
	h.Setup = run(0, p.Setup)
	if len(p.Tasks) > 0 && h.Deadlock == "" && !h.Stalled {
		phase = 1
		c := base
		c.SchedSeed, c.Gap, c.Hot = p.Sched.Seed, p.Sched.Gap, p.Sched.Hot
		if p.Sched.Explicit {
			c.UseExpl = true
			for _, s := range p.Sched.Switches {
				c.Explicit = append(c.Explicit, rt.Switch{Step: s.Step, To: s.To})
			}
		}
		if o.NoSched || p.Sched.Serial {
			c.Gap, c.Hot, c.UseExpl = 0, 0, false
		}
		var fns []func()
		for i := range p.Tasks {
			ops := p.Tasks[i]
			rs := mkRes(ops)
			h.Tasks = append(h.Tasks, rs)
			if o.OnlyTask > 0 && i != o.OnlyTask-1 {
				continue
			}
			fns = append(fns, func() { e.runOps(ops, rs) })
		}
		out := rt.Run(c, fns...)
		merge(out, len(fns))
		if !o.NoSched && o.OnlyTask == 0 {
			lastSwitches = out.Switches
		}
	}
	callsOff()
	h.After = run(2, p.After)
	h.Evs = append(h.Evs, evs[:nev]...)
	h.Handles = append(h.Handles, handles[:nh]...)
	h.Fired = append(h.Fired, fired[:nfired]...)
	for _, f := range h.Fired {
		stats.Faults[f]++
	}
	h.Races = rt.RaceErrors()
	h.Over = overflow
	if e.usesOS() {
		h.FDs = openFDs()
	}
	runHash = runHash*0x100000001b3 ^ h.Hash
	for _, r := range h.all() {
		h.Hash = h.Hash*0x100000001b3 ^ hashStr(r.sig())
		if r.Done {
			stats.Ops++
		}
	}
	return h
}

func hashStr(s string) uint64 {
	x := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		x = (x ^ uint64(s[i])) * 0x100000001b3
	}
	return x
}

func mkRes(ops []plan.Op) []*OpRes {
	rs := make([]*OpRes, len(ops))
	for i := range rs {
		rs[i] = &OpRes{}
	}
	return rs
}

func (e *env) runOps(ops []plan.Op, rs []*OpRes) {
	for i := range ops {
		setOp(i)
		rt.Y(siteOp)
		e.runOp(&ops[i], rs[i])
	}
}

func (e *env) runOp(op *plan.Op, r *OpRes) {
	r.Call = rt.Tick()
	setRes(r)
	defer func() {
		r.Ret = rt.Tick()
		cbReset()
		if x := recover(); x != nil {
			if rt.IsBudget(x) {
				r.Budget = true
				r.Deep = rt.Depth > 3000 || rt.Looped
				return
			}
			r.Panic = fmt.Sprint(x)
			r.Stack = string(debug.Stack())
		} else {
			r.Done = true
		}
		r.Leak = leakOf()
		r.Fired = firedOf()
		loaderOp := op.K == "reg" || op.K == "regs" || op.K == "compile" || op.K == "set"
		if loaderOp && op.L < len(e.loaders) {
			sl := e.loaders[op.L]
			r.Set = settings(sl)
		}
	}()
	e.do(op, r)
}

func settings(sl *gjs.SchemaLoader) [3]int {
	b := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	return [3]int{b(sl.AutoDetect), draftNo(sl.Draft), b(sl.Validate)}
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	if s := err.Error(); s != "" {
		return s
	}
	return "(empty error)"
}

func (e *env) do(op *plan.Op, r *OpRes) {
	switch op.K {
	case "reg":
		r.Err = errStr(e.loaders[op.L].AddSchema(sub(op.URL), e.loader(op, op.D)))
		r.Nil = true
	case "regs":
		var ls []gjs.JSONLoader
		for _, q := range parts(op) {
			ls = append(ls, e.loader(&q, q.D))
		}
		r.Err = errStr(e.loaders[op.L].AddSchemas(ls...))
		r.Nil = true
	case "compile":
		s, err := e.loaders[op.L].Compile(e.loader(op, op.D))
		r.Err, r.Nil = errStr(err), s == nil
		e.slots[op.S] = s
		r.Nil = true
		if err != nil && s != nil {
			r.Err = "returned a schema together with error " + r.Err
			r.Nil = false
		}
		if err == nil && s == nil {
			r.Err = "returned neither schema nor error"
		}
	case "newschema":
		s, err := gjs.NewSchema(e.loader(op, op.D))
		e.slots[op.S] = s
		r.Err, r.Nil = errStr(err), true
	case "validate":
		s := e.slots[op.S]
		if s == nil {
			r.Err, r.Nil = "no schema in slot", true
			return
		}
		res, err := s.Validate(e.loader(op, op.D))
		e.result(op, res, err, r)
	case "vall":
		l1 := e.loader(op, op.D)
		l2 := e.loader(&plan.Op{Via: op.Arg, URL: op.Name}, op.N)
		res, err := gjs.Validate(l1, l2)
		e.result(op, res, err, r)
	case "set":
		sl := e.loaders[op.L]
		switch op.Name {
		case "auto":
			sl.AutoDetect = op.N != 0
		case "draft":
			sl.Draft = draftOf(op.N)
		case "validate":
			sl.Validate = op.N != 0
		}
		r.Nil = true
	case "locale":
		gjs.Locale = simLocale{v: op.N}
		r.Nil = true
	case "heal":
		heal()
		r.Nil = true
	case "change":
		for i := range resv {
			if resAt(i).URL == sub(op.URL) && (op.Name == "" || resAt(i).Store == op.Name) {
				setBody(i, e.docs[op.D])
				if resAt(i).Store == "os" {
					writeOS(i)
				}
			}
		}
		r.Nil = true
	case "mutate":
		mutateInPlace(e.raws[op.D], op.N)
		r.Nil = true
	case "become": // the caller's object gets other content
		if x, ok := e.raws[op.D].(map[string]interface{}); ok {
			if y, err := model.Decode(e.docs[op.N]); err == nil {
				if y, ok := y.(map[string]interface{}); ok {
					for k := range x {
						if _, ok := y[k]; !ok {
							delete(x, k)
						}
					}
					for k := range y {
						x[k] = y[k]
					}
				}
			}
		}
		r.Nil = true
	case "mutbytes":
		for i := range e.bytes[op.D] {
			e.bytes[op.D][i] = ' '
		}
		r.Nil = true
	case "tamper":
		tamper(e.last[taskIdx()], !e.lastShared[taskIdx()])
		r.Nil = true
	case "fmtadd":
		gjs.FormatCheckers.Add(op.Name, e.checker(op))
		r.Nil = true
	case "fmtdel":
		gjs.FormatCheckers.Remove(op.Name)
		r.Nil = true
	case "fmthas":
		r.Bool = gjs.FormatCheckers.Has(op.Name)
		r.Nil = true
	case "fmtis":
		pushCons(r)
		r.Bool = gjs.FormatCheckers.IsFormat(op.Name, op.Arg)
		popCons()
		r.Nil = true
	case "fmtval": // validation that consults a format
		s := e.slots[op.S]
		pushCons(r)
		res, err := s.Validate(gjs.NewStringLoader(op.Arg))
		popCons()
		r.Err, r.Nil = errStr(err), true
		if err == nil {
			r.Bool = res.Valid()
			for _, x := range res.Errors() {
				if s, ok := x.Value().(string); ok {
					r.Fails = append(r.Fails, s)
				}
			}
		}
	case "soak": // much activity; with a probe, which must not change
		e.soak(op, r)
	case "fresh": // everything once, on a loader of its own
		sl := gjs.NewSchemaLoader()
		sl.Validate = op.ID%2 == 0
		if err := sl.AddSchema("http://fresh.test/s", gjs.NewStringLoader(e.docs[op.D])); err != nil {
			r.Err, r.Nil = errStr(err), true
			return
		}
		s, err := sl.Compile(gjs.NewReferenceLoader("http://fresh.test/s"))
		if err != nil {
			r.Err, r.Nil = errStr(err), true
			return
		}
		res, err := s.Validate(gjs.NewStringLoader(e.docs[op.N]))
		e.result(op, res, err, r)
	case "stream":
		e.stream(op, r)
	default:
		panic("harness: unknown operation " + op.K)
	}
}

func (e *env) soak(op *plan.Op, r *OpRes) {
	r.Nil = true
	s := e.slots[op.S]
	var first []string
	for i := 0; i < op.N; i++ {
		switch op.Name {
		case "same":
			if s == nil {
				return
			}
			res, err := s.Validate(gjs.NewStringLoader(e.docs[op.D]))
			if err != nil {
				r.Err = errStr(err)
				return
			}
			c := Canon(res)
			if i == 0 {
				first = c
			} else if strings.Join(c, "\n") != strings.Join(first, "\n") {
				r.Err = fmt.Sprintf("validation %d of the same document differs from the first:\n%s\n---\n%s", i, strings.Join(first, "\n"), strings.Join(c, "\n"))
				return
			}
		case "values":
			if s != nil {
				s.Validate(gjs.NewStringLoader(fmt.Sprintf([]string{`"zz%d"`, `%d`, `{"k%d":1}`, `["%d"]`, `%d.5`}[(i+op.ID)%5], i)))
			}
		case "schemas":
			f := []string{`{"pattern":"^zz%d"}`, `{"enum":[%d]}`, `{"properties":{"k%d":{"type":"string"}}}`, `{"$id":"http://soak.test/%d"}`, `{"patternProperties":{"^k%d":{"minimum":3}}}`, `{"format":"f%d"}`}[(i+op.ID)%6]
			if x, err := gjs.NewSchema(gjs.NewStringLoader(fmt.Sprintf(f, i))); err == nil {
				x.Validate(gjs.NewStringLoader(`{"k1":"x"}`))
			}
		}
	}
}

func taskIdx() int {
	if rt.Active() {
		return rt.Owner()
	}
	return 0
}

func (e *env) result(op *plan.Op, res *gjs.Result, err error, r *OpRes) {
	r.Err = errStr(err)
	if res == nil {
		r.Nil = true
		if err == nil {
			r.Err = "returned neither result nor error"
		}
		return
	}
	if err != nil {
		r.Err = "returned a result together with error " + r.Err
		return
	}
	r.Valid = res.Valid()
	r.Errs = Canon(res)
	if r.Valid != (len(res.Errors()) == 0) {
		r.Errs = append(r.Errs, "Valid() disagrees with Errors()")
	}
	switch e.p.Prop {
	case "C18":
		r.recs = records(res)
		if n := len(r.recs); n > 0 {
			r.recs = append(r.recs, addCustom(res, n))
		}
	case "C21":
		r.recs = records(res)
	}
	e.last[taskIdx()] = res
	e.lastShared[taskIdx()] = op.Via == "sraw" || op.Via == "kraw" || op.Via == "simap" || op.Via == "cb"
}

// Canon renders errors as a sorted multiset.
func Canon(res *gjs.Result) []string {
	var out []string
	for _, x := range res.Errors() {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%s at %s (%s): %s | value %s | fmt %q | %s |", x.Type(), x.Context().String(), x.Field(), x.Description(), show(x.Value()), x.DescriptionFormat(), x.String())
		det := x.Details()
		ks := make([]string, 0, len(det))
		for k := range det {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&sb, " %s=%s", k, show(det[k]))
		}
		fmt.Fprintf(&sb, " %T", x)
		out = append(out, sb.String())
	}
	sort.Strings(out)
	return out
}

func show(v interface{}) string {
	switch x := v.(type) {
	case *regexp.Regexp:
		return x.String()
	case *big.Float:
		return x.Text('g', 40)
	case error:
		return x.Error()
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%v", v)
	}
	return string(b)
}

// tamper changes everything a caller can reach through a result.
func tamper(res *gjs.Result, values bool) {
	if res == nil {
		return
	}
	es := res.Errors()
	for i, x := range es {
		if d := x.Details(); d != nil {
			for k := range d {
				switch v := d[k].(type) {
				case *big.Float:
					if v != nil {
						v.SetInt64(4711)
					}
				case *big.Rat:
					if v != nil {
						v.SetInt64(4711)
					}
				case *big.Int:
					if v != nil {
						v.SetInt64(4711)
					}
				case *int:
					if v != nil {
						*v = 4711
					}
				case *string:
					if v != nil {
						*v = "tampered"
					}
				case []string:
					for i := range v {
						v[i] = "tampered"
					}
				case []interface{}:
					for i := range v {
						v[i] = "tampered"
					}
				}
				d[k] = "tampered"
			}
			d["extra"] = 1
		}
		if values {
			mutateInPlace(x.Value(), i)
		}
		x.SetType("tampered")
		x.SetDescription("tampered")
		x.SetDescriptionFormat("tampered {{.zzz}}")
		x.SetValue("tampered")
		x.SetContext(gjs.NewJsonContext("tampered", nil))
		es[i] = es[0]
	}
	ce := &gjs.ResultErrorFields{}
	ce.SetContext(gjs.NewJsonContext("custom", nil))
	ce.SetDescriptionFormat("custom {{.context}}")
	res.AddError(ce, gjs.ErrorDetails{})
}

// mutateInPlace alters a decoded JSON value that the caller owns.
func mutateInPlace(v interface{}, n int) {
	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			mutateInPlace(x[k], n+1)
		}
		for _, k := range ks {
			switch n % 3 {
			case 0:
				x[k] = "mutated"
			case 1:
				delete(x, k)
			default:
				x[k] = false
			}
		}
		x["type"] = "null"
	case []interface{}:
		for i := range x {
			mutateInPlace(x[i], n+1)
			x[i] = "mutated"
		}
	}
}

// parts are the registrations an AddSchemas call consists of.
func parts(op *plan.Op) (out []plan.Op) {
	if len(op.Sub) > 0 {
		return op.Sub
	}
	for _, d := range op.Ds {
		q := *op
		q.D = d
		out = append(out, q)
	}
	return
}

// loader builds the JSONLoader an operation uses.
func (e *env) loader(op *plan.Op, d int) gjs.JSONLoader {
	src := op.URL
	if op.K == "reg" || op.K == "regs" {
		src = op.Arg // URL is what it is registered as
	}
	switch op.Via {
	case "ref":
		return gjs.NewReferenceLoader(sub(src))
	case "reffs":
		return gjs.NewReferenceLoaderFileSystem(sub(src), simFS{op.N})
	}
	switch op.Via {
	case "kstr", "kbytes", "kgo", "kraw": // the very same loader for every user
		if e.raws[d] == nil && strings.TrimSpace(e.docs[d]) != "null" {
			return e.kept[d]["kstr"]
		}
		return e.kept[d][op.Via]
	case "str", "":
		return gjs.NewStringLoader(e.docs[d])
	case "bytes":
		return gjs.NewBytesLoader([]byte(e.docs[d]))
	case "sbytes":
		return gjs.NewBytesLoader(e.bytes[d])
	case "go":
		return gjs.NewGoLoader(decodeGo(e.docs[d]))
	case "sgo":
		return gjs.NewGoLoader(e.raws[d])
	case "gon":
		return gjs.NewGoLoader(native(e.docs[d]))
	case "sgon":
		return gjs.NewGoLoader(e.natives[d])
	case "raw":
		v, err := model.Decode(e.docs[d])
		if err != nil {
			return gjs.NewStringLoader(e.docs[d])
		}
		return gjs.NewRawLoader(v)
	case "sraw": // the same value for every user
		if e.raws[d] == nil && strings.TrimSpace(e.docs[d]) != "null" {
			return gjs.NewStringLoader(e.docs[d])
		}
		return gjs.NewRawLoader(e.raws[d])
	case "imap": // map[interface{}]interface{} as YAML decoders make
		v, err := model.Decode(e.docs[d])
		if err != nil {
			return gjs.NewStringLoader(e.docs[d])
		}
		return gjs.NewRawLoader(imap(v, len(e.docs[d])))
	case "simap":
		if e.raws[d] == nil {
			return gjs.NewStringLoader(e.docs[d])
		}
		return gjs.NewRawLoader(e.imaps[d])
	case "reader":
		l, rd := gjs.NewReaderLoader(&chunkReader{s: e.docs[d], n: 1 + len(e.docs[d])%7})
		io.Copy(io.Discard, rd)
		return l
	case "writer":
		l, w := gjs.NewWriterLoader(io.Discard)
		for s := e.docs[d]; len(s) > 0; {
			n := 1 + len(s)%5
			if n > len(s) {
				n = len(s)
			}
			io.WriteString(w, s[:n])
			s = s[n:]
		}
		return l
	case "cb":
		return &cbLoader{e: e, d: d, url: sub(src)}
	case "sfac": // values shared with the library through a custom factory
		return &facLoader{e: e, url: sub(op.URL)}
	case "ffac":
		return &facLoader{e: e, url: sub(op.URL), copy: true}
	}
	panic("harness: unknown loader " + op.Via)
}

// native is a value as plain decoding into an interface makes it.
func native(s string) interface{} {
	var v interface{}
	if json.Unmarshal([]byte(s), &v) != nil {
		return json.RawMessage("{")
	}
	if len(s)%4 == 3 {
		return &v
	}
	return v
}

func decodeGo(s string) interface{} {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return json.RawMessage("{")
	}
	return v
}

// imap makes maps as YAML decoders do: all of them, or only some, so that
// both kinds of maps are nested in each other.
func imap(v interface{}, mode int) interface{} { return imapAt(v, mode%4, 0) }

func imapAt(v interface{}, mode, depth int) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		if mode == 1 && depth == 0 || mode == 2 && depth%2 == 0 || mode == 3 && depth%2 == 1 {
			m := map[string]interface{}{}
			for k, e := range x {
				m[k] = imapAt(e, mode, depth+1)
			}
			return m
		}
		m := map[interface{}]interface{}{}
		for k, e := range x {
			m[k] = imapAt(e, mode, depth+1)
		}
		return m
	case []interface{}:
		a := make([]interface{}, len(x))
		for i := range x {
			a[i] = imapAt(x[i], mode, depth)
		}
		return a
	}
	return v
}

// spare is what lies behind the end of every slice handed to the library.
const spare = "beyond the end"

// roomy copies a value into slices that have spare capacity.
func roomy(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			x[k] = roomy(e)
		}
	case []interface{}:
		a := make([]interface{}, len(x)+2)
		for i := range x {
			a[i] = roomy(x[i])
		}
		a[len(x)], a[len(x)+1] = spare, spare
		return a[:len(x)]
	}
	return v
}

// overrun tells whether something was written behind the end of a slice.
func overrun(v interface{}) bool {
	switch x := v.(type) {
	case map[string]interface{}:
		for _, e := range x {
			if overrun(e) {
				return true
			}
		}
	case []interface{}:
		for _, e := range x {
			if overrun(e) {
				return true
			}
		}
		if cap(x) != len(x)+2 {
			return false
		}
		y := x[:cap(x)]
		return y[len(x)] != spare || y[len(x)+1] != spare
	}
	return false
}

type chunkReader struct {
	s string
	n int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.s == "" {
		return 0, io.EOF
	}
	n := c.n
	if n > len(c.s) {
		n = len(c.s)
	}
	n = copy(p, c.s[:n])
	c.s = c.s[n:]
	return n, nil
}

// cbLoader is a caller-supplied JSONLoader that calls back or fails.
type cbLoader struct {
	e   *env
	d   int
	url string
}

var errCallback = errors.New("callback failed")

type cbPanic struct{}

func (cbPanic) Error() string { return "callback panic" }

func (l *cbLoader) JsonSource() interface{} { return l.e.docs[l.d] }
func (l *cbLoader) LoadJSON() (interface{}, error) {
	rt.Y(siteCB)
	if err := l.e.fire(fmt.Sprintf("load:%d", l.d)); err != nil {
		return nil, err
	}
	return model.Decode(l.e.docs[l.d])
}
func (l *cbLoader) JsonReference() (gojsonreference.JsonReference, error) {
	return gojsonreference.NewJsonReference("#")
}
func (l *cbLoader) LoaderFactory() gjs.JSONLoaderFactory { return &cbFactory{l.e} }

// cbFactory makes loaders that behave like the library's own.
type cbFactory struct{ e *env }

func (f *cbFactory) New(source string) gjs.JSONLoader {
	rt.Y(siteCB)
	f.e.fire("new:" + source)
	return gjs.NewReferenceLoader(source)
}

// facLoader serves documents by URL from values the caller shares.
type facLoader struct {
	e    *env
	url  string
	copy bool
}

func (l *facLoader) JsonSource() interface{} { return l.url }
func (l *facLoader) LoadJSON() (interface{}, error) {
	u, _ := model.SplitFrag(l.url)
	for i := range l.e.p.Docs {
		if docURL(i) == u {
			if l.copy {
				return model.Decode(l.e.docs[i])
			}
			return l.e.raws[i], nil
		}
	}
	return nil, fmt.Errorf("no document %s", l.url)
}
func (l *facLoader) JsonReference() (gojsonreference.JsonReference, error) {
	return gojsonreference.NewJsonReference(l.url)
}
func (l *facLoader) LoaderFactory() gjs.JSONLoaderFactory { return &facFactory{l.e, l.copy} }

type facFactory struct {
	e    *env
	copy bool
}

func (f *facFactory) New(source string) gjs.JSONLoader { return &facLoader{f.e, source, f.copy} }

func docURL(i int) string { return fmt.Sprintf("http://shared.test/doc%d.json", i) }

// ---- format checkers

type consult struct {
	ID   int
	Step int64
	Ans  bool
	Val  string
}

// checker with a fixed meaning, shared with the model.
type checker func(v interface{}) bool

func (c checker) IsFormat(v interface{}) bool {
	rt.Y(siteCB)
	return c(v)
}

func vfString(v interface{}) bool {
	s, ok := v.(string)
	return !ok || !strings.Contains(s, "b")
}
func vfEven(v interface{}) bool {
	switch x := v.(type) {
	case json.Number:
		r, ok := new(big.Rat).SetString(string(x))
		return !ok || (r.IsInt() && r.Num().Bit(0) == 0)
	case string:
		return utf8.RuneCountInString(x)%2 == 0
	}
	return true
}
func vfScalar(v interface{}) bool {
	switch v.(type) {
	case map[string]interface{}, []interface{}:
		return false
	}
	return v != nil
}

var checkers = map[string]checker{"vf-string": vfString, "vf-even": vfEven, "vf-scalar": vfScalar, "cb-a": vfString, "cb-b": vfEven}

// FormatNames are the custom formats plans may register.
var FormatNames = []string{"vf-string", "vf-even", "vf-scalar"}

func modelFormats(p *plan.Plan) map[string]func(interface{}) bool {
	m := map[string]func(interface{}) bool{}
	for _, f := range p.Formats {
		m[f] = checkers[f]
	}
	return m
}

func resetCheckers() {
	for i := range consNow {
		consNow[i] = nil
	}
	cbDepth = [rt.MaxTasks]int{}
}

var consNow [rt.MaxTasks]*OpRes
var cbDepth [rt.MaxTasks]int

//go:norace
func pushCons(r *OpRes) { consNow[taskIdx()] = r }

//go:norace
func popCons() { consNow[taskIdx()] = nil }

//go:norace
func curCons() *OpRes { return consNow[taskIdx()] }

// idChecker records which registration was consulted.
type idChecker struct {
	id  int
	ans bool
}

func (c *idChecker) IsFormat(v interface{}) bool {
	rt.Y(siteCB)
	if r := curCons(); r != nil {
		s, _ := v.(string)
		r.Cons = append(r.Cons, consult{c.id, rt.Tick(), c.ans, s})
	}
	return c.ans
}

func (e *env) checker(op *plan.Op) gjs.FormatChecker {
	if op.Via == "cb" {
		return &cbChecker{e, op.Name}
	}
	if op.Via == "fixed" {
		return checkers[op.Name]
	}
	return &idChecker{id: op.ID, ans: op.ID%2 == 0}
}

var _ = bytes.NewReader
var _ = reflect.DeepEqual
var _ = gen.Text

// RaceCount returns the number of race reports so far.
func RaceCount() int { return rt.RaceErrors() }
