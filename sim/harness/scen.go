package harness

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
	"verifsim/rt"
)

// Scenario generates and decides runs of one kind for one property.
type Scenario struct {
	Prop   string
	Kind   string
	Weight int
	Gen    func(r *gen.R, p *plan.Plan)
	// Check executes the plan and decides it. skip != "": nothing was decided.
	Check func(p *plan.Plan) (v *plan.Violation, skip string)
}

var scenarios []*Scenario

func register(s *Scenario) { scenarios = append(scenarios, s) }

// Props lists the properties that have scenarios.
func Props() []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range scenarios {
		if !seen[s.Prop] {
			seen[s.Prop] = true
			out = append(out, s.Prop)
		}
	}
	sort.Strings(out)
	return out
}

// Generate makes the plan of one run seed.
func Generate(prop string, seed uint64) *plan.Plan {
	r := gen.New(seed)
	total := 0
	for _, s := range scenarios {
		if s.Prop == prop {
			total += s.Weight
		}
	}
	if total == 0 {
		return nil
	}
	n := r.N(total)
	for _, s := range scenarios {
		if s.Prop != prop {
			continue
		}
		if n -= s.Weight; n < 0 {
			p := &plan.Plan{Prop: prop, Kind: s.Kind, Seed: seed}
			s.Gen(r, p)
			return p
		}
	}
	return nil
}

// Check decides a plan.
func Check(p *plan.Plan) (*plan.Violation, string) {
	for _, s := range scenarios {
		if s.Prop == p.Prop && s.Kind == p.Kind {
			races := rt.RaceErrors()
			v, skip := s.Check(p)
			if v == nil && rt.RaceErrors() > races {
				v = viol(p, "race", "data race inside the library (report in the replay file)")
			}
			if v != nil {
				return v, ""
			}
			return nil, skip
		}
	}
	return nil, "no scenario"
}

func viol(p *plan.Plan, class, f string, a ...interface{}) *plan.Violation {
	return &plan.Violation{Prop: p.Prop, Class: class, Msg: fmt.Sprintf(f, a...)}
}

// bad reports what no history may contain.
func bad(p *plan.Plan, h *Hist) *plan.Violation {
	if c, m := h.abnormal(); c != "" {
		return viol(p, c, "%s", m)
	}
	return nil
}

func sched(r *gen.R, p *plan.Plan) {
	p.Sched.Seed = r.U()
	p.Sched.Gap = []int{1, 2, 4, 8, 20, 60, 200}[r.N(7)]
	if r.P(40) {
		p.Sched.Hot = []int{10, 30, 60}[r.N(3)]
		p.Sched.Gap = []int{0, 30, 200, 1000}[r.N(4)]
	}
	mapOrder(r, p)
}

func mapOrder(r *gen.R, p *plan.Plan) {
	p.Sched.MapSeed = 0
	if r.P(75) {
		p.Sched.MapSeed = r.U() | 1
	}
}

func pickDraft(r *gen.R) model.Draft {
	return []model.Draft{model.Hybrid, model.D4, model.D6, model.D7, model.D7}[r.N(5)]
}

func pickFormats(r *gen.R) []string {
	if r.P(60) {
		return nil
	}
	return FormatNames[:1+r.N(3)]
}

var memVias = []string{"str", "bytes", "go", "raw", "reader", "writer"}

func schemaText(r *gen.R, d model.Draft, formats []string, depth int) string {
	g := &gen.G{R: r, D: d, Formats: formats}
	return gen.Text(g.Doc(depth))
}

func addDoc(p *plan.Plan, s string) int { p.Docs = append(p.Docs, s); return len(p.Docs) - 1 }

func opName(op *plan.Op) string {
	s := op.K
	if op.URL != "" {
		s += " " + op.URL
	}
	return s
}

// describe prints a document shortly.
func short(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func sameSig(a, b *OpRes) bool { return a.sig() == b.sig() }

// diff explains how two results differ.
func diff(want, got *OpRes) string {
	return fmt.Sprintf("expected %s\n     got %s", short(want.String()), short(got.String()))
}

// seqOpts tells what a sequential check looks at.
type seqOpts struct {
	verdicts  bool // compare verdicts and acceptance with the model
	rejects   bool // the model's rejections must be errors
	faultErr  bool // calls hit by a fault must fail
	settings  bool // loader settings never change by themselves
	leaks     bool
	fetches   bool
	onlyValid bool
}

// seqCheck decides a sequential history in Setup against the model.
func seqCheck(p *plan.Plan, h *Hist, so seqOpts) (*plan.Violation, string) {
	if s := h.skip(); s != "" {
		return nil, s
	}
	if v := bad(p, h); v != nil {
		return v, ""
	}
	o := newOracle(p)
	set := map[int][3]int{}
	for i, l := range p.Loaders {
		b := map[bool]int{true: 1}
		set[i] = [3]int{b[l.Auto], l.Draft, b[l.Validate]}
	}
	decided := 0
	requested := map[string]int{}
	why := ""
	for i := range p.Setup {
		op := &p.Setup[i]
		r := h.Setup[i]
		if op.K == "heal" || op.K == "change" || op.K == "set" {
			o.step(op, false)
			if op.K == "set" {
				s := set[op.L]
				switch op.Name {
				case "auto":
					s[0] = op.N
				case "draft":
					s[1] = op.N
				case "validate":
					s[2] = op.N
				}
				set[op.L] = s
			}
			continue
		}
		hit, unk := faultState(p, r)
		loaderOp := op.K == "reg" || op.K == "regs" || op.K == "compile"
		if so.settings && loaderOp && r.Set != set[op.L] {
			return viol(p, "settings", "call %d (%s) left the loader with AutoDetect/Draft/Validate %v, was %v; it returned %s", i, opName(op), r.Set, set[op.L], r), ""
		}
		if so.leaks && r.Leak != "" {
			return viol(p, "leak", "call %d (%s) returned (%s) with %s still open", i, opName(op), r, r.Leak), ""
		}
		if unk {
			return nil, "a cut-off document that still parses"
		}
		if strings.HasPrefix(r.Err, "returned ") {
			return viol(p, "result", "call %d (%s): %s", i, opName(op), r.Err), ""
		}
		if hit && so.faultErr && r.Err == "" {
			return viol(p, "fault-ignored", "call %d (%s) was hit by %v but returned %s", i, opName(op), r.Fired, r), ""
		}
		ex, mismatch := o.judge(op, r, hit, o.intact(h, 0, i, op, r))
		if ex.St == model.Unknown {
			why = ex.Why
			continue
		}
		if so.fetches && loaderOp {
			if v := fetchCheck(p, h, o, i, op, r, ex, requested, hit); v != nil {
				return v, ""
			}
		}
		if hit {
			decided++
			probe("fault-hit-call")
			continue
		}
		if so.verdicts {
			if mismatch && ex.St == model.OK && r.Err != "" {
				return viol(p, "refused", "call %d (%s) must succeed but returned error: %s", i, opName(op), short(r.Err)), ""
			}
			if loaderOp && ex.St == model.OK {
				decided++
				probe("must-accept")
			}
			if (op.K == "validate" || op.K == "vall") && ex.St == model.OK && ex.VSt == model.OK {
				decided++
				if mismatch && ex.Valid != r.Valid {
					return viol(p, "verdict", "call %d (%s): instance %s must be valid=%v but is valid=%v %s", i, opName(op), short(instText(p, op)), ex.Valid, r.Valid, short(strings.Join(r.Errs, "; "))), ""
				}
				probe(fmt.Sprintf("verdict-%v", ex.Valid))
			} else if ex.VSt == model.Unknown {
				why = ex.Why
			}
		}
		if so.rejects && ex.St == model.Rejected {
			decided++
			probe("must-refuse")
			if mismatch && r.Err == "" {
				return viol(p, "accepted", "call %d (%s) must return an error (%s) but succeeded", i, opName(op), ex.Why), ""
			}
		}
	}
	if why == "" {
		why = o.why
	}
	if so.leaks {
		for i, hd := range h.Handles {
			if !hd.closed {
				return viol(p, "leak", "handle %d on %s is never closed", i, hd.url), ""
			}
		}
		for _, e := range h.Evs {
			if e.Kind == "readclosed" {
				return viol(p, "read-after-close", "%s is read after it was closed", e.URL), ""
			}
		}
		if h.FDs > 0 {
			return viol(p, "leak", "%d file descriptors of loaded files are still open", h.FDs), ""
		}
		decided++
	}
	if decided == 0 {
		if why == "" {
			why = "nothing decided"
		}
		return nil, why
	}
	return nil, ""
}

func instText(p *plan.Plan, op *plan.Op) string {
	if op.Via == "ref" || op.Via == "reffs" {
		return op.URL
	}
	if op.D < len(p.Docs) {
		return p.Docs[op.D]
	}
	return ""
}

// faultState tells whether a fault hit the call. A clean early end that leaves
// another complete document cannot be told apart from a shorter file.
func faultState(p *plan.Plan, r *OpRes) (hit, unknown bool) {
	for _, f := range r.Fired {
		if strings.HasPrefix(f, "trunc? ") {
			unknown = true
		} else {
			hit = true
		}
	}
	return
}

// fetchCheck decides what a loader call requested from outside.
func fetchCheck(p *plan.Plan, h *Hist, o *oracle, i int, op *plan.Op, r *OpRes, ex expect, requested map[string]int, hit bool) *plan.Violation {
	allowed := map[string]bool{}
	for u := range ex.Need {
		allowed[u] = true
		for hops := 0; hops < 8; hops++ {
			found := false
			for _, rs := range o.res {
				if rs.Store == "http" && rs.URL == u && rs.Redirect != "" {
					u = model.Resolve(u, rs.Redirect)
					allowed[u] = true
					found = true
				}
			}
			if !found {
				break
			}
		}
	}
	own := map[string]bool{}
	for _, u := range ownLoads(op) {
		allowed[u], own[u] = true, true
	}
	store := fileStoreOf(op)
	for _, e := range h.Evs {
		if e.Phase != 0 || e.Op != i || (e.Kind != "get" && e.Kind != "open") {
			continue
		}
		if !allowed[e.URL] && ex.St != model.Rejected {
			return viol(p, "request", "call %d (%s) requested %s from %s; the documents it needs are %v", i, opName(op), e.URL, e.Store, keysSorted(allowed))
		}
		if _, b := model.Builtin[e.URL]; b {
			return viol(p, "request", "call %d (%s) requested the built-in meta-schema %s", i, opName(op), e.URL)
		}
		if e.Store != "http" && e.Store != store && !(op.K == "regs" && own[e.URL]) {
			return viol(p, "request", "call %d (%s) opened %s in %s instead of %s", i, opName(op), e.URL, e.Store, store)
		}
		probe("request")
		if op.K == "compile" && !isRedirectTarget(o, e.URL) {
			k := fmt.Sprintf("%d %s", op.L, e.URL)
			requested[k]++
			if requested[k] > 1 && !hit && ex.St == model.OK && r.Err == "" {
				return viol(p, "request", "call %d (%s) requested %s again", i, opName(op), e.URL)
			}
		}
		if hit || r.Err != "" {
			delete(requested, fmt.Sprintf("%d %s", op.L, e.URL))
		}
	}
	return nil
}

func isRedirectTarget(o *oracle, u string) bool {
	for _, r := range o.res {
		if r.Redirect != "" && model.Resolve(r.URL, r.Redirect) == u {
			return true
		}
	}
	return false
}

func keysSorted(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
