package harness

import (
	"strings"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
)

// oracle steps the reference model through a sequential history.
type oracle struct {
	p      *plan.Plan
	docs   []string
	res    []plan.Res
	faults bool
	valid  []bool // Validate setting
	*state
	// cands are the states the loaders may be in: a call that fails may
	// keep documents it obtained intact, or not. cands[0] is state.
	cands []*state
	lost  map[int]bool // loaders whose state is not known
	why   string
}

// state of the simulated world according to the model.
type state struct {
	loaders []*model.Loader
	slots   []*slot
	ex      expect
}

func (s *state) fork() *state {
	return &state{loaders: append([]*model.Loader(nil), s.loaders...), slots: append([]*slot(nil), s.slots...)}
}

type slot struct {
	s   *model.Schema
	st  model.Status
	why string
}

// expect is what an operation must do. St Unknown: no opinion.
type expect struct {
	St    model.Status // OK: no error; Rejected: error
	Valid bool
	VSt   model.Status // of Valid
	Why   string
	Need  map[string]bool // documents it may obtain from outside
}

func newOracle(p *plan.Plan) *oracle {
	o := &oracle{p: p, faults: true, lost: map[int]bool{}, state: &state{slots: make([]*slot, maxSlots)}}
	o.cands = []*state{o.state}
	for _, d := range p.Docs {
		o.docs = append(o.docs, sub(d))
	}
	for _, r := range p.Res {
		r.URL, r.Body, r.Redirect = sub(r.URL), sub(r.Body), sub(r.Redirect)
		o.res = append(o.res, r)
	}
	for _, l := range p.Loaders {
		o.loaders = append(o.loaders, newModelLoader(p, l))
		o.valid = append(o.valid, l.Validate)
	}
	return o
}

func newModelLoader(p *plan.Plan, l plan.LoaderSpec) *model.Loader {
	m := model.NewLoader(l.Auto, model.Draft(l.Draft))
	m.Formats = modelFormats(p)
	m.Meta = func(u string) interface{} { return model.MustDecode(model.MetaText(u)) }
	return m
}

// obtain returns the document found at url, or false.
func (o *oracle) obtain(url, fileStore string) (interface{}, bool) {
	url, _ = model.SplitFrag(url)
	store := "http"
	if strings.HasPrefix(url, "file://") {
		store = fileStore
	}
	for hops := 0; hops < 8; hops++ {
		var r *plan.Res
		for i := range o.res {
			if o.res[i].Store == store && (o.res[i].URL == url || store != "http" && pathOf(o.res[i].URL) == pathOf(url)) {
				r = &o.res[i]
			}
		}
		if r == nil {
			return nil, false
		}
		if store == "http" && r.Redirect != "" {
			url = model.Resolve(url, r.Redirect)
			continue
		}
		if store == "http" && r.Code != 0 && r.Code != 200 {
			return nil, false
		}
		body := r.Body
		if store == "os" && o.faults {
			for _, f := range o.p.Faults {
				if sub(f.URL) == r.URL && (f.Nth == 0 || f.Nth < 0) {
					switch f.Kind {
					case "trunc":
						if f.Off < len(body) {
							body = body[:f.Off]
						}
					default:
						return nil, false
					}
					break // the first fault that matches is the one injected
				}
			}
		}
		v, err := model.Decode(body)
		return v, err == nil
	}
	return nil, false
}

func (o *oracle) files(fileStore string) map[string]interface{} {
	m := map[string]interface{}{}
	for _, r := range o.res {
		if r.Store == "http" || r.Store == fileStore {
			if v, ok := o.obtain(r.URL, fileStore); ok {
				m[r.URL] = v
			}
		}
	}
	return m
}

func fileStoreOf(op *plan.Op) string {
	if op.Via == "reffs" {
		return simFS{op.N}.store()
	}
	return "os"
}

// load is what a JSONLoader yields.
func (o *oracle) load(op *plan.Op, d int) (interface{}, bool) {
	switch op.Via {
	case "ref", "reffs":
		u, _ := model.SplitFrag(sub(op.URL))
		if _, b := model.Builtin[u]; b {
			return model.MustDecode(model.MetaText(u)), true
		}
		return o.obtain(u, fileStoreOf(op))
	}
	if d >= len(o.docs) {
		return nil, false
	}
	v, err := model.Decode(o.docs[d])
	return v, err == nil
}

// judge steps every candidate state over op, which returned r, and keeps those
// that agree. mismatch: none does. opened: documents op obtained intact.
func (o *oracle) judge(op *plan.Op, r *OpRes, hit bool, opened []string) (ex expect, mismatch bool) {
	loaderOp := op.K == "reg" || op.K == "regs" || op.K == "compile"
	if loaderOp && o.lost[op.L] {
		why := o.why
		if why == "" {
			why = "the state of the loader is not known"
		}
		return o.lose(op, why)
	}
	var keep, bad []*state
	var need = map[string]bool{}
	for _, c := range o.cands {
		o.state = c
		before := c.fork()
		c.ex = o.step(op, hit)
		for u := range c.ex.Need {
			need[u] = true
		}
		if c.ex.St == model.Unknown {
			o.why = c.ex.Why
			return o.lose(op, c.ex.Why)
		}
		agrees := hit || c.ex.St == model.OK && r.Err == "" || c.ex.St == model.Rejected && r.Err != ""
		if agrees && !hit && (op.K == "validate" || op.K == "vall") && c.ex.St == model.OK && c.ex.VSt == model.OK && c.ex.Valid != r.Valid {
			agrees = false
		}
		if !agrees {
			bad = append(bad, c)
			continue
		}
		keep = append(keep, c)
		if loaderOp && (hit || c.ex.St == model.Rejected) {
			keep = append(keep, o.kept(before, c, op, hit, opened)...)
		}
	}
	if len(keep) == 0 {
		o.state = o.cands[0]
		ex = o.cands[0].ex
		ex.Need = need
		return ex, true
	}
	if loaderOp && (hit || keep[0].ex.St == model.Rejected) && fileStoreOf(op) == "os" {
		for _, x := range o.res {
			if x.Store == "os" {
				o.lost[op.L] = true // what it read is not observed
			}
		}
	}
	if len(keep) > 24 {
		keep = keep[:1]
		for l := range keep[0].loaders {
			o.lost[l] = true
		}
	}
	o.cands, o.state = keep, keep[0]
	ex = o.ex
	ex.Need = need
	if op.K == "validate" || op.K == "vall" {
		for _, c := range keep {
			if c.ex.VSt == model.Unknown {
				ex.VSt, ex.Why = model.Unknown, c.ex.Why
			}
		}
	}
	return ex, false
}

// lose gives up on what op affects.
func (o *oracle) lose(op *plan.Op, why string) (expect, bool) {
	o.state = o.cands[0]
	switch op.K {
	case "reg", "regs", "compile":
		o.lost[op.L] = true
	}
	if op.K == "compile" || op.K == "newschema" {
		for _, c := range o.cands {
			c.slots[op.S] = &slot{st: model.Unknown, why: why}
		}
	}
	return expect{St: model.Unknown, VSt: model.Unknown, Why: why}, false
}

// kept returns the further states a failed loader call may leave behind.
func (o *oracle) kept(before, after *state, op *plan.Op, hit bool, opened []string) (out []*state) {
	anon := op.K == "compile" && op.Via != "ref" && op.Via != "reffs"
	variant := func(f func(l *model.Loader)) {
		c := after.fork()
		l := before.loaders[op.L].Clone()
		l.Files = o.files(fileStoreOf(op))
		if st, _ := model.Guard(func() { f(l) }); st != model.OK {
			o.lost[op.L] = true
			return
		}
		c.loaders[op.L] = l
		c.ex = after.ex
		out = append(out, c)
	}
	if op.K == "regs" && hit && len(parts(op)) > 1 {
		o.lost[op.L] = true
		return nil
	}
	useUp := func(l *model.Loader) {
		if anon {
			l.Reg[""] = after.loaders[op.L].Reg[""]
			if doc, ok := o.load(op, op.D); ok && !l.Known("") {
				l.UseUp(doc)
			}
		}
	}
	if len(opened) > 0 {
		variant(func(l *model.Loader) {
			useUp(l)
			for _, u := range opened {
				if !l.Known(u) {
					l.Obtain(u)
				}
			}
		})
	}
	if anon {
		variant(useUp)
	}
	return out
}

// ownLoads are the documents a registration obtains through the caller's loaders.
func ownLoads(op *plan.Op) (out []string) {
	ps := []plan.Op{*op}
	if op.K == "regs" {
		ps = parts(op)
	}
	for _, q := range ps {
		if op.K != "compile" && (q.Via == "ref" || q.Via == "reffs") {
			u, _ := model.SplitFrag(sub(q.Arg))
			out = append(out, u)
		}
	}
	return
}

// intact lists the documents a call obtained without a fault, in order.
func (o *oracle) intact(h *Hist, ph, i int, op *plan.Op, r *OpRes) (out []string) {
	faulty := map[string]bool{}
	for _, f := range r.Fired {
		_, u, _ := strings.Cut(f, " ")
		faulty[u] = true
	}
	for _, u := range ownLoads(op) {
		faulty[u] = true // loaded by the caller's loader, not for the pool
	}
	for _, e := range h.Evs {
		if e.Phase != ph || e.Op != i || (e.Kind != "get" && e.Kind != "open") || isRedirectTarget(o, e.URL) {
			continue
		}
		ok := !faulty[e.URL]
		u := e.URL
		for hops := 0; hops < 8; hops++ {
			for _, rs := range o.res {
				if rs.Store == "http" && rs.URL == u && rs.Redirect != "" {
					u = model.Resolve(u, rs.Redirect)
					if faulty[u] {
						ok = false
					}
				}
			}
		}
		if ok {
			if _, got := o.obtain(e.URL, fileStoreOf(op)); got {
				out = append(out, e.URL)
			}
		}
	}
	return
}

// step steps the current state; hit: a fault fired during the call, so its
// effects are undone.
func (o *oracle) step(op *plan.Op, hit bool) (ex expect) {
	switch op.K {
	case "reg", "regs", "compile":
		if op.L >= len(o.loaders) {
			return expect{St: model.Unknown}
		}
		old := o.loaders[op.L]
		l := old.Clone()
		l.Files = o.files(fileStoreOf(op))
		n := len(l.Fetched)
		var sl *slot
		switch op.K {
		case "reg":
			ex = o.reg(l, op, op.D, sub(op.URL))
		case "regs":
			for _, q := range parts(op) {
				if ex = o.reg(l, &q, q.D, ""); ex.St != model.OK {
					break
				}
			}
		case "compile":
			ex, sl = o.compile(l, op)
		}
		ex.Need = map[string]bool{}
		for _, u := range l.Fetched[n:] {
			ex.Need[u] = true
		}
		if !hit && (ex.St != model.Rejected || op.K == "regs") {
			o.loaders[op.L] = l
		}
		if op.K == "compile" {
			if hit || ex.St == model.Rejected {
				o.slots[op.S] = nil
			} else {
				o.slots[op.S] = sl
			}
		}
		return ex
	case "newschema":
		l := newModelLoader(o.p, plan.LoaderSpec{Auto: true})
		l.Files = o.files(fileStoreOf(op))
		ex, sl := o.compile(l, op)
		o.slots[op.S] = sl
		if hit || ex.St == model.Rejected {
			o.slots[op.S] = nil
		}
		ex.Need = map[string]bool{}
		for _, u := range l.Fetched {
			ex.Need[u] = true
		}
		return ex
	case "validate":
		sl := o.slots[op.S]
		if sl == nil {
			return expect{St: model.Rejected}
		}
		if sl.st == model.Unknown {
			return expect{St: model.Unknown, VSt: model.Unknown, Why: sl.why}
		}
		v, ok := o.load(op, op.D)
		if !ok {
			return expect{St: model.Rejected}
		}
		ex.Valid, ex.VSt, ex.Why = sl.s.Valid(v)
		return ex
	case "vall":
		l := newModelLoader(o.p, plan.LoaderSpec{Auto: true})
		l.Files = o.files(fileStoreOf(&plan.Op{Via: op.Via}))
		ex, sl := o.compile(l, op)
		if ex.St != model.OK {
			return ex
		}
		v, ok := o.load(&plan.Op{Via: op.Arg, URL: op.Name}, op.N)
		if !ok {
			return expect{St: model.Rejected, Why: "instance cannot be loaded"}
		}
		ex.Valid, ex.VSt, ex.Why = sl.s.Valid(v)
		return ex
	case "set":
		for _, c := range o.cands {
			l := c.loaders[op.L].Clone() // compiled schemas keep the old one
			switch op.Name {
			case "auto":
				l.Auto = op.N != 0
			case "draft":
				l.Draft = model.Draft(op.N)
			case "validate":
				o.valid[op.L] = op.N != 0
			}
			c.loaders[op.L] = l
		}
		return expect{}
	case "heal":
		o.faults = false
		return expect{}
	case "change":
		for i := range o.res {
			if o.res[i].URL == sub(op.URL) && (op.Name == "" || o.res[i].Store == op.Name) {
				o.res[i].Body = o.docs[op.D]
			}
		}
		return expect{}
	}
	return expect{St: model.Unknown, VSt: model.Unknown}
}

func (o *oracle) meta(l *model.Loader, li int, doc interface{}) {
	if li >= len(o.valid) || !o.valid[li] {
		return
	}
	ms := l.MetaSchema(doc)
	if ms == nil {
		return
	}
	ok, st, why := ms.Valid(doc)
	if st == model.Unknown {
		model.Leave("meta-schema: %s", why)
	}
	if !ok {
		model.Reject("does not conform to its meta-schema")
	}
}

func (o *oracle) reg(l *model.Loader, op *plan.Op, d int, uri string) (ex expect) {
	ex.St, ex.Why = model.Guard(func() {
		lop := *op
		if op.Via == "ref" || op.Via == "reffs" {
			lop.URL = op.Arg
		}
		doc, ok := o.load(&lop, d)
		if !ok {
			model.Reject("cannot load")
		}
		o.meta(l, op.L, doc)
		switch doc.(type) {
		case map[string]interface{}, bool:
		default:
			model.Leave("a registered document is no schema")
		}
		if _, b := model.Builtin[l.TopID(uri, doc)]; b {
			model.Leave("a registered document takes the identifier of a draft")
		}
		l.Declared(doc)
		if !l.Add(uri, doc) {
			model.Reject("already registered")
		}
	})
	return
}

func (o *oracle) compile(l *model.Loader, op *plan.Op) (ex expect, sl *slot) {
	sl = &slot{}
	if op.Via == "ref" || op.Via == "reffs" {
		u := sub(op.URL)
		ex.St, ex.Why = model.Guard(func() {
			if op.K == "compile" && op.L < len(o.valid) && o.valid[op.L] {
				doc := l.Obtain(u)
				o.meta(l, op.L, doc)
			}
		})
		if ex.St == model.OK {
			sl.s, ex.St, ex.Why = l.CompileURL(u)
		}
	} else {
		doc, ok := o.load(op, op.D)
		if !ok {
			return expect{St: model.Rejected}, sl
		}
		ex.St, ex.Why = model.Guard(func() {
			if op.K == "compile" {
				o.meta(l, op.L, doc)
			}
		})
		if ex.St == model.OK {
			sl.s, ex.St, ex.Why = l.CompileDoc(doc)
		}
	}
	sl.st, sl.why = ex.St, ex.Why
	return
}

// instances returns n instances directed at the schema in a slot.
func (o *oracle) instances(r *gen.R, sl *slot, formats []string, n int) []string {
	var out []string
	g := &gen.G{R: r, Formats: formats}
	for k := 0; k < n; k++ {
		it := &gen.I{G: g}
		if sl != nil && sl.s != nil {
			it.Root = sl.s.Root()
			it.Resolve = func(m gen.M) interface{} { return sl.s.Deref(m) }
		}
		best := ""
		for try := 0; try < 4; try++ {
			v := it.Instance()
			best = gen.Text(v)
			if sl == nil || sl.s == nil {
				break
			}
			ok, st, _ := sl.s.Valid(model.MustDecode(best))
			// aim at as many valid as invalid instances inside the domain
			if st == model.OK && ok == (k%2 == 0) {
				break
			}
		}
		out = append(out, best)
	}
	return out
}
