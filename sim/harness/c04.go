package harness

import (
	"fmt"
	"strings"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
)

func init() {
	seq := func(prop, kind string, w int, g func(*gen.R, *plan.Plan), so seqOpts) {
		gi := func(r *gen.R, p *plan.Plan) {
			g(r, p)
			if r.P(20) {
				interfere(r, p)
			}
		}
		register(&Scenario{Prop: prop, Kind: kind, Weight: w, Gen: gi, Check: func(p *plan.Plan) (*plan.Violation, string) {
			return seqCheck(p, Exec(p, Opts{}), so)
		}})
	}
	seq("C04", "faults", 5, genFaults, seqOpts{verdicts: true, rejects: true, faultErr: true})
	seq("C04", "intact", 1, genIntact, seqOpts{verdicts: true, rejects: true, faultErr: true})
	seq("C05", "faults", 4, genFaults, seqOpts{leaks: true})
	register(&Scenario{Prop: "C05", Kind: "concurrent", Weight: 2, Gen: genConcLoads, Check: checkConcLoads})
	register(&Scenario{Prop: "C06", Kind: "retry", Weight: 1, Gen: genRetry, Check: checkRetry})
	seq("C07", "many", 1, genMany, seqOpts{verdicts: true, rejects: true, fetches: true})
	seq("C07", "graph", 18, genRefs, seqOpts{verdicts: true, rejects: true, fetches: true})
	seq("C07", "stores", 12, genStores, seqOpts{verdicts: true, rejects: true, fetches: true})
	seq("C08", "many", 1, genMany, seqOpts{verdicts: true, rejects: true})
	seq("C08", "registrations", 20, genRegs, seqOpts{verdicts: true, rejects: true})
	seq("C09", "drafts", 1, genDrafts, seqOpts{verdicts: true, rejects: true})
	seq("C16", "metaschema", 1, genMeta, seqOpts{verdicts: true, rejects: true, settings: true, faultErr: true})
}

// stepAll runs the oracle over the operations so far, without faults.
func stepAll(p *plan.Plan) *oracle {
	o := newOracle(p)
	o.faults = false
	for i := range p.Setup {
		o.step(&p.Setup[i], false)
	}
	return o
}

// aim appends n validations directed at the schema in slot s.
func aim(r *gen.R, p *plan.Plan, s, n int, remote bool) {
	o := stepAll(p)
	for _, t := range o.instances(r, o.slots[s], p.Formats, n) {
		op := plan.Op{K: "validate", S: s}
		if remote && r.P(35) {
			op.Via = r.S("ref", "reffs")
			u := fmt.Sprintf("http://inst.test/i%d.json", len(p.Res))
			st := "http"
			switch r.N(3) {
			case 0:
				u, st = fmt.Sprintf("file:///inst/i%d.json", len(p.Res)), "fs0"
				op.Via = "reffs"
			case 1:
				u, st = fmt.Sprintf("file://"+osMarker+"/inst/i%d.json", len(p.Res)), "os"
				op.Via = "ref"
			}
			p.Res = append(p.Res, plan.Res{URL: u, Store: st, Body: t, Chunk: chunk(r)})
			if r.P(4) {
				rs := &p.Res[len(p.Res)-1]
				rs.Body = strings.Repeat("  \n", 300+r.N(30000)) + t
				rs.Chunk = 512 + r.N(5000)
			}
			op.URL = u
		} else {
			op.D = addDoc(p, t)
			op.Via = r.S("str", "raw", "go", "bytes")
		}
		p.Setup = append(p.Setup, op)
	}
}

func chunk(r *gen.R) int { return []int{0, 0, 1, 2, 3, 7, 64, 500, 511, 512}[r.N(10)] }

// mode sets how drafts are declared.
func (c *gcfg) mode(r *gen.R, ls *plan.LoaderSpec) {
	ls.Auto = true
	ls.Draft = int(pickDraft(r))
	switch r.N(3) {
	case 0:
		c.declare = 100
	case 1:
		c.declare = 0
	case 2:
		ls.Auto = false
		c.declare = 60
	}
}

func someStores(r *gen.R) []string {
	return [][]string{{"http"}, {"fs"}, {"http", "fs"}, {"http", "http", "fs", "os"}, {"os", "http"}, {"http", "fs"}}[r.N(6)]
}

// shape chunks the resources and hides some behind redirects.
func shape(r *gen.R, p *plan.Plan) {
	n := len(p.Res)
	for i := 0; i < n; i++ {
		rs := &p.Res[i]
		rs.Chunk = chunk(r)
		if r.P(10) {
			rs.Slow = r.N(5000)
		}
		if r.P(10) { // surrounding white space is part of the bytes
			rs.Body = "\n " + rs.Body + " \r\n\t"
		}
		if r.P(4) { // more bytes than any buffer on the way holds
			pad(r, rs)
		}
		if rs.Store == "http" && r.P(15) {
			t := fmt.Sprintf("http://%s.test/moved%d", r.S("a", "m"), i)
			last := t
			if r.P(25) { // moved more than once
				for k := 1 + r.N(6); k > 0; k-- {
					next := fmt.Sprintf("http://%s.test/moved%d-%d", r.S("a", "m"), i, k)
					p.Res = append(p.Res, plan.Res{URL: last, Store: "http", Redirect: next, Code: []int{301, 302, 303, 307, 308}[r.N(5)]})
					last = next
				}
			}
			rs = &p.Res[i] // the list may have moved
			p.Res = append(p.Res, plan.Res{URL: last, Store: "http", Body: rs.Body, Chunk: rs.Chunk})
			rs = &p.Res[i]
			rs.Redirect = t
			if r.P(30) && strings.HasPrefix(rs.URL, "http://a.test/") {
				if strings.HasPrefix(t, "http://a.test/") {
					rs.Redirect = t[len("http://a.test"):]
				}
			}
			rs.Code = []int{301, 302, 303, 307, 308}[r.N(5)]
			rs.Body = ""
		}
	}
}

// pad makes a document large without changing what it says.
func pad(r *gen.R, rs *plan.Res) {
	n := []int{600, 1100, 2100, 4100, 5000, 9000, 17000, 33000, 66000, 70000, 140000}[r.N(11)]
	if r.P(5) {
		n = 1100000
	}
	i := strings.IndexByte(rs.Body, '{')
	if i < 0 || strings.TrimSpace(rs.Body[:i]) != "" || strings.TrimSpace(rs.Body[i+1:]) == "}" || r.P(40) {
		rs.Body = strings.Repeat(r.S(" ", "\n", "\t "), n) + rs.Body
	} else {
		rs.Body = rs.Body[:i+1] + `"$comment":"` + strings.Repeat("ab ", n/3) + `",` + rs.Body[i+1:]
	}
	rs.Chunk = []int{0, 512, 1000, 1460, 4096, 8192, 65536}[r.N(7)]
}

var badStatus = []int{201, 202, 203, 204, 205, 206, 226, 300, 304, 400, 401, 403, 404, 408, 410, 418, 429, 500, 502, 503, 504, 299}

// fault places one fault on a resource.
func fault(r *gen.R, rs plan.Res, nth int) plan.Fault {
	f := plan.Fault{URL: rs.URL, Nth: nth, Kind: r.S("dial", "status", "status", "reset", "reset", "short", "timeout", "trunc", "trunc", "stall", "redirloop")}
	n := len(rs.Body)
	switch r.N(6) {
	case 0:
		f.Off = 0
	case 1:
		f.Off = n
	case 2:
		f.Off = n - 1
	case 3:
		f.Off = r.N(n + 1)
	default:
		f.Off = r.N(n + 1)
		if n > 600 && r.P(40) {
			f.Off = 508 + r.N(8)
		}
	}
	if f.Off < 0 {
		f.Off = 0
	}
	if f.Kind == "status" {
		f.Arg = badStatus[r.N(len(badStatus))]
	} else if r.P(30) {
		f.Arg = 1
	}
	return f
}

// remoteRegs lets some registrations load their document from outside.
func remoteRegs(r *gen.R, p *plan.Plan, ops []plan.Op) {
	for i := range ops {
		if len(ops[i].Sub) > 0 {
			remoteRegs(r, p, ops[i].Sub)
			continue
		}
		if !r.P(35) {
			continue
		}
		op := &ops[i]
		d := op.D
		if op.K == "regs" && len(op.Ds) > 0 {
			d = op.Ds[0]
		}
		k := len(p.Res)
		op.Via, op.Arg = "ref", fmt.Sprintf("http://src.test/s%d", k)
		st := "http"
		switch r.N(3) {
		case 0:
			op.Via, op.Arg, st = "reffs", fmt.Sprintf("file:///src/s%d", k), "fs0"
		case 1:
			op.Arg, st = fmt.Sprintf("file://"+osMarker+"/src/s%d", k), "os"
		}
		p.Res = append(p.Res, plan.Res{URL: op.Arg, Store: st, Body: p.Docs[d]})
	}
}

func faultyGraph(r *gen.R, p *plan.Plan, retries bool) *graph {
	mapOrder(r, p)
	var ls plan.LoaderSpec
	cfg := gcfg{ndocs: 1 + r.N(4), stores: someStores(r), regPct: 35, escapes: r.P(20), idPct: 30, anon: 25, rich: 25, sens: 20, missing: 5, deep: 15, multi: r.P(35)}
	if retries {
		cfg.anon, cfg.missing, cfg.multi = 0, 0, false
	}
	cfg.mode(r, &ls)
	ls.Validate = r.P(25)
	custom := retries && r.P(35) || !retries && r.P(12)
	if custom {
		ls.Validate, ls.Auto, cfg.declare = true, true, 0
	}
	p.Loaders = []plan.LoaderSpec{ls}
	g := &graph{R: r, cfg: cfg, loader: ls}
	g.build()
	g.install(p, 0, 0)
	if custom {
		customMeta(r, p, g, 0)
	}
	return g
}

func genFaults(r *gen.R, p *plan.Plan) {
	g := faultyGraph(r, p, false)
	regs := g.regOps(0)
	remoteRegs(r, p, regs)
	comp := g.compileOp(0, 0, 0, 0)
	p.Setup = append(p.Setup, regs...)
	p.Setup = append(p.Setup, comp)
	if r.P(40) && g.cfg.ndocs > 1 {
		p.Setup = append(p.Setup, g.compileOp(0, 1+r.N(g.cfg.ndocs-1), 1, 0))
	}
	aim(r, p, 0, 3, true)
	vall(r, p)
	defer elsewhere(r, p)
	shape(r, p)
	if len(p.Res) > 0 {
		for k := 1 + r.N(2); k > 0; k-- {
			nth := 0
			if r.P(20) {
				nth = -1
			}
			p.Faults = append(p.Faults, fault(r, p.Res[r.N(len(p.Res))], nth))
		}
	}
}

// elsewhere puts documents where a load that went wrong might look next.
func elsewhere(r *gen.R, p *plan.Plan) {
	have := map[string]bool{}
	for _, x := range p.Res {
		have[x.URL] = true
	}
	for _, x := range p.Res[:len(p.Res):len(p.Res)] {
		if x.Store != "http" || !r.P(30) {
			continue
		}
		var us []string
		if s := strings.TrimPrefix(x.URL, "https://"); s != x.URL {
			us = append(us, "http://"+s)
		}
		if s := strings.TrimPrefix(x.URL, "http://"); s != x.URL {
			us = append(us, "https://"+s)
		}
		us = append(us, x.URL+".json", x.URL+"/", strings.TrimSuffix(x.URL, ".json"))
		if i := strings.IndexByte(x.URL, '?'); i > 0 {
			us = append(us, x.URL[:i])
		}
		if u := us[r.N(len(us))]; !have[u] {
			have[u] = true
			y := plan.Res{URL: u, Store: "http", Body: x.Body, Chunk: chunk(r)}
			if r.P(30) {
				y.Body = "true"
			}
			p.Res = append(p.Res, y)
		}
	}
}

// vall turns some validations into calls that load schema and instance.
func vall(r *gen.R, p *plan.Plan) {
	var comp plan.Op
	n := len(p.Setup)
	if !p.Loaders[0].Auto {
		// documents of different drafts must all declare theirs
		return
	}
	for i := 0; i < n; i++ {
		switch op := p.Setup[i]; {
		case op.K == "compile" && op.S == 0:
			comp = op
		case op.K == "validate" && op.S == 0 && comp.K != "" && comp.Via != "reffs" && r.P(30):
			q := plan.Op{K: "vall", D: comp.D, Via: comp.Via, URL: comp.URL, Arg: op.Via, Name: op.URL, N: op.D}
			if q.Arg == "reffs" {
				q.N = 0
			}
			p.Setup = append(p.Setup, q)
		}
	}
}

func genIntact(r *gen.R, p *plan.Plan) {
	genFaults(r, p)
	p.Faults = nil
}

// ---- C05, concurrent

func genConcLoads(r *gen.R, p *plan.Plan) {
	g := faultyGraph(r, p, false)
	p.Sched.Seed = r.U()
	p.Sched.Gap = []int{1, 2, 4, 8, 20, 60}[r.N(6)]
	nt := 2 + r.N(2)
	p.Loaders = nil
	for t := 0; t < nt; t++ {
		p.Loaders = append(p.Loaders, g.loader)
		ops := g.regOps(t)
		c := g.compileOp(t, r.N(len(g.docs)), t, 0)
		ops = append(ops, c)
		if u := c.URL; u != "" && c.Via == "ref" && r.P(30) {
			ops = append(ops, plan.Op{K: "validate", S: t, Via: "ref", URL: u})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	shape(r, p)
	for k := r.N(4); k > 0 && len(p.Res) > 0; k-- {
		p.Faults = append(p.Faults, fault(r, p.Res[r.N(len(p.Res))], r.N(4)-1))
	}
}

func checkConcLoads(p *plan.Plan) (*plan.Violation, string) {
	h := Exec(p, Opts{})
	if s := h.skip(); s != "" {
		return nil, s
	}
	if v := bad(p, h); v != nil {
		return v, ""
	}
	for t := range p.Tasks {
		for j, x := range h.Tasks[t] {
			if x.Leak != "" {
				return viol(p, "leak", "task %d call %d (%s) returned (%s) with %s still open", t, j, opName(&p.Tasks[t][j]), x, x.Leak), ""
			}
		}
	}
	if v := handlesClosed(p, h); v != nil {
		return v, ""
	}
	if len(h.Handles) == 0 {
		return nil, "nothing was opened"
	}
	probe("conc-load")
	return nil, ""
}

func handlesClosed(p *plan.Plan, h *Hist) *plan.Violation {
	for i, hd := range h.Handles {
		if !hd.closed {
			return viol(p, "leak", "handle %d on %s is never closed", i, hd.url)
		}
	}
	for _, e := range h.Evs {
		if e.Kind == "readclosed" {
			return viol(p, "read-after-close", "%s is read after it was closed", e.URL)
		}
	}
	if h.FDs > 0 {
		return viol(p, "leak", "%d file descriptors of loaded files are still open", h.FDs)
	}
	return nil
}

// ---- C06

func genRetry(r *gen.R, p *plan.Plan) {
	g := faultyGraph(r, p, true)
	regs := g.regOps(0)
	remoteRegs(r, p, regs)
	comp := g.compileOp(0, 0, 0, 0)
	var others []plan.Op
	if r.P(50) && g.cfg.ndocs > 1 {
		others = append(others, g.compileOp(0, 1+r.N(g.cfg.ndocs-1), 1, 0))
	}
	for k := range others {
		others[k].Via = comp.Via // one way to obtain each document
	}
	for _, op := range regs {
		for k := r.N(3); k >= 0; k-- {
			p.Setup = append(p.Setup, op)
		}
	}
	for k := r.N(3); k >= 0; k-- {
		p.Setup = append(p.Setup, comp)
		if r.P(30) {
			p.Setup = append(p.Setup, others...)
		}
	}
	p.Setup = append(p.Setup, plan.Op{K: "heal"})
	p.Setup = append(p.Setup, regs...)
	p.Setup = append(p.Setup, others...)
	p.Setup = append(p.Setup, comp)
	aim(r, p, 0, 4, false)
	shape(r, p)
	for k := 1 + r.N(4); k > 0 && len(p.Res) > 0; k-- {
		p.Faults = append(p.Faults, fault(r, p.Res[r.N(len(p.Res))], r.N(4)-1))
	}
	if r.P(20) {
		interfere(r, p)
	}
}

// customMeta makes some documents name a meta-schema that must be loaded.
func customMeta(r *gen.R, p *plan.Plan, g *graph, base int) {
	u := "http://meta.test/schema.json"
	body := gen.Text(gen.M{"$schema": model.SchemaURL(model.D7) + "#", "type": "object", "required": gen.A{"properties"}})
	if r.P(30) {
		p.Res = append(p.Res, plan.Res{URL: "http://meta.test/part.json", Store: "http", Body: body})
		body = gen.Text(gen.M{"allOf": gen.A{gen.M{"$ref": "part.json"}}})
	}
	p.Res = append(p.Res, plan.Res{URL: u, Store: "http", Body: body})
	for i, d := range g.docs {
		if !r.P(60) {
			continue
		}
		m := model.MustDecode(d.text).(map[string]interface{})
		m["$schema"] = u
		t := gen.Text(m)
		for k := range p.Res {
			if p.Res[k].Body == d.text {
				p.Res[k].Body = t
			}
		}
		p.Docs[base+i] = t
		d.text = t
	}
}

func checkRetry(p *plan.Plan) (*plan.Violation, string) {
	h := Exec(p, Opts{})
	v, skip := seqCheck(p, h, seqOpts{verdicts: true, rejects: true, settings: true})
	if v != nil || skip != "" {
		return v, skip
	}
	b := Exec(p, Opts{NoFaults: true})
	if s := b.skip(); s != "" {
		return nil, s
	}
	if _, why := b.abnormal(); why != "" {
		return nil, "baseline abnormal"
	}
	healed := false
	for i := range p.Setup {
		if p.Setup[i].K == "heal" {
			healed = true
		}
		if healed && (p.Setup[i].K == "validate" || p.Setup[i].K == "compile") && !sameSig(b.Setup[i], h.Setup[i]) {
			return viol(p, "trace", "call %d (%s) after faults stopped differs from a history without faults\n%s", i, opName(&p.Setup[i]), diff(b.Setup[i], h.Setup[i])), ""
		}
	}
	if len(h.Fired) > 0 {
		probe("retry-after-fault")
	}
	return nil, ""
}

// ---- C07

func genRefs(r *gen.R, p *plan.Plan) {
	mapOrder(r, p)
	var ls plan.LoaderSpec
	cfg := gcfg{ndocs: 1 + r.N(5), stores: someStores(r), regPct: 40, escapes: r.P(40), idPct: 40, anon: 30, rich: 5, sens: 5, missing: 5, deep: 40, multi: r.P(30), repeat: 10}
	cfg.mode(r, &ls)
	if !ls.Auto || cfg.declare == 100 {
		cfg.meta = []int{0, 0, 5, 15}[r.N(4)]
	}
	ls.Validate = r.P(25)
	p.Loaders = []plan.LoaderSpec{ls}
	g := &graph{R: r, cfg: cfg, loader: ls}
	g.build()
	g.install(p, 0, 0)
	p.Setup = append(p.Setup, g.regOps(0)...)
	compileSome(r, p, g)
	shape(r, p)
}

// compileSome compiles several documents of the graph in random order.
func compileSome(r *gen.R, p *plan.Plan, g *graph) {
	n := len(g.docs)
	first := r.N(n)
	slot := 0
	for k := 0; k < n && slot < 3; k++ {
		d := (first + k) % n
		if k > 0 && r.P(40) {
			continue
		}
		p.Setup = append(p.Setup, g.compileOp(0, d, slot, 0))
		aim(r, p, slot, 3, false)
		slot++
	}
}

// genMany is about loaders that know many documents.
func genMany(r *gen.R, p *plan.Plan) {
	mapOrder(r, p)
	ls := plan.LoaderSpec{Auto: r.P(50), Draft: int([]model.Draft{model.Hybrid, model.D6, model.D7}[r.N(3)])}
	p.Loaders = []plan.LoaderSpec{ls}
	n := 5 + r.N([]int{20, 60, 120}[r.N(3)])
	reg := []int{0, 30, 100}[r.N(3)]
	url := func(i int) string {
		if i%5 == 3 {
			return fmt.Sprintf("file:///many/%d.json", i)
		}
		return fmt.Sprintf("http://many.test/%d.json", i)
	}
	ref := func(i int) gen.M { return gen.M{"$ref": url(i) + r.S("", "", "#", "#/definitions/d")} }
	var regs []plan.Op
	for i := 0; i < n; i++ {
		d := gen.M{"definitions": gen.M{"d": gen.M{"enum": gen.A{fmt.Sprint("T", i), gen.Int(i)}}}, "properties": gen.M{"x": gen.M{"enum": gen.A{gen.Int(i)}}}}
		if i+1 < n && r.P(60) {
			d["properties"].(gen.M)["n"] = ref(i + 1 + r.N(n-i-1))
		}
		if r.P(reg) {
			op := plan.Op{K: "reg", URL: url(i), D: addDoc(p, gen.Text(d)), Via: r.S("str", "raw")}
			if r.P(40) {
				d["$id"] = url(i)
				op = plan.Op{K: "regs", Ds: []int{addDoc(p, gen.Text(d))}, Via: op.Via}
				if strings.HasPrefix(url(i), "file") {
					op.K, op.D, op.Ds, op.URL = "reg", op.Ds[0], nil, fmt.Sprintf("http://many.test/x/%d", i)
				}
			}
			regs = append(regs, op)
			if r.P(40) {
				continue // nothing at the URL
			}
			d = gen.M{"not": gen.M{}}
		}
		st := "http"
		if strings.HasPrefix(url(i), "file") {
			st = "fs0"
		}
		p.Res = append(p.Res, plan.Res{URL: url(i), Store: st, Body: gen.Text(d), Chunk: chunk(r)})
	}
	for i := len(regs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		regs[i], regs[j] = regs[j], regs[i]
	}
	p.Setup = append(p.Setup, regs...)
	again := func() { // a duplicate
		if len(regs) > 0 && r.P(50) {
			op := regs[r.N(len(regs))]
			if op.K == "reg" && r.P(60) {
				op.D = addDoc(p, gen.Text(gen.M{"not": gen.M{}}))
			}
			p.Setup = append(p.Setup, op)
		}
	}
	again()
	slot := 0
	for k := 1 + r.N(3); k > 0; k-- {
		root := gen.M{"properties": gen.M{}}
		var is []int
		for j := 1 + r.N(n); j > 0; j-- {
			i := r.N(n)
			is = append(is, i)
			root["properties"].(gen.M)[fmt.Sprint("p", i)] = ref(i)
		}
		u := fmt.Sprintf("http://many.test/root%d", slot)
		p.Res = append(p.Res, plan.Res{URL: u, Store: "http", Body: gen.Text(root)})
		p.Setup = append(p.Setup, plan.Op{K: "compile", URL: u, S: slot, Via: "reffs"})
		for j := 0; j < 4; j++ {
			i := is[r.N(len(is))]
			v := []interface{}{fmt.Sprint("T", i), gen.Int(i), "T", gen.M{"x": gen.Int(i)}, gen.M{"x": gen.Int(i + 1)}, gen.M{"n": gen.M{"x": gen.Int(r.N(n)), "n": fmt.Sprint("T", r.N(n))}}}[r.N(6)]
			p.Setup = append(p.Setup, plan.Op{K: "validate", S: slot, D: addDoc(p, gen.Text(gen.M{fmt.Sprint("p", i): v})), Via: "str"})
		}
		slot++
		again()
	}
}

// genStores puts different documents at the same path of different stores.
func genStores(r *gen.R, p *plan.Plan) {
	mapOrder(r, p)
	var ls plan.LoaderSpec
	cfg := gcfg{ndocs: 2 + r.N(3), stores: []string{"os"}, regPct: 25, idPct: 15, anon: 0, rich: 0, sens: 0}
	cfg.mode(r, &ls)
	ls.Validate = r.P(40)
	p.Loaders = []plan.LoaderSpec{ls}
	g := &graph{R: r, cfg: cfg, loader: ls}
	g.build()
	for _, d := range g.docs {
		p.Docs = append(p.Docs, d.text)
	}
	stores := []string{"os", "fs0", "fs1"}
	for k, st := range stores {
		for _, d := range g.docs {
			if d.store == "" {
				continue
			}
			if k > 0 && r.P(10) {
				continue // absent there
			}
			// each store has its own tags
			body := strings.ReplaceAll(d.text, `"T`, fmt.Sprintf(`"%c`, "TUV"[k]))
			p.Res = append(p.Res, plan.Res{URL: d.url, Store: st, Body: body, Chunk: chunk(r)})
		}
	}
	p.Setup = append(p.Setup, g.regOps(0)...)
	n := 1 + r.N(3)
	for k := 0; k < n; k++ {
		d := r.N(len(g.docs))
		op := g.compileOp(0, d, k, 0)
		switch r.N(3) {
		case 0:
			op.Via, op.N = "reffs", 0
		case 1:
			op.Via, op.N = "reffs", 1
		default:
			op.Via, op.N = "ref", 0
		}
		p.Setup = append(p.Setup, op)
		aim(r, p, k, 3, false)
	}
}

// ---- C08

func genRegs(r *gen.R, p *plan.Plan) {
	mapOrder(r, p)
	ls := plan.LoaderSpec{Auto: r.P(80), Draft: []int{0, 7}[r.N(2)], Validate: r.P(15)}
	p.Loaders = []plan.LoaderSpec{ls}
	uris := []string{"http://a.test/s/u0", "http://a.test/s/u1", "http://a.test/s/u2.json", "http://b.test/u3", "file:///data/u4", "http://a.test/s/u5"}
	uris = uris[:3+r.N(4)]
	tag := 0
	// either no document declares its draft, or all do
	declare := r.P(40)
	drafts := []model.Draft{model.D6, model.D7, model.D7}
	mark := func(m gen.M) {
		if declare {
			m["$schema"] = model.SchemaURL(drafts[r.N(3)]) + r.S("#", "")
		}
	}
	mkDoc := func(self string, allowID bool) (string, string) {
		tag++
		m := gen.M{"enum": gen.A{fmt.Sprintf("T%d", tag)}}
		if r.P(25) {
			// reaches further through another URI
			m = gen.M{"anyOf": gen.A{m, gen.M{"items": gen.M{"$ref": uris[r.N(len(uris))]}, "type": "array"}}}
		}
		id := ""
		if allowID {
			id = uris[r.N(len(uris))]
			m["$id"] = id
			if r.P(20) && strings.HasPrefix(self, "http://a.test/s/") && strings.HasPrefix(id, "http://a.test/s/") {
				m["$id"] = id[len("http://a.test/s/"):]
			}
			if r.P(15) {
				m["$id"] = m["$id"].(string) + "#"
			}
		}
		if r.P(30) {
			in := gen.M{"enum": gen.A{fmt.Sprintf("N%d", tag)}}
			if r.P(50) { // may claim a URI that is taken
				in["$id"] = uris[r.N(len(uris))]
			}
			m["definitions"] = gen.M{"in": in}
		}
		mark(m)
		if r.P(10) {
			m["type"] = r.S("string", "array", "bogus") // some are refused for another reason
		}
		return gen.Text(m), id
	}
	for _, u := range uris {
		if r.P(45) && strings.HasPrefix(u, "http") {
			t, _ := mkDoc(u, r.P(20))
			p.Res = append(p.Res, plan.Res{URL: u, Store: "http", Body: t})
			if r.P(25) {
				p.Faults = append(p.Faults, fault(r, p.Res[len(p.Res)-1], r.N(2)))
			}
		}
	}
	probes := 0
	probeAll := func() {
		var all gen.A
		for _, u := range uris {
			all = append(all, u)
		}
		for _, u := range uris {
			if r.P(25) {
				continue
			}
			m := gen.M{"$ref": u}
			if r.P(40) {
				m = gen.M{"allOf": gen.A{m}}
			}
			if m["$ref"] == nil {
				mark(m)
			}
			d := addDoc(p, gen.Text(m))
			pu := fmt.Sprintf("http://probe.test/%d", probes)
			probes++
			p.Setup = append(p.Setup, plan.Op{K: "reg", URL: pu, D: d}, plan.Op{K: "compile", URL: pu, Via: "ref", S: probes % 8})
			for k := 0; k < 3; k++ {
				t := 1 + r.N(tag+1)
				p.Setup = append(p.Setup, plan.Op{K: "validate", S: probes % 8, D: addDoc(p, fmt.Sprintf(`"%s%d"`, r.S("T", "T", "N"), t))})
			}
			aim(r, p, probes%8, 2, false)
		}
	}
	n := 3 + r.N(6)
	var mine []int
	for k := 0; k < n; k++ {
		u := uris[r.N(len(uris))]
		switch r.N(8) {
		case 0, 1, 2, 3:
			t, _ := mkDoc(u, r.P(35))
			d := addDoc(p, t)
			if mine = append(mine, d); r.P(15) { // the same document once more
				d = mine[r.N(len(mine))]
				for _, op := range p.Setup {
					if op.K == "reg" && op.D == d && r.P(70) {
						u = strings.TrimSuffix(op.URL, "#")
					}
				}
			}
			if r.P(10) {
				u += "#"
			}
			p.Setup = append(p.Setup, plan.Op{K: "reg", URL: u, D: d, Via: r.S("str", "raw", "go")})
		case 4, 5:
			t, _ := mkDoc("", true)
			ds := []int{addDoc(p, t)}
			if mine = append(mine, ds[0]); r.P(15) {
				ds[0] = mine[r.N(len(mine))]
			}
			if r.P(25) {
				t, _ := mkDoc("", true)
				ds = append(ds, addDoc(p, t))
			}
			p.Setup = append(p.Setup, plan.Op{K: "regs", Ds: ds})
		case 6:
			if r.P(40) { // a part that isn't there
				u += r.S("#/definitions/nope", "#/definitions/in", "#/enum/0/x")
			}
			p.Setup = append(p.Setup, plan.Op{K: "compile", URL: u, Via: "ref", S: 8 + r.N(4)})
		case 7:
			if r.P(30) {
				d := addDoc(p, r.S("{", "nope", "[1", ""))
				p.Setup = append(p.Setup, plan.Op{K: "reg", URL: u, D: d})
			} else if k > 0 {
				probeAll()
			}
		}
	}
	probeAll()
}

// ---- C09

func genDrafts(r *gen.R, p *plan.Plan) {
	mapOrder(r, p)
	var ls plan.LoaderSpec
	cfg := gcfg{ndocs: 1 + r.N(4), stores: [][]string{{"http"}, {"http", "fs"}, {"http", "fs", "os"}}[r.N(3)], regPct: 45, idPct: 20, anon: 30, rich: 10, sens: 75, deep: 20, multi: r.P(25)}
	cfg.mode(r, &ls)
	p.Loaders = []plan.LoaderSpec{ls}
	if cfg.declare == 0 && r.P(30) {
		cfg.odd = 40
	}
	g := &graph{R: r, cfg: cfg, loader: ls}
	g.build()
	g.install(p, 0, 0)
	regs := g.regOps(0)
	n := len(g.docs)
	first := r.N(n)
	slot := 0
	p.Setup = append(p.Setup, regs...)
	for k := 0; k < n && slot < 4; k++ {
		d := (first + k) % n
		if k > 0 && r.P(30) {
			continue
		}
		p.Setup = append(p.Setup, g.compileOp(0, d, slot, 0))
		aim(r, p, slot, 4, false)
		slot++
		if cfg.declare == 0 && r.P(30) {
			p.Setup = append(p.Setup, plan.Op{K: "set", Name: "draft", N: int(pickDraft(r))})
		}
	}
	if r.P(30) { // once more, now that everything is known
		p.Setup = append(p.Setup, g.compileOp(0, g.lastURL(), slot, 0))
		aim(r, p, slot, 3, false)
	}
}

func (g *graph) lastURL() int {
	for i := len(g.docs) - 1; i >= 0; i-- {
		if g.docs[i].url != "" {
			return i
		}
	}
	return 0
}

// ---- C16

// breaks are keyword values that some meta-schema forbids.
var breaks = []gen.M{
	{"enum": gen.A{}}, {"allOf": gen.A{}}, {"anyOf": gen.A{}}, {"items": gen.A{}}, {"readOnly": "x"}, {"$comment": gen.Int(5)},
	{"examples": gen.Int(3)}, {"required": gen.A{}}, {"required": gen.A{"a", "a"}}, {"default": gen.Int(1)}, {"title": gen.Int(3)},
	{"type": gen.A{}}, {"uniqueItems": "x"}, {"minLength": gen.Num("-1")}, {"additionalItems": gen.Int(4)}, {"multipleOf": gen.Int(0)},
	{"definitions": gen.M{"a": gen.A{}}}, {"properties": gen.A{}}, {"dependencies": gen.M{"a": gen.A{}}}, {"const": gen.Int(1)},
	{"if": gen.Int(3)}, {"contentEncoding": gen.Int(3)}, {"contains": gen.A{}}, {"exclusiveMinimum": true}, {"exclusiveMinimum": gen.Int(3)},
	{"minimum": gen.Int(1), "exclusiveMinimum": true}, {"propertyNames": gen.Int(3)}, {"not": gen.Int(3)}, {"format": gen.Int(2)},
	{"maxLength": gen.Num("1.5")}, {"pattern": gen.Int(4)}, {"oneOf": gen.M{}}, {"patternProperties": gen.M{"a": gen.Int(1)}}, {"$schema": gen.Int(3)},
	{"id": gen.Int(3)}, {"then": gen.A{}}, {"dependencies": gen.M{"a": gen.A{"x", "x"}}}, {"examples": gen.A{}}, {"readOnly": true},
	{"type": "bogus"}, {"maxItems": "3"}, {"minProperties": gen.Num("-2")}, {"else": gen.Int(0)}, {"contentMediaType": gen.A{}},
	{"$ref": gen.Int(3)}, {"$ref": gen.A{}}, {"$id": gen.Int(3)}, {"maximum": "x"}, {"minimum": gen.A{}}, {"description": false}, {"additionalProperties": gen.Int(3)},
	{"maxProperties": gen.M{}}, {"minItems": gen.Num("-1")}, {"exclusiveMaximum": "1"}, {"multipleOf": gen.Num("-2")}, {"type": gen.A{"string", "string"}},
	{"enum": gen.M{}}, {"required": "a"}, {"required": true}, {"anyOf": gen.A{gen.Int(1)}}, {"items": "x"}, {"items": gen.A{gen.M{}, gen.Int(1)}},
	{"definitions": gen.A{}}, {"dependencies": gen.M{"a": "b"}}, {"dependencies": gen.A{}}, {"default": nil}, {"uniqueItems": nil}, {"type": nil},
}

func wrap(r *gen.R, m gen.M) gen.M {
	switch r.N(8) {
	case 0:
		return gen.M{"properties": gen.M{"a": m}}
	case 1:
		return gen.M{"items": m}
	case 2:
		return gen.M{"definitions": gen.M{"unused": m}}
	case 3:
		return gen.M{"not": gen.M{"anyOf": gen.A{m}}}
	case 4:
		return gen.M{"title": "t", "properties": gen.M{"x": gen.M{"additionalProperties": m}}}
	}
	return m
}

func genMeta(r *gen.R, p *plan.Plan) {
	mapOrder(r, p)
	ls := plan.LoaderSpec{Auto: r.P(70), Draft: int(pickDraft(r)), Validate: r.P(90)}
	p.Loaders = []plan.LoaderSpec{ls}
	cm := r.S("http://meta.test/m.json", "http://meta.test/m.json", "http://meta.test/m.json?v=1", "http://meta.test/m?draft-07/schema", "https://meta.test/draft-07/schema", "http://meta.test/")
	var cmText string
	switch r.N(5) {
	case 0:
		cmText = gen.Text(gen.M{"$schema": model.SchemaURL(model.D7) + "#", "required": gen.A{"title"}})
	case 1:
		cmText = gen.Text(gen.M{"properties": gen.M{"title": gen.M{"pattern": "^x"}}, "allOf": gen.A{gen.M{"$ref": model.SchemaURL(model.D7) + "#"}}})
	case 2:
		cmText = gen.Text(gen.M{"$id": cm, "$schema": model.SchemaURL(model.D6) + "#", "propertyNames": gen.M{"enum": gen.A{"$schema", "title", "properties", "$id", "type", "enum"}}})
	case 3:
		cmText = gen.Text(gen.M{"allOf": gen.A{gen.M{"$ref": "part.json#/definitions/d"}}})
		p.Res = append(p.Res, plan.Res{URL: "http://meta.test/part.json", Store: "http", Body: gen.Text(gen.M{"definitions": gen.M{"d": gen.M{"required": gen.A{"title"}}}})})
	case 4: // a meta-schema that is itself broken
		cmText = gen.Text(gen.M{"type": "bogus"})
	}
	ms := cm // what $schema says
	if r.P(15) && !strings.Contains(cmText, "$id") {
		m := model.MustDecode(cmText).(map[string]interface{})
		o := gen.M{"definitions": gen.M{"m": m}}
		if s, ok := m["$schema"]; ok {
			delete(m, "$schema")
			o["$schema"] = s
		}
		if r.P(50) {
			o["enum"] = gen.A{gen.Int(1)}
		}
		cmText, ms = gen.Text(o), cm+"#/definitions/m"
	}
	regMeta := r.P(35)
	if !regMeta {
		p.Res = append(p.Res, plan.Res{URL: cm, Store: "http", Body: cmText})
	}
	mk := func() gen.M {
		var m gen.M
		switch r.N(5) {
		case 0, 1:
			m = wrap(r, clone(breaks[r.N(len(breaks))]))
			if r.P(6) { // and many more times
				ps := gen.M{}
				for k := 20 + r.N(150); k > 0; k-- {
					ps[fmt.Sprint("p", k)] = clone(breaks[r.N(len(breaks))])
				}
				m = gen.M{r.S("properties", "definitions", "patternProperties"): ps}
			}
		case 2:
			g := &gen.G{R: r, D: pickDraft(r), Lean: true}
			m = g.Doc(1)
		case 3:
			m = gen.M{"title": r.S("x", "y")}
		default:
			m = gen.M{"type": r.S("string", "object"), "title": "xt"}
		}
		if _, has := m["$schema"]; !has {
			switch r.N(4) {
			case 0, 1:
				m["$schema"] = model.SchemaURL([]model.Draft{model.D4, model.D6, model.D7}[r.N(3)]) + r.S("#", "")
			case 2:
				m["$schema"] = ms
			}
		}
		if r.P(6) { // everything beside a $ref is still part of the document
			if _, has := m["definitions"]; !has {
				m["definitions"] = gen.M{}
			}
			if ds, ok := m["definitions"].(gen.M); ok {
				if _, has := ds["here"]; !has {
					ds["here"] = gen.M{"type": "string"}
				}
				m["$ref"] = "#/definitions/here"
			}
		}
		return m
	}
	if regMeta {
		d := addDoc(p, cmText)
		p.Setup = append(p.Setup, plan.Op{K: "reg", URL: cm, D: d})
	}
	n := 4 + r.N(6)
	for k := 0; k < n; k++ {
		m := mk()
		if r.P(5) { // it names itself as its own meta-schema
			m = wrap(r, clone(breaks[r.N(len(breaks))]))
			for _, u := range []string{cm, model.SchemaURL([]model.Draft{model.D4, model.D6, model.D7}[r.N(3)])} {
				if r.P(50) {
					m["$schema"] = u
				}
			}
			if u, ok := m["$schema"].(string); ok {
				if strings.Contains(u, "draft-04") {
					m["id"] = u
				} else {
					m["$id"] = u
				}
				p.Setup = append(p.Setup, plan.Op{K: "reg", URL: fmt.Sprintf("http://self.test/%d", k), D: addDoc(p, gen.Text(m))})
				continue
			}
		}
		if r.P(6) { // a part of a document
			b := wrap(r, clone(breaks[r.N(len(breaks))]))
			u := fmt.Sprintf("http://part.test/%d", k)
			p.Res = append(p.Res, plan.Res{URL: u, Store: "http", Body: gen.Text(gen.M{"definitions": gen.M{"d": b, "e": gen.M{"type": "string"}}}), Chunk: chunk(r)})
			p.Setup = append(p.Setup, plan.Op{K: "compile", URL: u + r.S("#/definitions/d", "#/definitions/d", "#/definitions/e"), Via: "ref", S: k})
			continue
		}
		if r.P(6) { // not an object
			t := r.S("12", `"x"`, "[1]", "null", "true", "false", "[]", `[{"type":"string"}]`)
			u := fmt.Sprintf("http://n.test/%d", k)
			if r.P(70) {
				p.Setup = append(p.Setup, plan.Op{K: "reg", URL: u, D: addDoc(p, t), Via: r.S("str", "raw", "go")})
			} else {
				p.Res = append(p.Res, plan.Res{URL: u, Store: "http", Body: t, Chunk: chunk(r)})
			}
			p.Setup = append(p.Setup, plan.Op{K: "compile", URL: u, Via: "ref", S: k})
			continue
		}
		switch r.N(8) {
		case 0, 1:
			p.Setup = append(p.Setup, plan.Op{K: "reg", URL: fmt.Sprintf("http://s.test/%d", k), D: addDoc(p, gen.Text(m)), Via: r.S("str", "raw", "go")})
			if r.P(40) {
				p.Setup = append(p.Setup, plan.Op{K: "compile", URL: fmt.Sprintf("http://s.test/%d", k), Via: "ref", S: k})
			}
		case 2:
			idk := "$id"
			if ms, ok := m["$schema"].(string); ok && strings.Contains(ms, "draft-04") {
				idk = "id"
			}
			m[idk] = fmt.Sprintf("http://id.test/%d", k)
			ds := []int{addDoc(p, gen.Text(m))}
			for j := 1; r.P(35) && j < 4; j++ {
				m := mk()
				idk := "$id"
				if ms, ok := m["$schema"].(string); ok && strings.Contains(ms, "draft-04") {
					idk = "id"
				}
				m[idk] = fmt.Sprintf("http://id.test/%d/%d", k, j)
				ds = append(ds, addDoc(p, gen.Text(m)))
			}
			p.Setup = append(p.Setup, plan.Op{K: "regs", Ds: ds})
		case 3, 4:
			u := fmt.Sprintf("http://f.test/%d", k)
			p.Res = append(p.Res, plan.Res{URL: u, Store: "http", Body: gen.Text(m), Chunk: chunk(r)})
			p.Setup = append(p.Setup, plan.Op{K: "compile", URL: u, Via: "ref", S: k})
		case 5:
			if r.P(40) {
				p.Setup = append(p.Setup, plan.Op{K: "compile", D: addDoc(p, gen.Text(m)), S: k})
				break
			}
			// again
			if len(p.Setup) > 0 {
				p.Setup = append(p.Setup, p.Setup[r.N(len(p.Setup))])
			}
		case 6:
			switch r.N(3) {
			case 0:
				p.Setup = append(p.Setup, plan.Op{K: "set", Name: "draft", N: int(pickDraft(r))})
			case 1:
				p.Setup = append(p.Setup, plan.Op{K: "set", Name: "validate", N: 1})
			case 2:
				p.Setup = append(p.Setup, plan.Op{K: "set", Name: "validate", N: r.N(2)})
			}
		case 7:
			if r.P(30) {
				p.Setup = append(p.Setup, plan.Op{K: "heal"})
			} else if len(p.Setup) > 0 {
				p.Setup = append(p.Setup, p.Setup[r.N(len(p.Setup))])
			}
		}
	}
	for k := r.N(3); k > 0 && len(p.Res) > 0; k-- {
		rs := p.Res[r.N(len(p.Res))]
		if r.P(60) {
			for _, x := range p.Res {
				if strings.HasPrefix(x.URL, "http://meta.test/") {
					rs = x
				}
			}
		}
		p.Faults = append(p.Faults, fault(r, rs, r.N(3)-1))
	}
}

func clone(m gen.M) gen.M {
	return model.MustDecode(gen.Text(m)).(map[string]interface{})
}
