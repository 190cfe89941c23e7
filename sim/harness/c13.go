package harness

import (
	"fmt"
	"strings"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
)

func init() {
	register(&Scenario{Prop: "C13", Kind: "callbacks", Weight: 4, Gen: genCallbacks, Check: checkCallbacks})
	register(&Scenario{Prop: "C13", Kind: "terminate", Weight: 2, Gen: genTerminate, Check: checkTerminate})
	register(&Scenario{Prop: "C13", Kind: "nested", Weight: 1, Gen: genNested, Check: checkNested})
}

var cbFormats = []string{"cb-a", "cb-b"}

// nestedOp is a library call made inside a callback. It depends on nothing the
// surrounding calls change.
func nestedOp(r *gen.R, p *plan.Plan, probes []plan.Op) plan.Op {
	switch r.N(10) {
	case 8, 9: // loads documents
		if len(p.Res) == 0 || p.Res[0].URL != "http://cb.test/s.json" {
			p.Res = append([]plan.Res{
				{URL: "http://cb.test/s.json", Store: "http", Body: `{"properties":{"a":{"$ref":"t.json"}},"items":{"$ref":"t.json#/definitions/n"}}`},
				{URL: "http://cb.test/t.json", Store: "http", Body: `{"type":"string","definitions":{"n":{"type":"number"}}}`},
				{URL: "http://cb.test/i.json", Store: "http", Body: `{"a":1}`},
				{URL: "file:///cb/i.json", Store: "fs0", Body: `[1,"x"]`},
				{URL: "file://" + osMarker + "/cb/i.json", Store: "os", Body: `{"a":"b"}`},
			}, p.Res...)
		}
		op := plan.Op{K: "vall", Via: "ref", URL: "http://cb.test/s.json", Arg: "ref", Name: "http://cb.test/i.json"}
		switch r.N(4) {
		case 0:
			op.Arg, op.Name = "reffs", "file:///cb/i.json"
		case 1:
			op.Name = "file://" + osMarker + "/cb/i.json"
		}
		return op
	case 0, 1:
		if len(probes) > 0 {
			return probes[r.N(len(probes))]
		}
	case 2:
		return plan.Op{K: "vall", D: addDoc(p, schemaText(r, model.D7, cbFormats, 1)), Via: "str", Arg: "str", N: addDoc(p, `{"a":"b","c":["ab",1]}`)}
	case 3:
		return plan.Op{K: "fmtadd", Name: "cb-own", ID: r.N(2)}
	case 4:
		return plan.Op{K: "fmtdel", Name: "cb-own"}
	case 5:
		return plan.Op{K: "fmthas", Name: r.S("ipv4", "cb-a", "cb-none")}
	case 6:
		return plan.Op{K: "fmtis", Name: r.S("ipv4", "cb-b", "cb-a"), Arg: r.S("ab", "b", "127.0.0.1")}
	}
	return plan.Op{K: "fresh", ID: r.N(2), D: addDoc(p, schemaText(r, model.D6, cbFormats, 1)), N: addDoc(p, gen.Text(gen.A{"ab", "b", gen.M{"a": "b"}}))}
}

func genCallbacks(r *gen.R, p *plan.Plan) {
	sched(r, p)
	p.Formats = nil
	p.Locale = r.P(60)
	formats := append([]string{"vf-string"}, cbFormats...)
	p.Formats = []string{"vf-string"}
	for _, f := range cbFormats {
		p.Setup = append(p.Setup, plan.Op{K: "fmtadd", Name: f, Via: "cb"})
	}
	// shared schemas
	for s := 0; s < 2; s++ {
		g := &gen.G{R: r, D: pickDraft(r), Formats: formats}
		m := g.Doc(1 + r.N(2))
		if m["$ref"] == nil {
			pr, _ := m["properties"].(gen.M)
			if pr == nil {
				pr = gen.M{}
				m["properties"] = pr
			}
			pr["a"] = gen.M{"format": r.S(cbFormats...)}
			pr["c"] = gen.M{"items": gen.M{"format": r.S(cbFormats...), "type": "string"}}
		}
		d := addDoc(p, gen.Text(m))
		p.Setup = append(p.Setup, plan.Op{K: "newschema", D: d, S: s, Via: "str"})
	}
	var probes []plan.Op
	for s := 0; s < 2; s++ {
		for _, t := range []string{`{"a":"b","c":["b","a",3]}`, `{"a":"bb","c":["","abc"]}`, instance(r)} {
			probes = append(probes, plan.Op{K: "validate", S: s, D: addDoc(p, t), Via: r.S("str", "raw", "go")})
		}
	}
	nt := 1 + r.N(3)
	var keys []string
	for t := 0; t < nt; t++ {
		var ls plan.LoaderSpec
		cfg := gcfg{ndocs: 1 + r.N(3), stores: [][]string{{"http"}, {"fs"}, {"http", "fs"}}[r.N(3)], regPct: 40, idPct: 20, rich: 40, sens: 5, formats: formats}
		cfg.mode(r, &ls)
		ls.Validate = r.P(30)
		custom := t == 0 && r.P(20)
		if custom {
			ls.Validate, ls.Auto, cfg.declare = true, true, 0
		}
		p.Loaders = append(p.Loaders, ls)
		if r.P(30) { // only validations
			var ops []plan.Op
			for k := 1 + r.N(3); k > 0; k-- {
				ops = append(ops, probes[r.N(len(probes))])
			}
			p.Tasks = append(p.Tasks, ops)
			continue
		}
		g := &graph{R: r, cfg: cfg, loader: ls}
		g.build()
		base := len(p.Docs)
		fs := t
		g.install(p, t, fs)
		if custom {
			customMeta(r, p, g, base)
			keys = append(keys, "get:http://meta.test/schema.json", "read:http://meta.test/schema.json", "close:http://meta.test/schema.json")
		}
		var ops []plan.Op
		for _, op := range append(g.regOps(t), g.compileOp(t, 0, 8+t*4, fs)) {
			op.D += base
			for i := range op.Ds {
				op.Ds[i] += base
			}
			if op.K != "compile" && r.P(50) {
				op.Via = "cb"
				d := op.D
				if op.K == "regs" {
					d = op.Ds[0]
				}
				keys = append(keys, fmt.Sprintf("load:%d", d))
			}
			ops = append(ops, op)
		}
		// earlier tasks use the same URLs for other documents
		for _, d := range g.docs {
			if d.store == "http" {
				for _, x := range p.Res[:len(p.Res)-1] {
					if x.URL == d.url && x.Store == "http" && x.Body != d.text {
						return // not comparable; rare
					}
				}
			}
			switch d.store {
			case "http":
				keys = append(keys, "get:"+d.url, "read:"+d.url, "close:"+d.url)
			case "fs":
				keys = append(keys, "open:"+d.url, "read:"+d.url, "close:"+d.url)
			}
		}
		for k := 1 + r.N(3); k > 0; k-- {
			ops = append(ops, plan.Op{K: "validate", S: 8 + t*4, D: addDoc(p, instance(r)), Via: "str"})
		}
		if r.P(40) {
			ops = append(ops, probes[r.N(len(probes))])
		}
		p.Tasks = append(p.Tasks, ops)
	}
	again := ""
	if r.P(12) { // the same call fails again and again
		t := r.N(len(p.Tasks))
		for _, op := range p.Tasks[t] {
			if op.K != "compile" || op.Via != "ref" && op.Via != "reffs" {
				continue
			}
			for _, k := range keys {
				if strings.HasSuffix(k, ":"+op.URL) && r.P(40) {
					again = k
				}
			}
			if again != "" {
				for n := 3 + r.N(12); n > 0; n-- {
					p.Tasks[t] = append(p.Tasks[t], op)
				}
				p.Calls = append(p.Calls, plan.Call{Key: again, Times: 20, Act: r.S("panic", "panic", "err")})
			}
			break
		}
	}
	keys = append(keys, "fmt:cb-a", "fmt:cb-b", "fmt:cb-a", "fmt:cb-b")
	if p.Locale {
		keys = append(keys, "locale", "tmpl", "tmpl")
	}
	for k := 1 + r.N(4); k > 0; k-- {
		c := plan.Call{Key: keys[r.N(len(keys))], From: r.N(3), Times: 1 + r.N(3)}
		if r.P(40) {
			c.From = 0
		}
		if r.P(25) {
			c.From = r.N(12)
		}
		for n := r.N(3); n > 0; n-- {
			c.Sub = append(c.Sub, nestedOp(r, p, probes))
		}
		if r.P(45) {
			c.Act = "panic"
		} else if r.P(20) && !strings.HasPrefix(c.Key, "fmt") && c.Key != "locale" && c.Key != "tmpl" {
			c.Act = "err"
		}
		if len(c.Sub) == 0 && c.Act == "" {
			c.Sub = append(c.Sub, nestedOp(r, p, probes))
		}
		p.Calls = append(p.Calls, c)
	}
	// later calls
	p.After = append(p.After, probes[r.N(len(probes))], probes[r.N(len(probes))])
	p.After = append(p.After,
		plan.Op{K: "fmtadd", Name: "cb-late", ID: 0}, plan.Op{K: "fmthas", Name: "cb-late"}, plan.Op{K: "fmtis", Name: "cb-late", Arg: "x"},
		plan.Op{K: "fresh", ID: 1, D: addDoc(p, schemaText(r, model.D4, formats, 1)), N: addDoc(p, instance(r))})
	for t := range p.Tasks {
		for _, op := range p.Tasks[t] {
			if op.K == "compile" && op.Via != "cb" {
				p.After = append(p.After, op)
			}
			if op.K == "validate" && op.S == 8+t*4 {
				p.After = append(p.After, op)
			}
		}
	}
}

func instance(r *gen.R) string {
	it := &gen.I{G: &gen.G{R: r}}
	return gen.Text(it.Instance())
}

func checkCallbacks(p *plan.Plan) (*plan.Violation, string) {
	if len(p.Tasks) == 0 {
		return nil, "nothing generated"
	}
	q := *p
	q.After = append([]plan.Op{}, p.After...)
	var at [][2]int
	for i, c := range p.Calls {
		for k := range c.Sub {
			at = append(at, [2]int{i, k})
			q.After = append(q.After, c.Sub[k])
		}
	}
	h0 := Exec(&q, Opts{NoCalls: true, NoSched: true})
	if s := h0.skip(); s != "" {
		return nil, s
	}
	if v := bad(p, h0); v != nil {
		return v, ""
	}
	want := map[[2]int]string{}
	for i, a := range at {
		want[a] = h0.After[len(p.After)+i].sig()
	}
	h := execLong(p)
	if s := h.skip(); s != "" {
		return nil, s
	}
	if h.Deadlock != "" {
		return viol(p, "deadlock", "%s", h.Deadlock), ""
	}
	acted := 0
	spoilt := map[int]bool{} // loaders with a call that did not end normally
	look := func(where string, op *plan.Op, r, r0 *OpRes, after bool) *plan.Violation {
		if r.Budget {
			return viol(p, "hang", "%s: %s recurses or loops without end; without callbacks it does not", where, opName(op))
		}
		acted += r.CBs
		lop := op.K == "reg" || op.K == "regs" || op.K == "compile"
		if lop {
			b := map[bool]int{true: 1}
			l := p.Loaders[op.L]
			if r.Set != [3]int{b[l.Auto], l.Draft, b[l.Validate]} {
				return viol(p, "settings", "%s: %s left the loader with AutoDetect/Draft/Validate %v; it returned %s", where, opName(op), r.Set, r)
			}
		}
		if r.Panic != "" {
			if r.CBAct != "panic" || r.Panic != (cbPanic{}).Error() {
				return viol(p, "panic", "%s: %s panicked, and not because of its callback: %s\n%s", where, opName(op), r.Panic, trimStack(r.Stack))
			}
		}
		if r.CBAct != "" {
			if op.K == "reg" || op.K == "regs" {
				spoilt[op.L] = true
			}
			return nil
		}
		if lop && spoilt[op.L] {
			return nil
		}
		if op.K == "validate" && r.Err == "no schema in slot" && !after {
			return nil // its compilation was interrupted
		}
		if op.K == "validate" && op.S >= 8 && spoilt[(op.S-8)/4] {
			return nil
		}
		if !sameSig(r0, r) {
			return viol(p, "callback", "%s: %s differs from the same call without callbacks\n%s", where, opName(op), diff(r0, r))
		}
		return nil
	}
	for i := range p.Setup {
		if v := look(fmt.Sprintf("setup %d", i), &p.Setup[i], h.Setup[i], h0.Setup[i], false); v != nil {
			return v, ""
		}
	}
	for t := range p.Tasks {
		for i := range p.Tasks[t] {
			if v := look(fmt.Sprintf("task %d call %d", t, i), &p.Tasks[t][i], h.Tasks[t][i], h0.Tasks[t][i], false); v != nil {
				return v, ""
			}
		}
	}
	for i := range p.After {
		if v := look(fmt.Sprintf("later call %d", i), &p.After[i], h.After[i], h0.After[i], true); v != nil {
			return v, ""
		}
	}
	for _, n := range h.env.nested {
		if w, ok := want[[2]int{n.call, n.sub}]; ok && n.sig != w {
			return viol(p, "nested", "call %d of callback %d (%s) inside the library gives %s, alone %s", n.sub, n.call, p.Calls[n.call].Key, short(n.sig), short(w)), ""
		}
	}
	if acted == 0 {
		return nil, "no callback acted"
	}
	for i, c := range p.Calls {
		if callCount[i] > c.From {
			k := c.Key
			if j := strings.Index(k, ":"); j > 0 {
				k = k[:j]
			}
			stats.Faults["callback-"+k+"-"+map[string]string{"": "reenter", "panic": "panic", "err": "error"}[c.Act]]++
		}
	}
	return nil, ""
}

// ---- termination

var loopSchemas = []string{
	`{"$ref":"#"}`,
	`{"allOf":[{"$ref":"#"}]}`,
	`{"anyOf":[{"$ref":"#"},{"$ref":"#"}]}`,
	`{"oneOf":[{"$ref":"#/definitions/a"},{"type":"string"}],"definitions":{"a":{"not":{"$ref":"#"}}}}`,
	`{"definitions":{"a":{"$ref":"#/definitions/b"},"b":{"$ref":"#/definitions/a"}},"properties":{"a":{"$ref":"#/definitions/a"}}}`,
	`{"if":{"$ref":"#"},"then":{"$ref":"#"},"else":{"$ref":"#"}}`,
	`{"dependencies":{"a":{"$ref":"#"},"b":["c"]}}`,
	`{"properties":{"a":{"$ref":"#/properties/a"}}}`,
	`{"items":{"$ref":"#"},"additionalProperties":{"$ref":"#"}}`,
	`{"$id":"http://loop.test/x","allOf":[{"$ref":"http://loop.test/x"}]}`,
	`{"$id":"http://loop.test/y","$ref":"http://loop.test/y"}`,
	`{"definitions":{"a":{"$id":"#self","allOf":[{"$ref":"#self"}]}},"$ref":"#/definitions/a"}`,
	`{"not":{"not":{"$ref":"#"}}}`,
	`{"contains":{"$ref":"#"},"propertyNames":{"$ref":"#"}}`,
	`{"patternProperties":{"":{"$ref":"#"}},"additionalItems":{"$ref":"#"},"items":[{"$ref":"#"}]}`,
	`{"allOf":[{"allOf":[{"allOf":[{"$ref":"#/allOf/0"}]}]}]}`,
	`{"definitions":{"a":{"allOf":[{"$ref":"#/definitions/b"},{"$ref":"#/definitions/b"}]},"b":{"allOf":[{"$ref":"#/definitions/c"},{"$ref":"#/definitions/c"}]},"c":{"allOf":[{"$ref":"#/definitions/a"},{"type":"object"}]}},"$ref":"#/definitions/a"}`,
}

func genTerminate(r *gen.R, p *plan.Plan) {
	sched(r, p)
	p.Formats = pickFormats(r)
	nt := 1 + r.N(3)
	for t := 0; t < nt; t++ {
		var ls plan.LoaderSpec
		cfg := gcfg{ndocs: 1 + r.N(4), stores: []string{"http", "fs"}, regPct: 40, idPct: 25, anon: 20, rich: 10, sens: 10, loops: 60, missing: 10, formats: p.Formats}
		cfg.mode(r, &ls)
		ls.Validate = r.P(40)
		l := len(p.Loaders)
		p.Loaders = append(p.Loaders, ls)
		var ops []plan.Op
		switch r.N(4) {
		case 0: // a loop in one document
			ops = append(ops, plan.Op{K: r.S("compile", "newschema"), L: l, D: addDoc(p, r.S(loopSchemas...)), S: t, Via: r.S("str", "raw")})
		case 1: // documents, redirects and meta-schemas that name each other
			n := 1 + r.N(4)
			u := func(i int) string { return fmt.Sprintf("http://t%d.test/%d", t, i%n) }
			for i := 0; i < n; i++ {
				rs := plan.Res{URL: u(i), Store: "http"}
				switch r.N(5) {
				case 0:
					rs.Redirect = u(i + 1)
				case 1:
					rs.Body = fmt.Sprintf(`{"$schema":%q}`, u(i+1+r.N(2)))
				case 2:
					rs.Body = fmt.Sprintf(`{"allOf":[{"$ref":%q},{"$ref":%q}]}`, u(i+1), u(r.N(4)))
				case 3:
					rs.Body = fmt.Sprintf(`{"$id":%q,"$ref":%q}`, u(r.N(4)), u(i+1))
				case 4:
					rs.Body = fmt.Sprintf(`{"properties":{"a":{"$ref":%q}},"not":{"$ref":"%s#/properties/a"},"$schema":%q}`, u(i+1), u(i+1), u(r.N(4)))
				}
				p.Res = append(p.Res, rs)
			}
			ops = append(ops, plan.Op{K: "compile", L: l, URL: u(0), S: t, Via: "ref"})
		default:
			g := &graph{R: r, cfg: cfg, loader: ls}
			g.build()
			base := len(p.Docs)
			g.install(p, l, t)
			for _, op := range append(g.regOps(l), g.compileOp(l, 0, t, t)) {
				op.D += base
				for i := range op.Ds {
					op.Ds[i] += base
				}
				ops = append(ops, op)
			}
		}
		for k := 1 + r.N(3); k > 0; k-- {
			ops = append(ops, plan.Op{K: "validate", S: t, D: addDoc(p, r.S(`{"a":{"a":[1,{"a":"b"}]},"t":"T1"}`, `[[],[[{}]],"x"]`, instance(r), `{"t":"T1","u":{"t":"T2"},"v":[{"t":1}]}`)), Via: r.S("str", "raw")})
		}
		if r.P(30) {
			ops = append(ops, ops[r.N(len(ops))])
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// bigBudget gives a loop whose iterations are long time to show itself. What
// still has not finished then is expensive (exponential in the nesting), which
// is not a violation: without end are only a loop or a recursion without end.
const bigBudget = 30_000_000

// execLong executes again with a large budget what exceeded the usual one.
func execLong(p *plan.Plan) *Hist {
	h := Exec(p, Opts{})
	if h.skip() == "over the step budget" {
		probe("large-budget")
		h = Exec(p, Opts{Budget: bigBudget})
	}
	return h
}

// checkEnds tells whether every call ended without a panic.
func checkEnds(p *plan.Plan) (*Hist, *plan.Violation, string) {
	h := execLong(p)
	if s := h.skip(); s != "" {
		return h, nil, s
	}
	return h, bad(p, h), ""
}

func checkTerminate(p *plan.Plan) (*plan.Violation, string) {
	_, v, s := checkEnds(p)
	return v, s
}

// ---- cost of nesting

// genNested builds schemas and instances nested deeply, but without sharing:
// each level has one deep child, so the cost of a call is polynomial in the
// depth, and one that doubles with every level does not fit in the budget.
func genNested(r *gen.R, p *plan.Plan) {
	mapOrder(r, p)
	ls := plan.LoaderSpec{Auto: r.P(50), Draft: int([]model.Draft{model.Hybrid, model.D6, model.D7}[r.N(3)]), Validate: r.P(40)}
	p.Loaders = []plan.LoaderSpec{ls}
	leaf := func() interface{} {
		return []interface{}{gen.M{"type": r.S("integer", "string", "object", "array")}, gen.M{"enum": gen.A{gen.Int(1), "x"}}, gen.M{}, true, false,
			gen.M{"minLength": gen.Int(r.N(4))}, gen.M{"required": gen.A{"a"}}, gen.M{"maxItems": gen.Int(0)}, gen.M{"minimum": gen.Int(3)}}[r.N(9)]
	}
	kinds := []string{"not", "allOf", "anyOf", "oneOf", "if", "then", "else", "dep", "items", "tuple", "addItems", "contains", "properties", "patternProperties", "addProperties", "names", "ref", "refdoc"}
	var use []string // a nest of few kinds
	for k := 1 + r.N(4); k > 0; k-- {
		use = append(use, kinds[r.N(len(kinds))])
	}
	if r.P(15) {
		use = kinds
	}
	depth := 24 + r.N(40)
	var s interface{} = leaf()
	var v interface{} = []interface{}{gen.Int(1), "x", gen.M{"a": gen.Int(1)}, gen.A{}, gen.M{}, gen.Int(7), nil}[r.N(7)]
	defs := gen.M{}
	ndoc := 0
	list := func(s interface{}) gen.A {
		a := gen.A{s}
		for r.P(30) {
			a = append(a, leaf())
		}
		i := r.N(len(a))
		a[0], a[i] = a[i], a[0]
		return a
	}
	for i := 0; i < depth; i++ {
		switch k := use[r.N(len(use))]; k {
		case "not":
			s = gen.M{"not": s}
		case "allOf", "anyOf", "oneOf":
			s = gen.M{k: list(s)}
		case "if":
			s = gen.M{"if": s, "then": leaf(), "else": leaf()}
		case "then":
			s = gen.M{"if": leaf(), "then": s}
		case "else":
			s = gen.M{"if": leaf(), "else": s}
		case "dep":
			s = gen.M{"dependencies": gen.M{"a": s}}
		case "items":
			s, v = gen.M{"items": s}, gen.A{v}
		case "tuple":
			s, v = gen.M{"items": gen.A{s}}, gen.A{v}
		case "addItems":
			s, v = gen.M{"items": gen.A{leaf()}, "additionalItems": s}, gen.A{nil, v}
		case "contains":
			s, v = gen.M{"contains": s}, gen.A{v}
		case "properties":
			s, v = gen.M{"properties": gen.M{"a": s}}, gen.M{"a": v}
		case "patternProperties":
			s, v = gen.M{"patternProperties": gen.M{"^a": s}}, gen.M{"a": v}
		case "addProperties":
			s, v = gen.M{"additionalProperties": s}, gen.M{"a": v}
		case "names":
			s = gen.M{"propertyNames": s}
		case "ref":
			n := fmt.Sprint("d", i)
			defs[n] = s
			s = gen.M{"$ref": "#/definitions/" + n}
			if r.P(50) {
				s = gen.M{"allOf": gen.A{s}}
			}
		case "refdoc":
			if len(defs) > 0 { // these belong to the root
				continue
			}
			u := fmt.Sprintf("http://n.test/%d.json", ndoc)
			ndoc++
			p.Res = append(p.Res, plan.Res{URL: u, Store: "http", Body: gen.Text(s)})
			s = gen.M{"$ref": u}
		}
	}
	if len(defs) > 0 {
		s = gen.M{"definitions": defs, "allOf": gen.A{s}}
	}
	if r.P(25) { // values nested in the schema that are no schemas
		var a interface{} = []interface{}{gen.Int(1), "x", nil, gen.M{}, gen.A{}}[r.N(5)]
		how := r.N(3)
		for k := 24 + r.N(40); k > 0; k-- {
			switch w := how; {
			case w == 0, w == 2 && r.P(50):
				a = gen.A{a}
			default:
				a = gen.M{r.S("a", "b", "items", "properties", "definitions"): a}
			}
		}
		switch r.N(4) {
		case 0:
			s = gen.M{r.S("default", "x-note", "const"): a, "allOf": gen.A{s}}
		case 1:
			s = gen.M{r.S("examples", "x-notes", "enum"): gen.A{a}, "allOf": gen.A{s}}
		case 2:
			s = gen.M{"properties": gen.M{"q": gen.M{"default": a}}, "allOf": gen.A{s}}
		case 3:
			s, v = gen.M{"anyOf": gen.A{gen.M{"const": a}, gen.M{"enum": gen.A{gen.Int(0), a}}, s}}, a
		}
	}
	p.Setup = append(p.Setup, plan.Op{K: "compile", D: addDoc(p, gen.Text(s)), Via: r.S("str", "raw")})
	for _, v := range []string{gen.Text(v), instance(r)} {
		p.Setup = append(p.Setup, plan.Op{K: "validate", D: addDoc(p, v), Via: r.S("str", "raw")})
	}
}

func checkNested(p *plan.Plan) (*plan.Violation, string) {
	h := Exec(p, Opts{Budget: bigBudget})
	if h.skip() == "over the step budget" {
		return viol(p, "steps", "a call on inputs nested %d levels has not ended after %d steps", nesting(p), bigBudget), ""
	}
	if s := h.skip(); s != "" {
		return nil, s
	}
	return bad(p, h), ""
}

// nesting returns the depth of the most deeply nested document.
func nesting(p *plan.Plan) int {
	max := 0
	for _, d := range p.Docs {
		n := 0
		for _, c := range d {
			switch c {
			case '{', '[':
				if n++; n > max {
					max = n
				}
			case '}', ']':
				n--
			}
		}
	}
	return max
}
