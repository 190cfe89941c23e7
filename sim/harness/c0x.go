package harness

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
)

func init() {
	register(&Scenario{Prop: "C01", Kind: "validate", Weight: 3, Gen: genConc, Check: checkConc})
	register(&Scenario{Prop: "C02", Kind: "order", Weight: 100, Gen: genOrder, Check: checkOrder})
	register(&Scenario{Prop: "C02", Kind: "graph-order", Weight: 100, Gen: genGraphOrder, Check: checkOrder})
	register(&Scenario{Prop: "C02", Kind: "wild-order", Weight: 100, Gen: genWildOrder, Check: checkOrder})
	register(&Scenario{Prop: "C02", Kind: "soak", Weight: 1, Gen: genSoak, Check: checkSoak})
	register(&Scenario{Prop: "C03", Kind: "semantics", Weight: 12, Gen: genSem, Check: checkSem})
	register(&Scenario{Prop: "C03", Kind: "sizes", Weight: 1, Gen: genSizes, Check: checkSem})
}

// ---- C01

// addSchema adds a random schema with instances; returns document indices.
func addSchema(r *gen.R, p *plan.Plan, d model.Draft, depth, n int) (int, []int) {
	text := schemaText(r, d, p.Formats, depth)
	if d != model.Hybrid {
		v := model.MustDecode(text).(map[string]interface{})
		v["$schema"] = model.SchemaURL(d) + "#"
		text = gen.Text(v)
	}
	si := addDoc(p, text)
	o := newOracle(p)
	op := &plan.Op{K: "newschema", D: si, S: 0}
	o.step(op, false)
	var ins []int
	for _, s := range o.instances(r, o.slots[0], p.Formats, n) {
		ins = append(ins, addDoc(p, s))
	}
	return si, ins
}

func genConc(r *gen.R, p *plan.Plan) {
	sched(r, p)
	p.Formats = pickFormats(r)
	p.Loaders = []plan.LoaderSpec{{Auto: true}}
	ns := 1 + r.N(2)
	ins := make([][]int, ns)
	docs := make([]int, ns)
	for s := 0; s < ns; s++ {
		docs[s], ins[s] = addSchema(r, p, pickDraft(r), 2+r.N(2), 3)
		p.Setup = append(p.Setup, plan.Op{K: "newschema", D: docs[s], S: s, Via: r.S("str", "raw", "go")})
	}
	deep := r.P(6)
	if deep { // what adds up when many go deep at once
		lim := 10 + r.N(70)
		docs[0] = addDoc(p, gen.Text(gen.M{"type": gen.A{"object", "array", "integer"}, "maximum": gen.Int(r.N(3)),
			"items": gen.M{"$ref": "#"}, r.S("additionalProperties", "propertyNames_"): gen.M{"$ref": "#"},
			r.S("allOf", "anyOf", "oneOf"): gen.A{gen.M{"title": "t"}}}))
		p.Setup[0].D = docs[0]
		for k := range ins[0] {
			s := fmt.Sprint(r.N(5))
			for d := lim/2 + r.N(lim/2); d > 0; d-- {
				if r.P(50) {
					s = "[" + s + "]"
				} else {
					s = `{"a":` + s + "}"
				}
			}
			ins[0][k] = addDoc(p, s)
		}
	}
	if r.P(30) { // some templates are already cached
		s := r.N(ns)
		p.Setup = append(p.Setup, plan.Op{K: "validate", S: s, D: ins[s][r.N(len(ins[s]))]})
	}
	nt := 2 + r.N(3)
	if deep {
		nt += r.N(4)
	}
	for t := 0; t < nt; t++ {
		var ops []plan.Op
		for k := 1 + r.N(3); k > 0; k-- {
			s := r.N(ns)
			if deep && r.P(80) {
				s = 0
			}
			d := ins[s][r.N(len(ins[s]))]
			switch {
			case r.P(8):
				ops = append(ops, plan.Op{K: "vall", D: docs[s], N: d, Arg: r.S("str", "raw")})
			case r.P(8):
				ops = append(ops, plan.Op{K: "newschema", D: docs[s], S: 10 + t})
				ops = append(ops, plan.Op{K: "validate", S: 10 + t, D: d})
			default:
				ops = append(ops, plan.Op{K: "validate", S: s, D: d, Via: r.S("str", "bytes", "go", "raw", "sraw", "sraw", "imap", "kraw", "kstr")})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// alone returns the outcome of one call executed by itself.
func alone(p *plan.Plan, t, j int, o Opts) *OpRes {
	q := *p
	q.Tasks = nil
	q.After = nil
	q.Setup = append([]plan.Op{}, p.Setup...)
	op := p.Tasks[t][j]
	for k := 0; k < j; k++ {
		if prev := p.Tasks[t][k]; (prev.K == "newschema" || prev.K == "compile") && prev.S == op.S {
			q.Setup = append(q.Setup, prev)
		}
	}
	q.Setup = append(q.Setup, op)
	z := uint64(0)
	o.MapSeed = &z
	h := Exec(&q, o)
	return h.Setup[len(h.Setup)-1]
}

func checkConc(p *plan.Plan) (*plan.Violation, string) {
	h := Exec(p, Opts{})
	if s := h.skip(); s != "" {
		return nil, s
	}
	if v := bad(p, h); v != nil {
		return v, ""
	}
	if h.Races > 0 {
		return viol(p, "race", "data race between concurrent calls"), ""
	}
	n := 0
	for t := range p.Tasks {
		for j := range p.Tasks[t] {
			want := alone(p, t, j, Opts{})
			got := h.Tasks[t][j]
			if want.Panic != "" || want.Budget {
				continue
			}
			n++
			if !sameSig(want, got) {
				return viol(p, "interleaving", "task %d call %d (%s on schema %s): alone and interleaved results differ\n%s", t, j, p.Tasks[t][j].K, short(instText(p, &p.Tasks[t][j])), diff(want, got)), ""
			}
			if len(got.Errs) > 0 {
				probe("conc-invalid")
			} else {
				probe("conc-valid")
			}
		}
	}
	if n == 0 {
		return nil, "nothing to compare"
	}
	return nil, ""
}

// ---- C02

func genOrder(r *gen.R, p *plan.Plan) {
	p.Formats = pickFormats(r)
	p.Sched.MapSeed = r.U() | 1
	d := pickDraft(r)
	p.Loaders = []plan.LoaderSpec{{Auto: true, Draft: int(pickDraft(r))}, {Auto: r.P(50), Draft: int(pickDraft(r))}}
	nodes := 2 + r.N(2)
	si, ins := addSchema(r, p, d, nodes, 4)
	p.Setup = append(p.Setup, plan.Op{K: "compile", D: si, S: 0, Via: r.S("str", "raw", "go")})
	for _, i := range ins {
		p.Setup = append(p.Setup, plan.Op{K: "validate", S: 0, D: i})
	}
	history(r, p, si, ins)
}

// history adds earlier unrelated activity, some of it on similar documents.
func history(r *gen.R, p *plan.Plan, si int, ins []int) {
	n := r.N(4)
	for k := 0; k < n; k++ {
		slot := 20 + k
		if r.P(4) {
			manyDistinct(r, p, slot)
			continue
		}
		switch r.N(5) {
		case 0: // the same schema and documents before
			p.Pre = append(p.Pre, plan.Op{K: "newschema", D: si, S: slot})
			for _, i := range ins {
				p.Pre = append(p.Pre, plan.Op{K: "validate", S: slot, D: i})
			}
		case 1: // a variant of the schema
			v := model.MustDecode(p.Docs[si])
			g := &gen.G{R: r, D: model.D7}
			it := &gen.I{G: g}
			for x := 0; x < 3; x++ {
				v = it.Mutate(v)
			}
			d := addDoc(p, gen.Text(v))
			p.Pre = append(p.Pre, plan.Op{K: "newschema", D: d, S: slot})
			for _, i := range ins {
				p.Pre = append(p.Pre, plan.Op{K: "validate", S: slot, D: i})
			}
		case 2: // registered and compiled under other settings
			p.Pre = append(p.Pre, plan.Op{K: "reg", L: 1, URL: fmt.Sprintf("http://pre.test/%d", k), D: si},
				plan.Op{K: "compile", L: 1, URL: fmt.Sprintf("http://pre.test/%d", k), Via: "ref", S: slot})
			for _, i := range ins {
				p.Pre = append(p.Pre, plan.Op{K: "validate", S: slot, D: i})
			}
		default:
			d, is := addSchema(r, p, pickDraft(r), 2, 2)
			p.Pre = append(p.Pre, plan.Op{K: "newschema", D: d, S: slot})
			for _, i := range is {
				p.Pre = append(p.Pre, plan.Op{K: "validate", S: slot, D: i})
			}
		}
	}
}

// manyDistinct adds earlier activity with more different patterns, names,
// formats and values than any cache holds.
func manyDistinct(r *gen.R, p *plan.Plan, slot int) {
	n := []int{40, 70, 140, 270, 520}[r.N(5)]
	m := gen.M{}
	ob := gen.M{}
	each := gen.M{}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("m%d", i)
		var s gen.M
		switch i % 4 {
		case 0:
			s = gen.M{"pattern": fmt.Sprintf("^m%d[a-z]", i)}
		case 1:
			s = gen.M{"enum": gen.A{k, i % 7}}
		case 2:
			s = gen.M{"const": k, "maxLength": gen.Int(i)}
		default:
			s = gen.M{"format": "f" + k, "minimum": gen.Int(i)}
		}
		each[k] = s
		ob[k] = []interface{}{k + "x", k, "z", gen.Int(i % 5)}[r.N(4)]
	}
	switch r.N(3) {
	case 0:
		m["properties"] = each
	case 1:
		pp := gen.M{}
		for k, v := range each {
			pp["^"+k+"$"] = v
		}
		m["patternProperties"] = pp
		for i := 4; i < n; i++ {
			delete(ob, fmt.Sprintf("m%d", i))
		}
	default:
		m["dependencies"] = each
		m["propertyNames"] = gen.M{"pattern": "^m"}
	}
	p.Pre = append(p.Pre, plan.Op{K: "newschema", D: addDoc(p, gen.Text(m)), S: slot}, plan.Op{K: "validate", S: slot, D: addDoc(p, gen.Text(ob))})
}

func genGraphOrder(r *gen.R, p *plan.Plan) { orderGraph(r, p, false) }

// genWildOrder makes documents whose meaning is not defined by the standard,
// or for which compilation fails, but whose outcome must be the same each time.
func genWildOrder(r *gen.R, p *plan.Plan) { orderGraph(r, p, true) }

// wild edits the documents of a graph: identifiers that collide, keywords
// beside $ref, malformed keywords.
func (g *graph) wild() {
	same := func(text, prefix string) string {
		var ids []string
		for i := 0; i < len(g.docs); i++ {
			for k := 0; k < 4; k++ {
				id := fmt.Sprintf("%s%d_%d", prefix, i, k)
				for _, d := range g.docs {
					if strings.Contains(d.text, id) {
						ids = append(ids, id)
						break
					}
				}
			}
		}
		for _, id := range ids {
			text = strings.ReplaceAll(text, id, ids[0])
		}
		return text
	}
	nest, anc, tops, sib, broken := g.P(60), g.P(50), g.P(25), g.P(60), g.P(25)
	for _, d := range g.docs {
		if nest {
			d.text = same(d.text, "nest")
		}
		if anc {
			d.text = same(d.text, "anc")
		}
		if tops && d.idx > 0 {
			d.text = strings.ReplaceAll(d.text, fmt.Sprintf("/id%d", d.idx), "/id1")
		}
	}
	ids := []string{"http://dup.test/a", "http://dup.test/b"}
	dup := g.P(60)
	for _, d := range g.docs {
		g.cur = d
		v := model.MustDecode(d.text)
		var walk func(v interface{}, depth int)
		walk = func(v interface{}, depth int) {
			switch x := v.(type) {
			case gen.A:
				for _, e := range x {
					walk(e, depth+1)
				}
			case gen.M:
				var ks []string
				for k := range x {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					walk(x[k], depth+1)
				}
				_, isRef := x["$ref"].(string)
				_, isEnum := x["enum"].(gen.A)
				_, isConst := x["const"].(string)
				if isRef && sib && g.P(50) {
					switch g.N(7) {
					case 0:
						x["enum"] = gen.A{g.tag()}
					case 1:
						x["not"] = gen.M{}
					case 2:
						x["type"] = g.S("string", "object", "nonsense")
					case 3:
						x["properties"] = gen.M{"u": gen.M{"$ref": g.targets[g.N(len(g.targets))].uri}}
					case 4:
						x["minLength"] = gen.Int(g.N(3) * 40)
					case 5:
						x["allOf"] = gen.A{gen.M{"$ref": g.targets[g.N(len(g.targets))].uri}}
					default:
						x["minProperties"] = "x"
					}
				}
				if isRef && dup && g.P(35) {
					x["$ref"] = ids[g.N(2)]
				}
				if (isEnum || isConst) && depth > 1 && dup && g.P(40) {
					if d.eff == model.D4 {
						x["id"] = ids[g.N(2)]
					} else {
						x["$id"] = ids[g.N(2)]
					}
				}
				if (isEnum || isConst) && depth > 1 && broken && g.P(10) {
					x[g.S("type", "minLength", "allOf", "pattern")] = "["
				}
			}
		}
		walk(v, 0)
		d.text = gen.Text(v)
	}
}

func orderGraph(r *gen.R, p *plan.Plan, wild bool) {
	p.Sched.MapSeed = r.U() | 1
	mode := r.N(3)
	ls := plan.LoaderSpec{Auto: true, Draft: int(pickDraft(r))}
	cfg := gcfg{ndocs: 1 + r.N(4), stores: []string{"http", "fs"}, regPct: 40, escapes: r.P(30), idPct: 35, anon: 40, rich: 20, missing: 8, sens: 25, deep: 20}
	switch mode {
	case 0:
		cfg.declare = 100
	case 1:
		cfg.declare = 0
	case 2:
		ls.Auto = false
		cfg.declare = 60
	}
	ls2 := ls
	p.Loaders = []plan.LoaderSpec{ls, ls2}
	cfg.wild = wild
	if wild {
		cfg.ndocs = 1 + r.N(3)
	}
	g := &graph{R: r, cfg: cfg, loader: ls}
	g.build()
	var tidy []string
	if wild {
		for _, d := range g.docs {
			tidy = append(tidy, d.text)
		}
		g.wild()
	}
	g.install(p, 0, 0)
	if !wild && ls.Auto && cfg.declare == 0 && r.P(50) {
		for i := range p.Loaders {
			p.Loaders[i].Validate = true
		}
		customMeta(r, p, g, 0)
	}
	p.Setup = append(p.Setup, g.regOps(0)...)
	comp := g.compileOp(0, 0, 0, 0)
	p.Setup = append(p.Setup, comp)
	q := p
	if wild { // instances for the graph as it was
		c := *p
		q = &c
		q.Docs = tidy
		q.Res = append([]plan.Res{}, p.Res...)
		for i := range q.Res {
			for _, d := range g.docs {
				if q.Res[i].URL == d.url {
					q.Res[i].Body = tidy[d.idx]
				}
			}
		}
	}
	o := newOracle(q)
	for i := range p.Setup {
		o.step(&p.Setup[i], false)
	}
	var ins []int
	for _, s := range o.instances(r, o.slots[0], nil, 4) {
		ins = append(ins, addDoc(p, s))
	}
	for _, i := range ins {
		p.Setup = append(p.Setup, plan.Op{K: "validate", S: 0, D: i})
	}
	if r.P(30) {
		interfere(r, p)
	}
	if r.P(60) { // another loader knows other documents under the same URLs
		for k, d := range g.docs {
			if d.url == "" {
				continue
			}
			other := (k + 1) % len(g.docs)
			p.Pre = append(p.Pre, plan.Op{K: "reg", L: 1, URL: d.url, D: other})
		}
		for k, d := range g.docs {
			if d.url != "" {
				p.Pre = append(p.Pre, plan.Op{K: "compile", L: 1, URL: d.url, Via: "ref", S: 20 + k})
				for _, i := range ins {
					p.Pre = append(p.Pre, plan.Op{K: "validate", S: 20 + k, D: i})
				}
			}
		}
	}
}

func checkOrder(p *plan.Plan) (*plan.Violation, string) {
	z := uint64(0)
	base := Exec(p, Opts{MapSeed: &z, NoPre: true})
	if s := base.skip(); s != "" {
		return nil, s
	}
	if _, why := base.abnormal(); why != "" {
		return nil, "baseline abnormal"
	}
	type variant struct {
		name string
		o    Opts
	}
	var vs []variant
	for k := 0; k < 3; k++ {
		s := p.Sched.MapSeed + uint64(k)*0x9e3779b9
		if p.Sched.MapSeed == 0 {
			s = 0
		}
		vs = append(vs, variant{fmt.Sprintf("map order %d", k), Opts{MapSeed: &s, NoPre: true}})
		if p.Sched.MapSeed == 0 {
			break
		}
	}
	if len(p.Pre) > 0 {
		vs = append(vs, variant{"earlier activity", Opts{MapSeed: &z}})
	}
	for _, v := range vs {
		h := Exec(p, v.o)
		if s := h.skip(); s != "" {
			return nil, s
		}
		if b := bad(p, h); b != nil {
			return b, ""
		}
		for i := range base.Setup {
			if !sameSig(base.Setup[i], h.Setup[i]) {
				return viol(p, "order", "call %d (%s) depends on %s\n%s", i, opName(&p.Setup[i]), v.name, diff(base.Setup[i], h.Setup[i])), ""
			}
		}
		probe("variant")
	}
	for i := range base.Setup {
		if p.Setup[i].K == "validate" && base.Setup[i].Done {
			if base.Setup[i].Valid {
				probe("valid")
			} else {
				probe("invalid-or-error")
			}
		}
	}
	return nil, ""
}

// soaks are schemas and instances that fail, one for each kind of check.
var soaks = [][2]string{
	{`{"format":"ipv4"}`, `"x"`}, {`{"format":"date-time"}`, `"x"`}, {`{"format":"email"}`, `"x"`}, {`{"format":"uri"}`, `"x"`}, {`{"format":"regex"}`, `"("`},
	{`{"pattern":"^a"}`, `"b"`}, {`{"enum":[1,"x",{"a":[1]}]}`, `{"a":[2]}`}, {`{"const":{"a":1}}`, `{"a":2}`}, {`{"type":"integer"}`, `1.5`}, {`{"type":["string","null"]}`, `1`},
	{`{"minimum":3}`, `2.5`}, {`{"multipleOf":0.3}`, `1`}, {`{"uniqueItems":true}`, `[1,{"a":1},{"a":1.0}]`}, {`{"required":["a"]}`, `{}`}, {`{"minLength":3}`, `"ab"`},
	{`{"properties":{"a":{"type":"string"}},"additionalProperties":false}`, `{"a":1,"b":2}`}, {`{"patternProperties":{"^a":{"type":"string"}}}`, `{"ab":1}`},
	{`{"items":[{"type":"string"}],"additionalItems":false}`, `[1,2]`}, {`{"dependencies":{"a":["b"],"c":{"required":["d"]}}}`, `{"a":1,"c":1}`}, {`{"not":{"type":"object"}}`, `{}`},
	{`{"anyOf":[{"type":"string"},{"minimum":5}]}`, `1`}, {`{"oneOf":[{"minimum":0},{"maximum":5}]}`, `1`}, {`{"allOf":[{"$ref":"#/definitions/a"}],"definitions":{"a":{"maxItems":1}}}`, `[1,2]`},
	{`{"if":{"type":"integer"},"then":{"maximum":3},"else":{"type":"string"}}`, `4`}, {`{"contains":{"type":"string"}}`, `[1]`}, {`{"propertyNames":{"maxLength":2}}`, `{"abc":1}`}, {`{"maxProperties":1}`, `{"a":1,"b":2}`},
}

// genSoak is about effects that take much activity to show.
func genSoak(r *gen.R, p *plan.Plan) {
	mapOrder(r, p)
	k := soaks[r.N(len(soaks))]
	if r.P(60) {
		a, b := soaks[r.N(len(soaks))], soaks[r.N(5)]
		k[0] = strings.ReplaceAll(`{"items":[`+k[0]+","+a[0]+","+b[0]+"]}", `,"definitions":{"a":{"maxItems":1}}}`, "}")
		k[0] = strings.ReplaceAll(k[0][:len(k[0])-1]+`,"definitions":{"a":{"maxItems":1}}}`, "\n", "")
		k[1] = "[" + k[1] + "," + a[1] + "," + b[1] + "]"
	}
	p.Setup = append(p.Setup, plan.Op{K: "newschema", D: addDoc(p, k[0]), Via: "str"})
	d := addDoc(p, k[1])
	v := plan.Op{K: "validate", D: d, Via: "str"}
	p.Setup = append(p.Setup, v)
	n := []int{300, 1100, 4500, 9000}[r.N(4)]
	switch r.N(4) {
	case 0, 1:
		p.Setup = append(p.Setup, plan.Op{K: "soak", Name: "same", D: d, N: n})
	case 2:
		p.Setup = append(p.Setup, plan.Op{K: "soak", Name: "values", D: d, N: n, ID: r.N(5)})
	case 3:
		p.Setup = append(p.Setup, plan.Op{K: "soak", Name: "schemas", D: d, N: n / 4, ID: r.N(6)})
	}
	w := plan.Op{K: "newschema", D: 0, S: 1, Via: "str"}
	x := v
	x.S = 1
	p.Setup = append(p.Setup, v, w, x)
}

func checkSoak(p *plan.Plan) (*plan.Violation, string) {
	h := Exec(p, Opts{Budget: bigBudget})
	if s := h.skip(); s != "" {
		return nil, s
	}
	if b := bad(p, h); b != nil {
		return b, ""
	}
	var first *OpRes
	for i := range p.Setup {
		op, r := &p.Setup[i], h.Setup[i]
		switch op.K {
		case "soak":
			if r.Err != "" {
				return viol(p, "order", "%s", r.Err), ""
			}
		case "validate":
			if first == nil {
				first = r
			} else if !sameSig(first, r) {
				return viol(p, "order", "call %d (%s) depends on earlier activity\n%s", i, opName(op), diff(first, r)), ""
			}
		}
	}
	return nil, ""
}

// ---- C03

func genSem(r *gen.R, p *plan.Plan) {
	sched(r, p)
	p.Formats = pickFormats(r)
	d := pickDraft(r)
	declare := r.P(50) && d != model.Hybrid
	p.Loaders = []plan.LoaderSpec{{Auto: true, Draft: int(d)}}
	if declare {
		p.Loaders[0].Draft = int(pickDraft(r))
	}
	g := &gen.G{R: r, D: d, Formats: p.Formats, Lean: r.P(50)}
	doc := g.Doc(1 + r.N(3))
	if declare {
		doc["$schema"] = model.SchemaURL(d) + "#"
	}
	si := addDoc(p, gen.Text(doc))
	p.Setup = []plan.Op{{K: "compile", D: si, S: 0, Via: r.S(memVias...)}}
	o := newOracle(p)
	o.step(&p.Setup[0], false)
	ins := o.instances(r, o.slots[0], p.Formats, 8)
	nt := 1
	if r.P(40) {
		nt = 2 + r.N(2)
	}
	p.Tasks = make([][]plan.Op, nt)
	for k, s := range ins {
		t := k % nt
		p.Tasks[t] = append(p.Tasks[t], plan.Op{K: "validate", S: 0, D: addDoc(p, s), Via: r.S("str", "raw", "go", "bytes", "imap")})
	}
}

// genSizes makes schemas and instances with many parts, one of which decides.
func genSizes(r *gen.R, p *plan.Plan) {
	sched(r, p)
	d := []model.Draft{model.Hybrid, model.D6, model.D7}[r.N(3)]
	p.Loaders = []plan.LoaderSpec{{Auto: true, Draft: int(d)}}
	n := 1 + r.N([]int{12, 70, 300}[r.N(3)])
	kind := r.N(17)
	if r.N(80) == 0 {
		n = 500 + r.N(1500)
		if r.P(60) {
			kind = 14
		}
	}
	some := func() int { return []int{0, n - 1, n, n + 1, r.N(n + 2), r.N(n + 2)}[r.N(6)] }
	key := func(i int) string { return fmt.Sprint("k", i) }
	val := func(i int) interface{} {
		switch i % 4 {
		case 1:
			return fmt.Sprint("s", i)
		case 2:
			return gen.M{"a": gen.Int(i)}
		case 3:
			return gen.A{gen.Int(i)}
		}
		return gen.Int(i)
	}
	lay := r.N(5)
	if lay < 4 {
		v := val
		val = func(i int) interface{} { return v(i*4 + lay) }
	}
	vals := func(n int) gen.A {
		a := gen.A{}
		for i := 0; i < n; i++ {
			a = append(a, val(i))
		}
		return a
	}
	obj := func(n int) gen.M {
		m := gen.M{}
		for i := 0; i < n; i++ {
			m[key(i)] = val(i)
		}
		return m
	}
	one := func(v interface{}) gen.M { return gen.M{"const": v} }
	if r.P(50) {
		one = func(v interface{}) gen.M { return gen.M{"enum": gen.A{v}} }
	}
	var s gen.M
	var ins []interface{}
	switch kind {
	case 0:
		s = gen.M{"enum": vals(n)}
		ins = []interface{}{val(some()), val(some()), val(n)}
	case 1:
		s = gen.M{"uniqueItems": true}
		for k := 0; k < 3; k++ {
			a := vals(n)
			if i := some(); k > 0 && i < n {
				a = append(a[:i:i], append(gen.A{val(some())}, a[i:]...)...)
			}
			ins = append(ins, a)
		}
	case 2:
		req := gen.A{}
		for i := 0; i < n; i++ {
			req = append(req, key(i))
		}
		s = gen.M{"required": req}
		o := obj(n)
		delete(o, key(some()))
		ins = []interface{}{obj(n), o, obj(n + 1), obj(r.N(n))}
	case 3:
		ps := gen.M{}
		for i := 0; i < n; i++ {
			ps[key(i)] = one(val(i))
		}
		s = gen.M{"properties": ps, "additionalProperties": r.P(50)}
		o := obj(n)
		o[key(some())] = val(n + 5)
		ins = []interface{}{obj(n), o, obj(n + 1)}
	case 4:
		it := gen.A{}
		for i := 0; i < n; i++ {
			it = append(it, one(val(i)))
		}
		s = gen.M{"items": it, "additionalItems": r.P(50)}
		a := vals(n)
		if i := some(); i < n {
			a[i] = val(n + 5)
		}
		ins = []interface{}{vals(n), a, vals(n + 1), vals(n / 2)}
	case 5:
		k := r.S("anyOf", "oneOf")
		bs := gen.A{}
		for i := 0; i < n; i++ {
			bs = append(bs, one(val(i)))
		}
		if r.P(50) {
			bs = append(bs, one(val(some())))
		}
		s = gen.M{k: bs}
		ins = []interface{}{val(some()), val(some()), val(n - 1), val(n + 5)}
	case 6:
		bs := gen.A{}
		for i := 0; i < n; i++ {
			bs = append(bs, gen.M{"not": one(val(i))})
		}
		s = gen.M{"allOf": bs}
		ins = []interface{}{val(some()), val(some()), val(n + 5)}
	case 7:
		s = gen.M{"contains": one(val(some()))}
		ins = []interface{}{vals(n), vals(n + 1), vals(some())}
	case 8:
		s = gen.M{"propertyNames": gen.M{"not": one(key(some()))}}
		ins = []interface{}{obj(n), obj(n + 1), obj(some())}
	case 9:
		s = gen.M{r.S("minItems", "maxItems"): gen.Int(n)}
		ins = []interface{}{vals(n), vals(n + 1), vals(n - 1)}
	case 10:
		s = gen.M{r.S("minProperties", "maxProperties"): gen.Int(n)}
		ins = []interface{}{obj(n), obj(n + 1), obj(n - 1)}
	case 11:
		s = gen.M{r.S("minLength", "maxLength"): gen.Int(n)}
		c := r.S("x", "é", "世", "😀")
		ins = []interface{}{strings.Repeat(c, n), strings.Repeat(c, n+1), strings.Repeat(c, n-1)}
	case 12:
		ds, pp := gen.M{}, gen.M{}
		for i := 0; i < n; i++ {
			ds[key(i)] = gen.A{key(i + 1)}
			pp["^"+key(i)+"$"] = gen.M{"not": one(val(i + 1))}
		}
		s = gen.M{r.S("dependencies", "patternProperties"): ds}
		if _, ok := s["patternProperties"]; ok {
			s["patternProperties"] = pp
		}
		o, q := obj(n+1), obj(n+1)
		delete(o, key(some()))
		i := r.N(n)
		q[key(i)] = val(i + 1)
		ins = []interface{}{obj(n), obj(n + 1), o, q}
	case 13: // deep
		depth := n
		if depth > 60 {
			depth = 60
		}
		x := one(val(0))
		v, w := val(0), val(1)
		for i := 0; i < depth; i++ {
			switch r.N(4) {
			case 0:
				x, v, w = gen.M{"properties": gen.M{"k": x}}, gen.M{"k": v}, gen.M{"k": w}
			case 1:
				x, v, w = gen.M{"items": x}, gen.A{v}, gen.A{w}
			case 2:
				x, v, w = gen.M{"additionalProperties": x}, gen.M{"k": v}, gen.M{"k": w}
			case 3:
				x = gen.M{r.S("allOf", "anyOf", "oneOf"): gen.A{x}}
			}
		}
		s, ins = x, []interface{}{v, w}
	case 14: // one schema for all elements
		sub := gen.M{"not": one(val(some()))}
		if r.P(30) {
			sub = one(val(some()))
		}
		first := r.N(3)
		switch r.N(4) {
		case 0:
			s = gen.M{"items": sub}
		case 1:
			it := gen.A{}
			for i := 0; i < first; i++ {
				it = append(it, gen.M{})
			}
			s = gen.M{"items": it, "additionalItems": sub}
			if first == 0 {
				s = gen.M{"items": sub}
			}
		case 2:
			s = gen.M{"additionalProperties": sub}
		case 3:
			s = gen.M{"patternProperties": gen.M{"^k": sub}}
		}
		ins = []interface{}{vals(n), vals(n + 1), obj(n), obj(n + 1)}
	case 15: // many failures
		bad := gen.M{"type": "boolean"}
		s = gen.M{"items": bad, "additionalProperties": bad, "required": gen.A{"x", "y"}, "minItems": gen.Int(n), "minProperties": gen.Int(n)}
		if r.P(40) {
			s = gen.M{"additionalProperties": false, "items": gen.A{bad, bad}, "additionalItems": bad}
		}
		ins = []interface{}{vals(n), vals(n - 1), obj(n), obj(n - 1)}
	case 16: // many combinators that fail side by side
		bs := gen.A{}
		for i := 0; i < 1+n%12; i++ {
			bs = append(bs, gen.M{r.S("allOf", "anyOf", "oneOf"): gen.A{one(val(i)), one(val(i + 1))}})
		}
		s = gen.M{"allOf": bs, "properties": gen.M{"k1": gen.M{"anyOf": bs}}}
		ins = []interface{}{val(0), val(some()), obj(2)}
	}
	for k := r.N(3); k > 0; k-- {
		wrap := r.N(7)
		for i := range ins {
			switch wrap {
			case 0:
				ins[i] = gen.M{"k": ins[i]}
			case 1:
				ins[i] = gen.A{ins[i]}
			case 2:
				ins[i] = gen.A{gen.Int(0), gen.Int(1), ins[i]}
			case 3:
				ins[i] = gen.M{"a/b": gen.A{}, "": ins[i]}
			case 6:
				ins[i] = gen.M{"(root)": ins[i]}
			}
		}
		switch wrap {
		case 0:
			s = gen.M{"properties": gen.M{"k": s}}
		case 1:
			s = gen.M{"items": s}
		case 2:
			s = gen.M{"items": gen.A{true, true}, "additionalItems": s}
			if d == model.Hybrid && r.P(50) {
				s["items"] = gen.A{gen.M{}, gen.M{}}
			}
		case 3:
			s = gen.M{"patternProperties": gen.M{"^$": s}}
		case 4:
			s = gen.M{r.S("allOf", "anyOf", "oneOf"): gen.A{s}}
		case 5:
			s = gen.M{"not": gen.M{"not": s}}
		case 6:
			s = gen.M{"properties": gen.M{"(root)": s}}
		}
	}
	p.Setup = []plan.Op{{K: "compile", D: addDoc(p, gen.Text(s)), S: 0, Via: r.S(memVias...)}}
	p.Tasks = make([][]plan.Op, 1+r.N(2))
	for k, v := range ins {
		t := k % len(p.Tasks)
		p.Tasks[t] = append(p.Tasks[t], plan.Op{K: "validate", S: 0, D: addDoc(p, gen.Text(v)), Via: r.S("str", "raw", "go", "bytes")})
	}
}

func checkSem(p *plan.Plan) (*plan.Violation, string) {
	h := Exec(p, Opts{})
	if s := h.skip(); s != "" {
		return nil, s
	}
	o := newOracle(p)
	ex := expect{}
	for i := range p.Setup {
		ex = o.step(&p.Setup[i], false)
		if ex.St == model.Unknown {
			return nil, ex.Why
		}
	}
	if v := bad(p, h); v != nil {
		return v, ""
	}
	last := h.Setup[len(h.Setup)-1]
	if ex.St == model.OK && last.Err != "" {
		return viol(p, "refused", "a well-formed schema does not compile: %s\nschema %s", last.Err, short(p.Docs[0])), ""
	}
	if ex.St != model.OK {
		return nil, "schema rejected"
	}
	n := 0
	why := ""
	for t := range p.Tasks {
		for j := range p.Tasks[t] {
			op, r := &p.Tasks[t][j], h.Tasks[t][j]
			e := o.step(op, false)
			if e.VSt == model.Unknown {
				why = e.Why
				continue
			}
			if e.St != model.OK {
				continue
			}
			n++
			if r.Err != "" || r.Valid != e.Valid {
				return viol(p, "verdict", "instance %s must be valid=%v under %s\nschema %s\n     got %s", short(instText(p, op)), e.Valid, drName(o.slots[0].s.Draft()), short(p.Docs[0]), short(r.String())), ""
			}
			probe(fmt.Sprintf("verdict-%v", e.Valid))
		}
	}
	if n == 0 {
		return nil, why
	}
	return nil, ""
}

func drName(d model.Draft) string {
	if d == model.Hybrid {
		return "the hybrid draft"
	}
	return fmt.Sprintf("draft-%02d", int(d))
}

var _ = strings.Join
