package harness

import (
	"fmt"
	"math/bits"
	"reflect"
	"strings"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
)

func init() {
	register(&Scenario{Prop: "C10", Kind: "fixed", Weight: 3, Gen: genFixed, Check: checkFixed})
	register(&Scenario{Prop: "C10", Kind: "while-compiling", Weight: 1, Gen: genWhile, Check: checkFixed})
	register(&Scenario{Prop: "C11", Kind: "shared", Weight: 3, Gen: genShared, Check: checkShared})
	register(&Scenario{Prop: "C12", Kind: "registry", Weight: 3, Gen: genRegistry, Check: checkRegistry})
}

// ---- C10

// shareVia lets registrations and roots come from values the caller keeps.
func shareVia(r *gen.R, ops []plan.Op, pct int) {
	for i := range ops {
		if (ops[i].Via == "raw" || ops[i].Via == "go" || ops[i].Via == "bytes" || ops[i].Via == "str") && r.P(pct) {
			ops[i].Via = r.S("sraw", "sraw", "sgo", "sbytes", "sgon")
		}
	}
}

func genFixed(r *gen.R, p *plan.Plan) {
	sched(r, p)
	p.Formats = pickFormats(r)
	var ls plan.LoaderSpec
	cfg := gcfg{ndocs: 1 + r.N(4), stores: someStores(r), regPct: 45, idPct: 30, anon: 45, rich: 35, sens: 10, deep: 15, formats: p.Formats}
	cfg.mode(r, &ls)
	ls.Validate = r.P(20)
	p.Loaders = []plan.LoaderSpec{ls}
	g := &graph{R: r, cfg: cfg, loader: ls}
	g.build()
	g.install(p, 0, 0)
	own := len(p.Docs) // documents from here on are not schemas under test
	regs := g.regOps(0)
	root := 0
	comp := g.compileOp(0, root, 0, 0)
	p.Setup = append(p.Setup, regs...)
	p.Setup = append(p.Setup, comp)
	shareVia(r, p.Setup, 70)
	if g.cfg.ndocs > 1 && r.P(40) {
		p.Setup = append(p.Setup, g.compileOp(0, 1+r.N(g.cfg.ndocs-1), 1, 0))
	}
	var probes []plan.Op
	o := stepAll(p)
	for s := 0; s < 2; s++ {
		if s == 1 && (o.slots[1] == nil || p.Setup[len(p.Setup)-1].S != 1) {
			continue
		}
		for _, t := range o.instances(r, o.slots[s], p.Formats, 3) {
			probes = append(probes, plan.Op{K: "validate", S: s, D: addDoc(p, t), Via: r.S("str", "raw", "go")})
		}
	}
	if len(probes) == 0 {
		return
	}
	if ls.Draft != int(model.D4) && r.P(12) { // a boolean as the root
		p.Setup = append(p.Setup, plan.Op{K: "reg", URL: "http://bool.test/b", D: addDoc(p, r.S("true", "false", "false"))},
			plan.Op{K: "compile", URL: "http://bool.test/b", Via: "ref", S: 2})
		probes = append(probes, plan.Op{K: "validate", S: 2, D: addDoc(p, r.S("1", "{}", "null"))})
	}
	p.Setup = append(p.Setup, probes...)
	var changing []plan.Op
	if r.P(30) { // an instance that the caller changes between two validations with one loader
		pr := probes[r.N(len(probes))]
		if x, ok := model.MustDecode(p.Docs[pr.D]).(map[string]interface{}); ok {
			i := &gen.I{G: &gen.G{R: r}, Root: x}
			y := gen.Copy(x).(gen.M)
			if len(y) > 0 && r.P(70) {
				k := gen.Keys(y)[r.N(len(y))]
				y[k] = i.Mutate(y[k])
			} else {
				y, _ = i.Mutate(y).(gen.M)
			}
			b := plan.Op{K: "validate", S: pr.S, D: addDoc(p, gen.Text(y)), Via: "str"}
			p.Setup = append(p.Setup, b)
			own := addDoc(p, p.Docs[pr.D])
			as := func(d int) plan.Op {
				return plan.Op{K: "validate", S: pr.S, D: own, Name: "as", N: d, Via: r.S("kraw", "kraw", "kgo", "sraw")}
			}
			via := r.S("kraw", "kraw", "kgo")
			for k, d := range []int{pr.D, b.D, pr.D} {
				if k > 0 {
					changing = append(changing, plan.Op{K: "become", D: own, N: d})
				}
				for j := 1 + r.N(2); j > 0; j-- {
					v := as(d)
					if r.P(80) {
						v.Via = via
					}
					changing = append(changing, v)
				}
				if r.P(30) {
					changing = append(changing, plan.Op{K: "tamper"})
				}
			}
		}
	}
	p.N = map[string]int{"base": len(p.Setup)}
	p.Setup = append(p.Setup, changing...)
	slot := 8
	disturb := func(depth int) plan.Op {
		slot++
		switch r.N(14) {
		case 0, 1:
			return plan.Op{K: "set", Name: r.S("draft", "auto", "validate"), N: []int{0, 1, 4, 6, 7}[r.N(5)]}
		case 2: // another document with its own identifiers
			return plan.Op{K: "reg", URL: fmt.Sprintf("http://more.test/%d", slot), D: addDoc(p, schemaText(r, pickDraft(r), nil, 1)), Via: "str"}
		case 3: // a registration that may be refused
			d := r.N(own)
			u := g.docs[d].url
			if u == "" {
				u = "http://more.test/x"
			}
			return plan.Op{K: "reg", URL: u, D: addDoc(p, schemaText(r, pickDraft(r), nil, 1)), Via: "str"}
		case 4:
			return g.compileOp(0, r.N(g.cfg.ndocs), slot%40, 0)
		case 5: // fails
			return plan.Op{K: "compile", URL: r.S("http://nowhere.test/x", "file:///none", "http://more.test/zz"), Via: r.S("ref", "reffs"), S: slot % 40}
		case 6, 7:
			return plan.Op{K: "mutate", D: r.N(own), N: r.N(3)}
		case 8:
			return plan.Op{K: "mutbytes", D: r.N(own)}
		case 9, 10:
			if len(p.Res) > 0 {
				return plan.Op{K: "change", URL: p.Res[r.N(len(p.Res))].URL, D: addDoc(p, schemaText(r, pickDraft(r), nil, 1))}
			}
			return plan.Op{K: "tamper"}
		case 11:
			return plan.Op{K: "newschema", D: addDoc(p, schemaText(r, pickDraft(r), nil, 1)), S: slot % 40}
		case 12: // the same anonymous or named root again, from changed settings
			c := comp
			c.S = slot % 40
			return c
		}
		return plan.Op{K: "tamper"}
	}
	// later activity, interleaved with the probes
	for k := 1 + r.N(5); k > 0; k-- {
		p.Setup = append(p.Setup, disturb(0))
		if r.P(60) {
			pr := probes[r.N(len(probes))]
			p.Setup = append(p.Setup, pr)
			if r.P(50) {
				p.Setup = append(p.Setup, plan.Op{K: "tamper"})
			}
		}
	}
	p.Setup = append(p.Setup, probes...)
	if r.P(70) {
		nt := 1 + r.N(3)
		for t := 0; t < nt; t++ {
			var ops []plan.Op
			for k := 1 + r.N(3); k > 0; k-- {
				ops = append(ops, probes[r.N(len(probes))])
				if r.P(40) {
					ops = append(ops, plan.Op{K: "tamper"})
				}
			}
			p.Tasks = append(p.Tasks, ops)
		}
		var ops []plan.Op
		for k := 1 + r.N(4); k > 0; k-- {
			ops = append(ops, disturb(0))
		}
		p.Tasks = append(p.Tasks, ops)
		p.After = append(p.After, probes...)
	}
}

// genWhile uses schemas while others are being compiled that share documents,
// references and meta-schemas with them, each through its own loader.
func genWhile(r *gen.R, p *plan.Plan) {
	sched(r, p)
	ref := func() string {
		if r.P(60) {
			return "http://json-schema.org/draft" + metaTargets[r.N(len(metaTargets))]
		}
		return fmt.Sprintf("http://w.test/%d.json%s", r.N(2), r.S("", "#", "#/definitions/a", "#/definitions/b"))
	}
	part := func() interface{} {
		switch r.N(5) {
		case 0:
			return gen.M{"type": r.S("string", "integer", "object")}
		case 1:
			return gen.M{"pattern": r.S("^a", "b$"), "format": r.S("ipv4", "date", "uri")}
		}
		return gen.M{"$ref": ref()}
	}
	doc := func() gen.M {
		return gen.M{"definitions": gen.M{"a": part(), "b": gen.M{"properties": gen.M{"a": part()}}}, r.S("allOf", "anyOf", "oneOf"): gen.A{part(), part()}, "items": part(), "additionalProperties": part()}
	}
	for i := 0; i < 2; i++ {
		d := doc()
		if i == 1 { // no cycle
			d = gen.M{"definitions": gen.M{"a": gen.M{"type": "string"}, "b": gen.M{"minimum": gen.Int(1)}}, "maxProperties": gen.Int(1)}
		}
		t := gen.Text(d)
		if i == 0 {
			t = strings.ReplaceAll(t, "http://w.test/0", "http://w.test/1")
		}
		p.Res = append(p.Res, plan.Res{URL: fmt.Sprintf("http://w.test/%d.json", i), Store: "http", Body: t, Chunk: chunk(r)})
	}
	var probes []int
	for k := 2 + r.N(3); k > 0; k-- {
		probes = append(probes, addDoc(p, r.S(`{"type":5}`, `{"a":{"type":"bogus"}}`, `[1,"x",{"a":1}]`, `{"minLength":-1}`, `{"required":["a","a"]}`, `{"a":"b","b":[1]}`, `"string"`, `-1`, `7`, `{}`, `["a","a"]`, instance(r))))
	}
	same := addDoc(p, gen.Text(doc()))
	slot := 0
	var after []plan.Op
	for t := 2 + r.N(2); t > 0; t-- {
		var ops []plan.Op
		for k := 1 + r.N(2); k > 0; k-- {
			d := same
			if r.P(50) {
				d = addDoc(p, gen.Text(doc()))
			}
			op := plan.Op{K: "newschema", D: d, S: slot, Via: r.S("str", "raw", "go")}
			if r.P(25) {
				op = plan.Op{K: "compile", L: len(p.Loaders), URL: ref(), S: slot, Via: "ref"}
				p.Loaders = append(p.Loaders, plan.LoaderSpec{Auto: true, Draft: int(pickDraft(r)), Validate: r.P(30)})
			}
			ops = append(ops, op)
			for _, d := range probes {
				v := plan.Op{K: "validate", S: slot, D: d, Via: "str"}
				ops = append(ops, v)
				after = append(after, v)
			}
			slot++
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.After = after
}

func checkFixed(p *plan.Plan) (*plan.Violation, string) {
	h := Exec(p, Opts{})
	if s := h.skip(); s != "" {
		return nil, s
	}
	if v := bad(p, h); v != nil {
		return v, ""
	}
	base := p.N["base"]
	if base > len(p.Setup) {
		base = len(p.Setup)
	}
	type key struct{ s, d int }
	first := map[key]*OpRes{}
	n := 0
	look := func(where string, i int, op *plan.Op, r *OpRes, learn bool) *plan.Violation {
		if op.K != "validate" {
			return nil
		}
		k := key{op.S, op.D}
		if op.Name == "as" {
			k.d = op.N
		}
		f := first[k]
		if f == nil {
			if learn && r.Err == "" {
				first[k] = r
			}
			return nil
		}
		n++
		if !sameSig(f, r) {
			return viol(p, "changed", "%s call %d: instance %s gives another result than directly after compilation\n%s", where, i, short(instText(p, op)), diff(f, r))
		}
		return nil
	}
	for i := range p.Setup {
		if v := look("setup", i, &p.Setup[i], h.Setup[i], i < base); v != nil {
			return v, ""
		}
	}
	for t := range p.Tasks {
		for i := range p.Tasks[t] {
			if v := look(fmt.Sprintf("task %d", t), i, &p.Tasks[t][i], h.Tasks[t][i], p.Kind == "while-compiling"); v != nil {
				return v, ""
			}
		}
	}
	for i := range p.After {
		if v := look("after", i, &p.After[i], h.After[i], false); v != nil {
			return v, ""
		}
	}
	if n == 0 {
		return nil, "nothing compiled"
	}
	probe("probe-later")
	if len(p.Tasks) > 0 {
		probe("probe-concurrent")
	}
	return nil, ""
}

// ---- C11

// spaced adds white space between the tokens of some texts.
func spaced(r *gen.R, s string) string {
	if !r.P(20) {
		return s
	}
	var b strings.Builder
	in, esc := false, false
	for _, c := range s {
		b.WriteRune(c)
		switch {
		case esc:
			esc = false
		case in && c == '\\':
			esc = true
		case c == '"':
			in = !in
		case !in && strings.ContainsRune("{}[],:", c) && r.P(25):
			b.WriteString(r.S(" ", "\n", "\t", "\r\n", " \t "))
		}
	}
	return r.S("", " ", "\t\n", "\r") + b.String() + r.S("", "\n", " \t", "\r\n")
}

func genShared(r *gen.R, p *plan.Plan) {
	sched(r, p)
	p.Formats = pickFormats(r)
	nl := 2 + r.N(2)
	// documents with references that depend on the base URI
	nd := 1 + r.N(3)
	var refs []string
	for i := 0; i < nd; i++ {
		refs = append(refs, fmt.Sprintf("part%d.json", i))
	}
	for i := 0; i < nd; i++ {
		g := &gen.G{R: r, D: []model.Draft{model.D4, model.D6, model.D7, model.Hybrid}[r.N(4)], Formats: p.Formats}
		m := g.Doc(1 + r.N(2))
		delete(m, "$schema")
		if m["$ref"] == nil {
			pr, _ := m["properties"].(gen.M)
			if pr == nil {
				pr = gen.M{}
			}
			pr["r1"] = gen.M{"$ref": refs[r.N(len(refs))]}
			if r.P(40) {
				pr["r2"] = gen.M{"$ref": refs[r.N(len(refs))] + "#"}
			}
			if r.P(20) {
				pr["r3"] = gen.M{"$ref": "http://shared.test/doc" + fmt.Sprint(r.N(nd)) + ".json"}
			}
			m["properties"] = pr
			if r.P(15) {
				m["$id"] = r.S("sub/x.json", "http://ids.test/x/", "other.json")
			}
			if r.P(8) {
				m["minimum"] = "broken" // refused
			}
			if r.P(25) { // values the library looks into although they are no schemas
				var v interface{} = gen.M{"$ref": refs[r.N(len(refs))], "x": gen.A{gen.M{"$ref": "#/definitions/z"}}}
				for k := 1 + r.N(4); k > 0; k-- {
					v = gen.A{v}
					if r.P(25) {
						v = gen.M{r.S("a", "items", "not"): v}
					}
				}
				m[r.S("default", "x-note", "examples", "const", "enums")] = v
			}
		}
		addDoc(p, spaced(r, gen.Text(m)))
	}
	share := func() string { return r.S("sraw", "sraw", "sgo", "sbytes", "sgon", "kraw", "kgo", "kbytes") }
	ni := 2 + r.N(3)
	// instances that fit the schemas
	q := &plan.Plan{Loaders: []plan.LoaderSpec{{Auto: true}}, Docs: append([]string(nil), p.Docs...)}
	o := newOracle(q)
	for i := 0; i < nd; i++ {
		o.step(&plan.Op{K: "reg", URL: "http://a.test/" + refs[i], D: i}, false)
	}
	var fit []string
	for i := 0; i < nd; i++ {
		if o.step(&plan.Op{K: "compile", URL: "http://a.test/" + refs[i], Via: "ref", S: i}, false); o.slots[i] != nil {
			fit = append(fit, o.instances(r, o.slots[i], p.Formats, 3)...)
		}
	}
	for i := 0; i < ni; i++ {
		if len(fit) > 0 && r.P(60) {
			addDoc(p, spaced(r, fit[r.N(len(fit))]))
			continue
		}
		g := &gen.G{R: r, Formats: p.Formats}
		v := g.Value(3)
		if r.P(60) {
			o := gen.M{}
			for _, k := range []string{"r1", "r2", "a", "b", "c", "foo"} {
				if r.P(50) {
					o[k] = g.Value(2)
				}
			}
			v = o
		}
		addDoc(p, gen.Text(v))
	}
	used := map[int]bool{}
	taskOps := func(l int) []plan.Op {
		var ops []plan.Op
		base := fmt.Sprintf("http://%s.test/%s", r.S("a", "b", "c"), r.S("", "x/", "x/y/"))
		n := 0
		fac := r.P(25)
		if !fac {
			for i := 0; i < nd; i++ {
				ops = append(ops, plan.Op{K: "reg", L: l, URL: base + refs[i], D: i, Via: share()})
			}
			for k := r.N(2); k > 0; k-- { // refused or unusual
				ops = append(ops, plan.Op{K: "reg", L: l, URL: base + refs[r.N(nd)], D: r.N(nd), Via: share()})
			}
			ops = append(ops, plan.Op{K: "regs", L: l, Ds: []int{r.N(nd)}, Via: share()})
		}
		for k := 1 + r.N(2); k > 0; k-- {
			s := l*8 + n
			n++
			d := r.N(nd)
			switch {
			case fac:
				ops = append(ops, plan.Op{K: "compile", L: l, URL: docURL(d), Via: "sfac", S: s})
			case r.P(70) || used[l]:
				ops = append(ops, plan.Op{K: "compile", L: l, URL: base + refs[d], Via: "ref", S: s})
			default:
				used[l] = true
				ops = append(ops, plan.Op{K: "compile", L: l, D: d, Via: share(), S: s})
			}
			for j := 1 + r.N(3); j > 0; j-- {
				ops = append(ops, plan.Op{K: "validate", S: s, D: nd + r.N(ni), Via: r.S(share(), "simap")})
			}
			if r.P(20) { // a schema is an instance, too
				ops = append(ops, plan.Op{K: "validate", S: s, D: d, Via: share()})
			}
		}
		if r.P(15) {
			ops = append(ops, plan.Op{K: "newschema", D: r.N(nd), Via: share(), S: l*8 + 7})
		}
		return ops
	}
	for l := 0; l < nl; l++ {
		p.Loaders = append(p.Loaders, plan.LoaderSpec{Auto: true, Draft: int(pickDraft(r)), Validate: r.P(20)})
	}
	if r.P(60) {
		for l := 0; l < nl; l++ {
			p.Tasks = append(p.Tasks, taskOps(l))
		}
	} else {
		for l := 0; l < nl; l++ {
			p.Setup = append(p.Setup, taskOps(l)...)
		}
	}
}

// fresh replaces shared values by copies.
func fresh(p *plan.Plan) *plan.Plan {
	q := *p
	conv := func(ops []plan.Op) []plan.Op {
		out := append([]plan.Op(nil), ops...)
		for i := range out {
			switch out[i].Via {
			case "sraw", "kraw":
				out[i].Via = "raw"
			case "sgo", "kgo":
				out[i].Via = "go"
			case "sgon":
				out[i].Via = "gon"
			case "sbytes", "kbytes":
				out[i].Via = "bytes"
			case "simap":
				out[i].Via = "imap"
			case "sfac":
				out[i].Via = "ffac"
			}
		}
		return out
	}
	q.Setup = conv(p.Setup)
	q.After = conv(p.After)
	q.Tasks = nil
	for _, t := range p.Tasks {
		q.Tasks = append(q.Tasks, conv(t))
	}
	return &q
}

func checkShared(p *plan.Plan) (*plan.Violation, string) {
	h := Exec(p, Opts{})
	if s := h.skip(); s != "" {
		return nil, s
	}
	if v := bad(p, h); v != nil {
		return v, ""
	}
	e := h.env
	for i := range e.docs {
		want, err := model.Decode(e.docs[i])
		if err != nil {
			continue
		}
		if !reflect.DeepEqual(want, e.raws[i]) {
			return viol(p, "modified", "the caller's value of document %d was modified\nbefore %s\n after %s", i, short(e.docs[i]), short(gen.Text(e.raws[i]))), ""
		}
		if string(e.bytes[i]) != e.docs[i] {
			return viol(p, "modified", "the caller's bytes of document %d were modified\nbefore %s\n after %s", i, short(e.docs[i]), short(string(e.bytes[i]))), ""
		}
		if overrun(e.raws[i]) || string(e.bytes[i][:len(e.docs[i])+4]) != e.docs[i]+"zzzz" {
			return viol(p, "modified", "something was written behind the end of a slice of the caller's value of document %d: %s", i, short(e.docs[i])), ""
		}
		if !reflect.DeepEqual(native(e.docs[i]), e.natives[i]) {
			return viol(p, "modified", "the caller's Go value of document %d was modified: %s", i, short(e.docs[i])), ""
		}
		if !reflect.DeepEqual(imap(want, len(e.docs[i])), e.imaps[i]) {
			return viol(p, "modified", "the caller's map value of document %d was modified\nbefore %s\n after %v", i, short(e.docs[i]), short(fmt.Sprint(e.imaps[i]))), ""
		}
	}
	b := Exec(fresh(p), Opts{NoSched: true})
	if b.skip() != "" {
		return nil, b.skip()
	}
	ok := 0
	cmp := func(where string, i int, op *plan.Op, want, got *OpRes) *plan.Violation {
		if want.Panic != "" {
			return nil
		}
		if want.Err == "" {
			ok++
		}
		if !sameSig(want, got) {
			return viol(p, "shared", "%s call %d (%s via %s, document %d) differs from the same call with a fresh copy\n%s", where, i, opName(op), op.Via, op.D, diff(want, got))
		}
		return nil
	}
	for i := range p.Setup {
		if v := cmp("setup", i, &p.Setup[i], b.Setup[i], h.Setup[i]); v != nil {
			return v, ""
		}
	}
	for t := range p.Tasks {
		for i := range p.Tasks[t] {
			if v := cmp(fmt.Sprintf("task %d", t), i, &p.Tasks[t][i], b.Tasks[t][i], h.Tasks[t][i]); v != nil {
				return v, ""
			}
		}
	}
	if ok == 0 {
		return nil, "nothing succeeded"
	}
	probe("shared-ok")
	return nil, ""
}

// ---- C12

const fmtProbe = "zz" // no built-in format accepts it

var regNames = []string{"vf-a", "vf-b", "ipv4"}

func genRegistry(r *gen.R, p *plan.Plan) {
	sched(r, p)
	names := regNames[:1+r.N(3)]
	if r.P(25) { // names that are almost the same
		names = []string{"vf-a", r.S("VF-A", "vf-a ", "vf_a", "vf-aa", "Vf-a")}
	}
	p.Names = names
	// slot i: items with format i; slot 8: one property for each format
	for i, n := range names {
		p.Setup = append(p.Setup, plan.Op{K: "newschema", D: addDoc(p, gen.Text(gen.M{"items": gen.M{"format": n}})), S: i})
	}
	pr := gen.M{}
	for i, n := range names {
		pr[fmt.Sprint("k", i)] = gen.M{"format": n}
	}
	p.Setup = append(p.Setup, plan.Op{K: "newschema", D: addDoc(p, gen.Text(gen.M{"properties": pr})), S: 8})
	id := 0
	next := func() int { id++; return id }
	write := func() plan.Op {
		n := names[r.N(len(names))]
		if r.P(35) {
			return plan.Op{K: "fmtdel", Name: n}
		}
		return plan.Op{K: "fmtadd", Name: n, ID: next()}
	}
	val := 0
	fresh := func() string { val++; return fmt.Sprintf("%s%d", fmtProbe, val) }
	v := fresh
	if r.P(35) { // the same values again and again
		v = func() string {
			if r.P(80) {
				return fmtProbe + r.S("", "", "x")
			}
			return fresh()
		}
	}
	read := func() plan.Op {
		i := r.N(len(names))
		switch r.N(5) {
		case 0:
			return plan.Op{K: "fmthas", Name: names[i]}
		case 1:
			return plan.Op{K: "fmtis", Name: names[i], Arg: v()}
		case 2, 3:
			a := gen.A{v()}
			for k := r.N(3); k > 0; k-- {
				a = append(a, fresh())
			}
			return plan.Op{K: "fmtval", S: i, Name: names[i], Arg: gen.Text(a)}
		}
		o := gen.M{}
		for k := range names {
			o[fmt.Sprint("k", k)] = fresh()
		}
		o["k0"] = v()
		return plan.Op{K: "fmtval", S: 8, Arg: gen.Text(o)}
	}
	for k := r.N(3); k > 0; k-- {
		p.Setup = append(p.Setup, write())
	}
	nt := 2 + r.N(3)
	for t := 0; t < nt; t++ {
		var ops []plan.Op
		for k := 1 + r.N(4); k > 0; k-- {
			if r.P(45) {
				ops = append(ops, write())
			} else {
				ops = append(ops, read())
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	for k := 1 + r.N(3); k > 0; k-- {
		p.After = append(p.After, read())
	}
}

// rop is one operation of the history on one name. State: 0 none, -1 the
// built-in checker, otherwise the id of a registration.
type rop struct {
	call, ret int64
	write     bool
	val       int
	// 1 = must be present, 0 = must be absent, -1 = exact val, 2 and 3 =
	// whatever accepts or refuses
	has  int
	text string
}

func checkRegistry(p *plan.Plan) (*plan.Violation, string) {
	h := Exec(p, Opts{})
	if s := h.skip(); s != "" {
		return nil, s
	}
	if v := bad(p, h); v != nil {
		return v, ""
	}
	hist := map[string][]rop{}
	add := func(n string, o rop) { hist[n] = append(hist[n], o) }
	var bad *plan.Violation
	uses := map[string]int{} // how many calls use a value
	for _, ops := range append([][]plan.Op{p.Setup, p.After}, p.Tasks...) {
		for i := range ops {
			if ops[i].K == "fmtis" || ops[i].K == "fmtval" {
				for v := range formatUses(p, &ops[i]) {
					uses[v]++
				}
			}
		}
	}
	look := func(where string, off int64, ops []plan.Op, rs []*OpRes) {
		for i := range ops {
			op, r := &ops[i], rs[i]
			call, ret := off+r.Call, off+r.Ret
			name := fmt.Sprintf("%s %d: %s %s id %d", where, i, op.K, op.Name, op.ID)
			switch op.K {
			case "fmtadd":
				add(op.Name, rop{call, ret, true, op.ID, -1, name})
			case "fmtdel":
				add(op.Name, rop{call, ret, true, 0, -1, name})
			case "fmthas":
				x := 0
				if r.Bool {
					x = 1
				}
				add(op.Name, rop{call, ret, false, 0, x, fmt.Sprintf("%s = %v", name, r.Bool)})
			case "fmtis", "fmtval":
				if r.Err != "" {
					bad = viol(p, "error", "%s returned error %s", name, r.Err)
					return
				}
				for val, fn := range formatUses(p, op) {
					// the outcome for this value
					pass := true
					for _, f := range r.Fails {
						if f == val {
							pass = false
						}
					}
					if op.K == "fmtis" {
						pass = r.Bool
					}
					n, last := 0, consult{}
					for _, c := range r.Cons {
						if c.Val == val {
							n++
							last = c
							add(fn, rop{call, off + c.Step, false, c.ID, -1, fmt.Sprintf("%s value %s consulted registration %d", name, val, c.ID)})
						}
					}
					switch {
					case n > 1:
					case n == 1:
						if pass != last.Ans {
							bad = viol(p, "answer", "%s: registration %d answered %v for %s but the outcome is %v", name, last.ID, last.Ans, val, pass)
							return
						}
					case uses[val] > 1 && pass:
						// an earlier answer for this value may be known
						add(fn, rop{call, ret, false, 0, 2, fmt.Sprintf("%s value %s accepted without asking", name, val)})
					case uses[val] > 1:
						add(fn, rop{call, ret, false, 0, 3, fmt.Sprintf("%s value %s refused without asking", name, val)})
					case pass:
						add(fn, rop{call, ret, false, 0, -1, fmt.Sprintf("%s value %s accepted without a checker", name, val)})
					default:
						add(fn, rop{call, ret, false, -1, -1, fmt.Sprintf("%s value %s refused by the built-in checker", name, val)})
					}
				}
				if op.K == "fmtval" && r.Bool != (len(r.Fails) == 0) {
					bad = viol(p, "answer", "%s: valid=%v with failures %v", name, r.Bool, r.Fails)
					return
				}
			}
		}
	}
	look("setup", 0, p.Setup, h.Setup)
	for t := range p.Tasks {
		look(fmt.Sprintf("task %d op", t), 1<<40, p.Tasks[t], h.Tasks[t])
	}
	look("after", 2<<40, p.After, h.After)
	if bad != nil {
		return bad, ""
	}
	n := 0
	for _, name := range p.Names {
		ops := hist[name]
		if len(ops) == 0 {
			continue
		}
		if len(ops) > 60 {
			return nil, "history too long"
		}
		n++
		init := 0
		if name == "ipv4" {
			init = -1
		}
		ok, known := linearizable(ops, init)
		if !known {
			return nil, "linearizability search too large"
		}
		if !ok {
			var sb strings.Builder
			for _, o := range ops {
				fmt.Fprintf(&sb, "\n[%d, %d] %s", o.call, o.ret, o.text)
			}
			return viol(p, "linearizability", "the history of format %q has no sequential explanation:%s", name, sb.String()), ""
		}
	}
	if n == 0 {
		return nil, "no format used"
	}
	probe("linearized")
	return nil, ""
}

// formatUses lists the values of a call and the format each is subject to.
func formatUses(p *plan.Plan, op *plan.Op) map[string]string {
	out := map[string]string{}
	if op.K == "fmtis" {
		out[op.Arg] = op.Name
		return out
	}
	v, err := model.Decode(op.Arg)
	if err != nil {
		return out
	}
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			if s, ok := e.(string); ok {
				out[s] = op.Name
			}
		}
	case map[string]interface{}:
		for k, e := range x {
			var i int
			if s, ok := e.(string); ok {
				if _, err := fmt.Sscanf(k, "k%d", &i); err == nil && i < len(p.Names) {
					out[s] = p.Names[i]
				}
			}
		}
	}
	return out
}

// accepts tells what a state of the registry makes of a probe.
func accepts(state int) bool { return state >= 0 && state%2 == 0 }

func linearizable(ops []rop, init int) (ok, known bool) {
	type st struct {
		done uint64
		val  int
	}
	seen := map[st]bool{}
	var dfs func(done uint64, val int) bool
	n := len(ops)
	steps := 0
	dfs = func(done uint64, val int) bool {
		if bits.OnesCount64(done) == n {
			return true
		}
		k := st{done, val}
		if seen[k] || steps > 400000 {
			return false
		}
		steps++
		seen[k] = true
		min := int64(1) << 62
		for i := range ops {
			if done>>uint(i)&1 == 0 && ops[i].ret < min {
				min = ops[i].ret
			}
		}
		for i := range ops {
			o := &ops[i]
			if done>>uint(i)&1 == 1 || o.call > min {
				continue
			}
			nv := val
			if o.write {
				nv = o.val
			} else if o.has >= 2 {
				if accepts(val) != (o.has == 2) {
					continue
				}
			} else if o.has >= 0 {
				if (val != 0) != (o.has == 1) {
					continue
				}
			} else if val != o.val {
				continue
			}
			if dfs(done|1<<uint(i), nv) {
				return true
			}
		}
		return false
	}
	ok = dfs(0, init)
	return ok, ok || steps <= 400000
}
