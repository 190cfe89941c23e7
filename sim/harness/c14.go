package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
)

func init() {
	register(&Scenario{Prop: "C14", Kind: "hostile", Weight: 1, Gen: genHostile, Check: checkHostile})
}

var hostileRefs = []string{
	"#/%", "http://[::1", "%zz", "::", "#/definitions/~2", "//", "?", "file:", "file:///%00", "urn:x:y", "mailto:a", "http://", "\x00",
	"#/a/b/c/../..", "http://a.test:99999/", "data:,x", "//host", "\\", " ", "", "#", "##", "#/", "#//", "#a", "#/definitions", "#/definitions/", "#/properties/t/0",
	"#/allOf/0", "#/allOf/9", "#/allOf/-1", "#/items/x", "http://a.test/%", "http://a.test/\u00fc#/\u00fc", "..", "../../../..", "/", "./", "file:///", "file://host/x",
	"http://json-schema.org/draft-07/schema#/definitions/nonNegativeInteger", "http://json-schema.org/draft-03/schema#", "json-schema.org/draft-04/schema",
	"http://json-schema.org/draft-07/schema#/definitions/none", "#/$ref", "#/enum", "#/type", "#/~", "#/~0~1", "#/definitions/d0/definitions/d0", "http://user:pw@a.test/", "HTTP://A.TEST/",
	"http://a.test/?#", "#?", "javascript:0", "file:relative", "c:\\x", "ftp://a.test/x", "https:///x", "http:a", "http://a.test#/definitions/%25",
}

var hostileJSON = []string{
	"null", "true", "false", "0", "-0", "-1", "1", "1.5", "1e400", "1e1000001", "1e-400", "-1e99999", "9223372036854775808", "18446744073709551616", "1e2", "1.0", "0.1e1",
	`""`, `"a"`, `"#"`, `"\u0000"`, `"\ud800"`, `"("`, `"[a-"`, `"(?<!x)"`, `"string"`, `"$ref"`, `"date"`, "[]", "{}", "[null]", "[[]]", "[{}]", "[true]", "[1,1]", `["a","a"]`, `["string","string"]`, `["a",1]`,
	`{"":null}`, `{"$ref":1}`, `{"$ref":null}`, `{"$ref":{}}`, `{"$ref":"#"}`, `{"$id":1}`, `{"$id":{}}`, `{"id":[]}`, `{"$id":"#"}`, `{"$id":""}`, `{"$schema":1}`, `{"$schema":"x"}`, `{"type":[]}`, `{"type":{}}`, `{"type":"x"}`, `{"type":["null",2]}`,
	`{"properties":null}`, `{"properties":{"a":null}}`, `{"properties":{"a":1}}`, `{"items":null}`, `{"items":[null]}`, `{"items":"x"}`, `{"definitions":true}`, `{"definitions":{"a":1}}`, `{"definitions":[]}`,
	`{"enum":{}}`, `{"enum":null}`, `{"enum":[]}`, `{"required":{}}`, `{"required":[1]}`, `{"required":"a"}`, `{"dependencies":[]}`, `{"dependencies":{"a":1}}`, `{"dependencies":{"a":[1]}}`, `{"dependencies":{"a":null}}`,
	`{"pattern":"("}`, `{"pattern":1}`, `{"patternProperties":{"(":{}}}`, `{"patternProperties":[]}`, `{"minimum":"1"}`, `{"minimum":1e400}`, `{"maximum":1e1000001}`, `{"multipleOf":0}`, `{"multipleOf":-1}`, `{"multipleOf":1e-400}`, `{"multipleOf":1e1000001}`,
	`{"minLength":-1}`, `{"minLength":1.5}`, `{"minLength":1e400}`, `{"maxLength":1e1000001}`, `{"minItems":"a"}`, `{"maxItems":null}`, `{"maxProperties":1e30}`, `{"uniqueItems":1}`, `{"exclusiveMinimum":true}`, `{"exclusiveMinimum":true,"minimum":"x"}`, `{"exclusiveMaximum":null}`, `{"exclusiveMinimum":1e1000001}`,
	`{"allOf":{}}`, `{"allOf":[]}`, `{"allOf":[1]}`, `{"anyOf":[null]}`, `{"oneOf":true}`, `{"not":1}`, `{"not":[]}`, `{"if":1}`, `{"then":[]}`, `{"if":{},"then":null}`, `{"contains":1}`, `{"propertyNames":"x"}`, `{"additionalProperties":1}`, `{"additionalItems":"x"}`, `{"additionalItems":[]}`,
	`{"format":1}`, `{"format":"regex"}`, `{"const":{"$ref":"#"}}`, `{"title":1}`, `{"description":[]}`, `{"default":{"$ref":1}}`, `{"readOnly":1}`, `{"const":1e1000001}`, `{"enum":[1e1000001]}`, `{"uniqueItems":true}`,
}

var keywords = []string{"$ref", "$id", "id", "$schema", "type", "properties", "patternProperties", "additionalProperties", "items", "additionalItems", "definitions", "enum", "const", "required", "dependencies", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "contains", "propertyNames", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "minLength", "maxLength", "pattern", "format", "minItems", "maxItems", "uniqueItems", "minProperties", "maxProperties", "title", "description", "default", "readOnly", "examples", "$comment", "contentMediaType", "contentEncoding", "minContains", "$defs", "$anchor", "name", "extends", "disallow", "divisibleBy", "writeOnly", "$recursiveRef", "links"}

func hostileValue(r *gen.R) interface{} {
	if r.P(25) {
		return gen.M{"$ref": r.S(hostileRefs...)}
	}
	if r.P(6) {
		var v interface{} = "x"
		for k := 20 + r.N(200); k > 0; k-- {
			switch k % 3 {
			case 0:
				v = gen.A{v}
			case 1:
				v = gen.M{"not": v}
			default:
				v = gen.M{"items": v}
			}
		}
		return v
	}
	return model.MustDecode(r.S(hostileJSON...))
}

// oddValue returns a small value of any kind.
func oddValue(r *gen.R) interface{} {
	return model.MustDecode(r.S(`null`, `null`, `[]`, `{}`, `0`, `-1`, `1.5`, `""`, `"x"`, `true`, `false`, `[null]`, `[[]]`, `[{}]`, `["a",1]`, `[1,1]`, `{"a":null}`, `{"a":1}`, `{"a":[]}`, `{"a":[1]}`, `{"":{}}`, `{"(":{}}`, `"("`))
}

// nodes counts the values in v; at replaces the nth.
func nodes(v interface{}) int {
	n := 1
	switch x := v.(type) {
	case map[string]interface{}:
		for _, e := range x {
			n += nodes(e)
		}
	case []interface{}:
		for _, e := range x {
			n += nodes(e)
		}
	}
	return n
}

func replaceAt(v interface{}, n *int, f func(interface{}) interface{}) interface{} {
	if *n == 0 {
		*n = -1
		return f(v)
	}
	*n--
	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if *n >= 0 {
				x[k] = replaceAt(x[k], n, f)
			}
		}
	case []interface{}:
		for i := range x {
			if *n >= 0 {
				x[i] = replaceAt(x[i], n, f)
			}
		}
	}
	return v
}

// corrupt damages a document.
func corrupt(r *gen.R, s string, other string) string {
	for k := 1 + r.N(3); k > 0; k-- {
		b := []byte(s)
		if len(b) == 0 {
			return s
		}
		switch r.N(14) {
		case 0: // bits
			for j := 1 + r.N(3); j > 0; j-- {
				b[r.N(len(b))] ^= 1 << r.N(8)
			}
		case 1: // lost bytes
			i := r.N(len(b))
			j := i + 1 + r.N(12)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 2: // cut
			b = b[:r.N(len(b))]
		case 3: // spliced with another document
			i := r.N(len(b))
			if other != "" {
				b = append(b[:i:i], other[r.N(len(other)):]...)
			}
		case 4: // a piece repeated
			i := r.N(len(b))
			j := i + 1 + r.N(30)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:j:j], b[i:]...)
		case 5:
			i := r.N(len(b))
			ins := r.S("{", "}", "[", "]", ",", ":", "\"", "\\", "\x00", "\xff", "\xef\xbb\xbf", "\\ud800", "1e400", "null", "//", "NaN", "-", "01", "\n", "{\"$ref\":\"#\"}")
			b = append(b[:i:i], append([]byte(ins), b[i:]...)...)
		default: // other well-formed JSON in some place
			v, err := model.Decode(s)
			if err != nil {
				b = []byte(r.S(hostileJSON...))
				break
			}
			n := r.N(nodes(v))
			v = replaceAt(v, &n, func(old interface{}) interface{} {
				if m, ok := old.(map[string]interface{}); ok && r.P(70) {
					if r.P(35) {
						m[r.S("$ref", "$ref", "$id", "id", "$schema")] = r.S(hostileRefs...)
					} else {
						m[r.S(keywords...)] = hostileValue(r)
					}
					return m
				}
				if _, ok := old.(string); ok && r.P(50) {
					return r.S(hostileRefs...)
				}
				return hostileValue(r)
			})
			if t, err := json.Marshal(v); err == nil {
				b = t
			}
		}
		s = string(b)
	}
	return s
}

func genHostile(r *gen.R, p *plan.Plan) {
	sched(r, p)
	p.Formats = pickFormats(r)
	nt := 1 + r.N(2)
	var ls plan.LoaderSpec
	// the calls that must not be affected
	good := addDoc(p, schemaText(r, pickDraft(r), p.Formats, 1+r.N(2)))
	p.Setup = append(p.Setup, plan.Op{K: "newschema", D: good, S: 0, Via: "str"})
	o := stepAll(p)
	var probes []plan.Op
	for _, t := range o.instances(r, o.slots[0], p.Formats, 3) {
		probes = append(probes, plan.Op{K: "validate", D: addDoc(p, t), Via: r.S("str", "raw", "go")})
	}
	probes = append(probes, plan.Op{K: "vall", D: good, Via: "str", Arg: "str", N: probes[0].D}, plan.Op{K: "fmthas", Name: "ipv4"}, plan.Op{K: "fmtis", Name: "email", Arg: "x"})
	var ops []plan.Op
	for k := 1 + r.N(3); k > 0; k-- {
		ops = append(ops, probes[r.N(len(probes))])
	}
	p.Tasks = append(p.Tasks, ops)
	p.After = append(p.After, probes...)
	for t := 1; t <= nt; t++ {
		cfg := gcfg{ndocs: 1 + r.N(3), stores: [][]string{{"http"}, {"fs"}, {"http", "fs"}}[r.N(3)], regPct: 40, idPct: 30, anon: 40, rich: 60, sens: 20, loops: 10, missing: 5, deep: 15, formats: p.Formats}
		cfg.mode(r, &ls)
		ls.Validate = r.P(40)
		l := len(p.Loaders)
		p.Loaders = append(p.Loaders, ls)
		base := len(p.Docs)
		nres := len(p.Res)
		var ops []plan.Op
		root := base
		if r.P(35) { // one document
			addDoc(p, schemaText(r, pickDraft(r), p.Formats, 1+r.N(2)))
			ops = append(ops, plan.Op{K: r.S("compile", "compile", "newschema"), L: l, D: base, S: 8 + t, Via: r.S(memVias...)})
		} else {
			g := &graph{R: r, cfg: cfg, loader: ls}
			g.build()
			g.install(p, l, t)
			for _, op := range append(g.regOps(l), g.compileOp(l, 0, 8+t, t)) {
				op.D += base
				for i := range op.Ds {
					op.Ds[i] += base
				}
				if op.Via != "ref" && op.Via != "reffs" {
					op.Via = r.S(memVias...)
				}
				ops = append(ops, op)
			}
		}
		rootText := p.Docs[root]
		// instances aimed at the intact schema
		var insts []int
		if sl := compiled(p, p.Docs[root]); sl != nil {
			for _, s := range o.instances(r, sl, p.Formats, 2) {
				insts = append(insts, addDoc(p, s))
			}
		}
		insts = append(insts, addDoc(p, r.S(`{"t":"T1","u":{"t":"T2"},"a":[1,"x"]}`, instance(r))), addDoc(p, r.S(hostileJSON...)), addDoc(p, r.S("0", "1", "-7", "1.5", "0.0", "3e2", "1e-400", "[1,2.5]", `{"a":4}`)))
		// damage
		hurt := 0
		for i := base; i < len(p.Docs); i++ {
			if i < insts[0] && r.P(60) || i >= insts[0] && r.P(40) {
				p.Docs[i] = corrupt(r, p.Docs[i], rootText)
				hurt++
			}
		}
		for i := nres; i < len(p.Res); i++ {
			if r.P(50) || hurt == 0 {
				p.Res[i].Body = corrupt(r, p.Res[i].Body, rootText)
				hurt++
			}
			p.Res[i].Chunk = chunk(r)
		}
		if r.P(12) { // one bad keyword that a number meets
			k, n := r.S("multipleOf", "multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"), r.S("0", "-1", "0.0", "-0", "0e5", "-0.5", "1e400", "-1e1000001", "true", `"0"`, "null", "0.0000000000000000001", "1e-1000001")
			if r.P(70) {
				p.Docs[base] = fmt.Sprintf(`{"%s":%s}`, k, n)
			} else {
				p.Docs[base] = fmt.Sprintf(`{"items":{"%s":%s},"additionalProperties":{"%s":%s}}`, k, n, k, n)
			}
			hurt++
		}
		if r.P(12) { // keywords that hold something else than they should
			m := gen.M{}
			for j := 1 + r.N(3); j > 0; j-- {
				m[r.S(keywords...)] = oddValue(r)
			}
			var s interface{} = m
			if r.P(30) {
				s = gen.M{"items": m, "additionalProperties": m}
			}
			p.Docs[base] = gen.Text(s)
			for _, t := range []string{r.S(`[]`, `[1]`, `["a","a"]`, `[1,[],{}]`), r.S(`{}`, `{"a":1}`, `{"a":[1,1],"b":{}}`), r.S(`""`, `"abc"`, `0`, `-1.5`, `null`, `true`)} {
				insts = append(insts, addDoc(p, t))
			}
			hurt++
		}
		if hurt == 0 {
			p.Docs[base] = corrupt(r, p.Docs[base], rootText)
		}
		for _, d := range insts {
			if r.P(70) {
				ops = append(ops, plan.Op{K: "validate", S: 8 + t, D: d, Via: r.S(append([]string{"imap"}, memVias...)...)})
			}
		}
		if r.P(30) {
			ops = append(ops, plan.Op{K: "vall", D: base + r.N(len(p.Docs)-base), Via: r.S(memVias...), Arg: r.S(memVias...), N: insts[r.N(len(insts))]})
		}
		if r.P(30) {
			ops = append(ops, plan.Op{K: "validate", S: 0, D: insts[r.N(len(insts))], Via: r.S(memVias...)})
		}
		if r.P(20) {
			ops = append(ops, plan.Op{K: "reg", L: l, URL: r.S(hostileRefs...), D: base, Via: "str"})
		}
		if r.P(15) {
			ops = append(ops, plan.Op{K: "compile", L: l, URL: r.S(hostileRefs...), S: 8 + t, Via: r.S("reffs", "ref"), N: t})
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// compiled is the model's view of a document on its own.
func compiled(p *plan.Plan, text string) *slot {
	q := &plan.Plan{Docs: []string{text}, Formats: p.Formats, Setup: []plan.Op{{K: "newschema", Via: "str"}}}
	o := stepAll(q)
	if s := o.slots[0]; s != nil && s.s != nil {
		return s
	}
	return nil
}

func checkHostile(p *plan.Plan) (*plan.Violation, string) {
	h, v, s := checkEnds(p)
	if v != nil || s != "" {
		return v, s
	}
	if len(p.Tasks) < 2 {
		return nil, "nothing generated"
	}
	for t := 1; t < len(p.Tasks); t++ {
		for i, r := range h.Tasks[t] {
			if r.Leak != "" {
				return viol(p, "leak", "task %d call %d (%s) left %s open", t, i, opName(&p.Tasks[t][i]), r.Leak), ""
			}
		}
	}
	q := *p
	q.Tasks = p.Tasks[:1]
	q.Loaders = nil
	h0 := Exec(&q, Opts{NoSched: true})
	if s := h0.skip(); s != "" {
		return nil, s
	}
	if v := bad(p, h0); v != nil {
		return v, ""
	}
	cmp := func(where string, ops []plan.Op, a, b []*OpRes) *plan.Violation {
		for i := range ops {
			if !sameSig(a[i], b[i]) || a[i].Bool != b[i].Bool {
				return viol(p, "affected", "%s %d (%s) is affected by damaged documents used elsewhere\n%s", where, i, opName(&ops[i]), diff(a[i], b[i]))
			}
		}
		return nil
	}
	if v := cmp("concurrent call", p.Tasks[0], h0.Tasks[0], h.Tasks[0]); v != nil {
		return v, ""
	}
	if v := cmp("later call", p.After, h0.After, h.After); v != nil {
		return v, ""
	}
	for t := 1; t < len(p.Tasks); t++ {
		for i, r := range h.Tasks[t] {
			k := p.Tasks[t][i].K
			switch {
			case r.Err != "":
				probe("hostile-" + k + "-error")
			case r.Nil || r.Valid:
				probe("hostile-" + k + "-accepted")
			default:
				probe("hostile-" + k + "-invalid")
			}
		}
	}
	return nil, ""
}

var _ = fmt.Sprint
var _ = strings.Contains
