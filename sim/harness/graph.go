package harness

import (
	"fmt"
	"net/url"
	"sort"
	"strings"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
)

// A graph is a set of documents linked by references; every leaf accepts one
// distinct tag, so that a verdict tells which leaf a reference reached.

type gdef struct {
	name   string
	kind   string // plain, nested, anchor
	abs    []string
	nested string // base inside
	anchor string
	inner  []string
}

type gdoc struct {
	same  string // an identifier another document has
	url   string
	store string
	id    string // absolute top-level identifier, "" none
	idRel string
	draft int // declared draft, 0 none
	eff   model.Draft
	reg   string // "", reg, regs
	defs  []gdef
	idx   int
	text  string
	root  gen.M
}

type gtarget struct {
	uri   string
	doc   int
	order int
}

type graph struct {
	*gen.R
	docs    []*gdoc
	tags    int
	cfg     gcfg
	targets []gtarget
	cur     *gdoc
	loader  plan.LoaderSpec
	twin    bool // documents with confusable names
	taken   map[string]bool
}

type gcfg struct {
	ndocs    int
	stores   []string // for documents that are not registered
	regPct   int
	declare  int // percent of documents that declare $schema; 100 all, 0 none
	mislead  bool
	sens     int // percent of draft-sensitive leaves
	escapes  bool
	idPct    int
	anon     int // percent of anonymous roots
	rich     int // percent of leaves that are random schemas
	formats  []string
	repeat   int // percent of graphs with a fetched document that repeats an identifier
	missing  int // percent of graphs with a dangling reference
	noNested bool
	loops    int  // percent of in-place references that may close a cycle
	odd      int  // percent of documents whose $schema names no draft
	deep     int  // percent of graphs with pointers to any subschema
	meta     int  // percent of references to the built-in meta-schemas
	multi    bool // AddSchemas with several loaders
	wild     bool // references whose outcome hangs on the order of loading
}

var httpBases = []string{"http://a.test/", "http://a.test/x/", "http://a.test/x/y/", "http://b.test/", "https://a.test/x/", "http://b.test:8080/x/"}
var twinBases = []string{"http://a.test/x/", "https://a.test/x/", "http://b.test/x/", "http://b.test:8080/x/", "http://a.test/y/", "http://a.test:8080/x/", "http://a.test/"}
var plainNames = []string{"d%d.json", "doc%d", "n%d.schema.json", "v1.%d"}
var escNames = []string{"a%%20b%d.json", "p+q%d.json", "%%C3%%BC%d.json", "x;y=%d", "a:b%d.json", "c%%25d%d"}

// fresh marks u as in use; false: it is already.
func (g *graph) fresh(u string) bool {
	if g.taken == nil {
		g.taken = map[string]bool{}
	}
	n := model.NormURL(sub(u))
	if g.taken[n] {
		return false
	}
	g.taken[n] = true
	return true
}

func (g *graph) urlFor(i int, store string) string {
	if g.twin {
		// names that differ only in a part that is easily lost
		for tries := 0; tries < 12; tries++ {
			u := g.S(twinBases...) + g.S("same.json", "same.json", "Same.json", "same.json?v=1", "same.json?v=2", "same")
			switch store {
			case "os":
				u = "file://" + osMarker + g.S("/s/", "/s/t/", "/", "/S/") + g.S("same.json", "same")
			case "http":
			default:
				u = "file://" + g.S("/data/", "/data/sub/", "/s/", "/S/") + g.S("same.json", "Same.json", "same")
			}
			if g.fresh(u) {
				return u
			}
		}
	}
	if store == "http" && g.P(6) {
		// no path at all; places near the built-in meta-schemas
		if u := g.S("http://c.test", "http://d.test:8080", "http://c.test/", "http://a.test/schemas/", "http://a.test/x/y/", "http://b.test/x/?v", "http://user@b.test/doc", "http://[2001:db8::1]/doc", "http://a.test/a//b.json", "http://a.test/q?a=b&c=/d/e.json", "http://a.test/draft-07/schema", "https://json-schema.org/draft-07/schema", "http://json-schema.org/draft-06/hyper-schema", "http://json-schema.org/schema", "http://json-schema.org/draft-04/schema/x", "http://b.test/draft-04/schema"); g.fresh(u) {
			return u
		}
	}
	pat := g.S(plainNames...)
	if g.cfg.escapes && g.P(25) {
		pat = g.S(escNames...)
	}
	name := fmt.Sprintf(pat, i)
	switch {
	case store == "http":
		if g.cfg.escapes && g.P(10) {
			name += "?q=" + fmt.Sprint(i)
		}
		return g.S(httpBases...) + name
	case store == "os":
		return "file://" + osMarker + g.S("/s/", "/s/t/", "/") + name
	}
	return "file://" + g.S("/data/", "/data/sub/", "/s/") + name
}

// rel returns a way to write target as seen from base.
func (g *graph) rel(base, target string) string {
	cands := []string{target}
	b, _ := model.SplitFrag(base)
	t, frag := model.SplitFrag(target)
	if b == t && frag != "" {
		cands = append(cands, "#"+frag, "#"+frag, "#"+frag)
	}
	if b == t && frag == "" {
		cands = append(cands, "#", "#")
	}
	bu, e1 := url.Parse(strings.ReplaceAll(b, osMarker, "/OSDIR"))
	tu, e2 := url.Parse(strings.ReplaceAll(t, osMarker, "/OSDIR"))
	if e1 == nil && e2 == nil && b != "" && bu.Scheme == tu.Scheme && bu.Host == tu.Host {
		q := ""
		if tu.RawQuery != "" {
			q = "?" + tu.RawQuery
		}
		if frag != "" {
			q += "#" + frag
		}
		tp := tu.EscapedPath()
		bp := bu.EscapedPath()
		if !strings.Contains(tp, "OSDIR") {
			cands = append(cands, tp+q)
			if bu.Host != "" {
				cands = append(cands, "//"+tu.Host+tp+q)
			}
		}
		bdir := bp[:strings.LastIndex(bp, "/")+1]
		if bdir != "" && strings.HasPrefix(tp, bdir) && len(tp) > len(bdir) {
			r := tp[len(bdir):]
			cands = append(cands, r+q, "./"+r+q, r+q)
		}
		up := ""
		d := bdir
		for k := 0; k < 3 && len(d) > 1; k++ {
			d = d[:strings.LastIndex(strings.TrimSuffix(d, "/"), "/")+1]
			up += "../"
			if strings.HasPrefix(tp, d) && !strings.Contains(up+tp[len(d):], "OSDIR") && len(tp) > len(d) {
				cands = append(cands, up+tp[len(d):]+q)
			}
		}
	}
	for tries := 0; tries < 6; tries++ {
		c := cands[g.N(len(cands))]
		if strings.Contains(c, ":") && !strings.Contains(c, "://") {
			continue // would be taken for a scheme
		}
		okc := false
		model.Guard(func() {
			okc = model.NormURL(model.Resolve(sub(b), sub(c))) == model.NormURL(sub(target))
		})
		if okc {
			return c
		}
	}
	return target
}

func (g *graph) tag() string { g.tags++; return fmt.Sprintf("T%d", g.tags) }

func (g *graph) leaf() interface{} {
	t := g.tag()
	if g.P(g.cfg.sens) {
		switch g.N(10) {
		case 0, 1, 2:
			return gen.M{"const": t}
		case 3:
			return gen.M{"if": gen.M{"type": "string"}, "then": gen.M{"enum": gen.A{t}}}
		case 4:
			return gen.M{"contains": gen.M{"enum": gen.A{t}}}
		case 5:
			return gen.M{"propertyNames": gen.M{"enum": gen.A{t}}}
		case 6:
			if g.P(40) {
				return gen.M{"minimum": gen.Int(5), "exclusiveMinimum": true}
			}
			return gen.M{"if": gen.M{"enum": gen.A{t}}, "else": gen.M{"type": "array"}}
		case 7:
			if g.P(40) {
				return gen.M{"exclusiveMaximum": gen.Int(7)}
			}
			return gen.M{"const": t, "type": "string"}
		case 8:
			if g.P(40) {
				return g.P(50)
			}
			return gen.M{"allOf": gen.A{gen.M{"const": t}}}
		default:
			return gen.M{"anyOf": gen.A{gen.M{"contains": gen.M{"const": t}, "type": "array"}, gen.M{"const": t}}}
		}
	}
	if g.P(g.cfg.rich) {
		gg := &gen.G{R: g.R, D: g.cur.eff, Formats: g.cfg.formats, Lean: true}
		if m, ok := gg.Schema(1).(gen.M); ok {
			return m
		}
	}
	if g.P(80) || g.cur.eff == model.D4 {
		return gen.M{"enum": gen.A{t}}
	}
	return gen.M{"const": t}
}

// oddDrafts are identifiers that resemble those of the drafts.
var oddDrafts = []string{"http://json-schema.org/draft-07/schema2#", "http://json-schema.org/draft-04/schema/x", "http://example.test/draft-07/schema#",
	"http://json-schema.org/draft-05/schema#", "http://json-schema.org/schema#", "http://json-schema.org/draft-06/hyper-schema#", "http://json-schema.org/draft-04/schema?x=1",
	"http://json-schema.org/draft-04/schema.json", "http://json-schema.org/draft-4/schema#", "http://json-schema.org/DRAFT-04/schema#",
	"https://json-schema.org/draft-04/schema#", "https://json-schema.org/draft-06/schema#", "https://json-schema.org/draft-07/schema", "http://www.json-schema.org/draft-04/schema#"}

var metaTargets = []string{"-04/schema#", "-04/schema", "-04/schema#/definitions/positiveInteger", "-04/schema#/definitions/stringArray", "-04/schema#/properties/type",
	"-06/schema#", "-06/schema#/definitions/nonNegativeInteger", "-06/schema#/definitions/simpleTypes", "-06/schema#/properties/items/anyOf/1",
	"-07/schema#", "-07/schema", "-07/schema#/definitions/nonNegativeIntegerDefault0", "-07/schema#/definitions/simpleTypes", "-07/schema#/properties/enum", "-07/schema#/properties/required"}

func (g *graph) ref(base string, order int, inplace bool) interface{} {
	if g.cfg.meta > 0 && g.P(g.cfg.meta) {
		return gen.M{"$ref": "http://json-schema.org/draft" + g.S(metaTargets...)}
	}
	for tries := 0; tries < 10; tries++ {
		t := g.targets[g.N(len(g.targets))]
		if inplace && t.order <= order && !g.P(4+g.cfg.loops) {
			continue
		}
		d := g.docs[t.doc]
		u, _ := model.SplitFrag(t.uri)
		// identifiers of documents that may not be loaded yet are unreachable
		if t.doc != g.cur.idx && u != d.url && d.reg == "" && !(g.cfg.wild && g.P(50)) {
			continue
		}
		if t.doc != g.cur.idx && u == d.url && d.reg == "regs" {
			continue
		}
		if t.doc == g.cur.idx && d.url == "" && u == "" && base != "" {
			continue
		}
		r := gen.M{"$ref": g.rel(base, t.uri)}
		if g.P(8) {
			r[g.S("type", "title", "const")] = "null"
		}
		return r
	}
	return g.leaf()
}

var gpropNames = []string{"t", "u", "v", "w", "t", "u", "v", "w", "enum", "$ref", "id", "const", "definitions", "$id", "properties", "dependencies", "items", "$schema", "not", "default"}

// node makes a schema; inplace: it applies to the same value as its parent.
func (g *graph) node(base string, order, depth int, inplace bool) interface{} {
	if depth <= 0 {
		if g.P(65) {
			return g.ref(base, order, inplace)
		}
		return g.leaf()
	}
	kid := func(ip bool) interface{} { return g.node(base, order, depth-1, ip) }
	switch g.N(16) {
	case 0, 1, 2, 3:
		return g.ref(base, order, inplace)
	case 4:
		return g.leaf()
	case 5, 6, 7:
		p := gen.M{}
		for i := 1 + g.N(2); i >= 0; i-- {
			p[g.S(gpropNames...)] = kid(false)
		}
		m := gen.M{"properties": p}
		if g.P(30) {
			m["type"] = "object"
		}
		return m
	case 8:
		return gen.M{"items": kid(false)}
	case 9:
		return gen.M{"items": gen.A{kid(false), kid(false)}, "additionalItems": kid(false)}
	case 10:
		return gen.M{g.S("allOf", "anyOf", "oneOf"): gen.A{kid(true), kid(true)}}
	case 11:
		return gen.M{"additionalProperties": kid(false), "properties": gen.M{"t": kid(false)}}
	case 12:
		return gen.M{"patternProperties": gen.M{"^[tu]": kid(false), g.S("v$", "v$", "enum", "$ref", "const", "definitions", "properties", "$id", "id"): kid(false)}}
	case 13:
		return gen.M{"dependencies": gen.M{g.S("t", "t", "const", "enum", "$ref", "definitions", "id"): kid(true), "u": gen.A{"v"}, g.S("w", "$id", "properties"): kid(true)}, "properties": gen.M{"t": kid(false)}}
	case 14:
		return gen.M{"not": kid(true)}
	}
	if g.cur.eff == model.D4 {
		return g.ref(base, order, inplace)
	}
	if g.cur.eff == model.D6 || g.P(50) {
		return gen.M{g.S("contains", "propertyNames"): kid(false)}
	}
	return gen.M{"if": kid(true), "then": kid(true), "else": kid(true)}
}

func (g *graph) idKey() string {
	switch g.cur.eff {
	case model.D4:
		return "id"
	case model.Hybrid:
		return g.S("$id", "$id", "id")
	}
	return "$id"
}

var gdefNames = []string{"d0", "d1", "d2", "x/y", "p~q", "a b", "100%", "ü", "properties", "const", "enum", "dependencies", "items", "$ref"}

// build lays out the documents and writes their texts.
func (g *graph) build() {
	g.twin = g.P(15)
	order := 0
	for i := 0; i < g.cfg.ndocs; i++ {
		d := &gdoc{idx: i}
		g.docs = append(g.docs, d)
		if i == 0 && g.P(g.cfg.anon) {
			d.url = "" // anonymous root
		} else {
			d.store = g.cfg.stores[g.N(len(g.cfg.stores))]
			st := d.store
			if i > 0 && g.P(g.cfg.regPct) {
				d.reg = "reg"
				d.store = ""
				if g.P(30) || g.cfg.multi && g.P(50) {
					d.reg = "regs"
				}
			}
			d.url = g.urlFor(i, st)
		}
		if g.P(g.cfg.declare) {
			d.draft = []int{4, 6, 7}[g.N(3)]
		}
		d.eff = model.Draft(g.loader.Draft)
		if g.loader.Auto && d.draft != 0 {
			d.eff = model.Draft(d.draft)
		}
		base := d.url
		if d.reg == "regs" || g.P(g.cfg.idPct) {
			d.id = g.S(httpBases...) + fmt.Sprintf("id%d", i) + g.S("", ".json")
			if g.twin {
				if u := g.S(twinBases...) + g.S("same.json", "id", "same.json?v=3"); g.fresh(u) {
					d.id = u
				}
			}
			d.idRel = d.id
			if d.reg != "regs" && strings.HasPrefix(base, "http") && g.P(40) {
				d.idRel = fmt.Sprintf("rel%d", i) + g.S("", "/", ".json")
				d.id = model.Resolve(base, d.idRel)
			}
			base = d.id
		}
		bases := []string{base}
		if d.id != "" && d.url != "" && d.reg != "regs" {
			bases = append(bases, d.url)
		}
		if d.reg == "regs" {
			bases = []string{d.id}
		}
		for _, b := range bases {
			g.targets = append(g.targets, gtarget{b, i, order})
		}
		used := map[string]bool{}
		for k := 1 + g.N(3); k > 0; k-- {
			name := gdefNames[g.N(len(gdefNames))]
			if g.P(50) {
				name = gdefNames[g.N(3)]
			}
			if used[name] {
				continue
			}
			used[name] = true
			order++
			df := gdef{name: name, kind: "plain"}
			if !g.cfg.noNested {
				switch g.N(8) {
				case 0:
					if base != "" {
						df.kind = "anchor"
						df.anchor = fmt.Sprintf("anc%d_%d", i, k)
						if g.twin {
							df.anchor = fmt.Sprintf("anc_%d", k)
						}
						u, _ := model.SplitFrag(base)
						df.abs = append(df.abs, u+"#"+df.anchor)
					}
				case 1, 2:
					if strings.HasPrefix(base, "http") {
						df.kind = "nested"
						rel := fmt.Sprintf("nest%d_%d%s", i, k, g.S("/", ".json", "/deep/x"))
						if g.P(20) {
							rel = g.S(httpBases...) + rel
						}
						if g.twin {
							if s := g.S("nest", "nest/", "in/same.json"); g.fresh(model.Resolve(base, s)) {
								rel = s
							}
						}
						df.anchor = rel
						df.nested = model.Resolve(base, rel)
						df.abs = append(df.abs, df.nested)
						df.inner = append(df.inner, df.nested+"#/definitions/in")
					}
				}
			}
			for _, b := range bases {
				u, _ := model.SplitFrag(b)
				df.abs = append(df.abs, u+"#/definitions/"+gen.Frag(name))
			}
			for _, a := range append(append([]string{}, df.abs...), df.inner...) {
				g.targets = append(g.targets, gtarget{a, i, order})
			}
			d.defs = append(d.defs, df)
		}
		order++
	}
	if (!g.loader.Auto || g.cfg.declare == 0) && g.P(g.cfg.repeat) {
		var ids []string
		for _, d := range g.docs {
			// of a registered document: that of a fetched one goes to the
			// document that is fetched first, which is not specified
			if d.id != "" && d.reg != "" {
				ids = append(ids, d.id)
			}
			if d.reg == "reg" {
				ids = append(ids, d.url)
			}
		}
		if len(ids) > 0 {
			d := &gdoc{idx: len(g.docs), store: "http", eff: model.Draft(g.loader.Draft), same: ids[g.N(len(ids))]}
			d.url = g.urlFor(d.idx, "http")
			order++
			for k := 0; k < 4; k++ {
				g.targets = append(g.targets, gtarget{d.url, d.idx, order})
			}
			order++
			g.docs = append(g.docs, d)
		}
	}
	if g.P(g.cfg.missing) {
		g.targets = append(g.targets, gtarget{"http://a.test/missing.json", 0, 1 << 20})
	}
	order = 0
	for _, d := range g.docs {
		g.cur = d
		base := d.url
		if d.id != "" {
			base = d.id
		}
		if d.same != "" { // a document that claims an identifier which is taken
			d.root = gen.M{g.idKey(): d.same, "enum": gen.A{g.tag()}}
			order += 2
			continue
		}
		root := gen.M{}
		props := gen.M{"t": g.leaf()}
		for k := 1 + g.N(3); k > 0; k-- {
			props[g.S("u", "v", "w", "x")] = g.node(base, order, 1, false)
		}
		root["properties"] = props
		if d.draft != 0 {
			root["$schema"] = model.SchemaURL(model.Draft(d.draft)) + g.S("#", "#", "")
		} else if g.P(g.cfg.odd) {
			root["$schema"] = g.S(oddDrafts...)
		}
		if d.id != "" {
			root[g.idKey()] = d.idRel
		}
		defs := gen.M{}
		for _, df := range d.defs {
			order++
			var n interface{}
			switch df.kind {
			case "plain":
				n = g.node(base, order, 2, true)
			case "anchor":
				m := g.objNode(base, order)
				m[g.idKey()] = "#" + df.anchor
				n = m
			case "nested":
				m := g.objNode(df.nested, order)
				m[g.idKey()] = df.anchor
				m["definitions"] = gen.M{"in": g.node(df.nested, order, 1, true)}
				n = m
			}
			defs[df.name] = n
		}
		order++
		if len(defs) > 0 {
			root["definitions"] = defs
		}
		if g.P(15) && d.eff != model.D4 {
			root["additionalProperties"] = false
		}
		d.root = root
	}
	if g.P(g.cfg.deep) {
		g.repoint()
	}
	for _, d := range g.docs {
		d.text = gen.Text(d.root)
	}
}

// gplace is a subschema: its pointer in the document and the base inside.
type gplace struct {
	doc  int
	node gen.M
	ptr  string
	base string
	in   bool // inside a nested identifier
}

func (g *graph) places(doc int, n interface{}, ptr, base string, in bool, out *[]gplace) {
	m, ok := n.(gen.M)
	if !ok {
		if _, ok := n.(bool); ok && g.docs[doc].eff != model.D4 {
			*out = append(*out, gplace{doc, nil, ptr, base, in})
		}
		return
	}
	if ptr != "" {
		for _, k := range []string{"$id", "id"} {
			if id, ok := m[k].(string); ok && !strings.HasPrefix(id, "#") && m["$ref"] == nil {
				base, in = model.Resolve(base, id), true
			}
		}
	}
	*out = append(*out, gplace{doc, m, ptr, base, in})
	if m["$ref"] != nil {
		return
	}
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		at := ptr + "/" + gen.Frag(k)
		switch k {
		case "properties", "patternProperties", "definitions", "dependencies":
			mm, ok := m[k].(gen.M)
			if !ok {
				continue
			}
			names := make([]string, 0, len(mm))
			for n := range mm {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				g.places(doc, mm[n], at+"/"+gen.Frag(n), base, in, out)
			}
		case "items", "allOf", "anyOf", "oneOf":
			if a, ok := m[k].(gen.A); ok {
				for i := range a {
					g.places(doc, a[i], fmt.Sprintf("%s/%d", at, i), base, in, out)
				}
				continue
			}
			g.places(doc, m[k], at, base, in, out)
		case "additionalItems", "additionalProperties", "not", "contains", "propertyNames", "if", "then", "else":
			g.places(doc, m[k], at, base, in, out)
		}
	}
}

// repoint makes some references point at any place of a document.
func (g *graph) repoint() {
	var all, refs []gplace
	for i, d := range g.docs {
		base := d.url
		if d.id != "" {
			base = d.id
		}
		g.places(i, d.root, "", base, false, &all)
	}
	for _, p := range all {
		if p.node != nil && p.node["$ref"] != nil {
			refs = append(refs, p)
		}
	}
	if len(refs) == 0 {
		return
	}
	for k := 1 + g.N(3); k > 0; k-- {
		from, to := refs[g.N(len(refs))], all[g.N(len(all))]
		if to.in || to.node != nil && to.node["$ref"] != nil && g.P(70) {
			continue
		}
		d := g.docs[to.doc]
		var us []string
		if d.url != "" && d.reg != "regs" {
			us = append(us, d.url)
		}
		if d.id != "" && (from.doc == to.doc || d.reg != "") {
			us = append(us, d.id)
		}
		if d.url == "" && d.id == "" && from.doc == to.doc && !from.in {
			us = append(us, "")
		}
		if len(us) == 0 {
			continue
		}
		u, _ := model.SplitFrag(us[g.N(len(us))])
		from.node["$ref"] = g.rel(from.base, u+"#"+to.ptr)
	}
}

func (g *graph) objNode(base string, order int) gen.M {
	for k := 0; k < 8; k++ {
		if m, ok := g.node(base, order, 1, true).(gen.M); ok && m["$ref"] == nil {
			return m
		}
	}
	return gen.M{"properties": gen.M{"t": g.node(base, order, 0, false)}}
}

// install adds the documents to the plan and returns the operation that
// compiles document k on loader l into slot s, with fs for file documents.
func (g *graph) install(p *plan.Plan, l int, fs int) {
	for _, d := range g.docs {
		p.Docs = append(p.Docs, d.text)
		if d.store != "" {
			st := d.store
			if st == "fs" {
				st = fmt.Sprintf("fs%d", fs)
			}
			p.Res = append(p.Res, plan.Res{URL: d.url, Store: st, Body: d.text})
		}
	}
}

func (g *graph) regOps(l int) []plan.Op {
	var ops []plan.Op
	for i, d := range g.docs {
		via := g.S("str", "bytes", "raw", "go", "str")
		switch d.reg {
		case "reg":
			u := d.url
			if g.P(10) {
				u += "#"
			}
			ops = append(ops, plan.Op{K: "reg", L: l, URL: u, D: i, Via: via})
		case "regs":
			ops = append(ops, plan.Op{K: "regs", L: l, Ds: []int{i}, Via: via})
		}
	}
	if g.cfg.multi {
		ops = g.together(ops)
	}
	for i := len(ops) - 1; i > 0; i-- {
		j := g.N(i + 1)
		ops[i], ops[j] = ops[j], ops[i]
	}
	return ops
}

// together makes one AddSchemas call of several.
func (g *graph) together(ops []plan.Op) []plan.Op {
	var rest []plan.Op
	var all plan.Op
	for _, op := range ops {
		if op.K == "regs" && g.P(75) {
			d := op.Ds[0]
			all.K, all.L = "regs", op.L
			op.D = d
			op.Ds = nil
			all.Sub = append(all.Sub, op)
			all.Ds = append(all.Ds, d)
			continue
		}
		rest = append(rest, op)
	}
	if len(all.Sub) > 0 {
		rest = append(rest, all)
	}
	return rest
}

func (g *graph) compileOp(l, doc, slot, fs int) plan.Op {
	d := g.docs[doc]
	if d.url == "" {
		return plan.Op{K: "compile", L: l, D: doc, S: slot, Via: g.S("str", "bytes", "raw", "go")}
	}
	u := d.url
	if d.reg == "regs" {
		u = d.id
	}
	via := "ref"
	if d.store == "fs" || (d.store != "os" && g.P(30) && g.hasStore("fs")) {
		via = "reffs"
	}
	if len(d.defs) > 0 && g.P(12) { // a part of the document as the root
		df := d.defs[g.N(len(d.defs))]
		var c []string
		for _, a := range df.abs {
			if b, f := model.SplitFrag(a); b == model.NormURL(u) && f != "" {
				c = append(c, a)
			}
		}
		if len(c) > 0 {
			u = c[g.N(len(c))]
		}
	}
	return plan.Op{K: "compile", L: l, URL: u, S: slot, Via: via, N: fs}
}

func (g *graph) hasStore(s string) bool {
	for _, d := range g.docs {
		if d.store == s {
			return true
		}
	}
	return false
}
