// Package model is a small executable reference model of JSON Schema
// validation (draft-04, draft-06, draft-07 and the hybrid of all three) and of
// a schema loader with URI registration, written from the specifications and
// the README, independently of the library. It interprets schemas directly.
package model

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Draft identifies the rules in force. Hybrid merges all drafts.
type Draft int

const (
	Unset  Draft = -1
	Hybrid Draft = 0
	D4     Draft = 4
	D6     Draft = 6
	D7     Draft = 7
)

func (d Draft) atLeast(o Draft) bool { return d == Hybrid || d >= o }

// Outside is the panic value for inputs on which the model has no opinion.
type Outside struct{ Why string }

func (o Outside) Error() string { return "outside the model's domain: " + o.Why }

func outside(f string, a ...interface{}) { panic(Outside{fmt.Sprintf(f, a...)}) }

// Decode parses JSON keeping numbers as text.
func Decode(s string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	return v, nil
}

// MustDecode is Decode for text known to be JSON.
func MustDecode(s string) interface{} {
	v, err := Decode(s)
	if err != nil {
		panic(err)
	}
	return v
}

// Builtin are the meta-schema URLs of the supported drafts.
var Builtin = map[string]Draft{
	"http://json-schema.org/draft-04/schema": D4,
	"http://json-schema.org/draft-06/schema": D6,
	"http://json-schema.org/draft-07/schema": D7,
}

// SchemaURL is the inverse of Builtin.
func SchemaURL(d Draft) string {
	for u, x := range Builtin {
		if x == d {
			return u
		}
	}
	return ""
}

type nodeInfo struct {
	base string
}

type entry struct {
	node  interface{}
	draft Draft // declared draft, or Unset
}

// Loader models a SchemaLoader.
type Loader struct {
	Auto  bool
	Draft Draft
	Reg   map[string]*entry
	info  map[uintptr]nodeInfo
	Files map[string]interface{} // what can be fetched: URL without fragment -> document
	Meta  func(string) interface{}
	// Formats decides custom formats; missing names accept everything.
	Formats map[string]func(interface{}) bool
	// Fetched records URLs obtained from Files, in order.
	Fetched []string
	// Ambiguous is set when identifiers are declared twice.
	Ambiguous bool
	own       map[*entry]bool // registered by the document being added
	steps     int
}

// NewLoader returns an empty loader.
func NewLoader(auto bool, d Draft) *Loader {
	return &Loader{Auto: auto, Draft: d, Reg: map[string]*entry{}, info: map[uintptr]nodeInfo{}, Files: map[string]interface{}{}}
}

// Clone copies the loader's state (documents are shared, they never change).
func (l *Loader) Clone() *Loader {
	c := *l
	c.Reg = map[string]*entry{}
	for k, v := range l.Reg {
		c.Reg[k] = v
	}
	c.info = map[uintptr]nodeInfo{}
	for k, v := range l.info {
		c.info[k] = v
	}
	c.Fetched = append([]string(nil), l.Fetched...)
	return &c
}

// Root returns the compiled node.
func (s *Schema) Root() interface{} { return s.root }

// Draft returns the draft of the root.
func (s *Schema) Draft() Draft { return s.draft }

// Deref returns what node's $ref denotes, or nil.
func (s *Schema) Deref(node map[string]interface{}) (out interface{}) {
	guard(func() {
		if r, ok := node["$ref"].(string); ok {
			out = s.l.lookup(s.l.absRef(node, r)).node
		}
	})
	return
}

// Guard runs f and reports whether the model has an opinion.
func Guard(f func()) (Status, string) { return guard(f) }

// Reject fails a model operation.
func Reject(f string, a ...interface{}) { fail(f, a...) }

// Leave leaves the model's domain.
func Leave(f string, a ...interface{}) { outside(f, a...) }

// MetaSchema returns the compiled meta-schema a document must conform to, or
// nil if there is none.
func (l *Loader) MetaSchema(doc interface{}) *Schema {
	u := ""
	if l.Auto {
		_, u = l.Declared(doc)
	}
	if u == "" {
		if l.Draft == Hybrid {
			return nil
		}
		u = SchemaURL(l.Draft)
	}
	e := l.lookup(u)
	declared, _ := l.Declared(e.node)
	if declared == Unset && l.Auto {
		declared = e.draft
	}
	return l.compile(e.node, declared)
}

func ptr(v interface{}) uintptr {
	if m, ok := v.(map[string]interface{}); ok {
		return reflect.ValueOf(m).Pointer()
	}
	return 0
}

// NormURL removes an empty fragment.
func NormURL(s string) string { return strings.TrimSuffix(s, "#") }

// SplitFrag separates the fragment.
func SplitFrag(s string) (string, string) {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		return s[:i], s[i+1:]
	}
	return s, ""
}

// Resolve resolves ref against base per RFC 3986.
func Resolve(base, ref string) string {
	b, _ := SplitFrag(base)
	r, rf := SplitFrag(ref)
	res := b
	if r != "" {
		bu, err := url.Parse(b)
		if err != nil {
			outside("bad base %q", base)
		}
		ru, err := url.Parse(r)
		if err != nil {
			outside("bad reference %q", ref)
		}
		if b == "" && !ru.IsAbs() {
			outside("relative reference %q without base", ref)
		}
		res = bu.ResolveReference(ru).String()
	}
	if rf != "" {
		res += "#" + rf
	}
	return res
}

// Declared returns the draft a document declares, or Unset, and the $schema URL.
func (l *Loader) Declared(doc interface{}) (Draft, string) {
	if !l.Auto {
		return Unset, ""
	}
	m, ok := doc.(map[string]interface{})
	if !ok {
		return Unset, ""
	}
	s, ok := m["$schema"]
	if !ok {
		return Unset, ""
	}
	str, ok := s.(string)
	if !ok {
		outside("$schema is not a string")
	}
	str = NormURL(str)
	if d, ok := Builtin[str]; ok {
		return d, str
	}
	return Unset, str
}

func (l *Loader) effective(doc interface{}) Draft {
	if d, _ := l.Declared(doc); d != Unset {
		return d
	}
	return l.Draft
}

// IDOf returns the identifier keyword's value of a schema under draft d.
func IDOf(m map[string]interface{}, d Draft) string {
	if _, ok := m["$id"].(string); ok {
		if o, has := m["id"]; has {
			if _, ok := o.(string); !ok {
				outside("a non-string id beside $id")
			}
		}
	}
	if s, ok := m["$id"].(string); ok && d == D4 && s != "" {
		outside("$id in a draft-04 schema")
	}
	if s, ok := m["id"].(string); ok && d != D4 && d != Hybrid && s != "" {
		outside("id in a draft-06 or draft-07 schema")
	}
	if s, ok := m["$id"].(string); ok && d != D4 {
		if d == Hybrid {
			if o, ok := m["id"].(string); ok {
				return o
			}
		}
		return s
	}
	if s, ok := m["id"].(string); ok && (d == D4 || d == Hybrid) {
		return s
	}
	return ""
}

type kidFn func(key string, sub interface{})

var single = map[string]Draft{"additionalProperties": D4, "additionalItems": D4, "not": D4, "contains": D6, "propertyNames": D6, "if": D7, "then": D7, "else": D7}
var lists = map[string]Draft{"allOf": D4, "anyOf": D4, "oneOf": D4}
var maps = map[string]Draft{"properties": D4, "patternProperties": D4, "definitions": D4}

// kids calls f for every direct sub-schema that exists under draft d; sorted.
func kids(m map[string]interface{}, d Draft, f kidFn) {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := m[k]
		if md, ok := single[k]; ok && d.atLeast(md) {
			f(k, v)
		} else if md, ok := lists[k]; ok && d.atLeast(md) {
			if a, ok := v.([]interface{}); ok {
				for _, x := range a {
					f(k, x)
				}
			}
		} else if md, ok := maps[k]; ok && d.atLeast(md) {
			if mm, ok := v.(map[string]interface{}); ok {
				for _, n := range sortedKeys(mm) {
					f(k, mm[n])
				}
			}
		} else if k == "items" {
			if a, ok := v.([]interface{}); ok {
				for _, x := range a {
					f(k, x)
				}
			} else {
				f(k, v)
			}
		} else if k == "dependencies" {
			if mm, ok := v.(map[string]interface{}); ok {
				for _, n := range sortedKeys(mm) {
					if _, ok := mm[n].([]interface{}); !ok {
						f(k, mm[n])
					}
				}
			}
		}
	}
}

func sortedKeys(m map[string]interface{}) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// walk assigns base URIs and registers identifiers.
func (l *Loader) walk(node interface{}, base string, d, declared Draft, top bool, uri string) {
	m, ok := node.(map[string]interface{})
	if !ok {
		return
	}
	b := base
	if id := IDOf(m, d); id != "" {
		if _, isRef := m["$ref"]; isRef {
			outside("identifier beside $ref")
		}
		abs := NormURL(Resolve(base, id))
		if !(top && abs == uri) {
			if old, dup := l.Reg[abs]; dup {
				// an earlier document keeps its identifier
				if top || l.own[old] || hasRef(node) {
					l.Ambiguous = true
				}
			} else {
				l.Reg[abs] = &entry{node, declared}
				if l.own != nil {
					l.own[l.Reg[abs]] = true
				}
			}
		}
		if u, f := SplitFrag(abs); f == "" || u != "" {
			b = u
		}
	}
	l.info[ptr(m)] = nodeInfo{base: b}
	// Identifiers can sit below keywords of any draft.
	seen := map[uintptr]bool{}
	kids(m, Hybrid, func(k string, sub interface{}) {
		if p := ptr(sub); p != 0 && !seen[p] {
			seen[p] = true
			l.walk(sub, b, d, declared, false, "")
		}
	})
}

// Known tells whether uri is registered.
func (l *Loader) Known(uri string) bool { _, ok := l.Reg[NormURL(uri)]; return ok }

// TopID returns the absolute top-level identifier of doc registered under uri.
func (l *Loader) TopID(uri string, doc interface{}) string {
	if m, ok := doc.(map[string]interface{}); ok {
		if id := IDOf(m, l.effective(doc)); id != "" {
			return NormURL(Resolve(uri, id))
		}
	}
	return ""
}

// Add registers doc under uri ("" = only by its identifier). It returns false
// if the registration must be refused.
func (l *Loader) Add(uri string, doc interface{}) bool {
	uri = NormURL(uri)
	if uri != "" && l.Known(uri) {
		return false
	}
	if id := l.TopID(uri, doc); id != "" && id != uri && l.Known(id) {
		return false
	}
	declared, _ := l.Declared(doc)
	l.own = map[*entry]bool{}
	if uri != "" {
		l.Reg[uri] = &entry{doc, declared}
		l.own[l.Reg[uri]] = true
	}
	l.walk(doc, uri, l.effective(doc), declared, true, uri)
	return true
}

// ids counts the identifiers in v.
func ids(v interface{}) (n int) {
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			n += ids(e)
		}
	case map[string]interface{}:
		for k, e := range x {
			if k == "$id" || k == "id" {
				n++
			}
			n += ids(e)
		}
	}
	return
}

// hasRef tells whether a reference occurs anywhere in v.
func hasRef(v interface{}) bool {
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			if hasRef(e) {
				return true
			}
		}
	case map[string]interface{}:
		if _, ok := x["$ref"]; ok {
			return true
		}
		for _, e := range x {
			if hasRef(e) {
				return true
			}
		}
	}
	return false
}

func pointer(doc interface{}, p string) (interface{}, bool) {
	if p == "" {
		return doc, true
	}
	up, err := url.PathUnescape(p)
	if err != nil {
		return nil, false
	}
	p = up
	if p[0] != '/' {
		return nil, false
	}
	cur := doc
	for _, t := range strings.Split(p[1:], "/") {
		t = strings.ReplaceAll(strings.ReplaceAll(t, "~1", "/"), "~0", "~")
		switch x := cur.(type) {
		case map[string]interface{}:
			v, ok := x[t]
			if !ok {
				return nil, false
			}
			cur = v
		case []interface{}:
			i, err := strconv.Atoi(t)
			if err != nil || i < 0 || i >= len(x) {
				return nil, false
			}
			cur = x[i]
		default:
			return nil, false
		}
	}
	return cur, true
}

type failure struct{ why string }

func fail(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

// lookup finds what an absolute reference denotes, fetching if needed.
func (l *Loader) lookup(abs string) *entry {
	abs = NormURL(abs)
	if e, ok := l.Reg[abs]; ok {
		return e
	}
	u, frag := SplitFrag(abs)
	e, ok := l.Reg[u]
	if !ok {
		var doc interface{}
		if _, b := Builtin[u]; b && l.Meta != nil {
			doc = l.Meta(u)
		} else if f, ok := l.Files[u]; ok {
			doc = f
			l.Fetched = append(l.Fetched, u)
		} else {
			if u != "" {
				l.Fetched = append(l.Fetched, u)
			}
			fail("cannot obtain %s", u)
		}
		if id := l.TopID(u, doc); id != "" && id != u && l.Known(id) {
			// the first registration stays; the document is known by its URL only
			if declared, _ := l.Declared(doc); declared != Unset || hasRef(doc) || ids(doc) > 1 {
				l.Ambiguous = true
				outside("fetched document repeats identifier %s", id)
			}
			l.Reg[u] = &entry{doc, Unset}
		} else {
			l.Add(u, doc)
		}
		e = l.Reg[u]
		if e2, ok := l.Reg[abs]; ok {
			return e2
		}
	}
	n, ok := pointer(e.node, frag)
	if !ok {
		fail("no %s in %s", frag, u)
	}
	return &entry{n, e.draft}
}

// Schema is a compiled schema of the model.
type Schema struct {
	l     *Loader
	root  interface{}
	draft Draft
}

// Status is the outcome of a model operation.
type Status int

const (
	OK Status = iota
	Rejected
	Unknown
)

func (s Status) String() string { return [...]string{"ok", "rejected", "unknown"}[s] }

func guard(f func()) (st Status, why string) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case failure:
			st, why = Rejected, r.why
		case Outside:
			st, why = Unknown, r.Why
		default:
			panic(r)
		}
	}()
	f()
	return OK, ""
}

// CompileDoc compiles an anonymous root document.
func (l *Loader) CompileDoc(doc interface{}) (s *Schema, st Status, why string) {
	st, why = guard(func() {
		if l.Known("") {
			outside("second anonymous root on one loader")
		}
		if id := l.TopID("", doc); id != "" && l.Known(id) {
			fail("duplicate identifier %s", id)
		}
		declared, _ := l.Declared(doc)
		l.Reg[""] = &entry{doc, declared}
		l.own = map[*entry]bool{l.Reg[""]: true}
		l.walk(doc, "", l.effective(doc), declared, true, "")
		s = l.compile(doc, declared)
	})
	return
}

// UseUp makes doc the loader's anonymous root without compiling it.
func (l *Loader) UseUp(doc interface{}) {
	declared, _ := l.Declared(doc)
	l.Reg[""] = &entry{doc, declared}
	l.own = map[*entry]bool{l.Reg[""]: true}
	l.walk(doc, "", l.effective(doc), declared, true, "")
}

// Obtain returns the node uri denotes.
func (l *Loader) Obtain(uri string) interface{} { return l.lookup(uri).node }

// CompileURL compiles the schema at uri.
func (l *Loader) CompileURL(uri string) (s *Schema, st Status, why string) {
	st, why = guard(func() {
		e := l.lookup(uri)
		declared, _ := l.Declared(e.node)
		if declared == Unset && l.Auto {
			declared = e.draft
		}
		s = l.compile(e.node, declared)
	})
	return
}

func (l *Loader) compile(doc interface{}, declared Draft) *Schema {
	d := l.Draft
	if declared != Unset {
		d = declared
	}
	if l.Ambiguous {
		outside("identifiers declared twice")
	}
	s := &Schema{l: l, root: doc, draft: d}
	c := &checker{l: l, seen: map[string]Draft{}, fc: map[fkey]bool{}}
	c.check(doc, d)
	if l.Ambiguous {
		outside("identifiers declared twice")
	}
	return s
}

type fkey struct {
	p uintptr
	d Draft
}

type checker struct {
	l    *Loader
	seen map[string]Draft
	fc   map[fkey]bool
}

func isInt(v interface{}) (int, bool) {
	n, ok := v.(json.Number)
	if !ok {
		return 0, false
	}
	i, err := strconv.Atoi(string(n))
	return i, err == nil
}

func rat(v interface{}) *big.Rat {
	n, ok := v.(json.Number)
	if !ok {
		return nil
	}
	s := string(n)
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		if e, err := strconv.Atoi(s[i+1:]); err != nil || e > 2000 || e < -2000 {
			outside("extreme exponent %s", s)
		}
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		outside("number %s", s)
	}
	return r
}

var jsonTypes = map[string]bool{"array": true, "boolean": true, "integer": true, "number": true, "null": true, "object": true, "string": true}

// check statically walks a schema the way compilation must: every sub-schema
// and every reference target. It rejects malformed keywords.
func (c *checker) check(node interface{}, d Draft) {
	if _, ok := node.(bool); ok {
		if !d.atLeast(D6) {
			fail("boolean schema in draft-04")
		}
		return
	}
	m, ok := node.(map[string]interface{})
	if !ok {
		fail("schema is not an object")
	}
	k := fkey{ptr(m), d}
	if c.fc[k] {
		return
	}
	c.fc[k] = true
	for _, id := range []string{"$id", "id"} {
		if v, ok := m[id]; ok {
			if _, ok := v.(string); !ok {
				outside("identifier is not a string")
			}
		}
	}
	if v, ok := m["definitions"]; ok {
		mm, ok := v.(map[string]interface{})
		if !ok {
			fail("definitions")
		}
		for _, n := range sortedKeys(mm) {
			c.check(mm[n], d)
		}
	}
	for _, t := range []string{"title", "description"} {
		if v, ok := m[t]; ok {
			if _, ok := v.(string); !ok {
				fail("%s is not a string", t)
			}
		}
	}
	if v, ok := m["$ref"]; ok {
		r, ok := v.(string)
		if !ok {
			fail("$ref is not a string")
		}
		abs := c.l.absRef(m, r)
		e := c.l.lookup(abs)
		nd := d
		if e.draft != Unset {
			nd = e.draft
		}
		if od, ok := c.seen[abs]; ok {
			if od != nd {
				outside("one reference from two drafts")
			}
			return
		}
		c.seen[abs] = nd
		switch e.node.(type) {
		case map[string]interface{}, bool:
		default:
			fail("reference to something that is not a schema")
		}
		c.check(e.node, nd)
		return
	}
	c.keywords(m, d)
	kids(m, d, func(key string, sub interface{}) {
		if key == "definitions" {
			return
		}
		if b, ok := sub.(bool); ok && (key == "additionalProperties" || key == "additionalItems") {
			_ = b
			return
		}
		c.check(sub, d)
	})
}

func (l *Loader) absRef(m map[string]interface{}, r string) string {
	in, ok := l.info[ptr(m)]
	if !ok {
		outside("reference from an unregistered position")
	}
	return NormURL(Resolve(in.base, r))
}

func (c *checker) keywords(m map[string]interface{}, d Draft) {
	if v, ok := m["type"]; ok {
		seen := map[string]bool{}
		one := func(t interface{}) {
			s, ok := t.(string)
			if !ok || !jsonTypes[s] || seen[s] {
				fail("type")
			}
			seen[s] = true
		}
		switch t := v.(type) {
		case string:
			one(t)
		case []interface{}:
			if len(t) == 0 {
				outside("empty type array")
			}
			for _, x := range t {
				one(x)
			}
		default:
			fail("type")
		}
	}
	for _, k := range []string{"properties", "dependencies", "patternProperties"} {
		if v, ok := m[k]; ok {
			mm, ok := v.(map[string]interface{})
			if !ok {
				fail("%s", k)
			}
			if k == "patternProperties" {
				for p := range mm {
					if _, err := regexp.Compile(p); err != nil {
						fail("pattern %q", p)
					}
				}
			}
			if k == "dependencies" {
				for _, x := range mm {
					if a, ok := x.([]interface{}); ok {
						for _, s := range a {
							if _, ok := s.(string); !ok {
								fail("dependency")
							}
						}
					}
				}
			}
		}
	}
	if v, ok := m["items"]; ok {
		if a, ok := v.([]interface{}); ok && len(a) == 0 {
			outside("items is an empty array")
		}
	}
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if v, ok := m[k]; ok {
			a, ok := v.([]interface{})
			if !ok {
				fail("%s", k)
			}
			if len(a) == 0 {
				outside("%s is empty", k)
			}
		}
	}
	if v, ok := m["multipleOf"]; ok {
		r := rat(v)
		if r == nil || r.Sign() <= 0 {
			fail("multipleOf")
		}
	}
	for _, p := range [][2]string{{"minimum", "exclusiveMinimum"}, {"maximum", "exclusiveMaximum"}} {
		if v, ok := m[p[0]]; ok && rat(v) == nil {
			fail("%s", p[0])
		}
		if v, ok := m[p[1]]; ok {
			_, isB := v.(bool)
			_, isN := v.(json.Number)
			_, has := m[p[0]]
			switch {
			case isB && (d == D4 || d == Hybrid):
				if !has {
					fail("%s without %s", p[1], p[0])
				}
			case isN && d.atLeast(D6):
			default:
				fail("%s", p[1])
			}
		}
	}
	val := map[string]int{}
	for _, k := range []string{"minLength", "maxLength", "minProperties", "maxProperties", "minItems", "maxItems"} {
		if v, ok := m[k]; ok {
			n, isN := v.(json.Number)
			if !isN {
				fail("%s", k)
			}
			i, ok := isInt(v)
			if !ok {
				outside("%s is %s", k, n)
			}
			if i < 0 {
				fail("%s negative", k)
			}
			val[k] = i
		}
	}
	for _, k := range []string{"Length", "Properties"} {
		lo, a := val["min"+k]
		hi, b := val["max"+k]
		if a && b && lo > hi {
			outside("min%s > max%s", k, k)
		}
	}
	if v, ok := m["pattern"]; ok {
		s, ok := v.(string)
		if !ok {
			fail("pattern")
		}
		if _, err := regexp.Compile(s); err != nil {
			fail("pattern")
		}
	}
	if v, ok := m["format"]; ok {
		if _, ok := v.(string); !ok {
			fail("format")
		}
	}
	if v, ok := m["required"]; ok {
		a, ok := v.([]interface{})
		if !ok {
			fail("required")
		}
		seen := map[string]bool{}
		for _, x := range a {
			s, ok := x.(string)
			if !ok {
				fail("required")
			}
			if seen[s] {
				fail("required repeated")
			}
			seen[s] = true
		}
	}
	if v, ok := m["uniqueItems"]; ok {
		if _, ok := v.(bool); !ok {
			fail("uniqueItems")
		}
	}
	if v, ok := m["enum"]; ok {
		a, ok := v.([]interface{})
		if !ok {
			fail("enum")
		}
		if len(a) == 0 {
			outside("empty enum")
		}
		for i := range a {
			for j := 0; j < i; j++ {
				if Equal(a[i], a[j]) {
					fail("enum repeated")
				}
			}
		}
	}
}

// Equal is JSON equality.
func Equal(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return false
		}
		exact(x)
		exact(y)
		return rat(x).Cmp(rat(y)) == 0
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !Equal(v, w) {
				return false
			}
		}
		return true
	}
	outside("value of type %T", a)
	return false
}

// exact leaves the domain for numbers a float64 cannot tell apart.
func exact(n json.Number) {
	s := string(n)
	digits := 0
	m := s
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		m = s[:i]
	}
	for _, c := range m {
		if c >= '0' && c <= '9' {
			digits++
		}
	}
	if digits > 15 {
		outside("equality of long number %s", s)
	}
	if strings.HasPrefix(s, "-") && rat(n).Sign() == 0 {
		outside("negative zero")
	}
	if f, err := strconv.ParseFloat(s, 64); err != nil || (f == 0 && rat(n).Sign() != 0) {
		outside("number beyond float64 %s", s)
	}
}

// Valid tells whether inst satisfies the schema.
func (s *Schema) Valid(inst interface{}) (ok bool, st Status, why string) {
	st, why = guard(func() {
		e := &eval{l: s.l}
		ok = e.valid(s.root, s.draft, inst, nil)
	})
	return
}

type frame struct {
	p  uintptr
	d  Draft
	up *frame
}

type eval struct {
	l     *Loader
	steps int
}

func typeOf(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case json.Number:
		if rat(x).IsInt() {
			return "integer"
		}
		return "number"
	case []interface{}:
		return "array"
	case map[string]interface{}:
		return "object"
	}
	outside("value of type %T", v)
	return ""
}

// valid evaluates node on v; fr lists the schemas already being applied to the
// same value.
func (e *eval) valid(node interface{}, d Draft, v interface{}, fr *frame) bool {
	e.steps++
	if e.steps > 200000 {
		outside("too large")
	}
	if b, ok := node.(bool); ok {
		return b
	}
	m := node.(map[string]interface{})
	p := ptr(m)
	for f := fr; f != nil; f = f.up {
		if f.p == p && f.d == d {
			outside("schema applies itself to the same value")
		}
	}
	in := &frame{p, d, fr}
	if r, ok := m["$ref"].(string); ok {
		t := e.l.lookup(e.l.absRef(m, r))
		nd := d
		if t.draft != Unset {
			nd = t.draft
		}
		return e.valid(t.node, nd, v, in)
	}
	same := func(sub interface{}) bool { return e.valid(sub, d, v, in) }
	below := func(sub, val interface{}) bool { return e.valid(sub, d, val, nil) }
	ok := true
	t := typeOf(v)
	if ts, has := m["type"]; has {
		match := func(x interface{}) bool { return x == t || (x == "number" && t == "integer") }
		hit := false
		if a, isA := ts.([]interface{}); isA {
			for _, x := range a {
				hit = hit || match(x)
			}
		} else {
			hit = match(ts)
		}
		ok = ok && hit
	}
	if c, has := m["const"]; has && d.atLeast(D6) {
		ok = Equal(c, v) && ok
	}
	if a, has := m["enum"].([]interface{}); has {
		hit := false
		for _, x := range a {
			if Equal(x, v) {
				hit = true
			}
		}
		ok = ok && hit
	}
	if f, has := m["format"].(string); has {
		if c := e.l.Formats[f]; c != nil {
			ok = c(v) && ok
		} else if known[f] {
			ok = format(f, v) && ok
		}
	}
	if a, has := m["allOf"].([]interface{}); has {
		for _, s := range a {
			ok = same(s) && ok
		}
	}
	if a, has := m["anyOf"].([]interface{}); has {
		n := 0
		for _, s := range a {
			if same(s) {
				n++
			}
		}
		ok = ok && n > 0
	}
	if a, has := m["oneOf"].([]interface{}); has {
		n := 0
		for _, s := range a {
			if same(s) {
				n++
			}
		}
		ok = ok && n == 1
	}
	if s, has := m["not"]; has {
		ok = !same(s) && ok
	}
	if s, has := m["if"]; has && d.atLeast(D7) {
		if same(s) {
			if th, has := m["then"]; has {
				ok = same(th) && ok
			}
		} else if el, has := m["else"]; has {
			ok = same(el) && ok
		}
	}
	switch x := v.(type) {
	case json.Number:
		ok = e.number(m, d, x) && ok
	case string:
		n := utf8.RuneCountInString(x)
		if i, has := isInt(m["minLength"]); has {
			ok = ok && n >= i
		}
		if i, has := isInt(m["maxLength"]); has {
			ok = ok && n <= i
		}
		if p, has := m["pattern"].(string); has {
			ok = ok && regexp.MustCompile(p).MatchString(x)
		}
	case []interface{}:
		if i, has := isInt(m["minItems"]); has {
			ok = ok && len(x) >= i
		}
		if i, has := isInt(m["maxItems"]); has {
			ok = ok && len(x) <= i
		}
		if u, _ := m["uniqueItems"].(bool); u {
			for i := range x {
				for j := 0; j < i; j++ {
					if Equal(x[i], x[j]) {
						ok = false
					}
				}
			}
		}
		if its, has := m["items"]; has {
			if tuple, isT := its.([]interface{}); isT {
				for i := range x {
					if i < len(tuple) {
						ok = below(tuple[i], x[i]) && ok
					} else if ai, has := m["additionalItems"]; has {
						ok = below(ai, x[i]) && ok
					}
				}
			} else {
				for i := range x {
					ok = below(its, x[i]) && ok
				}
			}
		}
		if c, has := m["contains"]; has && d.atLeast(D6) {
			hit := false
			for i := range x {
				if below(c, x[i]) {
					hit = true
				}
			}
			ok = ok && hit
		}
	case map[string]interface{}:
		if i, has := isInt(m["minProperties"]); has {
			ok = ok && len(x) >= i
		}
		if i, has := isInt(m["maxProperties"]); has {
			ok = ok && len(x) <= i
		}
		if r, has := m["required"].([]interface{}); has {
			for _, k := range r {
				if _, has := x[k.(string)]; !has {
					ok = false
				}
			}
		}
		props, _ := m["properties"].(map[string]interface{})
		pats, _ := m["patternProperties"].(map[string]interface{})
		ap, hasAP := m["additionalProperties"]
		for k, val := range x {
			matched := false
			if s, has := props[k]; has {
				matched = true
				ok = below(s, val) && ok
			}
			for p, s := range pats {
				if regexp.MustCompile(p).MatchString(k) {
					matched = true
					ok = below(s, val) && ok
				}
			}
			if !matched && hasAP {
				ok = below(ap, val) && ok
			}
			if pn, has := m["propertyNames"]; has && d.atLeast(D6) {
				ok = below(pn, k) && ok
			}
		}
		if deps, has := m["dependencies"].(map[string]interface{}); has {
			for k, dep := range deps {
				if _, has := x[k]; !has {
					continue
				}
				if a, isA := dep.([]interface{}); isA {
					for _, n := range a {
						if _, has := x[n.(string)]; !has {
							ok = false
						}
					}
				} else {
					ok = same(dep) && ok
				}
			}
		}
	}
	return ok
}

func (e *eval) number(m map[string]interface{}, d Draft, n json.Number) bool {
	r := rat(n)
	ok := true
	if x, has := m["multipleOf"]; has {
		ok = new(big.Rat).Quo(r, rat(x)).IsInt() && ok
	}
	if x, has := m["minimum"]; has {
		c := r.Cmp(rat(x))
		if ex, _ := m["exclusiveMinimum"].(bool); ex {
			ok = c > 0 && ok
		} else {
			ok = c >= 0 && ok
		}
	}
	if x, has := m["exclusiveMinimum"].(json.Number); has {
		ok = r.Cmp(rat(x)) > 0 && ok
	}
	if x, has := m["maximum"]; has {
		c := r.Cmp(rat(x))
		if ex, _ := m["exclusiveMaximum"].(bool); ex {
			ok = c < 0 && ok
		} else {
			ok = c <= 0 && ok
		}
	}
	if x, has := m["exclusiveMaximum"].(json.Number); has {
		ok = r.Cmp(rat(x)) < 0 && ok
	}
	return ok
}

// Samples are undisputed members and non-members of the built-in formats.
var Samples = map[string][2][]string{
	"date":                  {{"2018-06-20", "1999-12-31"}, {"06/19/1963", "2018-13-01", "nope"}},
	"time":                  {{"12:00:00Z", "08:30:06Z"}, {"noon", "25:00:00Z"}},
	"date-time":             {{"1963-06-19T08:30:06Z", "2018-01-01T00:00:00+02:00"}, {"1963-06-19 noon", "hello", "2018-13-01T00:00:00Z"}},
	"hostname":              {{"www.example.com", "a"}, {"-bad-", "under_score.example", "a..b"}},
	"email":                 {{"joe@example.com"}, {"joe", "@", "joe@"}},
	"idn-email":             {{"joe@example.com"}, {"joe"}},
	"ipv4":                  {{"192.168.0.1", "8.8.8.8"}, {"256.256.256.256", "127.0.0", "::1", "x"}},
	"ipv6":                  {{"::1", "fe80::a"}, {"12345::", "1.2.3.4", "x"}},
	"uri":                   {{"http://foo.bar/baz?q=1#f", "ftp://x/y"}, {"\\\\WINDOWS\\fileshare", "abc", "/relative"}},
	"uri-reference":         {{"http://a/b", "/abc", "abc", "#frag"}, {"\\\\WINDOWS\\fileshare"}},
	"iri":                   {{"http://foo.bar/"}, {"\\\\WINDOWS", "abc"}},
	"iri-reference":         {{"/abc", "abc"}, {"\\\\WINDOWS"}},
	"uri-template":          {{"http://example.com/{a}/b"}, {"http://example.com/{a"}},
	"uuid":                  {{"123e4567-e89b-12d3-a456-426614174000"}, {"123e4567-e89b-12d3-a456-42661417400", "x"}},
	"regex":                 {{"^a+$", "[a-z]"}, {"^(abc]", "a("}},
	"json-pointer":          {{"", "/a/b~0~1", "/"}, {"a/b", "/a~", "#/a"}},
	"relative-json-pointer": {{"0", "1/a", "2#"}, {"/a", "-1", "01"}},
}

var plainURI = regexp.MustCompile(`^([a-z]+://[A-Za-z0-9./~_-]*(:[0-9]+)?)?[A-Za-z0-9./~_%-]*([?][a-z0-9=]*)?(#[A-Za-z0-9./~_%$-]*)?$`)

var known = map[string]bool{}

func init() {
	for k := range Samples {
		known[k] = true
	}
}

func format(f string, v interface{}) bool {
	s, ok := v.(string)
	if !ok {
		return true
	}
	for _, x := range Samples[f][0] {
		if x == s {
			return true
		}
	}
	for _, x := range Samples[f][1] {
		if x == s {
			return false
		}
	}
	switch f {
	case "regex":
		_, err := regexp.Compile(s)
		return err == nil
	case "uri", "uri-reference":
		if plainURI.MatchString(s) {
			u, err := url.Parse(s)
			if err == nil && (f == "uri-reference" || u.Scheme != "" && u.Host != "") {
				return true
			}
			if err == nil && u.Scheme == "" {
				return false
			}
		}
	}
	outside("format %s on %q", f, s)
	return false
}
