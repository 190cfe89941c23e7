// Package gen generates schemas and instances from a seed.
package gen

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"verifsim/model"
)

// R is a splitmix64 generator.
type R struct{ s uint64 }

// New seeds a generator.
func New(seed uint64) *R { r := &R{seed}; r.U(); return r }

// U returns 64 bits.
func (r *R) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// N returns a number in [0,n).
func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// P is true in pct of 100 cases.
func (r *R) P(pct int) bool { return r.N(100) < pct }

// S picks a string.
func (r *R) S(s ...string) string { return s[r.N(len(s))] }

// Fork derives an independent generator.
func (r *R) Fork() *R { return New(r.U()) }

// M is a JSON object.
type M = map[string]interface{}

// A is a JSON array.
type A = []interface{}

// Num makes a JSON number.
func Num(s string) json.Number { return json.Number(s) }

// Int makes a JSON integer.
func Int(i int) json.Number { return json.Number(strconv.Itoa(i)) }

// Text encodes v; keys sorted.
func Text(v interface{}) string {
	var sb strings.Builder
	e := json.NewEncoder(&sb)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return strings.TrimSuffix(sb.String(), "\n")
}

// Copy deep-copies a decoded JSON value.
func Copy(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		m := M{}
		for k, e := range x {
			m[k] = Copy(e)
		}
		return m
	case A:
		a := make(A, len(x))
		for i := range x {
			a[i] = Copy(x[i])
		}
		return a
	}
	return v
}

// Respell writes the numbers in v differently, without changing their values.
func (r *R) Respell(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		m := M{}
		for _, k := range Keys(x) {
			m[k] = r.Respell(x[k])
		}
		return m
	case A:
		a := make(A, len(x))
		for i := range x {
			a[i] = r.Respell(x[i])
		}
		return a
	case json.Number:
		q, ok := new(big.Rat).SetString(string(x))
		if !ok || q.Sign() == 0 || len(x) > 9 || r.P(30) {
			return x
		}
		if q.IsInt() {
			s := q.Num().String()
			if strings.HasSuffix(s, "0") && r.P(50) {
				return Num(s[:len(s)-1] + r.S("e1", "E1", "e+1", "E+01", ".0e1"))
			}
			return Num(s + r.S("", ".0", "e0", ".00", "E0", "0e-1"))
		}
		if s := string(x); !strings.ContainsAny(s, "eE") {
			return Num(s + r.S("", "0", "e0"))
		}
	}
	return v
}

// Again is the same value, perhaps written differently.
func (r *R) Again(v interface{}) interface{} {
	if r.P(50) {
		return r.Respell(v)
	}
	return Copy(v)
}

// Names used for properties.
var Names = []string{"a", "b", "c", "foo", "bar", "name", "x/y", "p~q", "ü", "", "a b", "$ref", "enum", "id", "properties", "100%", "k\"q", "items", "const", "default", "fo", "foobar", "ab", "nam", "A", "Foo"}

// Patterns with strings they accept.
var Patterns = []struct {
	P    string
	Good []string
}{
	{"^a", []string{"a", "abc", "a\n"}},
	{"b$", []string{"b", "ab"}},
	{"^[a-z]+$", []string{"foo", "bar", "a"}},
	{"[0-9]", []string{"7", "x9y"}},
	{"^.{2,3}$", []string{"üü", "abc"}},
	{"o", []string{"foo", "o"}},
	{"^(x|y)/", []string{"x/y"}},
	{"", []string{"", "zz"}},
	{"^\\p{L}*$", []string{"ü", "a"}},
	{"^[^ ]*$", []string{"foo", "x/y"}},
	{"^[a-z]+[0-9]$", []string{"foo1", "a2"}},
	{"^[a-z]+[0-9]*[a-z]$", []string{"foo", "a2b"}},
	{"(?i)^[a-c]+$", []string{"ABC", "a", "bar"}},
	{"^(a|b|foo)$", []string{"a", "foo"}},
	{"^(a|b|bar)$", []string{"b", "bar"}},
}

// G generates schemas for one document.
type G struct {
	*R
	D        model.Draft
	Refs     []string // references usable anywhere
	Formats  []string // custom formats
	MaxKids  int
	NoRefPct bool
	Lean     bool // fewer keywords per schema
	nodes    int
}

func (g *G) name() string {
	if g.P(70) {
		return Names[g.N(6)]
	}
	return Names[g.N(len(Names))]
}

// Number returns a random JSON number.
func (g *G) Number() json.Number {
	switch g.N(12) {
	case 0:
		return Num(g.S("0.1", "0.2", "0.3", "0.01", "1.5", "2.5", "-0.5", "3.14"))
	case 1:
		return Num(g.S("1.0", "2.00", "1e2", "1E1", "15e-1", "100", "1e-2", "0.0", "20e-1"))
	case 2:
		return Num(g.S("9007199254740992", "4294967296", "-2147483649", "2147483647"))
	case 3:
		if g.P(15) {
			return Num(g.S("12345678901234567890", "9007199254740993", "0.12345678901234567891", "1e30", "1e-30", "18446744073709551616.5"))
		}
		return Int(g.N(100) - 50)
	case 4, 5:
		return Int(-g.N(6) - 1)
	}
	return Int(g.N(12))
}

// Str returns a random string.
func (g *G) Str() string {
	switch g.N(10) {
	case 0:
		return ""
	case 1:
		return g.S("ü", "日本", "😀", "é", "\u0000", "a\u0301", "\u2028")
	case 2:
		return g.S("x/y", "p~q", "a b", "<&>", "\"", "\\", "100%", "{{.x}}", "%s")
	case 3:
		return strings.Repeat(g.S("a", "ü", "😀"), g.N(6))
	case 4:
		p := Patterns[g.N(len(Patterns))]
		return p.Good[g.N(len(p.Good))]
	case 5:
		f := formatNames[g.N(len(formatNames))]
		s := model.Samples[f][g.N(2)]
		return s[g.N(len(s))]
	}
	return g.S("a", "b", "c", "foo", "bar", "baz", "quux", "null", "1", "true")
}

var formatNames []string

func init() {
	for f := range model.Samples {
		formatNames = append(formatNames, f)
	}
	sort.Strings(formatNames)
}

// Value returns a random JSON value.
func (g *G) Value(depth int) interface{} {
	n := 7
	if depth <= 0 {
		n = 5
	}
	switch g.N(n) {
	case 0:
		return nil
	case 1:
		return g.P(50)
	case 2:
		return g.Number()
	case 3, 4:
		return g.Str()
	case 5:
		a := A{}
		for i := g.N(4); i > 0; i-- {
			a = append(a, g.Value(depth-1))
		}
		return a
	}
	m := M{}
	for i := g.N(4); i > 0; i-- {
		m[g.name()] = g.Value(depth - 1)
	}
	return m
}

func (g *G) distinct(n, depth int) A {
	var a A
	for tries := 0; len(a) < n && tries < 20; tries++ {
		v := g.Value(depth)
		if g.P(10) {
			v = M{g.S("$ref", "$id", "id", "type"): g.S("#/nope", "http://nowhere.test/x", "zzz")}
		}
		dup := false
		for _, x := range a {
			dup = dup || Text(x) == Text(v) || sameNum(x, v)
		}
		if !dup {
			a = append(a, v)
		}
	}
	return a
}

func sameNum(a, b interface{}) bool {
	x, ok1 := a.(json.Number)
	y, ok2 := b.(json.Number)
	if !ok1 || !ok2 {
		return false
	}
	r, _ := new(big.Rat).SetString(string(x))
	q, _ := new(big.Rat).SetString(string(y))
	return r.Cmp(q) == 0
}

func (g *G) bool6() bool { return g.D != model.D4 }

// Schema returns a random schema.
func (g *G) Schema(depth int) interface{} {
	g.nodes++
	if g.bool6() && g.P(6) {
		return g.P(65)
	}
	if len(g.Refs) > 0 && g.P(18) {
		m := M{"$ref": g.Refs[g.N(len(g.Refs))]}
		if g.P(20) {
			// siblings of $ref are ignored
			m[g.S("type", "title", "minLength", "const")] = map[bool]interface{}{true: "string", false: "null"}[g.P(50)]
			if _, ok := m["minLength"]; ok {
				m["minLength"] = Int(3)
			}
		}
		return m
	}
	m := M{}
	if depth <= 0 || g.nodes > 40 {
		g.leaf(m)
		return m
	}
	n := 1 + g.N(3)
	if g.Lean {
		n = 1 + g.N(2)
	} else if g.P(6) {
		n = 5 + g.N(8) // many keywords at once
	}
	for i := 0; i < n; i++ {
		switch g.N(12) {
		case 0, 1, 2:
			g.leaf(m)
		case 3, 4, 5:
			g.object(m, depth)
		case 6, 7:
			g.array(m, depth)
		case 8, 9, 10:
			g.logic(m, depth)
		case 11:
			m["title"] = g.Str()
			if g.P(50) {
				m["description"] = "d"
				m["default"] = g.Value(1)
			}
		}
	}
	return m
}

var typeNames = []string{"array", "boolean", "integer", "number", "null", "object", "string"}

func (g *G) leaf(m M) {
	switch g.N(9) {
	case 0, 1:
		if g.P(70) {
			m["type"] = typeNames[g.N(7)]
		} else {
			k := 1 + g.N(3)
			p := g.N(7)
			var a A
			for i := 0; i < k; i++ {
				a = append(a, typeNames[(p+i*2)%7])
			}
			m["type"] = a
		}
	case 2:
		m["enum"] = g.distinct(1+g.N(4), 2)
	case 3:
		m["const"] = g.distinct(1, 2)[0]
	case 4, 5:
		switch g.N(6) {
		case 0:
			m["multipleOf"] = Num(g.S("1", "2", "3", "0.1", "0.01", "0.5", "1.5", "1e1", "7"))
		case 1, 2:
			m["minimum"] = g.Number()
			g.excl(m, "exclusiveMinimum")
		case 3, 4:
			m["maximum"] = g.Number()
			g.excl(m, "exclusiveMaximum")
		case 5:
			if g.D != model.D4 {
				m[g.S("exclusiveMinimum", "exclusiveMaximum")] = g.Number()
				if _, ok := m["exclusiveMinimum"].(bool); ok {
					delete(m, "exclusiveMinimum")
				}
			}
		}
	case 6:
		lo, hi := g.N(4), g.N(6)
		if g.P(60) {
			m["minLength"] = Int(lo)
			delete(m, "maxLength")
		}
		if g.P(50) {
			m["maxLength"] = Int(lo + hi)
			if _, ok := m["minLength"]; ok {
				m["minLength"] = Int(lo)
			}
		}
	case 7:
		m["pattern"] = Patterns[g.N(len(Patterns))].P
	case 8:
		if len(g.Formats) > 0 && g.P(50) {
			m["format"] = g.Formats[g.N(len(g.Formats))]
		} else if g.P(80) {
			m["format"] = formatNames[g.N(len(formatNames))]
		} else {
			m["format"] = "no-such-format"
		}
	}
}

func (g *G) excl(m M, k string) {
	if !g.P(45) {
		return
	}
	switch {
	case g.D == model.D4:
		m[k] = g.P(70)
	case g.D == model.Hybrid && g.P(50):
		m[k] = g.P(70)
	default:
		m[k] = g.Number()
	}
}

func (g *G) object(m M, depth int) {
	switch g.N(9) {
	case 0, 1, 2:
		p, _ := m["properties"].(M)
		if p == nil {
			p = M{}
		}
		for i := 1 + g.N(3) + g.N(5)*g.N(2)*g.N(2); i > 0; i-- {
			p[g.name()] = g.Schema(depth - 1)
		}
		m["properties"] = p
	case 3:
		seen := map[string]bool{}
		var a A
		for i := 1 + g.N(3); i > 0; i-- {
			if n := g.name(); !seen[n] {
				seen[n] = true
				a = append(a, n)
			}
		}
		m["required"] = a
		if g.bool6() && g.P(6) {
			m["required"] = A{}
			if g.P(60) {
				m["minProperties"] = Int(1)
				delete(m, "maxProperties")
			}
		}
	case 4:
		p := M{}
		for i := 1 + g.N(2) + g.N(4)*g.N(2)*g.N(2); i > 0; i-- {
			p[Patterns[g.N(len(Patterns))].P] = g.Schema(depth - 1)
		}
		if g.bool6() && g.P(20) { // names allowed or refused whatever their values
			for i := 1 + g.N(2); i > 0; i-- {
				p[Patterns[g.N(len(Patterns))].P] = g.P(60)
			}
		}
		m["patternProperties"] = p
		if g.P(15) {
			m["additionalProperties"] = g.P(25)
		}
	case 5:
		if g.P(50) {
			m["additionalProperties"] = g.P(25)
		} else {
			m["additionalProperties"] = g.Schema(depth - 1)
		}
	case 6:
		d := M{}
		for i := 1 + g.N(2); i > 0; i-- {
			if g.P(50) {
				a := A{}
				for j := []int{1, 2, 2, 3, 5}[g.N(5)]; j > 0; j-- {
					a = append(a, g.name())
				}
				d[g.name()] = a
			} else {
				d[g.name()] = g.Schema(depth - 1)
			}
		}
		m["dependencies"] = d
	case 7:
		lo := g.N(3)
		if g.P(60) {
			m["minProperties"] = Int(lo)
			delete(m, "maxProperties")
		}
		if g.P(60) {
			m["maxProperties"] = Int(lo + g.N(3))
			if _, ok := m["minProperties"]; ok {
				m["minProperties"] = Int(lo)
			}
		}
	case 8:
		if g.D != model.D4 || g.P(20) {
			s := g.Schema(depth - 1)
			if _, isB := s.(bool); !isB || g.D != model.D4 {
				m["propertyNames"] = s
			}
		}
	}
}

func (g *G) array(m M, depth int) {
	switch g.N(8) {
	case 0, 1:
		m["items"] = g.Schema(depth - 1)
	case 2, 3:
		var a A
		for i := 1 + g.N(3); i > 0; i-- {
			a = append(a, g.Schema(depth-1))
		}
		m["items"] = a
		if g.P(60) {
			if g.P(50) {
				m["additionalItems"] = g.P(30)
			} else {
				m["additionalItems"] = g.Schema(depth - 1)
			}
		}
	case 4:
		m["uniqueItems"] = g.P(85)
	case 5:
		m["minItems"] = Int(g.N(4))
	case 6:
		m["maxItems"] = Int(g.N(4))
	case 7:
		m["contains"] = g.Schema(depth - 1)
	}
}

func (g *G) logic(m M, depth int) {
	list := func() A {
		var a A
		for i := 1 + g.N(3); i > 0; i-- {
			a = append(a, g.Schema(depth-1))
		}
		return a
	}
	switch g.N(8) {
	case 0, 1:
		m["allOf"] = list()
	case 2, 3:
		m["anyOf"] = list()
	case 4, 5:
		m["oneOf"] = list()
	case 6:
		m["not"] = g.Schema(depth - 1)
	case 7:
		m["if"] = g.Schema(depth - 1)
		if g.P(75) {
			m["then"] = g.Schema(depth - 1)
		}
		if g.P(75) {
			m["else"] = g.Schema(depth - 1)
		}
	}
}

// EscapePtr makes a JSON-pointer token usable in a URI fragment.
func EscapePtr(s string) string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "~", "~0"), "/", "~1")
	return (&url.URL{Path: s}).EscapedPath()
}

// frag percent-encodes a pointer token for a fragment.
// Frag percent-encodes a pointer token for a fragment.
func Frag(s string) string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "~", "~0"), "/", "~1")
	u := url.URL{Fragment: s}
	return strings.TrimPrefix(u.String(), "#")
}

// DefNames for definitions, some needing escapes.
var DefNames = []string{"d0", "d1", "x/y", "p~q", "a b", "100%", "ü", "properties", "const", "enum", "dependencies", "deep"}

// Doc returns a whole document with definitions and references into itself.
func (g *G) Doc(depth int) M {
	var defs []string
	k := g.N(4)
	if g.P(25) {
		k = 0
	}
	for i := 0; i < k; i++ {
		n := DefNames[g.N(len(DefNames))]
		dup := false
		for _, x := range defs {
			dup = dup || x == n
		}
		if !dup {
			defs = append(defs, n)
		}
	}
	ext := g.Refs
	local := append([]string{}, ext...)
	for _, n := range defs {
		local = append(local, "#/definitions/"+Frag(n))
	}
	if k > 0 || g.P(30) {
		local = append(local, "#")
	}
	g.Refs = local
	d := M{}
	for _, n := range defs {
		s := g.Schema(depth - 1)
		if m, ok := s.(M); ok && g.D == model.D4 {
			s = m
		}
		d[n] = s
	}
	var root M
	for i := 0; i < 5; i++ {
		g.nodes = 0
		if m, ok := g.Schema(depth).(M); ok && m["$ref"] == nil {
			root = m
			break
		}
	}
	if root == nil {
		root = M{}
		g.object(root, depth)
	}
	if len(d) > 0 {
		root["definitions"] = d
	}
	// references into other places of the document
	if g.P(30) {
		if ps, ok := root["properties"].(M); ok {
			for _, k := range Keys(ps) {
				ps["viaptr"] = M{"$ref": "#/properties/" + Frag(k)}
				break
			}
		}
	}
	g.Refs = ext
	return root
}

// Keys are the names in m, sorted.
func Keys(m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// I generates instances directed by a schema.
type I struct {
	*G
	Root    interface{}
	Resolve func(node M) interface{}
	budget  int
}

func (i *I) resolve(node M, ref string) interface{} {
	if i.Resolve != nil {
		if n := i.Resolve(node); n != nil {
			return n
		}
	}
	if ref == "#" {
		return i.Root
	}
	if strings.HasPrefix(ref, "#/") {
		return Pointer(i.Root, ref[1:])
	}
	return nil
}

// Pointer follows a percent-encoded JSON pointer.
func Pointer(doc interface{}, p string) interface{} {
	if u, err := url.PathUnescape(p); err == nil {
		p = u
	}
	cur := doc
	for _, t := range strings.Split(strings.TrimPrefix(p, "/"), "/") {
		t = strings.ReplaceAll(strings.ReplaceAll(t, "~1", "/"), "~0", "~")
		switch x := cur.(type) {
		case M:
			cur = x[t]
		case A:
			n, err := strconv.Atoi(t)
			if err != nil || n < 0 || n >= len(x) {
				return nil
			}
			cur = x[n]
		default:
			return nil
		}
	}
	return cur
}

// Instance returns a value aimed at satisfying the root schema, often mutated.
func (i *I) Instance() interface{} {
	i.budget = 60
	v := i.For(i.Root, 5)
	for i.P(45) {
		v = i.Mutate(v)
	}
	return v
}

func merge(dst, src M) {
	for k, v := range src {
		if _, ok := dst[k]; !ok {
			dst[k] = v
		} else if k == "properties" {
			a, ok1 := dst[k].(M)
			b, ok2 := v.(M)
			if ok1 && ok2 {
				c := M{}
				merge(c, a)
				merge(c, b)
				dst[k] = c
			}
		} else if k == "required" {
			a, ok1 := dst[k].(A)
			b, ok2 := v.(A)
			if ok1 && ok2 {
				dst[k] = append(append(A{}, a...), b...)
			}
		}
	}
}

// For returns a value aimed at satisfying node.
func (i *I) For(node interface{}, depth int) interface{} {
	i.budget--
	if i.budget < 0 || depth < -4 {
		return i.Value(0)
	}
	m, ok := node.(M)
	if !ok {
		return i.Value(1)
	}
	for hops := 0; ; hops++ {
		r, ok := m["$ref"].(string)
		if !ok {
			break
		}
		t, ok := i.resolve(m, r).(M)
		if !ok || hops > 6 {
			return i.Value(1)
		}
		m = t
	}
	flat := M{}
	merge(flat, m)
	for hops := 0; hops < 6; hops++ {
		var add []interface{}
		if a, ok := flat["allOf"].(A); ok {
			add = append(add, a...)
			delete(flat, "allOf")
		}
		for _, k := range []string{"anyOf", "oneOf"} {
			if a, ok := flat[k].(A); ok && len(a) > 0 {
				add = append(add, a[i.N(len(a))])
				delete(flat, k)
			}
		}
		if c, ok := flat["if"]; ok {
			delete(flat, "if")
			if i.P(60) {
				add = append(add, c)
				if t, ok := flat["then"]; ok {
					add = append(add, t)
				}
			} else if e, ok := flat["else"]; ok {
				add = append(add, e)
			}
		}
		if len(add) == 0 {
			break
		}
		for _, s := range add {
			if sm, ok := s.(M); ok {
				for hops := 0; hops < 6; hops++ {
					r, ok := sm["$ref"].(string)
					if !ok {
						break
					}
					t, ok := i.resolve(sm, r).(M)
					if !ok {
						break
					}
					sm = t
				}
				if _, ok := sm["$ref"].(string); !ok {
					merge(flat, sm)
				}
			}
		}
	}
	m = flat
	if c, ok := m["const"]; ok && i.P(90) {
		return i.Again(c)
	}
	if e, ok := m["enum"].(A); ok && len(e) > 0 {
		return i.Again(e[i.N(len(e))])
	}
	t := ""
	switch x := m["type"].(type) {
	case string:
		t = x
	case A:
		if len(x) > 0 {
			t, _ = x[i.N(len(x))].(string)
		}
	}
	if t == "" {
		var c []string
		for _, k := range Keys(m) {
			switch k {
			case "properties", "required", "patternProperties", "additionalProperties", "dependencies", "minProperties", "maxProperties", "propertyNames":
				c = append(c, "object")
			case "items", "additionalItems", "minItems", "maxItems", "uniqueItems", "contains":
				c = append(c, "array")
			case "minLength", "maxLength", "pattern", "format":
				c = append(c, "string")
			case "minimum", "maximum", "multipleOf", "exclusiveMinimum", "exclusiveMaximum":
				c = append(c, "number")
			}
		}
		if len(c) == 0 {
			return i.Value(2)
		}
		t = c[i.N(len(c))]
	}
	switch t {
	case "null":
		return nil
	case "boolean":
		return i.P(50)
	case "integer":
		n := i.number(m)
		if r, ok := new(big.Rat).SetString(string(n)); ok && !r.IsInt() && i.P(80) {
			return Int(i.N(20))
		}
		return n
	case "number":
		return i.number(m)
	case "string":
		return i.str(m)
	case "array":
		return i.arr(m, depth)
	}
	return i.obj(m, depth)
}

func num(v interface{}) *big.Rat {
	n, ok := v.(json.Number)
	if !ok {
		return nil
	}
	r, ok := new(big.Rat).SetString(string(n))
	if !ok {
		return nil
	}
	return r
}

func (i *I) number(m M) json.Number {
	var cands []*big.Rat
	for _, k := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
		if r := num(m[k]); r != nil {
			cands = append(cands, r, new(big.Rat).Add(r, big.NewRat(1, 1)), new(big.Rat).Sub(r, big.NewRat(1, 1)),
				new(big.Rat).Add(r, big.NewRat(1, 1000)), new(big.Rat).Sub(r, big.NewRat(1, 1000)))
		}
	}
	if q := num(m["multipleOf"]); q != nil {
		cands = append(cands, new(big.Rat).Mul(q, big.NewRat(int64(i.N(20)), 1)))
	}
	if len(cands) == 0 || i.P(10) {
		return i.Number()
	}
	r := cands[i.N(len(cands))]
	if r.IsInt() {
		return Num(r.Num().String())
	}
	s := r.FloatString(24)
	return Num(strings.TrimSuffix(strings.TrimRight(s, "0"), "."))
}

func (i *I) str(m M) string {
	if f, ok := m["format"].(string); ok {
		if s, ok := model.Samples[f]; ok {
			x := s[0]
			if i.P(35) {
				x = s[1]
			}
			return x[i.N(len(x))]
		}
		return i.S("ok", "bad", "ok1", "")
	}
	if p, ok := m["pattern"].(string); ok {
		for _, q := range Patterns {
			if q.P == p {
				return q.Good[i.N(len(q.Good))]
			}
		}
	}
	lo, hi := -1, -1
	if n, ok := m["minLength"].(json.Number); ok {
		lo, _ = strconv.Atoi(string(n))
	}
	if n, ok := m["maxLength"].(json.Number); ok {
		hi, _ = strconv.Atoi(string(n))
	}
	if lo < 0 && hi < 0 {
		return i.Str()
	}
	n := lo
	if n < 0 || (hi >= 0 && i.P(50)) {
		n = hi
	}
	n += i.N(3) - 1
	if n < 0 {
		n = 0
	}
	s := strings.Repeat(i.S("a", "ü", "😀", "日", " ", "\n", "a"), n)
	if n > 1 && i.P(15) { // padded
		s = strings.Repeat("a", n-1) + i.S(" ", "\n", "\t", "\u00a0", "\u0000", "\u0301")
	}
	return s
}

func (i *I) arr(m M, depth int) A {
	n := i.N(4)
	if x := num(m["minItems"]); x != nil && i.P(80) {
		k, _ := strconv.Atoi(x.Num().String())
		n = k + i.N(2)
	}
	if x := num(m["maxItems"]); x != nil && i.P(70) {
		k, _ := strconv.Atoi(x.Num().String())
		if n > k {
			n = k
		}
	}
	a := A{}
	for j := 0; j < n; j++ {
		var s interface{} = true
		switch it := m["items"].(type) {
		case A:
			if j < len(it) {
				s = it[j]
			} else if ai, ok := m["additionalItems"]; ok {
				s = ai
			}
		case nil:
		default:
			s = it
		}
		if c, ok := m["contains"]; ok && i.P(40) {
			s = c
		}
		if len(a) > 0 && i.P(15) {
			a = append(a, i.Again(a[i.N(len(a))]))
		} else {
			a = append(a, i.For(s, depth-1))
		}
	}
	return a
}

func (i *I) obj(m M, depth int) M {
	o := M{}
	props, _ := m["properties"].(M)
	put := func(k string) {
		if s, ok := props[k]; ok {
			o[k] = i.For(s, depth-1)
			return
		}
		if pp, ok := m["patternProperties"].(M); ok {
			for _, p := range Keys(pp) {
				for _, q := range Patterns {
					if q.P == p {
						for _, gd := range q.Good {
							if gd == k {
								o[k] = i.For(pp[p], depth-1)
								return
							}
						}
					}
				}
			}
		}
		if ap, ok := m["additionalProperties"].(M); ok {
			o[k] = i.For(ap, depth-1)
			return
		}
		o[k] = i.Value(1)
	}
	if r, ok := m["required"].(A); ok {
		for _, k := range r {
			if s, ok := k.(string); ok && i.P(92) {
				put(s)
			}
		}
	}
	for _, k := range Keys(props) {
		if i.P(65) {
			put(k)
		}
	}
	if pp, ok := m["patternProperties"].(M); ok {
		for _, p := range Keys(pp) {
			for _, q := range Patterns {
				if q.P == p && i.P(60) {
					put(q.Good[i.N(len(q.Good))])
				}
			}
		}
	}
	if d, ok := m["dependencies"].(M); ok {
		for _, k := range Keys(d) {
			if i.P(50) {
				put(k)
				if a, ok := d[k].(A); ok && i.P(60) {
					leave := -1 // sometimes just one is missing
					if i.P(35) {
						leave = i.N(len(a))
					}
					for j, n := range a {
						if s, ok := n.(string); ok && j != leave {
							put(s)
						}
					}
				}
			}
		}
	}
	if i.P(30) {
		put(i.name())
	}
	if len(props) > 0 && i.P(12) { // almost one of the names
		k := Keys(props)[i.N(len(props))]
		switch i.N(4) {
		case 0:
			put(k + i.S("a", "2", " ", "."))
		case 1:
			put(strings.ToUpper(k))
		default:
			if rs := []rune(k); len(rs) > 0 {
				put(string(rs[:len(rs)-1]))
			}
		}
	}
	if x := num(m["minProperties"]); x != nil {
		k, _ := strconv.Atoi(x.Num().String())
		for t := 0; len(o) < k && t < 8 && i.P(90); t++ {
			put(i.name())
		}
	}
	return o
}

// Mutate changes one place of v.
func (i *I) Mutate(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		ks := Keys(x)
		switch i.N(4) {
		case 0:
			if len(ks) > 0 {
				delete(x, ks[i.N(len(ks))])
			}
		case 1:
			x[i.name()] = i.Value(1)
		default:
			if len(ks) > 0 {
				k := ks[i.N(len(ks))]
				x[k] = i.Mutate(x[k])
			}
		}
		return x
	case A:
		switch i.N(5) {
		case 0:
			if len(x) > 0 {
				j := i.N(len(x))
				return append(append(A{}, x[:j]...), x[j+1:]...)
			}
		case 1:
			return append(x, i.Value(1))
		case 2:
			if len(x) > 0 {
				return append(x, i.Again(x[i.N(len(x))]))
			}
		default:
			if len(x) > 0 {
				j := i.N(len(x))
				x[j] = i.Mutate(x[j])
			}
		}
		return x
	case json.Number:
		if i.P(60) {
			if r := num(x); r != nil {
				d := big.NewRat(1, []int64{1, 1, 2, 1000}[i.N(4)])
				if i.P(50) {
					d.Neg(d)
				}
				r.Add(r, d)
				if r.IsInt() {
					return Num(r.Num().String())
				}
				return Num(strings.TrimSuffix(strings.TrimRight(r.FloatString(24), "0"), "."))
			}
		}
	case string:
		if i.P(40) {
			return x + i.S("a", "ü", "😀")
		}
		if len(x) > 0 && i.P(30) {
			rs := []rune(x)
			return string(rs[:len(rs)-1])
		}
	}
	return i.Value(1)
}

var _ = fmt.Sprint
