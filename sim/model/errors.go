package model

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ErrSet says which errors a validation reports: all of Must and, for each of
// Alts, those of at least one alternative.
type ErrSet struct {
	Must []string
	Alts [][]*ErrSet
}

// Errors returns the errors that inst has under the schema.
func (s *Schema) Errors(inst interface{}) (es *ErrSet, st Status, why string) {
	st, why = guard(func() {
		e := &eval{l: s.l}
		es = &ErrSet{}
		e.errs(es, s.root, s.draft, inst, nil, "(root)")
	})
	return
}

// Allowed counts how often each error may be reported at most.
func (s *ErrSet) Allowed(n map[string]int) {
	for _, k := range s.Must {
		n[k]++
	}
	for _, as := range s.Alts {
		for _, a := range as {
			a.Allowed(n)
		}
	}
}

// Missing returns an error that must be reported but is not.
func (s *ErrSet) Missing(got map[string]int) string {
	need := map[string]int{}
	for _, k := range s.Must {
		need[k]++
		if got[k] < need[k] {
			return k
		}
	}
	for _, as := range s.Alts {
		miss := ""
		for _, a := range as {
			if miss = a.Missing(got); miss == "" {
				break
			}
		}
		if miss != "" {
			return fmt.Sprintf("%s (or what another of the %d alternatives reports)", miss, len(as))
		}
	}
	return ""
}

// Explains reports whether the errors are exactly those of one choice of
// alternatives, and whether that could be decided.
func (s *ErrSet) Explains(got map[string]int) (yes, decided bool) {
	rest, left := map[string]int{}, 0
	for k, n := range got {
		rest[k] = n
		left += n
	}
	steps := 0
	var take func(todo []*ErrSet, groups [][]*ErrSet) bool
	take = func(todo []*ErrSet, groups [][]*ErrSet) bool {
		if steps++; steps > 20000 {
			return false
		}
		var taken []string
		defer func() {
			for _, k := range taken {
				rest[k]++
				left++
			}
		}()
		for _, t := range todo {
			for _, k := range t.Must {
				if rest[k] == 0 {
					return false
				}
				rest[k]--
				left--
				taken = append(taken, k)
			}
			groups = append(groups[:len(groups):len(groups)], t.Alts...)
		}
		if len(groups) == 0 {
			return left == 0
		}
		g := groups[len(groups)-1]
		for _, a := range g {
			if take([]*ErrSet{a}, groups[:len(groups)-1]) {
				return true
			}
		}
		return false
	}
	yes = take([]*ErrSet{s}, nil)
	return yes, yes || steps <= 20000
}

// Canonical renders a JSON value with numbers by value.
func Canonical(v interface{}) string {
	switch x := v.(type) {
	case json.Number:
		return Num(string(x))
	case []interface{}:
		var sb strings.Builder
		for _, y := range x {
			sb.WriteString("," + Canonical(y))
		}
		return "[" + sb.String() + "]"
	case map[string]interface{}:
		ks := sortedKeys(x)
		var sb strings.Builder
		for _, k := range ks {
			sb.WriteString("," + strconv.Quote(k) + ":" + Canonical(x[k]))
		}
		return "{" + sb.String() + "}"
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// Num renders a number of any notation.
func Num(s string) string {
	f, ok := new(big.Float).SetString(s)
	if !ok {
		return s
	}
	return f.Text('g', 9)
}

var word = regexp.MustCompile("[a-z]+")

// Words sorts the words of a list.
func Words(s string) string {
	w := word.FindAllString(s, -1)
	sort.Strings(w)
	return strings.Join(w, "/")
}

// ErrKey identifies an error.
func ErrKey(typ, ctx, value string, det ...string) string {
	return typ + " at " + ctx + " on " + value + " (" + strings.Join(det, ", ") + ")"
}

// Detail keys that are part of the identity, by type of error.
var Detail = map[string][]string{
	"invalid_type":                    {"expected", "given"},
	"required":                        {"property"},
	"missing_dependency":              {"dependency"},
	"additional_property_not_allowed": {"property"},
	"invalid_property_name":           {"property"},
	"format":                          {"format"},
	"pattern":                         {"pattern"},
	"unique":                          {"i", "j"},
	"array_min_items":                 {"min"},
	"array_max_items":                 {"max"},
	"array_min_properties":            {"min"},
	"array_max_properties":            {"max"},
	"string_gte":                      {"min"},
	"string_lte":                      {"max"},
	"multiple_of":                     {"multiple"},
	"number_gte":                      {"min"},
	"number_gt":                       {"min"},
	"number_lte":                      {"max"},
	"number_lt":                       {"max"},
}

func (e *eval) errs(out *ErrSet, node interface{}, d Draft, v interface{}, fr *frame, ctx string) {
	e.steps++
	if e.steps > 200000 {
		outside("too large")
	}
	add := func(typ string, val interface{}, det ...string) {
		out.Must = append(out.Must, ErrKey(typ, ctx, Canonical(val), det...))
	}
	if b, ok := node.(bool); ok {
		if !b {
			add("false", v)
		}
		return
	}
	m := node.(map[string]interface{})
	p := ptr(m)
	for f := fr; f != nil; f = f.up {
		if f.p == p && f.d == d {
			outside("schema applies itself to the same value")
		}
	}
	in := &frame{p, d, fr}
	if r, ok := m["$ref"].(string); ok {
		t := e.l.lookup(e.l.absRef(m, r))
		nd := d
		if t.draft != Unset {
			nd = t.draft
		}
		e.errs(out, t.node, nd, v, in, ctx)
		return
	}
	same := func(sub interface{}) bool { return e.valid(sub, d, v, in) }
	sameErrs := func(o *ErrSet, sub interface{}) { e.errs(o, sub, d, v, in, ctx) }
	below := func(o *ErrSet, sub, val interface{}, at string) { e.errs(o, sub, d, val, nil, ctx+"."+at) }
	alt := func(f func(o *ErrSet)) *ErrSet { o := &ErrSet{}; f(o); return o }

	t := typeOf(v)
	if ts, has := m["type"]; has {
		var all []string
		hit := false
		a, isA := ts.([]interface{})
		if !isA {
			a = []interface{}{ts}
		}
		for _, x := range a {
			all = append(all, x.(string))
			hit = hit || x == t || (x == "number" && t == "integer")
		}
		if !hit {
			add("invalid_type", v, Words(strings.Join(all, "/")), t)
			return // nothing else is said about a value of the wrong type
		}
	}
	if c, has := m["const"]; has && d.atLeast(D6) && !Equal(c, v) {
		add("const", v)
	}
	if a, has := m["enum"].([]interface{}); has {
		hit := false
		for _, x := range a {
			if Equal(x, v) {
				hit = true
			}
		}
		if !hit {
			add("enum", v)
		}
	}
	if f, has := m["format"].(string); has {
		ok := true
		if c := e.l.Formats[f]; c != nil {
			ok = c(v)
		} else if known[f] {
			ok = format(f, v)
		}
		if !ok {
			add("format", v, f)
		}
	}
	if a, has := m["allOf"].([]interface{}); has {
		ok := true
		for _, s := range a {
			ok = same(s) && ok
			sameErrs(out, s)
		}
		if !ok {
			add("number_all_of", v)
		}
	}
	for kw, typ := range map[string]string{"anyOf": "number_any_of", "oneOf": "number_one_of"} {
		a, has := m[kw].([]interface{})
		if !has {
			continue
		}
		n := 0
		var alts []*ErrSet
		for _, s := range a {
			if same(s) {
				n++
			} else {
				s := s
				alts = append(alts, alt(func(o *ErrSet) { sameErrs(o, s) }))
			}
		}
		if n == 0 || kw == "oneOf" && n > 1 {
			add(typ, v)
		}
		if n == 0 {
			out.Alts = append(out.Alts, alts)
		}
	}
	if s, has := m["not"]; has && same(s) {
		add("number_not", v)
	}
	if s, has := m["if"]; has && d.atLeast(D7) {
		kw, typ := "then", "condition_then"
		if !same(s) {
			kw, typ = "else", "condition_else"
		}
		if b, has := m[kw]; has && !same(b) {
			add(typ, v)
			sameErrs(out, b)
		}
	}
	limit := func(kw, typ string, bad func(i int) bool) {
		if i, has := isInt(m[kw]); has && bad(i) {
			add(typ, v, Num(strconv.Itoa(i)))
		}
	}
	switch x := v.(type) {
	case json.Number:
		e.numberErrs(m, x, add)
	case string:
		n := utf8.RuneCountInString(x)
		limit("minLength", "string_gte", func(i int) bool { return n < i })
		limit("maxLength", "string_lte", func(i int) bool { return n > i })
		if p, has := m["pattern"].(string); has && !regexp.MustCompile(p).MatchString(x) {
			add("pattern", v, p)
		}
	case []interface{}:
		limit("minItems", "array_min_items", func(i int) bool { return len(x) < i })
		limit("maxItems", "array_max_items", func(i int) bool { return len(x) > i })
		if u, _ := m["uniqueItems"].(bool); u {
			for j := range x {
				var alts []*ErrSet
				for i := 0; i < j; i++ {
					if Equal(x[i], x[j]) {
						alts = append(alts, &ErrSet{Must: []string{ErrKey("unique", ctx, Canonical(v), strconv.Itoa(i), strconv.Itoa(j))}})
					}
				}
				if len(alts) > 0 {
					out.Alts = append(out.Alts, alts)
				}
			}
		}
		if its, has := m["items"]; has {
			if tuple, isT := its.([]interface{}); isT {
				for i := range x {
					if i < len(tuple) {
						below(out, tuple[i], x[i], strconv.Itoa(i))
					} else if ai, has := m["additionalItems"]; has && ai != false {
						below(out, ai, x[i], strconv.Itoa(i))
					}
				}
				if m["additionalItems"] == false && len(x) > len(tuple) {
					add("array_no_additional_items", v)
				}
			} else {
				for i := range x {
					below(out, its, x[i], strconv.Itoa(i))
				}
			}
		}
		if c, has := m["contains"]; has && d.atLeast(D6) {
			hit := false
			for i := range x {
				hit = hit || e.valid(c, d, x[i], nil)
			}
			if !hit {
				add("contains", v)
				var alts []*ErrSet
				for i := range x {
					i := i
					alts = append(alts, alt(func(o *ErrSet) { below(o, c, x[i], strconv.Itoa(i)) }))
				}
				if len(alts) > 0 {
					out.Alts = append(out.Alts, alts)
				}
			}
		}
	case map[string]interface{}:
		limit("minProperties", "array_min_properties", func(i int) bool { return len(x) < i })
		limit("maxProperties", "array_max_properties", func(i int) bool { return len(x) > i })
		if r, has := m["required"].([]interface{}); has {
			for _, k := range r {
				if _, has := x[k.(string)]; !has {
					add("required", v, k.(string))
				}
			}
		}
		props, _ := m["properties"].(map[string]interface{})
		pats, _ := m["patternProperties"].(map[string]interface{})
		ap, hasAP := m["additionalProperties"]
		for k, val := range x {
			matched := false
			if s, has := props[k]; has {
				matched = true
				below(out, s, val, k)
			}
			for p, s := range pats {
				if regexp.MustCompile(p).MatchString(k) {
					matched = true
					below(out, s, val, k)
				}
			}
			if !matched && hasAP {
				if ap == false {
					add("additional_property_not_allowed", val, k)
				} else {
					below(out, ap, val, k)
				}
			}
			if pn, has := m["propertyNames"]; has && d.atLeast(D6) && !e.valid(pn, d, k, nil) {
				add("invalid_property_name", v, k)
				e.errs(out, pn, d, k, nil, ctx)
			}
		}
		if deps, has := m["dependencies"].(map[string]interface{}); has {
			for k, dep := range deps {
				if _, has := x[k]; !has {
					continue
				}
				if a, isA := dep.([]interface{}); isA {
					for _, n := range a {
						if _, has := x[n.(string)]; !has {
							add("missing_dependency", v, n.(string))
						}
					}
				} else {
					sameErrs(out, dep)
				}
			}
		}
	}
}

func (e *eval) numberErrs(m map[string]interface{}, n json.Number, add func(string, interface{}, ...string)) {
	r := rat(n)
	num := func(x interface{}) string { return Num(string(x.(json.Number))) }
	if x, has := m["multipleOf"]; has && !new(big.Rat).Quo(r, rat(x)).IsInt() {
		add("multiple_of", n, num(x))
	}
	if x, has := m["minimum"]; has {
		c := r.Cmp(rat(x))
		if ex, _ := m["exclusiveMinimum"].(bool); ex {
			if c <= 0 {
				add("number_gt", n, num(x))
			}
		} else if c < 0 {
			add("number_gte", n, num(x))
		}
	}
	if x, has := m["exclusiveMinimum"].(json.Number); has && r.Cmp(rat(x)) <= 0 {
		add("number_gt", n, num(x))
	}
	if x, has := m["maximum"]; has {
		c := r.Cmp(rat(x))
		if ex, _ := m["exclusiveMaximum"].(bool); ex {
			if c >= 0 {
				add("number_lt", n, num(x))
			}
		} else if c > 0 {
			add("number_lte", n, num(x))
		}
	}
	if x, has := m["exclusiveMaximum"].(json.Number); has && r.Cmp(rat(x)) >= 0 {
		add("number_lt", n, num(x))
	}
}
