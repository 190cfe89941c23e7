package harness

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"text/template"

	gjs "github.com/xeipuuv/gojsonschema"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
	"verifsim/rt"
)

func init() {
	register(&Scenario{Prop: "C18", Kind: "texts", Weight: 1, Gen: genTexts, Check: checkTexts})
	register(&Scenario{Prop: "C21", Kind: "errors", Weight: 10, Gen: genErrors, Check: checkErrors})
	register(&Scenario{Prop: "C21", Kind: "sizes", Weight: 2, Gen: genSizes, Check: checkErrors})
}

// rec is one reported error.
type rec struct {
	typ, ctx, field, desc, format, str string
	path                               string // ctx with another delimiter
	value                              interface{}
	det                                map[string]interface{}
	custom                             bool
}

const pathSep = "\x01\x02"

// leads tells whether the steps of a path exist in an instance.
func leads(path string, v interface{}) bool {
	steps := strings.Split(path, pathSep)
	if steps[0] != "(root)" {
		return false
	}
	for _, s := range steps[1:] {
		switch x := v.(type) {
		case map[string]interface{}:
			c, ok := x[s]
			if !ok {
				return false
			}
			v = c
		case []interface{}:
			n, err := strconv.Atoi(s)
			if err != nil || n < 0 || n >= len(x) {
				return false
			}
			v = x[n]
		default:
			return false
		}
	}
	return true
}

func records(res *gjs.Result) (out []rec) {
	for _, x := range res.Errors() {
		r := rec{typ: x.Type(), ctx: x.Context().String(), field: x.Field(), desc: x.Description(), format: x.DescriptionFormat(), str: x.String(), value: x.Value(), path: x.Context().String(pathSep)}
		r.det = map[string]interface{}{}
		for k, v := range x.Details() {
			r.det[k] = v
		}
		out = append(out, r)
	}
	return
}

// customErr is an error of the caller's.
type customErr struct{ gjs.ResultErrorFields }

// addCustom adds an error of the caller's to a result.
func addCustom(res *gjs.Result, n int) rec {
	c := &customErr{}
	d := gjs.ErrorDetails{"foo": fmt.Sprint("bar", n), "field": "mine"}
	c.SetType("custom")
	c.SetContext(gjs.NewJsonContext(fmt.Sprint("c", n), gjs.NewJsonContext("(root)", nil)))
	c.SetValue(n)
	c.SetDetails(d)
	c.SetDescriptionFormat([]string{"custom {{.foo}} {{.context}}", "custom {{vup .foo}}", "custom {{.foo}} at {{.field}}"}[n%3])
	res.AddError(c, d)
	if n%4 == 3 { // an error about nothing in particular
		q := &customErr{}
		dq := gjs.ErrorDetails{"foo": "x"}
		q.SetDescriptionFormat("nowhere {{.foo}}")
		other := &gjs.Result{}
		other.AddError(q, dq)
		if es := other.Errors(); len(es) != 1 || es[0].Description() != "nowhere x" {
			r := rec{typ: "custom", custom: true, format: "nowhere {{.foo}}", det: map[string]interface{}{"foo": "x"}}
			if len(es) == 1 {
				r.desc = es[0].Description()
			}
			return r
		}
	}
	es := records(res)
	r := es[len(es)-1]
	r.custom = true
	return r
}

var textFuncs = template.FuncMap{
	"vup":  strings.ToUpper,
	"vlen": func(s string) int { return len(s) },
}

// simLocale is one of several sets of texts.
type simLocale struct {
	gjs.DefaultLocale
	v int
}

func (l simLocale) text(name, def string) string {
	rt.Y(siteCB)
	if name == "ErrorFormat" {
		switch l.v {
		case 1, 4:
			return "E1 {{.field}}: {{.description}} [{{.value}}] {{.context}}"
		case 8:
			return " E1 {{.field}}: {{.description}} [{{.value}}] {{.context}}\n"
		case 9:
			return "e1 {{.field}}: {{.description}} [{{.value}}] {{.context}}"
		case 2:
			return "{{.context}} {{vup .field}} {{.value}}"
		case 3:
			return "{{range $k, $v := .}} {{$k}}={{$v}}{{end}}"
		}
		return def
	}
	switch l.v {
	case 1:
		return name + " {{.field}} {{.context}}"
	case 2:
		return def + " {{vup .field}}/{{vlen .context}}"
	case 3:
		return name + "{{range $k, $v := .}} {{$k}}={{$v}}{{end}}"
	case 4: // the same text for many
		return fmt.Sprintf("%d {{.field}}", len(name)%3)
	case 5: // names of other templates
		return "{{.field}}" + name
	case 6: // details that not every error has
		return name + " {{.min}} {{.nope}}"
	case 8: // as the first one, but for white space
		return []string{" ", "", "\t"}[len(name)%3] + name + " {{.field}} {{.context}}" + []string{"\n", " "}[len(name)%2]
	case 9: // or but for case
		return strings.ToUpper(name) + " {{.field}} {{.context}}"
	case 10, 11: // long, and different only at the end
		return strings.Repeat("the document is not what it should be; ", 8) + "{{.field}} " + name + fmt.Sprint(l.v)
	case 7: // texts that can't be rendered for every error
		return name + " {{.field}} {{vlen .property}}"
	}
	return def
}

// render is what a text must become.
func render(text string, det map[string]interface{}) (string, bool) {
	t, err := template.New("x").Funcs(textFuncs).Parse(text)
	if err != nil {
		return "", false
	}
	var sb strings.Builder
	if err := t.Execute(&sb, det); err != nil {
		return "", false
	}
	return sb.String(), true
}

func genTexts(r *gen.R, p *plan.Plan) {
	sched(r, p)
	p.Formats = pickFormats(r)
	p.Loaders = []plan.LoaderSpec{{Auto: true}}
	ns := 1 + r.N(2)
	ins := make([][]int, ns)
	lc := func() plan.Op { return plan.Op{K: "locale", N: r.N(12)} }
	if r.P(70) {
		p.Setup = append(p.Setup, lc())
	}
	val := func() plan.Op {
		s := r.N(ns)
		return plan.Op{K: "validate", S: s, D: ins[s][r.N(len(ins[s]))], Via: r.S("str", "raw", "go"), ID: 1 + r.N(9)}
	}
	for s := 0; s < ns; s++ {
		var d int
		d, ins[s] = addSchema(r, p, pickDraft(r), 1+r.N(3), 6)
		p.Setup = append(p.Setup, plan.Op{K: "newschema", D: d, S: s})
	}
	for k := r.N(3); k > 0; k-- {
		p.Setup = append(p.Setup, val())
		if r.P(50) {
			p.Setup = append(p.Setup, lc())
		}
	}
	for t := 1 + r.N(3); t > 0; t-- {
		var ops []plan.Op
		for k := 1 + r.N(3); k > 0; k-- {
			ops = append(ops, val())
		}
		p.Tasks = append(p.Tasks, ops)
	}
	for k := r.N(3); k > 0; k-- {
		p.After = append(p.After, lc(), val())
	}
}

func checkTexts(p *plan.Plan) (*plan.Violation, string) {
	h := Exec(p, Opts{})
	if s := h.skip(); s != "" {
		return nil, s
	}
	if v := bad(p, h); v != nil {
		return v, ""
	}
	l, n := simLocale{}, 0
	one := func(op *plan.Op, r *OpRes) *plan.Violation {
		if op.K == "locale" {
			l.v = op.N
			return nil
		}
		for _, x := range r.recs {
			v := func(what, want, got string) *plan.Violation {
				return viol(p, "text", "%s of the error %s at %s must be %q but is %q (instance %s)", what, x.typ, x.ctx, want, got, short(instText(p, op)))
			}
			if f := texts[x.typ]; f != nil && !x.custom {
				if want := f(l); want != x.format {
					return v("the description format", want, x.format)
				}
			} else if !x.custom {
				return viol(p, "text", "error of unknown type %q", x.typ)
			}
			if want, ok := render(x.format, x.det); ok && want != x.desc {
				return v("the description", want, x.desc)
			}
			if got, _ := x.det["field"].(string); got != x.field && !x.custom {
				return v("the field detail", x.field, got)
			}
			if got, _ := x.det["context"].(string); got != x.ctx {
				return v("the context detail", x.ctx, got)
			}
			if b, err := json.Marshal(x.value); err == nil {
				want, ok := render(l.ErrorFormat(), map[string]interface{}{"context": x.ctx, "description": x.desc, "value": string(b), "field": x.field})
				if ok && want != x.str {
					return v("the string", want, x.str)
				}
			}
			n++
			probe("text-" + x.typ)
		}
		return nil
	}
	for i := range p.Setup {
		if v := one(&p.Setup[i], h.Setup[i]); v != nil {
			return v, ""
		}
	}
	for t := range p.Tasks {
		for j := range p.Tasks[t] {
			if v := one(&p.Tasks[t][j], h.Tasks[t][j]); v != nil {
				return v, ""
			}
		}
	}
	for i := range p.After {
		if v := one(&p.After[i], h.After[i]); v != nil {
			return v, ""
		}
	}
	if n == 0 {
		return nil, "no errors"
	}
	return nil, ""
}

// ---- C21

func genErrors(r *gen.R, p *plan.Plan) {
	genSem(r, p)
	for t := range p.Tasks {
		for j := range p.Tasks[t] {
			if op := &p.Tasks[t][j]; op.Via == "imap" {
				op.Via = "str"
			}
		}
	}
}

// key identifies a reported error as the model does.
func (x *rec) key() string {
	var det []string
	for _, k := range model.Detail[x.typ] {
		s := show(x.det[k])
		if t, ok := x.det[k].(string); ok {
			s = t
		}
		switch k {
		case "min", "max", "multiple":
			s = model.Num(s)
		case "expected":
			s = model.Words(s)
		}
		det = append(det, s)
	}
	v := "?"
	if b, err := json.Marshal(x.value); err == nil {
		if d, err := model.Decode(string(b)); err == nil {
			v = model.Canonical(d)
		}
	}
	return model.ErrKey(x.typ, x.ctx, v, det...)
}

func checkErrors(p *plan.Plan) (*plan.Violation, string) {
	h := Exec(p, Opts{})
	if s := h.skip(); s != "" {
		return nil, s
	}
	o := newOracle(p)
	for i := range p.Setup {
		if ex := o.step(&p.Setup[i], false); ex.St != model.OK || h.Setup[i].Err != "" {
			return nil, "schema not compiled"
		}
	}
	if v := bad(p, h); v != nil {
		return v, ""
	}
	n, why := 0, "nothing decided"
	for t := range p.Tasks {
		for j := range p.Tasks[t] {
			op, r := &p.Tasks[t][j], h.Tasks[t][j]
			inst, ok := o.load(op, op.D)
			if !ok || o.slots[op.S] == nil || o.slots[op.S].s == nil || r.Err != "" {
				continue
			}
			es, st, w := o.slots[op.S].s.Errors(inst)
			if st != model.OK {
				why = w
				continue
			}
			n++
			got := map[string]int{}
			for i := range r.recs {
				x := &r.recs[i]
				got[x.key()]++
				if want := strings.TrimPrefix(x.ctx, "(root)."); x.field != want {
					return viol(p, "field", "error %s at %s has field %q", x.typ, x.ctx, x.field), ""
				}
				if strings.ReplaceAll(x.path, pathSep, ".") != x.ctx || !leads(x.path, inst) {
					return viol(p, "context", "the context of error %s at %s is %q with another delimiter, which leads nowhere in %s", x.typ, x.ctx, x.path, short(instText(p, op))), ""
				}
				probe("error-" + x.typ)
			}
			where := func() string {
				return fmt.Sprintf("\nschema %s\ninstance %s", short(p.Docs[0]), short(instText(p, op)))
			}
			if m := es.Missing(got); m != "" {
				return viol(p, "missing", "not reported: %s%s\nreported: %s", short(m), where(), short(strings.Join(keysSorted2(got), "; "))), ""
			}
			may := map[string]int{}
			es.Allowed(may)
			for _, k := range keysSorted2(got) {
				if got[k] > may[k] {
					return viol(p, "wrong", "reported %d times, at most %d times right: %s%s", got[k], may[k], short(k), where()), ""
				}
			}
			if yes, ok := es.Explains(got); !ok {
				probe("errors-not-separated")
			} else if !yes {
				return viol(p, "mixed", "no choice of alternatives has exactly these errors: %s%s", short(strings.Join(keysSorted2(got), "; ")), where()), ""
			}
		}
	}
	if n == 0 {
		return nil, why
	}
	return nil, ""
}

func keysSorted2(m map[string]int) []string {
	s := map[string]bool{}
	for k := range m {
		s[k] = true
	}
	return keysSorted(s)
}

func (l simLocale) False() string       { return l.text("False", l.DefaultLocale.False()) }
func (l simLocale) Required() string    { return l.text("Required", l.DefaultLocale.Required()) }
func (l simLocale) InvalidType() string { return l.text("InvalidType", l.DefaultLocale.InvalidType()) }
func (l simLocale) NumberAnyOf() string { return l.text("NumberAnyOf", l.DefaultLocale.NumberAnyOf()) }
func (l simLocale) NumberOneOf() string { return l.text("NumberOneOf", l.DefaultLocale.NumberOneOf()) }
func (l simLocale) NumberAllOf() string { return l.text("NumberAllOf", l.DefaultLocale.NumberAllOf()) }
func (l simLocale) NumberNot() string   { return l.text("NumberNot", l.DefaultLocale.NumberNot()) }
func (l simLocale) MissingDependency() string {
	return l.text("MissingDependency", l.DefaultLocale.MissingDependency())
}
func (l simLocale) Internal() string { return l.text("Internal", l.DefaultLocale.Internal()) }
func (l simLocale) Const() string    { return l.text("Const", l.DefaultLocale.Const()) }
func (l simLocale) Enum() string     { return l.text("Enum", l.DefaultLocale.Enum()) }
func (l simLocale) ArrayNoAdditionalItems() string {
	return l.text("ArrayNoAdditionalItems", l.DefaultLocale.ArrayNoAdditionalItems())
}
func (l simLocale) ArrayMinItems() string {
	return l.text("ArrayMinItems", l.DefaultLocale.ArrayMinItems())
}
func (l simLocale) ArrayMaxItems() string {
	return l.text("ArrayMaxItems", l.DefaultLocale.ArrayMaxItems())
}
func (l simLocale) Unique() string { return l.text("Unique", l.DefaultLocale.Unique()) }
func (l simLocale) ArrayContains() string {
	return l.text("ArrayContains", l.DefaultLocale.ArrayContains())
}
func (l simLocale) ArrayMinProperties() string {
	return l.text("ArrayMinProperties", l.DefaultLocale.ArrayMinProperties())
}
func (l simLocale) ArrayMaxProperties() string {
	return l.text("ArrayMaxProperties", l.DefaultLocale.ArrayMaxProperties())
}
func (l simLocale) AdditionalPropertyNotAllowed() string {
	return l.text("AdditionalPropertyNotAllowed", l.DefaultLocale.AdditionalPropertyNotAllowed())
}
func (l simLocale) InvalidPropertyName() string {
	return l.text("InvalidPropertyName", l.DefaultLocale.InvalidPropertyName())
}
func (l simLocale) StringGTE() string { return l.text("StringGTE", l.DefaultLocale.StringGTE()) }
func (l simLocale) StringLTE() string { return l.text("StringLTE", l.DefaultLocale.StringLTE()) }
func (l simLocale) DoesNotMatchPattern() string {
	return l.text("DoesNotMatchPattern", l.DefaultLocale.DoesNotMatchPattern())
}
func (l simLocale) DoesNotMatchFormat() string {
	return l.text("DoesNotMatchFormat", l.DefaultLocale.DoesNotMatchFormat())
}
func (l simLocale) MultipleOf() string  { return l.text("MultipleOf", l.DefaultLocale.MultipleOf()) }
func (l simLocale) NumberGTE() string   { return l.text("NumberGTE", l.DefaultLocale.NumberGTE()) }
func (l simLocale) NumberGT() string    { return l.text("NumberGT", l.DefaultLocale.NumberGT()) }
func (l simLocale) NumberLTE() string   { return l.text("NumberLTE", l.DefaultLocale.NumberLTE()) }
func (l simLocale) NumberLT() string    { return l.text("NumberLT", l.DefaultLocale.NumberLT()) }
func (l simLocale) ErrorFormat() string { return l.text("ErrorFormat", l.DefaultLocale.ErrorFormat()) }
func (l simLocale) ConditionThen() string {
	return l.text("ConditionThen", l.DefaultLocale.ConditionThen())
}
func (l simLocale) ConditionElse() string {
	return l.text("ConditionElse", l.DefaultLocale.ConditionElse())
}

// texts names the locale's text for each type of error.
var texts = map[string]func(l simLocale) string{
	"false":                           simLocale.False,
	"required":                        simLocale.Required,
	"invalid_type":                    simLocale.InvalidType,
	"number_any_of":                   simLocale.NumberAnyOf,
	"number_one_of":                   simLocale.NumberOneOf,
	"number_all_of":                   simLocale.NumberAllOf,
	"number_not":                      simLocale.NumberNot,
	"missing_dependency":              simLocale.MissingDependency,
	"internal":                        simLocale.Internal,
	"const":                           simLocale.Const,
	"enum":                            simLocale.Enum,
	"array_no_additional_items":       simLocale.ArrayNoAdditionalItems,
	"array_min_items":                 simLocale.ArrayMinItems,
	"array_max_items":                 simLocale.ArrayMaxItems,
	"unique":                          simLocale.Unique,
	"contains":                        simLocale.ArrayContains,
	"array_min_properties":            simLocale.ArrayMinProperties,
	"array_max_properties":            simLocale.ArrayMaxProperties,
	"additional_property_not_allowed": simLocale.AdditionalPropertyNotAllowed,
	"invalid_property_name":           simLocale.InvalidPropertyName,
	"string_gte":                      simLocale.StringGTE,
	"string_lte":                      simLocale.StringLTE,
	"pattern":                         simLocale.DoesNotMatchPattern,
	"format":                          simLocale.DoesNotMatchFormat,
	"multiple_of":                     simLocale.MultipleOf,
	"number_gte":                      simLocale.NumberGTE,
	"number_gt":                       simLocale.NumberGT,
	"number_lte":                      simLocale.NumberLTE,
	"number_lt":                       simLocale.NumberLT,
	"condition_then":                  simLocale.ConditionThen,
	"condition_else":                  simLocale.ConditionElse,
}
