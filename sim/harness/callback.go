package harness

import (
	gjs "github.com/xeipuuv/gojsonschema"

	"verifsim/plan"
	"verifsim/rt"
)

const maxCalls = 32

var (
	curEnv    *env
	callsOn   bool
	callCount [maxCalls]int
	curRes    [rt.MaxTasks]*OpRes
	actCount  [rt.MaxTasks]int // callbacks that panicked or failed
)

// nested is the result of a library call made inside a callback.
type nested struct {
	call, sub int
	sig       string
}

//go:norace
func callsOff() { callsOn = false }

//go:norace
func setRes(r *OpRes) { curRes[taskIdx()] = r }

//go:norace
func acts() int { return actCount[taskIdx()] }

//go:norace
func cbReset() { cbDepth[taskIdx()] = 0 }

//go:norace
func cbEnter() bool {
	t := taskIdx()
	if cbDepth[t] > 1 {
		return false
	}
	cbDepth[t]++
	return true
}

//go:norace
func cbLeave() { cbDepth[taskIdx()]-- }

// due counts a firing of call i and tells whether it is one that acts.
//
//go:norace
func due(i int, c *plan.Call) bool {
	n := callCount[i]
	callCount[i]++
	if n < c.From || c.Times > 0 && n >= c.From+c.Times {
		return false
	}
	if c.Act != "" {
		actCount[taskIdx()]++
	}
	if r := curRes[taskIdx()]; r != nil {
		r.CBs++
		if c.Act != "" && r.CBAct != "panic" {
			r.CBAct = c.Act
		}
	}
	rt.Note(c.Key)
	return true
}

//go:norace
func (e *env) addNested(n nested) {
	if len(e.nested) < cap(e.nested) {
		e.nested = append(e.nested, n)
	}
}

// fire is called by every callback the library invokes.
func (e *env) fire(key string) error {
	if !callsOn {
		return nil
	}
	for i := range e.p.Calls {
		c := &e.p.Calls[i]
		if i >= maxCalls || sub(c.Key) != key || !cbEnter() {
			continue
		}
		err := e.act(i, c)
		if err != nil {
			return err
		}
	}
	return nil
}

func (e *env) act(i int, c *plan.Call) error {
	defer cbLeave()
	if !due(i, c) {
		return nil
	}
	for k := range c.Sub {
		var r OpRes
		n := acts()
		e.do(&c.Sub[k], &r)
		r.Done = true
		if acts() != n {
			continue // disturbed itself
		}
		e.addNested(nested{i, k, r.sig()})
	}
	switch c.Act {
	case "panic":
		panic(cbPanic{})
	case "err":
		return errCallback
	}
	return nil
}

func fireIO(kind, url string) error {
	if !callsOn {
		return nil
	}
	return curEnv.fire(kind + url)
}

type cbChecker struct {
	e    *env
	name string
}

func (c *cbChecker) IsFormat(v interface{}) bool {
	rt.Y(siteCB)
	c.e.fire("fmt:" + c.name)
	return checkers[c.name](v)
}

// cbLocale calls back for every text it is asked for.
type cbLocale struct{ gjs.DefaultLocale }

func cbText(s string) string {
	rt.Y(siteCB)
	curEnv.fire("locale")
	return s + "{{verifcb}}"
}

func (l cbLocale) False() string               { return cbText(l.DefaultLocale.False()) }
func (l cbLocale) Required() string            { return cbText(l.DefaultLocale.Required()) }
func (l cbLocale) InvalidType() string         { return cbText(l.DefaultLocale.InvalidType()) }
func (l cbLocale) NumberAnyOf() string         { return cbText(l.DefaultLocale.NumberAnyOf()) }
func (l cbLocale) NumberOneOf() string         { return cbText(l.DefaultLocale.NumberOneOf()) }
func (l cbLocale) NumberAllOf() string         { return cbText(l.DefaultLocale.NumberAllOf()) }
func (l cbLocale) NumberNot() string           { return cbText(l.DefaultLocale.NumberNot()) }
func (l cbLocale) Const() string               { return cbText(l.DefaultLocale.Const()) }
func (l cbLocale) Enum() string                { return cbText(l.DefaultLocale.Enum()) }
func (l cbLocale) DoesNotMatchFormat() string  { return cbText(l.DefaultLocale.DoesNotMatchFormat()) }
func (l cbLocale) DoesNotMatchPattern() string { return cbText(l.DefaultLocale.DoesNotMatchPattern()) }
func (l cbLocale) ErrorFormat() string         { return cbText(l.DefaultLocale.ErrorFormat()) }
