package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"verifsim/plan"
)

type minimiser struct {
	race  bool
	class string
	until time.Time
	tries int
}

func clonePlan(p *plan.Plan) *plan.Plan {
	b, _ := json.Marshal(p)
	var q plan.Plan
	json.Unmarshal(b, &q)
	return &q
}

func (m *minimiser) late() bool { return time.Now().After(m.until) }

// fails tells which of the candidates shows the violation first.
func (m *minimiser) first(cands []*plan.Plan) int {
	const par = 8
	for i := 0; i < len(cands); i += par {
		if m.late() {
			return -1
		}
		n := len(cands) - i
		if n > par {
			n = par
		}
		ok := make([]bool, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			wg.Add(1)
			m.tries++
			go func(k int) {
				defer wg.Done()
				v, _, _ := try(cands[i+k], m.race, fmt.Sprintf("m%d", k))
				ok[k] = v != nil && v.Class == m.class
			}(k)
		}
		wg.Wait()
		for k := range ok {
			if ok[k] {
				return i + k
			}
		}
	}
	return -1
}

// list removes as many elements of a list as possible.
func (m *minimiser) list(p *plan.Plan, size func(*plan.Plan) int, drop func(*plan.Plan, int, int)) *plan.Plan {
	for n := size(p); n > 0 && !m.late(); {
		chunk := n
		changed := false
		for chunk >= 1 && !m.late() {
			var cands []*plan.Plan
			total := size(p)
			for a := 0; a < total; a += chunk {
				b := a + chunk
				if b > total {
					b = total
				}
				q := clonePlan(p)
				drop(q, a, b)
				cands = append(cands, q)
			}
			if i := m.first(cands); i >= 0 {
				p = cands[i]
				changed = true
				if chunk > size(p) {
					chunk = size(p)
				}
				continue
			}
			chunk /= 2
		}
		n = size(p)
		if !changed || n == 0 {
			break
		}
	}
	return p
}

func (m *minimiser) minimise(p *plan.Plan, rec *plan.Record) *plan.Plan {
	p = clonePlan(p)
	if q := clonePlan(p); q.Sched.MapSeed != 0 {
		q.Sched.MapSeed = 0
		if m.first([]*plan.Plan{q}) == 0 {
			p = q
		}
	}
	ops := func(get func(*plan.Plan) *[]plan.Op) {
		p = m.list(p, func(q *plan.Plan) int { return len(*get(q)) }, func(q *plan.Plan, a, b int) {
			l := get(q)
			*l = append((*l)[:a:a], (*l)[b:]...)
		})
	}
	for round := 0; round < 2; round++ {
		for t := len(p.Tasks) - 1; t >= 0 && t < len(p.Tasks); t-- {
			q := clonePlan(p)
			q.Tasks = append(q.Tasks[:t:t], q.Tasks[t+1:]...)
			if m.first([]*plan.Plan{q}) == 0 {
				p = q
			}
		}
		ops(func(q *plan.Plan) *[]plan.Op { return &q.Pre })
		ops(func(q *plan.Plan) *[]plan.Op { return &q.After })
		for t := range p.Tasks {
			ops(func(q *plan.Plan) *[]plan.Op { return &q.Tasks[t] })
		}
		ops(func(q *plan.Plan) *[]plan.Op { return &q.Setup })
		p = m.list(p, func(q *plan.Plan) int { return len(q.Faults) }, func(q *plan.Plan, a, b int) {
			q.Faults = append(q.Faults[:a:a], q.Faults[b:]...)
		})
		p = m.list(p, func(q *plan.Plan) int { return len(q.Calls) }, func(q *plan.Plan, a, b int) {
			q.Calls = append(q.Calls[:a:a], q.Calls[b:]...)
		})
		for c := range p.Calls {
			ops(func(q *plan.Plan) *[]plan.Op { return &q.Calls[c].Sub })
		}
		p = m.list(p, func(q *plan.Plan) int { return len(q.Res) }, func(q *plan.Plan, a, b int) {
			q.Res = append(q.Res[:a:a], q.Res[b:]...)
		})
	}
	p = m.schedule(p)
	p = m.docs(p)
	p = m.schedule(p)
	// unused documents
	used := map[int]bool{}
	var mark func([]plan.Op)
	mark = func(l []plan.Op) {
		for _, o := range l {
			used[o.D], used[o.N] = true, true
			for _, d := range o.Ds {
				used[d] = true
			}
			mark(o.Sub)
		}
	}
	mark(p.Pre)
	mark(p.Setup)
	mark(p.After)
	for _, t := range p.Tasks {
		mark(t)
	}
	for _, c := range p.Calls {
		mark(c.Sub)
	}
	q := clonePlan(p)
	for i := range q.Docs {
		if !used[i] {
			q.Docs[i] = "null"
		}
	}
	if m.first([]*plan.Plan{q}) == 0 {
		p = q
	}
	return p
}

// schedule makes the scheduling decisions explicit and removes most of them.
func (m *minimiser) schedule(p *plan.Plan) *plan.Plan {
	if len(p.Tasks) < 2 || m.late() {
		return p
	}
	if !p.Sched.Explicit {
		v, rec, _ := try(p, m.race, "sw")
		if v == nil || rec == nil {
			return p
		}
		q := clonePlan(p)
		q.Sched.Explicit = true
		q.Sched.Switches = rec.Switches
		if m.first([]*plan.Plan{q}) != 0 {
			return p
		}
		p = q
	}
	return m.list(p, func(q *plan.Plan) int { return len(q.Sched.Switches) }, func(q *plan.Plan, a, b int) {
		q.Sched.Switches = append(q.Sched.Switches[:a:a], q.Sched.Switches[b:]...)
	})
}

// docs shrinks the JSON texts.
func (m *minimiser) docs(p *plan.Plan) *plan.Plan {
	for i := range p.Docs {
		p = m.text(p, func(q *plan.Plan) *string { return &q.Docs[i] })
	}
	for i := range p.Res {
		p = m.text(p, func(q *plan.Plan) *string { return &q.Res[i].Body })
	}
	return p
}

func (m *minimiser) text(p *plan.Plan, at func(*plan.Plan) *string) *plan.Plan {
	for !m.late() {
		var v interface{}
		old := *at(p)
		if json.Unmarshal([]byte(old), &v) != nil {
			return p
		}
		var cands []*plan.Plan
		for _, w := range smaller(v) {
			b, err := json.Marshal(w)
			if err != nil || len(b) >= len(old) {
				continue
			}
			q := clonePlan(p)
			*at(q) = string(b)
			cands = append(cands, q)
			if len(cands) >= 64 {
				break
			}
		}
		i := m.first(cands)
		if i < 0 {
			return p
		}
		p = cands[i]
	}
	return p
}

// smaller lists values with one part removed.
func smaller(v interface{}) (out []interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k := range x {
			c := map[string]interface{}{}
			for j, e := range x {
				if j != k {
					c[j] = e
				}
			}
			out = append(out, c)
		}
		for k := range x {
			for _, s := range smaller(x[k]) {
				c := map[string]interface{}{}
				for j, e := range x {
					c[j] = e
				}
				c[k] = s
				out = append(out, c)
			}
		}
	case []interface{}:
		for k := range x {
			c := append(append([]interface{}{}, x[:k]...), x[k+1:]...)
			out = append(out, c)
		}
		for k := range x {
			for _, s := range smaller(x[k]) {
				c := append([]interface{}{}, x...)
				c[k] = s
				out = append(out, c)
			}
		}
	}
	return
}

func (m *minimiser) summary(a, b *plan.Plan) string {
	n := func(p *plan.Plan) (ops, sw int) {
		ops = len(p.Pre) + len(p.Setup) + len(p.After)
		for _, t := range p.Tasks {
			ops += len(t)
		}
		return ops, len(p.Sched.Switches)
	}
	o1, _ := n(a)
	o2, s2 := n(b)
	return fmt.Sprintf("operations %d -> %d, faults %d -> %d, resources %d -> %d, explicit switches %d, %d replays", o1, o2, len(a.Faults), len(b.Faults), len(a.Res), len(b.Res), s2, m.tries)
}
