package harness

import (
	"fmt"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
)

// interfere lets another loader be used before: it knows other documents under
// the URLs the history uses, or loads them while the servers hold other content.
func interfere(r *gen.R, p *plan.Plan) {
	var urls []string
	seen := map[string]bool{}
	add := func(u string) {
		u, _ = model.SplitFrag(u)
		if u != "" && !seen[u] {
			seen[u] = true
			urls = append(urls, u)
		}
	}
	for _, rs := range p.Res {
		add(rs.URL)
	}
	for _, op := range p.Setup {
		if op.K == "reg" {
			add(op.URL)
		}
	}
	if len(urls) == 0 {
		return
	}
	nd, nr := len(p.Docs), len(p.Res)
	alt := func() int {
		switch r.N(6) {
		case 0:
			if nd > 0 {
				return r.N(nd)
			}
		case 1:
			return addDoc(p, p.Res[:nr][max(0, r.N(nr+1)-1)%max(nr, 1)].Body)
		case 2:
			return addDoc(p, `{"enum":["other"],"required":["other"]}`)
		case 3:
			return addDoc(p, `{"not":{}}`)
		case 4:
			return addDoc(p, fmt.Sprintf(`{"$schema":%q}`, model.SchemaURL([]model.Draft{model.D4, model.D6, model.D7}[r.N(3)])+"#"))
		}
		return addDoc(p, `{}`)
	}
	if nr == 0 {
		alt = func() int { return addDoc(p, r.S(`{}`, `{"not":{}}`, `{"enum":["other"]}`)) }
	}
	inst := addDoc(p, `{"a":1}`)
	use := func(l, k int, u string) {
		via := "ref"
		for _, rs := range p.Res {
			if rs.URL == u && (rs.Store == "fs" || rs.Store == "fs0" || rs.Store == "fs1") {
				via = "reffs"
			}
		}
		p.Pre = append(p.Pre, plan.Op{K: "compile", L: l, URL: u, Via: via, S: 40 + k}, plan.Op{K: "validate", S: 40 + k, D: inst})
		if r.P(30) {
			d := addDoc(p, fmt.Sprintf(`{"$schema":%q,"title":"t","properties":{}}`, u))
			p.Pre = append(p.Pre, plan.Op{K: "reg", L: l, URL: fmt.Sprintf("http://pre.test/%d", k), D: d})
		}
	}
	n := 1 + r.N(2)
	for k := 0; k < n; k++ {
		l := len(p.Loaders)
		p.Loaders = append(p.Loaders, plan.LoaderSpec{Auto: r.P(80), Draft: int(pickDraft(r)), Validate: r.P(50)})
		var back []plan.Op
		for _, u := range urls {
			if r.P(30) {
				continue
			}
			if r.P(50) {
				p.Pre = append(p.Pre, plan.Op{K: "reg", L: l, URL: u, D: alt()})
				continue
			}
			for _, rs := range p.Res[:nr] {
				if rs.URL == u {
					p.Pre = append(p.Pre, plan.Op{K: "change", URL: u, Name: rs.Store, D: alt()})
					back = append(back, plan.Op{K: "change", URL: u, Name: rs.Store, D: addDoc(p, rs.Body)})
				}
			}
		}
		for j, u := range urls {
			if r.P(60) {
				use(l, 8*k+j%8, u)
			}
		}
		p.Pre = append(p.Pre, back...)
	}
}
