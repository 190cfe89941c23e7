// Command instr rewrites a copy of the library under test so that every source
// of nondeterminism in it goes through verifsim/rt: a yield point before every
// statement, map iteration, sync primitives, goroutines and the clock. It also
// generates VerifReset, which re-runs package initialisation so that each
// simulated run starts from the state of a fresh process. It writes the
// rewritten files and an overlay file for go build; /repo is not touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"go/version"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

var (
	repo   = flag.String("repo", "/repo", "library source")
	out    = flag.String("out", "", "output directory")
	level  = flag.Int("level", 3, "3 = everything, 2 = no map rewriting, 1 = function entries only")
	simDir = flag.String("sim", "", "simulator module directory (for go list)")
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type edit struct {
	off, end int
	text     string
	seq      int
}

type fileEd struct {
	name  string
	src   []byte
	f     *ast.File
	edits []edit
	tail  bytes.Buffer
	// the name under which the file imports a package whose use was replaced
	syncUsed,
	timeUsed,
	mapsUsed string
}

func (fe *fileEd) ins(off int, s string) {
	fe.edits = append(fe.edits, edit{off, off, s, len(fe.edits)})
}
func (fe *fileEd) rep(off, end int, s string) {
	fe.edits = append(fe.edits, edit{off, end, s, len(fe.edits)})
}

type listed struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	DepOnly                 bool
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles", "github.com/xeipuuv/gojsonschema")
	cmd.Dir = *simDir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkg listed
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[l.ImportPath] = l.Export
		if l.ImportPath == "github.com/xeipuuv/gojsonschema" {
			pkg = l
		}
	}
	if pkg.Dir == "" {
		die("package not found")
	}
	overlay := map[string]string{}
	site := 8
	var sites []string

	fset := token.NewFileSet()
	var fes []*fileEd
	var files []*ast.File
	for _, g := range pkg.GoFiles {
		p := filepath.Join(pkg.Dir, g)
		src, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		fes = append(fes, &fileEd{name: g, src: src, f: f})
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Error: func(error) {},
	}
	tpkg, err := conf.Check(pkg.ImportPath, fset, files, info)
	if err != nil {
		die("type check: %v", err)
	}

	initN := 0
	var inits []string
	fileOf := func(pos token.Pos) *fileEd {
		name := fset.Position(pos).Filename
		for _, fe := range fes {
			if filepath.Join(pkg.Dir, fe.name) == name {
				return fe
			}
		}
		return nil
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	sh := newShared(files, info, tpkg)

	for _, fe := range fes {
		fe := fe
		text := func(n ast.Node) string { return string(fe.src[off(n.Pos()):off(n.End())]) }
		mkSite := func(p token.Pos, fn string) string {
			pos := fset.Position(p)
			sites = append(sites, fmt.Sprintf("%s:%d", fe.name, pos.Line))
			site++
			return fmt.Sprintf("verifrt.%s(%d);", fn, site-1)
		}
		newSite := func(p token.Pos) string { return mkSite(p, "Y") }
		gotos := false // declarations must not be jumped over
		ast.Inspect(fe.f, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.GOTO {
				gotos = true
			}
			return true
		})
		stmts := func(list []ast.Stmt) {
			hot := false
			for _, s := range list {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				was := hot
				hot = sh.touches(s)
				fn := "Y"
				if hot || was {
					fn = "H"
				}
				y := mkSite(s.Pos(), fn)
				t := s
				for {
					l, ok := t.(*ast.LabeledStmt)
					if !ok {
						break
					}
					t = l.Stmt
				}
				if f, ok := t.(*ast.ForStmt); ok && !gotos {
					y += fmt.Sprintf("verifl%d := int32(0);", site)
					fe.ins(off(f.Body.Lbrace)+1, fmt.Sprintf("verifrt.Loop(&verifl%d);", site))
				}
				fe.ins(off(s.Pos()), y)
			}
		}
		isPkg := func(id *ast.Ident, path string) bool {
			pn, ok := info.Uses[id].(*types.PkgName)
			return ok && pn.Imported().Path() == path
		}
		// channel operations in select clauses, and those that yield two values
		var labels []*ast.LabeledStmt
		comm, two := map[ast.Node]bool{}, map[ast.Node]bool{}
		ast.Inspect(fe.f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.LabeledStmt:
				labels = append(labels, x)
			case *ast.CommClause:
				switch s := x.Comm.(type) {
				case *ast.SendStmt:
					comm[s] = true
				case *ast.ExprStmt:
					comm[ast.Unparen(s.X)] = true
				case *ast.AssignStmt:
					comm[ast.Unparen(s.Rhs[0])] = true
				}
			case *ast.AssignStmt:
				if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
					two[ast.Unparen(x.Rhs[0])] = true
				}
			case *ast.ValueSpec:
				if len(x.Names) == 2 && len(x.Values) == 1 {
					two[ast.Unparen(x.Values[0])] = true
				}
			}
			return true
		})
		ast.Inspect(fe.f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SelectStmt:
				def := false
				for _, c := range x.Body.List {
					cc := c.(*ast.CommClause)
					if cc.Comm == nil {
						def = true
					} else {
						fe.ins(off(cc.Colon)+1, "verifrt.ChanWake();")
					}
				}
				if !def && *level >= 2 {
					l := fmt.Sprintf("verifsel%d", site)
					at := off(x.Pos())
					for _, lb := range labels {
						if lb.Stmt == ast.Stmt(x) {
							at = off(lb.Pos())
						}
					}
					fe.ins(at, l+":")
					fe.ins(off(x.Body.Rbrace), ";default: verifrt.ChanBlock(); goto "+l+"\n")
				}
			case *ast.FuncDecl:
				if x.Body == nil {
					return false
				}
				if *level == 1 {
					if len(x.Body.List) > 0 {
						fe.ins(off(x.Body.List[0].Pos()), newSite(x.Body.List[0].Pos()))
					}
				}
				if x.Recv == nil && x.Name.Name == "init" {
					nm := fmt.Sprintf("verifInit%d", initN)
					initN++
					inits = append(inits, nm)
					fe.rep(off(x.Name.Pos()), off(x.Name.End()), nm)
					fmt.Fprintf(&fe.tail, "\nfunc init() { %s() }\n", nm)
				}
			case *ast.BlockStmt:
				if *level >= 2 {
					stmts(x.List)
				}
			case *ast.CaseClause:
				if *level >= 2 {
					stmts(x.Body)
				}
			case *ast.CommClause:
				if *level >= 2 {
					stmts(x.Body)
				}
			case *ast.ForStmt:
				if *level >= 2 && len(x.Body.List) == 0 {
					fe.ins(off(x.Body.Lbrace)+1, newSite(x.Body.Lbrace))
				}
			case *ast.RangeStmt:
				if *level < 3 {
					break
				}
				tv, ok := info.Types[x.X]
				if !ok {
					break
				}
				if c, ok := tv.Type.Underlying().(*types.Chan); ok && c.Dir() != types.SendOnly {
					fe.ins(off(x.X.Pos()), "verifrt.RangeChan(")
					fe.ins(off(x.X.End()), ")")
					break
				}
				if !isMap(tv.Type) {
					break
				}
				xs := text(x.X)
				start, end := off(x.For)+3, off(x.Body.Lbrace)
				blank := func(e ast.Expr) bool {
					if e == nil {
						return true
					}
					id, ok := e.(*ast.Ident)
					return ok && id.Name == "_"
				}
				it := fmt.Sprintf("verifit%d", site)
				site++
				sites = append(sites, fmt.Sprintf("%s:%d(range)", fe.name, fset.Position(x.Pos()).Line))
				kb, vb := blank(x.Key), blank(x.Value)
				var h string
				switch {
				case kb && vb:
					h = fmt.Sprintf(" %s := verifrt.Iter0(%s); %s.Next(nil, nil); ", it, xs, it)
				case x.Tok == token.ASSIGN:
					k, v := "nil", "nil"
					if !kb {
						k = "&(" + text(x.Key) + ")"
					}
					if !vb {
						v = "&(" + text(x.Value) + ")"
					}
					h = fmt.Sprintf(" %s := verifrt.Iter0(%s); %s.Next(%s, %s); ", it, xs, it, k, v)
				case vb:
					k := text(x.Key)
					h = fmt.Sprintf(" %s, %s := verifrt.IterK(%s); %s.Next(&%s, nil); ", k, it, xs, it, k)
				case kb:
					v := text(x.Value)
					h = fmt.Sprintf(" %s, %s := verifrt.IterV(%s); %s.Next(nil, &%s); ", v, it, xs, it, v)
				default:
					k, v := text(x.Key), text(x.Value)
					h = fmt.Sprintf(" %s, %s, %s := verifrt.IterKV(%s); %s.Next(&%s, &%s); ", k, v, it, xs, it, k, v)
				}
				// keep line structure
				h += strings.Repeat("\n", bytes.Count(fe.src[start:end], []byte("\n")))
				fe.rep(start, end, h)
			case *ast.SelectorExpr:
				id, ok := x.X.(*ast.Ident)
				if !ok {
					break
				}
				if isPkg(id, "sync") {
					switch x.Sel.Name {
					case "Mutex", "RWMutex", "Once", "WaitGroup", "Cond", "NewCond", "OnceFunc", "OnceValue", "OnceValues":
						fe.rep(off(id.Pos()), off(id.End()), "verifrt")
						fe.syncUsed = id.Name
					}
				}
				if isPkg(id, "maps") && *level >= 3 {
					switch x.Sel.Name {
					case "Keys", "Values", "All":
						fe.rep(off(x.Pos()), off(x.End()), "verifrt.Maps"+x.Sel.Name)
						fe.mapsUsed = id.Name
					}
				}
				if isPkg(id, "time") {
					switch x.Sel.Name {
					case "Now", "Since", "Sleep":
						fe.rep(off(id.Pos()), off(id.End()), "verifrt")
						fe.timeUsed = id.Name
					}
				}
			case *ast.SendStmt:
				if !comm[x] {
					fe.ins(off(x.Pos()), "verifrt.Send(")
					fe.rep(off(x.Arrow), off(x.Arrow)+2, ",")
					fe.ins(off(x.End()), ")")
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW && !comm[x] {
					fn := "verifrt.Recv("
					if two[x] {
						fn = "verifrt.Recv2("
					}
					fe.rep(off(x.OpPos), off(x.OpPos)+2, fn)
					fe.ins(off(x.End()), ")")
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok {
					if b, ok := info.Uses[id].(*types.Builtin); ok {
						switch {
						case b.Name() == "close" && len(x.Args) == 1:
							fe.rep(off(id.Pos()), off(id.End()), "verifrt.Close")
						case b.Name() == "make" && len(x.Args) == 1:
							if tv, ok := info.Types[x.Args[0]]; ok {
								if _, ok := tv.Type.Underlying().(*types.Chan); ok {
									fe.ins(off(x.Args[0].End()), ", 1")
								}
							}
						}
					}
				}
				sel, ok := x.Fun.(*ast.SelectorExpr)
				if !ok || sel.Sel.Name != "MapKeys" || len(x.Args) != 0 || *level < 3 {
					break
				}
				if tv, ok := info.Types[sel.X]; ok && tv.Type.String() == "reflect.Value" {
					fe.ins(off(x.Pos()), "verifrt.MapKeysOf(")
					fe.ins(off(x.End()), ")")
				}
			case *ast.GoStmt:
				fe.rep(off(x.Go), off(x.Go)+2, "")
				call := x.Call
				// evaluate function and arguments now, run later
				fe.ins(off(call.Pos()), "verifrt.GoCall(")
				fe.rep(off(call.Lparen), off(call.Lparen)+1, ",")
				if len(call.Args) == 0 {
					fe.rep(off(call.Lparen), off(call.Lparen)+1, "")
				}
			}
			return true
		})
		if fe.syncUsed != "" {
			fmt.Fprintf(&fe.tail, "\nvar _ %s.Locker\n", fe.syncUsed)
		}
		if fe.mapsUsed != "" {
			fmt.Fprintf(&fe.tail, "\nvar _ = %s.Clone[map[int]int]\n", fe.mapsUsed)
		}
		if fe.timeUsed != "" {
			fmt.Fprintf(&fe.tail, "\nvar _ %s.Duration\n", fe.timeUsed)
		}
	}

	// package state reset
	inited := map[types.Object]bool{}
	var calls []string
	for i, in := range info.InitOrder {
		fe := fileOf(in.Rhs.Pos())
		rhs := string(fe.src[off(in.Rhs.Pos()):off(in.Rhs.End())])
		var lhs []string
		for _, o := range in.Lhs {
			inited[o] = true
			lhs = append(lhs, o.Name())
		}
		if strings.Contains(rhs, "regexp.MustCompile(") && len(rhs) < 400 && !strings.Contains(rhs, "func") {
			continue // immutable and costly
		}
		rhs = swapPkgs(fe, in.Rhs, info, off)
		fn := fmt.Sprintf("verifReset%d", i)
		fmt.Fprintf(&fe.tail, "\nfunc %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), rhs)
		calls = append(calls, fn+"()")
	}
	var zeros []string
	sc := tpkg.Scope()
	for _, nme := range sc.Names() {
		if v, ok := sc.Lookup(nme).(*types.Var); ok && !inited[v] {
			zeros = append(zeros, fmt.Sprintf("verifrt.Zero(&%s)", nme))
		}
	}
	var reset bytes.Buffer
	tag := langTag(*repo)
	fmt.Fprintf(&reset, "%s\npackage %s\n\nimport verifrt \"verifsim/rt\"\n\n", tag, tpkg.Name())
	fmt.Fprintf(&reset, "// VerifReset restores the package state of a fresh process.\nfunc VerifReset() {\n\tverifrt.Quiet(func() {\n")
	for _, z := range append(zeros, calls...) {
		fmt.Fprintf(&reset, "\t\t%s\n", z)
	}
	for _, in := range inits {
		fmt.Fprintf(&reset, "\t\t%s()\n", in)
	}
	fmt.Fprintf(&reset, "\t})\n}\n\n// VerifSites names the instrumented sites.\nvar VerifSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&reset, "\t%q,\n", s)
	}
	fmt.Fprintf(&reset, "}\n")

	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	write := func(name string, b []byte) string {
		p := filepath.Join(*out, name)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			die("%v", err)
		}
		return p
	}
	for _, fe := range fes {
		body := fe.apply()
		pkgEnd := off(fe.f.Name.End())
		// offsets before the package clause are unchanged: no edit precedes it
		var o bytes.Buffer
		o.WriteString(tag)
		fmt.Fprintf(&o, "//line %s:1\n", filepath.Join(pkg.Dir, fe.name))
		o.Write(dropBuildTags(body[:pkgEnd]))
		o.WriteString(";import verifrt \"verifsim/rt\";")
		o.Write(body[pkgEnd:])
		o.WriteString("\nvar _ = verifrt.Active\n")
		o.Write(fe.tail.Bytes())
		overlay[filepath.Join(pkg.Dir, fe.name)] = write(fe.name, o.Bytes())
	}
	overlay[filepath.Join(pkg.Dir, "zz_verif_reset.go")] = write("zz_verif_reset.go", reset.Bytes())

	// sync.Pool drops items at random under the race detector; make it drop
	// always so that detection is a function of the schedule alone.
	pool := filepath.Join(runtime.GOROOT(), "src/sync/pool.go")
	if g, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		pool = filepath.Join(strings.TrimSpace(string(g)), "src/sync/pool.go")
	}
	if src, err := os.ReadFile(pool); err == nil {
		const from = "if runtime_randn(4) == 0 {"
		if bytes.Count(src, []byte(from)) == 1 {
			src = bytes.Replace(src, []byte(from), []byte("if race.Enabled || runtime_randn(4) == 0 {"), 1)
			overlay[pool] = write("sync_pool.go", src)
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	write("overlay.json", j)
	fmt.Printf("instrumented %d files, %d sites, %d package variables reset\n", len(fes), len(sites), len(zeros)+len(calls))
}

// isMap tells whether t is a map type or a type parameter that is one.
func isMap(t types.Type) bool {
	if tp, ok := t.(*types.TypeParam); ok {
		i, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok || i.NumEmbeddeds() != 1 {
			return false
		}
		switch e := i.EmbeddedType(0).(type) {
		case *types.Union:
			if e.Len() != 1 {
				return false
			}
			_, ok = e.Term(0).Type().Underlying().(*types.Map)
		default:
			_, ok = e.Underlying().(*types.Map)
		}
		return ok
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// swapPkgs renders an initialiser with sync types replaced.
func swapPkgs(fe *fileEd, e ast.Expr, info *types.Info, off func(token.Pos) int) string {
	base := off(e.Pos())
	s := string(fe.src[base:off(e.End())])
	type r struct {
		a, b int
	}
	var rs []r
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := x.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					switch pn.Imported().Path() + "." + x.Sel.Name {
					case "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.WaitGroup", "sync.Cond", "sync.NewCond", "sync.OnceFunc", "sync.OnceValue", "sync.OnceValues", "time.Now", "time.Since", "time.Sleep":
						rs = append(rs, r{off(id.Pos()) - base, off(id.End()) - base})
					}
				}
			}
		}
		return true
	})
	for i := len(rs) - 1; i >= 0; i-- {
		s = s[:rs[i].a] + "verifrt" + s[rs[i].b:]
	}
	return s
}

func (fe *fileEd) apply() []byte {
	es := fe.edits
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		// insertions before replacements at the same offset
		ai, aj := es[i].end == es[i].off, es[j].end == es[j].off
		if ai != aj {
			return ai
		}
		return es[i].seq < es[j].seq
	})
	var o bytes.Buffer
	p := 0
	for _, e := range es {
		if e.off < p {
			continue // inside a replaced region
		}
		o.Write(fe.src[p:e.off])
		o.WriteString(e.text)
		p = e.end
	}
	o.Write(fe.src[p:])
	return o.Bytes()
}

// langTag selects the language version of the instrumented files: the one the
// module declares, but at least go1.21, which the calls of the simulator need
// and which gives loop variables the meaning they have in older versions.
func langTag(dir string) string {
	b, _ := os.ReadFile(filepath.Join(dir, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) >= 2 && f[0] == "go" {
			if version.Compare("go"+f[1], "go1.21") >= 0 {
				return ""
			}
		}
	}
	return "//go:build go1.21\n"
}

func dropBuildTags(b []byte) []byte {
	lines := strings.Split(string(b), "\n")
	for i, l := range lines {
		if strings.HasPrefix(strings.TrimSpace(l), "//go:build") || strings.HasPrefix(strings.TrimSpace(l), "// +build") {
			lines[i] = "//"
		}
	}
	return []byte(strings.Join(lines, "\n"))
}
