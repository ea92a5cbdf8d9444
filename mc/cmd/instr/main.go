// Command instr rewrites the Go packages of the working tree so that every
// source of nondeterminism (goroutine creation, channel operations, select,
// reflect.Select, mutexes, math/rand, map iteration) goes through package zvs,
// the controlled scheduler. It judges nothing: it works on whatever source is
// in the tree and emits an overlay for `go build -overlay`.
//
//	instr -repo /repo/src -out DIR -overlay FILE.json [-zvs DIR] [-driver DIR]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	Module     *struct{ Path, Dir string }
}

var (
	repo    = flag.String("repo", "/repo/src", "module root")
	out     = flag.String("out", "", "output directory")
	ovfile  = flag.String("overlay", "", "overlay json to write")
	ovin    = flag.String("inoverlay", "", "overlay used for the listing (generated parser)")
	zvsDir  = flag.String("zvs", "/verif/overlay/zvs", "")
	drvDir  = flag.String("driver", "/verif/overlay/driver", "")
	noinstr = flag.Bool("plain", false, "only add zvs and driver, without rewriting")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

type edit struct {
	pos, end int
	fn       func(r *rw) string
}

type rw struct {
	src   []byte
	base  int
	edits []edit
	fset  *token.FileSet
}

func (r *rw) off(p token.Pos) int { return r.fset.Position(p).Offset }

// text renders [from,to) with the edits lying inside it applied. skip is an
// edit index to ignore at top level (the edit being rendered).
func (r *rw) text(from, to int, skip int) string {
	var b strings.Builder
	cur := from
	i := sort.Search(len(r.edits), func(i int) bool { return r.edits[i].pos >= from })
	for ; i < len(r.edits); i++ {
		e := r.edits[i]
		if e.pos >= to {
			break
		}
		if i <= skip || e.pos < cur || e.end > to {
			continue
		}
		b.Write(r.src[cur:e.pos])
		b.WriteString(e.fn(r))
		cur = e.end
	}
	b.Write(r.src[cur:to])
	return b.String()
}

func main() {
	flag.Parse()
	overlay := map[string]string{}
	if *ovin != "" {
		var o struct{ Replace map[string]string }
		data, err := os.ReadFile(*ovin)
		if err != nil {
			die("%v", err)
		}
		if err := json.Unmarshal(data, &o); err != nil {
			die("%v", err)
		}
		overlay = o.Replace
	}
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,Standard,GoFiles,Imports,Module"}
	if *ovin != "" {
		args = append(args, "-overlay", *ovin)
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var errb bytes.Buffer
	cmd.Stderr = &errb
	data, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(data))
	var pkgs []*listPkg
	exports := map[string]string{}
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		pkgs = append(pkgs, p)
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	modPath := ""
	for _, p := range pkgs {
		if p.Name == "main" && p.Module != nil {
			modPath = p.Module.Path
		}
	}
	zvsPath := modPath + "/zvs"
	fset := token.NewFileSet()
	own := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	res := map[string]string{}
	for k, v := range overlay {
		res[k] = v
	}
	var order []string
	for _, p := range pkgs {
		if p.Module == nil || p.Module.Path != modPath || p.Standard {
			continue
		}
		order = append(order, p.ImportPath)
		instrument(p, fset, own, gc, overlay, res, zvsPath, modPath)
	}
	// zvs and driver
	addDir := func(dir, target string) {
		ents, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				res[filepath.Join(target, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
	}
	addDir(*zvsDir, filepath.Join(*repo, "zvs"))
	addDir(*drvDir, *repo)
	// reset-all, in package main
	var b strings.Builder
	b.WriteString("package main\n\n")
	for i, ip := range order {
		if ip == modPath {
			continue
		}
		fmt.Fprintf(&b, "import zp%d %q\n", i, ip)
	}
	b.WriteString("\nfunc zvsResetAll() {\n")
	for i, ip := range order {
		if ip == modPath {
			b.WriteString("\tZvsReset()\n")
		} else {
			fmt.Fprintf(&b, "\tzp%d.ZvsReset()\n", i)
		}
	}
	b.WriteString("}\n")
	rf := filepath.Join(*out, "zz_reset.go")
	os.WriteFile(rf, []byte(b.String()), 0o644)
	res[filepath.Join(*repo, "zz_reset.go")] = rf
	o, _ := json.MarshalIndent(map[string]any{"Replace": res}, "", " ")
	if err := os.WriteFile(*ovfile, o, 0o644); err != nil {
		die("%v", err)
	}
}

type chainImporter struct {
	own map[string]*types.Package
	gc  types.Importer
}

func (c chainImporter) Import(path string) (*types.Package, error) {
	if p, ok := c.own[path]; ok {
		return p, nil
	}
	return c.gc.Import(path)
}

var syncOK = map[string]bool{"Mutex": true, "RWMutex": true, "WaitGroup": true, "Once": true, "Locker": true}
var randOK = map[string]bool{"Intn": true, "Int": true, "Int31n": true, "Int63n": true, "Float64": true, "Perm": true, "Shuffle": true, "Seed": true}

func instrument(p *listPkg, fset *token.FileSet, own map[string]*types.Package, gc types.Importer,
	overlay, res map[string]string, zvsPath, modPath string) {
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		if filepath.IsAbs(f) {
			full = f
		}
		real := full
		if r, ok := overlay[full]; ok {
			real = r
		}
		src, err := os.ReadFile(real)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, full, src, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		srcs = append(srcs, src)
		names = append(names, full)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: chainImporter{own, gc}, Error: func(error) {}, GoVersion: "go1.21"}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type-check %s: %v", p.ImportPath, err)
	}
	own[p.ImportPath] = tp

	resetIdx := 0
	rws := make([]*rw, len(files))
	tails := make([]strings.Builder, len(files))
	fileOf := func(pos token.Pos) int {
		n := fset.Position(pos).Filename
		for i := range names {
			if names[i] == n {
				return i
			}
		}
		return 0
	}
	var initNames []string
	for i, af := range files {
		r := &rw{src: srcs[i], fset: fset}
		rws[i] = r
		if !*noinstr {
			collect(r, af, info, zvsPath)
		}
		isMain := p.ImportPath == modPath
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if isMain && fd.Name.Name == "main" {
				r.add(fd.Name.Pos(), fd.Name.End(), func(*rw) string { return "ZvsMain" })
			}
			if fd.Name.Name == "init" {
				nm := fmt.Sprintf("zvsUserInit%d", len(initNames))
				initNames = append(initNames, nm)
				r.add(fd.Name.Pos(), fd.Name.End(), func(*rw) string { return nm })
			}
		}
		sort.SliceStable(r.edits, func(a, b int) bool {
			if r.edits[a].pos != r.edits[b].pos {
				return r.edits[a].pos < r.edits[b].pos
			}
			return r.edits[a].end > r.edits[b].end
		})
	}
	// reset
	var calls []string
	inited := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			inited[v] = true
		}
	}
	for i, af := range files {
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name == "_" || inited[info.Defs[n]] {
						continue
					}
					fn := fmt.Sprintf("zvsReset%d", resetIdx)
					resetIdx++
					fmt.Fprintf(&tails[i], "func %s() { zvs.Zero(&%s) }\n", fn, n.Name)
					calls = append(calls, fn)
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		fi := fileOf(in.Rhs.Pos())
		r := rws[fi]
		var lhs []string
		blank := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		fn := fmt.Sprintf("zvsReset%d", resetIdx)
		resetIdx++
		fmt.Fprintf(&tails[fi], "func %s() { %s = %s }\n", fn, strings.Join(lhs, ", "),
			r.text(r.off(in.Rhs.Pos()), r.off(in.Rhs.End()), -1))
		calls = append(calls, fn)
	}
	for i, af := range files {
		r := rws[i]
		body := r.text(0, len(r.src), -1)
		// insert import on the package clause line
		pe := r.off(af.Name.End())
		// edits before the package clause do not exist
		body = body[:pe] + "; import zvs " + fmt.Sprintf("%q", zvsPath) + body[pe:]
		var t strings.Builder
		t.WriteString("\n\nvar _ = zvs.Used\n")
		for _, im := range af.Imports {
			nm := ""
			if im.Name != nil {
				nm = im.Name.Name
			}
			path := strings.Trim(im.Path.Value, `"`)
			keep := map[string]string{"os": "Getpid", "runtime": "GC", "time": "Now", "reflect": "TypeOf", "math/rand": "Intn"}
			if k, ok := keep[path]; ok && nm != "_" && nm != "." {
				if nm == "" {
					nm = path[strings.LastIndex(path, "/")+1:]
				}
				fmt.Fprintf(&t, "var _ = %s.%s\n", nm, k)
			}
		}
		t.WriteString(tails[i].String())
		if i == 0 {
			t.WriteString("\n// ZvsReset restores the package's variables to their initial state.\nfunc ZvsReset() {\n")
			for _, c := range calls {
				fmt.Fprintf(&t, "\t%s()\n", c)
			}
			for _, c := range initNames {
				fmt.Fprintf(&t, "\t%s()\n", c)
			}
			t.WriteString("}\n")
			if len(initNames) > 0 {
				t.WriteString("func init() {\n")
				for _, c := range initNames {
					fmt.Fprintf(&t, "\t%s()\n", c)
				}
				t.WriteString("}\n")
			}
		}
		body += t.String()
		rel, err := filepath.Rel(*repo, names[i])
		if err != nil {
			rel = strings.ReplaceAll(names[i], "/", "_")
		}
		o := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(o, []byte(body), 0o644); err != nil {
			die("%v", err)
		}
		res[names[i]] = o
	}
}

func (r *rw) add(pos, end token.Pos, fn func(*rw) string) {
	r.edits = append(r.edits, edit{r.off(pos), r.off(end), fn})
}

// inner renders a sub-node with nested edits, excluding the edit that spans
// exactly the same range as its owner (idx of owner found by position).
func (r *rw) node(n ast.Node) string {
	return r.text(r.off(n.Pos()), r.off(n.End()), -1)
}

// nodeSkip renders n but ignores an edit covering exactly n.
func (r *rw) nodeInner(n ast.Node) string { return r.node(n) }

func pkgOf(info *types.Info, e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

func isChan(info *types.Info, e ast.Expr) bool {
	t := info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func collect(r *rw, af *ast.File, info *types.Info, zvsPath string) {
	// which imports can be redirected
	usesOK := func(path string, ok map[string]bool) bool {
		good := true
		ast.Inspect(af, func(n ast.Node) bool {
			if s, isSel := n.(*ast.SelectorExpr); isSel && pkgOf(info, s.X) == path && !ok[s.Sel.Name] {
				good = false
			}
			return true
		})
		return good
	}
	for _, im := range af.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		if (path == "sync" && usesOK(path, syncOK)) || (path == "math/rand" && usesOK(path, randOK)) {
			nm := path[strings.LastIndex(path, "/")+1:]
			if im.Name != nil {
				nm = im.Name.Name
			}
			r.add(im.Pos(), im.End(), func(*rw) string { return fmt.Sprintf("%s %q", nm, zvsPath) })
		}
	}
	handled := map[ast.Node]bool{}
	two := map[ast.Expr]bool{}
	cnt := 0
	var walk func(n ast.Node) bool
	labels := map[ast.Stmt]string{}
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.LabeledStmt:
			labels[x.Stmt] = x.Label.Name
			switch st := x.Stmt.(type) {
			case *ast.SelectStmt:
				handled[st] = true
				r.add(x.Pos(), x.End(), func(r *rw) string { return genSelect(r, st, x.Label.Name+": ", info) })
			case *ast.RangeStmt:
				if g := genRange(r, st, x.Label.Name+": ", info, &cnt); g != nil {
					handled[st] = true
					r.add(x.Pos(), x.End(), g)
				}
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[ast.Unparen(x.Values[0])] = true
			}
		case *ast.SendStmt:
			if handled[x] {
				return true
			}
			r.add(x.Pos(), x.End(), func(r *rw) string {
				return "zvs.SendTo(" + r.node(x.Chan) + ")(" + r.node(x.Value) + ")"
			})
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !handled[x] {
				fn := "zvs.Recv("
				if two[x] {
					fn = "zvs.Recv2("
				}
				r.add(x.Pos(), x.End(), func(r *rw) string { return fn + r.node(x.X) + ")" })
			}
		case *ast.CallExpr:
			if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && len(x.Args) == 1 {
				if _, isB := info.Uses[id].(*types.Builtin); isB && isChan(info, x.Args[0]) {
					nm := map[string]string{"close": "Close", "len": "Len", "cap": "Cap"}[id.Name]
					if nm != "" {
						r.add(x.Fun.Pos(), x.Fun.End(), func(*rw) string { return "zvs." + nm })
					}
				}
			}
		case *ast.SelectorExpr:
			repl := map[string]string{
				"reflect.Select": "zvs.ReflectSelect", "os.Exit": "zvs.Exit",
				"runtime.NumGoroutine": "zvs.NumGoroutine", "runtime.GOMAXPROCS": "zvs.GOMAXPROCS",
				"runtime.Gosched": "zvs.Yield", "time.Sleep": "zvs.Sleep",
			}
			if p := pkgOf(info, x.X); p != "" {
				if t, ok := repl[p+"."+x.Sel.Name]; ok {
					r.add(x.Pos(), x.End(), func(*rw) string { return t })
				}
			}
		case *ast.GoStmt:
			cnt++
			k := cnt
			r.add(x.Pos(), x.End(), func(r *rw) string { return genGo(r, x, info, k) })
		case *ast.SelectStmt:
			if !handled[x] {
				r.add(x.Pos(), x.End(), func(r *rw) string { return genSelect(r, x, "", info) })
			}
			for _, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				switch s := cc.Comm.(type) {
				case *ast.SendStmt:
					handled[s] = true
				case *ast.ExprStmt:
					handled[ast.Unparen(s.X)] = true
				case *ast.AssignStmt:
					handled[ast.Unparen(s.Rhs[0])] = true
				}
			}
		case *ast.RangeStmt:
			if !handled[x] {
				if g := genRange(r, x, "", info, &cnt); g != nil {
					r.add(x.Pos(), x.End(), g)
				}
			}
		}
		return true
	}
	ast.Inspect(af, walk)
}

func genGo(r *rw, x *ast.GoStmt, info *types.Info, k int) string {
	call := x.Call
	if len(call.Args) == 0 {
		if _, ok := call.Fun.(*ast.FuncLit); ok {
			return "zvs.Go(" + r.node(call.Fun) + ")"
		}
	}
	var b strings.Builder
	b.WriteString("{ ")
	fun := r.node(call.Fun)
	isPkgFunc := false
	f := ast.Unparen(call.Fun)
	if ix, ok := f.(*ast.IndexExpr); ok {
		f = ix.X
	}
	switch fx := f.(type) {
	case *ast.Ident:
		_, isPkgFunc = info.Uses[fx].(*types.Func)
	case *ast.SelectorExpr:
		if pkgOf(info, fx.X) != "" {
			_, isPkgFunc = info.Uses[fx.Sel].(*types.Func)
		}
	}
	if !isPkgFunc {
		fmt.Fprintf(&b, "zf%d := %s; ", k, fun)
		fun = fmt.Sprintf("zf%d", k)
	}
	var args []string
	for i, a := range call.Args {
		tv := info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, r.node(a))
			continue
		}
		nm := fmt.Sprintf("za%d_%d", k, i)
		fmt.Fprintf(&b, "%s := %s; ", nm, r.node(a))
		args = append(args, nm)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	fmt.Fprintf(&b, "zvs.Go(func() { %s(%s%s) }) }", fun, strings.Join(args, ", "), ell)
	return b.String()
}

func genSelect(r *rw, x *ast.SelectStmt, label string, info *types.Info) string {
	var pre, body strings.Builder
	hasDef := false
	n := 0
	type cl struct {
		idx  int
		text string
	}
	var cls []cl
	var names []string
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		stm := ""
		if len(cc.Body) > 0 {
			stm = r.text(r.off(cc.Colon)+1, r.off(cc.Body[len(cc.Body)-1].End()), -1)
		}
		if cc.Comm == nil {
			hasDef = true
			cls = append(cls, cl{-1, stm})
			continue
		}
		v := fmt.Sprintf("zc%d", n)
		names = append(names, v)
		bind := ""
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "%s := zvs.CaseS(%s)(%s); ", v, r.node(s.Chan), r.node(s.Value))
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := zvs.CaseR(%s); ", v, r.node(u.X))
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := zvs.CaseR(%s); ", v, r.node(u.X))
			lhs := []string{}
			for _, l := range s.Lhs {
				lhs = append(lhs, r.node(l))
			}
			rhs := v + ".V"
			if len(lhs) == 2 {
				rhs += ", " + v + ".Ok"
			}
			bind = strings.Join(lhs, ", ") + " " + s.Tok.String() + " " + rhs + "; "
		}
		cls = append(cls, cl{n, " " + bind + stm})
		n++
	}
	def := "false"
	if hasDef {
		def = "true"
	}
	for i, c := range cls {
		head := fmt.Sprintf("case %d:", c.idx)
		if c.idx == -1 || (!hasDef && i == len(cls)-1) {
			head = "default:"
		}
		body.WriteString(head + c.text + "\n")
	}
	argl := ""
	for _, nm := range names {
		argl += ", " + nm
	}
	if len(cls) == 0 {
		return "zvs.BlockForever()"
	}
	return "{ " + pre.String() + label + "switch zvs.Sel(" + def + argl + ") {\n" + body.String() + "} }"
}

func genRange(r *rw, x *ast.RangeStmt, label string, info *types.Info, cnt *int) func(*rw) string {
	t := info.TypeOf(x.X)
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Chan:
		*cnt++
		k := *cnt
		return func(r *rw) string {
			body := r.text(r.off(x.Body.Lbrace)+1, r.off(x.Body.Rbrace), -1)
			bind := fmt.Sprintf("_, zok%d := zvs.Recv2(zch%d)", k, k)
			if x.Key != nil {
				key := r.node(x.Key)
				if x.Tok == token.DEFINE {
					bind = fmt.Sprintf("%s, zok%d := zvs.Recv2(zch%d)", key, k, k)
				} else {
					bind = fmt.Sprintf("var zok%d bool; %s, zok%d = zvs.Recv2(zch%d)", k, key, k, k)
				}
			}
			use := ""
			if x.Key != nil && x.Tok == token.DEFINE {
				use = "_ = " + r.node(x.Key) + "; "
			}
			return fmt.Sprintf("{ zch%d := %s; %sfor { %s; if !zok%d { break }; %s%s } }", k, r.node(x.X), label, bind, k, use, body)
		}
	case *types.Map:
		b, ok := u.Key().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsInteger|types.IsString|types.IsFloat) == 0 {
			return nil
		}
		*cnt++
		k := *cnt
		return func(r *rw) string {
			body := r.text(r.off(x.Body.Lbrace)+1, r.off(x.Body.Rbrace), -1)
			var bind strings.Builder
			isBlank := func(e ast.Expr) bool {
				id, ok := e.(*ast.Ident)
				return e == nil || (ok && id.Name == "_")
			}
			fmt.Fprintf(&bind, "zmv%d, zok%d := zm%d[zk%d]; if !zok%d { continue }; _ = zmv%d; ", k, k, k, k, k, k)
			tok := x.Tok.String()
			if x.Key != nil && !isBlank(x.Key) {
				fmt.Fprintf(&bind, "%s %s zk%d; ", r.node(x.Key), tok, k)
				if x.Tok == token.DEFINE {
					fmt.Fprintf(&bind, "_ = %s; ", r.node(x.Key))
				}
			}
			if x.Value != nil && !isBlank(x.Value) {
				fmt.Fprintf(&bind, "%s %s zmv%d; ", r.node(x.Value), tok, k)
				if x.Tok == token.DEFINE {
					fmt.Fprintf(&bind, "_ = %s; ", r.node(x.Value))
				}
			}
			return fmt.Sprintf("{ zm%d := %s; %sfor _, zk%d := range zvs.Keys(zm%d) { %s%s } }", k, r.node(x.X), label, k, k, bind.String(), body)
		}
	}
	return nil
}
