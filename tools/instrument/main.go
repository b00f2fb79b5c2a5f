// instrument rewrites packages of /repo (into an output directory, never in place) for the model checker:
//
//	-points  scheduling points before every statement, deterministic sync doubles, gated selects,
//	         ordered map ranges, explorer-controlled randomness
//	-net     grpc.Dial / *grpc.ClientConn replaced by the in-memory transport of engine/vnet
//
//	-fs      file system calls that change something replaced by the recording ones of engine/vfs
//
//	-srv     listening, serving, signals and os.Exit replaced by those of engine/vsys
//
// It prints one "original<TAB>replacement" line per rewritten file.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	pos, end int // byte offsets; pos==end is an insertion
	text     string
	seq      int
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
	fset  *token.FileSet
	info  *types.Info
	uses  map[string]bool // rewritten package qualifiers

	captured map[types.Object]bool
}

var (
	repo    = flag.String("repo", "/repo", "repository root")
	out     = flag.String("out", "", "output directory")
	pkgs    = flag.String("pkgs", "data,node,util", "packages (relative directories)")
	points  = flag.Bool("points", false, "scheduling points")
	network = flag.Bool("net", false, "in-memory transport")
	fsys    = flag.Bool("fs", false, "recording file system calls")
	process = flag.Bool("srv", false, "listening, signals and the end of the process")
	modfile = flag.String("modfile", "", "go -modfile")
	modpath = flag.String("module", "github.com/bgokden/veri", "module path")
	nopts   = flag.String("nopoints", "", "comma-separated files (dir/name.go) that get no scheduling points")
	siteOut = flag.String("sites", "", "write site table here")
)

var sites []string

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	if *out == "" {
		die("-out required")
	}
	exports := map[string]string{}
	list := strings.Split(*pkgs, ",")
	if *points {
		args := []string{"list", "-export", "-deps", "-json=ImportPath,Export"}
		if *modfile != "" {
			args = append(args, "-modfile", *modfile)
		}
		for _, p := range list {
			args = append(args, "./"+p)
		}
		cmd := exec.Command("go", args...)
		cmd.Dir = *repo
		var eb bytes.Buffer
		cmd.Stderr = &eb
		o, err := cmd.Output()
		if err != nil {
			die("go list: %v %s", err, eb.String())
		}
		dec := json.NewDecoder(bytes.NewReader(o))
		for {
			var v struct{ ImportPath, Export string }
			if err := dec.Decode(&v); err != nil {
				break
			}
			exports[v.ImportPath] = v.Export
		}
	}
	for _, p := range list {
		doPkg(p, exports)
	}
	if *siteOut != "" {
		os.WriteFile(*siteOut, []byte(strings.Join(sites, "\n")+"\n"), 0644)
	}
}

func doPkg(p string, exports map[string]string) {
	dir := filepath.Join(*repo, p)
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	var files []*file
	var asts []*ast.File
	for _, en := range ents {
		n := en.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		path := filepath.Join(dir, n)
		src, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		a, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, &file{path: path, src: src, ast: a, fset: fset, uses: map[string]bool{}})
		asts = append(asts, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	if *points {
		lookup := func(path string) (io.ReadCloser, error) {
			f := exports[path]
			if f == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(f)
		}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}, FakeImportC: true}
		conf.Check(*modpath+"/"+p, fset, asts, info)
	}
	odir := filepath.Join(*out, p)
	os.MkdirAll(odir, 0755)
	for _, f := range files {
		f.info = info
		if *points {
			f.instrumentPoints(strings.Contains(","+*nopts+",", ","+p+"/"+filepath.Base(f.path)+","))
		}
		if *network {
			f.instrumentNet()
		}
		if *fsys {
			f.instrumentFS()
		}
		if *process {
			f.instrumentSrv()
		}
		if len(f.edits) == 0 {
			continue
		}
		res := f.apply()
		o := filepath.Join(odir, filepath.Base(f.path))
		if err := os.WriteFile(o, res, 0644); err != nil {
			die("%v", err)
		}
		fmt.Printf("%s\t%s\n", f.path, o)
	}
}

func (f *file) off(p token.Pos) int { return f.fset.Position(p).Offset }

func (f *file) ins(p token.Pos, s string) {
	o := f.off(p)
	f.edits = append(f.edits, edit{o, o, s, len(f.edits)})
}
func (f *file) rep(a, b token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), s, len(f.edits)})
}
func (f *file) text(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

func (f *file) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		// insertions at a position come before a replacement starting there
		ai, bi := a.pos == a.end, b.pos == b.end
		if ai != bi {
			return ai
		}
		return a.seq < b.seq
	})
	var b bytes.Buffer
	b.WriteString("//go:build go1.21\n\n")
	at := 0
	for _, e := range f.edits {
		if e.pos < at { // nested in a range that was replaced as a whole
			continue
		}
		b.Write(f.src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(f.src[at:])
	for q, ok := range f.uses {
		if ok {
			b.WriteString("\n" + q + "\n")
		}
	}
	return b.Bytes()
}

// importName returns the local name of an import path, or "".
func (f *file) importName(path string) string {
	for _, im := range f.ast.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == path {
			if im.Name != nil {
				if im.Name.Name == "_" || im.Name.Name == "." {
					return ""
				}
				return im.Name.Name
			}
			return filepath.Base(path)
		}
	}
	return ""
}

func (f *file) site(p token.Pos) int {
	sites = append(sites, f.fset.Position(p).String())
	return len(sites) - 1
}

func isSel(e ast.Expr, pkg, name string) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := s.X.(*ast.Ident)
	return ok && pkg != "" && id.Name == pkg && id.Obj == nil && s.Sel.Name == name
}

func (f *file) instrumentPoints(nopoints bool) {
	if len(f.ast.Decls) == 0 {
		return
	}
	f.markCaptured()
	f.ins(f.ast.Name.End(), `; import vmc "`+*modpath+`/zzverif/vmc"`)
	f.uses["var _ = vmc.P"] = true
	syncN := f.importName("sync")
	timeN := f.importName("time")
	randN := f.importName("math/rand")
	atomicN := f.importName("sync/atomic")
	syncTypes := map[string]bool{"Mutex": true, "RWMutex": true, "Map": true, "Pool": true, "Once": true}
	labelOf := map[ast.Stmt]*ast.LabeledStmt{}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if l, ok := n.(*ast.LabeledStmt); ok {
			labelOf[l.Stmt] = l
		}
		return true
	})
	startOf := func(s ast.Stmt) token.Pos {
		if l := labelOf[s]; l != nil {
			return l.Pos()
		}
		return s.Pos()
	}
	stmts := func(l []ast.Stmt) {
		if nopoints {
			return
		}
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			if !f.relevant(s) {
				continue
			}
			f.ins(s.Pos(), fmt.Sprintf("vmc.P(%d); ", f.site(s.Pos())))
		}
	}
	n := 0
	ast.Inspect(f.ast, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.FuncDecl:
			if f.pure(x) {
				return false
			}
		case *ast.BlockStmt:
			// the braces of switch/select bodies hold clauses, not statements
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			if !nopoints && (x.Cond == nil || f.relevant(&ast.ExprStmt{X: x.Cond})) {
				f.ins(x.Body.Lbrace+1, fmt.Sprintf(" vmc.P(%d); ", f.site(x.Pos())))
			}
		case *ast.RangeStmt:
			if t, ok := f.info.Types[x.X]; ok && t.Type != nil {
				if _, isChan := t.Type.Underlying().(*types.Chan); isChan && !nopoints {
					f.ins(x.Body.Lbrace+1, fmt.Sprintf(" vmc.P(%d); ", f.site(x.Pos())))
				}
				if _, isMap := t.Type.Underlying().(*types.Map); isMap {
					n++
					it := fmt.Sprintf("vmcI%d", n)
					pre := fmt.Sprintf("{ %s := vmc.NewIter(%s); ", it, f.text(x.X))
					body := ""
					name := func(e ast.Expr) string {
						if e == nil {
							return ""
						}
						if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
							return ""
						}
						return f.text(e)
					}
					k, v := name(x.Key), name(x.Value)
					if x.Tok == token.DEFINE {
						if k != "" {
							pre += fmt.Sprintf("%s := %s.ZK(); _ = %s; ", k, it, k)
						}
						if v != "" {
							pre += fmt.Sprintf("%s := %s.ZV(); _ = %s; ", v, it, v)
						}
					}
					if k != "" {
						body += fmt.Sprintf("%s = %s.K(); ", k, it)
					}
					if v != "" {
						body += fmt.Sprintf("%s = %s.V(); ", v, it)
					}
					f.ins(startOf(x), pre)
					f.rep(x.For, x.Body.Lbrace, fmt.Sprintf("for %s.Next() ", it))
					f.ins(x.Body.Lbrace+1, " "+body)
					f.ins(x.End(), " }")
				}
			}
		case *ast.SelectStmt:
			n++
			f.selectStmt(x, startOf(x), n)
		case *ast.SelectorExpr:
			if syncN != "" && syncTypes[x.Sel.Name] && isSel(x, syncN, x.Sel.Name) {
				f.rep(x.Pos(), x.End(), "vmc."+x.Sel.Name)
				f.uses["var _ "+syncN+".Locker"] = true
				return false
			}
			if isSel(x, timeN, "After") {
				f.rep(x.Pos(), x.End(), "vmc.After")
				f.uses["var _ "+timeN+".Duration"] = true
				return false
			}
			if isSel(x, randN, "Float64") {
				f.rep(x.Pos(), x.End(), "vmc.Float64")
				f.uses["var _ = "+randN+".Float64"] = true
				return false
			}
		case *ast.BinaryExpr:
			// a point between two operands of which the second is an atomic operation
			if (x.Op == token.LAND || x.Op == token.LOR) && !nopoints && atomicN != "" {
				has := false
				ast.Inspect(x.Y, func(n ast.Node) bool {
					if s, ok := n.(*ast.SelectorExpr); ok && isSel(s, atomicN, s.Sel.Name) {
						has = true
					}
					return true
				})
				if has {
					f.ins(x.Y.Pos(), fmt.Sprintf("vmc.PB(%d) && (", f.site(x.Y.Pos())))
					f.ins(x.Y.End(), ")")
				}
			}
		case *ast.IncDecStmt:
			if shared(x.X) && !nopoints {
				op := "+"
				if x.Tok == token.DEC {
					op = "-"
				}
				t := f.text(x.X)
				n++
				f.rep(x.Pos(), x.End(), fmt.Sprintf("{ vmcT%d := %s; vmc.P(%d); %s = vmcT%d %s 1 }", n, t, f.site(x.Pos()), t, n, op))
				return false
			}
		case *ast.AssignStmt:
			if !nopoints && len(x.Lhs) == 1 && x.Tok != token.ASSIGN && x.Tok != token.DEFINE && shared(x.Lhs[0]) && simple(x.Rhs[0]) {
				op := strings.TrimSuffix(x.Tok.String(), "=")
				t := f.text(x.Lhs[0])
				n++
				f.rep(x.Pos(), x.End(), fmt.Sprintf("{ vmcT%d := %s; vmc.P(%d); %s = vmcT%d %s (%s) }", n, t, f.site(x.Pos()), t, n, op, f.text(x.Rhs[0])))
				return false
			}
		}
		return true
	})
}

// markCaptured finds the variables that more than one function (literal) of a file mentions.
func (f *file) markCaptured() {
	f.captured = map[types.Object]bool{}
	first := map[types.Object]ast.Node{}
	var walk func(n ast.Node, fn ast.Node)
	walk = func(n ast.Node, fn ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.FuncLit:
				walk(x, x)
				return false
			case *ast.FuncDecl:
				walk(x, x)
				return false
			case *ast.Ident:
				o := f.info.Uses[x]
				if o == nil {
					o = f.info.Defs[x]
				}
				v, ok := o.(*types.Var)
				if !ok || v.IsField() {
					return true
				}
				if v.Parent() == v.Pkg().Scope() {
					f.captured[o] = true
				}
				if g, seen := first[o]; !seen {
					first[o] = fn
				} else if g != fn {
					f.captured[o] = true
				}
			}
			return true
		})
	}
	walk(f.ast, f.ast)
}

// pure: a plain function over scalars and slices of scalars (vector arithmetic) that touches no
// package variable, channel or goroutine needs no scheduling points.
func (f *file) pure(d *ast.FuncDecl) bool {
	if d.Recv != nil || d.Body == nil || d.Type.Params == nil {
		return false
	}
	for _, p := range d.Type.Params.List {
		t := f.info.Types[p.Type].Type
		if t == nil {
			return false
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if _, ok := t.Underlying().(*types.Basic); !ok {
			return false
		}
	}
	ok := true
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.FuncLit, *ast.DeferStmt:
			ok = false
		case *ast.SelectorExpr:
			if id, isID := x.X.(*ast.Ident); isID {
				if pn, isP := f.info.Uses[id].(*types.PkgName); isP {
					switch pn.Imported().Path() {
					case "math", "strings", "strconv", "bytes", "time", "fmt":
						return true
					}
					if strings.Contains(pn.Imported().Path(), "math32") {
						return true
					}
				}
			}
			ok = false
		case *ast.Ident:
			if v, isV := f.info.Uses[x].(*types.Var); isV && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// relevant: could the statement (without its nested blocks) touch anything another goroutine sees?
func (f *file) relevant(s ast.Stmt) bool {
	if e, ok := s.(*ast.ExprStmt); ok {
		if c, ok := e.X.(*ast.CallExpr); ok {
			if se, ok := c.Fun.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok && id.Name == "log" && id.Obj == nil {
					return false
				}
			}
		}
	}
	rel := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.GoStmt, *ast.DeferStmt, *ast.SendStmt, *ast.SelectStmt, *ast.StarExpr, *ast.IndexExpr, *ast.SelectorExpr:
			rel = true
		case *ast.RangeStmt:
			if t, ok := f.info.Types[x.X]; ok && t.Type != nil {
				switch t.Type.Underlying().(type) {
				case *types.Chan, *types.Map:
					rel = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				rel = true
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "len", "cap", "make", "append", "new", "copy", "uint64", "int64", "int", "float64", "float32", "string", "uint32":
					return true
				}
			}
			rel = true
		case *ast.Ident:
			o := f.info.Uses[x]
			if o != nil && f.captured[o] {
				rel = true
			}
		}
		return !rel
	})
	return rel
}

// shared: a field selector without calls or indexing (x.f, x.y.f); its read and write become two steps.
func shared(e ast.Expr) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	switch x := s.X.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return shared(x)
	}
	return false
}

// simple: no function literals or calls that themselves need rewriting.
func simple(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit, *ast.SelectorExpr:
			ok = false
		}
		return ok
	})
	return ok
}

func (f *file) selectStmt(x *ast.SelectStmt, start token.Pos, n int) {
	type cs struct {
		ch   ast.Expr
		send bool
	}
	var cases []cs
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		switch s := cc.Comm.(type) {
		case nil:
		case *ast.SendStmt:
			cases = append(cases, cs{s.Chan, true})
		case *ast.ExprStmt:
			u, ok := ast.Unparen(s.X).(*ast.UnaryExpr)
			if !ok {
				return
			}
			cases = append(cases, cs{u.X, false})
		case *ast.AssignStmt:
			u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			if !ok {
				return
			}
			cases = append(cases, cs{u.X, false})
		}
	}
	if len(cases) == 0 {
		return
	}
	pre := ""
	var rdy []string
	for i, c := range cases {
		// the channel expression is evaluated once, before the select; it may itself need rewriting
		t := f.rewriteExpr(c.ch)
		pre += fmt.Sprintf("vmcC%d_%d := %s; ", n, i, t)
		if c.send {
			rdy = append(rdy, fmt.Sprintf("vmc.SR(vmcC%d_%d)", n, i))
		} else {
			rdy = append(rdy, fmt.Sprintf("vmc.RR(vmcC%d_%d)", n, i))
		}
	}
	pre += fmt.Sprintf("vmcS%d := vmc.Sel(%s); ", n, strings.Join(rdy, ", "))
	f.ins(start, pre)
	for i, c := range cases {
		g := "GR"
		if c.send {
			g = "GS"
		}
		f.rep(c.ch.Pos(), c.ch.End(), fmt.Sprintf("vmc.%s(vmcS%d, %d, vmcC%d_%d)", g, n, i, n, i))
	}
}

func (f *file) rewriteExpr(e ast.Expr) string {
	t := f.text(e)
	timeN := f.importName("time")
	if timeN != "" && strings.Contains(t, timeN+".After(") {
		f.uses["var _ "+timeN+".Duration"] = true
		t = strings.ReplaceAll(t, timeN+".After(", "vmc.After(")
	}
	return t
}

func (f *file) instrumentNet() {
	g := f.importName("google.golang.org/grpc")
	if g == "" {
		return
	}
	repl := map[string]bool{"Dial": true, "DialContext": true, "NewClient": true, "ClientConn": true}
	any := false
	ast.Inspect(f.ast, func(nd ast.Node) bool {
		if x, ok := nd.(*ast.SelectorExpr); ok && repl[x.Sel.Name] && isSel(x, g, x.Sel.Name) {
			f.rep(x.Pos(), x.End(), "vnet."+x.Sel.Name)
			any = true
		}
		return true
	})
	if any {
		f.ins(f.ast.Name.End(), `; import vnet "`+*modpath+`/zzverif/vnet"`)
		f.uses["var _ "+g+".DialOption"] = true
	}
}

var fsCalls = map[string]map[string]bool{
	"os": {"RemoveAll": true, "Remove": true, "Rename": true, "Mkdir": true, "MkdirAll": true, "OpenFile": true, "Create": true, "WriteFile": true,
		"Truncate": true, "Symlink": true, "Link": true, "Chmod": true, "Chtimes": true, "CreateTemp": true, "MkdirTemp": true},
	"io/ioutil": {"WriteFile": true, "TempFile": true, "TempDir": true},
}

func (f *file) instrumentFS() {
	any := false
	for path, names := range fsCalls {
		g := f.importName(path)
		if g == "" {
			continue
		}
		used := false
		ast.Inspect(f.ast, func(nd ast.Node) bool {
			if x, ok := nd.(*ast.SelectorExpr); ok && names[x.Sel.Name] && isSel(x, g, x.Sel.Name) {
				f.rep(x.Pos(), x.End(), "vfs."+x.Sel.Name)
				used = true
			}
			return true
		})
		if used {
			any = true
			if path == "os" {
				f.uses["var _ "+g+".FileMode"] = true
			} else {
				f.uses["var _ = "+g+".Discard"] = true
			}
		}
	}
	if any {
		f.ins(f.ast.Name.End(), `; import vfs "`+*modpath+`/zzverif/vfs"`)
	}
}

// srvCalls: names replaced by those of vsys, and something that keeps the import in use.
var srvCalls = map[string]struct {
	names map[string]bool
	use   string
}{
	"net":       {map[string]bool{"Listen": true}, "var _ %s.Listener"},
	"net/http":  {map[string]bool{"ListenAndServe": true}, "var _ %s.Handler"},
	"os/signal": {map[string]bool{"Notify": true, "Stop": true, "Reset": true, "Ignore": true, "NotifyContext": true}, "var _ = %s.Ignored"},
	"os":        {map[string]bool{"Exit": true}, "var _ %s.FileMode"},
	"log":       {map[string]bool{"Fatal": true, "Fatalf": true, "Fatalln": true}, "var _ = %s.Println"},
}

func (f *file) instrumentSrv() {
	any := false
	for path, c := range srvCalls {
		g := f.importName(path)
		if g == "" {
			continue
		}
		ast.Inspect(f.ast, func(nd ast.Node) bool {
			if x, ok := nd.(*ast.SelectorExpr); ok && c.names[x.Sel.Name] && isSel(x, g, x.Sel.Name) {
				name := x.Sel.Name
				if path == "os/signal" && name == "Reset" {
					name = "ResetSignals"
				}
				f.rep(x.Pos(), x.End(), "vsys."+name)
				f.uses[fmt.Sprintf(c.use, g)] = true
				any = true
			}
			return true
		})
	}
	if f.importName("net/http") != "" { // the method of a http.Server
		ast.Inspect(f.ast, func(nd ast.Node) bool {
			if c, ok := nd.(*ast.CallExpr); ok && len(c.Args) == 0 {
				if x, ok := c.Fun.(*ast.SelectorExpr); ok && x.Sel.Name == "ListenAndServe" {
					f.ins(x.X.Pos(), "vsys.ServeHTTP(")
					f.rep(x.X.End(), c.End(), ")")
					any = true
				}
			}
			return true
		})
	}
	if g := f.importName(*modpath + "/veriservice"); g != "" {
		ast.Inspect(f.ast, func(nd ast.Node) bool {
			if x, ok := nd.(*ast.SelectorExpr); ok && isSel(x, g, "RegisterVeriServiceServer") {
				f.rep(x.Pos(), x.End(), "vsys.Register")
				f.uses["var _ "+g+".Peer"] = true
				any = true
			}
			return true
		})
	}
	if g := f.importName(*modpath + "/node"); g != "" { // what the process is made of, for the harness to end it
		ast.Inspect(f.ast, func(nd ast.Node) bool {
			if c, ok := nd.(*ast.CallExpr); ok {
				if x, ok := c.Fun.(*ast.SelectorExpr); ok && strings.HasPrefix(x.Sel.Name, "New") && isSel(x, g, x.Sel.Name) {
					f.ins(c.Pos(), "vsys.Keep(")
					f.ins(c.End(), ")")
					any = true
				}
			}
			return true
		})
	}
	if any {
		f.ins(f.ast.Name.End(), `; import vsys "`+*modpath+`/zzverif/vsys"`)
	}
}
