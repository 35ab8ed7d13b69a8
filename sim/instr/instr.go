// Package instr rewrites Go packages so that they run on the simulator runtime vsim/rt: goroutines, channels, locks,
// time, network, files, randomness and map iteration order go through rt, and every statement is preceded by a
// yield point. The rewriting is driven by type information and knows nothing about the code under test.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Level of instrumentation; higher levels do less, as a fallback for code that does not compile otherwise.
type Level int

const (
	Full     Level = iota // yields before statements, split read-modify-write assignments
	NoSplit               // yields only
	NoYields              // replacements only
)

// Table maps package path -> name -> rt name.
type Table map[string]map[string]string

var prefixes = map[string]string{
	"Time": "time", "Sync": "sync", "Os": "os", "Ioutil": "io/ioutil", "Net": "net", "Http": "net/http",
	"Crand": "crypto/rand", "Mrand": "math/rand", "Log": "log", "Tls": "crypto/tls", "Ctx": "context", "Maps": "maps",
}

// LoadTable derives the replacement table from the exported names of the runtime package.
func LoadTable(rtDir string) (Table, error) {
	t := Table{}
	fset := token.NewFileSet()
	ents, err := os.ReadDir(rtDir)
	if err != nil {
		return nil, err
	}
	add := func(n string) {
		i := strings.IndexByte(n, '_')
		if i <= 0 {
			return
		}
		p, ok := prefixes[n[:i]]
		if !ok {
			return
		}
		if t[p] == nil {
			t[p] = map[string]string{}
		}
		t[p][n[i+1:]] = n
		if p == "math/rand" {
			if t["math/rand/v2"] == nil {
				t["math/rand/v2"] = map[string]string{}
			}
			t["math/rand/v2"][n[i+1:]] = n
		}
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(rtDir, e.Name()), nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					add(d.Name.Name)
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						add(s.Name.Name)
					case *ast.ValueSpec:
						for _, n := range s.Names {
							add(n.Name)
						}
					}
				}
			}
		}
	}
	return t, nil
}

// Pkg is what go list reports about a package.
type Pkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Module     *struct{ GoVersion string }
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

// List runs go list.
func List(dir string, pkgs []string, env []string) (map[string]*Pkg, error) {
	args := append([]string{"list", "-e", "-deps", "-export", "-json=ImportPath,Name,Dir,GoFiles,Export,Module,ImportMap,Error"}, pkgs...)
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = env
	var errb bytes.Buffer
	c.Stderr = &errb
	out, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	m := map[string]*Pkg{}
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &Pkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		m[p.ImportPath] = p
	}
	return m, nil
}

// Site is a yield point.
type Site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"fn"`
}

// Instr is one instrumentation job.
type Instr struct {
	Table    Table
	Level    Level
	Sites    []Site
	nextSite int
	Warn     []string
}

type pkgCtx struct {
	in     *Instr
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	rel    func(string) string
	repl   map[ast.Expr]ast.Expr // package-level initialisers: old -> new
	host   map[ast.Expr]*fileCtx
	tmp    int
	fn     string
	file   *fileCtx
	noY    int
	inInit bool
}

type fileCtx struct {
	f        *ast.File
	needRT   bool
	needSync bool
}

// Package instruments one package in place. rel shortens file names for sites.
func (in *Instr) Package(p *Pkg, all map[string]*Pkg, newName string, rel func(string) string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, n := range p.GoFiles {
		fn := filepath.Join(p.Dir, n)
		f, err := parser.ParseFile(fset, fn, nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, f)
		names = append(names, fn)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if r, ok := p.ImportMap[path]; ok {
			path = r
		}
		q := all[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup)}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return err
	}
	c := &pkgCtx{in: in, fset: fset, info: info, pkg: tp, rel: rel, repl: map[ast.Expr]ast.Expr{}, host: map[ast.Expr]*fileCtx{}}
	var initCalls []string
	nInit := 0
	var fcs []*fileCtx
	for _, f := range files {
		fc := &fileCtx{f: f}
		fcs = append(fcs, fc)
		c.file = fc
		var decls []ast.Decl
		for _, d := range f.Decls {
			decls = append(decls, d)
			switch d := d.(type) {
			case *ast.FuncDecl:
				c.fn = d.Name.Name
				if d.Recv != nil {
					c.fn = "method " + c.fn
					c.walkChildren(reflect.ValueOf(d.Recv))
				}
				c.walkChildren(reflect.ValueOf(d.Type))
				if d.Body != nil {
					d.Body = c.block(d.Body)
				}
				if d.Recv == nil && d.Name.Name == "init" {
					nInit++
					nm := fmt.Sprintf("sim_init_%d", nInit)
					d.Name.Name = nm
					initCalls = append(initCalls, nm)
					decls = append(decls, funcDecl("init", &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(nm)}}))
				}
			case *ast.GenDecl:
				c.fn = "package"
				c.noY++
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.ValueSpec:
						if s.Type != nil {
							s.Type = c.expr(s.Type)
						}
						for i, v := range s.Values {
							nv := c.expr(v)
							c.repl[v] = nv
							c.host[v] = fc
							s.Values[i] = nv
						}
					case *ast.TypeSpec:
						s.Type = c.expr(s.Type)
						if s.TypeParams != nil {
							c.walkChildren(reflect.ValueOf(s.TypeParams))
						}
					}
				}
				c.noY--
			}
		}
		f.Decls = decls
	}
	// reset function
	var vars []string
	sc := tp.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok {
			vars = append(vars, v.Name())
		}
	}
	sort.Strings(vars)
	var seq []string
	nv := 0
	for _, ini := range info.InitOrder {
		host := c.host[ini.Rhs]
		nr, ok := c.repl[ini.Rhs]
		if !ok || host == nil {
			return fmt.Errorf("initialiser of %v not found", ini.Lhs)
		}
		nv++
		nm := fmt.Sprintf("sim_var_%d", nv)
		var lhs []ast.Expr
		for _, v := range ini.Lhs {
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		host.f.Decls = append(host.f.Decls, funcDecl(nm, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{nr}}))
		seq = append(seq, nm)
	}
	for i, fc := range fcs {
		c.fixImports(fc)
		fc.f.Comments = nil
		if newName != "" {
			fc.f.Name = ast.NewIdent(newName)
		}
		var buf bytes.Buffer
		if err := format.Node(&buf, token.NewFileSet(), fc.f); err != nil {
			return fmt.Errorf("%s: %v", names[i], err)
		}
		src := keepDirectives(names[i], buf.Bytes())
		if err := os.WriteFile(names[i], src, 0644); err != nil {
			return err
		}
	}
	name := p.Name
	if newName != "" {
		name = newName
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport _rt \"vsim/rt\"\n\n// Sim_reset restores the package's initial state.\nfunc Sim_reset() {\n\t_rt.Nop()\n", name)
	for _, v := range vars {
		fmt.Fprintf(&b, "\t_rt.Zero(&%s)\n", v)
	}
	for _, s := range seq {
		fmt.Fprintf(&b, "\t%s()\n", s)
	}
	for _, s := range initCalls {
		fmt.Fprintf(&b, "\t%s()\n", s)
	}
	for _, v := range vars {
		fmt.Fprintf(&b, "\t_rt.Global(&%s)\n", v)
	}
	b.WriteString("}\n")
	if sc.Lookup("main") != nil && newName != "" {
		b.WriteString("\n// Sim_main runs the command.\nfunc Sim_main() { main() }\n")
	}
	return os.WriteFile(filepath.Join(p.Dir, "zz_sim_reset.go"), []byte(b.String()), 0644)
}

// keepDirectives re-adds file-level build constraints, which the printer dropped with the comments.
func keepDirectives(file string, src []byte) []byte {
	orig, err := os.ReadFile(file)
	if err != nil {
		return src
	}
	var head []string
	for _, l := range strings.Split(string(orig), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if strings.HasPrefix(t, "//go:build ") {
			head = append(head, t)
		}
	}
	if len(head) == 0 {
		return src
	}
	return append([]byte(strings.Join(head, "\n")+"\n\n"), src...)
}

func funcDecl(name string, body ...ast.Stmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func (c *pkgCtx) rt(name string) ast.Expr {
	c.file.needRT = true
	return &ast.SelectorExpr{X: ast.NewIdent("_rt"), Sel: ast.NewIdent(name)}
}

func (c *pkgCtx) fresh(p string) string {
	c.tmp++
	return fmt.Sprintf("_s%s%d", p, c.tmp)
}

func (c *pkgCtx) site(n ast.Node) int {
	c.in.nextSite++
	p := c.fset.Position(n.Pos())
	c.in.Sites = append(c.in.Sites, Site{c.in.nextSite, fmt.Sprintf("%s:%d", c.rel(p.Filename), p.Line), c.fn})
	return c.in.nextSite
}

func (c *pkgCtx) yield(n ast.Node) ast.Stmt {
	id := c.site(n)
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: c.rt("Y"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)}}}}
}

func (c *pkgCtx) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: c.list(b.List)}
}

func (c *pkgCtx) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		if c.in.Level < NoYields {
			out = append(out, c.yield(s))
		}
		out = append(out, c.stmt(s, "")...)
	}
	return out
}

func one(l []ast.Stmt) ast.Stmt {
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func (c *pkgCtx) typ(e ast.Expr) types.Type {
	if tv, ok := c.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := c.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := c.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func coreOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (c *pkgCtx) isChan(e ast.Expr) (*types.Chan, bool) {
	ch, ok := coreOf(c.typ(e)).(*types.Chan)
	return ch, ok
}

// stmt rewrites a statement; label is the label it carries.
func (c *pkgCtx) stmt(s ast.Stmt, label string) []ast.Stmt {
	wrapL := func(x ast.Stmt) ast.Stmt {
		if label == "" {
			return x
		}
		return &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: x}
	}
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		return c.stmt(s.Stmt, s.Label.Name)
	case *ast.BlockStmt:
		return []ast.Stmt{wrapL(c.block(s))}
	case *ast.GoStmt:
		return []ast.Stmt{wrapL(one(c.goStmt(s)))}
	case *ast.SelectStmt:
		return c.selectStmt(s, label)
	case *ast.RangeStmt:
		return []ast.Stmt{wrapL(c.rangeStmt(s))}
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = c.simple(s.Init)
		}
		if s.Cond != nil {
			s.Cond = c.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = c.simple(s.Post)
		}
		orig := s.Body
		s.Body = c.block(orig)
		if len(s.Body.List) == 0 && c.in.Level < NoYields {
			s.Body.List = append(s.Body.List, c.yield(s))
		}
		return []ast.Stmt{wrapL(s)}
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = c.simple(s.Init)
		}
		s.Cond = c.expr(s.Cond)
		s.Body = c.block(s.Body)
		if s.Else != nil {
			s.Else = one(c.stmt(s.Else, ""))
			switch s.Else.(type) {
			case *ast.IfStmt, *ast.BlockStmt:
			default:
				s.Else = &ast.BlockStmt{List: []ast.Stmt{s.Else}}
			}
		}
		return []ast.Stmt{wrapL(s)}
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = c.simple(s.Init)
		}
		if s.Tag != nil {
			s.Tag = c.expr(s.Tag)
		}
		c.clauses(s.Body)
		return []ast.Stmt{wrapL(s)}
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = c.simple(s.Init)
		}
		s.Assign = c.simple(s.Assign)
		c.clauses(s.Body)
		return []ast.Stmt{wrapL(s)}
	case *ast.AssignStmt:
		if r := c.split(s); r != nil {
			return []ast.Stmt{wrapL(one(r))}
		}
		return []ast.Stmt{wrapL(c.simple(s))}
	case *ast.IncDecStmt:
		if r := c.splitInc(s); r != nil {
			return []ast.Stmt{wrapL(one(r))}
		}
		return []ast.Stmt{wrapL(c.simple(s))}
	case *ast.DeferStmt:
		c.deferStmt(s)
		return []ast.Stmt{wrapL(s)}
	}
	return []ast.Stmt{wrapL(c.simple(s))}
}

func (c *pkgCtx) deferStmt(s *ast.DeferStmt) {
	e := c.expr(s.Call)
	if call, ok := e.(*ast.CallExpr); ok {
		s.Call = call
		return
	}
	s.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}}
}

func (c *pkgCtx) clauses(b *ast.BlockStmt) {
	for _, x := range b.List {
		cc := x.(*ast.CaseClause)
		for i, e := range cc.List {
			cc.List[i] = c.expr(e)
		}
		cc.Body = c.list(cc.Body)
	}
}

// simple rewrites a statement without sub-blocks, in place.
func (c *pkgCtx) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.CallExpr{Fun: c.rt("Sender"), Args: []ast.Expr{c.expr(s.Chan)}}, Args: []ast.Expr{c.expr(s.Value)}}}
	case *ast.LabeledStmt, *ast.BlockStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
		return one(c.stmt(s, ""))
	}
	c.walkChildren(reflect.ValueOf(s))
	return s
}

var (
	exprT  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	nodeT  = reflect.TypeOf((*ast.Node)(nil)).Elem()
	blockT = reflect.TypeOf((*ast.BlockStmt)(nil))
	stmtT  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	identT = reflect.TypeOf((*ast.Ident)(nil))
)

// walkChildren rewrites all expressions below a node.
func (c *pkgCtx) walkChildren(v reflect.Value) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		ft := f.Type()
		switch {
		case ft == exprT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(c.expr(f.Interface().(ast.Expr))))
			}
		case ft == stmtT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(c.simple(f.Interface().(ast.Stmt))))
			}
		case ft == blockT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(c.block(f.Interface().(*ast.BlockStmt))))
			}
		case ft == identT:
		case ft.Kind() == reflect.Slice && ft.Elem() == exprT:
			for j := 0; j < f.Len(); j++ {
				if !f.Index(j).IsNil() {
					f.Index(j).Set(reflect.ValueOf(c.expr(f.Index(j).Interface().(ast.Expr))))
				}
			}
		case ft.Kind() == reflect.Slice && ft.Elem() == stmtT:
			f.Set(reflect.ValueOf(c.list(f.Interface().([]ast.Stmt))))
		case ft.Kind() == reflect.Slice && ft.Elem().Implements(nodeT):
			for j := 0; j < f.Len(); j++ {
				if !f.Index(j).IsNil() {
					c.node(f.Index(j))
				}
			}
		case ft.Kind() == reflect.Ptr && ft.Implements(nodeT):
			if !f.IsNil() {
				c.node(f)
			}
		case ft.Kind() == reflect.Interface && ft.Implements(nodeT):
			if !f.IsNil() {
				c.node(f.Elem())
			}
		}
	}
}

func (c *pkgCtx) node(v reflect.Value) {
	switch x := v.Interface().(type) {
	case *ast.Ident, *ast.CommentGroup, *ast.Comment, *ast.BasicLit:
		return
	case *ast.Field:
		if len(x.Names) == 0 {
			c.embedded(x)
			return
		}
		x.Type = c.expr(x.Type)
		return
	case *ast.ValueSpec:
		if x.Type != nil {
			x.Type = c.expr(x.Type)
		}
		for i := range x.Values {
			x.Values[i] = c.expr(x.Values[i])
		}
		return
	case *ast.CallExpr:
		// typed pointer field (go/defer): handled by the callers
		c.walkChildren(v)
		return
	}
	c.walkChildren(v)
}

// embedded rewrites a field without a name: the name of an embedded replaced type has to stay the same.
func (c *pkgCtx) embedded(x *ast.Field) {
	e := x.Type
	star := false
	if st, ok := e.(*ast.StarExpr); ok {
		star = true
		e = st.X
	}
	if sel, ok := e.(*ast.SelectorExpr); ok {
		if path, name, ok := c.pkgSel(sel); ok && path == "sync" {
			if _, ok := c.in.Table[path][name]; ok {
				c.file.needSync = true
				var n ast.Expr = &ast.SelectorExpr{X: ast.NewIdent("_rsync"), Sel: ast.NewIdent(name)}
				if star {
					n = &ast.StarExpr{X: n}
				}
				x.Type = n
				return
			}
		}
	}
	x.Type = c.expr(x.Type)
}

func (c *pkgCtx) pkgSel(s *ast.SelectorExpr) (path, name string, ok bool) {
	id, k := s.X.(*ast.Ident)
	if !k {
		return
	}
	pn, k := c.info.Uses[id].(*types.PkgName)
	if !k {
		return
	}
	return pn.Imported().Path(), s.Sel.Name, true
}

// expr rewrites an expression.
func (c *pkgCtx) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.FuncLit:
		c.walkChildren(reflect.ValueOf(x.Type))
		sv := c.noY
		x.Body = c.block(x.Body)
		c.noY = sv
		return x
	case *ast.SelectorExpr:
		if path, name, ok := c.pkgSel(x); ok {
			if n, ok := c.in.Table[path][name]; ok {
				return c.rt(n)
			}
			return x
		}
		x.X = c.expr(x.X)
		return x
	case *ast.ParenExpr:
		x.X = c.expr(x.X)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			fn := "Recv"
			if _, ok := c.typ(x).(*types.Tuple); ok {
				fn = "Recv2"
			}
			return &ast.CallExpr{Fun: c.rt(fn), Args: []ast.Expr{c.expr(x.X)}}
		}
		x.X = c.expr(x.X)
		return x
	case *ast.KeyValueExpr:
		// a struct field key is not an expression
		if id, ok := x.Key.(*ast.Ident); ok {
			if v, ok := c.info.Uses[id].(*types.Var); ok && v.IsField() {
				x.Value = c.expr(x.Value)
				return x
			}
		}
		x.Key = c.expr(x.Key)
		x.Value = c.expr(x.Value)
		return x
	case *ast.StructType:
		for _, f := range x.Fields.List {
			if len(f.Names) == 0 {
				c.embedded(f)
			} else {
				f.Type = c.expr(f.Type)
			}
		}
		return x
	case *ast.InterfaceType:
		for _, f := range x.Methods.List {
			f.Type = c.expr(f.Type)
		}
		return x
	case *ast.FuncType:
		for _, fl := range []*ast.FieldList{x.TypeParams, x.Params, x.Results} {
			if fl != nil {
				for _, f := range fl.List {
					f.Type = c.expr(f.Type)
				}
			}
		}
		return x
	case *ast.CallExpr:
		return c.call(x)
	}
	c.walkChildren(reflect.ValueOf(e))
	return e
}

func (c *pkgCtx) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if id, ok := e.(*ast.Ident); ok {
		if b, ok := c.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (c *pkgCtx) call(x *ast.CallExpr) ast.Expr {
	switch c.builtin(x.Fun) {
	case "make":
		if ch, ok := coreOf(c.typ(x.Args[0])).(*types.Chan); ok {
			el := c.chanElem(x.Args[0])
			if el != nil {
				var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
				if len(x.Args) > 1 {
					n = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{c.expr(x.Args[1])}}
				}
				r := &ast.CallExpr{Fun: &ast.IndexExpr{X: c.rt("MakeChan"), Index: c.expr(el)}, Args: []ast.Expr{n}}
				_ = ch
				return r
			}
			// a named channel type
			n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
			if len(x.Args) > 1 {
				n = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{c.expr(x.Args[1])}}
			}
			return &ast.CallExpr{Fun: &ast.IndexExpr{X: c.rt("MakeNamedChan"), Index: c.expr(x.Args[0])}, Args: []ast.Expr{n}}
		}
	case "close":
		if _, ok := c.isChan(x.Args[0]); ok {
			return &ast.CallExpr{Fun: c.rt("Close"), Args: []ast.Expr{c.expr(x.Args[0])}}
		}
	case "len":
		if ch, ok := c.isChan(x.Args[0]); ok {
			fn := "ChLen"
			if ch.Dir() == types.SendOnly {
				fn = "ChLenS"
			}
			return &ast.CallExpr{Fun: c.rt(fn), Args: []ast.Expr{c.expr(x.Args[0])}}
		}
	}
	if sel, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 && sel.Sel.Name == "MapKeys" {
		if t := c.typ(sel.X); t != nil && t.String() == "reflect.Value" {
			return &ast.CallExpr{Fun: c.rt("MapKeys"), Args: []ast.Expr{c.expr(sel.X)}}
		}
	}
	x.Fun = c.expr(x.Fun)
	for i := range x.Args {
		x.Args[i] = c.expr(x.Args[i])
	}
	return x
}

// chanElem returns the syntax of the element type of a channel type expression.
func (c *pkgCtx) chanElem(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if ct, ok := e.(*ast.ChanType); ok {
		return ct.Value
	}
	return nil
}

func (c *pkgCtx) goStmt(s *ast.GoStmt) []ast.Stmt {
	call := s.Call
	noArgFn := func(body ast.Stmt) *ast.FuncLit {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}}
	}
	goCall := func(f ast.Expr) ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: c.rt("Go"), Args: []ast.Expr{f}}}
	}
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		if lit.Type.Results == nil || len(lit.Type.Results.List) == 0 {
			return []ast.Stmt{goCall(c.expr(lit))}
		}
	}
	if c.builtin(call.Fun) != "" {
		return []ast.Stmt{goCall(noArgFn(&ast.ExprStmt{X: c.expr(call)}))}
	}
	var out []ast.Stmt
	var lhs, rhs []ast.Expr
	fn := c.expr(call.Fun)
	f := c.fresh("f")
	lhs = append(lhs, ast.NewIdent(f))
	rhs = append(rhs, fn)
	var args []ast.Expr
	for _, a := range call.Args {
		tv := c.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, c.expr(a))
			continue
		}
		n := c.fresh("a")
		lhs = append(lhs, ast.NewIdent(n))
		rhs = append(rhs, c.expr(a))
		args = append(args, ast.NewIdent(n))
	}
	out = append(out, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs})
	nc := &ast.CallExpr{Fun: ast.NewIdent(f), Args: args}
	if call.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	out = append(out, goCall(noArgFn(&ast.ExprStmt{X: nc})))
	return []ast.Stmt{&ast.BlockStmt{List: out}}
}

func (c *pkgCtx) selectStmt(s *ast.SelectStmt, label string) []ast.Stmt {
	var pre []ast.Stmt
	args := []ast.Expr{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := false
	idx := 0
	for _, x := range s.Body.List {
		cc := x.(*ast.CommClause)
		nc := &ast.CaseClause{}
		var body []ast.Stmt
		if cc.Comm == nil {
			hasDef = true
			nc.Body = c.list(cc.Body)
			sw.Body.List = append(sw.Body.List, nc)
			continue
		}
		nm := c.fresh("c")
		field := func(n string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(nm), Sel: ast.NewIdent(n)} }
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{
				&ast.CallExpr{Fun: &ast.CallExpr{Fun: c.rt("SendCase"), Args: []ast.Expr{c.expr(cm.Chan)}}, Args: []ast.Expr{c.expr(cm.Value)}}}})
		case *ast.ExprStmt, *ast.AssignStmt:
			var rx ast.Expr
			var as *ast.AssignStmt
			if es, ok := cm.(*ast.ExprStmt); ok {
				rx = es.X
			} else {
				as = cm.(*ast.AssignStmt)
				rx = as.Rhs[0]
			}
			for {
				p, ok := rx.(*ast.ParenExpr)
				if !ok {
					break
				}
				rx = p.X
			}
			u := rx.(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{
				&ast.CallExpr{Fun: c.rt("RecvCase"), Args: []ast.Expr{c.expr(u.X)}}}})
			if as != nil {
				na := &ast.AssignStmt{Tok: as.Tok, Rhs: []ast.Expr{field("V")}}
				for _, l := range as.Lhs {
					na.Lhs = append(na.Lhs, c.expr(l))
				}
				if len(as.Lhs) == 2 {
					na.Rhs = append(na.Rhs, field("OK"))
				}
				body = append(body, na)
			}
		}
		args = append(args, ast.NewIdent(nm))
		nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		nc.Body = append(body, c.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, nc)
	}
	hd := "false"
	if hasDef {
		hd = "true"
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"sim: unreachable"`}}}}}})
	}
	sw.Tag = &ast.CallExpr{Fun: c.rt("Select"), Args: append([]ast.Expr{ast.NewIdent(hd)}, args...)}
	var st ast.Stmt = sw
	if label != "" {
		st = &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: sw}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, st)}}
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func (c *pkgCtx) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := coreOf(c.typ(s.X))
	addr := func(n string) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n)} }
	build := func(fn string, vars []ast.Expr) ast.Stmt {
		it := c.fresh("i")
		lhs := []ast.Expr{ast.NewIdent(it)}
		var args []ast.Expr
		var copyL, copyR []ast.Expr
		for _, v := range vars {
			if s.Tok == token.DEFINE && !blank(v) {
				n := v.(*ast.Ident).Name
				lhs = append(lhs, ast.NewIdent(n))
				args = append(args, addr(n))
				continue
			}
			n := c.fresh("k")
			lhs = append(lhs, ast.NewIdent(n))
			args = append(args, addr(n))
			if !blank(v) {
				copyL = append(copyL, c.expr(v))
				copyR = append(copyR, ast.NewIdent(n))
			}
		}
		x := c.expr(s.X)
		body := c.block(s.Body)
		if copyL != nil {
			body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: copyL, Tok: token.ASSIGN, Rhs: copyR}}, body.List...)
		}
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: c.rt(fn), Args: []ast.Expr{x}}}},
			Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it), Sel: ast.NewIdent("Next")}, Args: args},
			Body: body,
		}
	}
	switch t.(type) {
	case *types.Map:
		return build("IterMap", []ast.Expr{s.Key, s.Value})
	case *types.Chan:
		return build("IterChan", []ast.Expr{s.Key})
	}
	if s.Key != nil && s.Tok == token.ASSIGN {
		s.Key = c.expr(s.Key)
	}
	if s.Value != nil && s.Tok == token.ASSIGN {
		s.Value = c.expr(s.Value)
	}
	s.X = c.expr(s.X)
	s.Body = c.block(s.Body)
	return s
}

// hasCall tells whether evaluating e twice or later could differ.
func (c *pkgCtx) hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.FuncLit:
			found = true
		}
		return !found
	})
	return found
}

// sharedLHS tells whether the assignment target may be visible to other goroutines.
func (c *pkgCtx) sharedLHS(e ast.Expr) bool {
	if c.hasCall(e) {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.sharedLHS(x.X)
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.Ident:
		v, ok := c.info.Uses[x].(*types.Var)
		return ok && v.Parent() == c.pkg.Scope()
	}
	return false
}

func (c *pkgCtx) untypedRisk(e ast.Expr) bool {
	risk := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.CallExpr, *ast.CompositeLit:
			return false
		case *ast.BinaryExpr:
			switch x.Op {
			case token.SHL, token.SHR, token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.LAND, token.LOR:
				risk = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				risk = true
			}
		}
		return true
	})
	return risk
}

// split turns `x.f = RHS` into `{ tmp := RHS; yield; x.f = tmp }`.
func (c *pkgCtx) split(s *ast.AssignStmt) []ast.Stmt {
	if c.in.Level > Full || s.Tok == token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 || !c.sharedLHS(s.Lhs[0]) {
		return nil
	}
	tv := c.info.Types[s.Rhs[0]]
	if tv.Type == nil || tv.IsNil() || c.untypedRisk(s.Rhs[0]) {
		return nil
	}
	n := c.fresh("t")
	var rhs ast.Expr
	if s.Tok == token.ASSIGN {
		if tv.Value != nil {
			return nil
		}
		if _, ok := s.Rhs[0].(*ast.FuncLit); ok {
			return nil
		}
		rhs = c.expr(s.Rhs[0])
	} else {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR}[s.Tok]
		if op == 0 {
			return nil
		}
		rhs = &ast.BinaryExpr{X: clone(s.Lhs[0]), Op: op, Y: &ast.ParenExpr{X: c.expr(s.Rhs[0])}}
	}
	lhs := c.expr(s.Lhs[0])
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}},
		c.yield(s),
		&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(n)}},
	}}}
}

func (c *pkgCtx) splitInc(s *ast.IncDecStmt) []ast.Stmt {
	if c.in.Level > Full || !c.sharedLHS(s.X) {
		return nil
	}
	op := token.ADD
	if s.Tok == token.DEC {
		op = token.SUB
	}
	n := c.fresh("t")
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: clone(s.X), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}},
		c.yield(s),
		&ast.AssignStmt{Lhs: []ast.Expr{c.expr(s.X)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(n)}},
	}}}
}

// clone copies a call-free expression (identifiers keep their identity for the type information).
func clone(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: clone(x.X), Sel: x.Sel}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: clone(x.X), Index: clone(x.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: clone(x.X)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: clone(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: clone(x.X), Op: x.Op, Y: clone(x.Y)}
	}
	return e
}

func (c *pkgCtx) fixImports(fc *fileCtx) {
	used := map[string]bool{}
	ast.Inspect(fc.f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := c.info.Uses[id].(*types.PkgName); ok {
					used[pn.Name()] = true
				}
			}
		}
		return true
	})
	for _, d := range fc.f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, sp := range g.Specs {
			is := sp.(*ast.ImportSpec)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else if pn, ok := c.info.Implicits[is].(*types.PkgName); ok {
				name = pn.Name()
			}
			if name == "_" || name == "." || used[name] {
				keep = append(keep, sp)
			}
		}
		g.Specs = keep
		if len(keep) > 1 && !g.Lparen.IsValid() {
			g.Lparen = g.Pos()
		}
	}
	var decls []ast.Decl
	imp := func(name, path string) {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}}})
	}
	if fc.needRT {
		imp("_rt", "vsim/rt")
	}
	if fc.needSync {
		imp("_rsync", "vsim/rt/rsync")
	}
	for _, d := range fc.f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && len(g.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	fc.f.Decls = decls
}
