// Command inst rewrites the packages of the module under test so that every goroutine, channel, lock and atomic
// operation goes through the controlled scheduler. It prints an overlay for the go command.
//
//	inst -repo DIR -out DIR [-yield FILE:LINE,...]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const base = "github.com/asap2Go/calibrationReader/zzverif"

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Main bool }
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	yield := flag.String("yield", "", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main && !strings.Contains(p.ImportPath, "/zzverif") {
			pkgs = append(pkgs, p)
		}
	}
	yields := map[string]map[int]bool{}
	for _, y := range strings.Split(*yield, ",") {
		if i := strings.LastIndex(y, ":"); i > 0 {
			n, _ := strconv.Atoi(y[i+1:])
			f := y[:i]
			if yields[f] == nil {
				yields[f] = map[int]bool{}
			}
			yields[f][n] = true
		}
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	repl := map[string]string{}
	for _, p := range pkgs {
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok || e == "" {
				if e2, ok2 := exports["vendor/"+path]; ok2 {
					e = e2
				} else {
					return nil, fmt.Errorf("no export data for %s", path)
				}
			}
			return os.Open(e)
		})
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check: %v", err)
		}
		for i, f := range files {
			path := filepath.Join(p.Dir, p.GoFiles[i])
			r := &rw{fset: fset, info: info, yields: yields[path]}
			r.file(f)
			var buf bytes.Buffer
			if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
				die("print %s: %v", path, err)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(p.ImportPath, "/", "_")+"__"+p.GoFiles[i])
			if !r.changed {
				continue
			}
			if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			repl[path] = dst
		}
	}
	j, _ := json.MarshalIndent(repl, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "replace.json"), j, 0o644); err != nil {
		die("%v", err)
	}
}

type rw struct {
	fset    *token.FileSet
	info    *types.Info
	changed bool
	sched   bool
	runtime bool
	timeUse bool
	n       int
	yields  map[int]bool
	unsafe  bool
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (r *rw) vs(name string) ast.Expr {
	r.sched = true
	r.changed = true
	return &ast.SelectorExpr{X: id("vsched"), Sel: id(name)}
}

func (r *rw) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	i, ok := e.(*ast.Ident)
	if !ok || i.Name != name {
		return false
	}
	_, ok = r.info.Uses[i].(*types.Builtin)
	return ok
}

func (r *rw) isPkg(e ast.Expr, path string) bool {
	i, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	p, ok := r.info.Uses[i].(*types.PkgName)
	return ok && p.Imported().Path() == path
}

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
	default:
		x = &ast.ParenExpr{X: x}
	}
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: id(name)}, Args: args}
}

func (r *rw) tmp() string {
	r.n++
	return fmt.Sprintf("vz%d", r.n)
}

func (r *rw) file(f *ast.File) {
	for _, d := range f.Decls {
		r.walk(reflect.ValueOf(d))
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			switch p {
			case "sync":
				if is.Name == nil {
					is.Name = id("sync")
				}
				is.Path.Value = strconv.Quote(base + "/vsync")
				r.changed = true
			case "sync/atomic":
				if is.Name == nil {
					is.Name = id("atomic")
				}
				is.Path.Value = strconv.Quote(base + "/vatomic")
				r.changed = true
			case "runtime":
				if r.runtime {
					n := "runtime"
					if is.Name != nil {
						n = is.Name.Name
					}
					f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(n), Sel: id("GOOS")}}}}})
				}
			case "time":
				if r.timeUse {
					n := "time"
					if is.Name != nil {
						n = is.Name.Name
					}
					f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(n), Sel: id("Second")}}}}})
				}
			}
		}
	}
	var extra []ast.Decl
	if r.sched {
		extra = append(extra, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + "/vsched")}}}})
	}
	f.Decls = append(extra, f.Decls...)
	f.Comments = nil
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

// walk rewrites v's children, then lets the caller replace expressions and statements bottom up.
func (r *rw) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Type() == reflect.TypeOf((*ast.Object)(nil)) || v.Type() == reflect.TypeOf((*ast.Scope)(nil)) {
			return
		}
		r.walk(v.Elem())
	case reflect.Struct:
		// two-valued receive must be seen before its child is rewritten
		if v.CanAddr() {
			switch n := v.Addr().Interface().(type) {
			case *ast.AssignStmt:
				if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
					if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						r.walkExpr(&u.X)
						n.Rhs[0] = method(u.X, "Recv2")
						r.changed = true
						for i := range n.Lhs {
							r.walkExpr(&n.Lhs[i])
						}
						return
					}
				}
			case *ast.TypeSpec:
				// a pointer type has no methods: a named channel type becomes another name of the scheduler's type
				if _, ok := n.Type.(*ast.ChanType); ok && n.TypeParams == nil && !n.Assign.IsValid() {
					n.Assign = n.Name.End()
				}
			case *ast.DeferStmt:
				// the call itself may be rewritten (close)
				var e ast.Expr = n.Call
				r.walkExpr(&e)
				n.Call = e.(*ast.CallExpr)
				return
			case *ast.ValueSpec:
				if len(n.Names) == 2 && len(n.Values) == 1 {
					if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						r.walkExpr(&u.X)
						n.Values[0] = method(u.X, "Recv2")
						r.changed = true
						if n.Type != nil {
							r.walkExpr(&n.Type)
						}
						return
					}
				}
			}
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			switch {
			case f.Type() == exprT:
				if !f.IsNil() {
					e := f.Interface().(ast.Expr)
					r.walkExpr(&e)
					f.Set(reflect.ValueOf(e))
				}
			case f.Type() == stmtT:
				if !f.IsNil() {
					s := f.Interface().(ast.Stmt)
					r.walkStmt(&s)
					f.Set(reflect.ValueOf(s))
				}
			case f.Kind() == reflect.Slice && f.Type().Elem() == exprT:
				for k := 0; k < f.Len(); k++ {
					e := f.Index(k).Interface().(ast.Expr)
					r.walkExpr(&e)
					f.Index(k).Set(reflect.ValueOf(e))
				}
			case f.Kind() == reflect.Slice && f.Type().Elem() == stmtT:
				for k := 0; k < f.Len(); k++ {
					s := f.Index(k).Interface().(ast.Stmt)
					r.walkStmt(&s)
					f.Index(k).Set(reflect.ValueOf(s))
				}
				if len(r.yields) > 0 {
					r.addYields(f)
				}
			case f.Kind() == reflect.Slice:
				for k := 0; k < f.Len(); k++ {
					r.walk(f.Index(k))
				}
			case f.Kind() == reflect.Ptr || f.Kind() == reflect.Interface:
				r.walk(f)
			}
		}
	}
}

// addYields puts a scheduling point before each statement that begins on a listed line.
func (r *rw) addYields(f reflect.Value) {
	old := f.Interface().([]ast.Stmt)
	var out []ast.Stmt
	for _, s := range old {
		p := s.Pos()
		if p.IsValid() {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
			default:
				line := r.fset.Position(p).Line
				if r.hasYield(line, r.headEnd(s)) {
					out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.vs("RaceYield"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(line)}}}})
				}
			}
		}
		out = append(out, s)
	}
	f.Set(reflect.ValueOf(out))
}

func (r *rw) hasYield(from, to int) bool {
	for l := from; l <= to; l++ {
		if r.yields[l] {
			return true
		}
	}
	return false
}

// headEnd is the last line of a statement without its body.
func (r *rw) headEnd(s ast.Stmt) int {
	e := s.End()
	switch n := s.(type) {
	case *ast.IfStmt:
		e = n.Body.Lbrace
	case *ast.ForStmt:
		e = n.Body.Lbrace
	case *ast.RangeStmt:
		e = n.Body.Lbrace
	case *ast.SwitchStmt:
		e = n.Body.Lbrace
	case *ast.TypeSwitchStmt:
		e = n.Body.Lbrace
	case *ast.LabeledStmt:
		return r.headEnd(n.Stmt)
	case *ast.BlockStmt, *ast.SelectStmt:
		e = s.Pos()
	}
	if !e.IsValid() {
		return r.fset.Position(s.Pos()).Line
	}
	return r.fset.Position(e).Line
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) walkExpr(e *ast.Expr) {
	// decide with type information before children are replaced
	switch n := (*e).(type) {
	case *ast.CallExpr:
		switch {
		case r.isBuiltin(n.Fun, "make") && len(n.Args) > 0:
			t := r.info.TypeOf(n.Args[0])
			switch u := t.Underlying().(type) {
			case *types.Chan:
				if ct, ok := n.Args[0].(*ast.ChanType); ok {
					el := ct.Value
					r.walkExpr(&el)
					var size ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
					if len(n.Args) > 1 {
						size = n.Args[1]
						r.walkExpr(&size)
						size = &ast.CallExpr{Fun: id("int"), Args: []ast.Expr{size}}
					}
					*e = &ast.CallExpr{Fun: &ast.IndexExpr{X: r.vs("MakeChan"), Index: el}, Args: []ast.Expr{size}}
					return
				}
				var size ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
				if len(n.Args) > 1 {
					size = n.Args[1]
					r.walkExpr(&size)
					size = &ast.CallExpr{Fun: id("int"), Args: []ast.Expr{size}}
				}
				r.walkExpr(&n.Args[0])
				*e = &ast.CallExpr{Fun: &ast.IndexExpr{X: r.vs("MakeOf"), Index: n.Args[0]}, Args: []ast.Expr{size}}
				return
			case *types.Map:
				if len(n.Args) == 2 {
					r.walkExpr(&n.Args[0])
					r.walkExpr(&n.Args[1])
					n.Args[1] = &ast.CallExpr{Fun: r.vs("CapHint"), Args: []ast.Expr{n.Args[1]}}
					return
				}
			case *types.Slice:
				_ = u
				if len(n.Args) == 3 {
					if tv := r.info.Types[n.Args[1]]; tv.Value != nil && tv.Value.ExactString() == "0" {
						r.walkExpr(&n.Args[0])
						r.walkExpr(&n.Args[2])
						n.Args[2] = &ast.CallExpr{Fun: r.vs("CapHint"), Args: []ast.Expr{n.Args[2]}}
						return
					}
				}
			}
		case r.isBuiltin(n.Fun, "close") && len(n.Args) == 1:
			r.walkExpr(&n.Args[0])
			*e = method(n.Args[0], "Close")
			r.changed = true
			return
		case (r.isBuiltin(n.Fun, "len") || r.isBuiltin(n.Fun, "cap")) && len(n.Args) == 1 && r.isChan(n.Args[0]):
			m := "Len"
			if n.Fun.(*ast.Ident).Name == "cap" {
				m = "Cap"
			}
			r.walkExpr(&n.Args[0])
			*e = method(n.Args[0], m)
			r.changed = true
			return
		}
	case *ast.SelectorExpr:
		if r.isPkg(n.X, "runtime") {
			switch n.Sel.Name {
			case "NumCPU", "GOMAXPROCS":
				r.runtime = true
				*e = r.vs(n.Sel.Name)
				return
			case "Gosched":
				r.runtime = true
				*e = r.vs("Yield")
				return
			}
		}
		if r.isPkg(n.X, "time") && n.Sel.Name == "Sleep" {
			r.timeUse = true
			*e = r.vs("SleepFor")
			return
		}
	case *ast.ChanType:
		el := n.Value
		r.walkExpr(&el)
		*e = &ast.StarExpr{X: &ast.IndexExpr{X: r.vs("Chan"), Index: el}}
		return
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			r.walkExpr(&n.X)
			*e = method(n.X, "Recv")
			r.changed = true
			return
		}
	}
	r.walk(reflect.ValueOf(*e))
}

func (r *rw) walkStmt(s *ast.Stmt) {
	switch n := (*s).(type) {
	case *ast.SendStmt:
		r.walkExpr(&n.Chan)
		r.walkExpr(&n.Value)
		*s = &ast.ExprStmt{X: method(n.Chan, "Send", n.Value)}
		r.changed = true
		return
	case *ast.LabeledStmt:
		if sel, ok := n.Stmt.(*ast.SelectStmt); ok {
			*s = r.selectStmt(sel, n.Label)
			return
		}
	case *ast.SelectStmt:
		*s = r.selectStmt(n, nil)
		return
	case *ast.RangeStmt:
		if r.isChan(n.X) {
			r.changed = true
			r.walkExpr(&n.X)
			r.walk(reflect.ValueOf(n.Body))
			v := r.tmp()
			f := &ast.ForStmt{Body: n.Body, For: n.For}
			k, isId := n.Key.(*ast.Ident)
			switch {
			case n.Key == nil || isId && k.Name == "_":
				f.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: r.vs("Range"), Args: []ast.Expr{n.X}}}}
				f.Cond = method(id(v), "Next", id("nil"))
			case n.Tok == token.DEFINE:
				f.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(v), id(k.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: r.vs("RangeInit"), Args: []ast.Expr{n.X}}}}
				f.Cond = method(id(v), "Next", &ast.UnaryExpr{Op: token.AND, X: id(k.Name)})
			default:
				r.walkExpr(&n.Key)
				f.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: r.vs("Range"), Args: []ast.Expr{n.X}}}}
				f.Cond = method(id(v), "Next", &ast.UnaryExpr{Op: token.AND, X: n.Key})
			}
			*s = f
			return
		}
	case *ast.GoStmt:
		*s = r.goStmt(n)
		return
	}
	r.walk(reflect.ValueOf(*s))
}

func (r *rw) goStmt(g *ast.GoStmt) ast.Stmt {
	r.changed = true
	call := g.Call
	blk := &ast.BlockStmt{}
	bind := func(e ast.Expr) ast.Expr {
		v := r.tmp()
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id(v)
	}
	tuple := false
	if len(call.Args) == 1 {
		if _, ok := r.info.TypeOf(call.Args[0]).(*types.Tuple); ok {
			tuple = true
		}
	}
	direct := tuple
	switch f := unparen(call.Fun).(type) {
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin:
			direct = true
		}
	case *ast.SelectorExpr:
		if x, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[x].(*types.PkgName); ok {
				direct = true
			}
		}
	}
	consts := make([]bool, len(call.Args))
	typeArg := make([]bool, len(call.Args))
	sig, _ := r.info.TypeOf(call.Fun).Underlying().(*types.Signature)
	for i, a := range call.Args {
		tv := r.info.Types[a]
		consts[i] = tv.Value != nil || tv.IsNil()
		typeArg[i] = tv.IsType()
	}
	_ = sig
	var ce ast.Expr = call
	// rewrite children of the call, it may become a method call (close)
	isClose := r.isBuiltin(call.Fun, "close")
	if isClose {
		r.walkExpr(&ce)
		m := ce.(*ast.CallExpr).Fun.(*ast.SelectorExpr)
		c := bind(m.X)
		m.X = c
	} else {
		if !direct {
			r.walkExpr(&call.Fun)
			call.Fun = bind(call.Fun)
		}
		for i := range call.Args {
			r.walkExpr(&call.Args[i])
			if !consts[i] && !typeArg[i] && !tuple {
				call.Args[i] = bind(call.Args[i])
			}
		}
		call.Lparen, call.Rparen = token.NoPos, token.NoPos
		if call.Ellipsis.IsValid() {
			call.Ellipsis = 1
		}
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: ce}}}}
	blk.List = append(blk.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.vs("Go"), Args: []ast.Expr{lit}}})
	return blk
}

func (r *rw) selectStmt(n *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	r.changed = true
	blk := &ast.BlockStmt{}
	bind := func(e ast.Expr) ast.Expr {
		v := r.tmp()
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id(v)
	}
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	sel := r.tmp()
	hasDefault := "false"
	var clauses []ast.Stmt
	idx := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		var pre []ast.Stmt
		cl := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDefault = "true"
		} else {
			switch m := cc.Comm.(type) {
			case *ast.SendStmt:
				r.walkExpr(&m.Chan)
				r.walkExpr(&m.Value)
				cases = append(cases, &ast.CallExpr{Fun: r.vs("SendCase"), Args: []ast.Expr{m.Chan, m.Value}})
			case *ast.ExprStmt:
				u := unparen(m.X).(*ast.UnaryExpr)
				r.walkExpr(&u.X)
				cases = append(cases, &ast.CallExpr{Fun: r.vs("RecvCase"), Args: []ast.Expr{u.X}})
			case *ast.AssignStmt:
				u := unparen(m.Rhs[0]).(*ast.UnaryExpr)
				r.walkExpr(&u.X)
				ch := bind(u.X)
				cases = append(cases, &ast.CallExpr{Fun: r.vs("RecvCase"), Args: []ast.Expr{ch}})
				as := &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: r.vs("Val"), Args: []ast.Expr{ch, id(sel)}}}}
				if len(m.Lhs) == 2 {
					as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: id(sel), Sel: id("OK")})
				}
				pre = append(pre, as)
			}
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
			idx++
		}
		for i := range cc.Body {
			r.walkStmt(&cc.Body[i])
		}
		cl.Body = append(pre, cc.Body...)
		clauses = append(clauses, cl)
	}
	args := append([]ast.Expr{id(hasDefault)}, cases...)
	sw.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(sel)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: r.vs("Select"), Args: args}}}
	sw.Tag = &ast.SelectorExpr{X: id(sel), Sel: id("Index")}
	sw.Body.List = clauses
	var st ast.Stmt = sw
	if label != nil {
		st = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	blk.List = append(blk.List, st)
	return blk
}
