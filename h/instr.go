package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

//go:embed vsched/vsched.go.txt
var vschedSrc string

//go:embed vsched/race.go.txt
var vschedRace string

//go:embed vsched/norace.go.txt
var vschedNoRace string

// instr rewrites the files of a package so that goroutines, channels, locks and map orders are under the
// control of package vsched.
type instr struct {
	info  *types.Info
	pkg   *types.Package
	n     int
	fset  *token.FileSet
	used  bool
	sched bool // not only maps
	bad   []string // constructs that cannot be controlled
	imps  map[string]string // path -> name in this file
	more  string            // further imports
}

func (in *instr) tmp(s string) string { in.n++; return fmt.Sprintf("vck%s%d", s, in.n) }

func (in *instr) typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == in.pkg {
			return ""
		}
		if n, ok := in.imps[p.Path()]; ok {
			return n
		}
		n := in.tmp("p")
		in.imps[p.Path()] = n
		in.more += "import " + n + " " + strconv.Quote(p.Path()) + "\n"
		return n
	})
}

func (in *instr) typ(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) *types.Chan {
	if t == nil {
		return nil
	}
	c, _ := t.Underlying().(*types.Chan)
	return c
}

func (in *instr) v(name string) ast.Expr {
	in.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(name)}
}

func (in *instr) site(n ast.Node) string {
	p := in.fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func method(x ast.Expr, m string, a ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: &ast.ParenExpr{X: x}, Sel: id(m)}, a...)
}

// mustExpr parses a type or expression.
func mustExpr(s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(s + ": " + err.Error())
	}
	clearPos(reflect.ValueOf(e))
	return e
}

// clearPos removes positions, so that the printer does not tear generated code apart.
func clearPos(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return
		}
		if _, ok := v.Interface().(*ast.Object); ok {
			return
		}
		clearPos(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clearPos(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == reflect.TypeOf(token.Pos(0)) && f.CanSet() {
				f.SetInt(0)
			} else if f.CanSet() {
				clearPos(f)
			}
		}
	}
}

// recvCall: func() (T, bool) { v, ok := c.Recv(); t, _ := v.(T); return t, ok }()
func (in *instr) recvCall(ch ast.Expr, t types.Type, two bool) ast.Expr {
	in.used = true
	ty := in.typeStr(t)
	src := fmt.Sprintf("func() %s { vckv, _ := (X).Recv(); vckt, _ := vckv.(%s); return vckt }()", ty, ty)
	if two {
		src = fmt.Sprintf("func() (%s, bool) { vckv, vckok := (X).Recv(); vckt, _ := vckv.(%s); return vckt, vckok }()", ty, ty)
	}
	e := mustExpr(src)
	ast.Inspect(e, func(n ast.Node) bool {
		if p, ok := n.(*ast.ParenExpr); ok {
			if i, ok := p.X.(*ast.Ident); ok && i.Name == "X" {
				p.X = ch
				return false
			}
		}
		return true
	})
	return e
}

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()

// walk rewrites all expressions and statements below v, inner ones first.
func (in *instr) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		switch v.Type() {
		case exprType:
			n := in.expr(v.Interface().(ast.Expr))
			v.Set(reflect.ValueOf(n))
		case stmtType:
			n := in.stmt(v.Interface().(ast.Stmt))
			v.Set(reflect.ValueOf(n))
		default:
			in.walk(v.Elem())
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.Ident:
			return
		}
		in.walk(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			in.walk(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				in.walk(f)
			}
		}
	}
}

func (in *instr) children(n ast.Node) { in.walk(reflect.ValueOf(n).Elem()) }

var syncNames = map[string]bool{"WaitGroup": true, "Mutex": true, "RWMutex": true, "Once": true, "Locker": true}

func (in *instr) expr(e ast.Expr) ast.Expr {
	if !in.sched {
		in.children(e)
		return e
	}
	switch x := e.(type) {
	case *ast.ChanType:
		return &ast.StarExpr{X: in.v("Chan")}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			t := isChan(in.typ(x.X))
			ch := in.expr(x.X)
			if t == nil {
				in.bad = append(in.bad, "receive")
				return e
			}
			return in.recvCall(ch, t.Elem(), false)
		}
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok {
			if pn, ok := in.info.Uses[p].(*types.PkgName); ok {
				switch {
				case pn.Imported().Path() == "sync" && syncNames[x.Sel.Name]:
					return in.v(x.Sel.Name)
				case pn.Imported().Path() == "sync" && x.Sel.Name != "Map" && x.Sel.Name != "Pool":
					in.bad = append(in.bad, "sync."+x.Sel.Name)
				case pn.Imported().Path() == "time" && x.Sel.Name == "Sleep":
					return mustSleep(in)
				case pn.Imported().Path() == "time" && contains([]string{"After", "Tick", "NewTimer", "NewTicker", "AfterFunc"}, x.Sel.Name):
					in.bad = append(in.bad, "time."+x.Sel.Name)
				}
			}
		}
	case *ast.CallExpr:
		if f, ok := x.Fun.(*ast.Ident); ok {
			if _, ok := in.info.Uses[f].(*types.Builtin); ok && len(x.Args) > 0 {
				if isChan(in.typ(x.Args[0])) != nil {
					switch f.Name {
					case "make":
						size := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
						if len(x.Args) > 1 {
							size = call(id("int"), in.expr(x.Args[1]))
						}
						return call(in.v("MakeChan"), size)
					case "close", "len", "cap":
						in.used = true
						ch := in.expr(x.Args[0])
						return method(ch, map[string]string{"close": "Close", "len": "Len", "cap": "Cap"}[f.Name])
					}
				}
			}
		}
	}
	in.children(e)
	return e
}

func mustSleep(in *instr) ast.Expr {
	in.used = true
	return mustExpr("func(...interface{}) { vsched.Yield() }")
}

func (in *instr) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.LabeledStmt:
		switch x.Stmt.(type) {
		case *ast.RangeStmt, *ast.SelectStmt:
			pre, st := in.split(x.Stmt)
			x.Stmt = st
			if len(pre) > 0 {
				return &ast.BlockStmt{List: append(pre, x)}
			}
			return x
		}
	case *ast.RangeStmt, *ast.SelectStmt:
		pre, st := in.split(x)
		if len(pre) > 0 {
			return &ast.BlockStmt{List: append(pre, st)}
		}
		return st
	case *ast.SendStmt:
		if in.sched {
			in.used = true
			t := isChan(in.typ(x.Chan))
			ch, v := in.expr(x.Chan), in.expr(x.Value)
			return &ast.ExprStmt{X: method(ch, "Send", call(&ast.ParenExpr{X: mustExpr(in.typeStr(t.Elem()))}, v))}
		}
	case *ast.AssignStmt:
		if in.sched && len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				t := isChan(in.typ(u.X))
				for i := range x.Lhs {
					x.Lhs[i] = in.expr(x.Lhs[i])
				}
				x.Rhs[0] = in.recvCall(in.expr(u.X), t.Elem(), true)
				return x
			}
		}
	case *ast.GoStmt:
		if in.sched {
			in.children(x.Call)
			if l, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 && l.Type.Results == nil {
				return &ast.ExprStmt{X: call(in.v("Go"), l)}
			}
			var pre []ast.Stmt
			f := id(in.tmp("f"))
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{x.Call.Fun}})
			var args []ast.Expr
			for _, a := range x.Call.Args {
				if b, ok := a.(*ast.BasicLit); ok {
					args = append(args, b)
					continue
				}
				if i, ok := a.(*ast.Ident); ok && (i.Name == "nil" || i.Name == "true" || i.Name == "false") {
					args = append(args, i)
					continue
				}
				t := id(in.tmp("a"))
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				args = append(args, t)
			}
			c := &ast.CallExpr{Fun: f, Args: args, Ellipsis: x.Call.Ellipsis}
			body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}
			return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: call(in.v("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})}
		}
	}
	in.children(s)
	return s
}

// split rewrites a range or select statement; the first result goes in front of it.
func (in *instr) split(s ast.Stmt) ([]ast.Stmt, ast.Stmt) {
	switch x := s.(type) {
	case *ast.RangeStmt:
		t := in.typ(x.X)
		if t == nil {
			break
		}
		if m, ok := t.Underlying().(*types.Map); ok {
			in.used = true
			mx := in.expr(x.X)
			in.children(x.Body)
			if x.Key != nil {
				x.Key = in.expr(x.Key)
			}
			if x.Value != nil {
				x.Value = in.expr(x.Value)
			}
			mv, kv, vv, ok := in.tmp("m"), in.tmp("k"), in.tmp("v"), in.tmp("ok")
			pre := &ast.AssignStmt{Lhs: []ast.Expr{id(mv)}, Tok: token.DEFINE, Rhs: []ast.Expr{mx}}
			key := in.tmp("key")
			list := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(kv), id("_")}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: id(key), Type: mustExpr(in.typeStr(m.Key()))}}},
				&ast.AssignStmt{Lhs: []ast.Expr{id(vv), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(mv), Index: id(kv)}}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(vv)}},
			}
			if x.Key != nil && !isBlank(x.Key) {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{id(kv)}})
			}
			if x.Value != nil && !isBlank(x.Value) {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: x.Tok, Rhs: []ast.Expr{id(vv)}})
			}
			return []ast.Stmt{pre}, &ast.RangeStmt{Key: id("_"), Value: id(key), Tok: token.DEFINE, X: call(in.v("Keys"), id(mv), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(in.site(x))}), Body: &ast.BlockStmt{List: append(list, x.Body)}}
		}
		if c := isChan(t); c != nil && in.sched {
			ch := in.expr(x.X)
			in.children(x.Body)
			cv, vv, ok := in.tmp("c"), in.tmp("v"), in.tmp("ok")
			pre := &ast.AssignStmt{Lhs: []ast.Expr{id(cv)}, Tok: token.DEFINE, Rhs: []ast.Expr{ch}}
			list := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(vv), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{in.recvCall(id(cv), c.Elem(), true)}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(vv)}},
			}
			if x.Key != nil && !isBlank(x.Key) {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{in.expr(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{id(vv)}})
			}
			return []ast.Stmt{pre}, &ast.ForStmt{Body: &ast.BlockStmt{List: append(list, x.Body)}}
		}
	case *ast.SelectStmt:
		if !in.sched {
			break
		}
		iv, vv, ok := in.tmp("i"), in.tmp("v"), in.tmp("ok")
		args := []ast.Expr{id("false")}
		sw := &ast.SwitchStmt{Tag: id(iv), Body: &ast.BlockStmt{}}
		for _, cc := range x.Body.List {
			c := cc.(*ast.CommClause)
			var body []ast.Stmt
			k := len(args) - 1
			switch m := c.Comm.(type) {
			case nil:
				args[0] = id("true")
				k = -1
			case *ast.SendStmt:
				t := isChan(in.typ(m.Chan))
				args = append(args, &ast.CompositeLit{Type: in.v("C"), Elts: []ast.Expr{
					&ast.KeyValueExpr{Key: id("Send"), Value: id("true")}, &ast.KeyValueExpr{Key: id("Ch"), Value: in.expr(m.Chan)},
					&ast.KeyValueExpr{Key: id("V"), Value: call(&ast.ParenExpr{X: mustExpr(in.typeStr(t.Elem()))}, in.expr(m.Value))}}})
			default:
				var rx ast.Expr
				var lhs []ast.Expr
				tok := token.DEFINE
				if e, ok := m.(*ast.ExprStmt); ok {
					rx = e.X
				} else if a, ok := m.(*ast.AssignStmt); ok {
					rx, lhs, tok = a.Rhs[0], a.Lhs, a.Tok
				}
				for {
					p, ok := rx.(*ast.ParenExpr)
					if !ok {
						break
					}
					rx = p.X
				}
				u := rx.(*ast.UnaryExpr)
				t := isChan(in.typ(u.X))
				args = append(args, &ast.CompositeLit{Type: in.v("C"), Elts: []ast.Expr{&ast.KeyValueExpr{Key: id("Ch"), Value: in.expr(u.X)}}})
				if len(lhs) > 0 {
					tv := in.tmp("t")
					body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{id(tv), id("_")}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: id(vv), Type: mustExpr(in.typeStr(t.Elem()))}}},
						&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(tv)}})
					rhs := []ast.Expr{id(tv), id(ok)}
					// blanks on the left of := make it an = when nothing is new
					l, r := []ast.Expr{}, []ast.Expr{}
					for i := range lhs {
						if !isBlank(lhs[i]) {
							l, r = append(l, in.expr(lhs[i])), append(r, rhs[i])
						}
					}
					if len(l) > 0 {
						body = append(body, &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: r})
					}
				}
			}
			for i := range c.Body {
				body = append(body, in.stmt(c.Body[i]))
			}
			lit := strconv.Itoa(k)
			var cl ast.Expr = &ast.BasicLit{Kind: token.INT, Value: lit}
			if k < 0 {
				cl = &ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}
			}
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{cl}, Body: body})
		}
		pre := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(iv), id(vv), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(in.v("Select"), args...)}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(vv), id(ok)}},
		}
		return pre, sw
	}
	in.children(s)
	return nil, s
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

// goPkg is what go list says about a package.
type goPkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	Standard                      bool
	ImportMap                     map[string]string
	Module                        *struct{ Path string }
}

// instrument writes instrumented copies of the packages of a module to dir and returns the overlay; all: also
// the map orders of the packages of these modules.
func instrument(repo, dir, module string, mapsOf ...string) (overlay string, bad []string, err error) {
	o, e, code, _ := runCmd(repo, goEnv("GOFLAGS=-mod=readonly -buildvcs=false"), 300*time.Second, "go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,Standard,ImportMap,Module", ".")
	if code != 0 {
		return "", nil, fmt.Errorf("go list: %s", e)
	}
	var pkgs []*goPkg
	exports := map[string]string{}
	for dec := json.NewDecoder(bytes.NewReader(o)); ; {
		p := &goPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return "", nil, err
		}
		pkgs = append(pkgs, p)
		exports[p.ImportPath] = p.Export
	}
	repl := map[string]string{}
	for _, p := range pkgs {
		own := p.Module != nil && p.Module.Path == module
		maps := false
		for _, m := range mapsOf {
			maps = maps || p.Module != nil && p.Module.Path == m
		}
		if !own && !maps {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		for _, n := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), nil, parser.SkipObjectResolution)
			if err != nil {
				return "", nil, err
			}
			files = append(files, f)
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if q, ok := p.ImportMap[path]; ok {
				path = q
			}
			return os.Open(exports[path])
		})
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, FakeImportC: true, Error: func(error) {}}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			return "", nil, fmt.Errorf("%s: %v", p.ImportPath, err)
		}
		for i, f := range files {
			driver := strings.HasSuffix(p.ImportPath, "/vsched")
			for _, im := range f.Imports {
				driver = driver || strings.HasSuffix(im.Path.Value, "/vsched\"")
			}
			if driver {
				continue
			}
			in := &instr{fset: fset, info: info, pkg: tp, sched: own}
			hasMain := false
			in.file(f)
			if own && p.Name == "main" {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
						fd.Name = id("vckMain")
						hasMain = true
					}
				}
			}
			bad = append(bad, in.bad...)
			if !in.used && !hasMain {
				continue
			}
			var buf bytes.Buffer
			if err := printer.Fprint(&buf, fset, f); err != nil {
				return "", nil, err
			}
			name := filepath.Join(dir, strings.ReplaceAll(p.ImportPath, "/", "_")+"_"+p.GoFiles[i])
			src := buf.String()
			if hasMain {
				src += "\nfunc main() { vsched.Run(vckMain) }\n"
				in.used = true
			}
			if in.used {
				k := strings.Index(src, "\npackage ")
				if strings.HasPrefix(src, "package ") {
					k = -1
				}
				nl := k + 1 + strings.Index(src[k+1:], "\n")
				src = src[:nl] + "\nimport vsched " + strconv.Quote(module+"/vsched") + "\n" + in.more + src[nl:] + "\nvar _ = vsched.Yield\n"
			}
			src += keepImports(f)
			if err := os.WriteFile(name, []byte(src), 0644); err != nil {
				return "", nil, err
			}
			repl[filepath.Join(p.Dir, p.GoFiles[i])] = name
		}
	}
	for n, s := range map[string]string{"vsched.go": vschedSrc, "race.go": vschedRace, "norace.go": vschedNoRace} {
		f := filepath.Join(dir, "vsched_"+n)
		os.WriteFile(f, []byte(s), 0644)
		repl[filepath.Join(repo, "vsched", n)] = f
	}
	overlay = filepath.Join(dir, "overlay.json")
	os.WriteFile(overlay, mustJSON(M{"Replace": repl}), 0644)
	sort.Strings(bad)
	return overlay, bad, nil
}

func (in *instr) file(f *ast.File) {
	in.imps = map[string]string{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		if i.Name != nil {
			in.imps[p] = i.Name.Name
		} else if o, ok := in.info.Implicits[i].(*types.PkgName); ok {
			in.imps[p] = o.Name()
		}
	}
	for _, d := range f.Decls {
		in.children(d)
	}
}

// keepImports uses the imports that may have become unused.
func keepImports(f *ast.File) string {
	s := ""
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := filepath.Base(p)
		if i.Name != nil {
			n = i.Name.Name
		}
		if n == "_" || n == "." {
			continue
		}
		switch p {
		case "sync":
			s += "\nvar _ " + n + ".Mutex\n"
		case "time":
			s += "\nvar _ " + n + ".Duration\n"
		}
	}
	return s
}

// buildInstr builds the instrumented tool; it is named c-for-go-instr (-race).
func (c *Ctx) buildInstr(race bool, mapsOf ...string) string {
	dir := filepath.Join(c.Scratch, "instr")
	os.MkdirAll(dir, 0755)
	ov, bad, err := instrument(c.Repo, dir, "github.com/xlab/c-for-go", mapsOf...)
	if err != nil {
		fatalf("instrumenting: %v", err)
	}
	if len(bad) > 0 {
		c.notes = append(c.notes, "not under the scheduler's control: "+strings.Join(bad, ", "))
	}
	bin := filepath.Join(c.Scratch, "c-for-go-instr")
	args := []string{"build", "-overlay", ov, "-o", bin}
	if race {
		bin += "-race"
		args = []string{"build", "-race", "-overlay", ov, "-o", bin}
	}
	_, e, code, _ := runCmd(c.Repo, goEnv("GOFLAGS=-mod=readonly -buildvcs=false"), 600*time.Second, "go", append(args, ".")...)
	if code != 0 {
		fatalf("building the instrumented tool: %s", firstLines(string(e), 30))
	}
	return bin
}
