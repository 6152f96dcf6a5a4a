package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"path"
	"sort"
	"strconv"
	"strings"
)

// Gen is a parsed output package.
type Gen struct {
	Fset  *token.FileSet
	Files map[string]*ast.File // base name -> file
	Src   map[string]string
	Errs  []string
}

func parseOut(out map[string]string) *Gen {
	g := &Gen{Fset: token.NewFileSet(), Files: map[string]*ast.File{}, Src: map[string]string{}}
	for _, n := range sortedKeys(out) {
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		b := path.Base(n)
		g.Src[b] = out[n]
		f, err := parser.ParseFile(g.Fset, n, out[n], parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			g.Errs = append(g.Errs, err.Error())
			continue
		}
		g.Files[b] = f
	}
	return g
}

func (g *Gen) str(n ast.Node) string {
	if n == nil {
		return ""
	}
	var b bytes.Buffer
	printer.Fprint(&b, g.Fset, n)
	return b.String()
}

type goFunc struct {
	Name, Recv string
	Params     [][2]string // name, type
	Results    []string
	Calls      []string // C functions called
	File       string
	Decl       *ast.FuncDecl
	Doc        string
}

func (g *Gen) sortedFiles() []string {
	k := make([]string, 0)
	for n := range g.Files {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

func (g *Gen) Funcs() []goFunc {
	var out []goFunc
	for _, n := range g.sortedFiles() {
		for _, d := range g.Files[n].Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			f := goFunc{Name: fd.Name.Name, File: n, Decl: fd, Doc: docText(fd.Doc)}
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				f.Recv = g.str(fd.Recv.List[0].Type)
			}
			if fd.Type.Params != nil {
				for _, p := range fd.Type.Params.List {
					if len(p.Names) == 0 {
						f.Params = append(f.Params, [2]string{"", g.str(p.Type)})
					}
					for _, nm := range p.Names {
						f.Params = append(f.Params, [2]string{nm.Name, g.str(p.Type)})
					}
				}
			}
			if fd.Type.Results != nil {
				for _, p := range fd.Type.Results.List {
					f.Results = append(f.Results, g.str(p.Type))
				}
			}
			if fd.Body != nil {
				ast.Inspect(fd.Body, func(x ast.Node) bool {
					if ce, ok := x.(*ast.CallExpr); ok {
						if se, ok := ce.Fun.(*ast.SelectorExpr); ok {
							if id, ok := se.X.(*ast.Ident); ok && id.Name == "C" {
								f.Calls = append(f.Calls, se.Sel.Name)
							}
						}
					}
					return true
				})
			}
			out = append(out, f)
		}
	}
	return out
}

type goType struct {
	Name, Def string
	Fields    [][2]string
	Params    [][2]string
	Results   []string
	File, Doc string
	Line      int
}

func docText(c *ast.CommentGroup) string {
	if c == nil {
		return ""
	}
	var l []string
	for _, x := range c.List {
		l = append(l, x.Text)
	}
	return strings.Join(l, "\n")
}

func (g *Gen) Types() []goType {
	var out []goType
	for _, n := range g.sortedFiles() {
		for _, d := range g.Files[n].Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.TYPE {
				continue
			}
			for _, s := range gd.Specs {
				ts := s.(*ast.TypeSpec)
				t := goType{Name: ts.Name.Name, Def: g.str(ts.Type), File: n, Doc: docText(gd.Doc)}
				if st, ok := ts.Type.(*ast.StructType); ok {
					for _, f := range st.Fields.List {
						for _, nm := range f.Names {
							t.Fields = append(t.Fields, [2]string{nm.Name, g.str(f.Type)})
						}
					}
				}
				if ft, ok := ts.Type.(*ast.FuncType); ok {
					for _, p := range ft.Params.List {
						for _, nm := range p.Names {
							t.Params = append(t.Params, [2]string{nm.Name, g.str(p.Type)})
						}
					}
					if ft.Results != nil {
						for _, p := range ft.Results.List {
							t.Results = append(t.Results, g.str(p.Type))
						}
					}
				}
				out = append(out, t)
			}
		}
	}
	return out
}

type goConst struct {
	Name, Type, Val string
	File, Doc       string
	Var             bool
}

func (g *Gen) Consts() []goConst {
	var out []goConst
	for _, n := range g.sortedFiles() {
		for _, d := range g.Files[n].Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || (gd.Tok != token.CONST && gd.Tok != token.VAR) {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, nm := range vs.Names {
					c := goConst{Name: nm.Name, Type: g.str(vs.Type), File: n, Var: gd.Tok == token.VAR}
					if i < len(vs.Values) {
						c.Val = g.str(vs.Values[i])
					}
					if vs.Doc != nil {
						c.Doc = docText(vs.Doc)
					} else {
						c.Doc = docText(gd.Doc)
					}
					out = append(out, c)
				}
			}
		}
	}
	return out
}

// docLine returns the source line a "... in dir/file.h:N" comment names, or -1.
func docLine(doc string) int {
	i := strings.LastIndex(doc, ":")
	if i < 0 {
		return -1
	}
	n, err := strconv.Atoi(strings.TrimSpace(doc[i+1:]))
	if err != nil {
		return -1
	}
	return n
}
