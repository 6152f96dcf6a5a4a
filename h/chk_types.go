package main

import (
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func init() {
	checks["C08"] = check{"exploration", "a case is one declaration (base type, typedef layer, const, pointer depth, array dimensions, position) under one configuration; non-trivial = distinct (declaration shape, configuration)", runTypes}
}

const typPrelude = `#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <wchar.h>
#include <sys/types.h>
typedef int myint; typedef myint myint2; typedef unsigned char u8t; typedef float fl; typedef volatile unsigned short vus;
typedef enum { EA, EB } en; enum et { EC, ED }; typedef enum { NA = -5, NB } nen;
typedef struct { int a; float b; } st; typedef struct tagst { short x; } tst; struct plainst { int z; };
typedef struct op2 opq; typedef struct hop_T *hopq;
typedef union { int i; float f; char c[12]; } un;
typedef int (*cbk)(int a);
`

var typBases = []string{"char", "signed char", "unsigned char", "char unsigned", "short", "short int", "signed short", "unsigned short", "unsigned short int", "int", "signed", "signed int", "unsigned", "unsigned int", "int unsigned", "long", "long int", "signed long", "unsigned long", "long unsigned int", "long long", "long long int", "unsigned long long", "long long unsigned", "float", "double", "bool", "_Bool",
	"int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "size_t", "ssize_t", "intptr_t", "uintptr_t", "ptrdiff_t", "wchar_t", "intmax_t", "uintmax_t", "int_least16_t", "uint_fast32_t", "off_t", "volatile int",
	"void", "myint", "myint2", "u8t", "fl", "vus", "en", "enum et", "nen", "st", "tst", "struct plainst", "opq", "hopq", "un", "cbk"}

// shape is a type as a list of levels (i: indirection, aN: array of N) and a leaf.
type shape struct {
	lv   []string
	leaf string
}

func (s shape) String() string { return strings.Join(append(append([]string{}, s.lv...), s.leaf), " ") }

// baseLeaves asks the C compiler for kind and size of every base type.
func (c *Ctx) baseLeaves(bases []string) map[string]string {
	var sb strings.Builder
	sb.WriteString("#include <stdio.h>\n" + typPrelude + "int main(void) {\n")
	leaf := map[string]string{}
	var ask []string
	for _, b := range bases {
		switch b {
		case "void":
			leaf[b] = "void"
		case "en", "enum et", "nen":
			leaf[b] = "enum"
		case "st", "tst", "struct plainst", "opq", "hopq":
			leaf[b] = "struct " + strings.TrimPrefix(b, "struct ")
		case "cbk":
			leaf[b] = "func"
		case "un":
			leaf[b] = "union"
		case "char":
			leaf[b] = "char"
		default:
			ask = append(ask, b)
			fmt.Fprintf(&sb, "printf(\"%%s%%zu\\n\", _Generic((%[1]s)0, _Bool: \"b\", float: \"f\", double: \"f\", default: ((%[1]s)-1 < 0 ? \"i\" : \"u\")), sizeof(%[1]s));\n", b)
		}
	}
	sb.WriteString("return 0;}\n")
	d := filepath.Join(c.Scratch, "leaf")
	os.MkdirAll(d, 0755)
	os.WriteFile(filepath.Join(d, "p.c"), []byte(sb.String()), 0644)
	_, e, code, _ := runCmd(d, goEnv(), 60*time.Second, "gcc", "-w", "-std=gnu17", "-o", "p", "p.c")
	if code != 0 {
		fatalf("leaf probe: %s", e)
	}
	o, _, _, _ := runCmd(d, goEnv(), 60*time.Second, "./p")
	l := strings.Split(strings.TrimSpace(string(o)), "\n")
	if len(l) != len(ask) {
		fatalf("leaf probe: %d answers for %d questions", len(l), len(ask))
	}
	for i, b := range ask {
		leaf[b] = l[i]
	}
	return leaf
}

type goTypes struct {
	g     *Gen
	decls map[string]ast.Expr
	funcs map[string]*ast.FuncDecl
}

func newGoTypes(out map[string]string) *goTypes {
	t := &goTypes{g: parseOut(out), decls: map[string]ast.Expr{}, funcs: map[string]*ast.FuncDecl{}}
	for _, f := range t.g.Files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					t.funcs[d.Name.Name] = d
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if ts, ok := s.(*ast.TypeSpec); ok {
						t.decls[ts.Name.Name] = ts.Type
					}
				}
			}
		}
	}
	return t
}

var goBasics = map[string]string{"int8": "i1", "int16": "i2", "int32": "i4", "rune": "i4", "int64": "i8", "uint8": "u1", "byte": "u1", "uint16": "u2", "uint32": "u4", "uint64": "u8", "float32": "f4", "float64": "f8", "bool": "b1"}

// shapeOf resolves a Go type to its representation.
func (t *goTypes) shapeOf(e ast.Expr, depth int) shape {
	if depth > 12 {
		return shape{leaf: "recursive"}
	}
	in := func(lv string, e ast.Expr) shape {
		s := t.shapeOf(e, depth+1)
		s.lv = append([]string{lv}, s.lv...)
		return s
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return t.shapeOf(e.X, depth+1)
	case *ast.StarExpr:
		return in("i", e.X)
	case *ast.ArrayType:
		if e.Len == nil {
			return in("i", e.Elt)
		}
		n := t.g.str(e.Len)
		if id, ok := e.Elt.(*ast.Ident); ok && n == "0" && id.Name == "byte" {
			return shape{leaf: "void"}
		}
		if strings.HasPrefix(n, "sizeof") {
			return shape{leaf: "union"} // the constant is unsafe.Sizeof of the C type
		}
		return in("a"+n, e.Elt)
	case *ast.SelectorExpr:
		s := t.g.str(e)
		if s == "unsafe.Pointer" {
			return shape{lv: []string{"i"}, leaf: "void"}
		}
		return shape{leaf: s}
	case *ast.FuncType:
		return shape{leaf: "func"}
	case *ast.StructType:
		return shape{leaf: "struct"}
	case *ast.Ident:
		if b, ok := goBasics[e.Name]; ok {
			return shape{leaf: b}
		}
		if e.Name == "string" {
			return shape{lv: []string{"i"}, leaf: "u1"}
		}
		d, ok := t.decls[e.Name]
		if !ok {
			return shape{leaf: "undeclared " + e.Name}
		}
		s := t.shapeOf(d, depth+1)
		if len(s.lv) == 0 && (s.leaf == "struct" || strings.HasPrefix(s.leaf, "C.")) {
			s.leaf = "struct " + e.Name
		}
		return s
	}
	return shape{leaf: fmt.Sprintf("%T", e)}
}

var layerName = rx(`^struct B(\d+)[tpam]+0?$`)

// leafFits tells whether a Go leaf represents a C leaf.
func leafFits(want, got string) bool {
	switch {
	case want == got:
		return true
	case want == "char":
		return got == "u1" || got == "i1"
	case want == "enum":
		return got == "i4" || got == "u4"
	case strings.HasPrefix(want, "struct "):
		if m := layerName.FindStringSubmatch(got); m != nil {
			k, _ := strconv.Atoi(m[1])
			got = "struct " + strings.TrimPrefix(typBases[k], "struct ")
		}
		return strings.EqualFold(strings.ReplaceAll(want, "_", ""), strings.ReplaceAll(got, "_", ""))
	}
	return false
}

type tdecl struct {
	pos, base, layer, dims string
	cnst                   bool
	ptr                    int
	text, key              string
	want                   shape
}

var typLayers = []string{"", "t", "tt", "p", "a", "m"}

func layerDecl(k int, base, layer string) string {
	b := fmt.Sprintf("b%d", k)
	switch layer {
	case "t":
		return "typedef " + base + " " + b + "t;\n"
	case "tt":
		return "typedef " + base + " " + b + "t0; typedef " + b + "t0 " + b + "tt;\n"
	case "p":
		return "typedef " + base + " *" + b + "p;\n"
	case "a":
		return "typedef " + base + " " + b + "a[4];\n"
	case "m":
		return "typedef " + base + " " + b + "m[4][5];\n"
	}
	return ""
}

var layerLevels = map[string][]string{"p": {"i"}, "a": {"a4"}, "m": {"a4", "a5"}}

func typDecls(c *Ctx, leaf map[string]string, positions []string) []*tdecl {
	var out []*tdecl
	maxPtr, dims := 2, []string{"", "[2]", "[2][3]"}
	if c.Thorough() {
		maxPtr, dims = 3, []string{"", "[2]", "[2][3]", "[2][3][7]", "[1]"}
	}
	for _, pos := range positions {
		for k, b := range typBases {
			for _, ly := range typLayers {
				for _, cn := range []bool{false, true} {
					for p := 0; p <= maxPtr; p++ {
						for _, d := range dims {
							x := &tdecl{pos: pos, base: b, layer: ly, dims: d, cnst: cn, ptr: p}
							if typUnsupported(x) {
								continue
							}
							tn := b
							if ly != "" {
								tn = fmt.Sprintf("b%d%s", k, ly)
							}
							t := tn + " " + strings.Repeat("*", p)
							if cn {
								t = "const " + t
							}
							x.text = compText(pos, t, d)
							if x.text == "" {
								continue
							}
							x.key = strings.ReplaceAll(strings.ReplaceAll(layerDecl(k, b, ly), "\n", " ")+x.text, "@", "v")
							lv := []string{}
							for _, n := range strings.FieldsFunc(d, func(r rune) bool { return r == '[' || r == ']' }) {
								lv = append(lv, "a"+n)
							}
							for i := 0; i < p; i++ {
								lv = append(lv, "i")
							}
							lv = append(lv, layerLevels[ly]...)
							if (pos == "param" || pos == "params" || pos == "unnamed" || pos == "cbparam") && len(lv) > 0 && lv[0][0] == 'a' {
								lv[0] = "i"
							}
							x.want = shape{lv, leaf[b]}
							if !typModel.MatchString(strings.TrimSuffix(x.want.String(), "i void")) {
								continue // the tool's own type model has no such shape (it says so and stops)
							}
							out = append(out, x)
						}
					}
				}
			}
		}
	}
	return out
}

// typModel: c-for-go's types are arrays of pointers to arrays of something.
var typModel = rx(`^(a\d+ )*(i )*(a\d+ )*(struct )?[^ ]*$`)

// typUnsupported delimits the domain: C that is invalid, and shapes that c-for-go cannot bind (C03).
func typUnsupported(x *tdecl) bool {
	arr := x.layer == "a" || x.layer == "m"
	total := x.ptr
	if x.layer == "p" {
		total++
	}
	if x.base == "void" && (total == 0 || x.layer == "t" || x.layer == "tt" || arr) || x.base == "opq" && (total == 0 || arr) {
		return true
	}
	if x.base == "void" && x.layer == "p" {
		return true // a typedef of void* is a pointer to the Go type
	}
	if x.base == "cbk" && (total > 0 || x.dims != "" || arr) {
		return true // C03: pointers to function pointers
	}
	if x.pos == "ret" && (x.base == "volatile int" || x.base == "vus") {
		return true // the C front end has no results of volatile type
	}
	if (x.base == "hopq" || x.base == "void" && total == 1) && x.dims == "[2][3]" {
		return true // arrays of arrays of handles have no Go type in the tool's model
	}
	if leafEnum[x.base] && x.pos == "typedef" && (total > 0 || x.dims != "" || arr) {
		return true // typedefs of pointers to enums are not declared and never referred to
	}
	switch x.base {
	case "st", "tst", "struct plainst", "opq", "hopq", "un":
		if x.layer == "p" || arr {
			return true // C03: typedefs of pointers to structs
		}
		if x.pos == "typedef" && (x.ptr > 0 || x.dims != "") {
			return true
		}
	}
	if x.pos == "ret" && arr && x.ptr == 0 || x.pos == "cbret" && arr && x.ptr == 0 {
		return true // a function cannot return an array
	}
	return false
}

var leafEnum = map[string]bool{"en": true, "enum et": true, "nen": true}

type typCfg struct {
	name string
	mod  func(m M)
}

func runTypes(c *Ctx) {
	leaf := c.baseLeaves(typBases)
	c.Extra("leaves", leaf)
	positions := []string{"param", "params", "unnamed", "ret", "member", "members", "typedef", "cbparam"}
	every := typDecls(c, leaf, positions)
	cfgs := compCfgs()
	type grp struct {
		cfg compCfg
		ds  []*tdecl
	}
	var gs []grp
	for _, cfg := range cfgs {
		if o := os.Getenv("VCK_CFG"); o != "" && o != cfg.name {
			continue
		}
		const size = 300
		all := every
		if cfg.name == "rawmem" { // raw structs have accessors instead of fields
			all = nil
			for _, d := range every {
				if d.pos != "member" && d.pos != "members" {
					all = append(all, d)
				}
			}
		}
		for i := 0; i < len(all); i += size {
			gs = append(gs, grp{cfg, all[i:min(i+size, len(all))]})
		}
	}
	n := c.Par(len(gs), func(i int) { c.typGroup(gs[i].cfg, gs[i].ds) })
	c.Extra("runs", n)
}

func (c *Ctx) typGroup(cfg compCfg, ds []*tdecl) {
	var sb strings.Builder
	sb.WriteString(typPrelude)
	idx := map[string]int{}
	for i, b := range typBases {
		idx[b] = i
	}
	seen := map[string]bool{}
	for i, d := range ds {
		if k := d.base + "|" + d.layer; d.layer != "" && !seen[k] {
			seen[k] = true
			sb.WriteString(layerDecl(idx[d.base], d.base, d.layer))
		}
		sb.WriteString(strings.ReplaceAll(d.text, "@", fmt.Sprintf("v%dx", i)) + "\n")
	}
	m := compManifest(compCfg{cfg.name, cfg.mod}, "h/a.h")
	j := &Job{Files: map[string]string{"h/a.h": sb.String()}, Manifest: m, Args: []string{"-ccdefs", "-ccincl"}, Keep: true}
	r := c.Run(j)
	defer os.RemoveAll(r.Dir)
	fail := func(d *tdecl, what string) {
		c.Violate(cfg.name+" | "+d.key, what, withOut(jobFiles(j), r))
	}
	if r.Code != 0 {
		if len(ds) == 1 {
			c.Eval(cfg.name + "|" + ds[0].key)
			fail(ds[0], "the run fails: "+firstLines(r.Stderr+r.Stdout, 3))
			return
		}
		if c.Expired() {
			return
		}
		c.typGroup(cfg, ds[:len(ds)/2])
		c.typGroup(cfg, ds[len(ds)/2:])
		return
	}
	t := newGoTypes(r.Out)
	for _, e := range t.g.Errs {
		if strings.Contains(e, "cgo_helpers.") {
			continue // marshalling code is C03's business
		}
		fail(ds[0], "generated code does not parse: "+e)
	}
	for i, d := range ds {
		c.Eval(cfg.name + "|" + d.key)
		n := fmt.Sprintf("V%dx", i)
		var e ast.Expr
		field := func(typ ast.Expr, want string) {
			st, ok := typ.(*ast.StructType)
			if !ok {
				return
			}
			for _, f := range st.Fields.List {
				for _, id := range f.Names {
					if id.Name == want {
						e = f.Type
					}
				}
			}
		}
		want := d.want
		switch d.pos {
		case "param", "params", "unnamed":
			if f := t.funcs[n]; f != nil {
				k := 0
				if d.pos == "unnamed" {
					k = 1
				}
				if d.pos == "params" && f.Type.Params.NumFields() != 3 {
					fail(d, fmt.Sprintf("%d parameters", f.Type.Params.NumFields()))
				}
				x := 0
				for _, p := range f.Type.Params.List {
					for y := 0; y < max(1, len(p.Names)); y++ {
						if x == k {
							e = p.Type
						}
						x++
					}
				}
			}
		case "ret":
			if f := t.funcs[n]; f != nil && f.Type.Results.NumFields() == 1 {
				e = f.Type.Results.List[0].Type
			}
		case "member", "members":
			field(t.decls[n], "M")
		case "typedef":
			e = t.decls[n]
		case "cbparam":
			if f, ok := t.decls[n].(*ast.FuncType); ok && f.Params.NumFields() == 2 {
				e = f.Params.List[0].Type
			}
		}
		if e == nil {
			fail(d, n+" is not generated")
			continue
		}
		got := t.shapeOf(e, 0)
		if d.pos == "typedef" && len(want.lv) == 0 && strings.HasPrefix(want.leaf, "struct ") {
			want.leaf = "struct" // of whatever name
			if strings.HasPrefix(got.leaf, "struct ") || strings.HasPrefix(got.leaf, "C.") {
				got.leaf = "struct"
			}
		}
		if strings.Join(want.lv, " ") != strings.Join(got.lv, " ") || !leafFits(want.leaf, got.leaf) {
			fail(d, fmt.Sprintf("the C type is [%s], the Go type %s is [%s]", want, t.g.str(e), got))
		}
		if i%97 == 0 {
			c.Sample(map[string]string{"c": strings.ReplaceAll(d.key, "@", "v"), "go": t.g.str(e), "cfg": cfg.name})
		}
	}
}
