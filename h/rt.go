package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

//go:embed rt/impl.c.txt
var rtImpl string

//go:embed rt/drv.go.txt
var rtDrv string

//go:embed rt/ops.go.txt
var rtOps string

// rtD describes a C type; the driver has the same type as vckD.
type rtD struct {
	K     string
	B     int     `json:",omitempty"`
	N     int     `json:",omitempty"`
	Const bool    `json:",omitempty"`
	E     *rtD    `json:",omitempty"`
	F     []rtFld `json:",omitempty"`
	T     int     `json:",omitempty"`
	c     string  // C type name of scalars and structs
	key   string  // declaration of a struct
	blob  bool    // a union: bytes
}

type rtFld struct {
	N string
	D *rtD
	c string // C member name
}

type rtFn struct {
	Name, Key string
	P         []*rtD
	R         *rtD `json:",omitempty"`
	NoPost    bool `json:",omitempty"`
	NoLeak    bool `json:",omitempty"`
	decl      string
	ret       string
}

func rtInt(c string, b int) *rtD  { return &rtD{K: "int", B: b, c: c} }
func rtUint(c string, b int) *rtD { return &rtD{K: "uint", B: b, c: c} }
func rtFlt(c string, b int) *rtD  { return &rtD{K: "float", B: b, c: c} }
func rtPtr(e *rtD, n int, cn bool) *rtD {
	return &rtD{K: "ptr", N: n, E: e, Const: cn}
}
func rtArr(e *rtD, n int) *rtD { return &rtD{K: "arr", N: n, E: e} }

var rtStr = &rtD{K: "str", c: "const char *"}
var rtVp = &rtD{K: "vptr", c: "void *"}

// rtScalars are the scalar C types.
var rtScalars = []*rtD{
	rtUint("char", 8), rtInt("signed char", 8), rtUint("unsigned char", 8), rtInt("short", 16), rtUint("unsigned short", 16), rtInt("int", 32), rtUint("unsigned", 32),
	rtInt("long", 64), rtUint("unsigned long", 64), rtInt("long long", 64), rtUint("unsigned long long", 64), rtFlt("float", 32), rtFlt("double", 64), {K: "bool", c: "bool"},
	rtUint("size_t", 64), rtInt("int8_t", 8), rtUint("uint8_t", 8), rtInt("int16_t", 16), rtUint("uint16_t", 16), rtInt("int32_t", 32), rtUint("uint32_t", 32), rtInt("int64_t", 64), rtUint("uint64_t", 64),
	rtInt("intptr_t", 64), rtUint("uintptr_t", 64), rtInt("ptrdiff_t", 64), rtInt("wchar_t", 32),
	rtInt("myint", 32), rtInt("myint2", 32), rtUint("u8t", 8), rtFlt("fl", 32), {K: "enum", c: "en"}, {K: "enum", c: "enum et"},
}

const rtPrelude = `#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
typedef int myint; typedef myint myint2; typedef unsigned char u8t; typedef float fl;
typedef enum { EA, EB, EC2, ED2 } en; enum et { EC, ED, EE, EF };
typedef struct { int a; double d; } st; typedef struct tagst { short x; unsigned char y; long long z; } tst; struct plainst { float z; bool w; };
typedef struct { short n; st s; tst ts[2]; int arr[3]; unsigned char m[2][3]; en e; double q; } flat;
typedef struct { int n; int *pi; const char *name; st *ps; float k; } rich;
typedef struct op2 opq; typedef struct hop_T *hopq; typedef void *hnd;
`

func rtStructs() map[string]*rtD {
	i := func(n string) *rtD {
		for _, s := range rtScalars {
			if s.c == n {
				return s
			}
		}
		panic(n)
	}
	st := &rtD{K: "struct", c: "st", F: []rtFld{{"A", i("int"), "a"}, {"D", i("double"), "d"}}}
	tst := &rtD{K: "struct", c: "tst", F: []rtFld{{"X", i("short"), "x"}, {"Y", i("unsigned char"), "y"}, {"Z", i("long long"), "z"}}}
	plain := &rtD{K: "struct", c: "struct plainst", F: []rtFld{{"Z", i("float"), "z"}, {"W", i("bool"), "w"}}}
	flat := &rtD{K: "struct", c: "flat", F: []rtFld{{"N", i("short"), "n"}, {"S", st, "s"}, {"Ts", rtArr(tst, 2), "ts"}, {"Arr", rtArr(i("int"), 3), "arr"}, {"M", rtArr(rtArr(i("unsigned char"), 3), 2), "m"}, {"E", i("en"), "e"}, {"Q", i("double"), "q"}}}
	rich := &rtD{K: "struct", c: "rich", F: []rtFld{{"N", i("int"), "n"}, {"Pi", rtPtr(i("int"), 3, false), "pi"}, {"Name", rtStr, "name"}, {"Ps", rtPtr(st, 2, false), "ps"}, {"K", i("float"), "k"}}}
	return map[string]*rtD{"st": st, "tst": tst, "struct plainst": plain, "flat": flat, "rich": rich}
}

// cGen writes C statements for a type.
type cGen struct {
	sb strings.Builder
	n  int
}

// rec writes statements that write down the value of expression e.
func (g *cGen) rec(d *rtD, e string) {
	if d.blob {
		fmt.Fprintf(&g.sb, "{ vck_o(); for (int b = 0; b < %d; b++) vck_u(((unsigned char*)&(%s))[b]); vck_c(); } ", d.N, e)
		return
	}
	switch d.K {
	case "int", "enum":
		fmt.Fprintf(&g.sb, "vck_i((long long)(%s)); ", e)
	case "uint":
		fmt.Fprintf(&g.sb, "vck_u((unsigned long long)(uint%d_t)(%s)); ", d.B, e)
	case "bool":
		fmt.Fprintf(&g.sb, "vck_u((unsigned long long)(%s)); ", e)
	case "float":
		fmt.Fprintf(&g.sb, "vck_f((double)(%s)); ", e)
	case "str":
		fmt.Fprintf(&g.sb, "vck_s((const char*)(%s)); ", e)
	case "vptr":
		fmt.Fprintf(&g.sb, "vck_p((const void*)(%s)); ", e)
	case "ptr", "arr":
		g.n++
		i := fmt.Sprintf("i%d", g.n)
		if d.K == "ptr" {
			fmt.Fprintf(&g.sb, "if (!(%s)) vck_nil(); else ", e)
		}
		fmt.Fprintf(&g.sb, "{ vck_o(); for (int %[1]s = 0; %[1]s < %[2]d; %[1]s++) { ", i, d.N)
		g.rec(d.E, "("+e+")["+i+"]")
		g.sb.WriteString("} vck_c(); } ")
	case "struct":
		for _, f := range d.F {
			g.rec(f.D, "("+e+")."+f.c)
		}
	}
}

// set writes statements that give lvalue e a value from the feed; fresh: pointers are allocated.
func (g *cGen) set(d *rtD, e string, fresh bool) {
	if d.blob {
		fmt.Fprintf(&g.sb, "for (int b = 0; b < %d; b++) ((unsigned char*)&(%s))[b] = (unsigned char)vck_pop(); ", d.N, e)
		return
	}
	lv := "*(" + strings.TrimSuffix(d.c, " ") + "*)&(" + e + ")"
	switch d.K {
	case "int", "enum", "uint", "bool":
		fmt.Fprintf(&g.sb, "%s = (%s)vck_pop(); ", lv, d.c)
	case "float":
		fmt.Fprintf(&g.sb, "%s = (%s)vck_popf(); ", lv, d.c)
	case "str", "vptr":
		fmt.Fprintf(&g.sb, "*(void**)&(%s) = vck_popp(); ", e)
	case "ptr":
		if !fresh && d.Const {
			return
		}
		g.n++
		i := fmt.Sprintf("i%d", g.n)
		if fresh {
			fmt.Fprintf(&g.sb, "if (!vck_pop()) *(void**)&(%[1]s) = 0; else { *(void**)&(%[1]s) = vck_arena(%[2]d * sizeof *(%[1]s)); ", e, d.N)
		} else {
			fmt.Fprintf(&g.sb, "if (%s) { ", e)
		}
		fmt.Fprintf(&g.sb, "for (int %[1]s = 0; %[1]s < %[2]d; %[1]s++) { ", i, d.N)
		g.set(d.E, "("+e+")["+i+"]", fresh)
		g.sb.WriteString("} } ")
	case "arr":
		g.n++
		i := fmt.Sprintf("i%d", g.n)
		fmt.Fprintf(&g.sb, "for (int %[1]s = 0; %[1]s < %[2]d; %[1]s++) { ", i, d.N)
		g.set(d.E, "("+e+")["+i+"]", fresh)
		g.sb.WriteString("} ")
	case "struct":
		for _, f := range d.F {
			g.set(f.D, "("+e+")."+f.c, fresh)
		}
	}
}

// rtClass is a kind of parameter or result: its C declarator (@ is the name) and its description.
type rtClass struct {
	c string
	d *rtD
}

// cFunc writes the C definition of a function.
func (f *rtFn) cFunc(g *cGen, ret string) {
	fmt.Fprintf(&g.sb, "%s {\n\t", strings.TrimSuffix(f.decl, ";"))
	for k := 0; k < 2; k++ {
		for i, d := range f.P {
			g.rec(d, fmt.Sprintf("p%d", i))
			g.sb.WriteString("vck_semi(); ")
		}
		g.sb.WriteString("vck_mark(); ")
		if k == 0 {
			g.sb.WriteString("vckGoHook();\n\t")
		}
	}
	g.sb.WriteString("\n\t")
	for i, d := range f.P {
		if d.K == "ptr" {
			g.set(d, fmt.Sprintf("p%d", i), false)
		}
	}
	if f.R != nil {
		fmt.Fprintf(&g.sb, "\n\tstatic %s; ", strings.ReplaceAll(ret, "@", "r"))
		g.set(f.R, "r", true)
		g.sb.WriteString("return r; ")
	}
	g.sb.WriteString("\n}\n")
}

// rtPkg is a package under test together with its driver.
type rtPkg struct {
	hdr     string
	fns     []*rtFn
	cbs     []*rtFn
	structs []*rtD // numbered from 1 (T)
	cfg     compCfg
	extraGo string
	extraC  string
}

const rtImplHead = `
extern void vckGoHook(void);
static void vck_semi(void) { put("; ", 2); }
`

// build generates, lays out and compiles the package; it returns the executable.
func (p *rtPkg) build(c *Ctx) (string, *PkgResult, *goTypes) {
	j := &Job{Files: map[string]string{"h/a.h": p.hdr}, Manifest: compManifest(p.cfg, "h/a.h"), Keep: true}
	sub(j.Manifest, "GENERATOR")["PackageName"] = "main"
	pk := c.genPkg(j, nil)
	if pk.Code != 0 {
		return "", pk, nil
	}
	t := newGoTypes(pk.Gen.Out)
	var g cGen
	g.sb.WriteString(rtImpl + "#include \"h/a.h\"\n" + rtImplHead)
	for _, f := range p.fns {
		f.cFunc(&g, f.ret)
	}
	for _, k := range []string{"rec", "mut"} {
		fmt.Fprintf(&g.sb, "void vck_%s(int i, void *p) { switch (i) {\n", k)
		for _, d := range p.structs {
			fmt.Fprintf(&g.sb, "case %d: { %s *x = p; ", d.T, d.c)
			if k == "rec" {
				g.rec(d, "*x")
			} else {
				g.set(d, "*x", false)
			}
			g.sb.WriteString("break; }\n")
		}
		g.sb.WriteString("} }\n")
	}
	g.sb.WriteString("void *vck_make(int i) { switch (i) {\n")
	for _, d := range p.structs {
		fmt.Fprintf(&g.sb, "case %d: { %s *x = vck_arena(sizeof *x); ", d.T, d.c)
		g.set(d, "*x", true)
		g.sb.WriteString("return x; }\n")
	}
	g.sb.WriteString("} return 0; }\n" + p.extraC)
	var drv strings.Builder
	drv.WriteString(rtDrv + "\nconst vckTable = " + strconv.Quote(string(mustJSON(p.fns))) + "\n")
	if len(p.fns) == 0 {
		drv.Reset()
		drv.WriteString(rtDrv + "\nconst vckTable = `[]`\n")
	}
	var calls, drops strings.Builder
	for _, f := range p.fns {
		fd := t.funcs[goExport(f.Name)]
		if fd == nil {
			pk.Code, pk.Log = 1, f.Key+": not generated"
			return "", pk, t
		}
		var types []string
		for _, q := range fd.Type.Params.List {
			for k := 0; k < max(1, len(q.Names)); k++ {
				types = append(types, t.g.str(q.Type))
			}
		}
		if len(types) != len(f.P) {
			pk.Code, pk.Log = 1, fmt.Sprintf("%s: %d parameters", f.Key, len(types))
			return "", pk, t
		}
		var mk, args, posts, inl []string
		for i, ty := range types {
			mk = append(mk, fmt.Sprintf("a%d := vckMk[%s](%d)", i, ty, i))
			args = append(args, fmt.Sprintf("a%d", i))
			inl = append(inl, fmt.Sprintf("vckMk[%s](%d)", ty, i))
			posts = append(posts, fmt.Sprintf("vckPost(%d, &a%d)", i, i))
		}
		call := fd.Name.Name + "(" + strings.Join(args, ", ") + ")"
		drop := fd.Name.Name + "(" + strings.Join(inl, ", ") + ")"
		if f.R != nil {
			call = "r := " + call
			drop = "vckRet(" + drop + ")"
			posts = append(posts, "vckRet(r)")
		}
		fmt.Fprintf(&calls, "\tfunc() { %s },\n", strings.Join(append(append(mk, call), posts...), "; "))
		fmt.Fprintf(&drops, "\tfunc() { %s },\n", drop)
	}
	fmt.Fprintf(&drv, "var vckCalls = []func(){\n%s}\nvar vckDrops = []func(){\n%s}\n", calls.String(), drops.String())
	ops := rtOps
	var tab strings.Builder
	for _, d := range p.structs {
		gn := goStructName(t, d.c)
		if gn == "" {
			continue
		}
		fmt.Fprintf(&tab, "\t{Name: %q, T: %d, Type: reflect.TypeOf(%s{}), NewRef: func(p unsafe.Pointer) any { return New%sRef(p) }, D: vckParse(%q),\n\t\tRec: func(x any) (unsafe.Pointer, any) { r, a := x.(*%s).PassRef(); return unsafe.Pointer(r), a },\n\t\tVal: func(x any) (unsafe.Pointer, any) { r, a := x.(*%s).PassValue(); return unsafe.Pointer(&r), a },\n\t\tRef: func(x any) unsafe.Pointer { return unsafe.Pointer(x.(*%s).Ref()) }},\n", d.key, d.T, gn, gn, string(mustJSON(d)), gn, gn, gn)
	}
	ops += "\nvar vckStructs = []*vckS{\n" + tab.String() + "}\n"
	files := map[string]string{"vck_impl.c": g.sb.String(), "vck_drv.go": drv.String(), "vck_ops.go": ops, "go.mod": "module x\ngo 1.21\n"}
	if p.extraGo != "" {
		files["vck_extra.go"] = p.extraGo
	}
	for n, s := range files {
		os.WriteFile(filepath.Join(pk.Dir, n), []byte(s), 0644)
	}
	exe := filepath.Join(pk.Dir, "x.exe")
	o, e, code, to := runCmd(pk.Dir, goEnv("GOFLAGS=-mod=mod -buildvcs=false", "CGO_CFLAGS=-O1 -w", "CGO_LDFLAGS=-lpthread"), 600*time.Second, "go", "build", "-gcflags=-e", "-o", exe, ".")
	pk.Log, pk.Code, pk.TO = string(o)+string(e), code, to
	return exe, pk, t
}

func goExport(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

func goStructName(t *goTypes, c string) string {
	n := goExport(strings.TrimPrefix(c, "struct "))
	if _, ok := t.decls[n].(*ast.StructType); ok {
		return n
	}
	return ""
}

var rtFail = regexp.MustCompile(`(?m)^FAIL ("(?:[^"\\]|\\.)*") ("(?:[^"\\]|\\.)*")$`)
var rtStates = regexp.MustCompile(`(?m)^STATES (.*) (\d+)$`)
var rtAt = regexp.MustCompile(`(?m)^@(\d+)$`)

// run runs the driver; when it crashes, the function at fault is reported and the rest goes on.
func (p *rtPkg) run(c *Ctx, exe string, pk *PkgResult, env ...string) {
	start := 0
	for round := 0; round < 40; round++ {
		o, e, code, to := runCmd(pk.Dir, goEnv(append([]string{"VCK_START=" + strconv.Itoa(start), "GODEBUG=clobberfree=1", "GOTRACEBACK=single"}, env...)...), 600*time.Second, exe)
		for _, m := range rtFail.FindAllStringSubmatch(string(o), -1) {
			k, _ := strconv.Unquote(m[1])
			w, _ := strconv.Unquote(m[2])
			c.Violate(p.cfg.name+" | "+k, w, p.files(pk, k))
		}
		if i := strings.LastIndex(string(o), "\nDONE "); i >= 0 || strings.HasPrefix(string(o), "DONE ") {
			if m := rtStates.FindStringSubmatch(string(o)); m != nil {
				for _, k := range strings.Split(m[1], ";") {
					c.State(k)
				}
				n, _ := strconv.ParseInt(m[2], 10, 64)
				c.Transition(n)
				c.Validated(n)
			}
			n, _ := strconv.Atoi(strings.TrimSpace(string(o)[i+6:]))
			c.EvalN(int64(n))
			return
		}
		at := rtAt.FindAllStringSubmatch(string(e), -1)
		if len(at) == 0 {
			fatalf("driver %s: exit %d timeout %v: %s", p.cfg.name, code, to, firstLines(string(e)+string(o), 10))
		}
		i, _ := strconv.Atoi(at[len(at)-1][1])
		what := "the program dies: "
		if to {
			what = "the program hangs: "
		}
		msg := string(e)
		if k := strings.LastIndex(msg, "\n@"); k >= 0 {
			msg = msg[k+1:]
		}
		key := fmt.Sprint(i)
		if i < len(p.fns) {
			key = p.fns[i].Key
		} else if len(p.fns) == 0 && i < len(p.structs) {
			key = p.structs[i].key
		} else if i < len(p.cbs) {
			key = p.cbs[i].Key
		}
		c.Violate(p.cfg.name+" | "+key, what+firstLines(msg, 5), p.files(pk, key))
		start = i + 1
	}
}

func (p *rtPkg) files(pk *PkgResult, key string) map[string][]byte {
	f := map[string][]byte{"a.h": []byte(p.hdr), "key.txt": []byte(key + "\n")}
	for n, s := range pk.Gen.Out {
		f["out/"+n] = []byte(s)
	}
	for _, n := range []string{"vck_drv.go", "vck_impl.c", "vck_ops.go"} {
		if b, err := os.ReadFile(filepath.Join(pk.Dir, n)); err == nil {
			f["out/"+n] = b
		}
	}
	return f
}

var _ = json.Marshal
