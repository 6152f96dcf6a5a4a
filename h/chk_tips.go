package main

import (
	"fmt"
	"os"
	"strings"
)

func init() {
	checks["C09"] = check{"exploration", "a case is one declaration part (parameter, result, member, enum) under one list of tips, compared with the reference; non-trivial = distinct tip lists whose package differs from the one without tips", runTips}
}

const tipHeader = `typedef int myint;
typedef struct { int a; } st;
int **fa_one(int **p, myint q, const char *r);
myint fb_two(st *p, int **q, myint r, myint s);
const char *const fc_str(int *p, const char *q, int **r);
typedef int **(*cb_a)(int **p, myint q);
typedef myint (*cb_b)(myint p, int **q, const char *r);
struct tag_sa { int **m; myint n; const char *const o; };
typedef struct tag_sa sa_t;
typedef struct tag_sd { myint m; int **n; } sd_t;
typedef struct { int **m; myint n; int *o; } sc_anon;
struct sb_tag { myint m; int **n; st *o; };
struct fa_one { myint m; int **n; };
typedef struct { sa_t i; sb_ref j; sc_anon *k; struct fa_one *l; } so;
void fd_use(sa_t *p, sc_anon *q, struct sb_tag *r);
typedef enum { EA1 } en_a;
enum en_b { EB1 };
typedef enum en_ct { EC1 } en_c;
`

// a declaration and its parts; a part is one letter: p pointer pointer to int, m myint, u string, i int*, s st*, and struct kinds
type tipDecl struct {
	names []string // the names under which the tips know it; a struct with a typedef has only the name of the typedef
	goN   string
	parts []string
	ret   string
}

var tipFuncs = []tipDecl{
	{[]string{"fa_one"}, "Fa_one", []string{"p", "m", "u"}, "p"},
	{[]string{"fb_two"}, "Fb_two", []string{"s:St", "p", "m", "m"}, "m"},
	{[]string{"fc_str"}, "Fc_str", []string{"i", "u", "p"}, ""},
	{[]string{"fd_use"}, "Fd_use", []string{"s:Sa_t", "s:Sc_anon", "s:Sb_tag"}, ""},
}
var tipCbs = []tipDecl{
	{[]string{"cb_a"}, "Cb_a", []string{"p", "m"}, "p"},
	{[]string{"cb_b"}, "Cb_b", []string{"m", "p", "u"}, "m"},
}
var tipStructs = []tipDecl{
	{[]string{"sa_t"}, "Sa_t", []string{"p", "m", "u"}, ""},
	{[]string{"sd_t"}, "Sd_t", []string{"m", "p"}, ""},
	{[]string{"sc_anon"}, "Sc_anon", []string{"p", "m", "i"}, ""},
	{[]string{"fa_one"}, "S_one", []string{"m", "p"}, ""}, // has the name of a function
	{[]string{"sb_tag"}, "Sb_tag", []string{"m", "p", "s:St"}, ""},
}
var tipEnums = [][2]string{{"En_a", "En_a"}, {"En_b", "En_b"}, {"En_c", "En_c"}} // type, name that the tips see

// tipEntry is one entry of a tips table.
type tipEntry struct {
	scope, target string
	tips          []string
	def, self     string
}

func (e tipEntry) m() M {
	m := M{"target": e.target}
	if len(e.tips) > 0 {
		l := L{}
		for _, t := range e.tips {
			if t == "0" {
				l = append(l, 0)
			} else {
				l = append(l, t)
			}
		}
		m["tips"] = l
	}
	if e.def != "" {
		m["default"] = e.def
	}
	if e.self != "" {
		m["self"] = e.self
	}
	return m
}

func (e tipEntry) String() string {
	s := e.scope + " " + e.target
	if len(e.tips) > 0 {
		s += " [" + strings.Join(e.tips, " ") + "]"
	}
	if e.def != "" {
		s += " default " + e.def
	}
	if e.self != "" {
		s += " self " + e.self
	}
	return s
}

var tipKinds = map[string]string{"arr": "p", "ref": "p", "sref": "p", "inst": "p", "plain": "t", "named": "t", "string": "t", "unsigned": "t", "raw": "m"}

func (e *tipEntry) at(i int) string {
	if e == nil {
		return ""
	}
	if i < len(e.tips) && tipKinds[e.tips[i]] != "" {
		return e.tips[i]
	}
	return e.def
}
func (e *tipEntry) selfTip() string {
	if e == nil {
		return ""
	}
	if tipKinds[e.self] != "" {
		return e.self
	}
	return e.def
}

// tipTable is what the manifest says, in the order of the manifest.
type tipTable []tipEntry

// find: the entries of the scope in order, then those of "any"; types take the entries of structs before their own.
func (t tipTable) find(scope string, names ...string) *tipEntry {
	scopes := []string{scope, "any"}
	if scope == "type" {
		scopes = []string{"struct", "type", "any"}
	}
	for _, n := range names {
		for _, s := range scopes {
			for i := range t {
				if t[i].scope == s && rx(t[i].target).MatchString(n) {
					return &t[i]
				}
			}
		}
	}
	return nil
}

// findMem: memory tips have no scopes.
func (t tipTable) findMem(names ...string) *tipEntry {
	for _, n := range names {
		for i := range t {
			if rx(t[i].target).MatchString(n) {
				return &t[i]
			}
		}
	}
	return nil
}

func (t tipTable) m() M {
	m := M{}
	for _, e := range t {
		l, _ := m[e.scope].(L)
		m[e.scope] = append(l, e.m())
	}
	return m
}

func (t tipTable) String() string {
	var l []string
	for _, e := range t {
		l = append(l, e.String())
	}
	return strings.Join(l, ", ")
}

// tipText is the Go type of a part under a pointer tip and a type tip.
func tipText(part, ptr, typ string) string {
	switch part[0] {
	case 'p':
		return map[string]string{"arr": "[][]int32", "sref": "[]*int32", "ref": "**int32"}[ptr]
	case 'i':
		return map[string]string{"arr": "[]int32", "sref": "*int32", "ref": "*int32"}[ptr]
	case 'u':
		if typ == "string" {
			return "string"
		}
		return map[string]string{"arr": "[]byte", "sref": "*byte", "ref": "*byte"}[ptr]
	case 's':
		return map[string]string{"arr": "[]", "sref": "*", "ref": "*"}[ptr] + part[2:]
	case 'm':
		if typ == "plain" {
			return "int32"
		}
		return "Myint"
	}
	panic(part)
}

// base type of a part as the tips of types see it
func tipBase(part string) string {
	switch part[0] {
	case 'm':
		return "myint"
	case 'p', 'i':
		return "int"
	case 'u':
		return "char"
	}
	return map[string]string{"St": "st", "Sa_t": "sa_t", "Sc_anon": "sc_anon", "Sb_tag": "sb_tag"}[part[2:]]
}

type tipCase struct{ ptr, typ, mem tipTable }

func (t tipCase) key() string {
	var l []string
	if len(t.ptr) > 0 {
		l = append(l, "PtrTips: "+t.ptr.String())
	}
	if len(t.typ) > 0 {
		l = append(l, "TypeTips: "+t.typ.String())
	}
	if len(t.mem) > 0 {
		l = append(l, "MemTips: "+t.mem.String())
	}
	return strings.Join(l, "; ")
}

func orS(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// want is the reference: what each declaration looks like in Go.
func (t tipCase) want() map[string]string {
	w := map[string]string{}
	fn := func(d tipDecl, cb bool) {
		p, y := t.ptr.find("function", d.names...), t.typ.find("function", d.names...)
		var l []string
		for i, part := range d.parts {
			typ := y.at(i)
			if typ == "" {
				typ = t.typ.find("type", tipBase(part)).selfTip()
			}
			l = append(l, tipText(part, orS(p.at(i), "arr"), typ))
		}
		s := "(" + strings.Join(l, ", ") + ")"
		if d.ret != "" {
			s += " " + tipText(d.ret, orS(p.selfTip(), "ref"), y.selfTip())
		}
		w[d.goN] = s
	}
	for _, d := range tipFuncs {
		fn(d, false)
	}
	for _, d := range tipCbs {
		fn(d, true)
	}
	for _, d := range tipStructs {
		p, y, m := t.ptr.find("type", d.names...), t.typ.find("type", d.names...), t.mem.findMem(d.names...)
		if m.selfTip() == "raw" {
			w[d.goN] = "raw"
			continue
		}
		var l []string
		for i, part := range d.parts {
			ptr := orS(p.at(i), "arr")
			if m.at(i) == "raw" || t.mem.findMem(tipBase(part)).selfTip() == "raw" {
				ptr = "sref"
			}
			l = append(l, tipText(part, ptr, y.at(i)))
		}
		w[d.goN] = "{" + strings.Join(l, "; ") + "}"
	}
	for _, e := range tipEnums {
		w[e[0]] = "int32"
		if y := t.typ.find("enum", e[1]); y != nil {
			for _, x := range y.tips {
				if x == "unsigned" {
					w[e[0]] = "uint32"
				}
			}
		}
	}
	return w
}

func (t tipCase) manifest() M {
	m := stdManifest()
	m["GENERATOR"] = M{"PackageName": "p", "Includes": L{"h/a.h"}}
	m["PARSER"] = M{"SourcesPaths": L{"h/a.h"}}
	tr := sub(m, "TRANSLATOR")
	sub(tr, "Rules")["type"] = L{M{"action": "replace", "from": "^fa_one$", "to": "s_one"}}
	tr["ConstCharIsString"] = false // otherwise the tip "string" changes nothing
	if len(t.ptr) > 0 {
		tr["PtrTips"] = t.ptr.m()
	}
	if len(t.typ) > 0 {
		tr["TypeTips"] = t.typ.m()
	}
	if len(t.mem) > 0 {
		l := L{}
		for _, e := range t.mem {
			l = append(l, e.m())
		}
		tr["MemTips"] = l
	}
	return m
}

func join2(l [][2]string) string {
	var o []string
	for _, x := range l {
		o = append(o, x[1])
	}
	return strings.Join(o, ", ")
}

// tipGot reads the same off the generated package.
func tipGot(out map[string]string) map[string]string {
	g := parseOut(out)
	got := map[string]string{}
	for _, f := range g.Funcs() {
		if f.Recv == "" && strings.HasPrefix(f.Name, "F") {
			s := "(" + join2(f.Params) + ")"
			if len(f.Results) > 0 && f.Name != "Fc_str" {
				s += " " + strings.Join(f.Results, ", ")
			}
			got[f.Name] = s
		}
	}
	for _, t := range g.Types() {
		switch {
		case strings.HasPrefix(t.Def, "func"):
			s := "(" + join2(t.Params) + ")"
			if len(t.Results) > 0 {
				s += " " + strings.Join(t.Results, ", ")
			}
			got[t.Name] = s
		case strings.HasPrefix(t.Def, "struct"):
			var l []string
			for _, f := range t.Fields {
				if f[0][0] >= 'A' && f[0][0] <= 'Z' {
					l = append(l, f[1])
				}
			}
			got[t.Name] = "{" + strings.Join(l, "; ") + "}"
		case strings.HasPrefix(t.Def, "C."):
			got[t.Name] = "raw"
		default:
			got[t.Name] = t.Def
		}
	}
	return got
}

func (c *Ctx) tipRun(t tipCase, plain map[string]string) {
	j := &Job{Files: map[string]string{"h/a.h": strings.ReplaceAll(tipHeader, "sb_ref j;", "struct sb_tag j;")}, Manifest: t.manifest()}
	r := c.Run(j)
	k := t.key()
	if r.Code != 0 || r.TO {
		c.Violate(k, "the run fails: "+firstLines(r.Stderr+r.Stdout, 3), jobFiles(j))
		return
	}
	want, got := t.want(), tipGot(r.Out)
	differs := false
	for _, n := range sortedKeys(want) {
		g, w := got[n], want[n]
		if n == "Fc_str" { // parameters only
			g = strings.TrimSuffix(g, " ")
		}
		c.EvalN(1)
		if plain != nil && plain[n] != w {
			differs = true
		}
		if g != w {
			c.Violate(k, fmt.Sprintf("%s is %q, the tips say %q", n, g, w), withOut(jobFiles(j), r))
			return
		}
	}
	if differs {
		c.Distinct(k)
	}
	if strings.Contains(k, ",") {
		c.Sample(k)
	}
}

func runTips(c *Ctx) {
	plain := tipCase{}.want()
	var cases []tipCase
	targets := []string{".", "^fa", "^sa_t$", "^s", "^cb_", "^myint$", "a"}
	ptrDefs, ptrSelfs, typDefs, typSelfs := []string{"", "ref", "sref"}, []string{"", "arr"}, []string{"", "plain"}, []string{"", "named"}
	scopes := []string{"any", "function", "struct", "type", "enum"}
	if c.Thorough() {
		targets = append(targets, "_(one|sa|str)$", "^tag_sa$", "^int$")
		ptrDefs, ptrSelfs, typDefs, typSelfs = append(ptrDefs, "arr"), append(ptrSelfs, "sref"), append(typDefs, "string"), append(typSelfs, "plain")
	}
	// every single entry
	for _, sc := range scopes {
		for _, tg := range append(targets, "^En_c$") {
			for _, l := range [][]string{nil, {"plain"}, {"0", "plain"}, {"named", "string", "plain"}, {"plain", "plain", "string", "plain"}, {"unsigned"}, {"plain", "unsigned", "string"}} {
				for _, d := range typDefs {
					for _, s := range typSelfs {
						cases = append(cases, tipCase{typ: tipTable{{sc, tg, l, d, s}}})
					}
				}
			}
			if sc == "enum" && tg != "." && !c.Thorough() {
				continue // no pointers there
			}
			for _, l := range [][]string{nil, {"sref"}, {"0", "sref"}, {"ref", "arr", "sref"}, {"arr", "0", "ref", "sref"}} {
				for _, d := range ptrDefs {
					for _, s := range ptrSelfs {
						cases = append(cases, tipCase{ptr: tipTable{{sc, tg, l, d, s}}})
					}
				}
			}
		}
	}
	mems := func() (o []tipEntry) {
		for _, tg := range []string{".", "^sa_t$", "^s", "^st$", "_anon"} {
			o = append(o, tipEntry{"", tg, nil, "", "raw"}, tipEntry{"", tg, nil, "raw", ""}, tipEntry{"", tg, []string{"0", "raw"}, "", ""}, tipEntry{"", tg, nil, "", ""})
		}
		return
	}()
	for _, e := range mems {
		cases = append(cases, tipCase{mem: tipTable{e}})
	}
	singles := append([]tipCase{}, cases...)
	// ordered pairs within a table and pairs across tables, of a smaller catalogue
	var pc, tc []tipEntry
	for _, sc := range scopes[:4] {
		for _, tg := range []string{".", "^fa", "^s", "a$"} {
			pc = append(pc, tipEntry{sc, tg, []string{"ref", "sref", "sref"}, "", ""}, tipEntry{sc, tg, nil, "sref", "arr"})
		}
	}
	for _, sc := range scopes {
		for _, tg := range []string{".", "^fa", "^s|^my", "a$"} {
			if sc == "enum" {
				tg = "^" + map[string]string{".": "E", "^fa": "En_a", "^s|^my": "En_[bc]$", "a$": "en"}[tg]
				tc = append(tc, tipEntry{sc, tg, []string{"unsigned"}, "", ""}, tipEntry{sc, tg, []string{"plain"}, "", ""})
				continue
			}
			tc = append(tc, tipEntry{sc, tg, []string{"plain", "named", "string"}, "", ""}, tipEntry{sc, tg, nil, "plain", "named"})
		}
	}
	pairs := func(a []tipEntry, add func(tipTable)) {
		for i, x := range a {
			for k, y := range a {
				if k == i || x.scope != y.scope && k < i { // the order matters only within a scope
					continue
				}
				add(tipTable{x, y})
			}
		}
	}
	pairs(pc, func(t tipTable) { cases = append(cases, tipCase{ptr: t}) })
	pairs(tc, func(t tipTable) { cases = append(cases, tipCase{typ: t}) })
	pairs(mems, func(t tipTable) { cases = append(cases, tipCase{mem: t}) })
	for i, x := range pc {
		for k, y := range tc {
			if !c.Thorough() && (i+k/2)%2 > 0 {
				continue
			}
			cases = append(cases, tipCase{ptr: tipTable{x}, typ: tipTable{y}})
		}
		for i, z := range mems {
			if i%4 < 3 && (x.target == "^s" || c.Thorough()) {
				cases = append(cases, tipCase{ptr: tipTable{x}, mem: tipTable{z}})
			}
		}
	}
	if c.Thorough() {
		pairs(pc, func(t tipTable) {
			for _, x := range pc {
				cases = append(cases, tipCase{ptr: append(append(tipTable{}, t...), x)})
			}
		})
		pairs(tc, func(t tipTable) {
			for _, x := range tc {
				cases = append(cases, tipCase{typ: append(append(tipTable{}, t...), x)})
			}
		})
	}
	c.tipInst()
	if os.Getenv("VCK_CFG") == "inst" {
		c.tipCompile(singles)
		return
	}
	n := c.Par(len(cases), func(i int) { c.tipRun(cases[i], plain) })
	c.tipCompile(singles)
	c.Extra("tip_lists_planned", len(cases))
	c.Extra("tip_lists_run", n)
}

// ---- receivers: the tip "inst" makes one parameter the receiver of a method

type instKind struct{ c, show, recv, arr, ref, plain string } // C type, what C prints, Go expressions for value %d

var instKinds = map[string]instKind{
	"st*":   {"st *@", "@->a", "&St{A: %d}", "[]St{{A: %d}}", "&St{A: %d}", ""},
	"un*":   {"un *@", "@->i", "newUn(%d)", "", "newUn(%d)", ""},
	"opq*":  {"opq *@", "opv(@)", "Mko(%d)", "", "Mko(%d)", ""},
	"hopq":  {"hopq @", "hv(@)", "Mkh(%d)", "", "", "Mkh(%d)"},
	"st":    {"st @", "@.a", "St{A: %d}", "", "", "St{A: %d}"},
	"myint": {"myint @", "@", "Myint(%d)", "", "", "Myint(%d)"},
	"int":   {"int @", "@", "", "", "", "int32(%d)"},
	"int*":  {"int *@", "*@", "", "[]int32{%d}", "&[]int32{%d}[0]", ""},
}

func (k instKind) at(tip string, n int) string {
	e := k.plain
	switch {
	case tip == "inst":
		e = k.recv
	case e != "":
	case tip == "ref":
		e = k.ref
	default:
		e = k.arr
	}
	if e == "" {
		return ""
	}
	return fmt.Sprintf(e, n)
}

func (c *Ctx) tipInst() {
	var hdr, impl, drv strings.Builder
	hdr.WriteString("typedef int myint;\ntypedef struct { int a; } st;\ntypedef struct op2 opq;\ntypedef union { int i; float f; } un;\ntypedef struct hop_T *hopq;\nopq *mko(int n);\nhopq mkh(int n);\n")
	impl.WriteString("#include <stdio.h>\n#include \"h/a.h\"\n#include \"rec.h\"\nstruct op2 { int v; }; struct hop_T { int v; };\nstatic struct op2 os[999]; static struct hop_T hs[999];\nopq *mko(int n) { os[n].v = n; return &os[n]; }\nhopq mkh(int n) { hs[n].v = n; return &hs[n]; }\nstatic int opv(opq *o) { return o->v; }\nstatic int hv(hopq h) { return h->v; }\nchar rec[256];\n")
	drv.WriteString("package p\n\n/*\n#include \"rec.h\"\n*/\nimport \"C\"\nimport (\"fmt\"; \"unsafe\"; \"os\")\nfunc newUn(n int32) *Un { u := new(Un); *(*int32)(unsafe.Pointer(u)) = n; return u }\nfunc chk(i int, want string, ret int32) { g := C.GoString(&C.rec[0]); if g != want || int(ret) != i { fmt.Fprintf(os.Stdout, \"FAIL %d C saw %q, expected %q, returned %d\\n\", i, g, want, ret) } }\n")
	var main strings.Builder
	tips := L{M{"target": "^mk", "self": "ref"}}
	var keys []string
	add := func(kinds, tl []string) {
		i := len(keys)
		call, want, recv := "", "", ""
		var ps, shows, vals, args []string
		for n, k := range kinds {
			tip := ""
			if n < len(tl) {
				tip = tl[n]
			}
			e := instKinds[k].at(tip, 100+n)
			if e == "" {
				return
			}
			ps = append(ps, strings.ReplaceAll(instKinds[k].c, "@", fmt.Sprintf("p%d", n)))
			shows, vals = append(shows, "%d"), append(vals, strings.ReplaceAll(instKinds[k].show, "@", fmt.Sprintf("p%d", n)))
			want += fmt.Sprintf("%d,", 100+n)
			if tip == "inst" {
				recv = e
			} else {
				args = append(args, e)
			}
		}
		fmt.Fprintf(&hdr, "int f%d(%s);\n", i, strings.Join(ps, ", "))
		fmt.Fprintf(&impl, "int f%d(%s) { sprintf(rec, \"%s,\", %s); return %d; }\n", i, strings.Join(ps, ", "), strings.Join(shows, ","), strings.Join(vals, ", "), i)
		call = fmt.Sprintf("F%d(%s)", i, strings.Join(args, ", "))
		if recv != "" {
			main.WriteString(fmt.Sprintf("func() { r := %s; chk(%d, %q, r.%s) }()\n", recv, i, want, call))
		} else {
			main.WriteString(fmt.Sprintf("chk(%d, %q, %s)\n", i, want, call))
		}
		tips = append(tips, tipEntry{"", fmt.Sprintf("^f%d$", i), append([]string{}, tl...), "", ""}.m())
		keys = append(keys, fmt.Sprintf("int f(%s) [%s]", strings.Join(kinds, ", "), strings.Join(tl, " ")))
	}
	recvs := []string{"st*", "un*", "opq*", "st", "myint"} // Go has no methods on handles, which are pointer types
	others := []string{"int", "int*", "st*"}
	if c.Thorough() {
		others = append(others, "hopq", "st", "un*")
	}
	for _, r := range recvs {
		add([]string{r}, []string{"inst"})
		for _, o := range others {
			for _, t := range []string{"0", "ref"} {
				add([]string{r, o}, []string{"inst", t})
				add([]string{o, r}, []string{t, "inst"})
				for _, o2 := range others {
					for _, t2 := range []string{"0", "ref"} {
						add([]string{r, o, o2}, []string{"inst", t, t2})
						add([]string{o, r, o2}, []string{t, "inst", t2})
						add([]string{o, o2, r}, []string{t, t2, "inst"})
						add([]string{o, o2, r}, []string{t, t2, "0"})
					}
				}
			}
		}
	}
	j := &Job{Files: map[string]string{"h/a.h": hdr.String()}, Manifest: M{
		"GENERATOR":  M{"PackageName": "p", "Includes": L{"h/a.h"}},
		"PARSER":     M{"SourcesPaths": L{"h/a.h"}},
		"TRANSLATOR": M{"Rules": libcRules(), "PtrTips": M{"function": tips}},
	}}
	c.Fast = false
	defer func() { c.Fast = true }()
	p := c.genPkg(j, map[string]string{"rec.h": "extern char rec[256];\n", "impl.c": impl.String(), "drv.go": drv.String() + "func Run() {\n" + main.String() + "fmt.Println(\"DONE\")\n}\n", "cmd/main.go": "package main\nimport p \"x\"\nfunc main() { p.Run() }\n"})
	files := jobFiles(j)
	if p.Code != 0 {
		c.Violate("receivers", "generator: "+firstLines(p.Log, 3), files)
		return
	}
	_, e, code, _ := runCmd(p.Dir, goEnv("GOFLAGS=-mod=mod -buildvcs=false"), 300*1e9, "go", "build", "-gcflags=-e", "-o", "run", "./cmd")
	if code != 0 {
		c.tipBlame(p.Gen.Out["p/p.go"], string(e), keys, files)
		return
	}
	o, e2, code, _ := runCmd(p.Dir, goEnv(), 60*1e9, "./run")
	for _, l := range strings.Split(string(o), "\n") {
		if strings.HasPrefix(l, "FAIL ") {
			var i int
			fmt.Sscanf(l, "FAIL %d", &i)
			c.Violate("receiver "+keys[i], keys[i]+": "+l[5:], files)
		}
	}
	if code != 0 || !strings.Contains(string(o), "DONE") {
		c.Violate("receivers", "the program does not finish: "+firstLines(string(e2), 3), files)
	}
	for _, k := range keys {
		c.Eval("receiver " + k)
	}
	c.Extra("receivers", len(keys))
}

// tipBlame reports which functions the compiler complains about.
func (c *Ctx) tipBlame(src0, log string, keys []string, files map[string][]byte) {
	seen := map[string]bool{}
	src := strings.Split(src0, "\n")
	for _, l := range strings.Split(log, "\n") {
		var ln, i int
		if m := rx(`^\S*\bp\.go:(\d+)`).FindStringSubmatch(l); m != nil {
			fmt.Sscan(m[1], &ln)
		}
		for ; ln > 0 && ln <= len(src); ln-- {
			if m := rx(`^func .*\bF(\d+)\(`).FindStringSubmatch(src[ln-1]); m != nil {
				fmt.Sscan(m[1], &i)
				if !seen[keys[i]] {
					seen[keys[i]] = true
					c.Violate("receiver "+keys[i], keys[i]+": does not compile: "+l, files)
				}
				break
			}
		}
	}
	if len(seen) == 0 {
		c.Violate("receivers", "does not compile: "+firstLines(log, 6), files)
	}
}

// tipCompile builds one package for each different effect of a single entry.
func (c *Ctx) tipCompile(cases []tipCase) {
	var sel []tipCase
	seen := map[string]bool{}
	for _, t := range cases {
		w := t.want()
		k := ""
		for _, n := range sortedKeys(w) {
			k += n + w[n] + "\n"
		}
		if !seen[k] {
			seen[k] = true
			sel = append(sel, t)
		}
	}
	c.Fast = false
	defer func() { c.Fast = true }()
	c.Extra("compiled", len(sel))
	c.Par(len(sel), func(i int) {
		t := sel[i]
		j := &Job{Files: map[string]string{"h/a.h": strings.ReplaceAll(tipHeader, "sb_ref j;", "struct sb_tag j;")}, Manifest: t.manifest()}
		p := c.buildPkg(j, nil, "/dev/null")
		if p.Code != 0 {
			c.Violate("compile "+t.key(), t.key()+": the package does not compile: "+firstLines(p.Log, 4), jobFiles(j))
		}
		c.Eval("compile " + t.key())
		os.RemoveAll(p.Gen.Dir)
	})
}
