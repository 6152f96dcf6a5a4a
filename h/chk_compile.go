package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

func init() {
	checks["C03"] = check{"exploration", "a case is one declaration (base type x const x pointer depth x array dimensions x position) under one configuration, compiled by the Go toolchain with cgo; non-trivial = distinct (declaration shape, configuration)", runCompile}
}

const cPrelude = `#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
typedef int myint; typedef myint myint2; typedef unsigned char u8t; typedef float fl;
typedef enum { EA, EB } en; enum et { EC, ED };
typedef struct { int a; float b; } st; typedef struct tagst { short x; } tst; struct plainst { int z; };
typedef struct op2 opq;
typedef union { int i; float f; } un;
typedef int (*cbk)(int a);
typedef int *ip; typedef char *cp; typedef const char *ccp; typedef float mat[2][3]; typedef void *hnd; typedef struct hop_T *hopq;
`

// gccIncludes are the directories in which the C standard headers live here.
func gccIncludes() L {
	var l L
	for _, d := range []string{"/usr/lib/gcc/x86_64-linux-gnu/13/include", "/usr/local/include", "/usr/include/x86_64-linux-gnu", "/usr/include"} {
		if _, err := os.Stat(d); err == nil {
			l = append(l, d)
		}
	}
	return l
}

// libcRules accept what the headers under test declare and nothing of the C library.
func libcRules() M {
	return M{
		"global": L{M{"action": "accept", "from": "^[a-zA-Z]"},
			M{"action": "ignore", "from": "^(_|INT|UINT|SIZE|PTR|WCHAR|WINT|SIG|NULL|bool$|true$|false$|unix|linux|max_align|offsetof|wchar|ptrdiff|u?int_|[A-Z_]+_H$)"}},
		"post-global": L{M{"transform": "export"}},
		"private":     L{M{"transform": "unexport"}},
	}
}

// PkgResult is a generated package that was written out and handed to the Go toolchain.
type PkgResult struct {
	Dir  string
	Gen  *Result
	Log  string
	Code int
	TO   bool
}

// genPkg generates job j (package main) and lays out the module, without building it.
func (c *Ctx) genPkg(j *Job, extra map[string]string) *PkgResult {
	j.Keep = true
	j.Args = append(j.Args, "-ccdefs", "-ccincl")
	r := c.Run(j)
	p := &PkgResult{Dir: filepath.Join(r.Dir, "out", pkgDir(j)), Gen: r, Code: r.Code}
	if r.Code != 0 {
		p.Log = "generator: " + r.Stderr + r.Stdout
		return p
	}
	os.MkdirAll(p.Dir, 0755)
	for n, s := range j.Files {
		if strings.HasSuffix(n, ".h") {
			f := filepath.Join(p.Dir, n)
			os.MkdirAll(filepath.Dir(f), 0755)
			g := "VCKG_" + strings.ToUpper(regexp.MustCompile(`\W`).ReplaceAllString(n, "_"))
			os.WriteFile(f, []byte("#ifndef "+g+"\n#define "+g+"\n#line 1 \""+n+"\"\n"+s+"\n#endif\n"), 0644)
		}
	}
	os.WriteFile(filepath.Join(p.Dir, "go.mod"), []byte("module x\ngo 1.17\n"), 0644)
	for n, s := range extra {
		os.MkdirAll(filepath.Dir(filepath.Join(p.Dir, n)), 0755)
		os.WriteFile(filepath.Join(p.Dir, n), []byte(s), 0644)
	}
	return p
}

func pkgDir(j *Job) string {
	s, _ := sub(j.Manifest, "GENERATOR")["PackageName"].(string)
	return s
}

// buildPkg generates and compiles job j.
func (c *Ctx) buildPkg(j *Job, extra map[string]string, out string) *PkgResult {
	p := c.genPkg(j, extra)
	if p.Code != 0 {
		return p
	}
	o, e, code, to := runCmd(p.Dir, goEnv("GOFLAGS=-mod=mod -buildvcs=false"), 300*time.Second, "go", "build", "-gcflags=-e", "-o", out, ".")
	p.Log, p.Code, p.TO = string(o)+string(e), code, to
	return p
}

type cdecl struct {
	pos, typ, dims string
	base           string
	cnst           bool
	ptr            int
	name, text     string
	key            string
}

var compBases = []string{"char", "unsigned char", "signed char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "bool", "size_t", "uint8_t", "int64_t", "void", "myint", "myint2", "u8t", "fl", "en", "enum et", "st", "tst", "struct plainst", "opq", "un", "cbk", "ip", "cp", "ccp", "mat", "hnd", "hopq"}

var compPositions = []string{"param", "params", "unnamed", "ret", "member", "members", "nested", "umember", "typedef", "cbparam", "cbret", "fnparam", "extern"}

// quickBases are the base types that the quick tier combines with the non-default configurations.
var quickBases = map[string]bool{"char": true, "unsigned char": true, "int": true, "unsigned long long": true, "float": true, "bool": true, "uint8_t": true, "void": true, "myint2": true, "enum et": true, "st": true, "struct plainst": true, "opq": true, "un": true, "cbk": true, "ip": true, "ccp": true, "hopq": true, "hnd": true}

func compText(pos, t, d string) string {
	switch pos {
	case "param":
		return "void @(" + t + "x" + d + ");"
	case "params":
		return "int @(" + t + "x" + d + ", const char *s, " + t + "y" + d + ");"
	case "unnamed":
		if d != "" {
			return ""
		}
		return "void @(int, " + t + ");"
	case "ret":
		if d != "" {
			return ""
		}
		return t + "@(void);"
	case "member":
		return "typedef struct { " + t + "m" + d + "; } @;"
	case "members":
		return "struct @ { " + t + "m" + d + "; int k; " + t + "*n; struct @ *next; };"
	case "nested":
		return "struct @in { " + t + "m" + d + "; };\ntypedef struct { struct @in i; struct @in *p; struct @in a[2]; } @;"
	case "umember":
		return "typedef union { " + t + "m" + d + "; int k; } @;"
	case "typedef":
		return "typedef " + t + "@" + d + ";"
	case "cbparam":
		if d != "" {
			return ""
		}
		return "typedef int (*@)(" + t + "x, int y);"
	case "cbret":
		if d != "" {
			return ""
		}
		return "typedef " + t + "(*@)(void);"
	case "fnparam":
		if d != "" {
			return ""
		}
		return "int @(int (*f)(" + t + "x), void *ctx);"
	case "extern":
		return "extern " + t + "@" + d + ";"
	}
	panic(pos)
}

func compDecls(maxPtr int) []*cdecl {
	var out []*cdecl
	for _, pos := range compPositions {
		for _, b := range compBases {
			for _, cn := range []bool{false, true} {
				for p := 0; p <= maxPtr; p++ {
					for _, d := range []string{"", "[2]", "[2][3]"} {
						if (b == "void" || b == "opq") && p == 0 {
							continue
						}
						t := b + " " + strings.Repeat("*", p)
						if cn {
							t = "const " + t
						}
						text := compText(pos, t, d)
						if text == "" {
							continue
						}
						x := &cdecl{pos: pos, typ: t, dims: d, base: b, cnst: cn, ptr: p}
						x.text = text
						out = append(out, x)
					}
				}
			}
		}
	}
	return out
}

type compCfg struct {
	name string
	mod  func(m M)
}

func compCfgs() []compCfg {
	ptr := func(d, s string) func(m M) {
		return func(m M) {
			sub(m, "TRANSLATOR")["PtrTips"] = M{"any": L{M{"target": "^v", "default": d, "self": s}}}
		}
	}
	return []compCfg{
		{"default", func(m M) {}},
		{"arr", ptr("arr", "arr")},
		{"ref", ptr("ref", "ref")},
		{"sref", ptr("sref", "sref")},
		{"plain", func(m M) {
			sub(m, "TRANSLATOR")["TypeTips"] = M{"any": L{M{"target": "^v", "default": "plain", "self": "plain"}}}
		}},
		{"named", func(m M) {
			sub(m, "TRANSLATOR")["TypeTips"] = M{"any": L{M{"target": "^v", "default": "named", "self": "named"}}}
		}},
		{"rawmem", func(m M) {
			sub(m, "TRANSLATOR")["MemTips"] = L{M{"target": ".", "self": "raw"}}
			sub(m, "GENERATOR")["Options"] = M{"StructAccessors": true}
		}},
		{"safestrings", func(m M) { sub(m, "GENERATOR")["Options"] = M{"SafeStrings": true, "KeepAlive": true} }},
		{"bytes", func(m M) { sub(m, "TRANSLATOR")["ConstCharIsString"] = false }},
		{"ustrings", func(m M) { sub(m, "TRANSLATOR")["ConstUCharIsString"] = true }},
	}
}

func compManifest(cfg compCfg, hdr string) M {
	m := M{"GENERATOR": M{"PackageName": "pk", "Includes": L{hdr}},
		"PARSER":     M{"SourcesPaths": L{hdr}, "IncludePaths": gccIncludes()},
		"TRANSLATOR": M{"Rules": libcRules()}}
	cfg.mod(m)
	return m
}

// compBlame maps compiler messages to the declarations they stand next to.
func compBlame(p *PkgResult, byName map[string]*cdecl) (map[*cdecl]string, []string) {
	bad := map[*cdecl]string{}
	var other []string
	re := regexp.MustCompile(`^(?:\./)?(h/)?([\w.]+):(\d+):(?:\d+:)? (.*)`)
	nm := regexp.MustCompile(`(?i)v(\d+)x`)
	src := map[string][]string{}
	for _, l := range strings.Split(p.Log, "\n") {
		m := re.FindStringSubmatch(l)
		if m == nil {
			if strings.TrimSpace(l) != "" && !strings.HasPrefix(l, "#") {
				other = append(other, l)
			}
			continue
		}
		f := m[1] + m[2]
		if strings.Contains(m[4], "warning:") || strings.Contains(m[4], "note:") {
			continue
		}
		if _, ok := src[f]; !ok {
			b, _ := os.ReadFile(filepath.Join(p.Dir, f))
			src[f] = strings.Split(string(b), "\n")
		}
		ln, _ := strconv.Atoi(m[3])
		var d *cdecl
		if x := nm.FindStringSubmatch(m[4]); x != nil {
			d = byName["v"+x[1]+"x"]
		}
		for i := ln - 1; d == nil && i >= 0 && i < len(src[f]); i-- {
			if x := nm.FindStringSubmatch(src[f][i]); x != nil {
				d = byName["v"+x[1]+"x"]
			}
		}
		if d == nil {
			other = append(other, l)
		} else if bad[d] == "" {
			bad[d] = f + ": " + m[4]
		}
	}
	return bad, other
}

func (c *Ctx) compileGroup(cfg compCfg, ds []*cdecl) {
	c.compileGroupN(cfg, ds, 0)
}

// compileGroupN compiles declarations together; when the compilation fails, it names the declarations
// that fail by compiling suspects alone.
func (c *Ctx) compileGroupN(cfg compCfg, ds []*cdecl, depth int) {
	var sb strings.Builder
	sb.WriteString(cPrelude)
	byName := map[string]*cdecl{}
	for i, d := range ds {
		d.name = fmt.Sprintf("v%dx", i+1)
		byName[d.name] = d
		sb.WriteString(strings.ReplaceAll(d.text, "@", d.name) + "\n")
	}
	j := &Job{Files: map[string]string{"h/a.h": sb.String()}, Manifest: compManifest(cfg, "h/a.h")}
	p := c.buildPkg(j, nil, "/dev/null")
	defer os.RemoveAll(p.Gen.Dir)
	if p.Code == 0 {
		for _, d := range ds {
			c.Eval(cfg.name + "|" + d.key)
		}
		return
	}
	if len(ds) == 1 {
		c.Eval(cfg.name + "|" + ds[0].key)
		f := withOut(jobFiles(j), p.Gen)
		f["go-build.txt"] = []byte(p.Log)
		c.Violate(cfg.name+" | "+ds[0].key, firstLines(p.Log, 6), f)
		return
	}
	bad, _ := compBlame(p, byName)
	if len(bad) == 0 || depth > 30 {
		// nothing to blame: split
		h := len(ds) / 2
		c.compileGroupN(cfg, ds[:h], depth+1)
		c.compileGroupN(cfg, ds[h:], depth+1)
		return
	}
	var rest []*cdecl
	for _, d := range ds {
		if _, ok := bad[d]; !ok {
			rest = append(rest, d)
		}
	}
	for _, d := range ds {
		if m, ok := bad[d]; ok {
			if maxViol > 12 || c.Expired() || atomic.LoadInt64(&c.nviol) >= 3 {
				c.Violate(cfg.name+" | "+d.key, m, nil)
			} else {
				c.compileGroupN(cfg, []*cdecl{d}, depth+1)
			}
		}
	}
	if len(rest) > 0 {
		c.compileGroupN(cfg, rest, depth+1)
	}
}

func isStructBase(b string) bool { return b == "st" || b == "tst" || b == "struct plainst" }

// compUnsupported delimits the property's domain: shapes that c-for-go has never been able to bind.
// Each class has a representative in compProbes, listed as a known finding.
func compUnsupported(cfg string, d *cdecl) bool {
	two := d.dims == "[2][3]"
	switch d.pos {
	case "fnparam":
		return true
	case "param", "params":
		if two && (d.ptr > 0 || isStructBase(d.base) || d.base == "cbk" || d.base == "char" && d.cnst) {
			return true
		}
	case "member", "members", "nested":
		if d.dims != "" && d.ptr >= 2 && isStructBase(d.base) {
			return true
		}
		if d.dims != "" && d.ptr >= 3 {
			return true
		}
	case "typedef":
		if isStructBase(d.base) && (d.ptr > 0 || d.dims != "") {
			return true
		}
	}
	switch d.base {
	case "ip", "cp", "ccp", "mat":
		// pointers to and arrays of such typedefs stay outside; cgo has types of its own for them
		if d.ptr > 0 || d.dims != "" || d.pos == "members" || d.cnst && d.pos == "ret" || d.pos == "cbret" || d.base == "mat" && (d.pos == "ret" || d.pos == "cbparam") || cfg == "rawmem" && d.cnst {
			return true
		}
	case "hnd":
		if d.ptr > 0 || d.dims != "" || d.pos == "member" || d.pos == "members" || d.pos == "nested" || d.pos == "cbret" || cfg == "plain" {
			return true
		}
	case "hopq":
		if two && (d.pos == "param" || d.pos == "params") {
			return true
		}
	}
	if d.base == "cbk" && (d.ptr > 0 || d.dims != "" || d.pos == "members") && d.pos != "umember" || d.base == "cbk" && d.pos == "extern" {
		return true
	}
	if cfg == "arr" && d.pos == "ret" && d.base == "void" && d.ptr >= 2 {
		return true
	}
	if cfg == "rawmem" && (d.pos == "member" || d.pos == "members" || d.pos == "nested") && d.dims != "" && d.ptr >= 2 {
		return true
	}
	if cfg == "rawmem" && (isStructBase(d.base) && (d.ptr >= 2 || d.ptr == 1 && d.dims != "") && strings.Contains("param params unnamed", d.pos) || d.base == "cbk" && d.pos == "ret") {
		return true
	}
	if cfg == "ustrings" && d.cnst && (d.base == "u8t" || d.base == "uint8_t" || d.base == "unsigned char" && two) {
		return true
	}
	if cfg == "ref" && d.base == "char" && d.cnst && (d.ptr >= 2 || d.ptr == 1 && d.dims != "") {
		return true
	}
	if cfg == "ref" || cfg == "sref" {
		if cfg == "sref" && isStructBase(d.base) && (d.ptr >= 2 || d.ptr == 1 && d.pos == "members" || d.ptr == 1 && d.dims != "") {
			return true
		}
	}
	return false
}

func runCompile(c *Ctx) {
	type grp struct {
		cfg compCfg
		ds  []*cdecl
	}
	var groups []grp
	maxPtr := 2
	if c.Thorough() {
		maxPtr = 3
	}
	n := 0
	for _, cfg := range compCfgs() {
		if o := os.Getenv("VCK_CFG"); o != "" && o != cfg.name {
			continue
		}
		byPos := map[string][]*cdecl{}
		for _, d := range compDecls(maxPtr) {
			if compUnsupported(cfg.name, d) {
				continue
			}
			if cfg.name != "default" && !c.Thorough() && !quickBases[d.base] {
				continue
			}
			d.key = strings.ReplaceAll(d.text, "@", "v")
			byPos[d.pos] = append(byPos[d.pos], d)
			n++
		}
		for _, pos := range compPositions {
			ds := byPos[pos]
			const size = 120
			for len(ds) > 0 {
				k := size
				if k > len(ds) {
					k = len(ds)
				}
				groups = append(groups, grp{cfg, ds[:k]})
				ds = ds[k:]
			}
		}
	}
	n += c.compileSpecials(func(cfg compCfg, ds []*cdecl) { groups = append(groups, grp{cfg, ds}) })
	c.parN(len(groups), 8, func(i int) { c.compileGroup(groups[i].cfg, groups[i].ds) })
	c.Extra("declarations", n)
	c.Extra("packages", len(groups))
	c.compileKinds()
	c.Assume("the header's own C text is accepted by gcc; declarations of the listed unsupported classes are outside the property")
}

var trickyNames = []string{"x", "cx", "c", "a", "v", "ret", "__ret", "__v", "allocs", "cxAllocMap", "ref", "mem", "m", "n", "h", "i0", "v0", "len", "cap", "make", "new", "append", "copy", "nil", "iota", "true_", "string", "byte", "error", "int32", "uint", "bool_", "unsafe", "fmt", "runtime", "sync", "C", "main", "init", "func", "type", "range", "map", "chan", "go", "select", "defer", "package", "import", "interface", "var", "fallthrough", "_x", "__x", "X", "x_y", "xY", "type_", "Ref", "Free", "self", "this", "_1", "sliceHeader", "packSString", "cgoAllocMap", "sizeOfPtr"}

func (c *Ctx) compileSpecials(add func(compCfg, []*cdecl)) int {
	var texts []string
	for _, n := range trickyNames {
		texts = append(texts,
			"int @("+"int "+n+");",
			"void @(const char *"+n+", int *"+n+"2);",
			"typedef struct { int "+n+"; const char *"+n+"s; } @;",
			"typedef int (*@)(int "+n+", void *"+n+"2);",
			"int @(st *"+n+", st **"+n+"2, const char **"+n+"3);",
		)
	}
	texts = append(texts,
		"typedef struct { unsigned a:3; unsigned b:5; int c; } @;",
		"typedef struct { int n; char data[]; } @;",
		"typedef struct { int n; struct { int a; } in; } @;",
		"typedef struct { int n; union { int a; float b; }; } @;",
		"typedef struct { int n; union { int a; float b; } u; } @;",
		"typedef struct { int n; enum { @A, @B } e; } @;",
		"struct @ { struct @ *next; struct @ **list; int n; };",
		"typedef struct @t { struct @t *next; int n; } @;",
		"struct @; int @f(struct @ *p);",
		"typedef struct @t @; @ *@new(void); void @free(@ *p);",
		"typedef struct @t { int k; } @; @ @get(int i); void @put(@ p); int @all(@ *p, int n);",
		"int @(const char *fmt, ...);",
		"int @();",
		"static inline int @(int a) { return a; }",
		"extern int @;",
		"extern const int @; ",
		"static const int @ = 5;",
		"#define @A 5\n#define @B \"text\"\n#define @C (@A + 1)\n#define @D 1.5\n#define @E 'c'",
		"enum { @A, @B = 7, @C };",
		"enum @ { @A = -1, @B = 7, @C = @B + 2 };",
		"typedef enum @t { @A = 1 << 3, @B = @A | 1 } @; @ @f(@ e, @ *p);",
		"typedef void (*@)(void); void @set(@ cb); @ @get(void);",
		"typedef struct @t @; typedef int (*@cb)(@ *self, void *data); struct @t { @cb cb; void *data; }; int @run(@ *s, @cb cb);",
		"typedef const char *@; void @f(@ s);",
		"typedef struct @_T *@; @ @new(int n); void @use(@ h); int @all(@ *hs, int n); typedef struct { @ h; @ *hs; } @s; typedef int (*@cb)(@ h);",
		"typedef int *@; typedef char *@c; typedef float @m[2][3]; void @f(@ p, @c s, @m m); typedef struct { @ p; @c s; @m m; } @s;",
		"typedef int @a; typedef @a @b; typedef @b @; @ @f(@ x, @ *y);",
		"typedef union @t { int a; char b[8]; } @; @ @f(@ u); void @g(@ *u); typedef struct { @ u; @ *p; @ l[2]; } @s;",
		"typedef struct { _Bool a; signed char b; unsigned short d; unsigned long long e; double f; size_t g; void *h; } @;",
		"typedef struct { char a[8]; char b[2][8]; const char *c; char *d; const char **e; unsigned char *f; } @;",
		"void @(int a, int b, int d, int e, int f, int g, int h, int i, int j, int k);",
		"void *@(void *a, const void *b, void **d);",
		"uint8_t *@(uint8_t *buf, size_t len);",
		"int @(char **argv, int argc, char *const *envp);",
	)
	nTricky := len(texts)
	texts = append(texts, nameTuples()...)
	n := 0
	for _, cfg := range compCfgs() {
		if o := os.Getenv("VCK_CFG"); o != "" && o != cfg.name {
			continue
		}
		var ds []*cdecl
		for i, t := range texts {
			if cfg.name != "default" && !c.Thorough() && (i < 5*len(trickyNames) || i >= nTricky) {
				continue
			}
			d := &cdecl{pos: "special", text: t, key: strings.ReplaceAll(t, "@", "v")}
			if specialUnsupported(cfg.name, d) {
				continue
			}
			n++
			if c.IsKnown(cfg.name + " | " + d.key) {
				add(cfg, []*cdecl{d})
				continue
			}
			ds = append(ds, d)
		}
		for _, t := range compProbes[cfg.name] {
			n++
			add(cfg, []*cdecl{{pos: "probe", text: t, key: strings.ReplaceAll(t, "@", "v")}})
		}
		for len(ds) > 0 {
			k := min(120, len(ds))
			add(cfg, ds[:k])
			ds = ds[k:]
		}
	}
	return n
}

// nameTuples are declarations whose parameters (members) carry names that the names of generated
// variables are derived from: all ordered pairs, and all orders of three that build on each other.
func nameTuples() (out []string) {
	add := func(n ...string) {
		shapes := [][]string{{"int ", "int ", "int "}, {"const char *", "int *", "const char **"}, {"st *", "const char *", "st "}}
		for _, s := range shapes {
			var l []string
			for i, x := range n {
				l = append(l, s[i]+x)
			}
			out = append(out, "int @("+strings.Join(l, ", ")+");", "typedef void (*@)("+strings.Join(l, ", ")+");", "typedef struct { "+strings.Join(l, "; ")+"; } @;")
		}
	}
	base := []string{"a", "ca", "cca", "_a", "aa", "ret", "err"}
	for _, x := range base {
		for _, y := range base {
			if x != y {
				add(x, y)
			}
		}
	}
	for _, t := range [][]string{{"a", "ca", "cca"}, {"b", "cb", "ccb"}, {"a", "b", "ca"}} {
		for _, o := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
			add(t[o[0]], t[o[1]], t[o[2]])
		}
	}
	return out
}

// specialUnsupported lists declarations that do not compile on the current tree; they stay in the
// default configuration, as known findings.
func specialUnsupported(cfg string, d *cdecl) bool {
	if cfg == "default" {
		return false
	}
	for _, n := range []string{"runtime", "unsafe", "int32", "__ret", "__v", "sliceHeader", "ref", "Ref", "Free"} {
		if regexp.MustCompile(`\b` + n + `[s]?;|\b` + n + `[23]?[,)]`).MatchString(d.text) {
			return true
		}
	}
	if cfg == "rawmem" && (strings.HasPrefix(d.text, "int @(st *") || strings.Contains(d.text, "@ @get(void)")) {
		return true
	}
	if cfg == "ref" || cfg == "sref" {
		if strings.HasPrefix(d.text, "int @(st *") || cfg == "sref" && (strings.Contains(d.text, "const char **e;") || strings.Contains(d.text, "struct @ **list")) {
			return true
		}
	}
	return strings.Contains(d.text, "int ret,") || strings.Contains(d.text, "...") || strings.HasPrefix(d.text, "typedef const char *@")
}

// compProbes are representatives of the classes that compUnsupported leaves out.
var compProbes = map[string][]string{
	"default": {
		"int @(int (*f)(int x), void *ctx);",
		"void @(int *x[2][3]);",
		"void @(st x[2][3]);",
		"typedef st *@;",
		"typedef st @[2];",
		"extern cbk @;",
		"typedef struct { st **m[2]; } @;",
		"int @(int a, int caAllocMap);",
		"typedef struct @t *@p; struct @t { int a; }; void @f(@p x, struct @t *y);",
	},
	"sref":     {"typedef struct { st **m; } @;"},
	"rawmem":   {"void @(st **x);"},
	"ustrings": {"void @(const uint8_t *x);"},
}

// compileKinds compiles every combination of declaration kinds as a package of its own: each file must
// carry exactly the imports and helpers that it needs.
func (c *Ctx) compileKinds() {
	kinds := []string{
		"#define KA 5\n#define KS \"x\"",
		"typedef enum { KE1, KE2 } ke;",
		"typedef int kt;",
		"typedef struct { int a; } ks;",
		"typedef struct { const char *s; int *p; } kp;",
		"typedef union { int a; float b; } ku;",
		"int kf(int a);",
		"const char *kg(const char *s, int *p);",
		"typedef int (*kc)(int a);",
		"typedef struct ko ko; ko *kn(void);",
	}
	var masks []int
	for m := 1; m < 1<<len(kinds); m++ {
		bits := 0
		for i := range kinds {
			bits += m >> i & 1
		}
		if bits <= 2 || c.Thorough() || bits >= len(kinds)-1 {
			masks = append(masks, m)
		}
	}
	type kc struct {
		mask int
		opt  int
	}
	var cs []kc
	for _, m := range masks {
		cs = append(cs, kc{m, 0})
		if c.Thorough() || m%4 == 1 {
			cs = append(cs, kc{m, 1}, kc{m, 2})
		}
	}
	done := c.Par(len(cs), func(i int) {
		k := cs[i]
		var sb strings.Builder
		for b, t := range kinds {
			if k.mask>>b&1 == 1 {
				sb.WriteString(t + "\n")
			}
		}
		m := compManifest(compCfg{"kinds", func(m M) {}}, "h/a.h")
		g := sub(m, "GENERATOR")
		switch k.opt {
		case 1:
			g["Options"] = M{"SafeStrings": true, "KeepAlive": true, "StructAccessors": true}
			g["PackageDescription"] = "Package pk."
			g["PackageLicense"] = "MIT"
		case 2:
			sub(m, "TRANSLATOR")["MemTips"] = L{M{"target": ".", "self": "raw"}}
			g["FlagGroups"] = L{M{"name": "CFLAGS", "flags": L{"-DKFLAG"}}, M{"name": "LDFLAGS", "traits": L{"linux"}, "flags": L{"-lm"}}}
		}
		j := &Job{Files: map[string]string{"h/a.h": sb.String()}, Manifest: m}
		p := c.buildPkg(j, nil, "/dev/null")
		key := fmt.Sprintf("kinds %010b option set %d", k.mask, k.opt)
		c.Eval(key)
		if p.Code != 0 {
			f := withOut(jobFiles(j), p.Gen)
			f["go-build.txt"] = []byte(p.Log)
			c.Violate(key, firstLines(p.Log, 8), f)
		}
		os.RemoveAll(p.Gen.Dir)
	})
	c.Extra("kind_combinations", done)
}
