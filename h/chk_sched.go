package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	checks["C01"] = check{"model_checking", "", runDeterminism}
	checks["C02"] = check{"model_checking", "", runSchedules}
}

// schedJob is an input of the tool whose executions are explored.
type schedJob struct {
	name string
	job  *Job
}

// outcome is what one execution leaves behind.
type outcome struct {
	code    int
	out     map[string]string
	stderr  string
	to      bool
	choices []choicePt // the choices that were offered
	bad     string     // deadlock, endless, misfit
}

type choicePt struct {
	kind string
	n    int
	site string
}

type dev struct{ at, to int }

func devStr(ds []dev) string {
	var s []string
	for _, d := range ds {
		s = append(s, fmt.Sprintf("%d:%d", d.at, d.to))
	}
	return strings.Join(s, ",")
}

func (c *Ctx) execSched(bin string, j *Job, ds []dev, env ...string) *outcome {
	k := *j
	k.Bin, k.Keep = bin, true
	k.Env = append(append(append([]string{}, j.Env...), "VCK_SCHED="+devStr(ds), "VCK_TRACE=trace.txt"), env...)
	if strings.HasSuffix(bin, "-race") {
		k.Timeout = 120 * time.Second
	}
	top := filepath.Join(c.Scratch, fmt.Sprintf("s%d", atomic.AddInt64(&jobSeq, 1)))
	k.Dir = filepath.Join(top, "w") // the name of the directory is part of some comments
	r := c.Run(&k)
	defer os.RemoveAll(top)
	o := &outcome{code: r.Code, out: r.Out, stderr: r.Stderr, to: r.TO}
	b, _ := os.ReadFile(filepath.Join(r.Dir, "trace.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) != 3 {
			continue
		}
		n, _ := strconv.Atoi(f[1])
		kind, site, _ := strings.Cut(f[0], "@")
		switch kind {
		case "s", "m", "c":
			o.choices = append(o.choices, choicePt{kind, n, site})
		case "deadlock", "endless", "misfit", "limit":
			o.bad = f[0]
		case "shared":
			c.Extra("shared_locks", true)
		}
	}
	return o
}

func (a *outcome) differs(b *outcome) string {
	switch {
	case b.bad == "deadlock":
		return "no goroutine can go on: deadlock"
	case b.bad == "endless" || b.to:
		return "does not end"
	case strings.Contains(b.stderr, "WARNING: DATA RACE"):
		return "data race: " + raceText(b.stderr)
	case strings.Contains(b.stderr, "panic: ") || strings.Contains(b.stderr, "fatal error: "):
		return "crash: " + firstLines(b.stderr, 4)
	case a.code != b.code:
		return fmt.Sprintf("exit status %d instead of %d: %s", b.code, a.code, firstLines(b.stderr, 4))
	}
	return diffMaps(a.out, b.out)
}

var raceLine = regexp.MustCompile(`(?m)^  +(/\S+:\d+|[\w./()*-]+\(\))`)

func raceText(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	return firstLines(s[i:], 12)
}

// explore runs every execution within the bounds: up to depth choices other than the first one, of the kinds in
// allow; after the first, map orders are limited to the reverse. It returns how many executions there were.
func (c *Ctx) explore(bin string, sj *schedJob, kinds string, depth, limit int, base *outcome, env ...string) (int64, bool, int) {
	deepest := 0
	type node struct {
		ds []dev
		o  *outcome
	}
	var runs int64
	full := true
	frontier := []node{{nil, base}}
	for d := 0; d < depth && len(frontier) > 0; d++ {
		var todo [][]dev
		for _, nd := range frontier {
			from := 0
			if len(nd.ds) > 0 {
				from = nd.ds[len(nd.ds)-1].at + 1
			}
			seen := map[string]int{}
			for i := from; i < len(nd.o.choices); i++ {
				p := nd.o.choices[i]
				if !strings.Contains(kinds, p.kind) {
					continue
				}
				if p.kind == "m" {
					if seen[p.site]++; seen[p.site] > perSite(c, d) {
						continue
					}
				}
				n := p.n
				if p.kind == "m" && d > 0 && n > 6 {
					n = 2
				}
				if p.kind == "m" && d == 0 && n > 40 && !c.Thorough() {
					n = 40
				}
				for a := 1; a < n; a++ {
					todo = append(todo, append(append([]dev{}, nd.ds...), dev{i, a}))
				}
			}
		}
		if len(todo) > limit {
			full = false
			todo = todo[:limit]
		}
		limit -= len(todo)
		next := make([]node, len(todo))
		done := c.Par(len(todo), func(i int) {
			ds := todo[i]
			o := c.execSched(bin, sj.job, ds, env...)
			atomic.AddInt64(&runs, 1)
			c.EvalN(1)
			c.Transition(int64(len(o.choices)))
			c.Validated(1)
			if o.bad == "limit" {
				c.mu.Lock()
				c.exhaustive = false
				c.mu.Unlock()
				return
			}
			if o.bad == "misfit" {
				// the program does not repeat itself under the same choices: something outside them decides
				c.Violate(sj.name+" | "+"repeat", "the same choices lead to different executions: "+devStr(ds), c.schedFiles(sj, ds, base, o))
				return
			}
			if s := base.differs(o); s != "" {
				c.Violate(sj.name+" | "+blameKind(base, ds), fmt.Sprintf("choices %s (%s): %s", devStr(ds), describe(o, ds), s), c.schedFiles(sj, ds, base, o))
				return
			}
			next[i] = node{ds, &outcome{choices: o.choices}}
			k := sj.name + "|" + devStr(ds)
			c.State(k)
		})
		if done < len(todo) {
			full = false
		}
		if full {
			deepest = d + 1
		}
		frontier = frontier[:0]
		for _, n := range next {
			if n.o != nil {
				frontier = append(frontier, n)
			}
		}
	}
	return runs, full, deepest
}

func describe(o *outcome, ds []dev) string {
	var s []string
	for _, d := range ds {
		if d.at < len(o.choices) {
			p := o.choices[d.at]
			s = append(s, fmt.Sprintf("%s: number %d of %d", map[string]string{"s": "next goroutine", "m": "map order", "c": "ready select case"}[p.kind], d.to, p.n))
		}
	}
	return strings.Join(s, "; ")
}

func blameKind(base *outcome, ds []dev) string {
	for _, d := range ds {
		if d.at < len(base.choices) && base.choices[d.at].kind == "m" {
			return "map order"
		}
	}
	return "schedule"
}

func (c *Ctx) schedFiles(sj *schedJob, ds []dev, base, o *outcome) map[string][]byte {
	f := jobFiles(sj.job)
	f["choices.txt"] = []byte("VCK_SCHED=" + devStr(ds) + " of the instrumented tool (built by the check)\n")
	f["stderr.txt"] = []byte(o.stderr)
	for n, s := range base.out {
		f["first/"+n] = []byte(s)
	}
	for n, s := range o.out {
		f["second/"+n] = []byte(s)
	}
	return f
}

const schedRich = `#define A1 1
#define A2 (A1 + 2)
#define A_3 "three"
#define AF 1.5f
#define NEG (-A2)
enum e1 { E_X, E_Y = 5, E_Z }; typedef enum e1 e1t; typedef enum e1 e1u; typedef enum { N_A, N_B } en; enum e2 { F_X = -1, F_Y };
typedef enum e3 { G_X = A2 } e3;
typedef struct { int a; char *b; double d[3]; } st; typedef struct tag { st s; st *p; st **pp; const char *n; const char **ns; } tag;
struct only { short q; struct tag *t; enum e2 e; }; struct undefd; union un { int a; float b; }; typedef union { int c; char d[8]; } unt;
typedef void (*cb)(int a, const char *s); typedef st *(*cb2)(tag *t, void *u);
int f1(int *x, const char *s, st *p, tag **tt); void f2(const char **ss, int n[4], struct only o); st f3(union un *u, cb c); e1t f4(e1u a, enum e2 b, en n);
struct undefd *f5(struct undefd *u, void *v, void **vv); void f6(cb2 c, unt *u); int a_b(int a, int A); int a_B(int x);
extern int gvar; extern const char *gs; static const int gk = 4;
`

func schedRules() M {
	return M{
		"global":      L{M{"action": "accept", "from": "^[afghnescutAENFG]"}, M{"action": "ignore", "from": "^(__|unix|linux)"}, M{"action": "replace", "from": "_", "to": "0"}},
		"const":       L{M{"action": "ignore", "from": "AF"}, M{"transform": "lower"}, M{"action": "replace", "from": "^a", "to": "K"}},
		"type":        L{M{"action": "replace", "from": "^e", "to": "enum_"}},
		"function":    L{M{"action": "replace", "from": "^f", "to": "Fn"}, M{"action": "document", "from": "f1", "to": "$path $name"}},
		"private":     L{M{"transform": "unexport"}},
		"public":      L{M{"transform": "export"}},
		"post-global": L{M{"load": "snakecase"}, M{"transform": "title"}},
	}
}

// schedInputs are the inputs whose executions are explored: every kind of declaration alone, all together
// under every group of settings, several packages on one command line, and failing runs.
func schedInputs() (out []*schedJob) {
	add := func(name, hdr string, mod func(m M), args ...string) {
		m := stdManifest()
		sub(m, "GENERATOR")["Includes"] = L{"h/a.h"}
		sub(m, "PARSER")["SourcesPaths"] = L{"h/a.h"}
		if mod != nil {
			mod(m)
		}
		out = append(out, &schedJob{name, &Job{Files: map[string]string{"h/a.h": hdr}, Manifest: m, Args: args}})
	}
	add("constants", "#define A 1\n#define B (A+1)\nenum e { X, Y }; typedef enum { Z } z;\n", nil)
	add("function", "int f(int *x, const char *s);\n", nil)
	add("strings", "void f(const char **s, char *t, const char *u);\n", nil)
	add("struct", "typedef struct { int a; struct in { int b; } c; } st; void f(st *s, st **t);\n", nil)
	add("callback", "typedef int (*cb)(int a, const char *s); void f(cb c);\n", nil)
	add("callbacks", "typedef int (*cb)(int a, const char *s); typedef struct { int x; } st; typedef void (*cb2)(st *s, cb c); void f(cb c, cb2 d);\n", nil)
	add("union", "union u { int a; float f; }; void f(union u *p);\n", nil)
	add("enums", "enum e { X, Y }; typedef enum e e1; typedef enum e e2; typedef enum g { Z } g; enum h { P = 3, Q }; typedef enum { R } r; typedef enum h h1; e1 f(e2 a, g b, h1 c);\n", nil)
	add("tags", "struct ca { int x; }; struct ab { int y; }; struct bc { int z; }; union ub { int a; float f; }; union ua { int a; char c; }; enum ee { E1 }; enum ea { E2 }; enum eb { E3 = 2 }; struct cx; struct cy; typedef struct ab tb; void f(struct ca *a, struct bc b, union ua *u, union ub *v, struct cy *c, struct cx *x);\n", nil)
	add("clash", "#define a_b 1\n#define aB 2\ntypedef int ab; typedef struct { int x; } a_B; int f_g(int a); int fG(int b); enum { x_y, xY };\n", func(m M) {
		sub(m, "TRANSLATOR")["Rules"] = M{"global": L{M{"action": "accept", "from": "^[afx]"}, M{"action": "replace", "from": "_", "to": ""}}, "post-global": L{M{"transform": "lower"}, M{"transform": "title"}}}
	})
	add("nocgo", schedRich, func(m M) { sub(m, "TRANSLATOR")["Rules"] = schedRules() }, "-nocgo")
	add("rules", schedRich, func(m M) { sub(m, "TRANSLATOR")["Rules"] = schedRules() })
	add("tips", schedRich, func(m M) {
		sub(m, "TRANSLATOR")["Rules"] = schedRules()
		sub(m, "TRANSLATOR")["PtrTips"] = M{"any": L{M{"target": "^f", "default": "arr"}}, "function": L{M{"target": "^f[12]", "tips": L{"ref", "arr"}}}, "struct": L{M{"target": "st", "tips": L{0, "ref"}}}, "type": L{M{"target": "tag", "self": "arr"}}}
		sub(m, "TRANSLATOR")["TypeTips"] = M{"any": L{M{"target": "^f", "default": "plain"}}, "function": L{M{"target": "^f[34]", "tips": L{"named", "plain"}}}, "type": L{M{"target": "e1", "self": "plain"}}, "struct": L{M{"target": "tag", "self": "named"}}, "enum": L{M{"target": "e2", "self": "unsigned"}}}
		sub(m, "TRANSLATOR")["MemTips"] = L{M{"target": "^st$", "self": "raw"}, M{"target": "only", "self": "raw"}}
		sub(m, "TRANSLATOR")["LenFields"] = M{"tag.pp": "n", "st.b": "a"}
		sub(m, "GENERATOR")["Options"] = M{"SafeStrings": true, "StructAccessors": true, "KeepAlive": true}
	})
	add("settings", schedRich, func(m M) {
		t := sub(m, "TRANSLATOR")
		t["ConstRules"] = M{"defines": "eval", "enum": "cgo", "decl": "expand"}
		t["Validations"] = L{M{"func": "^f", "validate": "chk", "ret": "x"}, M{"func": "1$", "validate": "chk1"}}
		g := sub(m, "GENERATOR")
		g["PackageLicense"], g["PackageDescription"] = "L", "D"
		g["FlagGroups"] = L{M{"name": "CFLAGS", "flags": L{"-DX"}}, M{"name": "LDFLAGS", "traits": L{"linux"}, "flags": L{"-lm", "-lz"}}}
		g["PkgConfigOpts"] = L{}
		g["SysIncludes"] = L{"stdio.h", "stdlib.h"}
		p := sub(m, "PARSER")
		p["Defines"] = M{"A1": 7, "B1": "x", "C1": nil, "D1": 2.5}
		p["IgnoredPaths"] = L{"b.h", "c.h", "a.hh"}
	})
	// names that compare equal in part: by case, by ends, by length, by place in the file
	ties := "struct xa_Point { int a; }; struct xa_point { float b; }; struct xa_POINT { double c; }; struct xa_pointx { char d; }; union xb_Uni { int a; char c; }; union xb_uni { float b; int d; }; enum xc_En { A1 }; enum xc_en { A2 = 5 }; enum xc_EN { A3, A4 };\n" +
		"typedef struct xa_Point pta, *ptb, ptc[2]; typedef enum xc_En ena, ENA; typedef enum { B1, b1 } anon, ANON;\n#define xd_Mac 1\n#define xd_mac 2\n#define xd_MAC (xd_mac + 1)\n"
	add("ties", ties+"void f(struct xa_Point *a, struct xa_point *b, struct xa_POINT *c, struct xa_pointx *d, union xb_Uni *e, union xb_uni *g, enum xc_En h, enum xc_en i, enum xc_EN j); void F(pta a, anon b);\n", func(m M) {
		sub(m, "TRANSLATOR")["Rules"] = M{"global": L{M{"action": "accept", "from": "^[xpeafFAB]"}}}
		sub(m, "PARSER")["Defines"] = M{"k_Def": 1, "k_def": 2, "K_DEF": "x", "k_deF": 2.5}
	})
	twin := &Job{Manifest: stdManifest(), Files: map[string]string{}}
	sub(twin.Manifest, "GENERATOR")["Includes"] = L{"h/a.h", "h/b.h", "g/a.h"}
	sub(twin.Manifest, "PARSER")["SourcesPaths"] = L{"h/a.h", "h/b.h", "g/a.h"}
	for i, f := range []string{"h/a.h", "h/b.h", "g/a.h"} { // the same offsets in every header
		twin.Files[f] = strings.ReplaceAll("#define A_@ 1\nenum e@ { EX_@, EY_@ }; typedef enum { N_@ } n@; struct s@ { enum e@ e; }; typedef struct s@ t@; union u@ { int a; }; int f@(struct s@ *s, n@ n, union u@ *u);\n", "@", string("312"[i]))
	}
	out = append(out, &schedJob{"twins", twin})
	// several headers, one of them ignored
	m := stdManifest()
	sub(m, "GENERATOR")["Includes"] = L{"h/a.h", "h/b.h", "h/c.h"}
	sub(m, "PARSER")["SourcesPaths"] = L{"h/a.h", "h/b.h"}
	sub(m, "PARSER")["IgnoredPaths"] = L{"c.h", "d.h"}
	headers := &Job{Manifest: m, Files: map[string]string{
		"h/a.h": "#pragma once\n#include \"c.h\"\n#define A CC\nenum ea { XA, XB }; typedef struct { enum ea e; int n; } sa; void fa(sa *s);\n",
		"h/b.h": "#pragma once\n#include \"c.h\"\n#include \"d.h\"\nstruct sb { sc *c; int d; }; typedef enum { Y0, Y1 } eb; void fb(struct sb *s, eb e);\n",
		"h/c.h": "#pragma once\n#define CC 3\ntypedef struct { int a; } sc; void fc(sc *s);\nenum ec { Z1 = CC };\n",
		"h/d.h": "#pragma once\n#define DD 4\nvoid fd(int);\n"}}
	out = append(out, &schedJob{"headers", headers})
	// two packages in one run, with and without the progress display
	for _, fancy := range []string{"-fancy=false", "-fancy=true"} {
		m2 := clone(m)
		one := stdManifest()
		sub(one, "GENERATOR")["Includes"] = L{"h/z.h"}
		sub(one, "PARSER")["SourcesPaths"] = L{"h/z.h"}
		sub(m2, "GENERATOR")["PackageName"] = "two"
		j := &Job{Argv: []string{fancy, "-nostamp", "-out", "out", "pkg.yml", "two.yml"}, Manifest: one, Files: map[string]string{"h/z.h": "int f(int *x);\n", "two.yml": string(mustJSON(m2))}}
		for n, s := range headers.Files {
			j.Files[n] = s
		}
		out = append(out, &schedJob{"two packages " + fancy, j})
	}
	add("empty", "\n", nil)
	add("bad header", "int f(;\n", nil)
	add("bad rule", "int f(int);\n", func(m M) { sub(m, "TRANSLATOR")["Rules"] = M{"global": L{M{"action": "accept", "from": "("}}} })
	return out
}

func useInputs() []*schedJob {
	in := schedInputs()
	if o := os.Getenv("VCK_CFG"); o != "" {
		for _, j := range in {
			if j.name == o {
				return []*schedJob{j}
			}
		}
	}
	return in
}

// base runs an input with the first choice everywhere and compares it with the tool as it is.
func (c *Ctx) schedBase(bin string, sj *schedJob) *outcome {
	base := c.execSched(bin, sj.job, nil)
	c.EvalN(1)
	if base.bad == "limit" {
		c.exhaustive = false
		c.notes = append(c.notes, "more goroutines than the scheduler handles: "+sj.name)
		return nil
	}
	if base.bad != "" {
		c.Violate(sj.name+" | "+base.bad, base.bad+" on the first schedule", c.schedFiles(sj, nil, base, base))
		return nil
	}
	k := *sj.job
	top := filepath.Join(c.Scratch, "real")
	k.Dir = filepath.Join(top, "w")
	defer os.RemoveAll(top)
	r := c.Run(&k)
	if (base.code == 0) == strings.HasPrefix(sj.name, "bad ") {
		c.notes = append(c.notes, fmt.Sprintf("input %s: exit %d: %s", sj.name, base.code, firstLines(base.stderr, 5)))
	}
	real := &outcome{code: r.Code, out: r.Out, stderr: r.Stderr, to: r.TO}
	if s := base.differs(real); s != "" {
		c.Violate(sj.name+" | as built", "the tool as built and the tool under the scheduler's first schedule differ: "+s, c.schedFiles(sj, nil, base, real))
		return nil
	}
	return base
}

func runDeterminism(c *Ctx) {
	bin := c.buildInstr(false)
	in := useInputs()
	var runs, pts int64
	perKind := map[string]int64{}
	var mu sync.Mutex
	for _, sj := range in {
		base := c.schedBase(bin, sj)
		if base == nil {
			continue
		}
		for _, p := range base.choices {
			mu.Lock()
			perKind[p.kind]++
			mu.Unlock()
			pts++
		}
		r, full, _ := c.explore(bin, sj, "msc", 1, 1<<30, base)
		runs += r
		if !full {
			c.exhaustive = false
		}
		r, full = c.exploreSites(bin, sj, base)
		runs += r
		if !full {
			c.exhaustive = false
		}
		if lim := pairLimit(c); lim > 0 {
			r, full, _ = c.explore(bin, sj, "msc", 2, lim, base)
			runs += r
			c.Extra("pairs complete: "+sj.name, full)
		}
	}
	c.Extra("choice_points", perKind)
	c.Extra("executions", runs)
	c.Sample(map[string]any{"input": "rules", "choices": "5:1,9:3", "compared": "exit status and all output files with the first execution"})
}

func runSchedules(c *Ctx) {
	bin := c.buildInstr(false)
	race := c.buildInstr(true)
	in := useInputs()
	for _, sj := range in {
		base := c.schedBase(bin, sj)
		if base == nil {
			continue
		}
		c.helpersWhole(sj, base)
		lim := 1500
		if c.Thorough() {
			lim = 12000
		}
		n, full, d := c.explore(bin, sj, "sc", 40, lim, base)
		c.Extra("schedules of "+sj.name, map[string]any{"executions": n + 1, "all": full, "complete up to deviations": d})
		if !full {
			c.exhaustive = false
		}
		rb := c.execSched(race, sj.job, nil, "GORACE=atexit_sleep_ms=0")
		if s := base.differs(rb); s != "" {
			c.Violate(sj.name+" | race", s, c.schedFiles(sj, nil, base, rb))
			continue
		}
		rl, rd := 24, 1
		if c.Thorough() {
			rl, rd = 160, 2
		}
		n, full, _ = c.explore(race, sj, "sc", rd, rl, base, "GORACE=atexit_sleep_ms=0")
		c.Extra("race detection on "+sj.name, map[string]any{"executions": n + 1, "all": full})
	}
	c.Sample(map[string]any{"input": "callback", "choices": "2:1", "checked": "ends, no deadlock, crash or data race, same files; each helper the package uses is there once"})
}

// helpersWhole checks that every function and type the package uses is declared, and declared once.
func (c *Ctx) helpersWhole(sj *schedJob, o *outcome) {
	decl := map[string]map[string]int{}
	used := map[string]map[string]bool{}
	for n, s := range o.out {
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		d := filepath.Dir(n)
		if decl[d] == nil {
			decl[d], used[d] = map[string]int{}, map[string]bool{}
		}
		f, err := parser.ParseFile(token.NewFileSet(), n, s, 0)
		if err != nil {
			continue // not every input is valid Go; that is another property
		}
		for _, x := range f.Decls {
			switch x := x.(type) {
			case *ast.FuncDecl:
				k := x.Name.Name
				if x.Recv != nil {
					var t ast.Expr = x.Recv.List[0].Type
					if p, ok := t.(*ast.StarExpr); ok {
						t = p.X
					}
					if i, ok := t.(*ast.Ident); ok {
						k = i.Name + "." + k
					}
				}
				decl[d][k]++
			case *ast.GenDecl:
				for _, sp := range x.Specs {
					if t, ok := sp.(*ast.TypeSpec); ok {
						decl[d][t.Name.Name]++
					} else if v, ok := sp.(*ast.ValueSpec); ok {
						for _, i := range v.Names {
							decl[d][i.Name]++
						}
					}
				}
			}
		}
		for _, i := range f.Unresolved {
			used[d][i.Name] = true
		}
	}
	for d := range decl {
		for k, n := range decl[d] {
			if n > 1 && strings.Contains(helperNames, " "+helperStem(k)+" ") {
				c.Violate(sj.name+" | helper "+k, fmt.Sprintf("helper %s is there %d times", k, n), c.schedFiles(sj, nil, o, o))
			}
		}
		for k := range used[d] {
			if decl[d][k] == 0 && strings.Contains(helperNames, " "+helperStem(k)+" ") {
				c.Violate(sj.name+" | helper "+k, "the package uses the helper "+k+", which is not there", c.schedFiles(sj, nil, o, o))
			}
		}
	}
}

const helperNames = " unpack pack alloc copy safeString sliceHeader stringHeader cgoAllocMap cgoAllocsUnknown RawString "

var helperRx = regexp.MustCompile(`^(unpack|pack|alloc|copy)[A-Z].*`)

func helperStem(s string) string { return helperRx.ReplaceAllString(s, "$1") }

func pairLimit(c *Ctx) int {
	if c.Thorough() {
		return 6000
	}
	return 0
}

// perSite is how many iterations of one range statement are varied one by one.
func perSite(c *Ctx, depth int) int {
	if depth > 0 {
		return 2
	}
	if c.Thorough() {
		return 40
	}
	return 6
}

// exploreSites reverses the order of all iterations of one, two and all range statements.
func (c *Ctx) exploreSites(bin string, sj *schedJob, base *outcome) (int64, bool) {
	set := map[string]bool{}
	for _, p := range base.choices {
		if p.kind == "m" {
			set[p.site] = true
		}
	}
	sites := sortedKeys(set)
	var todo []string
	for i, a := range sites {
		todo = append(todo, a)
		for _, b := range sites[i+1:] {
			todo = append(todo, a+","+b)
		}
	}
	if len(sites) > 2 {
		todo = append(todo, strings.Join(sites, ","))
	}
	n := c.Par(len(todo), func(i int) {
		o := c.execSched(bin, sj.job, nil, "VCK_MAPS="+todo[i])
		c.EvalN(1)
		c.Transition(int64(len(o.choices)))
		c.Validated(1)
		if s := base.differs(o); s != "" {
			c.Violate(sj.name+" | map order", "reversed order of the maps ranged over at "+todo[i]+": "+s, c.schedFiles(sj, nil, base, o))
			return
		}
		c.State(sj.name + "|" + todo[i])
	})
	return int64(n), n == len(todo)
}
