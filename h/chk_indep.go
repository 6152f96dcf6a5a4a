package main

import (
	"fmt"
	"go/ast"
	"path"
	"regexp"
	"sort"
	"strings"
	"sync"
)

func init() {
	checks["C31"] = check{"exploration", "a case is one ordered pair (or arrangement) of declarations under one configuration; non-trivial = distinct (first, second, configuration)", runIndep}
	fastChecks["C31"] = true
}

var indepPos = regexp.MustCompile(`((?:declared|defined) in \S+):\d+`)
var indepHx = regexp.MustCompile(`\bhx[0-9a-f]+\b`)
var indepWs = regexp.MustCompile(`\s+`)

func indepText(s string) string {
	s = indepPos.ReplaceAllString(s, "$1:N")
	// generated variables are numbered through the package
	names := map[string]string{}
	s = indepHx.ReplaceAllStringFunc(s, func(x string) string {
		if names[x] == "" {
			names[x] = fmt.Sprintf("hx_%d", len(names))
		}
		return names[x]
	})
	return strings.TrimSpace(indepWs.ReplaceAllString(s, " "))
}

// indepItems takes a generated package apart: declarations of Go by file and name, lines of C.
func indepItems(r *Result) (map[string]string, error) {
	if r.Code != 0 {
		return nil, fmt.Errorf("the run fails: %s", firstLines(r.Stderr, 3))
	}
	out := map[string]string{}
	g := parseOut(r.Out)
	if len(g.Errs) > 0 {
		return nil, fmt.Errorf("%s", g.Errs[0])
	}
	for n, f := range g.Files {
		src := g.Src[n]
		text := func(doc *ast.CommentGroup, d ast.Node) string {
			b := g.Fset.Position(d.Pos()).Offset
			s := ""
			if doc != nil {
				s = doc.Text() + "\n"
			}
			return s + src[b:g.Fset.Position(d.End()).Offset]
		}
		put := func(k, t string) {
			k = n + " " + k
			for i := 2; out[k] != ""; i++ { // the same name twice
				k = fmt.Sprintf("%s (%d)", strings.TrimSuffix(k, fmt.Sprintf(" (%d)", i-1)), i)
			}
			out[k] = indepText(t)
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				k := x.Name.Name
				if x.Recv != nil && len(x.Recv.List) > 0 {
					k = g.str(x.Recv.List[0].Type) + "." + k
				}
				put("func "+k, text(x.Doc, &ast.FuncDecl{Recv: x.Recv, Name: x.Name, Type: x.Type, Body: x.Body}))
			case *ast.GenDecl:
				for _, sp := range x.Specs {
					switch y := sp.(type) {
					case *ast.TypeSpec:
						doc := y.Doc
						if doc == nil && !x.Lparen.IsValid() {
							doc = x.Doc
						}
						put("type "+y.Name.Name, text(doc, y))
					case *ast.ValueSpec:
						doc := y.Doc
						if doc == nil && !x.Lparen.IsValid() {
							doc = x.Doc
						}
						var l []string
						for _, v := range y.Names {
							l = append(l, v.Name)
						}
						put(x.Tok.String()+" "+strings.Join(l, ","), text(doc, y))
					}
				}
			}
		}
	}
	for n, s := range r.Out {
		if b := path.Base(n); b == "cgo_helpers.c" || b == "cgo_helpers.h" {
			for _, l := range strings.Split(s, "\n") {
				if l = strings.TrimSpace(l); l != "" && l != "}" && !strings.HasPrefix(l, "//") {
					out[b+" line "+l] = l
				}
			}
		}
	}
	return out, nil
}

// indepDecls are declarations of every kind; @ is the name.
func indepDecls(thorough bool) (out []string) {
	bases := []string{"int", "unsigned char", "float", "st", "un", "enum et", "opq *", "cbk"}
	if thorough {
		bases = append(bases, "char", "unsigned long long", "uint8_t", "struct plainst", "myint2", "bool", "hopq", "size_t")
	}
	for _, pos := range []string{"param", "ret", "member", "typedef", "cbparam", "umember", "extern"} {
		for _, b := range bases {
			for _, t := range []string{b + " ", b + " *", "const " + b + " *", b + " **"} {
				for _, d := range []string{"", "[2]"} {
					x := &cdecl{pos: pos, typ: t, dims: d, base: strings.TrimSuffix(b, " *"), cnst: strings.HasPrefix(t, "const"), ptr: strings.Count(t, "*")}
					x.text = compText(pos, t, d)
					if x.text == "" || compUnsupported("default", x) || pos == "typedef" && (b == "enum et" || b == "struct plainst") { // that gives the common type another name
						continue
					}
					if !thorough {
						few := b == "int" || b == "st"
						if pos != "param" && !few && b != "opq *" && b != "cbk" {
							continue
						}
						if (strings.HasPrefix(t, "const") || strings.Contains(t, "**")) && (!few || pos != "param") {
							continue
						}
						if few && b == "int" && pos != "param" && t == "int " || d != "" && pos != "param" && pos != "member" || b == "un" && d != "" {
							continue
						}
					}
					out = append(out, x.text)
				}
			}
		}
	}
	out = append(out,
		"void @(const char *s);", "int @(const char **l, char *b);", "const char *const @(void);",
		"typedef struct { const char *const s; char b[8]; int *l; } @;",
		"struct @ { struct @ *next; int n; }; void @f(struct @ *p);",
		"typedef struct @t { struct @t *next; st s; st *p; } @; int @f(@ *p, @ v);",
		"struct @; int @f(struct @ *p);",
		"typedef struct @t @; @ *@new(void); void @free(@ *p);",
		"#define @A 5\n#define @B \"text\"\n#define @C (@A + 1)\n#define @D 1.5",
		"enum { @A, @B = 7, @C };",
		"typedef enum @t { @A = 1 << 3, @B = @A | 1 } @; @ @f(@ e, @ *p);",
		"static const int @ = 5;",
		"typedef void (*@)(void); void @set(@ cb); @ @get(void);",
		"typedef int (*@)(const char *s, void *d, st *p, int l[2]);",
		"typedef struct @_T *@; @ @new(int n); void @use(@ h);",
		"typedef union @t { int a; char b[8]; } @; @ @f(@ u); void @g(@ *u);",
		"typedef int @a; typedef @a @b; @b @f(@b x, @a *y);",
		"typedef struct { unsigned a:3; int c; } @;",
		"void @(int a, int ca, void *b);",
		"int @(void); extern int @v;",
		"void @(st x[3], st *y[3]); void @b(st (*x)[2], st (*y)[3]);",
		"void @(st (*x)[2]);", "void @(st (*x)[3]);", "void @(int (**x)[2]);", "int (*@(void))[3];", "typedef struct { st (*a)[3]; int (*b)[2]; } @;",
		"typedef struct { st a[3]; const char *const l[3]; int b[2][3]; } @;",
	)
	return out
}

func runIndep(c *Ctx) {
	c.Assume("declarations that share no name but those of the common types", "numbers in the names of local variables and source lines are not compared")
	texts := indepDecls(c.Thorough())
	var cfgs []compCfg
	for _, cfg := range compCfgs() {
		switch cfg.name {
		case "default", "arr", "safestrings":
			cfgs = append(cfgs, cfg)
		case "sref", "ref", "plain", "named", "rawmem":
			if c.Thorough() {
				cfgs = append(cfgs, cfg)
			}
		}
	}
	inst := func(t, n string) string { return strings.ReplaceAll(t, "@", n) }
	job := func(cfg compCfg, texts ...string) *Job {
		return &Job{Files: map[string]string{"h/a.h": cPrelude + strings.Join(texts, "\n") + "\n"}, Manifest: compManifest(cfg, "h/a.h")}
	}
	type key struct {
		cfg, text, name string
	}
	alone := map[key]map[string]string{}
	var mu sync.Mutex
	// each declaration alone, under two names
	type one struct {
		cfg  compCfg
		text string
		name string
	}
	var ones []one
	for _, cfg := range cfgs {
		for _, t := range texts {
			ones = append(ones, one{cfg, t, "va"}, one{cfg, t, "vb"})
		}
		ones = append(ones, one{cfg, "", "va"})
	}
	c.Par(len(ones), func(i int) {
		o := ones[i]
		it, err := indepItems(c.Run(job(o.cfg, inst(o.text, o.name))))
		if err != nil {
			return // C03 and C04 judge single declarations
		}
		mu.Lock()
		alone[key{o.cfg.name, o.text, o.name}] = it
		mu.Unlock()
	})
	compare := func(got map[string]string, parts []map[string]string) (bad []string) {
		want := map[string]string{}
		for _, p := range parts {
			for k, v := range p {
				if o, ok := want[k]; ok && o != v {
					bad = append(bad, fmt.Sprintf("%s differs between the packages of one: %s / %s", k, o, v))
				}
				want[k] = v
			}
		}
		for k, v := range want {
			if g, ok := got[k]; !ok {
				bad = append(bad, k+" is missing")
			} else if g != v {
				bad = append(bad, fmt.Sprintf("%s is %q, alone %q", k, clip(g, 200), clip(v, 200)))
			}
		}
		for k := range got {
			if _, ok := want[k]; !ok {
				bad = append(bad, k+" is new")
			}
		}
		sort.Strings(bad)
		return bad
	}
	indepNames(c, job, compare)
	type pair struct {
		cfg  compCfg
		a, b string
	}
	var pairs []pair
	for _, cfg := range cfgs {
		for ai, a := range texts {
			if alone[key{cfg.name, a, "va"}] == nil {
				c.AddExtra("left out (no package of its own)", 1)
				continue
			}
			for bi, b := range texts {
				if d := (bi - ai + len(texts)) % len(texts); cfg.name != "default" && !c.Thorough() && d != 0 && d != 1 && d != 11 {
					continue
				}
				if alone[key{cfg.name, b, "vb"}] != nil {
					pairs = append(pairs, pair{cfg, a, b})
				}
			}
		}
	}
	c.Extra("declarations", len(texts))
	// all of them in one header: in order, reversed, and rotated
	type all struct {
		cfg   compCfg
		order []int
		name  string
	}
	var alls []all
	for _, cfg := range cfgs {
		var idx []int
		for i, t := range texts {
			if alone[key{cfg.name, t, "va"}] != nil {
				idx = append(idx, i)
			}
		}
		rev := append([]int{}, idx...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		alls = append(alls, all{cfg, idx, "in order"}, all{cfg, rev, "reversed"})
		for k := 1; k < 4; k++ {
			n := len(idx) * k / 4
			alls = append(alls, all{cfg, append(append([]int{}, idx[n:]...), idx[:n]...), fmt.Sprintf("rotated by %d", n)})
		}
	}
	own := map[key]map[string]string{}
	var owns []key
	byCfg := map[string]compCfg{}
	for _, cfg := range cfgs {
		byCfg[cfg.name] = cfg
		for i, t := range texts {
			if alone[key{cfg.name, t, "va"}] != nil {
				owns = append(owns, key{cfg.name, t, fmt.Sprintf("v%dx", i)})
			}
		}
	}
	c.Par(len(owns), func(i int) {
		o := owns[i]
		it, _ := indepItems(c.Run(job(byCfg[o.cfg], inst(o.text, o.name))))
		mu.Lock()
		own[o] = it
		mu.Unlock()
	})
	c.Par(len(alls), func(i int) {
		a := alls[i]
		var l []string
		var parts []map[string]string
		for _, x := range a.order {
			n := fmt.Sprintf("v%dx", x)
			l = append(l, inst(texts[x], n))
			parts = append(parts, own[key{a.cfg.name, texts[x], n}])
		}
		j := job(a.cfg, l...)
		r := c.Run(j)
		k := a.cfg.name + " | all " + a.name
		c.Eval(k)
		got, err := indepItems(r)
		if err != nil {
			c.Violate(k, "each declaration alone gives a package, all do not: "+err.Error(), withOut(jobFiles(j), r))
		} else if bad := compare(got, parts); len(bad) > 0 {
			c.Violate(k, strings.Join(bad[:min(4, len(bad))], "\n  "), withOut(jobFiles(j), r))
		}
	})
	c.Par(len(pairs), func(i int) {
		p := pairs[i]
		j := job(p.cfg, inst(p.a, "va"), inst(p.b, "vb"))
		r := c.Run(j)
		k := p.cfg.name + " | " + inst(p.a, "va") + " | " + inst(p.b, "vb")
		c.Eval(k)
		got, err := indepItems(r)
		if err != nil {
			c.Violate(k, "each declaration alone gives a package, both do not: "+err.Error(), withOut(jobFiles(j), r))
			return
		}
		if bad := compare(got, []map[string]string{alone[key{p.cfg.name, p.a, "va"}], alone[key{p.cfg.name, p.b, "vb"}]}); len(bad) > 0 {
			c.Violate(k, strings.Join(bad[:min(4, len(bad))], "\n  "), withOut(jobFiles(j), r))
		}
		if i == 7 {
			c.Sample(map[string]any{"first": inst(p.a, "va"), "second": inst(p.b, "vb"), "items": len(got)})
		}
	})
}

// indepNames binds pairs of types whose names are made of each other by what names of helpers are made of
// (P for a pointer, S for a slice, A2 for an array, U for unsigned, Memory, Value and so on behind).
func indepNames(c *Ctx, job func(cfg compCfg, texts ...string) *Job, compare func(map[string]string, []map[string]string) []string) {
	tips := func(ptr, typ string) func(m M) {
		return func(m M) {
			if ptr != "" {
				sub(m, "TRANSLATOR")["PtrTips"] = M{"any": L{M{"target": ".", "default": ptr, "self": ptr}}}
			}
			if typ != "" {
				sub(m, "TRANSLATOR")["TypeTips"] = M{"any": L{M{"target": ".", "default": typ, "self": typ}}}
			}
		}
	}
	cfgs := []compCfg{{"default", func(m M) {}}, {"arr", tips("arr", "")}, {"sref", tips("sref", "")}, {"named", tips("arr", "named")}}
	kinds := []struct{ name, text string }{
		{"struct", "typedef struct { int a; } T;"},
		{"bigger struct", "typedef struct { double a, b; } T;"},
		{"int", "typedef int T;"},
		{"unsigned", "typedef unsigned int T;"},
		{"enum", "typedef enum { T_one } T;"},
		{"union", "typedef union { int a; char b[9]; } T;"},
		{"callback", "typedef int (*T)(int a);"},
		{"handle", "typedef struct T_t *T;"},
		{"string", "typedef const char *T;"},
	}
	if !c.Thorough() {
		kinds = append(kinds[:4:4], kinds[6])
		cfgs = cfgs[:3]
	}
	uses := []string{"void f(T *x);", "void f(T **x);", "void f(T x[2]);", "void f(T *x[2]);", "T *f(void);", "T **f(void);", "typedef struct { T m; } f;",
		"typedef struct { T *m; } f;", "typedef struct { T **m; } f;", "typedef struct { T m[2]; } f;", "void f(const T *x);"}
	forms := []string{"P@", "S@", "U@", "A2@", "SP@", "PP@", "A2P@", "@Memory", "@Value", "@Ref", "New@", "@_a"}
	if c.Thorough() {
		forms = append(forms, "AX@", "SS@", "A2A2@", "SA2@", "PA2@", "@String", "@Bytes", "X@", "@Func", "@C", "pack@", "unpack@", "alloc@", "sizeOf@", "copy@")
	}
	const first = "Vinfo"
	text := func(k int, typ, f string, which []bool) string {
		var l []string
		put := func(t, f string) {
			t = regexp.MustCompile(`\bf\b`).ReplaceAllString(t, f)
			t = regexp.MustCompile(`\bT(\b|_)`).ReplaceAllString(t, typ+"$1")
			l = append(l, t)
		}
		put(kinds[k].text, f)
		for i, u := range uses {
			if which == nil || which[i] {
				put(u, fmt.Sprintf("%s%d", f, i))
			}
		}
		return strings.Join(l, "\n")
	}
	// what works at all
	works := make([][]bool, len(cfgs)*len(kinds))
	for i := range works {
		works[i] = make([]bool, len(uses))
	}
	c.Par(len(works)*len(uses), func(i int) {
		w, u := i/len(uses), i%len(uses)
		which := make([]bool, len(uses))
		which[u] = true
		_, err := indepItems(c.Run(job(cfgs[w/len(kinds)], text(w%len(kinds), first, "va", which))))
		works[w][u] = err == nil
	})
	var names []string
	for _, f := range forms {
		names = append(names, strings.ReplaceAll(f, "@", first))
	}
	var mu sync.Mutex
	alone := map[string]map[string]string{}
	key := func(w int, name string) string { return fmt.Sprintf("%d %s", w, name) }
	c.Par(len(works)*(len(names)+1), func(i int) {
		w, n, f := i/(len(names)+1), i%(len(names)+1), "vb"
		name := first
		if n < len(names) {
			name = names[n]
		} else {
			f = "va"
		}
		if it, err := indepItems(c.Run(job(cfgs[w/len(kinds)], text(w%len(kinds), name, f, works[w])))); err == nil {
			mu.Lock()
			alone[key(w, name)] = it
			mu.Unlock()
		}
	})
	nk := len(kinds)
	c.Par(len(cfgs)*nk*nk*len(names)*2, func(i int) {
		swap := i%2 == 1
		i /= 2
		if swap && !c.Thorough() && i/len(names)/nk/nk > 0 {
			return
		}
		name := names[i%len(names)]
		i /= len(names)
		b, a, cfg := i%nk, i/nk%nk, i/nk/nk
		wa, wb := cfg*nk+a, cfg*nk+b
		pa, pb := alone[key(wa, first)], alone[key(wb, name)]
		if pa == nil || pb == nil {
			c.AddExtra("left out (no package of its own)", 1)
			return
		}
		ta, tb := text(a, first, "va", works[wa]), text(b, name, "vb", works[wb])
		if swap {
			ta, tb = tb, ta
		}
		j := job(cfgs[cfg], ta, tb)
		r := c.Run(j)
		k := fmt.Sprintf("names %s | %s %s | %s %s", cfgs[cfg].name, kinds[a].name, first, kinds[b].name, name)
		if swap {
			k += " | reversed"
		}
		c.Eval(k)
		got, err := indepItems(r)
		if err != nil {
			c.Violate(k, "each declaration alone gives a package, both do not: "+err.Error(), withOut(jobFiles(j), r))
		} else if bad := compare(got, []map[string]string{pa, pb}); len(bad) > 0 {
			c.Violate(k, strings.Join(bad[:min(4, len(bad))], "\n  "), withOut(jobFiles(j), r))
		}
	})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
