package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"path/filepath"
	"regexp"
	"strings"
)

func init() {
	checks["C21"] = check{"exploration", "a case is one ordered list of validations over ten functions of different shapes; non-trivial = some but not all functions are validated", runValidations}
	checks["C28"] = check{"exploration", "a case is one arrangement of declarations over files and lines, or one list of doc rules over eight declaration kinds; non-trivial = more than one declaration", runDocs}
}

// ---- C21

func runValidations(c *Ctx) {
	hdr := `typedef struct vk_s { int a; } vk_s;
typedef int (*vk_cb)(int x);
void vk_void(void);
int vk_int(int a);
const char *vk_str(const char *s);
vk_s *vk_obj(vk_s *s, int n);
void vk_list(vk_s **l, const char **names);
int vk_call(vk_cb cb, void *ctx);
int vk_int_more(int if_, int *range);
float vk_f(float f);
void vkIntCamel(int x);
int vk_free(vk_s *s);
`
	funcs := []string{"vk_void", "vk_int", "vk_str", "vk_obj", "vk_list", "vk_call", "vk_int_more", "vk_f", "vkIntCamel", "vk_free"}
	pats := []string{"vk_int", "^vk_int$", "vk_(obj|list)", "vk_(?!str).*", "Int", "(?i)INT", "^nothing", ".*", "^vk_(?!free|void)", "str$", "vk_int(?=_)"}
	match := map[string]func(s string) bool{}
	for _, p := range pats {
		switch p {
		case "vk_(?!str).*":
			match[p] = func(s string) bool { return strings.Contains(s, "vk_") && !strings.Contains(s, "vk_str") }
		case "^vk_(?!free|void)":
			match[p] = func(s string) bool {
				return strings.HasPrefix(s, "vk_") && !strings.HasPrefix(s, "vk_free") && !strings.HasPrefix(s, "vk_void")
			}
		case "vk_int(?=_)":
			match[p] = func(s string) bool { return strings.Contains(s, "vk_int_") }
		default:
			match[p] = regexp.MustCompile(p).MatchString
		}
	}
	rets := []string{"", "nil", "-1, err", "vkErr(\"x\")"}
	vals := []string{"vkCheck", "pkg.Check", "vkOther"}
	var cases [][]string // pattern lists
	for _, p := range pats {
		cases = append(cases, []string{p})
		for _, q := range pats {
			cases = append(cases, []string{p, q})
			for _, o := range pats {
				if c.Thorough() {
					cases = append(cases, []string{p, q, o})
				}
			}
		}
	}
	renames := [][2]L{{nil, nil}, {L{M{"action": "replace", "from": "vk_int", "to": "qq"}}, L{M{"transform": "export"}}}}
	type vc struct {
		pats []string
		ren  int
		tips bool
	}
	var cs []vc
	for i, p := range cases {
		for ren := range renames {
			for _, t := range []bool{false, true} {
				if len(p) < 2 || c.Thorough() || (i+ren)%2 == 0 != t {
					cs = append(cs, vc{p, ren, t})
				}
			}
		}
	}
	bases := map[string]map[string]string{}
	mk := func(k vc) *Job {
		rules := clone(vkRules())
		if k.ren > 0 {
			rules["global"] = append(rules["global"].([]any), renames[k.ren][0]...)
			rules["post-global"] = renames[k.ren][1]
		}
		tr := M{"Rules": rules}
		if k.tips {
			tr["PtrTips"] = M{"function": L{M{"target": "vk_obj", "tips": L{"inst", ""}}, M{"target": "vk_list", "default": "ref"}}}
		}
		var v L
		for i, p := range k.pats {
			v = append(v, M{"validatefunc": vals[i%len(vals)], "ret": rets[(i+len(p))%len(rets)], "matchedfunc": p})
		}
		if v != nil {
			tr["Validations"] = v
		}
		return &Job{Files: map[string]string{"h/a.h": hdr}, Manifest: M{"GENERATOR": M{"PackageName": "p", "Includes": L{"h/a.h"}}, "PARSER": M{"SourcesPaths": L{"h/a.h"}}, "TRANSLATOR": tr}}
	}
	for ren := range renames {
		for _, t := range []bool{false, true} {
			r := c.Run(mk(vc{nil, ren, t}))
			if r.Code != 0 {
				c.Violate("no validations", r.Stderr, nil)
				return
			}
			bases[fmt.Sprint(ren, t)] = r.Out
		}
	}
	n := c.Par(len(cs), func(i int) {
		k := cs[i]
		j := mk(k)
		r := c.Run(j)
		key := fmt.Sprintf("validations %q renames %d tips %v", k.pats, k.ren, k.tips)
		base := parseOut(bases[fmt.Sprint(k.ren, k.tips)])
		g := parseOut(r.Out)
		if r.Code != 0 || len(g.Errs) > 0 {
			c.Violate(key, fmt.Sprintf("exit %d %v %s", r.Code, g.Errs, firstLines(r.Stderr, 4)), withOut(jobFiles(j), r))
			return
		}
		by := map[string]goFunc{}
		for _, f := range g.Funcs() {
			by[f.Recv+"."+f.Name] = f
		}
		hit := 0
		for _, bf := range base.Funcs() {
			if bf.File != "p.go" || len(bf.Calls) == 0 {
				continue
			}
			var cname string
			for _, x := range bf.Calls {
				if has(funcs, x) {
					cname = x
				}
			}
			f, ok := by[bf.Recv+"."+bf.Name]
			if !ok || cname == "" {
				c.Violate(key+" "+bf.Name, "the function is missing", withOut(jobFiles(j), r))
				continue
			}
			which := -1
			for x, p := range k.pats {
				if match[p](cname) {
					which = x
					break
				}
			}
			c.EvalN(1)
			want := base.str(bf.Decl.Body)
			got := f.Decl.Body
			if which >= 0 {
				hit++
				p := k.pats[which]
				st, ok := first(got)
				chk := vals[which%len(vals)] + "(\"" + cname + "\") != nil"
				ret := rets[(which+len(p))%len(rets)]
				if !ok || st.Init != nil || st.Else != nil || g.str(st.Cond) != chk || len(st.Body.List) != 1 || strings.TrimSpace(strings.TrimPrefix(g.str(st.Body.List[0]), "return")) != ret {
					c.Violate(key+" "+cname, fmt.Sprintf("%s must begin with: if %s { return %s }; it is\n%s", cname, chk, ret, g.str(got)), withOut(jobFiles(j), r))
					continue
				}
				got = &ast.BlockStmt{List: got.List[1:]}
			}
			if squash(strings.Trim(g.str(&ast.BlockStmt{List: got.List}), "{}\n ")) != squash(strings.Trim(base.str(&ast.BlockStmt{List: bf.Decl.Body.List}), "{}\n ")) {
				c.Violate(key+" "+cname, fmt.Sprintf("the rest of %s differs from the function without validations:\n%s\n---\n%s", cname, g.str(got), want), withOut(jobFiles(j), r))
			}
		}
		// nothing else changes
		for _, fn := range sortedKeys(bases[fmt.Sprint(k.ren, k.tips)]) {
			if fn != "p/p.go" && r.Out[fn] != bases[fmt.Sprint(k.ren, k.tips)][fn] {
				c.Violate(key+" "+fn, "the file differs: "+firstDiff(bases[fmt.Sprint(k.ren, k.tips)][fn], r.Out[fn]), withOut(jobFiles(j), r))
			}
		}
		if hit > 0 && hit < len(funcs) {
			c.Distinct(key)
		}
		if i%67 == 0 {
			c.Sample(M{"validations": k.pats, "functions_validated": hit})
		}
	})
	c.Extra("lists_run", int64(n))
}

func first(b *ast.BlockStmt) (*ast.IfStmt, bool) {
	if b == nil || len(b.List) == 0 {
		return nil, false
	}
	s, ok := b.List[0].(*ast.IfStmt)
	return s, ok
}

// ---- C28

type docDecl struct {
	kind string
	text func(x string) string // one line
	// items: name -> target of the doc rules that apply
	items func(x string) map[string]string
}

var docDecls = []docDecl{
	{"macro", func(x string) string { return "#define vk_m" + x + " 5\n" }, func(x string) map[string]string { return map[string]string{"vk_m" + x: "const"} }},
	{"anon", func(x string) string { return "enum { vk_p" + x + " = 1, vk_q" + x + " };\n" }, func(x string) map[string]string {
		return map[string]string{"vk_p" + x: "const", "vk_q" + x: "const"}
	}},
	{"enum", func(x string) string { return "typedef enum vk_e" + x + " { vk_ea" + x + " } vk_e" + x + ";\n" }, func(x string) map[string]string { return map[string]string{"vk_e" + x: "const"} }},
	{"struct", func(x string) string { return "typedef struct { int a; } vk_s" + x + ";\n" }, func(x string) map[string]string { return map[string]string{"vk_s" + x: "type"} }},
	{"tag", func(x string) string { return "struct vk_t" + x + " { int a; };\n" }, func(x string) map[string]string { return map[string]string{"vk_t" + x: "type"} }},
	{"union", func(x string) string { return "typedef union { int i; float f; } vk_u" + x + ";\n" }, func(x string) map[string]string { return map[string]string{"vk_u" + x: "type"} }},
	{"int", func(x string) string { return "typedef unsigned vk_i" + x + ";\n" }, func(x string) map[string]string { return map[string]string{"vk_i" + x: "type"} }},
	{"cb", func(x string) string { return "typedef int (*vk_c" + x + ")(int);\n" }, func(x string) map[string]string { return map[string]string{"vk_c" + x: "function"} }},
	{"func", func(x string) string { return "int vk_f" + x + "(int a);\n" }, func(x string) map[string]string { return map[string]string{"vk_f" + x: "function"} }},
	{"const", func(x string) string { return "const int vk_k" + x + " = 4;\n" }, func(x string) map[string]string { return map[string]string{"vk_k" + x: "const"} }},
}

// docs returns the doc text of every generated vk_ item, and the order of the items by group.
func docs(g *Gen) (map[string]string, map[string][]string, map[string]int) {
	d := map[string]string{}
	order := map[string][]string{}
	count := map[string]int{}
	for _, k := range g.Consts() {
		if u, ok := strings.CutPrefix(k.Name, "sizeofvk_u"); ok {
			d["vk_u"+u] = k.Doc // the comment of a union stands above its size
		}
		if strings.HasPrefix(k.Name, "vk_ea") || !strings.HasPrefix(k.Name, "vk_") {
			continue
		}
		d[k.Name] = k.Doc
		count[k.Name]++
		order["constants"] = append(order["constants"], k.Name)
	}
	for _, t := range g.Types() {
		if !strings.HasPrefix(t.Name, "vk_") {
			continue
		}
		if t.Doc != "" {
			d[t.Name] = t.Doc
		}
		count[t.Name]++
		order["types"] = append(order["types"], t.Name)
	}
	for _, f := range g.Funcs() {
		if f.File == "cgo_helpers.go" || !strings.HasPrefix(f.Name, "vk_") {
			continue
		}
		d[f.Name] = f.Doc
		count[f.Name]++
		order["functions"] = append(order["functions"], f.Name)
	}
	return d, order, count
}

func runDocs(c *Ctx) {
	type pos struct {
		file string
		line int
	}
	type dc struct {
		kinds []int
		split int
	}
	// arrangements of 4 declarations over 3 files; gaps differ
	var cs []dc
	n := len(docDecls)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for d := 0; d < n; d++ {
				if c.Thorough() {
					for e := 0; e < n; e++ {
						cs = append(cs, dc{[]int{a, b, d, e}, (a + b + d + e) % 5})
					}
					continue
				}
				cs = append(cs, dc{[]int{a, b, d}, (a + 2*b + 3*d) % 5})
				if a == b || b == d {
					cs = append(cs, dc{[]int{a, b, d}, (a+2*b+3*d)%5 + 1})
				}
			}
		}
	}
	lists := int64(0)
	c.Par(len(cs), func(i int) {
		k := cs[i]
		// the files a/z.h (includes b/m.h in the middle), b/m.h, c/a.h (second source)
		src := map[string]string{"a/z.h": "", "b/m.h": "", "c/a.h": ""}
		at := map[string]pos{}
		target := map[string]string{}
		group := map[string]string{}
		put := func(f, s string) int {
			src[f] += s
			return strings.Count(src[f], "\n")
		}
		put("a/z.h", "/* first\n line */\n#ifndef Z\n#define Z\n")
		for x, di := range k.kinds {
			var f string
			switch {
			case k.split == 0:
				f = "a/z.h"
			case k.split == 1:
				f = []string{"a/z.h", "b/m.h", "c/a.h"}[x%3]
			case k.split == 2:
				f = []string{"c/a.h", "a/z.h", "b/m.h"}[x%3]
			case k.split == 3:
				f = []string{"b/m.h", "a/z.h"}[x%2]
			case k.split == 4:
				f = []string{"a/z.h", "c/a.h"}[x/2%2]
			default:
				f = "c/a.h"
			}
			put(f, strings.Repeat("\n", x*2)+"/* c\n */")
			if f == "a/z.h" && x == 1 {
				put(f, "\n#include \"../b/m.h\"\n")
			}
			id := fmt.Sprintf("%d", 9-x) // names sort against the order
			dd := docDecls[di]
			ln := put(f, dd.text(id))
			if !strings.HasSuffix(src[f][:len(src[f])-len(dd.text(id))], "\n") && dd.kind == "macro" {
				// a directive may follow a comment on its line
			}
			for nm, tg := range dd.items(id) {
				at[nm] = pos{f, ln}
				target[nm] = tg
				group[nm] = dd.kind
			}
		}
		put("a/z.h", "#endif\n")
		srcs := L{"a/z.h", "c/a.h", "b/m.h"}
		if strings.Contains(src["a/z.h"], "include") {
			srcs = L{"a/z.h", "c/a.h"}
		}
		j := &Job{Files: src, Manifest: M{"GENERATOR": M{"PackageName": "p", "Includes": L{"a/z.h"}}, "PARSER": M{"SourcesPaths": srcs}, "TRANSLATOR": M{"Rules": vkRules()}}}
		r := c.Run(j)
		var kn []string
		for _, di := range k.kinds {
			kn = append(kn, docDecls[di].kind)
		}
		key := fmt.Sprintf("declarations %v, files %d", kn, k.split)
		c.EvalN(1)
		c.Distinct(key)
		g := parseOut(r.Out)
		if r.Code != 0 || len(g.Errs) > 0 {
			c.Violate(key, fmt.Sprintf("exit %d %v %s", r.Code, g.Errs, firstLines(r.Stderr, 4)), withOut(jobFiles(j), r))
			return
		}
		d, order, count := docs(g)
		for _, nm := range sortedKeys(at) {
			want := fmt.Sprintf("%s:%d", at[nm].file, at[nm].line)
			first, _, _ := strings.Cut(d[nm], "\n")
			if count[nm] != 1 || !strings.HasPrefix(first, "// "+nm+" ") || !strings.HasSuffix(first, " "+want) {
				c.Violate(key+" "+nm, fmt.Sprintf("%s, declared at %s, is generated %d times with the comment %q", nm, want, count[nm], d[nm]), withOut(jobFiles(j), r))
			}
		}
		// source order within a kind and file
		for _, gr := range sortedKeys(order) {
			l := order[gr]
			for x := range l {
				for y := x + 1; y < len(l); y++ {
					p, q := at[l[x]], at[l[y]]
					if group[l[x]] == group[l[y]] && group[l[x]] != "tag" && p.file == q.file && p.line > q.line {
						c.Violate(key+" order "+gr, fmt.Sprintf("%s (%v) stands before %s (%v)", l[x], p, l[y], q), withOut(jobFiles(j), r))
					}
				}
			}
		}
		if i%131 == 0 {
			c.Sample(M{"case": key, "positions": fmt.Sprint(at)})
		}
	})

	// doc rules
	hdr := "\n"
	line := map[string]int{}
	target := map[string]string{}
	for _, st := range []string{"ab", "bb"} {
		for x := range docDecls {
			dd := docDecls[x]
			hdr += dd.text(st)
			for nm, tg := range dd.items(st) {
				line[nm] = strings.Count(hdr, "\n")
				target[nm] = tg
				if dd.kind == "enum" || dd.kind == "cb" {
					target[nm] = "" // checked for global rules only
				}
			}
		}
	}
	type dr struct {
		target, from, to, load string
	}
	var al []dr
	for _, tg := range []string{"global", "post-global", "const", "type", "function"} {
		for _, fr := range []string{"", "^vk_.ab", "bb$", "vk_(.)a", "nothing"} {
			for _, to := range []string{"$path:$line", "see-$name", "$file+$name", "http://x/$path#L$line", "${file}x", "lit.eral", ""} {
				al = append(al, dr{tg, fr, to, ""})
			}
		}
		al = append(al, dr{tg, "", "", "doc.file"}, dr{tg, "", "", "doc.google"}, dr{tg, "ab$", "", "doc.google"})
	}
	var rls [][]dr
	for _, a := range al {
		rls = append(rls, []dr{a})
		for y, b := range al {
			if c.Thorough() || y%7 == len(a.from+a.to)%7 && (a.target == b.target || y%3 == 0) {
				rls = append(rls, []dr{a, b})
			}
		}
	}
	expand := func(t, nm string) string {
		full := fmt.Sprintf("h/a.h")
		for _, s := range []string{"path", "file", "line", "name"} {
			v := map[string]string{"path": full, "file": "a.h", "line": fmt.Sprint(line[nm]), "name": nm}[s]
			t = strings.ReplaceAll(t, "${"+s+"}", v)
			t = strings.ReplaceAll(t, "$"+s, v)
		}
		return t
	}
	c.Par(len(rls), func(i int) {
		rl := rls[i]
		rules := clone(vkRules())
		byT := map[string][]dr{}
		for _, d := range rl {
			y := M{"action": "doc", "to": d.to}
			if d.from != "" {
				y["from"] = d.from
			}
			if d.load != "" {
				y = M{"load": d.load}
				if d.from != "" {
					y["from"] = d.from
				}
				d.to = map[string]string{"doc.file": "$path:$line", "doc.google": "https://google.com/search?q=$file+$name"}[d.load]
			}
			l, _ := rules[d.target].([]any)
			rules[d.target] = append(l, y)
			byT[d.target] = append(byT[d.target], d)
		}
		j := &Job{Files: map[string]string{"h/a.h": hdr}, Manifest: M{"GENERATOR": M{"PackageName": "p", "Includes": L{"h/a.h"}}, "PARSER": M{"SourcesPaths": L{"h/a.h"}}, "TRANSLATOR": M{"Rules": rules}}}
		r := c.Run(j)
		key := fmt.Sprintf("doc rules %v", rl)
		c.EvalN(1)
		c.Distinct(key)
		g := parseOut(r.Out)
		if r.Code != 0 || len(g.Errs) > 0 {
			c.Violate(key, fmt.Sprintf("exit %d %v %s", r.Code, g.Errs, firstLines(r.Stderr, 4)), withOut(jobFiles(j), r))
			return
		}
		d, _, _ := docs(g)
		for _, nm := range sortedKeys(line) {
			tg := target[nm]
			var rs []dr
			switch {
			case tg == "" && (len(byT["const"]) > 0 || len(byT["function"]) > 0 || len(byT["type"]) > 0):
				continue
			case len(byT[tg]) > 0:
				rs = byT[tg]
			case len(byT["global"]) > 0:
				rs = byT["global"]
			default:
				rs = byT["post-global"]
			}
			want := fmt.Sprintf("h/a.h:%d", line[nm])
			for _, x := range rs {
				if x.from == "" || regexp.MustCompile(x.from).MatchString(nm) {
					if x.to != "" {
						want = expand(x.to, nm)
					}
					break
				}
			}
			first, _, _ := strings.Cut(d[nm], "\n")
			if !strings.HasPrefix(first, "// "+nm+" ") || !strings.HasSuffix(first, " "+want) {
				c.Violate(key+" "+nm, fmt.Sprintf("the comment of %s must name %s; it is %q", nm, want, d[nm]), withOut(jobFiles(j), r))
			}
		}
		if i%131 == 0 {
			c.Sample(M{"case": key})
		}
	})
	c.Extra("arrangements", int64(len(cs)))
	c.Extra("doc_rule_lists", int64(len(rls))+lists)
	_ = token.NoPos
	_ = filepath.Base
}
