package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
)

// ---- reference model of the documented rule semantics (C05 names, C06 filters) ----

type rule struct {
	target, action, from, to, transform, load string
}

func (r rule) yaml() M {
	m := M{}
	if r.action != "" {
		m["action"] = r.action
	}
	if r.from != "" {
		m["from"] = r.from
	}
	if r.to != "" {
		m["to"] = r.to
	}
	if r.transform != "" {
		m["transform"] = r.transform
	}
	if r.load != "" {
		m["load"] = r.load
	}
	return m
}

func (r rule) String() string {
	return fmt.Sprintf("%s{%s %q>%q %s%s}", r.target, r.action, r.from, r.to, r.transform, r.load)
}

func rulesYAML(rs []rule) M {
	m := M{}
	for _, r := range rs {
		l, _ := m[r.target].(L)
		m[r.target] = append(l, r.yaml())
	}
	return m
}

func rulesKey(rs []rule) string {
	var s []string
	for _, r := range rs {
		s = append(s, r.String())
	}
	return strings.Join(s, " ")
}

var goKeywords = strings.Fields("break default func interface select case defer go map struct chan else goto package switch const fallthrough if range type continue for import return var")

func isKeyword(s string) bool {
	for _, k := range goKeywords {
		if k == s {
			return true
		}
	}
	return false
}

var rxCache = map[string]*regexp.Regexp{}

func normRule(r rule) rule {
	if r.load == "snakecase" {
		if r.from == "" {
			r.from = "_([^_]+)"
		}
		if r.to == "" {
			r.to = "$1"
		}
		if r.action == "" {
			r.action = "replace"
		}
		if r.transform == "" {
			r.transform = "title"
		}
	}
	if r.action == "" { // a bare transform: the matched text itself, transformed
		r.action, r.to = "replace", "${0}"
		if r.from == "" {
			r.from = ".*"
		}
	} else if r.from == "" {
		r.from = "(.*)"
	}
	return r
}

func applyRule(r rule, name string) string {
	r = normRule(r)
	if r.action != "replace" {
		return name
	}
	re := regexp.MustCompile(r.from)
	var out bytes.Buffer
	last := 0
	for _, m := range re.FindAllStringSubmatchIndex(name, -1) {
		out.WriteString(name[last:m[0]])
		s := string(re.ExpandString(nil, r.to, name, m))
		switch r.transform {
		case "lower":
			s = strings.ToLower(s)
		case "upper":
			s = strings.ToUpper(s)
		case "title", "export":
			if s != "" {
				s = strings.ToUpper(s[:1]) + s[1:]
			}
		case "unexport":
			if s != "" {
				s = strings.ToLower(s[:1]) + s[1:]
			}
		}
		out.WriteString(s)
		last = m[1]
	}
	out.WriteString(name[last:])
	return out.String()
}

// refName is the documented pipeline: global, target, post-global, visibility, then keyword escape.
func refName(rs []rule, target, vis, name string) string {
	for _, stage := range []string{"global", target, "post-global", vis} {
		if stage == "" {
			continue
		}
		for _, r := range rs {
			if r.target == stage {
				name = applyRule(r, name)
			}
		}
	}
	if name == "type" {
		return "kind"
	}
	if isKeyword(name) {
		return "_" + name
	}
	return name
}

func refAccept(rs []rule, target, name string) bool {
	match := func(action string) bool {
		for _, r := range rs {
			if r.target == target && r.action == action {
				f := r.from
				if f == "" {
					f = "(.*)"
				}
				if regexp.MustCompile(f).MatchString(name) {
					return true
				}
			}
		}
		return false
	}
	acc, ign := match("accept"), match("ignore")
	if acc || ign {
		return acc && !ign
	}
	if target != "global" {
		return refAccept(rs, "global", name)
	}
	return false
}

var identRx = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

func validIdent(s string) bool { return identRx.MatchString(s) && !isKeyword(s) && s != "_" }

// names used in every position; suffix digits keep the C namespaces apart.
var nameStems = []string{"vk_foo_bar", "foo_bar_baz", "FOO_BAR", "vkFooBar", "a__b", "x_", "aab", "oo_foo", "Zed", "n1_2y", "vk_type", "vk_range", "ab"}

func nameHeader() (h string, fn, ty, ma, en []string) {
	var b strings.Builder
	for _, s := range nameStems {
		fn = append(fn, s)
		ty = append(ty, s+"2")
		ma = append(ma, s+"3")
		en = append(en, s+"4")
	}
	// names that become Go keywords only after renaming, and plain C names that are Go keywords
	fn = append(fn, "vk_func")
	for i, m := range ma {
		fmt.Fprintf(&b, "#define %s %d\n", m, 1000+i)
	}
	fmt.Fprintf(&b, "enum {\n")
	for i, m := range en {
		fmt.Fprintf(&b, "  %s = %d,\n", m, 2000+i)
	}
	fmt.Fprintf(&b, "};\n")
	for i, t := range ty {
		fmt.Fprintf(&b, "typedef int %s[%d];\n", t, 3000+i)
	}
	for i, f := range fn {
		if i == 0 {
			continue
		}
		fmt.Fprintf(&b, "void %s(void);\n", f)
	}
	// every stem as parameter and member name
	fmt.Fprintf(&b, "void %s(", fn[0])
	for i, s := range fn {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "int %s", s)
	}
	b.WriteString(");\n")
	fmt.Fprintf(&b, "struct sholder5 {")
	for _, s := range fn {
		fmt.Fprintf(&b, " int %s;", s)
	}
	b.WriteString(" };\n")
	return b.String(), fn, ty, ma, en
}

func genRules() (out []rule) {
	pats := []string{"", "^vk_", "_", "o+", "(a)(b)", "^.", "_$", "[a-z]+", "(?i)^VK_?(.)"}
	tos := []string{"", "X", "$1", "${1}_", "_"}
	trs := []string{"", "lower", "title", "export", "unexport", "upper"}
	for _, p := range pats {
		for _, t := range trs {
			if t != "" {
				out = append(out, rule{from: p, transform: t}) // bare transform
			}
		}
		for _, to := range tos {
			for _, t := range []string{"", "title", "lower"} {
				out = append(out, rule{action: "replace", from: p, to: to, transform: t})
			}
		}
	}
	out = append(out, rule{load: "snakecase"}, rule{load: "snakecase", transform: "upper"}, rule{load: "snakecase", from: "_([a-z])"})
	return
}

var nameTargets = []string{"global", "post-global", "const", "type", "function", "public", "private"}

func init() {
	checks["C05"] = check{"exploration", "a case is one rule list (every single rule of the alphabet on every target, then ordered pairs within and across targets) applied to a header that carries 13 name stems in 6 positions; distinct = distinct (rule list, resulting name vector) pairs whose names differ from the C names", runNames}
}

func runNames(c *Ctx) {
	hdr, fn, ty, ma, en := nameHeader()
	var cfgs [][]rule
	rules := genRules()
	for _, t := range nameTargets {
		for _, r := range rules {
			r.target = t
			cfgs = append(cfgs, []rule{r})
		}
	}
	small := []rule{{action: "replace", from: "^vk_", to: ""}, {load: "snakecase"}, {transform: "export"}, {transform: "lower"}, {action: "replace", from: "(.)_", to: "${1}"}, {action: "replace", from: "o", to: "0_o"}}
	if c.Thorough() {
		small = append(small, rule{transform: "unexport"}, rule{transform: "upper", from: "[a-c]"}, rule{action: "replace", from: "^", to: "_"}, rule{action: "replace", from: "$", to: "_z"}, rule{action: "replace", from: "_([a-z])", transform: "upper", to: "$1"})
	}
	for _, t1 := range nameTargets {
		for _, t2 := range nameTargets {
			for _, a := range small {
				for _, b := range small {
					a.target, b.target = t1, t2
					cfgs = append(cfgs, []rule{a, b})
				}
			}
		}
	}
	if c.Thorough() {
		for _, a := range small {
			for _, b := range small {
				for _, d := range small {
					a.target, b.target, d.target = "global", "function", "post-global"
					cfgs = append(cfgs, []rule{a, b, d})
					a.target, b.target, d.target = "const", "const", "const"
					cfgs = append(cfgs, []rule{a, b, d})
					a.target, b.target, d.target = "type", "public", "private"
					cfgs = append(cfgs, []rule{a, b, d})
				}
			}
		}
	}
	c.Extra("rule_lists_planned", int64(len(cfgs)))
	n := c.Par(len(cfgs), func(i int) {
		rs := append([]rule{{target: "global", action: "accept", from: "^(" + strings.Join(append(append(append(append([]string{"sholder5"}, fn...), ty...), ma...), en...), "|") + ")$"}}, cfgs[i]...)
		m := M{"GENERATOR": M{"PackageName": "p"}, "PARSER": M{"SourcesPaths": L{"a.h"}}, "TRANSLATOR": M{"Rules": rulesYAML(rs)}}
		j := &Job{Files: map[string]string{"a.h": hdr}, Manifest: m}
		r := c.Run(j)
		key := rulesKey(cfgs[i])
		if r.Code != 0 {
			c.Violate("rules:"+key, fmt.Sprintf("exit %d: %s", r.Code, r.Stderr), jobFiles(j))
			return
		}
		// expected names
		type ex struct{ where, cname, want string }
		var exps []ex
		add := func(where, target, vis string, list []string) {
			for _, s := range list {
				exps = append(exps, ex{where, s, refName(rs, target, vis, s)})
			}
		}
		add("macro", "const", "", ma)
		add("enum constant", "const", "", en)
		add("typedef", "type", "", ty)
		add("function", "function", "public", fn)
		add("parameter", "type", "private", fn)
		add("field", "type", "public", fn)
		exps = append(exps, ex{"struct", "sholder5", refName(rs, "type", "", "sholder5")})
		skip := map[string]bool{}
		for _, e := range exps {
			if !validIdent(e.want) {
				// the rules ask for something that is not an identifier: the file cannot parse
				if e.where == "macro" || e.where == "enum constant" {
					skip["const.go"] = true
				} else if e.where == "function" || e.where == "parameter" {
					skip["p.go"] = true
				} else {
					skip["types.go"] = true
				}
			}
		}
		// names that the rules make collide are deduplicated by the generator: outside the property
		cnt := map[string]int{}
		for _, e := range exps {
			cnt[e.where[:1]+e.want]++
			if e.where == "macro" || e.where == "enum constant" {
				cnt["const "+e.want]++
			}
		}
		g := parseOut(r.Out)
		got := map[string]string{}
		cv := map[string]string{}
		for _, k := range g.Consts() {
			if k.File == "const.go" {
				cv[k.Val] = k.Name
			}
		}
		for i, m := range ma {
			got["macro "+m] = cv[fmt.Sprint(1000+i)]
		}
		for i, m := range en {
			got["enum constant "+m] = cv[fmt.Sprint(2000+i)]
		}
		tv := map[string]string{}
		for _, t := range g.Types() {
			if t.File != "types.go" {
				continue
			}
			if len(t.Fields) > 0 {
				got["struct sholder5"] = t.Name
				for i, f := range t.Fields {
					if i < len(fn) {
						got["field "+fn[i]] = f[0]
					}
				}
				continue
			}
			tv[t.Def] = t.Name
		}
		for i, t := range ty {
			got["typedef "+t] = tv[fmt.Sprintf("[%d]int32", 3000+i)]
		}
		for _, f := range g.Funcs() {
			if f.File != "p.go" || len(f.Calls) == 0 {
				continue
			}
			got["function "+f.Calls[len(f.Calls)-1]] = f.Name
			if f.Calls[len(f.Calls)-1] == fn[0] {
				for i, p := range f.Params {
					if i < len(fn) {
						got["parameter "+fn[i]] = p[0]
					}
				}
			}
		}
		var vec strings.Builder
		changed := false
		for _, e := range exps {
			file := "types.go"
			switch e.where {
			case "macro", "enum constant":
				file = "const.go"
			case "function", "parameter":
				file = "p.go"
			}
			if skip[file] || cnt[e.where[:1]+e.want] > 1 || (file == "const.go" && cnt["const "+e.want] > 1) {
				continue
			}
			w := got[e.where+" "+e.cname]
			vec.WriteString(w + ",")
			if w != e.cname {
				changed = true
			}
			c.EvalN(1)
			if w != e.want {
				c.Violate(fmt.Sprintf("rules:%s %s %s", key, e.where, e.cname),
					fmt.Sprintf("%s %s: generated name %q, the rules say %q\nparse errors: %v", e.where, e.cname, w, e.want, g.Errs), withOut(jobFiles(j), r))
			}
		}
		if changed {
			c.Distinct(key + vec.String())
		}
		if i%701 == 0 {
			c.Sample(M{"rules": key, "names": firstLines(vec.String(), 1)})
		}
	})
	c.Extra("rule_lists_run", int64(n))
	// C names that are Go keywords, in every position: whatever they become, the files parse
	var kw []string
	for _, k := range goKeywords {
		switch k {
		case "break", "default", "case", "struct", "else", "goto", "switch", "const", "if", "continue", "for", "return":
		default:
			kw = append(kw, k)
		}
	}
	for _, extra := range [][]rule{nil, {{target: "post-global", transform: "export"}}, {{target: "post-global", action: "replace", from: "^_", to: ""}}, {{target: "global", transform: "lower"}}, {{target: "private", transform: "lower"}}, {{target: "public", transform: "lower"}}} {
		for _, pos := range []string{"macro", "enum", "typedef", "struct", "function", "parameter", "field"} {
			for _, k := range append([]string{"vk_"}, kw...) {
				var h string
				switch pos {
				case "macro":
					h = "#define " + k + " 7\n"
				case "enum":
					h = "enum { " + k + " = 7 };\n"
				case "typedef":
					h = "typedef int " + k + ";\n"
				case "struct":
					h = "struct " + k + " { int a; };\n"
				case "function":
					h = "void " + k + "(void);\n"
				case "parameter":
					h = "void holder(int " + k + ");\n"
				case "field":
					h = "struct holder { int " + k + "; };\n"
				}
				rs := append([]rule{{target: "global", action: "accept", from: "^(" + k + "|_" + k + "|holder)$"}}, extra...)
				j := &Job{Files: map[string]string{"a.h": h}, Manifest: M{"GENERATOR": M{"PackageName": "p"}, "PARSER": M{"SourcesPaths": L{"a.h"}}, "TRANSLATOR": M{"Rules": rulesYAML(rs)}}}
				r := c.Run(j)
				key := fmt.Sprintf("keyword %s as %s rules %s", k, pos, rulesKey(extra))
				c.Eval(key)
				g := parseOut(r.Out)
				if r.Code != 0 || len(g.Errs) > 0 {
					c.Violate(key, fmt.Sprintf("exit %d, parse errors %v", r.Code, g.Errs), withOut(jobFiles(j), r))
				}
			}
		}
	}
	c.Assume("names are ASCII; rule lists that ask for a non-identifier are outside the property (file skipped)",
		"the accept rule lists the exact names, so filtering does not interfere")
}

// ---- C06: accept / ignore rules select exactly the documented declarations ----

func init() {
	checks["C06"] = check{"exploration", "a case is one list of accept/ignore rules (every single rule, ordered pair and, within a smaller alphabet, triple) over a header with 9 names in each of 11 declaration kinds; non-trivial = some but not all declarations are selected; distinct = distinct rule list", runFilter}
}

var (
	constLineRx = regexp.MustCompile(`(?m)^\s*(?:const |var )?([A-Za-z_]\w*)(?: [\w\[\]]+)?(?: =|$)`)
	constTypeRx = regexp.MustCompile(`(?m)^\s*type (\w+) `)
)

func runFilter(c *Ctx) {
	xs := []string{"a", "b", "c"}
	var h strings.Builder
	names := map[string][]string{}
	mk := func(kind, marker string, f func(n string, i int) string) {
		i := 0
		for _, x := range xs {
			for _, y := range xs {
				n := x + marker + y
				names[kind] = append(names[kind], n)
				h.WriteString(f(n, i) + "\n")
				i++
			}
		}
	}
	mk("macro", "M", func(n string, i int) string { return fmt.Sprintf("#define %s %d", n, 100+i) })
	mk("macro-ref", "R", func(n string, i int) string { return fmt.Sprintf("#define %s (%s)", n, names["macro"][(i*2+1)%9]) })
	h.WriteString("enum {\n")
	mk("enumconst", "E", func(n string, i int) string { return fmt.Sprintf("  %s = %d,", n, 200+i) })
	h.WriteString("};\n")
	mk("enumtypedef", "J", func(n string, i int) string { return fmt.Sprintf("typedef enum { yy%s = %d } %s;", n, i, n) })
	mk("typedef", "T", func(n string, i int) string { return fmt.Sprintf("typedef int %s[%d];", n, 300+i) })
	mk("structtypedef", "S", func(n string, i int) string { return fmt.Sprintf("typedef struct { int m%d; } %s;", i, n) })
	mk("structtag", "U", func(n string, i int) string { return fmt.Sprintf("struct %s { int m%d; };", n, i) })
	mk("uniontypedef", "N", func(n string, i int) string { return fmt.Sprintf("typedef union { int m%d; float f; } %s;", i, n) })
	mk("functypedef", "C", func(n string, i int) string { return fmt.Sprintf("typedef void (*%s)(int p%d);", n, i) })
	mk("function", "F", func(n string, i int) string { return fmt.Sprintf("void %s(int p%d);", n, i) })
	mk("constvar", "V", func(n string, i int) string { return fmt.Sprintf("extern const int %s;", n) })
	header := h.String()

	targets := []string{"global", "const", "type", "function", "public"}
	pats := []string{"^a", "b$", "^a.b$", "c", ""}
	var single []rule
	for _, t := range targets {
		for _, a := range []string{"accept", "ignore"} {
			for _, p := range pats {
				single = append(single, rule{target: t, action: a, from: p})
			}
		}
	}
	cfgs := [][]rule{{}}
	for _, a := range single {
		cfgs = append(cfgs, []rule{a})
	}
	for _, a := range single {
		for _, b := range single {
			cfgs = append(cfgs, []rule{a, b})
		}
	}
	tp := []string{"^a", "b$"}
	tt := []string{"global", "type", "const"}
	if c.Thorough() {
		tp = append(tp, "c")
		tt = append(tt, "function", "public")
	}
	var small []rule
	for _, t := range tt {
		for _, a := range []string{"accept", "ignore"} {
			for _, p := range tp {
				small = append(small, rule{target: t, action: a, from: p})
			}
		}
	}
	base := rule{target: "global", action: "accept", from: ""}
	for _, a := range small {
		for _, b := range small {
			cfgs = append(cfgs, []rule{base, a, b})
			for _, d := range small {
				cfgs = append(cfgs, []rule{a, b, d})
			}
		}
	}
	// rules of other actions must not influence selection
	for _, a := range small {
		for _, t := range targets {
			for _, d := range []rule{{action: "replace", from: "^b", to: "q"}, {action: "doc", from: "^b", to: "x"}, {transform: "export"}} {
				if d.transform != "" && t == "private" {
					continue
				}
				d.target = t
				cfgs = append(cfgs, []rule{a, d}, []rule{d, a})
			}
		}
	}
	c.Extra("rule_lists_planned", int64(len(cfgs)))
	n := c.Par(len(cfgs), func(i int) {
		rs := cfgs[i]
		// spy rules on nothing else: post-global tags every name so that a generated name identifies its kind
		m := M{"GENERATOR": M{"PackageName": "p"}, "PARSER": M{"SourcesPaths": L{"a.h"}}, "TRANSLATOR": M{"Rules": rulesYAML(rs)}}
		j := &Job{Files: map[string]string{"a.h": header}, Manifest: m}
		r := c.Run(j)
		key := rulesKey(rs)
		if r.Code != 0 {
			c.Violate("rules:"+key, fmt.Sprintf("exit %d: %s", r.Code, r.Stderr), jobFiles(j))
			return
		}
		all := ""
		for _, s := range r.Out {
			all += s
		}
		g := parseOut(r.Out)
		have := map[string]map[string]bool{"const": {}, "type": {}, "func": {}, "var": {}}
		for _, k := range g.Consts() {
			have["const"][k.Name] = true
		}
		if g.Files["const.go"] == nil { // broad rules also select the compiler's own macros, some of which are no Go constants
			for _, mm := range constLineRx.FindAllStringSubmatch(g.Src["const.go"], -1) {
				have["const"][mm[1]] = true
			}
			for _, mm := range constTypeRx.FindAllStringSubmatch(g.Src["const.go"], -1) {
				have["type"][mm[1]] = true
			}
		}
		for _, t := range g.Types() {
			have["type"][t.Name] = true
		}
		for _, f := range g.Funcs() {
			if f.File == "p.go" {
				have["func"][f.Name] = true
			}
		}
		sel, tot := 0, 0
		expect := func(kind, where, target string, accepted func(n string) bool) {
			for _, n := range names[kind] {
				want := accepted(n)
				gn := refName(rs, target, map[string]string{"function": "public"}[target], n)
				got := have[where][gn]
				tot++
				if want {
					sel++
				}
				c.EvalN(1)
				if want != got {
					c.Violate(fmt.Sprintf("rules:%s %s %s", key, kind, n),
						fmt.Sprintf("%s %s: rules select it: %v, generated: %v (Go name %s; parse errors %v)", kind, n, want, got, gn, g.Errs), withOut(jobFiles(j), r))
				}
			}
		}
		acc := func(target string) func(string) bool {
			return func(n string) bool { return refAccept(rs, target, n) }
		}
		expect("macro", "const", "const", acc("const"))
		mi := map[string]int{}
		for i, n := range names["macro-ref"] {
			mi[n] = i
		}
		expect("macro-ref", "const", "const", func(n string) bool {
			return refAccept(rs, "const", n) && refAccept(rs, "const", names["macro"][(mi[n]*2+1)%9])
		})
		expect("enumconst", "const", "const", acc("const"))
		expect("enumtypedef", "type", "type", acc("type"))
		expect("typedef", "type", "type", acc("type"))
		expect("structtypedef", "type", "type", acc("type"))
		expect("uniontypedef", "type", "type", acc("type"))
		expect("functypedef", "type", "type", acc("type"))
		expect("structtag", "type", "type", func(n string) bool { return refAccept(rs, "type", n) && refAccept(rs, "public", n) })
		expect("function", "func", "function", acc("function"))
		expect("constvar", "const", "const", acc("public"))
		if sel > 0 && sel < tot {
			c.Distinct(key)
		}
		if i%911 == 0 {
			c.Sample(M{"rules": key, "selected": sel, "of": tot})
		}
	})
	c.Extra("rule_lists_run", int64(n))
	c.Assume("a macro that refers to another macro is only usable when that macro is selected too: the expectation for references follows the referenced name")
}
