package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

//go:embed rt/cb.go.txt
var rtCb string

func init() {
	checks["C15"] = check{"exploration", "a case is one run in which C calls a Go callback twice (signature, configuration, values), on the real bindings; non-trivial = distinct (signature, configuration)", runCallbacks}
}

func rtCbClasses(one bool) (ps, rs []rtClass) {
	for _, k := range rtClasses(one) {
		if strings.Contains(k.c, "[") || strings.Contains(k.c, "**") && !contains([]string{"int **@", "char **@", "const char **@", "void **@", "opq **@", "st **@"}, k.c) {
			continue
		}
		ps = append(ps, k)
	}
	for _, s := range rtScalars {
		rs = append(rs, rtClass{s.c + " @", s})
	}
	for _, n := range []string{"st", "tst", "struct plainst", "flat"} {
		rs = append(rs, rtClass{n + " @", rtStructs()[n]})
	}
	for _, n := range []string{"st", "tst", "flat"} {
		rs = append(rs, rtClass{n + " *@", rtPtr(rtStructs()[n], 1, false)})
	}
	rs = append(rs, rtClass{"const char *@", rtStr})
	for _, n := range []string{"void *@", "hopq @"} {
		rs = append(rs, rtClass{n, rtVp})
	}
	return
}

func runCallbacks(c *Ctx) {
	cfgs := []string{"default", "ref", "plain", "named", "safestrings"}
	var use []compCfg
	for _, cfg := range compCfgs() {
		if o := os.Getenv("VCK_CFG"); contains(cfgs, cfg.name) && (o == "" || o == cfg.name) {
			use = append(use, cfg)
		}
	}
	c.Par(len(use), func(i int) { c.cbPkg(use[i]) })
}

// cbRun checks the callback types that decl makes.
func (c *Ctx) cbRun(cfg compCfg, prelude string, decl func(mk func(ret *rtClass, ps ...rtClass))) {
	p := &rtPkg{cfg: cfg}
	var hdr, tab strings.Builder
	var g cGen
	hdr.WriteString(prelude)
	n := 0
	mk := func(ret *rtClass, ps ...rtClass) {
		name := fmt.Sprintf("v%dx", n)
		f := &rtFn{}
		var decls, args []string
		for i, q := range ps {
			decls = append(decls, strings.ReplaceAll(q.c, "@", fmt.Sprintf("p%d", i)))
			args = append(args, fmt.Sprintf("p%d", i))
			f.P = append(f.P, q.d)
		}
		if len(ps) == 0 {
			decls = []string{"void"}
		}
		rc := "void @"
		if ret != nil {
			rc, f.R = ret.c, ret.d
		}
		f.decl = strings.ReplaceAll(rc, "@", "(*"+name+")") + "(" + strings.Join(decls, ", ") + ")"
		f.Key = "typedef " + strings.ReplaceAll(f.decl, name, "cb") + ";"
		fmt.Fprintf(&hdr, "typedef %s;\nvoid %srun(%s f);\n", f.decl, name, name)
		c.Distinct(cfg.name + "|" + f.Key)
		fmt.Fprintf(&g.sb, "void %srun(%s f) { if (!f) { vck_nil(); return; } for (int k = 0; k < 2; k++) {\n\t", name, name)
		for i, q := range ps {
			fmt.Fprintf(&g.sb, "%s; memset((void*)&p%d, 0, sizeof p%d); ", strings.TrimPrefix(strings.ReplaceAll(q.c, "@", fmt.Sprintf("p%d", i)), "const "), i, i)
			g.set(q.d, fmt.Sprintf("p%d", i), true)
		}
		if ret != nil {
			fmt.Fprintf(&g.sb, "\n\t%s = f(%s); ", strings.ReplaceAll(strings.TrimPrefix(ret.c, "const "), "@", "r"), strings.Join(args, ", "))
			if ret.d.K == "str" {
				g.sb.WriteString("vckGoHook(); ")
			}
			g.rec(ret.d, "r")
		} else {
			fmt.Fprintf(&g.sb, "\n\tf(%s); ", strings.Join(args, ", "))
		}
		g.sb.WriteString("vck_semi(); ")
		for i, q := range ps {
			g.rec(q.d, fmt.Sprintf("p%d", i))
		}
		g.sb.WriteString("vck_mark(); } }\n")
		b, _ := json.Marshal(f)
		fmt.Fprintf(&tab, "\tfunc() *vckCb { p, r := vckParseFn(%q); return &vckCb{%q, p, r, reflect.TypeOf(V%dx(nil)), func(f any) { V%dxrun(f.(V%dx)) }} }(),\n", string(b), f.Key, n, n, n)
		p.cbs = append(p.cbs, f)
		n++
	}
	decl(mk)
	p.hdr = hdr.String()
	p.extraC = g.sb.String()
	p.extraGo = rtCb + "\nvar vckCbs = []*vckCb{\n" + tab.String() + "}\n"
	exe, pk, _ := p.build(c)
	defer os.RemoveAll(pk.Gen.Dir)
	if pk.Code != 0 {
		c.Violate(cfg.name+" | build", firstLines(pk.Log, 20), p.files(pk, "build"))
		return
	}
	p.run(c, exe, pk, "VCK_MODE=extra")
}

func (c *Ctx) cbPkg(cfg compCfg) {
	c.cbRun(cfg, rtPrelude, func(mk func(ret *rtClass, ps ...rtClass)) { cbDecls(cfg, mk) })
}

func cbDecls(cfg compCfg, mk func(ret *rtClass, ps ...rtClass)) {
	one := cfg.name == "ref"
	ps, rs := rtCbClasses(one)
	skip := func(k rtClass) bool { // what C03 knows not to compile
		f := &rtFn{decl: strings.ReplaceAll(k.c, "@", "p0")}
		return rtUnsupported(cfg.name, f) || strings.HasPrefix(k.c, "hnd ")
	}
	var good []rtClass
	for _, k := range ps {
		if !one && strings.Contains(k.c, "**") || !one && k.d.K == "ptr" && k.d.E.K == "struct" || strings.Contains(k.c, "*const *") {
			// slices of unknown length whose elements need conversion stay empty: one of each kind
			if cfg.name != "default" || k.d.E.K == "struct" && k.c != "st *@" || strings.HasPrefix(k.c, "const ") && k.c != "const char **@" {
				continue
			}
		}
		if !skip(k) {
			good = append(good, k)
		}
	}
	for i := range good {
		mk(nil, good[i])
	}
	for i := range rs {
		mk(&rs[i])
	}
	by := map[string]rtClass{}
	for _, k := range good {
		by[k.c] = k
	}
	ret := rtClass{"int @", rtScalars[5]}
	reps := []string{"int @", "double @", "unsigned char @", "const char *@", "int *@", "st @", "void *@", "opq *@", "hopq @", "en @", "flat @"}
	for _, a := range reps {
		for _, b := range reps {
			if by[a].d != nil && by[b].d != nil {
				mk(&ret, by[a], by[b])
			}
		}
	}
	for _, a := range reps[:6] {
		mk(&rs[12], by["void *@"], by[a], by["size_t @"])
		mk(nil, by["en @"], by["const char *@"], by[a], by["void *@"])
	}
}
