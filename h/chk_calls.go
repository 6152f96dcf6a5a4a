package main

import (
	"fmt"
	"os"
	"strings"
)

func init() {
	checks["C10"] = check{"exploration", "a case is one call of a generated function (signature, configuration) with one combination of argument values, on the real library through cgo; non-trivial = distinct (signature, configuration)", runCalls}
}

func init() {
	checks["C13"] = check{"exploration", "a case is one call of a generated function (signature, configuration) with one combination of argument values, whose arguments are unreachable from the caller and during which the C side has the garbage collector and all finalizers run; non-trivial = distinct (signature, configuration)", runCallsGC}
}

func runCallsGC(c *Ctx) {
	var use []compCfg
	for _, cfg := range compCfgs() {
		if o := os.Getenv("VCK_CFG"); (cfg.name == "default" || cfg.name == "ref" || cfg.name == "safestrings" || cfg.name == "bytes") && (o == "" || o == cfg.name) {
			use = append(use, cfg)
		}
	}
	c.Par(len(use), func(i int) { c.callPkg(use[i], "gc") })
}

// rtClasses enumerates parameter classes; one: pointers have one element.
func rtClasses(one bool) []rtClass {
	n3, n2 := 3, 2
	if one {
		n3, n2 = 1, 1
	}
	var cs []rtClass
	add := func(c string, d *rtD) { cs = append(cs, rtClass{c, d}) }
	for _, s := range rtScalars {
		add(s.c+" @", s)
		add("const "+s.c+" @", s)
		if s.c == "char" {
			add("char *@", rtPtr(s, n3, false))
			add("char **@", rtPtr(rtPtr(s, n3, false), n2, false))
			continue
		}
		add(s.c+" *@", rtPtr(s, n3, false))
		add("const "+s.c+" *@", rtPtr(s, n3, true))
		add(s.c+" **@", rtPtr(rtPtr(s, n3, false), n2, false))
		if !one {
			add(s.c+" @[3]", rtPtr(s, 3, false))
			add(s.c+" @[2][3]", rtPtr(rtArr(s, 3), 2, false))
			add("const "+s.c+" @[2][3]", rtPtr(rtArr(s, 3), 2, true))
		}
	}
	for _, n := range []string{"st", "tst", "struct plainst", "flat", "rich"} {
		s := rtStructs()[n]
		add(n+" @", s)
		add(n+" *@", rtPtr(s, n3, false))
		add("const "+n+" *@", rtPtr(s, n3, true))
		add(n+" **@", rtPtr(rtPtr(s, n3, false), n2, false))
		if !one {
			add(n+" @[2]", rtPtr(s, 2, false))
		}
	}
	add("const char *@", rtStr)
	add("const char **@", rtPtr(rtStr, n3, false))
	add("const char *const *@", rtPtr(rtStr, n3, true))
	if !one {
		add("const char *@[2]", rtPtr(rtStr, 2, false))
	}
	add("void *@", rtVp)
	add("const void *@", rtVp)
	add("void **@", rtPtr(rtVp, n3, false))
	add("opq *@", rtVp)
	add("const opq *@", rtVp)
	add("opq **@", rtPtr(rtVp, n3, false))
	add("hopq @", rtVp)
	add("hopq *@", rtPtr(rtVp, n3, false))
	add("hnd @", rtVp)
	return cs
}

func rtResults() []rtClass {
	var cs []rtClass
	for _, s := range rtScalars {
		cs = append(cs, rtClass{s.c + " @", s}, rtClass{s.c + " *@", rtPtr(s, 1, false)})
		if s.c != "char" {
			cs = append(cs, rtClass{"const " + s.c + " *@", rtPtr(s, 1, true)})
		}
	}
	for _, n := range []string{"st", "tst", "struct plainst", "flat", "rich"} {
		s := rtStructs()[n]
		cs = append(cs, rtClass{n + " @", s}, rtClass{n + " *@", rtPtr(s, 1, false)})
	}
	for _, n := range []string{"void *@", "opq *@", "hopq @"} {
		cs = append(cs, rtClass{n, rtVp})
	}
	cs = append(cs, rtClass{"const char *@", rtStr}, rtClass{"char *@", rtStr})
	return cs
}

// rtFuncs makes the functions: every class alone, every result, pairs and triples of representatives.
func rtFuncs(c *Ctx, one bool, full bool) []*rtFn {
	var out []*rtFn
	mk := func(ret *rtClass, ps ...rtClass) {
		f := &rtFn{Name: fmt.Sprintf("v%dx", len(out))}
		var args []string
		for i, p := range ps {
			args = append(args, strings.ReplaceAll(p.c, "@", fmt.Sprintf("p%d", i)))
			f.P = append(f.P, p.d)
		}
		r := "void @"
		if ret != nil {
			r, f.R, f.ret = ret.c, ret.d, ret.c
		}
		if len(args) == 0 {
			args = []string{"void"}
		}
		f.decl = strings.ReplaceAll(r, "@", f.Name) + "(" + strings.Join(args, ", ") + ");"
		f.Key = strings.ReplaceAll(f.decl, f.Name, "v")
		out = append(out, f)
	}
	cs := rtClasses(one)
	for i := range cs {
		mk(nil, cs[i])
	}
	rs := rtResults()
	for i := range rs {
		mk(&rs[i])
	}
	by := map[string]rtClass{}
	for _, k := range cs {
		by[k.c] = k
	}
	pick := func(names ...string) (l []rtClass) {
		for _, n := range names {
			if k, ok := by[n]; ok {
				l = append(l, k)
			}
		}
		return
	}
	ret := rtClass{"int @", rtScalars[5]}
	reps := pick("int @", "double @", "unsigned char @", "bool @", "int *@", "const float *@", "short **@", "const char *@", "const char **@", "st @", "rich *@", "flat **@", "void *@", "opq *@", "hopq @", "en @", "int @[2][3]")
	for _, a := range reps {
		for _, b := range reps {
			mk(&ret, a, b)
		}
	}
	small := pick("int @", "double *@", "const char *@", "st *@", "long long @")
	if full {
		small = append(small, pick("const char **@", "rich @", "void *@")...)
	}
	for _, a := range small {
		for _, b := range small {
			for _, d := range small {
				mk(nil, a, b, d)
			}
		}
	}
	mk(&ret, pick("int @", "double @", "const char *@", "st @", "int *@", "void *@")...)
	mk(&ret, pick("st @", "const char *@", "double @", "unsigned char @", "float @", "rich *@", "int *@")...)
	return out
}

func runCalls(c *Ctx) {
	cfgs := map[string]bool{"default": true, "arr": true, "ref": true, "sref": true, "plain": true, "named": true, "safestrings": true, "bytes": true}
	var use []compCfg
	for _, cfg := range compCfgs() {
		if o := os.Getenv("VCK_CFG"); cfgs[cfg.name] && (o == "" || o == cfg.name) {
			use = append(use, cfg)
		}
	}
	c.Par(len(use), func(i int) { c.callPkg(use[i], "call") })
}

func (c *Ctx) callPkg(cfg compCfg, mode string) {
	one := cfg.name == "ref" || cfg.name == "sref"
	p := &rtPkg{cfg: cfg}
	for _, f := range rtFuncs(c, one, c.Thorough()) {
		if rtUnsupported(cfg.name, f) {
			continue
		}
		for _, d := range f.P {
			e := d
			for one && e.K == "ptr" {
				e = e.E
			}
			f.NoLeak = f.NoLeak || one && d.K == "ptr" && e.K == "struct" // a *S is freed by the caller
			f.NoLeak = f.NoLeak || d.K == "struct" && len(f.P) > 1 // every structure alone is told by the functions with one parameter
		}
		p.fns = append(p.fns, f)
	}
	var sb strings.Builder
	sb.WriteString(rtPrelude)
	for _, f := range p.fns {
		sb.WriteString(f.decl + "\n")
		c.Distinct(cfg.name + "|" + f.Key)
	}
	p.hdr = sb.String()
	exe, pk, _ := p.build(c)
	defer os.RemoveAll(pk.Gen.Dir)
	if pk.Code != 0 {
		c.Violate(cfg.name+" | build", pk.Log, p.files(pk, "build"))
		return
	}
	p.run(c, exe, pk, "VCK_MODE="+mode)
}

var rtRefStr = rx(`const char \*(const )?\*p`)
var rtSrefSt = rx(`(st|tst|struct plainst|flat|rich) \*\*p`)

// rtUnsupported leaves out what C03 knows not to compile.
func rtUnsupported(cfg string, f *rtFn) bool {
	switch cfg {
	case "ref":
		return rtRefStr.MatchString(f.decl)
	case "sref":
		return rtSrefSt.MatchString(f.decl)
	case "plain":
		return strings.Contains(f.decl, "hnd p")
	}
	return false
}
