package main

import (
	"fmt"
	"os"
	"strings"
)

func init() {
	checks["C11"] = check{"exploration", "a case is one struct (members, configuration) taken with one pair of value patterns through PassRef, PassValue, Deref, Free and back from C, on the real bindings; non-trivial = distinct (struct, configuration)", runStructs}
	checks["C12"] = check{"model_checking", "a case is one sequence of operations on a wrapper of the real bindings, compared with the model after its last step; non-trivial = distinct (struct, configuration)", runOps}
}

var rtStructCfgs = []string{"default", "arr", "ref", "sref", "plain", "named", "safestrings", "bytes"}

// rtMembers enumerates member classes; one: pointers have one element.
func rtMembers(one bool) []rtClass {
	n3, n2 := 3, 2
	if one {
		n3, n2 = 1, 1
	}
	var cs []rtClass
	add := func(c string, d *rtD) {
		if one && d.K == "ptr" && d.E.K == "ptr" && d.E.E.K == "struct" {
			return // []*S: each element is freed by its owner
		}
		cs = append(cs, rtClass{c, d})
	}
	for _, s := range rtScalars {
		add(s.c+" @", s)
		add(s.c+" @[3]", rtArr(s, 3))
		add(s.c+" @[2][3]", rtArr(rtArr(s, 3), 2))
		if s.c == "char" {
			add("char *@", rtPtr(s, n3, false))
			continue
		}
		add(s.c+" *@", rtPtr(s, n3, false))
		add("const "+s.c+" *@", rtPtr(s, n3, true))
		add(s.c+" **@", rtPtr(rtPtr(s, n3, false), n2, false))
	}
	for _, n := range []string{"st", "tst", "struct plainst", "flat", "rich"} {
		s := rtStructs()[n]
		add(n+" @", s)
		add(n+" @[2]", rtArr(s, 2))
		add(n+" *@", rtPtr(s, n3, false))
		add("const "+n+" *@", rtPtr(s, n3, true))
		add(n+" **@", rtPtr(rtPtr(s, n3, false), n2, false))
	}
	add("st @[2][2]", rtArr(rtArr(rtStructs()["st"], 2), 2))
	add("const char *@", rtStr)
	add("const char *@[2]", rtArr(rtStr, 2))
	add("const char **@", rtPtr(rtStr, n3, false))
	add("void *@", rtVp)
	add("const void *@", rtVp)
	add("void *@[2]", rtArr(rtVp, 2))
	add("opq *@", rtVp)
	add("opq *@[2]", rtArr(rtVp, 2))
	add("hopq @", rtVp)
	add("hopq @[2]", rtArr(rtVp, 2))
	add("int *@[2]", rtArr(rtPtr(rtScalars[5], 1, false), 2))
	add("unsigned char *@[2]", rtArr(rtPtr(rtScalars[2], 1, false), 2))
	add("double *@[2]", rtArr(rtPtr(rtScalars[12], 1, false), 2))
	return cs
}

// rtStructSet makes the structs: every member class between two others, and pairs of representatives.
func rtStructSet(one, full bool) (out []*rtD, hdr string) {
	var sb strings.Builder
	mk := func(ms ...rtClass) {
		i := len(out)
		n := fmt.Sprintf("v%dx", i)
		d := &rtD{K: "struct", c: n, T: i + 1}
		body := ""
		for k, m := range ms {
			f := fmt.Sprintf("m%d", k)
			body += strings.ReplaceAll(m.c, "@", f) + "; "
			d.F = append(d.F, rtFld{"M" + f[1:], m.d, f})
		}
		switch i % 3 {
		case 0:
			d.key = fmt.Sprintf("typedef struct { %s} %s;", body, n)
		case 1:
			d.key = fmt.Sprintf("typedef struct t%s { %s} %s;", n, body, n)
		case 2:
			d.key = fmt.Sprintf("struct %s { %s};", n, body)
			d.c = "struct " + n
		}
		sb.WriteString(d.key + "\n")
		d.key = strings.ReplaceAll(strings.ReplaceAll(d.key, "t"+n, "T"), n, "S")
		out = append(out, d)
	}
	guard := rtClass{"short @", rtScalars[3]}
	cs := rtMembers(one)
	by := map[string]rtClass{}
	for _, k := range cs {
		by[k.c] = k
		mk(guard, k, guard)
	}
	reps := []string{"int @", "unsigned char @[3]", "double @", "int *@", "short **@", "const char *@", "const char **@", "st @", "rich @", "st *@", "flat @[2]", "rich *@", "void *@", "opq *@", "hopq @", "en @"}
	for _, a := range reps {
		for _, b := range reps {
			if (full || a < b) && by[a].d != nil && by[b].d != nil {
				mk(by[a], by[b])
			}
		}
	}
	return out, sb.String()
}

func (c *Ctx) structPkg(cfg compCfg, structs []*rtD, hdr string, env ...string) {
	p := &rtPkg{cfg: cfg, structs: structs, hdr: rtPrelude + hdr}
	for _, d := range structs {
		c.Distinct(cfg.name + "|" + d.key)
	}
	exe, pk, _ := p.build(c)
	defer os.RemoveAll(pk.Gen.Dir)
	if pk.Code != 0 {
		c.Violate(cfg.name+" | build", firstLines(pk.Log, 20), p.files(pk, "build"))
		return
	}
	p.run(c, exe, pk, env...)
}

func runStructs(c *Ctx) {
	var use []compCfg
	for _, cfg := range compCfgs() {
		if o := os.Getenv("VCK_CFG"); contains(rtStructCfgs, cfg.name) && (o == "" || o == cfg.name) {
			use = append(use, cfg)
		}
	}
	c.Par(len(use), func(i int) {
		one := use[i].name == "ref" || use[i].name == "sref"
		s, h := rtStructSet(one, c.Thorough())
		c.structPkg(use[i], s, h, "VCK_MODE=structs")
	})
}

// rtOpStructs are the structs whose life is explored.
func rtOpStructs(one bool) ([]*rtD, string) {
	s := rtStructs()
	cls := [][]rtClass{
		{{"int @", rtScalars[5]}, {"double @", rtScalars[12]}},
		{{"int @", rtScalars[5]}, {"st @", s["st"]}},
		{{"st @[2]", rtArr(s["st"], 2)}, {"unsigned char @[3]", rtArr(rtScalars[2], 3)}},
		{{"const char *@", rtStr}, {"int @", rtScalars[5]}},
		{{"int *@", rtPtr(rtScalars[5], 2, false)}, {"void *@", rtVp}},
		{{"st *@", rtPtr(s["st"], 2, false)}, {"short @", rtScalars[3]}},
		{{"const char **@", rtPtr(rtStr, 2, false)}, {"opq *@", rtVp}},
		{{"rich @", s["rich"]}},
		{{"rich *@", rtPtr(s["rich"], 1, false)}, {"hopq @", rtVp}},
	}
	if one {
		cls[5][0].d = rtPtr(s["st"], 1, false)
		cls[4][0] = rtClass{"enum et @", rtScalars[32]} // *int32 shares its memory with C
		cls[6][0] = rtClass{"const char *@", rtStr}
	}
	var out []*rtD
	var sb strings.Builder
	for i, ms := range cls {
		n := fmt.Sprintf("v%dx", i)
		d := &rtD{K: "struct", c: n, T: i + 1}
		body := ""
		for k, m := range ms {
			f := fmt.Sprintf("m%d", k)
			body += strings.ReplaceAll(m.c, "@", f) + "; "
			d.F = append(d.F, rtFld{"M" + f[1:], m.d, f})
		}
		d.key = fmt.Sprintf("typedef struct { %s} S;", body)
		sb.WriteString(fmt.Sprintf("typedef struct { %s} %s;\n", body, n))
		out = append(out, d)
	}
	return out, sb.String()
}

func runOps(c *Ctx) {
	var use []compCfg
	for _, cfg := range compCfgs() {
		if o := os.Getenv("VCK_CFG"); contains([]string{"default", "ref", "safestrings", "bytes"}, cfg.name) && (o == "" || o == cfg.name) {
			use = append(use, cfg)
		}
	}
	depth := "4"
	c.Sample(map[string]any{"struct": "typedef struct { int m0; st m1; } S;", "operations": "PassRef CChange Deref Free", "checked": "reference, C values, Go values, live C blocks, double frees after each step"})
	if c.Thorough() {
		depth = "5"
	}
	c.Par(len(use), func(i int) {
		s, h := rtOpStructs(use[i].name == "ref")
		c.structPkg(use[i], s, h, "VCK_MODE=ops", "VCK_DEPTH="+depth)
	})
}


func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
