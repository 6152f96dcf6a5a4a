package main

import (
	_ "embed"
	"fmt"
	"os"
	"strings"
)

//go:embed rt/len.go.txt
var rtLen string

func init() {
	checks["C22"] = check{"model_checking", "a case is one struct with slices and lengths under one configuration with one pair of lengths, or one history of lengths; non-trivial = distinct (configuration, struct)", runLen}
}

// lenFld is a slice member of a struct: by is the member with its length.
type lenFld struct{ c, name, by string }

type lenStruct struct {
	decl string // NAME is the typedef
	f    []lenFld
	l    [2]string // lengths
	max  int
}

func lenStructs(full bool) (out []lenStruct) {
	mk := func(max int, l [2]string, order []string, f ...lenFld) {
		body := ""
		for _, o := range order {
			body += o + "; "
		}
		d := "typedef struct { " + body + "} NAME;"
		if len(out)%2 == 1 {
			d = "typedef struct TAG { " + body + "} NAME;"
		}
		out = append(out, lenStruct{d, f, l, max})
	}
	var elems, lens []string
	maxOf := map[string]int{}
	for _, s := range rtScalars {
		elems = append(elems, s.c)
		if (s.K == "int" || s.K == "uint") && s.c != "char" {
			lens = append(lens, s.c)
			maxOf[s.c] = 300
			if s.B == 8 {
				maxOf[s.c] = 127
				if s.K == "uint" {
					maxOf[s.c] = 255
				}
			}
		}
	}
	one := func(e, l string, first bool) {
		o := []string{l + " n", e + " *a"}
		if !first {
			o = []string{e + " *a", l + " n"}
		}
		mk(maxOf[l], [2]string{"n", "n"}, o, lenFld{e, "a", "n"})
	}
	for _, e := range append(elems, "const int", "const unsigned char") {
		one(e, "int", true)
		one(e, "size_t", false)
	}
	reps := []string{"unsigned char", "double"}
	if full {
		reps = elems
	}
	for _, l := range lens {
		for _, e := range reps {
			one(e, l, true)
			one(e, l, false)
		}
	}
	// two slices: who has which length
	for _, e := range [][2]string{{"int", "double"}, {"unsigned char", "en"}, {"float", "float"}} {
		for _, by := range [][2]string{{"n", "m"}, {"m", "n"}, {"n", "n"}, {"n", ""}, {"", "m"}, {"", ""}} {
			for _, o := range [][]string{{e[0] + " *a", e[1] + " *b", "int n", "unsigned char m"}, {"int n", e[0] + " *a", "unsigned char m", e[1] + " *b"}, {"int n, *pad", e[1] + " *b", e[0] + " *a", "unsigned char m"}} {
				mk(255, [2]string{"n", "m"}, o, lenFld{e[0], "a", by[0]}, lenFld{e[1], "b", by[1]})
			}
		}
	}
	// names that resemble each other
	mk(300, [2]string{"count", "aCount"}, []string{"int count", "int aCount", "int *a", "int *ab"}, lenFld{"int", "a", "aCount"}, lenFld{"int", "ab", "count"})
	mk(300, [2]string{"typ", "len_"}, []string{"short *rng", "int typ", "short *fnc", "int len_"}, lenFld{"short", "rng", "typ"}, lenFld{"short", "fnc", "len_"})
	mk(300, [2]string{"n", "n"}, []string{"int *a", "int n", "char s[4]", "st t", "const char *q"}, lenFld{"int", "a", "n"})
	return out
}

func runLen(c *Ctx) {
	var use []compCfg
	for _, cfg := range compCfgs() {
		switch cfg.name {
		case "default", "plain", "named", "safestrings", "arr":
			use = append(use, cfg)
		}
	}
	ss := lenStructs(c.Thorough())
	c.Par(len(use)+1, func(i int) {
		if i == len(use) {
			c.lenAccessors()
			return
		}
		cfg := use[i]
		mod := cfg.mod
		lf := M{}
		var h, x, tab strings.Builder
		mkc, atc, ptc := "", "", ""
		h.WriteString(rtPrelude)
		for k, s := range ss {
			n := fmt.Sprintf("v%dx", k)
			h.WriteString(strings.NewReplacer("NAME", n, "TAG", "t"+n).Replace(s.decl) + "\n")
			by := ""
			mkc += fmt.Sprintf("case %d: { %s *x = o ? o : vck_arena(sizeof *x); x->%s = n; x->%s = %s; ", k, n, s.l[0], s.l[1], map[bool]string{true: "n", false: "m"}[s.l[0] == s.l[1]])
			atc += fmt.Sprintf("case %d: { %s *x = p; ", k, n)
			ptc += fmt.Sprintf("case %d: { %s *x = p; ", k, n)
			for j, f := range s.f {
				e := strings.TrimPrefix(f.c, "const ")
				idx, num := -1, "3"
				if f.by != "" {
					lf[n+"."+f.name] = f.by
					idx, num = 0, "n"
					if f.by != s.l[0] {
						idx, num = 1, "m"
					}
				}
				mkc += fmt.Sprintf("{ %[1]s *e = (%[2]s) ? vck_arena((%[2]s) * sizeof *e) : 0; for (long k = 0; k < (%[2]s); k++) e[k] = k * 3 + %[3]d; x->%[4]s = e; } ", e, num, j+1, f.name)
				atc += fmt.Sprintf("if (f == %d) return x->%s[k]; ", j, f.name)
				ptc += fmt.Sprintf("if (f == %d) return (void*)x->%s; ", j, f.name)
				by += fmt.Sprintf("{%q, %d}, ", goExport(f.name), idx)
			}
			mkc += "return x; }\n"
			atc += "return 0; }\n"
			ptc += "return 0; }\n"
			key := s.decl
			for _, f := range s.f {
				key += " " + f.name + ":" + f.by
			}
			c.Distinct(cfg.name + "|" + key)
			fmt.Fprintf(&tab, "\t{Key: %q, T: %d, Max: %d, NewRef: func(p unsafe.Pointer) any { return New%sRef(p) }, F: []vckLenF{%s}},\n", key, k, s.max, goExport(n), by)
		}
		// entries that fit nothing
		lf["v0y.a"], lf["v1x.zz"], lf["a"] = "n", "n", "n"
		fmt.Fprintf(&x, "void *vck_len_make(int i, void *o, long n, long m) { switch (i) {\n%s} return 0; }\nlong long vck_len_at(int i, void *p, int f, long k) { switch (i) {\n%s} return 0; }\nvoid *vck_len_ptr(int i, void *p, int f) { switch (i) {\n%s} return 0; }\n", mkc, atc, ptc)
		cfg.mod = func(m M) {
			mod(m)
			sub(m, "TRANSLATOR")["LenFields"] = lf
		}
		p := &rtPkg{cfg: cfg, hdr: h.String(), extraC: x.String(), extraGo: rtLen + "\nvar vckLens = []*vckLen{\n" + tab.String() + "}\n"}
		exe, pk, _ := p.build(c)
		defer os.RemoveAll(pk.Gen.Dir)
		if pk.Code != 0 {
			c.Violate(cfg.name+" | build", firstLines(pk.Log, 20), p.files(pk, "build"))
			return
		}
		p.run(c, exe, pk, "VCK_MODE=extra")
	})
}

// lenAccessors: lengths together with accessors of raw structs.
func (c *Ctx) lenAccessors() {
	p := &rtPkg{cfg: compCfg{"raw", func(m M) {
		rawCfg.mod(m)
		sub(m, "TRANSLATOR")["LenFields"] = M{"v0x.a": "n"}
	}}, hdr: rtPrelude + "typedef struct { int n; int *a; } v0x;\n"}
	_, pk, _ := p.build(c)
	defer os.RemoveAll(pk.Gen.Dir)
	c.EvalN(1)
	if pk.Code != 0 {
		c.Violate("raw | accessors", firstLines(pk.Log, 20), p.files(pk, "build"))
	}
}
