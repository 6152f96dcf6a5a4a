package main

import (
	_ "embed"
	"fmt"
	"os"
	"strings"
)

//go:embed rt/raw.go.txt
var rtRaw string

func init() {
	checks["C23"] = check{"model_checking", "a case is one raw struct with one pattern of values through all its accessors and ways between Go and C, or one sequence of operations on a handle compared with the model; non-trivial = distinct struct", runRaw}
}

var rawCfg = compCfg{"raw", func(m M) {
	sub(m, "TRANSLATOR")["MemTips"] = L{M{"target": "^v\\d+x$", "self": "raw"}}
	sub(m, "GENERATOR")["Options"] = M{"StructAccessors": true}
}}

func runRaw(c *Ctx) {
	structs, hdr := rtStructSet(false, c.Thorough())
	hdr = strings.TrimSpace(hdr) + "\n"
	// raw structs in raw structs
	in := &rtD{K: "struct", c: "v900x", B: 1, F: []rtFld{{"P", rtScalars[5], "p"}, {"Q", rtScalars[11], "q"}}}
	add := func(decl string, d *rtD) {
		d.K, d.T = "struct", len(structs)+1
		n := fmt.Sprintf("v%dx", d.T)
		d.c, d.key = n, strings.ReplaceAll(decl, "NAME", "S")
		structs = append(structs, d)
		hdr += strings.ReplaceAll(decl, "NAME", n) + "\n"
	}
	add("typedef struct { short m0; v900x m1; short m2; } NAME;", &rtD{F: []rtFld{{"M0", rtScalars[3], "m0"}, {"M1", in, "m1"}, {"M2", rtScalars[3], "m2"}}})
	add("typedef struct { short m0; v900x m1[2]; v900x m2[2][2]; } NAME;", &rtD{F: []rtFld{{"M0", rtScalars[3], "m0"}, {"M1", rtArr(in, 2), "m1"}, {"M2", rtArr(rtArr(in, 2), 2), "m2"}}})
	add("typedef struct { short m0; v900x *m1; v900x **m2; } NAME;", &rtD{F: []rtFld{{"M0", rtScalars[3], "m0"}, {"M1", rtPtr(in, 1, false), "m1"}, {"M2", rtPtr(rtPtr(in, 2, false), 2, false), "m2"}}})
	add("typedef struct { const v900x *m0; v900x *m1[2]; const v900x *m2; } NAME;", &rtD{F: []rtFld{{"M0", rtPtr(in, 1, false), "m0"}, {"M1", rtArr(rtPtr(in, 1, false), 2), "m1"}, {"M2", rtPtr(in, 1, false), "m2"}}})
	// several packages, so that builds go in parallel
	n := 4
	c.Par(n, func(i int) {
		var part []*rtD
		for k, d := range structs {
			if k%n == i {
				part = append(part, d)
			}
		}
		c.rawPkg(rawCfg, part, hdr)
	})
}

func (c *Ctx) rawPkg(cfg compCfg, structs []*rtD, hdr string) {
	var h, x, tab strings.Builder
	h.WriteString(rtPrelude + "typedef struct { int p; float q; } v900x;\n")
	lines := strings.Split(strings.TrimSpace(hdr), "\n")
	x.WriteString("void *vck_rawp, *vck_rawq; int vck_rawn;\n")
	addr, size, wrap, wat := "", "", "", ""
	for _, d := range structs {
		c.Distinct(cfg.name + "|" + d.key)
		n := strings.TrimPrefix(d.c, "struct ")
		h.WriteString(lines[d.T-1] + "\n")
		w := "w" + n[1:]
		fmt.Fprintf(&h, "%[1]s *%[2]sret(void); %[1]s %[2]sval(%[1]s v); void %[2]sarr(%[1]s *p, int n);\n", d.c, n)
		fmt.Fprintf(&h, "typedef struct { int a; %[1]s r; %[1]s *pr; %[1]s ar[2]; %[1]s *apr[2]; } %[2]s;\n", d.c, w)
		fmt.Fprintf(&x, "%[1]s *%[2]sret(void) { return vck_rawp; }\n%[1]s %[2]sval(%[1]s v) { vck_rec(%[3]d, &v); return *(%[1]s *)vck_rawp; }\n", d.c, n, d.T)
		fmt.Fprintf(&x, "void %[2]sarr(%[1]s *p, int n) { vck_rawp = p; vck_rawn = n; if (!p) return; for (int i = 0; i < n; i++) vck_rec(%[3]d, p + i); p[n-1] = *(%[1]s *)vck_rawq; }\n", d.c, n, d.T)
		addr += fmt.Sprintf("case %d: { %s *x = p; switch (k) { ", d.T, d.c)
		size += fmt.Sprintf("case %d: { %s *x = 0; switch (k) { case -1: return sizeof *x; ", d.T, d.c)
		for k, f := range d.F {
			addr += fmt.Sprintf("case %d: return (void*)&x->%s; ", k, f.c)
			size += fmt.Sprintf("case %d: return sizeof x->%s; ", k, f.c)
		}
		addr += "} return 0; }\n"
		size += "} return 0; }\n"
		wrap += fmt.Sprintf("case %d: { %s *x = vck_arena(sizeof *x); x->r = x->ar[0] = *(%[3]s *)vck_rawp; x->ar[1] = *(%[3]s *)vck_rawq; x->pr = vck_rawp; x->apr[0] = vck_rawq; return x; }\n", d.T, w, d.c)
		wat += fmt.Sprintf("case %d: { %s *x = p; switch (k) { case 0: return &x->r; case 1: return &x->pr; case 2: return x->ar; case 3: return x->apr; } return 0; }\n", d.T, w)
		g := goExport(n)
		fmt.Fprintf(&tab, "\t{Key: %q, T: %d, D: vckParse(%q), Type: reflect.TypeOf(%s{}),\n", d.key, d.T, string(mustJSON(d)), g)
		fmt.Fprintf(&tab, "\t\tNew: func() unsafe.Pointer { return unsafe.Pointer(New%[1]s()) }, NewRef: func(p unsafe.Pointer) unsafe.Pointer { return unsafe.Pointer(New%[1]sRef(p)) },\n", g)
		for _, m := range []string{"Ref", "PassRef"} {
			fmt.Fprintf(&tab, "\t\t%[2]s: func(p unsafe.Pointer) unsafe.Pointer { return unsafe.Pointer((*%[1]s)(p).%[2]s()) },\n", g, m)
		}
		fmt.Fprintf(&tab, "\t\tFree: func(p unsafe.Pointer) { (*%s)(p).Free() },\n\t\tGet: []func(unsafe.Pointer) any{\n", g)
		for _, f := range d.F {
			fmt.Fprintf(&tab, "\t\t\tfunc(p unsafe.Pointer) any { return (*%s)(p).Get%s() },\n", g, f.N)
		}
		fmt.Fprintf(&tab, "\t\t},\n\t\tRet: func() unsafe.Pointer { return unsafe.Pointer(%[1]sret()) }, Val: func(p unsafe.Pointer) unsafe.Pointer { v := %[1]sval(*(*%[1]s)(p)); return unsafe.Pointer(&v) },\n", g)
		fmt.Fprintf(&tab, "\t\tArr: func(p unsafe.Pointer, n int) { %[1]sarr(unsafe.Slice((*%[1]s)(p), n), int32(n)) }, GoArr: func(n int) unsafe.Pointer { return unsafe.Pointer(&make([]%[1]s, n)[0]) },\n", g)
		fmt.Fprintf(&tab, "\t\tNewWrap: func(p unsafe.Pointer) any { return New%sRef(p) }},\n", goExport(w))
	}
	fmt.Fprintf(&x, "void *vck_raw_addr(int i, int k, void *p) { switch (i) {\n%s} return 0; }\nunsigned long vck_raw_size(int i, int k) { switch (i) {\n%s} return 0; }\n", addr, size)
	fmt.Fprintf(&x, "void *vck_raw_wrap(int i) { switch (i) {\n%s} return 0; }\nvoid *vck_raw_wrapaddr(int i, int k, void *p) { switch (i) {\n%s} return 0; }\n", wrap, wat)
	p := &rtPkg{cfg: cfg, structs: structs, hdr: h.String(), extraC: x.String(), extraGo: rtRaw + "\nvar vckRaws = []*vckRaw{\n" + tab.String() + "}\n"}
	exe, pk, _ := p.build(c)
	defer os.RemoveAll(pk.Gen.Dir)
	if pk.Code != 0 {
		c.Violate(cfg.name+" | build", firstLines(pk.Log, 20), p.files(pk, "build"))
		return
	}
	env := []string{"VCK_MODE=extra"}
	if c.Thorough() {
		env = append(env, "VCK_DEPTH=6")
	}
	p.run(c, exe, pk, env...)
}
