package main

import (
	"fmt"
	"os"
	"strings"
)

func init() {
	checks["C25"] = check{"exploration", "a case is one call, one round trip of a struct, or one run of a callback with unions in it, with one combination of values; non-trivial = distinct (configuration, declaration)", runUnions}
}

// unionShapes are the members of the unions and their size.
var unionShapes = []struct {
	m string
	n int
}{
	{"char a;", 1}, {"unsigned char a[3];", 3}, {"short s; char c;", 2}, {"int i; float f;", 4}, {"float f;", 4}, {"double d; int i;", 8}, {"float f[2];", 8}, {"double d[2];", 16},
	{"char c; double d; int a[3];", 16}, {"char a[6]; short s;", 6}, {"long l[3]; char c;", 24}, {"void *p; long l;", 8}, {"char a[24]; double d;", 24}, {"char a[33];", 33},
	{"struct { long a; double d; } s; int i;", 16}, {"union { int x; char y[8]; } u; short s;", 8}, {"unsigned b:3; int i;", 4}, {"int *p[5]; const char *s;", 40}, {"int m[2][3]; void (*f)(int);", 24}, {"struct { char c; } s[300];", 300},
}

func runUnions(c *Ctx) {
	var hdr strings.Builder
	hdr.WriteString("#include <stddef.h>\n#include <stdint.h>\n#include <stdbool.h>\n")
	var us []*rtD
	for i, u := range unionShapes {
		forms := []string{"typedef union { %s } un%dx;", "typedef union tun%[2]dx { %[1]s } un%[2]dx;", "union un%[2]dx { %[1]s };"}
		n := fmt.Sprintf("un%dx", i)
		fmt.Fprintf(&hdr, forms[i%3]+"\n", u.m, i)
		if i%3 == 2 {
			n = "union " + n
		}
		us = append(us, &rtD{K: "arr", N: u.n, E: rtScalars[2], c: n, blob: true})
	}
	var use []compCfg
	for _, cfg := range compCfgs() {
		if o := os.Getenv("VCK_CFG"); cfg.name != "rawmem" && cfg.name != "ustrings" && (o == "" || o == cfg.name) {
			use = append(use, cfg)
		}
	}
	const kinds = 4
	c.Par(len(use)*kinds, func(i int) {
		cfg := use[i/kinds]
		one := cfg.name == "ref" || cfg.name == "sref"
		n3, n2 := 3, 2
		if one {
			n3, n2 = 1, 1
		}
		switch i % kinds {
		case 0, 1:
			p := &rtPkg{cfg: cfg}
			sb := hdr.String()
			mk := func(ret *rtClass, ps ...rtClass) {
				f := &rtFn{Name: fmt.Sprintf("v%dx", len(p.fns))}
				var args []string
				for k, q := range ps {
					args = append(args, strings.ReplaceAll(q.c, "@", fmt.Sprintf("p%d", k)))
					f.P = append(f.P, q.d)
				}
				r := "void @"
				if ret != nil {
					r, f.R, f.ret = ret.c, ret.d, ret.c
				}
				if len(args) == 0 {
					args = []string{"void"}
				}
				f.decl = strings.ReplaceAll(r, "@", f.Name) + "(" + strings.Join(args, ", ") + ");"
				f.Key = strings.ReplaceAll(f.decl, f.Name, "v")
				sb += f.decl + "\n"
				c.Distinct(cfg.name + "|" + f.Key)
				p.fns = append(p.fns, f)
			}
			other := []rtClass{{"int @", rtScalars[5]}, {"double @", rtScalars[12]}}
			for k, u := range us {
				val, ptr := rtClass{u.c + " @", u}, rtClass{u.c + " *@", rtPtr(u, n3, false)}
				mk(nil, val)
				mk(nil, rtClass{"const " + u.c + " @", u})
				mk(nil, ptr)
				mk(nil, rtClass{"const " + u.c + " *@", rtPtr(u, n3, true)})
				mk(nil, rtClass{u.c + " **@", rtPtr(rtPtr(u, n3, false), n2, false)})
				if !one {
					mk(nil, rtClass{u.c + " @[2]", rtPtr(u, 2, false)})
					mk(nil, rtClass{u.c + " @[2][2]", rtPtr(rtArr(u, 2), 2, false)})
				}
				mk(&val)
				mk(&rtClass{u.c + " *@", rtPtr(u, 1, false)})
				mk(&val, other[0], val, other[1], ptr)
				w := us[(k+3)%len(us)]
				mk(&val, rtClass{w.c + " @", w}, val, rtClass{w.c + " *@", rtPtr(w, n3, false)})
			}
			p.hdr = sb
			exe, pk, _ := p.build(c)
			defer os.RemoveAll(pk.Gen.Dir)
			if pk.Code != 0 {
				c.Violate(cfg.name+" | build", firstLines(pk.Log, 20), p.files(pk, "build"))
				return
			}
			p.run(c, exe, pk, "VCK_MODE="+[]string{"call", "gc"}[i%kinds])
		case 2:
			var ss []*rtD
			sb := hdr.String()
			mk := func(ms ...rtClass) {
				n := fmt.Sprintf("v%dx", len(ss))
				d := &rtD{K: "struct", c: n, T: len(ss) + 1}
				body := ""
				for k, m := range ms {
					f := fmt.Sprintf("m%d", k)
					body += strings.ReplaceAll(m.c, "@", f) + "; "
					d.F = append(d.F, rtFld{"M" + f[1:], m.d, f})
				}
				sb += fmt.Sprintf("typedef struct { %s} %s;\n", body, n)
				d.key = fmt.Sprintf("typedef struct { %s} S;", body)
				ss = append(ss, d)
			}
			g := rtClass{"short @", rtScalars[3]}
			for k, u := range us {
				w := us[(k+5)%len(us)]
				mk(g, rtClass{u.c + " @", u}, g)
				mk(g, rtClass{u.c + " @[2]", rtArr(u, 2)}, g)
				mk(g, rtClass{u.c + " @[2][3]", rtArr(rtArr(u, 3), 2)}, g)
				mk(g, rtClass{u.c + " *@", rtPtr(u, n3, false)}, g)
				mk(g, rtClass{"const " + u.c + " *@", rtPtr(u, n3, true)}, g)
				if !one {
					mk(g, rtClass{u.c + " **@", rtPtr(rtPtr(u, n3, false), n2, false)}, g)
					mk(g, rtClass{u.c + " *@[2]", rtArr(rtPtr(u, 1, false), 2)}, g)
				}
				mk(rtClass{u.c + " @", u}, rtClass{w.c + " @", w}, rtClass{w.c + " *@", rtPtr(w, n3, false)})
			}
			p := &rtPkg{cfg: cfg, structs: ss, hdr: sb}
			for _, d := range ss {
				c.Distinct(cfg.name + "|" + d.key)
			}
			exe, pk, _ := p.build(c)
			defer os.RemoveAll(pk.Gen.Dir)
			if pk.Code != 0 {
				c.Violate(cfg.name+" | build", firstLines(pk.Log, 20), p.files(pk, "build"))
				return
			}
			p.run(c, exe, pk, "VCK_MODE=structs")
		case 3:
			c.cbRun(cfg, hdr.String(), func(mk func(ret *rtClass, ps ...rtClass)) {
				for k, u := range us {
					val := rtClass{u.c + " @", u}
					w := us[(k+7)%len(us)]
					mk(nil, val)
					mk(&val)
					mk(nil, rtClass{u.c + " *@", rtPtr(u, n3, false)})
					mk(&val, rtClass{"int @", rtScalars[5]}, rtClass{w.c + " @", w}, val)
				}
			})
		}
	})
}
