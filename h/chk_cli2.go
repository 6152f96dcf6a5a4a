package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
)

// ---- C17: Defines ----

func init() {
	checks["C17"] = check{"exploration", "a case is an assignment of values to two macro names in the manifest, in the (fake) host compiler and in the header; non-trivial = at least one define is set", runDefines}
	checks["C29"] = check{"exploration", "a case is a subset of ignored path suffixes over a tree of five headers with seven declaration kinds each; non-trivial = some but not all headers are ignored", runIgnored}
	checks["C27"] = check{"exploration", "a case is an ordered list of manifests in one invocation, or a set of candidate manifest files in a directory; non-trivial = more than one candidate or manifest", runMulti}
	checks["C30"] = check{"exploration", "a case is one defect injected at one place of a manifest or header; all are non-trivial", runConfigErrors}
}

func runDefines(c *Ctx) {
	vals := []any{nil, 0, 1, -3, 5, 2147483648, 1000000000000000, uint64(1<<64 - 16), "", "abc", "two words", "x-y/z", 1.5, 0.1, 1e-9, 12345678.9, -2.25, M{}}
	hosts := []string{"", "7", "5"}
	type cs struct {
		a, b any
		host string // of A, "" none
		hdr  string // header's own conditional definition of A
		flag bool
	}
	var cases []cs
	for _, a := range vals {
		for _, b := range vals {
			cases = append(cases, cs{a: a, b: b})
		}
		for _, h := range hosts {
			for _, flag := range []bool{true, false} {
				for _, hd := range []string{"", "ifndef"} {
					cases = append(cases, cs{a: a, host: h, flag: flag, hdr: hd})
				}
			}
		}
	}
	n := c.Par(len(cases), func(i int) {
		k := cases[i]
		defs := M{}
		if k.a != nil {
			defs["NA"] = k.a
		}
		if k.b != nil {
			defs["NB"] = k.b
		}
		cur := map[string]any{"NA": k.a, "NB": k.b}
		if k.a == nil && k.flag && k.host != "" {
			v, _ := strconv.Atoi(k.host)
			cur["NA"] = v
		}
		if cur["NA"] == nil && k.hdr != "" {
			cur["NA"] = 99
		}
		var h strings.Builder
		if k.hdr != "" {
			h.WriteString("#ifndef NA\n#define NA 99\n#endif\n")
		}
		var want []string
		for _, nm := range []string{"NA", "NB"} {
			fmt.Fprintf(&h, "#ifdef %s\n#define vk_%s_def 1\n#endif\n", nm, nm)
			v := cur[nm]
			if v != nil {
				want = append(want, "vk_"+nm+"_def=1")
			}
			if _, isInt := v.(int); isInt || v == nil {
				for _, t := range []int{0, 1, -3, 5, 7, 99, 2147483648, 1000000000000000} {
					fmt.Fprintf(&h, "#if defined(%s) && %s == %d\n#define vk_%s_eq_%s 1\n#endif\n", nm, nm, t, nm, strings.Replace(fmt.Sprint(t), "-", "m", 1))
					if v == t {
						want = append(want, fmt.Sprintf("vk_%s_eq_%s=1", nm, strings.Replace(fmt.Sprint(t), "-", "m", 1)))
					}
				}
			}
			switch x := v.(type) {
			case int, uint64:
				want = append(want, fmt.Sprintf("%s=%d", nm, x))
			case string:
				want = append(want, fmt.Sprintf("%s=%q", nm, x))
			case float64:
				want = append(want, fmt.Sprintf("%s=%v", nm, x))
			}
		}
		// the host compiler, faked
		host := ""
		if k.host != "" {
			host = "echo '#define NA " + k.host + "'; "
		}
		dir := filepath.Join(c.Scratch, fmt.Sprintf("case%d", i))
		os.MkdirAll(dir, 0755)
		os.WriteFile(filepath.Join(dir, "cpp"), []byte("#!/bin/sh\ncase \"$*\" in *-dM*) "+host+"echo '#define NHOST 1';; *) printf '#include \"...\" search starts here:\\n#include <...> search starts here:\\nEnd of search list.\\n';; esac\n"), 0755)
		args := []string{"-fancy=false", "-nostamp", "-out", "out"}
		fmt.Fprintf(&h, "#ifdef NHOST\n#define vk_host 1\n#endif\n")
		if k.flag {
			args = append(args, "-ccdefs")
			want = append(want, "vk_host=1")
		}
		args = append(args, "pkg.yml")
		j := &Job{Dir: dir, Files: map[string]string{"a.h": h.String()}, Argv: args, Env: []string{"CPP=./cpp"},
			Manifest: M{"GENERATOR": M{"PackageName": "p"}, "PARSER": M{"SourcesPaths": L{"a.h"}, "Defines": defs},
				"TRANSLATOR": M{"Rules": M{"global": L{M{"action": "accept", "from": "^(vk_|NA$|NB$)"}}}}}}
		r := c.Run(j)
		key := fmt.Sprintf("defines NA=%v NB=%v host=%s ccdefs=%v header=%s", k.a, k.b, k.host, k.flag, k.hdr)
		c.EvalN(1)
		if len(defs) > 0 {
			c.Distinct(key)
		}
		gv, synt := goEval(r.Out, "const.go")
		var got []string
		for _, nm := range sortedKeys(gv) {
			v := gv[nm]
			s := ""
			if v.v != nil {
				s = v.v.ExactString()
				if f, err := strconv.ParseFloat(v.v.String(), 64); err == nil && strings.ContainsAny(s, "/.e") {
					s = fmt.Sprint(f)
					if fl, ok := floatOf(v); ok {
						s = fmt.Sprint(fl)
					}
				}
			}
			got = append(got, nm+"="+s)
		}
		ws, gs := strings.Join(sortS(want), " "), strings.Join(sortS(got), " ")
		if r.Code != 0 || len(synt) > 0 || ws != gs {
			c.Violate(key, fmt.Sprintf("exit %d %v\n got  %s\n want %s\n%s", r.Code, synt, gs, ws, r.Stderr), withOut(jobFiles(j), r))
		}
		if i%61 == 0 {
			c.Sample(M{"case": key, "seen": gs})
		}
	})
	c.Extra("cases_run", int64(n))
	c.Assume("strings contain no quotes or backslashes; value kinds other than integer, float, string and the empty mapping are unspecified")
}

func runIgnored(c *Ctx) {
	paths := []string{"d/a.h", "d/b.h", "d/sub/b.h", "inc/c.h", "inc/bb.h"}
	tag := []string{"A", "B", "S", "C", "BB"}
	body := func(t string) string {
		return fmt.Sprintf("#define vkm%s 1\nenum { vke%s = 2 };\ntypedef enum { vkg%s = 3 } vkE%s;\ntypedef int vkt%s[4];\ntypedef struct { int x; } vkS%s;\nvoid vkf%s(int x);\nextern const int vkv%s;\n", t, t, t, t, t, t, t, t)
	}
	files := map[string]string{
		"d/a.h":     "#include \"b.h\"\n#include \"sub/b.h\"\n#include \"c.h\"\n" + body("A"),
		"d/b.h":     body("B"),
		"d/sub/b.h": body("S"),
		"inc/c.h":   "#include \"bb.h\"\n" + body("C"),
		"inc/bb.h":  body("BB"),
	}
	sfx := []string{"b.h", "/b.h", "sub/b.h", "d/b.h", "c.h", "a.h", "inc/bb.h", "nothere.h", "d/a"}
	var cases [][]string
	for _, s := range subsets(sfx) {
		if len(s) <= 3 || c.Thorough() {
			cases = append(cases, s)
		}
	}
	cases = append(cases, []string{".h"}, []string{"h"})
	n := c.Par(len(cases), func(i int) {
		var ig L = toL(cases[i])
		j := &Job{Files: files, Manifest: M{"GENERATOR": M{"PackageName": "p"}, "PARSER": M{"SourcesPaths": L{"d/a.h"}, "IncludePaths": L{"inc"}, "IgnoredPaths": ig}, "TRANSLATOR": M{"Rules": vkRules()}}}
		r := c.Run(j)
		key := fmt.Sprintf("ignored %v", cases[i])
		g := parseOut(r.Out)
		have := map[string]bool{}
		for _, k := range g.Consts() {
			have[k.Name] = true
		}
		for _, t := range g.Types() {
			have[t.Name] = true
		}
		for _, f := range g.Funcs() {
			have[f.Name] = true
		}
		nIgn := 0
		for pi, p := range paths {
			ign := false
			for _, s := range cases[i] {
				if strings.HasSuffix(p, s) {
					ign = true
				}
			}
			if ign {
				nIgn++
			}
			for _, k := range []string{"vkm", "vke", "vkg", "vkE", "vkt", "vkS", "vkf", "vkv"} {
				c.EvalN(1)
				if have[k+tag[pi]] == ign {
					c.Violate(key+" "+k+tag[pi], fmt.Sprintf("%s of %s: ignored=%v generated=%v (exit %d, parse errors %v)", k+tag[pi], p, ign, have[k+tag[pi]], r.Code, g.Errs), withOut(jobFiles(j), r))
				}
			}
		}
		if r.Code != 0 || len(g.Errs) > 0 {
			c.Violate(key, fmt.Sprintf("exit %d %v %s", r.Code, g.Errs, r.Stderr), withOut(jobFiles(j), r))
		}
		if nIgn > 0 && nIgn < len(paths) {
			c.Distinct(key)
		}
		if i%37 == 0 {
			c.Sample(M{"ignored": cases[i], "headers_ignored": nIgn})
		}
	})
	c.Extra("cases_run", int64(n))
}

func runMulti(c *Ctx) {
	hdr := "#define vk_max_size 10\n#define VK_B (vk_max_size + 1)\ntypedef enum { VK_ONE, VK_TWO } vk_mode;\ntypedef struct vk_thing { int a_b; const char* s; struct vk_thing* next; float *fs; } vk_thing;\ntypedef union { int i; float f; } vk_un;\ntypedef int (*vk_cb)(int a, void *p);\nint vk_do_it(vk_thing *t, int n_items, const char *nm, vk_cb cb);\nvoid vk_vals(vk_mode m, vk_un *u, float *f);\n"
	acc := M{"action": "accept", "from": "(?i)^vk_"}
	mk := func(name string, tr M, g M) string {
		g["PackageName"] = name
		g["Includes"] = L{"src/a.h"}
		return string(mustJSON(M{"GENERATOR": g, "PARSER": M{"SourcesPaths": L{"src/a.h"}}, "TRANSLATOR": tr}))
	}
	files := map[string]string{
		"src/a.h": hdr,
		"m1.yml":  mk("p1", M{"Rules": M{"global": L{acc, M{"action": "replace", "from": "(?i)vk_"}}, "post-global": L{M{"load": "snakecase"}, M{"transform": "export"}}, "private": L{M{"transform": "unexport"}}}}, M{}),
		"m2.yml":  mk("p2", M{"Rules": M{"global": L{acc}, "post-global": L{M{"load": "snakecase", "from": "_(.)", "transform": "upper"}}}, "PtrTips": M{"function": L{M{"target": "vk_do_it", "tips": L{"ref", "", "arr"}}, M{"target": "vk_vals", "tips": L{"", "ref", "ref"}}}}}, M{"PackageDescription": "Package p2 differs."}),
		"m3.yml":  mk("p3", M{"Rules": M{"global": L{acc, M{"action": "ignore", "from": "VK_TWO"}}, "post-global": L{M{"transform": "title"}}, "function": L{M{"action": "doc", "from": ".*", "to": "see $name"}}}, "TypeTips": M{"type": L{M{"target": "vk_un", "self": "plain"}}}, "MemTips": L{M{"target": "vk_thing", "self": "raw"}}}, M{"Options": M{"SafeStrings": true, "StructAccessors": true}}),
		"m4.yml":  mk("d/p4", M{"Rules": M{"global": L{acc}}, "ConstRules": M{"enum": "expand", "defines": "expand"}}, M{"PackageLicense": "free"}),
	}
	// manifests in directories of their own, each with headers of the same names
	for i, d := range []string{"da", "db", "dc"} {
		files[d+"/m.yml"] = string(mustJSON(M{
			"GENERATOR":  M{"PackageName": "q" + d, "Includes": L{"loc.h"}, "SysIncludes": L{fmt.Sprintf("sys%d.h", i)}, "FlagGroups": L{M{"name": "CFLAGS", "flags": L{fmt.Sprintf("-DD%d", i)}}}},
			"PARSER":     M{"SourcesPaths": L{"loc.h", "nin.h"}, "IncludePaths": L{d + "/in"}, "SysIncludePaths": L{d + "/sys"}, "Defines": M{"VK_SET": i, fmt.Sprintf("VK_SET%d", i): i}, "IgnoredPaths": L{fmt.Sprintf("skip%d.h", i)}},
			"TRANSLATOR": M{"Rules": M{"global": L{acc}}, "LenFields": M{"vk_loc.p": []string{"n", "m", "k"}[i]}, "Validations": L{M{"validatefunc": fmt.Sprintf("V%d", i), "ret": "e", "matchedfunc": "^vk_loc"}}}}))
		files[d+"/loc.h"] = fmt.Sprintf("#include \"deep.h\"\n#include <ang.h>\n#include \"skip0.h\"\n#include \"skip1.h\"\n#define VK_LOC %d\n#define VK_SEEN VK_SET\n#ifdef VK_SET1\n#define VK_ONE_SET 1\n#endif\ntypedef struct { int n, m, k; float *p; } vk_loc; int vk_loc%d(vk_loc *p);\n", i, i)
		files[d+"/in/nin.h"] = fmt.Sprintf("int vk_in%d(%s a);\n", i, []string{"int", "char", "long"}[i])
		files[d+"/in/deep.h"] = fmt.Sprintf("#define VK_DEEP %d\n", 10+i)
		files[d+"/in/skip0.h"] = fmt.Sprintf("#define VK_SKIP0 %d\n", i)
		files[d+"/in/skip1.h"] = fmt.Sprintf("#define VK_SKIP1 %d\n", i)
		files[d+"/sys/ang.h"] = fmt.Sprintf("#define VK_ANG %d\n", 20+i)
	}
	ms := []string{"m1.yml", "m2.yml", "m3.yml", "m4.yml", "da/m.yml", "db/m.yml", "dc/m.yml"}
	single := map[string]map[string]string{}
	fixed := func() string { // the name of the directory is part of some comments
		return filepath.Join(c.Scratch, fmt.Sprintf("w%d", atomic.AddInt64(&jobSeq, 1)), "w")
	}
	for _, m := range ms {
		r := c.Run(&Job{Dir: fixed(), Files: files, Argv: []string{"-fancy=false", "-nostamp", "-out", "out", m}})
		if r.Code != 0 || len(r.Out) < 4 {
			c.Violate("single "+m, fmt.Sprintf("exit %d %s", r.Code, r.Stderr), nil)
			return
		}
		single[m] = r.Out
	}
	var seqs [][]string
	for _, a := range ms {
		seqs = append(seqs, []string{a})
		for _, b := range ms {
			seqs = append(seqs, []string{a, b})
			for _, d := range ms {
				seqs = append(seqs, []string{a, b, d})
				if c.Thorough() {
					for _, e := range ms[3:] {
						seqs = append(seqs, []string{a, b, d, e})
					}
				}
			}
		}
	}
	fancy := []string{"-fancy=false"}
	if c.Thorough() {
		fancy = append(fancy, "-fancy=true")
	}
	for _, fc := range fancy {
		c.Par(len(seqs), func(i int) {
			j := &Job{Dir: fixed(), Files: files, Argv: append([]string{fc, "-nostamp", "-out", "out"}, seqs[i]...)}
			r := c.Run(j)
			want := map[string]string{}
			for _, m := range seqs[i] {
				for k, v := range single[m] {
					want[k] = v
				}
			}
			key := fmt.Sprintf("%s manifests %v", fc, seqs[i])
			c.EvalN(1)
			if len(seqs[i]) > 1 {
				c.Distinct(key)
			}
			if d := diffMaps(want, r.Out); r.Code != 0 || d != "" {
				c.Violate(key, fmt.Sprintf("exit %d; differs from separate runs: %s\n%s", r.Code, d, r.Stderr), withOut(jobFiles(j), r))
			}
		})
	}
	// -fancy (the default) for a few sequences: same files, and the run ends
	for _, s := range [][]string{{"m1.yml"}, {"m1.yml", "m2.yml"}, {"m3.yml", "m1.yml", "m4.yml"}} {
		j := &Job{Dir: fixed(), Files: files, Argv: append([]string{"-nostamp", "-out", "out"}, s...)}
		r := c.Run(j)
		want := map[string]string{}
		for _, m := range s {
			for k, v := range single[m] {
				want[k] = v
			}
		}
		c.EvalN(1)
		c.Distinct("fancy " + strings.Join(s, " "))
		if d := diffMaps(want, r.Out); r.Code != 0 || r.TO || d != "" {
			c.Violate("fancy "+strings.Join(s, " "), fmt.Sprintf("exit %d timeout %v: %s", r.Code, r.TO, d), withOut(jobFiles(j), r))
		}
	}
	// a failing manifest after good ones: the good ones' packages are complete, the run fails
	for pos := 0; pos < 3; pos++ {
		s := []string{"m1.yml", "m2.yml"}
		s = append(s[:pos:pos], append([]string{"bad.yml"}, s[pos:]...)...)
		f := map[string]string{"bad.yml": "GENERATOR: {PackageName: x}\nPARSER: {SourcesPaths: [missing.h]}\n"}
		for k, v := range files {
			f[k] = v
		}
		j := &Job{Dir: fixed(), Files: f, Argv: append([]string{"-fancy=false", "-nostamp", "-out", "out"}, s...)}
		r := c.Run(j)
		want := map[string]string{}
		for _, m := range s[:pos] {
			for k, v := range single[m] {
				want[k] = v
			}
		}
		c.EvalN(1)
		key := fmt.Sprintf("failing manifest at position %d", pos)
		c.Distinct(key)
		if d := diffMaps(want, r.Out); r.Code == 0 || isPanic(r) || d != "" {
			c.Violate(key, fmt.Sprintf("exit %d: %s", r.Code, d), withOut(jobFiles(j), r))
		}
	}
	// directories: candidates in documented order
	cands := []string{"c-for-go.yaml", "c-for-go.yml", "lib.yaml", "lib.yml"}
	kinds := []string{"absent", "file", "dir"}
	type dcase struct {
		st  []string
		arg string
	}
	var dcs []dcase
	var gen func(p []string)
	gen = func(p []string) {
		if len(p) == len(cands) {
			for _, a := range []string{"sub/lib", "sub/lib/", "./sub/lib", "%abs/sub/lib"} {
				dcs = append(dcs, dcase{append([]string{}, p...), a})
			}
			return
		}
		for _, k := range kinds {
			gen(append(p, k))
		}
	}
	gen(nil)
	c.Par(len(dcs), func(i int) {
		k := dcs[i]
		dir := filepath.Join(c.Scratch, fmt.Sprintf("dc%d", i))
		f := map[string]string{"a.h": "#define vk_x 1\n", "sub/lib/other.yml": "GENERATOR: {PackageName: other}\nPARSER: {SourcesPaths: [a.h]}\n"}
		want := ""
		for ci, cd := range cands {
			switch k.st[ci] {
			case "file":
				f["sub/lib/"+cd] = fmt.Sprintf("GENERATOR: {PackageName: pk%d}\nPARSER: {SourcesPaths: [a.h]}\nTRANSLATOR: {Rules: {global: [{action: accept, from: ^vk}]}}\n", ci)
				if want == "" {
					want = fmt.Sprintf("pk%d", ci)
				}
			case "dir":
				os.MkdirAll(filepath.Join(dir, "sub/lib", cd), 0755)
			}
		}
		arg := strings.Replace(k.arg, "%abs", dir, 1)
		j := &Job{Dir: dir, Files: f, Argv: []string{"-fancy=false", "-nostamp", "-out", "out", arg}}
		r := c.Run(j)
		key := fmt.Sprintf("directory %s with %v = %v", k.arg, cands, k.st)
		c.EvalN(1)
		c.Distinct(key)
		pkgs := map[string]bool{}
		for n := range r.Out {
			pkgs[strings.Split(n, "/")[0]] = true
		}
		got := strings.Join(sortedKeys(pkgs), ",")
		if got != want || (want == "") != (r.Code != 0) || isPanic(r) {
			c.Violate(key, fmt.Sprintf("generated %q, expected %q; exit %d; %s", got, want, r.Code, firstLines(r.Stderr, 3)), withOut(jobFiles(j), r))
		}
		if i%53 == 0 {
			c.Sample(M{"case": key, "chosen": got})
		}
	})
}

func runConfigErrors(c *Ctx) {
	var cases []cliCase
	bad := []string{"(", "[a", "a**", "(?P<x", "a{2,1}", "\\"}
	good := func() M {
		return M{"GENERATOR": M{"PackageName": "p"}, "PARSER": M{"SourcesPaths": L{"a.h"}}, "TRANSLATOR": M{"Rules": M{"global": L{M{"action": "accept", "from": "^vk"}}}}}
	}
	hdr := "#define vk_a 1\nvoid vk_f(int *p);\ntypedef struct { int x; } vk_s;\n"
	add := func(name string, m M, h string) {
		cases = append(cases, cliCase{name: name, fail: true, j: &Job{Files: map[string]string{"a.h": h}, Manifest: m}})
	}
	addRaw := func(name, raw string) {
		cases = append(cases, cliCase{name: name, fail: true, j: &Job{Files: map[string]string{"a.h": hdr, "pkg.yml": raw}}})
	}
	for _, b := range bad {
		for _, t := range []string{"global", "post-global", "const", "type", "function", "public", "private"} {
			for _, a := range []string{"accept", "ignore", "replace", "doc", ""} {
				for pos := 0; pos < 2; pos++ {
					m := good()
					r := m["TRANSLATOR"].(M)["Rules"].(M)
					bd := M{"from": b, "transform": "lower"}
					if a != "" {
						bd = M{"action": a, "from": b, "to": "x"}
					}
					l, _ := r[t].(L)
					if pos == 0 {
						l = append(L{bd}, l...)
					} else {
						l = append(append(L{}, l...), M{"action": "accept", "from": "^zz"}, bd)
					}
					r[t] = l
					add(fmt.Sprintf("bad regexp %q in a %s rule of %s, position %d", b, a, t, pos), m, hdr)
				}
			}
		}
		for _, s := range []string{"PtrTips", "TypeTips"} {
			for _, sc := range []string{"any", "struct", "type", "enum", "function"} {
				m := good()
				m["TRANSLATOR"].(M)[s] = M{sc: L{M{"target": "^ok", "self": "x"}, M{"target": b, "tips": L{"arr"}}}}
				add(fmt.Sprintf("bad regexp %q in %s/%s", b, s, sc), m, hdr)
			}
		}
		m := good()
		m["TRANSLATOR"].(M)["MemTips"] = L{M{"target": "^ok"}, M{"target": b, "self": "raw"}}
		add(fmt.Sprintf("bad regexp %q in MemTips", b), m, hdr)
		if b != "a{2,1}" && b != "a**" {
			for pos := 0; pos < 2; pos++ {
				m = good()
				v := L{M{"validatefunc": "V", "ret": "nil", "matchedfunc": b}}
				if pos == 1 {
					v = append(L{M{"validatefunc": "V", "ret": "nil", "matchedfunc": "^ok"}}, v...)
				}
				m["TRANSLATOR"].(M)["Validations"] = v
				add(fmt.Sprintf("bad regexp %q in Validations, position %d", b, pos), m, hdr)
			}
		}
	}
	for _, t := range []string{"global", "post-global", "const", "type", "function", "public", "private"} {
		for _, ld := range []string{"nosuchrule", "SnakeCase", "snakecase "} {
			m := good()
			r := m["TRANSLATOR"].(M)["Rules"].(M)
			l, _ := r[t].(L)
			r[t] = append(append(L{}, l...), M{"load": ld})
			add(fmt.Sprintf("unknown builtin %q in %s", ld, t), m, hdr)
		}
	}
	m := good()
	delete(m, "GENERATOR")
	add("no GENERATOR section", m, hdr)
	m = good()
	delete(m["GENERATOR"].(M), "PackageName")
	m["GENERATOR"].(M)["PackageLicense"] = "x"
	add("no PackageName", m, hdr)
	m = good()
	m["GENERATOR"].(M)["PackageName"] = ""
	add("empty PackageName", m, hdr)
	m = good()
	delete(m, "PARSER")
	add("no PARSER section", m, hdr)
	m = good()
	m["PARSER"] = M{"SourcesPaths": L{}}
	add("no sources", m, hdr)
	m = good()
	m["PARSER"] = M{"SourcesPaths": L{"a.h", "gone.h"}}
	add("missing second source", m, hdr)
	m = good()
	m["PARSER"].(M)["Arch"] = "nosucharch"
	add("unknown Arch", m, hdr)
	for _, raw := range []string{"GENERATOR: [", "GENERATOR: {PackageName: p}\nPARSER: {SourcesPaths: a.h: b}\n", "\tGENERATOR: x\n", "GENERATOR: 5\n", "- a\n- b\n", "GENERATOR: {PackageName: [1]}\nPARSER: {SourcesPaths: [a.h]}\n", "GENERATOR: {PackageName: p}\nPARSER: {SourcesPaths: {a: 1}}\n", "GENERATOR: {PackageName: p}\nPARSER: {SourcesPaths: [a.h]}\nTRANSLATOR: {Rules: [x]}\n", "GENERATOR: {PackageName: p}\nPARSER: {SourcesPaths: [a.h]}\nTRANSLATOR: {PtrTips: 4}\n", "", "# nothing\n", "null\n", "GENERATOR:\nPARSER: {SourcesPaths: [a.h]}\n"} {
		addRaw(fmt.Sprintf("manifest %q", raw), raw)
	}
	for _, h := range []string{"int f(;\n", "#include \"gone.h\"\n", "#error stop\n", "#if\n#endif\n", "struct s { int a\n", "typedef foo bar;\n", "int a b;\n", "#if 1\n", "void f(undefined_t x);\n", "\"\n", "enum { A = B };\n", "enum { A = 1/0 };\nint x[A];\n", "}\n", "int x[-1];\n"} {
		add(fmt.Sprintf("header %q", h), good(), "#define vk_a 1\n"+h)
	}
	for _, a := range [][]string{{"gone.yml"}, {}, {"emptydir"}, {"pkg.yml", "gone.yml"}} {
		j := &Job{Files: map[string]string{"a.h": hdr, "emptydir/x": ""}, Manifest: good()}
		j.Argv = append([]string{"-fancy=false", "-out", "out"}, a...)
		cases = append(cases, cliCase{name: fmt.Sprintf("arguments %v", a), fail: true, j: j})
	}
	// the same manifest without the defect works
	cases = append(cases, cliCase{name: "no defect", j: &Job{Files: map[string]string{"a.h": hdr}, Manifest: good()}, consts: []string{"vk_a"}})
	c.runCases(cases)
	// the same defects beside a manifest that is good: the run still fails, and the package of the good one that comes
	// first is complete
	gm := M{"GENERATOR": M{"PackageName": "gd"}, "PARSER": M{"SourcesPaths": L{"gh/gd.h"}}, "TRANSLATOR": M{"Rules": M{"global": L{M{"action": "accept", "from": "^vk"}}}}}
	gf := map[string]string{"gd.yml": string(mustJSON(gm)), "gh/gd.h": "#define vk_gd 1\nvoid vk_g(int *p);\n"}
	ref := c.Run(&Job{Files: gf, Argv: []string{"-fancy=false", "-nostamp", "-out", "out", "gd.yml"}})
	orders := [][]string{{"gd.yml", "pkg.yml"}, {"pkg.yml", "gd.yml"}}
	c.Par(len(cases)*len(orders), func(i int) {
		k, o := cases[i/len(orders)], orders[i%len(orders)]
		if k.j.Argv != nil || !k.fail {
			return
		}
		j := &Job{Manifest: k.j.Manifest, ManifestRaw: k.j.ManifestRaw, Files: map[string]string{}, Argv: append([]string{"-fancy=false", "-nostamp", "-out", "out"}, o...)}
		for n, s := range k.j.Files {
			j.Files[n] = s
		}
		for n, s := range gf {
			j.Files[n] = s
		}
		r := c.Run(j)
		key := fmt.Sprintf("%s, manifests %v", k.name, o)
		c.EvalN(1)
		c.Distinct(key)
		got := map[string]string{}
		for n, s := range r.Out {
			if o[0] == "gd.yml" || !strings.HasPrefix(n, "gd/") {
				got[n] = s
			}
		}
		want := map[string]string{}
		if o[0] == "gd.yml" {
			want = ref.Out
		}
		if d := diffMaps(want, got); r.Code == 0 || r.TO || isPanic(r) || d != "" {
			c.Violate(key, fmt.Sprintf("expected a reported error, and the files of the first manifest only if that is the good one; exit=%d timeout=%v stderr=%s; %s", r.Code, r.TO, firstLines(r.Stderr, 4), d), withOut(jobFiles(j), r))
		}
	})
}
