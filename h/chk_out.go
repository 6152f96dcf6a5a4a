package main

import (
	"fmt"
	"go/build"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

func init() {
	checks["C18"] = check{"fault_enumeration", "a case is one set of declaration kinds x mode x package path (file set), one prior state of the output directory, or one fault (obstacle kind) placed on one or two of the outputs; non-trivial = at least one optional file or one fault", runFiles}
	checks["C19"] = check{"exploration", "a case is one license text x description x package path x timestamps x mode; non-trivial = license or description present or timestamps on", runBanner}
	checks["C20"] = check{"exploration", "a case is one combination of flag groups, pkg-config options, system and local includes; non-trivial = at least one is non-empty", runPreamble}
	checks["C26"] = check{"exploration", "a case is one value of -maxmem x one header; non-trivial = the value differs from the default", runMaxMem}
}

var declKinds = []string{"macro", "enum", "constvar", "inttype", "struct", "union", "callback", "func"}
var declText = map[string]string{
	"macro": "#define vk_macro 5\n", "enum": "typedef enum { vk_e1, vk_e2 } vk_enum;\n", "constvar": "static const int vk_unused = 0; const int vk_cv = 4;\n",
	"inttype": "typedef unsigned vk_int;\n", "struct": "typedef struct { int a; char *s; } vk_struct;\n", "union": "typedef union { int i; float f; } vk_union;\n",
	"callback": "typedef int (*vk_cb)(int a);\n", "func": "int vk_fn(int *p, char *s);\n",
}

func declHeader(kinds []string) string {
	s := "#ifndef H\n#define H\n"
	for _, k := range kinds {
		s += declText[k]
	}
	return s + "#endif\n"
}

func wantFiles(kinds []string, doc, nocgo bool, pkgPath string) []string {
	base := filepath.Base(pkgPath)
	var l []string
	if doc {
		l = append(l, "doc.go")
	}
	if has(kinds, "macro") || has(kinds, "enum") || has(kinds, "constvar") {
		l = append(l, "const.go")
	}
	if has(kinds, "inttype") || has(kinds, "struct") || has(kinds, "union") || has(kinds, "callback") {
		l = append(l, "types.go")
	}
	if has(kinds, "struct") || has(kinds, "callback") || has(kinds, "func") && !nocgo {
		l = append(l, "cgo_helpers.go") // Go helpers exist for these
	}
	if !nocgo {
		l = append(l, "cgo_helpers.h", base+".go")
		if has(kinds, "callback") {
			l = append(l, "cgo_helpers.c")
		}
	}
	for i := range l {
		l[i] = filepath.Join(pkgPath, l[i])
	}
	return l
}

func runFiles(c *Ctx) {
	type fcase struct {
		kinds     []string
		nocgo     bool
		lic, desc string
		pkg       string
	}
	man := func(pkg, lic, desc string) M {
		g := M{"PackageName": pkg, "Includes": L{"a.h"}}
		if lic != "" {
			g["PackageLicense"] = lic
		}
		if desc != "" {
			g["PackageDescription"] = desc
		}
		return M{"GENERATOR": g, "PARSER": M{"SourcesPaths": L{"a.h"}}, "TRANSLATOR": M{"Rules": vkRules()}}
	}
	var cs []fcase
	for _, k := range subsets(declKinds) {
		for _, nc := range []bool{false, true} {
			if nc && len(k) > 2 && len(k) < 6 && !c.Thorough() {
				continue
			}
			cs = append(cs, fcase{k, nc, "", "", "p"})
			if len(k) <= 1 || len(k) >= 7 || c.Thorough() {
				cs = append(cs, fcase{k, nc, "L", "", "p"}, fcase{k, nc, "", "D", "p"}, fcase{k, nc, "L", "D", "x/y/p"}, fcase{k, nc, "", "", "x/p"})
			}
		}
	}
	// what each declaration is called in the output and where it must be found (types: types.go and so on)
	where := map[string][2]string{"macro": {"const", "vk_macro"}, "enum": {"const", "vk_e1"}, "constvar": {"const", "vk_cv"}, "inttype": {"types", "vk_int"}, "struct": {"types", "vk_struct"}, "union": {"types", "vk_union"}, "callback": {"types", "vk_cb"}, "func": {"p", "vk_fn"}}
	c.Par(len(cs), func(i int) {
		k := cs[i]
		j := &Job{Files: map[string]string{"a.h": declHeader(k.kinds)}, Manifest: man(k.pkg, k.lic, k.desc)}
		if k.nocgo {
			j.Args = []string{"-nocgo"}
		}
		r := c.Run(j)
		key := fmt.Sprintf("declarations %v nocgo=%v license=%q description=%q package %s", k.kinds, k.nocgo, k.lic, k.desc, k.pkg)
		c.EvalN(1)
		if len(k.kinds) > 0 {
			c.Distinct(key)
		}
		want := wantFiles(k.kinds, k.lic+k.desc != "", k.nocgo, k.pkg)
		if has(k.kinds, "enum") && !has(want, filepath.Join(k.pkg, "types.go")) && has(r.Sorted(), filepath.Join(k.pkg, "types.go")) {
			want = append(want, filepath.Join(k.pkg, "types.go")) // an empty one, for the enum's typedef; harmless
		}
		if d := setDiff(want, r.Sorted()); r.Code != 0 || d != "" {
			c.Violate(key, fmt.Sprintf("exit %d; files: %s; %s", r.Code, d, firstLines(r.Stderr, 3)), withOut(jobFiles(j), r))
			return
		}
		g := parseOut(r.Out)
		if len(g.Errs) > 0 {
			c.Violate(key, "not Go: "+g.Errs[0], withOut(jobFiles(j), r))
		}
		found := map[string]string{}
		for _, x := range g.Consts() {
			found[x.Name] = x.File
		}
		for _, x := range g.Types() {
			found[x.Name] = x.File
		}
		for _, x := range g.Funcs() {
			if x.Recv == "" {
				found[x.Name] = x.File
			}
		}
		for _, dk := range declKinds {
			w := where[dk]
			exp := ""
			if has(k.kinds, dk) && !(k.nocgo && dk == "func") {
				exp = w[0] + ".go"
			}
			if found[w[1]] != exp {
				c.Violate(key, fmt.Sprintf("%s is in %q, expected in %q", w[1], found[w[1]], exp), withOut(jobFiles(j), r))
			}
		}
		for n, s := range r.Out {
			if strings.HasSuffix(n, ".go") && filepath.Base(n) != "cgo_helpers.go" {
				// doc.go needs no cgo; with -nocgo nothing has the preamble
				hasC := strings.Contains(s, "import \"C\"") || strings.Contains(s, "#include")
				if hasC == (k.nocgo || filepath.Base(n) == "doc.go") {
					c.Violate(key, fmt.Sprintf("%s: cgo preamble present=%v", n, hasC), withOut(jobFiles(j), r))
				}
			}
		}
		if i%101 == 0 {
			c.Sample(M{"case": key, "files": r.Sorted()})
		}
	})
	// package paths whose last element collides with a file name of the tool, or is a path
	ref := c.Run(&Job{Dir: filepath.Join(c.Scratch, "ref"), Files: map[string]string{"h/a.h": declHeader(declKinds)}, Manifest: func() M {
		m := man("p", "", "D")
		m["PARSER"].(M)["SourcesPaths"] = L{"h/a.h"}
		return m
	}()})
	for _, p := range []string{"types", "doc", "unions", "cgo_helpers", "x/types", "a/b/c/d", "./q", "q/", "../out/q", "q//r"} {
		m := man(p, "", "D")
		m["PARSER"].(M)["SourcesPaths"] = L{"h/a.h"}
		j := &Job{Files: map[string]string{"h/a.h": declHeader(declKinds)}, Manifest: m}
		r := c.Run(j)
		key := "package path " + p
		c.EvalN(1)
		c.Distinct(key)
		dir := filepath.Clean(filepath.Join("out", p))
		dir, _ = filepath.Rel("out", dir)
		norm := func(out map[string]string, pk, base string) string {
			var l []string
			for _, x := range append(append(append([]string{}, names(parseOut(out), "c")...), names(parseOut(out), "t")...), names(parseOut(out), "f")...) {
				l = append(l, x)
			}
			return strings.Join(l, " ")
		}
		for n := range r.Out {
			if filepath.Dir(n) != dir {
				c.Violate(key, "file outside the package directory: "+n, withOut(jobFiles(j), r))
			}
		}
		if a, b := norm(r.Out, dir, filepath.Base(p)), norm(ref.Out, "p", "p"); a != b || len(r.Out) < len(ref.Out) {
			c.Violate(key, fmt.Sprintf("declares %s\nexpected %s\nfiles %v", a, b, r.Sorted()), withOut(jobFiles(j), r))
		}
	}
	// prior content
	full := wantFiles(declKinds, true, false, "p")
	base := c.Run(&Job{Dir: filepath.Join(c.Scratch, "w0"), Files: map[string]string{"h/a.h": declHeader(declKinds)}, Manifest: func() M {
		m := man("p", "L", "D")
		m["PARSER"].(M)["SourcesPaths"] = L{"h/a.h"}
		return m
	}()})
	if d := setDiff(full, base.Sorted()); d != "" {
		c.Violate("full file set", d, nil)
		return
	}
	mk := func(nc bool) *Job {
		m := man("p", "L", "D")
		m["PARSER"].(M)["SourcesPaths"] = L{"h/a.h"}
		j := &Job{Files: map[string]string{"h/a.h": declHeader(declKinds)}, Manifest: m}
		if nc {
			j.Args = []string{"-nocgo"}
		}
		return j
	}
	prior := []string{"longer", "shorter", "empty", "readonly", "symlink"}
	type pcase struct {
		file, st string
	}
	var ps []pcase
	for _, f := range full {
		for _, s := range prior {
			ps = append(ps, pcase{f, s})
		}
	}
	for _, s := range prior {
		ps = append(ps, pcase{"*", s})
	}
	c.Par(len(ps), func(i int) {
		k := ps[i]
		j := mk(false)
		j.Dir = filepath.Join(c.Scratch, fmt.Sprintf("prior%d", i))
		for _, f := range full {
			if k.file != "*" && k.file != f {
				continue
			}
			p := filepath.Join(j.Dir, "out", f)
			os.MkdirAll(filepath.Dir(p), 0755)
			switch k.st {
			case "longer":
				os.WriteFile(p, []byte(strings.Repeat("garbage ( \n", 20000)), 0644)
			case "shorter":
				os.WriteFile(p, []byte("x"), 0644)
			case "empty":
				os.WriteFile(p, nil, 0644)
			case "readonly":
				os.WriteFile(p, []byte("x"), 0444)
			case "symlink":
				os.WriteFile(filepath.Join(j.Dir, filepath.Base(f)+".target"), []byte("old"), 0644)
				os.Symlink(filepath.Join(j.Dir, filepath.Base(f)+".target"), p)
			}
		}
		os.MkdirAll(filepath.Join(j.Dir, "out/p/sub"), 0755)
		other := map[string]string{"out/p/mine.go": "package p // mine\n", "out/p/sub/types.go": "keep", "out/other.txt": "keep", "out/p/unions.go": "keep"}
		for n, s := range other {
			os.WriteFile(filepath.Join(j.Dir, n), []byte(s), 0644)
		}
		j.Keep = true
		r := c.Run(j)
		got := map[string]string{}
		for _, f := range full {
			b, _ := os.ReadFile(filepath.Join(j.Dir, "out", f))
			got[f] = string(b)
		}
		key := fmt.Sprintf("%s already exists: %s", k.file, k.st)
		c.EvalN(1)
		c.Distinct(key)
		if d := diffMaps(base.Out, got); r.Code != 0 || d != "" {
			c.Violate(key, fmt.Sprintf("exit %d: %s\n%s", r.Code, d, firstLines(r.Stderr, 3)), withOut(jobFiles(j), r))
		}
		for n, s := range other {
			if b, err := os.ReadFile(filepath.Join(j.Dir, n)); err != nil || string(b) != s {
				c.Violate(key, "touched "+n, jobFiles(j))
			}
		}
		os.RemoveAll(j.Dir)
	})
	// faults
	type ft struct {
		kind  string
		files []string
		nocgo bool
		raw   bool // a package whose files cannot be formatted
	}
	var fs []ft
	kinds := []string{"directory", "full", "dangling"}
	for _, nc := range []bool{false, true} {
		for _, raw := range []bool{false, true} {
			fl := wantFiles(declKinds, true, nc, map[bool]string{false: "p", true: "a-b"}[raw])
			for a := range fl {
				for _, k := range kinds {
					fs = append(fs, ft{k, []string{fl[a]}, nc, raw})
					for b := a + 1; b < len(fl); b++ {
						if c.Thorough() || (k == "full" && !nc) {
							fs = append(fs, ft{k, []string{fl[a], fl[b]}, nc, raw})
						}
					}
				}
			}
		}
	}
	for _, k := range []string{"out-file", "pkg-file", "parent-file", "out-dangling"} {
		for _, nc := range []bool{false, true} {
			fs = append(fs, ft{k, nil, nc, false})
		}
	}
	c.Par(len(fs), func(i int) {
		k := fs[i]
		j := mk(k.nocgo)
		j.Dir = filepath.Join(c.Scratch, fmt.Sprintf("fault%d", i))
		os.MkdirAll(j.Dir, 0755)
		if k.raw {
			j.Manifest["GENERATOR"].(M)["PackageName"] = "a-b"
		}
		switch k.kind {
		case "out-file":
			os.WriteFile(filepath.Join(j.Dir, "out"), []byte("x"), 0644)
		case "pkg-file":
			os.MkdirAll(filepath.Join(j.Dir, "out"), 0755)
			os.WriteFile(filepath.Join(j.Dir, "out/p"), []byte("x"), 0644)
		case "parent-file":
			j.Manifest["GENERATOR"].(M)["PackageName"] = "x/y/p"
			os.MkdirAll(filepath.Join(j.Dir, "out/x"), 0755)
			os.WriteFile(filepath.Join(j.Dir, "out/x/y"), []byte("x"), 0644)
		case "out-dangling":
			os.Symlink("/nonexistent/dir", filepath.Join(j.Dir, "out"))
		default:
			for _, f := range k.files {
				p := filepath.Join(j.Dir, "out", f)
				os.MkdirAll(filepath.Dir(p), 0755)
				switch k.kind {
				case "directory":
					os.MkdirAll(p, 0755)
				case "full":
					// a write fails but the file opens; the formatter also reads the .go files
					// beside the one it formats, which must end
					if strings.HasSuffix(p, ".go") && !k.raw {
						os.Symlink("/proc/self/coredump_filter", p)
					} else {
						os.Symlink("/dev/full", p)
					}
				case "dangling":
					os.Symlink("/nonexistent/dir/file", p)
				}
			}
		}
		r := c.Run(j)
		key := fmt.Sprintf("fault %s on %v nocgo=%v unformattable=%v", k.kind, k.files, k.nocgo, k.raw)
		c.EvalN(1)
		c.Distinct(key)
		if r.Code == 0 || r.TO || isPanic(r) || !strings.Contains(r.Stderr, "[ERR]") {
			c.Violate(key, fmt.Sprintf("the failed output is not reported: exit %d timeout %v stderr %s", r.Code, r.TO, firstLines(r.Stderr, 4)), jobFiles(j))
		}
		if i%61 == 0 {
			c.Sample(M{"fault": key, "exit": r.Code, "message": firstLines(r.Stderr, 1)})
		}
	})
	c.Extra("faults", int64(len(fs)))
	// torn writes: the disk takes no more than n bytes of a file
	type torn struct {
		n          int
		nocgo, raw bool
	}
	var ts []torn
	bases := map[torn]map[string]string{}
	for _, v := range []torn{{}, {nocgo: true}, {raw: true}} {
		j := mk(v.nocgo)
		j.Dir = filepath.Join(c.Scratch, fmt.Sprintf("tornbase%d", len(bases)), "w")
		if v.raw {
			j.Manifest["GENERATOR"].(M)["PackageName"] = "a-b"
		}
		out := c.Run(j).Out
		bases[v] = out
		ns, max := map[int]bool{}, 0
		for _, s := range out {
			for d := -3; d <= 1; d++ {
				ns[len(s)+d] = true
			}
			if len(s) > max {
				max = len(s)
			}
		}
		step := 23
		if c.Thorough() {
			step = 1
		}
		for n := 0; n <= max+1; n++ {
			if ns[n] || n%step == 0 || n%512 == 0 {
				ts = append(ts, torn{n, v.nocgo, v.raw})
			}
		}
	}
	c.Par(len(ts), func(i int) {
		k := ts[i]
		j := mk(k.nocgo)
		j.Dir = filepath.Join(c.Scratch, fmt.Sprintf("torn%d", i), "w")
		if k.raw {
			j.Manifest["GENERATOR"].(M)["PackageName"] = "a-b"
		}
		j.FSize = k.n + 1
		r := c.Run(j)
		base := bases[torn{0, k.nocgo, k.raw}]
		cut := false
		for _, s := range base {
			cut = cut || len(s) > k.n
		}
		key := fmt.Sprintf("files end after %d bytes, nocgo=%v unformattable=%v", k.n, k.nocgo, k.raw)
		c.EvalN(1)
		if cut {
			c.Distinct(key)
		}
		switch {
		case cut && (r.Code == 0 || r.TO || isPanic(r) || !strings.Contains(r.Stderr, "[ERR]")):
			c.Violate(key, fmt.Sprintf("a file that was written in part is not reported: exit %d timeout %v stderr %s", r.Code, r.TO, firstLines(r.Stderr, 4)), jobFiles(j))
		case !cut && (r.Code != 0 || diffMaps(base, r.Out) != ""):
			c.Violate(key, fmt.Sprintf("exit %d although every file fits: %s", r.Code, firstLines(r.Stderr, 4)), jobFiles(j))
		}
	})
	c.Extra("torn_writes", int64(len(ts)))
}

func names(g *Gen, what string) []string {
	m := map[string]bool{}
	switch what {
	case "c":
		for _, x := range g.Consts() {
			m[x.Name] = true
		}
	case "t":
		for _, x := range g.Types() {
			m[x.Name] = true
		}
	case "f":
		for _, x := range g.Funcs() {
			m[x.Recv+"."+x.Name] = true
		}
	}
	return sortedKeys(m)
}

func setDiff(want, got []string) string {
	var d []string
	for _, w := range want {
		if !has(got, w) {
			d = append(d, "missing "+w)
		}
	}
	for _, g := range got {
		if !has(want, g) {
			d = append(d, "unexpected "+g)
		}
	}
	return strings.Join(d, ", ")
}

var genRx = regexp.MustCompile(`^// Code generated .* DO NOT EDIT\.$`)
var stampRx = regexp.MustCompile(`generated on (.+)\.$`)

func squash(s string) string { return strings.Join(strings.Fields(s), " ") }

func runBanner(c *Ctx) {
	lics := []string{"", "MIT", "line one\nline two", "a\n\nb", "trailing\n", "100% %s %d\n\\n", "tab\there /* x */", "é © // y", "Code by hand."}
	descs := []string{"", "Package p does things.", "Package p.\n\nSecond paragraph: 50% %v.", "ends */ here", "// slashes", "multi\nline\ntext\n"}
	type bc struct {
		lic, desc, pkg string
		stamp, nocgo   bool
	}
	var cs []bc
	for _, l := range lics {
		for _, d := range descs {
			for _, st := range []bool{false, true} {
				for _, nc := range []bool{false, true} {
					for _, p := range []string{"p", "x/q"} {
						cs = append(cs, bc{l, d, p, st, nc})
					}
				}
			}
		}
	}
	c.Par(len(cs), func(i int) {
		k := cs[i]
		g := M{"PackageName": k.pkg, "Includes": L{"a.h"}}
		if k.lic != "" {
			g["PackageLicense"] = k.lic
		}
		if k.desc != "" {
			g["PackageDescription"] = k.desc
		}
		j := &Job{Files: map[string]string{"a.h": declHeader(declKinds)}, Manifest: M{"GENERATOR": g, "PARSER": M{"SourcesPaths": L{"a.h"}}, "TRANSLATOR": M{"Rules": vkRules()}}, NoStampOff: k.stamp}
		if k.nocgo {
			j.Args = []string{"-nocgo"}
		}
		t0 := time.Now().Add(-time.Second)
		r := c.Run(j)
		t1 := time.Now().Add(time.Second)
		key := fmt.Sprintf("license %q description %q package %s stamp=%v nocgo=%v", k.lic, k.desc, k.pkg, k.stamp, k.nocgo)
		c.EvalN(1)
		if k.lic+k.desc != "" || k.stamp {
			c.Distinct(key)
		}
		bad := func(s string) { c.Violate(key, s, withOut(jobFiles(j), r)) }
		want := wantFiles(declKinds, k.lic+k.desc != "", k.nocgo, k.pkg)
		if d := setDiff(want, r.Sorted()); r.Code != 0 || d != "" {
			bad(fmt.Sprintf("exit %d %s", r.Code, d))
			return
		}
		var licLines []string
		if k.lic != "" {
			for _, x := range strings.Split(k.lic, "\n") {
				licLines = append(licLines, strings.TrimRight("// "+x, " \t"))
			}
		}
		pg := parseOut(r.Out)
		for _, e := range pg.Errs {
			bad("not Go: " + e)
		}
		for n, f := range pg.Files {
			if f.Name.Name != filepath.Base(k.pkg) {
				bad(n + ": package " + f.Name.Name)
			}
		}
		for _, n := range r.Sorted() {
			lines := strings.Split(r.Out[n], "\n")
			for x := range lines {
				lines[x] = strings.TrimRight(lines[x], " \t")
			}
			at := 0
			for at < len(licLines) {
				if at >= len(lines) || lines[at] != licLines[at] {
					bad(fmt.Sprintf("%s does not start with the license (line %d)", n, at+1))
					break
				}
				at++
			}
			if at > 0 {
				if lines[at] != "" {
					bad(n + ": no blank line after the license")
				}
			}
			gen, stamps := 0, 0
			for x, l := range lines {
				isCode := strings.HasPrefix(l, "package ") || strings.HasPrefix(l, "#")
				if isCode {
					break
				}
				if genRx.MatchString(l) {
					gen++
					_ = x
				}
				if m := stampRx.FindStringSubmatch(l); m != nil && strings.HasPrefix(l, "// WARNING") {
					stamps++
					ts, err := time.Parse(time.RFC1123, m[1])
					if err != nil || ts.Before(t0.Truncate(time.Second)) || ts.After(t1) {
						bad(fmt.Sprintf("%s: time stamp %q is not the time of the run", n, m[1]))
					}
				}
			}
			if gen != 1 || !strings.Contains(r.Out[n], "https://git.io/c-for-go") {
				bad(fmt.Sprintf("%s: %d generated-code lines before the code", n, gen))
			}
			if (stamps == 1) != k.stamp {
				bad(fmt.Sprintf("%s: %d time stamps", n, stamps))
			}
			if strings.Contains(r.Out[n], "%!") {
				bad(n + ": formatting artifact")
			}
		}
		if f := pg.Files["doc.go"]; f != nil {
			var got string
			if f.Doc != nil {
				got = f.Doc.Text()
			}
			if squash(got) != squash(strings.ReplaceAll(k.desc, "*/", "* /")) {
				bad(fmt.Sprintf("package documentation %q", got))
			}
		}
		if i%89 == 0 {
			c.Sample(M{"case": key, "files": len(r.Out)})
		}
	})
}

func runPreamble(c *Ctx) {
	groups := []M{
		{"name": "CFLAGS", "flags": L{"-DVK=1", "-Iinc"}},
		{"name": "LDFLAGS", "flags": L{"-lm"}},
		{"name": "CFLAGS", "traits": L{"linux"}, "flags": L{"-DLIN"}},
		{"name": "LDFLAGS", "traits": L{"linux,amd64", "darwin"}, "flags": L{"-lz", "-ldl"}},
		{"name": "CPPFLAGS", "traits": L{"windows"}, "flags": L{"-DWIN"}},
		{"name": "CFLAGS", "flags": L{}},
		{"name": "", "flags": L{"-DNONAME"}},
		{"name": "CFLAGS", "traits": L{}, "flags": L{"-DTAIL=\"x\"", "-std=c99"}},
	}
	type pc struct {
		groups   []int
		pkg      []string
		sys, inc []string
	}
	var cs []pc
	idx := []string{"0", "1", "2", "3", "4", "5", "6", "7"}
	maxG := 2
	if c.Thorough() {
		maxG = 3
	}
	sysl := [][]string{{}, {"stdint.h"}, {"stdlib.h"}, {"stdio.h", "stdlib.h"}, {"sys/types.h", "stdio.h"}, {"xstdlib.h", "sub/stdlib.h"}}
	incl := [][]string{{}, {"a.h"}, {"a.h", "d/b.h"}, {"d/b.h", "a.h", "stdlib.h"}}
	for _, s := range arrangements(idx) {
		if len(s) > maxG {
			continue
		}
		var g []int
		for _, x := range s {
			g = append(g, int(x[0]-'0'))
		}
		for si, sy := range sysl {
			for ii, in := range incl {
				if len(g) > 1 && (si+ii+g[0]+3*g[1])%6 != 0 && !c.Thorough() {
					continue
				}
				cs = append(cs, pc{g, nil, sy, in})
			}
		}
	}
	for _, p := range [][]string{{"vka"}, {"vka", "vkb"}, {"--static", "vka"}, {"vkb", "vka >= 1"}} {
		for _, sy := range sysl {
			for _, in := range incl {
				for g := -1; g < len(groups); g++ {
					k := pc{nil, p, sy, in}
					if g >= 0 {
						k.groups = []int{g}
					}
					cs = append(cs, k)
				}
			}
		}
	}
	pcdir := filepath.Join(c.Scratch, "pc")
	os.MkdirAll(pcdir, 0755)
	for _, n := range []string{"vka", "vkb"} {
		os.WriteFile(filepath.Join(pcdir, n+".pc"), []byte("Name: "+n+"\nDescription: d\nVersion: 1.0\nCflags: -I/nonexistent\nLibs: -l"+n+"\n"), 0644)
	}
	c.Par(len(cs), func(i int) {
		k := cs[i]
		g := M{"PackageName": "p", "PkgConfigOpts": toL(k.pkg), "SysIncludes": toL(k.sys), "Includes": toL(k.inc)}
		var fg L
		for _, x := range k.groups {
			fg = append(fg, groups[x])
		}
		g["FlagGroups"] = fg
		j := &Job{Files: map[string]string{"a.h": declHeader(declKinds)}, Manifest: M{"GENERATOR": g, "PARSER": M{"SourcesPaths": L{"a.h"}}, "TRANSLATOR": M{"Rules": vkRules()}}, Env: []string{"PKG_CONFIG_PATH=" + pcdir}}
		j.Keep = true
		r := c.Run(j)
		defer os.RemoveAll(r.Dir)
		key := fmt.Sprintf("groups %v pkg-config %v sys %v includes %v", k.groups, k.pkg, k.sys, k.inc)
		c.EvalN(1)
		if len(k.groups)+len(k.pkg)+len(k.sys)+len(k.inc) > 0 {
			c.Distinct(key)
		}
		bad := func(s string) { c.Violate(key, s, withOut(jobFiles(j), r)) }
		var wantInc []string
		for _, s := range k.sys {
			wantInc = append(wantInc, "<"+s+">")
		}
		for _, s := range k.inc {
			wantInc = append(wantInc, "\""+s+"\"")
		}
		if !has(k.sys, "stdlib.h") {
			wantInc = append(wantInc, "<stdlib.h>")
		}
		var wantCgo []string
		if len(k.pkg) > 0 {
			wantCgo = append(wantCgo, "#cgo pkg-config: "+strings.Join(k.pkg, " "))
		}
		eff := map[string][]string{}
		for _, x := range k.groups {
			gr := groups[x]
			name := gr["name"].(string)
			fl, _ := gr["flags"].(L)
			if name == "" || len(fl) == 0 {
				continue
			}
			var fs, ts []string
			for _, f := range fl {
				fs = append(fs, f.(string))
			}
			tr, _ := gr["traits"].(L)
			for _, t := range tr {
				ts = append(ts, t.(string))
			}
			if len(ts) > 0 {
				wantCgo = append(wantCgo, "#cgo "+strings.Join(ts, " ")+" "+name+": "+strings.Join(fs, " "))
			} else {
				wantCgo = append(wantCgo, "#cgo "+name+": "+strings.Join(fs, " "))
			}
			if len(ts) == 0 || strings.HasPrefix(ts[0], "linux") {
				for _, f := range fs {
					eff[name] = append(eff[name], strings.ReplaceAll(strings.ReplaceAll(f, "\"", ""), "-Iinc", "-I"+filepath.Join(r.Dir, "out/p/inc")))
				}
			}
		}
		get := func(s string) (inc, cgo []string) {
			for _, l := range strings.Split(s, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "#include ") {
					inc = append(inc, strings.TrimPrefix(l, "#include "))
				}
				if strings.HasPrefix(l, "#cgo") {
					cgo = append(cgo, l)
				}
			}
			return
		}
		pg := parseOut(r.Out)
		if len(pg.Errs) > 0 || len(pg.Files) != 4 {
			bad(fmt.Sprintf("exit %d files %d %v", r.Code, len(pg.Files), pg.Errs))
			return
		}
		for _, n := range []string{"const.go", "types.go", "p.go", "cgo_helpers.go"} {
			src := pg.Src[n]
			// the preamble is the comment directly above import "C"
			at := strings.Index(src, "import \"C\"")
			if at < 0 {
				bad(n + " does not import C")
				continue
			}
			pre := src[:at]
			if !strings.HasSuffix(pre, "*/\n") || strings.Count(pre, "/*") != 1 {
				bad(n + ": preamble not attached to import \"C\"")
			}
			inc, cgo := get(pre)
			if fmt.Sprint(inc) != fmt.Sprint(append(append([]string{}, wantInc...), "\"cgo_helpers.h\"")) {
				bad(fmt.Sprintf("%s: includes %v, expected %v and cgo_helpers.h", n, inc, wantInc))
			}
			if strings.Join(cgo, "\n") != strings.Join(wantCgo, "\n") {
				bad(fmt.Sprintf("%s: cgo directives %q, expected %q", n, cgo, wantCgo))
			}
		}
		if inc, _ := get(r.Out["p/cgo_helpers.h"]); fmt.Sprint(inc) != fmt.Sprint(wantInc) {
			bad(fmt.Sprintf("cgo_helpers.h: includes %v, expected %v", inc, wantInc))
		}
		if !strings.Contains(r.Out["p/cgo_helpers.h"], "#pragma once") {
			bad("cgo_helpers.h can be included twice")
		}
		if inc, _ := get(r.Out["p/cgo_helpers.c"]); !has(inc, "\"_cgo_export.h\"") || !has(inc, "\"cgo_helpers.h\"") {
			bad(fmt.Sprintf("cgo_helpers.c: includes %v", inc))
		}
		// what the go tool makes of it
		if len(k.pkg) == 0 && !has(wantCgo, "") {
			ctx := build.Default
			ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = "linux", "amd64", true
			p, err := ctx.ImportDir(filepath.Join(r.Dir, "out/p"), 0)
			if err != nil {
				bad("the go tool rejects the package: " + err.Error())
			} else {
				chk := func(n string, got []string) {
					// each of the four files repeats the flags
					var w []string
					for x := 0; x < 4; x++ {
						w = append(w, eff[n]...)
					}
					if strings.Join(got, " ") != strings.ReplaceAll(strings.Join(w, " "), "", "") {
						bad(fmt.Sprintf("effective %s %q, expected %q", n, got, w))
					}
				}
				chk("CFLAGS", p.CgoCFLAGS)
				chk("LDFLAGS", p.CgoLDFLAGS)
				chk("CPPFLAGS", p.CgoCPPFLAGS)
			}
		}
		if i%211 == 0 {
			c.Sample(M{"case": key, "directives": wantCgo, "includes": wantInc})
		}
	})
}

var memRx = regexp.MustCompile(`0x[0-9a-f]fffffff\b`)

func runMaxMem(c *Ctx) {
	hdrs := map[string]string{
		"slices":   "int *vk_f(int **a, char **s);\ntypedef struct vk_s { int *p; char **n; struct vk_s *l; struct vk_s **ll; float f[3]; int *q; int cnt; } vk_s;\nvk_s *vk_g(vk_s *s, vk_s **t, vk_s ***u);\nunsigned *vk_h(void);\n",
		"callback": "typedef int (*vk_cb)(int *a, char **b, int n);\nvoid vk_f(vk_cb cb);\n",
		"plain":    "int vk_f(int a);\n#define vk_x 1\n",
	}
	valid := []string{}
	for _, d := range "123456789abcdef" {
		valid = append(valid, "0x"+string(d)+"fffffff")
	}
	invalid := []string{"", "0", "0x0fffffff", "0x10000000", "0X1fffffff", "0x1FFFFFFF", "0xffffffffff", "1fffffff", "0x7ffffff", "garbage", "-1", "0x1fffffff ", "2147483647"}
	tips := []M{nil, {"function": L{M{"target": "vk_", "self": "arr", "default": "arr"}}}}
	opts := []M{nil, {"StructAccessors": true, "SafeStrings": true}}
	for _, hn := range sortedKeys(hdrs) {
		for ti, t := range tips {
			for oi, o := range opts {
				tr := M{"Rules": vkRules(), "LenFields": M{"vk_s.q": "cnt"}}
				if t != nil {
					tr["PtrTips"] = t
				}
				g := M{"PackageName": "p", "Includes": L{"h/a.h"}}
				if o != nil {
					g["Options"] = o
				}
				m := M{"GENERATOR": g, "PARSER": M{"SourcesPaths": L{"h/a.h"}}, "TRANSLATOR": tr}
				run := func(spec *string) (*Job, *Result) {
					j := &Job{Files: map[string]string{"h/a.h": hdrs[hn]}, Manifest: m}
					if spec != nil {
						j.Args = []string{"-maxmem=" + *spec}
					}
					return j, c.Run(j)
				}
				_, def := run(nil)
				uses := 0
				for n, s := range def.Out {
					for _, x := range memRx.FindAllString(s, -1) {
						uses++
						if x != "0x7fffffff" {
							c.Violate("default "+hn, n+" uses the bound "+x, nil)
						}
					}
				}
				if hn == "slices" && uses < 4 || hn == "plain" && uses > 0 {
					c.Violate("default "+hn, fmt.Sprintf("the bound is used %d times", uses), nil)
				}
				all := append(append([]string{}, valid...), invalid...)
				c.Par(len(all), func(i int) {
					v := all[i]
					j, r := run(&v)
					key := fmt.Sprintf("-maxmem=%q header %s tips %d options %d", v, hn, ti, oi)
					c.EvalN(1)
					if v != "0x7fffffff" {
						c.Distinct(key)
					}
					want := map[string]string{}
					for n, s := range def.Out {
						if has(valid, v) {
							s = strings.ReplaceAll(s, "0x7fffffff", v)
						}
						want[n] = s
					}
					if d := diffMaps(want, r.Out); r.Code != 0 || d != "" {
						c.Violate(key, fmt.Sprintf("exit %d: %s", r.Code, d), withOut(jobFiles(j), r))
					}
					if i%13 == 0 {
						c.Sample(M{"case": key, "uses": uses})
					}
				})
			}
		}
	}
}
