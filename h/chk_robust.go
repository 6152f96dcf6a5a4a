package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["C04"] = check{"exploration", "a case is one header and manifest given to the command line; non-trivial = distinct cases (every one is another input)", runRobust}
	fastChecks["C04"] = true
}

// crashOf says how a run ended that neither succeeded nor failed with a message.
func crashOf(r *Result) string {
	switch {
	case r.TO:
		return "does not end"
	case strings.Contains(r.Stderr, "panic: ") || strings.Contains(r.Stderr, "fatal error: ") || strings.Contains(r.Stderr, "goroutine 1 ["):
		l := ""
		for _, s := range strings.Split(r.Stderr, "\n") {
			if strings.HasPrefix(s, "panic: ") || strings.HasPrefix(s, "fatal error: ") || strings.Contains(s, "panic: ") {
				l = s
				break
			}
		}
		at := ""
		for _, s := range strings.Split(r.Stderr, "\n") {
			if strings.HasPrefix(s, "\t") && !strings.Contains(s, "/runtime/") && !strings.Contains(s, "panic.go") {
				at = strings.TrimSpace(s)
				break
			}
		}
		return "crashes: " + l + " at " + at
	case r.Code != 0 && r.Code != 1:
		return fmt.Sprintf("ends with status %d: %s", r.Code, firstLines(r.Stderr, 1))
	case r.Code != 0 && strings.TrimSpace(r.Stderr+r.Stdout) == "":
		return fmt.Sprintf("fails with status %d and without a message", r.Code)
	}
	return ""
}

func robustManifest(files ...string) M {
	var src L
	for _, f := range files {
		src = append(src, f)
	}
	return M{"GENERATOR": M{"PackageName": "p", "Includes": src}, "PARSER": M{"SourcesPaths": src},
		"TRANSLATOR": M{"ConstRules": M{"defines": "expand", "enum": "expand"}, "Rules": M{
			"global":      L{M{"action": "accept", "from": "^[a-zA-Z]"}, M{"action": "ignore", "from": "^(unix|linux)"}},
			"post-global": L{M{"transform": "export"}}, "private": L{M{"transform": "unexport"}}}}}
}

type robCase struct {
	key   string
	hdr   string
	parts []string // the header is made of these; a failing header is taken apart
	m     M
	files map[string]string
}

// robustRun runs a case; a crash of a header of several parts is traced to the parts.
func (c *Ctx) robustRun(rc *robCase) {
	j := &Job{Files: map[string]string{"a.h": rc.hdr}, Manifest: rc.m, Timeout: 30 * time.Second, Mem: 2500000}
	for n, s := range rc.files {
		j.Files[n] = s
	}
	if rc.parts != nil {
		j.Files["a.h"] = robustTypes + strings.Join(rc.parts, "\n") + "\n"
	}
	if j.Manifest == nil {
		j.Manifest = robustManifest("a.h")
	}
	r := c.Run(j)
	if r.Code == 0 {
		c.AddExtra("runs that succeeded", 1)
	} else {
		c.AddExtra("runs that failed with a message", 1)
	}
	bad := crashOf(r)
	if rc.key == "manifest" && r.Code != 0 {
		bad = "a valid manifest with every setting is rejected: " + firstLines(r.Stderr, 3)
	}
	if bad == "" && rc.parts != nil && r.Code != 0 && len(rc.parts) > 1 {
		bad = "rejected" // look at the parts alone
	}
	if bad == "" || c.Expired() {
		if rc.parts != nil {
			for _, p := range rc.parts {
				c.Eval(p)
			}
		} else {
			c.Eval(rc.key)
		}
		return
	}
	if len(rc.parts) > 1 {
		h := len(rc.parts) / 2
		c.robustRun(&robCase{key: rc.key, parts: rc.parts[:h], m: rc.m})
		c.robustRun(&robCase{key: rc.key, parts: rc.parts[h:], m: rc.m})
		return
	}
	key := rc.key
	if rc.parts != nil {
		key = rc.parts[0]
	}
	c.Eval(key)
	c.Violate(key, bad, withOut(jobFiles(j), r))
}

const robustTypes = `typedef struct { int a; const char *b; } st;
typedef struct op op;
typedef union { int a; float b; } un;
typedef enum { E0, E1 = 5 } en;
typedef int (*cb)(int a, void *b);
typedef int fn(int a);
typedef unsigned char u8;
typedef void *hnd;
struct tg { int a; };
`

var robustBases = []string{"int", "unsigned char", "const char", "void", "float", "long double", "_Bool", "float _Complex", "st", "op", "un", "en", "cb", "fn", "u8", "hnd", "struct tg", "struct undef", "enum { %A, %B }", "struct { int x; st *y; }", "union { int x; }"}

// robustShapes are all declarators of up to n derivations; %s is the name. The flags say what the outermost
// derivation (the one next to the base type) makes of them.
func robustShapes(n int) []string {
	ops := []string{"(*%s)", "(*const %s)", "%s[2]", "%s[]", "%s(int)", "%s(st *, ...)", "%s(void (*)(int))"}
	cur, out := []string{"%s"}, []string{"%s"}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range cur {
			for _, o := range ops {
				// no functions that return arrays or functions, no arrays of functions
				last := lastOp(s)
				isFn, isArr := strings.Contains(o, "(int)") || strings.Contains(o, "(st") || strings.Contains(o, "(void"), strings.Contains(o, "[")
				if (last == 'f' && (isFn || isArr)) || (last == 'a' && isFn) || (last == 'a' && o == "%s[]") {
					continue
				}
				next = append(next, strings.Replace(o, "%s", "\x00"+s+"\x00", 1))
			}
		}
		out = append(out, next...)
		cur = next
	}
	for i := range out {
		out[i] = strings.ReplaceAll(out[i], "\x00", "")
	}
	return out
}

// lastOp is the outermost derivation of a declarator made by robustShapes: the part around the marked inner one.
func lastOp(s string) byte {
	i := strings.LastIndex(s, "\x00")
	if i < 0 {
		return 0
	}
	t := s[i+1:]
	switch {
	case strings.HasPrefix(t, "["):
		return 'a'
	case strings.HasPrefix(t, "("):
		return 'f'
	}
	return 'p'
}

func robustDecls(depth int) (out []string) {
	n := 0
	for _, s := range robustShapes(depth) {
		for _, b := range robustBases {
			for _, pos := range []string{"extern %;", "typedef %;", "void N(%);", "struct N { %; };", "typedef int (*N)(%);", "FUNC"} {
				n++
				name := fmt.Sprintf("n%d", n)
				x := "x"
				if strings.HasPrefix(pos, "extern") || strings.HasPrefix(pos, "typedef %") || pos == "FUNC" {
					x = name
				}
				if pos == "FUNC" {
					if strings.HasPrefix(s, "%s(") || strings.HasPrefix(s, "%s[") || b == "cb" && s == "%s" {
						continue
					}
					// a function that returns this
					x = name + "(int a)"
					pos = "%;"
				}
				t := strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(pos, "N", name), "%", b+" "+strings.Replace(s, "%s", x, 1)), "%A", name+"A")
				t = strings.ReplaceAll(t, "%B", name+"B")
				out = append(out, t)
			}
		}
	}
	return out
}

// sequences calls f with every sequence of up to n of the k symbols.
func sequences(k, n int, f func([]int)) {
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) > 0 {
			f(append([]int{}, p...))
		}
		if len(p) == n {
			return
		}
		for i := 0; i < k; i++ {
			rec(append(p, i))
		}
	}
	rec(nil)
}

var robustTokens = []string{"int", "typedef", "struct", "enum x", "enum {", "x", "{", "}", "(", ")", ";", "*", "[1]", "="}

var robustLines = []string{"#define", "#define A 1", "#define A(x) x", "#define A A", "#define B A B", "#if", "#if A", "#if 1/0", "#else", "#elif 1", "#endif", "#include", "#include \"b.h\"", "#include \"none.h\"", "#undef A", "#error x", "#line 5", "#pragma once", "#", "/*", "\"", "int A;", "A(", "\\"}

func runRobust(c *Ctx) {
	var cases []*robCase
	count := map[string]int{}
	add := func(part string, rc *robCase) { cases = append(cases, rc); count[part]++ }

	// A. declarators
	depth := 2
	if c.Thorough() {
		depth = 3
	}
	decls := robustDecls(depth)
	var batch []string
	for _, d := range decls {
		if c.IsKnown(d) || robustAlone(d) {
			add("declarations alone", &robCase{parts: []string{d}})
			continue
		}
		batch = append(batch, d)
		if len(batch) == 40 {
			add("headers of 40 declarations", &robCase{parts: batch})
			batch = nil
		}
	}
	add("headers of 40 declarations", &robCase{parts: batch})

	// B. token sequences, C. sequences of lines
	nt, nl := 4, 3
	toks := robustTokens
	lines := robustLines
	if !c.Thorough() {
		nt, nl = 3, 2
	}
	seen := map[string]bool{}
	addTokens := func(toks []string, p []int) {
		var l []string
		for _, i := range p {
			l = append(l, toks[i])
		}
		s := strings.Join(l, " ")
		if starAlone(l) && s != "int * ;" {
			return
		}
		if !seen[s] {
			seen[s] = true
			add("token sequences", &robCase{key: "tokens " + s, hdr: s + "\n"})
		}
	}
	sequences(len(toks), nt, func(p []int) { addTokens(toks, p) })
	few := []string{"int", "typedef", "struct", "x", "{", "}", "(", ";", "*"}
	sequences(len(few), 4, func(p []int) { addTokens(few, p) })
	sequences(len(lines), nl, func(p []int) {
		var l []string
		for _, i := range p {
			l = append(l, lines[i])
		}
		add("line sequences", &robCase{key: "lines " + strings.Join(l, " | "), hdr: strings.Join(l, "\n") + "\n", files: map[string]string{"b.h": "#ifndef B\n#define B 2\nint b;\n#endif\n"}})
	})
	add("line sequences", &robCase{key: "self include", hdr: "#include \"a.h\"\n"})

	// D. every value of a manifest replaced by another kind of value, or left out
	for _, x := range manifestVariants() {
		x := x
		add("manifests", &robCase{key: x.key, hdr: robustTypes + "#define A 1\nint f(const char *s, st *p, int n);\nvoid g(cb f);\n", m: x.m})
	}

	var mu sync.Mutex
	n := 0
	done := c.Par(len(cases), func(i int) {
		c.robustRun(cases[i])
		mu.Lock()
		n++
		mu.Unlock()
	})
	_ = done
	for k, v := range count {
		c.Extra(k, v)
	}
	c.Extra("declarations", len(decls))
	c.Sample(map[string]any{"declarations": decls[len(decls)-3:]})
	c.Sample(map[string]any{"tokens": "typedef struct { ;"})
	c.Assume("a run that takes more than 30 s does not end", "a message is whatever the tool writes to its standard error or output")
}

// starAlone: cc v4 does not end when a declarator has a * and no name. That is a defect of the dependency, with
// one representative in the known findings.
func starAlone(l []string) bool {
	for i, x := range l {
		if x == "*" && (i+1 == len(l) || !strings.Contains("x ( ) *", l[i+1])) {
			return true
		}
	}
	return false
}

// robustAlone tells declarations that end the run (so that the others of a batch need no second run).
func robustAlone(d string) bool { return false }

type manVar struct {
	key string
	m   M
}

// manifestVariants are a manifest with every setting, changed at one place.
func manifestVariants() (out []manVar) {
	full := M{
		"GENERATOR": M{"PackageName": "p", "PackageDescription": "d", "PackageLicense": "l", "PkgConfigOpts": L{"x"},
			"FlagGroups":  L{M{"name": "CFLAGS", "traits": L{"linux"}, "flags": L{"-DX"}}},
			"SysIncludes": L{"stdlib.h"}, "Includes": L{"a.h"}, "Options": M{"SafeStrings": true, "StructAccessors": true, "KeepAlive": true}},
		"PARSER": M{"Arch": "amd64", "IncludePaths": L{"."}, "SysIncludePaths": L{"/usr/include"}, "SourcesPaths": L{"a.h"}, "IgnoredPaths": L{"b.h"}, "Defines": M{"D": 1}},
		"TRANSLATOR": M{"ConstRules": M{"defines": "expand", "enum": "eval"}, "ConstCharIsString": true, "ConstUCharIsString": false,
			"Rules": M{"global": L{M{"action": "accept", "from": "^[a-z]"}, M{"action": "replace", "from": "a", "to": "b"}, M{"transform": "lower"}, M{"load": "snakecase"}},
				"private": L{M{"transform": "unexport"}}, "const": L{M{"action": "accept", "from": "A"}}},
			"PtrTips":     M{"function": L{M{"target": "f", "tips": L{"ref", "arr"}, "self": "ref", "default": "arr"}}, "any": L{M{"target": "g", "default": "sref"}}},
			"TypeTips":    M{"type": L{M{"target": "st", "self": "plain", "tips": L{"named"}, "default": "plain"}}},
			"MemTips":     L{M{"target": "st", "self": "raw"}},
			"Typemap":     M{},
			"LenFields":   M{"st.a": "b"},
			"Validations": L{M{"validatefunc": "V", "ret": "1", "matchedfunc": "^f"}}},
	}
	junk := []any{nil, "", "x", "(", 0, -1, 1.5, true, L{}, M{}, L{nil}, L{L{}}, L{M{}}, M{"x": nil}, M{"": L{}}, "\u0000", strings.Repeat("9", 400)}
	var walk func(path string, get func(M) any, set func(M, any), del func(M))
	clone := func() M {
		b, _ := json.Marshal(full)
		var m M
		json.Unmarshal(b, &m)
		return m
	}
	walk = func(path string, get func(M) any, set func(M, any), del func(M)) {
		for i, v := range junk {
			m := clone()
			if set != nil {
				set(m, v)
				out = append(out, manVar{fmt.Sprintf("manifest %s = junk %d", path, i), m})
			}
		}
		if del != nil {
			m := clone()
			del(m)
			out = append(out, manVar{"manifest without " + path, m})
		}
		switch v := get(full).(type) {
		case M:
			var ks []string
			for k := range v {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				k := k
				walk(path+"/"+k, func(m M) any { x, _ := get(m).(M); return x[k] },
					func(m M, v any) { get(m).(M)[k] = v }, func(m M) { delete(get(m).(M), k) })
			}
		case L:
			for i := range v {
				i := i
				walk(fmt.Sprintf("%s/%d", path, i), func(m M) any { x, _ := get(m).(L); return x[i] },
					func(m M, v any) { get(m).(L)[i] = v }, nil)
			}
		}
	}
	out = append(out, manVar{"manifest", clone()})
	walk("", func(m M) any { return m }, nil, nil)
	_ = os.Stderr
	return out
}
