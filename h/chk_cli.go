package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func vkRules() M {
	return M{"global": L{M{"action": "accept", "from": "^(vk|VK)"}}}
}

// constSet returns the names of generated constants starting with vk.
func vkConsts(r *Result) string {
	var l []string
	for _, k := range parseOut(r.Out).Consts() {
		if strings.HasPrefix(k.Name, "vk") {
			l = append(l, k.Name)
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

type cliCase struct {
	name    string
	j       *Job
	fail    bool     // the run must fail with a message and write nothing
	consts  []string // else: exactly these vk* constants
	dirs    []string
	errHas  string
	trivial bool
}

func (c *Ctx) runCases(cases []cliCase) {
	c.Extra("cases_planned", int64(len(cases)))
	n := c.Par(len(cases), func(i int) {
		k := cases[i]
		k.j.Dir = filepath.Join(c.Scratch, fmt.Sprintf("case%d", i))
		for _, d := range k.dirs {
			os.MkdirAll(filepath.Join(k.j.Dir, d), 0755)
		}
		r := c.Run(k.j)
		c.EvalN(1)
		if !k.trivial {
			c.Distinct(k.name)
		}
		if k.fail {
			if r.TO || r.Code == 0 || len(strings.TrimSpace(r.Stderr)) == 0 || isPanic(r) || len(r.Out) > 0 {
				c.Violate(k.name, fmt.Sprintf("expected a reported error and no output; exit=%d timeout=%v stderr=%s files=%v", r.Code, r.TO, firstLines(r.Stderr, 4), r.Sorted()), withOut(jobFiles(k.j), r))
			} else if k.errHas != "" && !strings.Contains(r.Stderr, k.errHas) {
				c.Violate(k.name, fmt.Sprintf("the error does not name %q: %s", k.errHas, firstLines(r.Stderr, 4)), withOut(jobFiles(k.j), r))
			}
			return
		}
		sort.Strings(k.consts)
		want := strings.Join(k.consts, " ")
		if got := vkConsts(r); r.Code != 0 || got != want {
			c.Violate(k.name, fmt.Sprintf("exit %d; selected %q, expected %q; stderr: %s", r.Code, got, want, firstLines(r.Stderr, 4)), withOut(jobFiles(k.j), r))
		}
		if i%97 == 0 {
			c.Sample(M{"case": k.name, "outcome": want, "fails": k.fail})
		}
	})
	c.Extra("cases_run", int64(n))
}

var panicRx = regexp.MustCompile(`(?m)^(panic:|fatal error:|goroutine \d+ \[)`)

func isPanic(r *Result) bool { return panicRx.MatchString(r.Stderr) || r.Code == 2 || r.Code < 0 }

func subsets(l []string) [][]string {
	var out [][]string
	for m := 0; m < 1<<len(l); m++ {
		var s []string
		for i, x := range l {
			if m>>i&1 == 1 {
				s = append(s, x)
			}
		}
		out = append(out, s)
	}
	return out
}

func perms(l []string) [][]string {
	if len(l) == 0 {
		return [][]string{{}}
	}
	var out [][]string
	for i := range l {
		rest := append(append([]string{}, l[:i]...), l[i+1:]...)
		for _, p := range perms(rest) {
			out = append(out, append([]string{l[i]}, p...))
		}
	}
	return out
}

// all orderings of all subsets
func arrangements(l []string) [][]string {
	var out [][]string
	for _, s := range subsets(l) {
		out = append(out, perms(s)...)
	}
	return out
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func toL(l []string) L {
	o := L{}
	for _, x := range l {
		o = append(o, x)
	}
	return o
}

// ---- C16: header search ----

func init() {
	checks["C16"] = check{"exploration", "a case is one placement of a header in a subset of the candidate directories x an include list x a way of naming it; non-trivial = at least two candidates compete or none exists", runSources}
}

func runSources(c *Ctx) {
	var cases []cliCase
	mark := func(loc string) string {
		return "#define vk_at_" + strings.NewReplacer("/", "_", ".", "cwd").Replace(loc) + " 1\n"
	}
	id := func(loc string) string { return "vk_at_" + strings.NewReplacer("/", "_", ".", "cwd").Replace(loc) }
	argv := func(extra ...string) []string {
		return append(append([]string{"-fancy=false", "-nostamp", "-out", "out"}, extra...), "m/pkg.yml")
	}
	manifest := func(p M) string {
		return string(mustJSON(M{"GENERATOR": M{"PackageName": "p"}, "PARSER": p, "TRANSLATOR": M{"Rules": vkRules()}}))
	}
	incs := arrangements([]string{"inc1", "inc2"})
	incs = append(incs, []string{"nowhere", "inc2", "inc1"}, []string{"inc1/", "./inc2"}, []string{"inc1", "inc2", "inc1"})
	// 1. a relative source
	for _, name := range []string{"s.h", "sub/s.h"} {
		for _, at := range subsets([]string{".", "inc1", "inc2", "m"}) {
			for _, inc := range incs {
				files := map[string]string{"m/pkg.yml": manifest(M{"SourcesPaths": L{name}, "IncludePaths": toL(inc)})}
				for _, a := range at {
					files[a+"/"+name] = mark(a)
				}
				found := ""
				for _, d := range append(append([]string{"."}, inc...), "m") {
					d = filepath.Clean(d)
					if has(at, d) {
						found = d
						break
					}
				}
				k := cliCase{name: fmt.Sprintf("source %s present in %v, include paths %v", name, at, inc), j: &Job{Files: files, Argv: argv()}, fail: found == "", trivial: len(at) == 1}
				if found == "" {
					k.errHas = name
				} else {
					k.consts = []string{id(found)}
				}
				cases = append(cases, k)
			}
		}
	}
	// 2. a quoted include from a header that lies in d/
	for _, name := range []string{"t.h", "sub/t.h"} {
		for _, at := range subsets([]string{".", "d", "inc1", "inc2", "m"}) {
			for _, inc := range incs {
				files := map[string]string{
					"m/pkg.yml": manifest(M{"SourcesPaths": L{"d/s.h"}, "IncludePaths": toL(inc)}),
					"d/s.h":     "#include \"" + name + "\"\n",
				}
				for _, a := range at {
					files[a+"/"+name] = mark(a)
				}
				found := ""
				for _, d := range append(append([]string{"d"}, inc...), "m") {
					d = filepath.Clean(d)
					if has(at, d) {
						found = d
						break
					}
				}
				k := cliCase{name: fmt.Sprintf("quoted include %s present in %v, include paths %v", name, at, inc), j: &Job{Files: files, Argv: argv()}, fail: found == "", trivial: len(at) == 1}
				if found == "" {
					k.errHas = name
				} else {
					k.consts = []string{id(found)}
				}
				cases = append(cases, k)
			}
		}
	}
	// 3. an angle include: the system include paths only, in order
	for _, at := range subsets([]string{".", "d", "inc1", "sys1", "sys2", "m"}) {
		for _, sys := range arrangements([]string{"sys1", "sys2"}) {
			files := map[string]string{
				"m/pkg.yml": manifest(M{"SourcesPaths": L{"d/s.h"}, "IncludePaths": L{"inc1"}, "SysIncludePaths": toL(sys)}),
				"d/s.h":     "#include <vkt.h>\n",
			}
			for _, a := range at {
				files[a+"/vkt.h"] = mark(a)
			}
			found := ""
			for _, d := range sys {
				if has(at, d) {
					found = d
					break
				}
			}
			k := cliCase{name: fmt.Sprintf("angle include present in %v, sys include paths %v", at, sys), j: &Job{Files: files, Argv: argv()}, fail: found == "", trivial: len(at) == 1}
			if found == "" {
				k.errHas = "vkt.h"
			} else {
				k.consts = []string{id(found)}
			}
			cases = append(cases, k)
		}
	}
	// 4. several sources: every one contributes, whatever the order; one missing one fails the run
	locs := map[string]string{"a.h": "vk_a", "d/b.h": "vk_b", "inc1/c.h": "vk_c", "d/e.h": "vk_e"}
	for _, order := range arrangements([]string{"a.h", "d/b.h", "c.h", "e.h", "missing.h", "adir"}) {
		if len(order) == 0 {
			continue
		}
		if !c.Thorough() && len(order) > 4 {
			continue
		}
		files := map[string]string{"m/pkg.yml": manifest(M{"SourcesPaths": toL(order), "IncludePaths": L{"inc1", "d"}})}
		for f, n := range locs {
			files[f] = "#define " + n + " 1\n"
		}
		k := cliCase{name: fmt.Sprintf("sources %v", order), j: &Job{Files: files, Argv: argv()}, dirs: []string{"adir"}}
		for _, o := range order {
			switch o {
			case "missing.h":
				k.fail, k.errHas = true, "missing.h"
			case "adir":
			default:
				k.consts = append(k.consts, map[string]string{"a.h": "vk_a", "d/b.h": "vk_b", "c.h": "vk_c", "e.h": "vk_e"}[o])
			}
		}
		cases = append(cases, k)
	}
	// 4b. two sources whose names end alike are two headers, each searched on its own
	for _, pair := range [][]string{{"t.h", "sub/t.h"}, {"sub/t.h", "t.h"}, {"sub/t.h", "sub/sub/t.h"}, {"t.h", "T.h"}, {"t.h", "at.h"}} {
		var all []string
		for _, d := range []string{".", "inc1", "inc2"} {
			all = append(all, d+"/"+pair[0], d+"/"+pair[1])
		}
		for _, at := range subsets(all) {
			files := map[string]string{"m/pkg.yml": manifest(M{"SourcesPaths": toL(pair), "IncludePaths": L{"inc2", "inc1"}})}
			for _, a := range at {
				files[a] = "#define vk_at_" + strings.NewReplacer("/", "_", ".", "_").Replace(a) + " 1\n"
			}
			k := cliCase{name: fmt.Sprintf("sources %v of %v", pair, at), j: &Job{Files: files, Argv: argv()}}
			for _, n := range pair {
				found := ""
				for _, d := range []string{".", "inc2", "inc1"} {
					if has(at, d+"/"+n) {
						found = d + "/" + n
						break
					}
				}
				if found == "" {
					if !k.fail {
						k.fail, k.errHas = true, n
					}
					continue
				}
				k.consts = append(k.consts, "vk_at_"+strings.NewReplacer("/", "_", ".", "_").Replace(found))
			}
			cases = append(cases, k)
		}
	}
	// 5. absolute sources
	for _, order := range arrangements([]string{"a.h", "d/b.h", "missing.h"}) {
		for _, relative := range []string{"", "a.h", "c.h"} {
			if len(order) == 0 {
				continue
			}
			order, relative := order, relative
			dir := filepath.Join(c.Scratch, fmt.Sprintf("case%d", len(cases)))
			var src L
			seen := map[string]bool{}
			k := cliCase{name: fmt.Sprintf("absolute sources %v then relative %q", order, relative)}
			for _, o := range order {
				src = append(src, filepath.Join(dir, o))
				seen[o] = true
				if o == "missing.h" {
					k.fail, k.errHas = true, "missing.h"
				}
			}
			if relative != "" {
				src = append(src, relative)
				seen[map[string]string{"a.h": "a.h", "c.h": "inc1/c.h"}[relative]] = true
			}
			for f := range seen {
				if n := locs[f]; n != "" {
					k.consts = append(k.consts, n)
				}
			}
			files := map[string]string{"m/pkg.yml": manifest(M{"SourcesPaths": src, "IncludePaths": L{"inc1", "d"}})}
			for f, n := range locs {
				files[f] = "#define " + n + " 1\n"
			}
			k.j = &Job{Files: files, Argv: argv()}
			cases = append(cases, k)
		}
	}
	// 6. -ccincl: the host compiler's lists are searched before the manifest's; without the flag they are not searched
	for _, flag := range [][]string{nil, {"-ccincl"}, {"-ccdefs"}, {"-ccdefs", "-ccincl"}} {
		on := has(flag, "-ccincl")
		for _, angle := range []bool{false, true} {
			for _, at := range subsets([]string{"inc1", "host1", "host2", "m"}) {
				for _, inc := range [][]string{{}, {"inc1"}} {
					for _, host := range arrangements([]string{"host1", "host2"}) {
						files := map[string]string{"d/s.h": "#include \"vkt.h\"\n"}
						if angle {
							files["d/s.h"] = "#include <vkt.h>\n"
							files["m/pkg.yml"] = manifest(M{"SourcesPaths": L{"d/s.h"}, "SysIncludePaths": toL(inc)})
						} else {
							files["m/pkg.yml"] = manifest(M{"SourcesPaths": L{"d/s.h"}, "IncludePaths": toL(inc)})
						}
						for _, a := range at {
							files[a+"/vkt.h"] = mark(a)
						}
						q, s := "", ""
						for _, h := range host {
							if angle {
								s += " " + h + "\n"
							} else {
								q += " " + h + "\n"
							}
						}
						files["cpp.sh"] = "#!/bin/sh\ncase \"$*\" in *-dM*) echo '#define VK_HOST 1';; *) cat <<EOF\nignoring nonexistent directory \"/x\"\n#include \"...\" search starts here:\n" + q + "#include <...> search starts here:\n" + s + "End of search list.\nEOF\n;; esac\n"
						search := append([]string{}, inc...)
						if on {
							search = append(append([]string{}, host...), inc...)
						}
						if !angle {
							search = append(search, "m")
						}
						found := ""
						for _, d := range search {
							if has(at, d) {
								found = d
								break
							}
						}
						k := cliCase{name: fmt.Sprintf("flags %v angle=%v present in %v, include paths %v, host paths %v", flag, angle, at, inc, host), j: &Job{Files: files, Argv: argv(flag...), Env: []string{"CPP=" + "./cpp"}}, fail: found == "", trivial: len(at) == 1}
						if found != "" {
							k.consts = []string{id(found)}
						}
						cases = append(cases, k)
					}
				}
			}
		}
	}
	for i := range cases {
		if s, ok := cases[i].j.Files["cpp.sh"]; ok {
			d := filepath.Join(c.Scratch, fmt.Sprintf("case%d", i))
			os.MkdirAll(d, 0755)
			os.WriteFile(filepath.Join(d, "cpp"), []byte(s), 0755)
		}
	}
	c.runCases(cases)
	c.Assume("the host compiler's own include directories (searched first by the C front end) contain none of the header names used")
}
