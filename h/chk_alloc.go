package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

//go:embed rt/alloc.go.txt
var rtAlloc string

func init() {
	checks["C14"] = check{"model_checking", "", runAlloc}
}

// allocSource takes the declarations that make up the allocation map out of generated helpers, with C.free
// replaced by a stand-in.
func allocSource(src string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "cgo_helpers.go", src, 0)
	if err != nil {
		return "", err
	}
	recv := func(fd *ast.FuncDecl) string {
		if fd.Recv == nil {
			return ""
		}
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if i, ok := t.(*ast.Ident); ok {
			return i.Name
		}
		return ""
	}
	byName := map[string][]ast.Decl{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if r := recv(d); r != "" {
				byName[r] = append(byName[r], d)
			} else {
				byName[d.Name.Name] = append(byName[d.Name.Name], d)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					byName[s.Name.Name] = append(byName[s.Name.Name], &ast.GenDecl{Tok: d.Tok, Specs: []ast.Spec{s}})
				case *ast.ValueSpec:
					for _, n := range s.Names {
						byName[n.Name] = append(byName[n.Name], &ast.GenDecl{Tok: d.Tok, Specs: []ast.Spec{s}})
					}
				}
			}
		}
	}
	var out []ast.Decl
	seen := map[string]bool{}
	var need func(n string)
	need = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, d := range byName[n] {
			out = append(out, d)
			ast.Inspect(d, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.SelectorExpr:
					if i, ok := x.X.(*ast.Ident); ok && i.Name == "C" && x.Sel.Name == "free" {
						i.Name, x.Sel.Name = "vckC", "free"
					}
				case *ast.Ident:
					if len(byName[x.Name]) > 0 {
						need(x.Name)
					}
				}
				return true
			})
		}
	}
	need("cgoAllocMap")
	var sb bytes.Buffer
	sb.WriteString("package main\n")
	for _, i := range f.Imports {
		if p, _ := strconv.Unquote(i.Path.Value); p != "C" {
			sb.WriteString("import " + i.Path.Value + "\n")
		}
	}
	sb.WriteString("\ntype vckCT struct{}\nfunc (vckCT) free(p unsafe.Pointer) { vckFree(p) }\nvar vckC vckCT\nvar _ sync.Mutex\n")
	for _, d := range out {
		printer.Fprint(&sb, fset, d)
		sb.WriteString("\n\n")
	}
	// imports that the rest of the file needed
	for p, u := range map[string]string{"fmt": "var _ = fmt.Sprint", "runtime": "var _ = runtime.GC", "unsafe": "var _ unsafe.Pointer"} {
		if strings.Contains(sb.String(), "import \""+p+"\"") {
			sb.WriteString(u + "\n")
		}
	}
	return sb.String(), nil
}

var countRx = regexp.MustCompile(`(?m)^COUNT (\d+) (\d+) (\d+)$`)
var nextRx = regexp.MustCompile(`(?m)^NEXT (\d+)$`)

func runAlloc(c *Ctx) {
	m := stdManifest()
	sub(m, "GENERATOR")["Includes"] = L{"h/a.h"}
	sub(m, "PARSER")["SourcesPaths"] = L{"h/a.h"}
	j := &Job{Files: map[string]string{"h/a.h": "typedef struct { int a; } ast; void af(ast *p, const char **s);\n"}, Manifest: m}
	r := c.Run(j)
	src, err := allocSource(r.Out["main/cgo_helpers.go"])
	if err != nil || !strings.Contains(src, "cgoAllocMap struct") {
		c.Violate("helper", fmt.Sprintf("no allocation map in the generated helpers: %v", err), withOut(jobFiles(j), r))
		return
	}
	dir := filepath.Join(c.Scratch, "alloc")
	os.MkdirAll(filepath.Join(dir, "vsched"), 0755)
	w := func(n, s string) { os.WriteFile(filepath.Join(dir, n), []byte(s), 0644) }
	w("go.mod", "module x\n\ngo 1.17\n")
	w("alloc.go", src)
	w("main.go", rtAlloc)
	w("vsched/vsched.go", vschedSrc)
	w("vsched/race.go", vschedRace)
	w("vsched/norace.go", vschedNoRace)
	ins := filepath.Join(dir, "ins")
	os.MkdirAll(ins, 0755)
	ov, bad, err := instrument(dir, ins, "x")
	if err != nil {
		fatalf("instrumenting the allocation map: %v\n%s", err, src)
	}
	if len(bad) > 0 {
		c.notes = append(c.notes, "not under the scheduler's control: "+strings.Join(bad, ", "))
	}
	bins := map[bool]string{}
	for _, race := range []bool{false, true} {
		bins[race] = filepath.Join(dir, fmt.Sprintf("x%v.exe", race))
		args := []string{"build", "-overlay", ov, "-o", bins[race]}
		if race {
			args = append(args, "-race")
		}
		_, e, code, _ := runCmd(dir, goEnv("GOFLAGS=-buildvcs=false"), 300*time.Second, "go", append(args, ".")...)
		if code != 0 {
			fatalf("building the allocation map: %s", firstLines(string(e), 20))
		}
	}
	type part struct {
		race  bool
		shape string
		i, n  int
	}
	var parts []part
	add := func(race bool, shape string, n int) {
		for i := 0; i < n; i++ {
			parts = append(parts, part{race, shape, i, n})
		}
	}
	add(false, "2-2", 8)
	add(false, "1-1-1", 4)
	add(false, "2-1-1", 32)
	add(true, "1-1", 1)
	add(true, "2-1", 8)
	add(true, "2-2", 16)
	if c.Thorough() {
		add(false, "3-2", 64)
		add(false, "1-1-1-1", 16)
		add(true, "1-1-1", 8)
		add(true, "2-1-1", 64)
		add(false, "2-2-1", 256)
	}
	shapes := map[string]bool{}
	c.Par(len(parts), func(k int) {
		p := parts[k]
		from := 0
		for round := 0; round < 6; round++ {
			o, e, code, to := runCmd(dir, goEnv("GORACE=halt_on_error=1 atexit_sleep_ms=0"), 650*time.Second, bins[p.race], strconv.Itoa(p.i), strconv.Itoa(p.n), p.shape, strconv.Itoa(from))
			for _, f := range rtFail.FindAllStringSubmatch(string(o), -1) {
				key, _ := strconv.Unquote(f[1])
				what, _ := strconv.Unquote(f[2])
				c.Violate(key, what, map[string][]byte{"alloc.go": []byte(src), "main.go": []byte(rtAlloc)})
			}
			if m := countRx.FindStringSubmatch(string(o)); m != nil {
				ex, _ := strconv.ParseInt(m[1], 10, 64)
				tr, _ := strconv.ParseInt(m[2], 10, 64)
				st, _ := strconv.Atoi(m[3])
				c.EvalN(ex)
				c.Validated(ex)
				c.Transition(tr)
				for i := 0; i < st; i++ {
					c.State(fmt.Sprint(p, from, i))
				}
			}
			if strings.Contains(string(e), "WARNING: DATA RACE") {
				at := rtAt.FindAllStringSubmatch(string(e), -1)
				n, _ := strconv.Atoi(at[len(at)-1][1])
				c.Violate(fmt.Sprintf("race in program %d of %s", n, p.shape), raceText(string(e)), map[string][]byte{"alloc.go": []byte(src), "main.go": []byte(rtAlloc), "race.txt": e})
				return
			}
			if strings.Contains(string(o), "\nDONE") {
				return
			}
			if strings.Contains(string(o), "\nTIMEOUT") || to {
				c.exhaustive = false
				return
			}
			m := nextRx.FindStringSubmatch(string(o))
			if m == nil {
				at := rtAt.FindAllStringSubmatch(string(e), -1)
				if len(at) == 0 {
					fatalf("allocation driver: exit %d: %s", code, firstLines(string(e), 10))
				}
				msg := string(e)
				if i := strings.LastIndex(msg, "\n@"); i >= 0 {
					msg = msg[i:]
				}
				n, _ := strconv.Atoi(at[len(at)-1][1])
				c.Violate(fmt.Sprintf("crash in program %d of %s", n, p.shape), firstLines(msg, 6), map[string][]byte{"alloc.go": []byte(src), "main.go": []byte(rtAlloc)})
				from = n + 1
				continue
			}
			from, _ = strconv.Atoi(m[1])
		}
	})
	for _, p := range parts {
		shapes[fmt.Sprintf("%s race=%v", p.shape, p.race)] = true
	}
	c.Extra("programs", sortedKeys(shapes))
	c.Sample(map[string]any{"program": "a.Borrow(b); a.Free || b.Add; b.IsEmpty", "checked": "results are those of some order of the operations, every pointer freed once, no deadlock, no data race"})
}
