package main

import (
	"encoding/hex"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- C07: constants keep their C values ----

func init() {
	checks["C07"] = check{"exploration", "a case is one macro, enumeration or const declaration; the oracle is the C compiler; non-trivial = the value is not written literally as a plain decimal", runConsts}
}

type cval struct {
	kind string // i u f d l s
	val  string
}

const cprobe = `#include <stdio.h>
#include <string.h>
#define PI(T,N) static void N(const char*n, T v){printf("%s i %lld\n",n,(long long)v);}
#define PU(T,N) static void N(const char*n, T v){printf("%s u %llu\n",n,(unsigned long long)v);}
PI(char,p_c) PI(signed char,p_sc) PI(short,p_s) PI(int,p_i) PI(long,p_l) PI(long long,p_ll)
PU(unsigned char,p_uc) PU(unsigned short,p_us) PU(unsigned,p_u) PU(unsigned long,p_ul) PU(unsigned long long,p_ull) PU(_Bool,p_b)
static void p_f(const char*n,float v){printf("%s f %a\n",n,(double)v);}
static void p_d(const char*n,double v){printf("%s d %a\n",n,v);}
static void p_ld(const char*n,long double v){printf("%s l %a\n",n,(double)v);}
static void p_str(const char*n,const char*v){printf("%s s ",n);for(;*v;v++)printf("%02x",(unsigned char)*v);printf("\n");}
#define P(n,x) _Generic((x), char:p_c, signed char:p_sc, short:p_s, int:p_i, long:p_l, long long:p_ll, unsigned char:p_uc, unsigned short:p_us, unsigned:p_u, unsigned long:p_ul, unsigned long long:p_ull, _Bool:p_b, float:p_f, double:p_d, long double:p_ld, char*:p_str, const char*:p_str)(n,x);
`

// cEval compiles prelude and prints every (name, expression) pair.
func (c *Ctx) cEval(tag, prelude string, exprs [][2]string) map[string]cval {
	var b strings.Builder
	b.WriteString(cprobe + prelude + "\nint main(){\n")
	for _, e := range exprs {
		fmt.Fprintf(&b, "P(%q,%s)\n", e[0], e[1])
	}
	b.WriteString("return 0;}\n")
	d := filepath.Join(c.Scratch, "ceval-"+tag)
	os.MkdirAll(d, 0755)
	os.WriteFile(filepath.Join(d, "p.c"), []byte(b.String()), 0644)
	_, e, code, _ := runCmd(d, goEnv(), 120*time.Second, "gcc", "-w", "-std=gnu17", "-o", "p", "p.c")
	if code != 0 {
		fatalf("C oracle %s does not compile: %s", tag, firstLines(string(e), 10))
	}
	o, _, code, _ := runCmd(d, goEnv(), 60*time.Second, filepath.Join(d, "p"))
	if code != 0 {
		fatalf("C oracle %s failed", tag)
	}
	os.RemoveAll(d)
	out := map[string]cval{}
	for _, l := range strings.Split(string(o), "\n") {
		f := strings.SplitN(l, " ", 3)
		if len(f) == 3 {
			out[f[0]] = cval{f[1], f[2]}
		}
	}
	return out
}

type goVal struct {
	v    constant.Value
	typ  string
	isV  bool // a variable
	errs []string
}

type noImporter struct{}

func (noImporter) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	return nil, fmt.Errorf("no")
}

// goEval type-checks the generated package (cgo stubbed out) and returns every package-level constant and
// variable, with the errors reported on its line.
func goEval(out map[string]string, files ...string) (map[string]*goVal, []string) {
	fset := token.NewFileSet()
	var fs []*ast.File
	var synt []string
	for _, n := range sortedKeys(out) {
		if !strings.HasSuffix(n, ".go") || !has(files, filepath.Base(n)) {
			continue
		}
		f, err := parser.ParseFile(fset, n, out[n], 0)
		if err != nil {
			synt = append(synt, err.Error())
		}
		if f != nil {
			fs = append(fs, f)
		}
	}
	var errs []types.Error
	conf := types.Config{FakeImportC: true, Importer: noImporter{}, Error: func(e error) { errs = append(errs, e.(types.Error)) }, Sizes: types.SizesFor("gc", "amd64")}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}}
	pkg, _ := conf.Check("p", fset, fs, info)
	res := map[string]*goVal{}
	if pkg == nil {
		return res, synt
	}
	errLine := map[string][]string{}
	for _, e := range errs {
		p := fset.Position(e.Pos)
		k := fmt.Sprintf("%s:%d", p.Filename, p.Line)
		errLine[k] = append(errLine[k], e.Msg)
	}
	for _, n := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(n)
		p := fset.Position(o.Pos())
		k := fmt.Sprintf("%s:%d", p.Filename, p.Line)
		switch x := o.(type) {
		case *types.Const:
			res[n] = &goVal{v: x.Val(), typ: types.TypeString(x.Type(), func(*types.Package) string { return "" }), errs: errLine[k]}
		case *types.Var:
			res[n] = &goVal{isV: true, typ: types.TypeString(x.Type(), func(*types.Package) string { return "" }), errs: errLine[k]}
		}
	}
	return res, synt
}

// sameValue compares a Go constant with what the C compiler printed.
func sameValue(g *goVal, w cval) string {
	if g == nil {
		return "not generated"
	}
	if g.isV {
		return "generated as a variable without a value"
	}
	if len(g.errs) > 0 {
		return "the Go constant does not compile: " + g.errs[0]
	}
	if g.v == nil || g.v.Kind() == constant.Unknown {
		return "no constant value"
	}
	switch w.kind {
	case "s":
		if g.v.Kind() != constant.String || hex.EncodeToString([]byte(constant.StringVal(g.v))) != w.val {
			return fmt.Sprintf("Go value %s, C value bytes %s", g.v, w.val)
		}
	case "i", "u":
		if g.v.Kind() == constant.Bool {
			if constant.BoolVal(g.v) != (w.val == "1") {
				return fmt.Sprintf("Go value %v, C value %s", g.v, w.val)
			}
			return ""
		}
		iv := constant.ToInt(g.v)
		if iv.Kind() != constant.Int || iv.ExactString() != w.val {
			return fmt.Sprintf("Go value %s, C value %s", g.v.ExactString(), w.val)
		}
	default:
		var bf *big.Float
		cf, _ := strconv.ParseFloat(w.val, 64)
		if g.v.Kind() != constant.Float && g.v.Kind() != constant.Int {
			return fmt.Sprintf("Go value %s, C value %s", g.v, w.val)
		}
		if w.kind == "f" {
			f32, _ := constant.Float32Val(g.v)
			if float64(f32) != cf {
				return fmt.Sprintf("Go value %s, C value %s", g.v, w.val)
			}
			return ""
		}
		gf, _ := constant.Float64Val(g.v)
		_ = bf
		if gf != cf && math.Abs(gf-cf) > 0 {
			return fmt.Sprintf("Go value %s (%v), C value %s", g.v, gf, w.val)
		}
	}
	return ""
}

var cBin = []string{"*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"}

func literals() (l []string) {
	ints := map[string][]string{
		"": {"", "u", "U", "l", "L", "ul", "UL", "lu", "LU", "ll", "LL", "ull", "ULL", "llu", "LLU", "uL", "Ul"},
	}
	for _, d := range []string{"0", "1", "7", "10", "255", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807",
		"00", "07", "0777", "017777777777", "037777777777",
		"0x0", "0xe", "0xE", "0xb1", "0xFF", "0XFF", "0XfF", "0xdeadBEEF", "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000", "0x7fffffffffffffff", "0xffffffffffffffff",
		"0b101", "0B101", "0b11111111"} {
		for _, s := range ints[""] {
			l = append(l, d+s)
		}
	}
	for _, d := range []string{"1.0", ".5", "1.", "0.1", "3.14159265358979", "1e5", "1E5", "1e-3", "10E-3", "1.5e+3", "2.5E10", "1e100", "0x1p3", "0x1.8p1", "0X1.8P-2", "0x.8p0", "123456789.125", "0.0", "010.5"} {
		for _, s := range []string{"", "f", "F", "l", "L"} {
			if d == "1e100" && (s == "f" || s == "F") {
				continue
			}
			l = append(l, d+s)
		}
	}
	l = append(l, "'a'", "'Z'", "' '", "'0'", `'\n'`, `'\t'`, `'\\'`, `'\''`, `'"'`, `'\0'`, `'\x41'`, `'\101'`, `'\a'`)
	l = append(l, `"a"`, `""`, `"hello world"`, `"a\nb"`, `"q\"q"`, `"tab\t"`, `"b\\s"`, `"x\x41y"`, `"o\101"`, `"caf\xc3\xa9"`, `"café"`, `"'"`, `"//x"`, `"%d"`, `"a" "b"`)
	return
}

// operators and forms without a Go constant equivalent
var notGoRx = regexp.MustCompile(`&&|\|\||[<>!=]=|!|\?|(^|[^<])<([^<]|$)|(^|[^>])>([^>]|$)|-[0-9(]+[uU]|^\(?-[0-9a-fA-FxX]+[uU]|sizeof|\(int\)|\(unsigned\)|^-0[xX0-9a-fA-F]*[lL]|\(-0`)

func runConsts(c *Ctx) {
	type mcase struct {
		text    string // replacement list; N1, N2 ... are helper macros
		pre     string // extra header text
		prenm   string // extra names to accept, |-separated
		mode    string // "", expand
		key     string
		trivial bool
	}
	var ms []mcase
	lits := literals()
	for _, l := range lits {
		triv := rx(`^[0-9]+$`).MatchString(l)
		ms = append(ms, mcase{text: l, trivial: triv}, mcase{text: "(" + l + ")", trivial: triv})
		if l[0] != '"' {
			// hexadecimal and octal literals of unsigned type: two representatives
			if has([]string{"037777777777", "0xdeadBEEF", "0x80000000", "0xffffffffffffffff", `'\0'`}, l) {
				continue
			}
			if uns := strings.ContainsAny(l, "uU"); !uns || l == "1u" || l == "1UL" {
				ms = append(ms, mcase{text: "-" + l}, mcase{text: "(-" + l + ")"})
			}
			ms = append(ms, mcase{text: "+ " + l})
			if l[0] != '.' && !strings.ContainsAny(l, ".pP") && !(strings.ContainsAny(l, "eE") && !strings.ContainsAny(l, "xX")) {
				ms = append(ms, mcase{text: "~" + l}, mcase{text: "(~" + l + ")"})
			}
		}
	}
	ms = append(ms, mcase{text: "!0"}, mcase{text: "!1"}, mcase{text: "(!5)"}, mcase{text: "~~5"}, mcase{text: "- -5"}, mcase{text: "-~5"}, mcase{text: "1 ? 2 : 3"}, mcase{text: "(0 ? 2 : 3)"}, mcase{text: "((5))"}, mcase{text: "(((1)+(2)))"})
	for _, op := range cBin {
		for _, ab := range [][2]string{{"13", "3"}, {"1", "4"}, {"6", "2"}, {"-9", "2"}, {"0x10", "3"}, {"5", "5"}} {
			if (op == "<<" || op == ">>") && ab[0][0] == '-' {
				continue
			}
			ms = append(ms, mcase{text: ab[0] + " " + op + " " + ab[1]}, mcase{text: "(" + ab[0] + op + ab[1] + ")"}, mcase{text: "((" + ab[0] + ") " + op + " (" + ab[1] + "))"})
		}
	}
	for _, t := range []string{"1.5 + 2", "1/2.0", "7/2*1.0", "1.0*7/2", "(1.5*(2+3))", "1u+2", "1u << 31", "0x80000000u | 1", "~0u", "~0UL", "1UL << 40", "1LL << 62", "5L*3", "(2.5f*2)", "2u - 1u", "5L + 1.5", "'a' + 1", "1 << 3u", "3L << 2L", "2u*3l"} {
		ms = append(ms, mcase{text: t})
	}
	for _, o1 := range cBin {
		for _, o2 := range cBin {
			// values chosen so that the two groupings usually differ
			l, r := leftOK(o1, o2), rightOK(o1, o2)
			if cPrec[o1] >= cPrec[o2] && l || cPrec[o1] < cPrec[o2] && r {
				ms = append(ms, mcase{text: "7 " + o1 + " 2 " + o2 + " 3", key: "precedence " + o1 + " then " + o2})
			}
			if l {
				ms = append(ms, mcase{text: "(7 " + o1 + " 2) " + o2 + " 3"})
			}
			if r {
				ms = append(ms, mcase{text: "7 " + o1 + " (2 " + o2 + " 3)"})
			}
		}
	}
	for _, u := range []string{"-", "~", "!"} {
		for _, op := range cBin {
			if shift := op == "<<" || op == ">>"; shift && u == "!" {
				continue
			} else if !shift {
				if !(u == "!" && (op == "/" || op == "%")) {
					ms = append(ms, mcase{text: "5 " + op + " " + u + "2"})
				}
				ms = append(ms, mcase{text: u + "5 " + op + " 2"})
			}
		}
	}
	// references
	pre := "#define N1 5\n#define N2 (N1 + 1)\n#define N3 N1\n#define N4 2 + 3\n#define N5 (1u << 4)\n#define NS \"str\"\nenum { E0 = 4, E1, E2 = E1 << 2 };\ntypedef unsigned int ty1;\ntypedef signed char ty2;\ntypedef unsigned long long ty3;\ntypedef double ty4;\n"
	nm := "N1|N2|N3|N4|N5|NS|E0|E1|E2|ty1|ty2|ty3|ty4"
	for _, t := range []string{"N1", "(N1)", "-N1", "N1 + N2", "(N1 | N2)", "N3", "N2 << N1", "E0", "E1", "E2", "(E1 | E2)", "E0 + N1", "NS", "N5", "~N1", "N1 * N2", "N4", "N4 * 2", "(N4) * 2", "2 * N4", "N1 << E0", "((N1))",
		"((ty1)5)", "(ty1)5", "((ty1)N1)", "((ty1)-1)", "((ty2)300)", "((ty3)~0)", "((ty1)(1+2))", "((ty4)3)", "((ty1)1 + 2)", "((ty1)1 << 3)", "(ty1)1 + (ty1)2", "((ty1)((1)+(2)))", "((ty3)1 << 40)", "(ty1)(5)", "((ty1)(5) + 1)", "((ty2)(N1))", "((ty1)(N1 + (2)))", "-(ty2)5", "~(ty1)0", "(~(ty1)0)", "((ty1)0x10u)"} {
		ms = append(ms, mcase{text: t, pre: pre, prenm: nm})
	}
	for i := range ms {
		if ms[i].key == "" {
			ms[i].key = "macro " + ms[i].text
		}
	}
	base := len(ms)
	for i := 0; i < base; i++ {
		m := ms[i]
		m.mode = "expand"
		if c.Thorough() || m.pre != "" || i%7 == 0 {
			ms = append(ms, m)
		}
	}
	// the C values of all of them at once
	var prelude strings.Builder
	prelude.WriteString(pre)
	var ex [][2]string
	for i, m := range ms {
		fmt.Fprintf(&prelude, "#define VK%d %s\n", i, m.text)
		ex = append(ex, [2]string{fmt.Sprintf("VK%d", i), fmt.Sprintf("VK%d", i)})
	}
	cv := c.cEval("macros", prelude.String(), ex)
	c.Extra("macros_planned", int64(len(ms)))
	n := c.Par(len(ms), func(i int) {
		m := ms[i]
		w, ok := cv[fmt.Sprintf("VK%d", i)]
		if !ok {
			fatalf("no C value for %s", m.text)
		}
		acc := "^(VK1" + map[bool]string{true: "|" + m.prenm}[m.prenm != ""] + ")$"
		tr := M{"Rules": M{"global": L{M{"action": "accept", "from": acc}}}}
		if m.mode != "" {
			tr["ConstRules"] = M{"defines": m.mode}
		}
		j := &Job{Files: map[string]string{"a.h": m.pre + "#define VK1 " + m.text + "\n"}, Manifest: M{"GENERATOR": M{"PackageName": "p"}, "PARSER": M{"SourcesPaths": L{"a.h"}}, "TRANSLATOR": tr}}
		r := c.Run(j)
		gv, synt := goEval(r.Out, "const.go", "types.go")
		c.EvalN(1)
		if !m.trivial {
			c.Distinct(m.key)
		}
		bad := sameValue(gv["VK1"], w)
		if r.Code != 0 {
			bad = "exit " + fmt.Sprint(r.Code) + ": " + r.Stderr
		} else if len(synt) > 0 {
			bad = "the generated file is not Go: " + synt[0]
		}
		if bad != "" && notGoRx.MatchString(m.text) && (strings.Contains(bad, "does not compile") || strings.Contains(bad, "is not Go")) {
			// comparisons and logic used as integers, conditional expressions and compiler-reported
			// overflow have no Go form: the Go compiler reports them, no value is wrong silently
			c.AddExtra("reported_by_go_compiler", 1)
			bad = ""
		}
		if bad != "" {
			c.Violate(m.key, fmt.Sprintf("#define VK1 %s: %s\nC compiler: %s %s", m.text, bad, w.kind, w.val), withOut(jobFiles(j), r))
		}
		if i%301 == 0 {
			c.Sample(M{"macro": m.text, "c": w.val})
		}
	})
	c.Extra("macros_run", int64(n))
	c.constEnums()
	c.constDecls()
	c.Assume("C values are those of the installed gcc (gnu17, x86-64); expressions with undefined behaviour are left out", "go/types evaluates the generated constants (cgo stubbed)")
}

func (c *Ctx) constEnums() {
	inits := []string{"", "0", "1", "-1", "5", "%A", "%A + 2", "(%A << 1) | 1", "1 << 4", "0x7fffffff", "-0x7fffffff - 1", "'a'", "sizeof(int)", "~0", "0x10u", "MAC"}
	depth := 3
	type en struct {
		members []string
		text    string
	}
	var lists [][]string
	var gen func(p []string)
	gen = func(p []string) {
		if len(p) > 0 {
			lists = append(lists, append([]string{}, p...))
		}
		if len(p) == depth {
			return
		}
		for _, i := range inits {
			if len(p) == 0 && strings.Contains(i, "%A") {
				continue
			}
			if len(p) == depth-1 && !c.Thorough() && (i == "1" || i == "5" || i == "'a'" || i == "0x10u" || i == "sizeof(int)" || i == "~0") {
				continue
			}
			gen(append(p, i))
		}
	}
	gen(nil)
	forms := []string{"anon", "tag", "tdanon", "tdtag", "tdsame"}
	modes := []string{"", "eval", "expand", "cgo"}
	type batch struct {
		hdr      string
		names    []string
		exprs    map[string]string
		form, md string
	}
	var batches []*batch
	n := 0
	var all strings.Builder
	all.WriteString("#define MAC (3 + 4)\n")
	var ex [][2]string
	for fi, form := range forms {
		for mi, md := range modes {
			if !c.Thorough() && (fi+mi)%2 == 1 && md == "eval" {
				continue
			}
			var b *batch
			for li, list := range lists {
				if !c.Thorough() && md != "" && li%3 != 0 && len(list) == depth {
					continue
				}
				if b == nil || len(b.names) > 220 {
					b = &batch{form: form, md: md, exprs: map[string]string{}, hdr: "#define MAC (3 + 4)\n"}
					batches = append(batches, b)
				}
				if j := strings.Join(list, ","); md == "expand" && (strings.Contains(j, "sizeof") || strings.Contains(j, "0x10u") && len(list) > 1) {
					continue // the initializer is copied: it has to be Go
				}
				n++
				var body []string
				overflow := false
				prevMax := false
				for k, in := range list {
					if in == "" && prevMax {
						overflow = true // would exceed int: a different property (C implementation extension)
					}
					prevMax = in == "0x7fffffff" || (prevMax && (in == "%A" || in == ""))
					if strings.Contains(in, "%A +") || strings.Contains(in, "<<") && strings.Contains(in, "%A") {
						// A may be the maximum: arithmetic would overflow
						for _, e := range list[:k] {
							if strings.Contains(e, "7fffffff") {
								overflow = true
							}
							if e == "~0" || e == "-1" {
								overflow = overflow || strings.Contains(in, "<<")
							}
						}
					}
				}
				if overflow {
					continue
				}
				for k, in := range list {
					nm := fmt.Sprintf("vk%d_%c", n, 'A'+k)
					e := nm
					if in != "" {
						prev := fmt.Sprintf("vk%d_%c", n, 'A'+k-1)
						e += " = " + strings.ReplaceAll(in, "%A", prev)
					}
					body = append(body, e)
					b.names = append(b.names, nm)
					b.exprs[nm] = form + " " + md + " enum " + strings.Join(list, ",") + " member " + string(rune('A'+k))
					ex = append(ex, [2]string{nm, nm})
				}
				var t string
				switch form {
				case "anon":
					t = "enum { %s };"
				case "tag":
					t = fmt.Sprintf("enum vkt%d { %%s };", n)
				case "tdanon":
					t = fmt.Sprintf("typedef enum { %%s } vkt%d;", n)
				case "tdtag":
					t = fmt.Sprintf("typedef enum vkg%d { %%s } vkt%d;", n, n)
				case "tdsame":
					t = fmt.Sprintf("typedef enum vkt%d { %%s } vkt%d;", n, n)
				}
				t = fmt.Sprintf(t, strings.Join(body, ", ")) + "\n"
				b.hdr += t
				all.WriteString(t)
			}
		}
	}
	cv := c.cEval("enums", all.String(), ex)
	c.Extra("enums_planned", int64(n))
	c.Par(len(batches), func(i int) {
		b := batches[i]
		tr := M{"Rules": M{"global": L{M{"action": "accept", "from": "^(vk|MAC$)"}}}}
		if b.md != "" {
			tr["ConstRules"] = M{"enum": b.md}
		}
		j := &Job{Files: map[string]string{"a.h": b.hdr}, Manifest: M{"GENERATOR": M{"PackageName": "p"}, "PARSER": M{"SourcesPaths": L{"a.h"}}, "TRANSLATOR": tr}}
		r := c.Run(j)
		gv, synt := goEval(r.Out, "const.go", "types.go")
		if r.Code != 0 || len(synt) > 0 {
			c.Violate(fmt.Sprintf("enum batch %s %s %d", b.form, b.md, i), fmt.Sprintf("exit %d %v %s", r.Code, synt, r.Stderr), withOut(jobFiles(j), r))
			return
		}
		alias := map[string]string{}
		if b.md == "cgo" {
			for _, k := range parseOut(r.Out).Consts() {
				alias[k.Name] = k.Val
			}
		}
		for _, nm := range b.names {
			c.EvalN(1)
			c.Distinct(b.exprs[nm])
			if b.md == "cgo" {
				if alias[nm] != "C."+nm {
					c.Violate(b.exprs[nm], fmt.Sprintf("%s: generated as %q, expected the C constant itself", nm, alias[nm]), withOut(jobFiles(j), r))
				}
				continue
			}
			if bad := sameValue(gv[nm], cv[nm]); bad != "" {
				c.Violate(b.exprs[nm], nm+": "+bad, withOut(jobFiles(j), r))
			}
		}
	})
}

func (c *Ctx) constDecls() {
	var hdr strings.Builder
	type dc struct{ name, text string }
	var ds []dc
	var ex [][2]string
	add := func(t, v string) {
		nm := fmt.Sprintf("vkd%d", len(ds))
		hdr.WriteString(fmt.Sprintf("const %s %s = %s;\n", t, nm, v))
		ds = append(ds, dc{nm, fmt.Sprintf("const %s = %s", t, v)})
		ex = append(ex, [2]string{nm, nm})
	}
	for _, t := range []string{"int", "short", "long", "long long", "unsigned", "unsigned short", "unsigned char", "signed char", "unsigned long", "unsigned long long", "vkint", "vku8"} {
		for _, v := range []string{"0", "1", "42", "127", "0x7f", "'a'", "3 + 4 * 5", "(1 << 4) | 1", "sizeof(int)", "~0", "-1", "300", "0xffffffff", "10L"} {
			add(t, v)
		}
	}
	for _, t := range []string{"float", "double"} {
		for _, v := range []string{"0", "1", "-1", "1.5", "0.5f", "1e10", "3 + 4"} {
			add(t, v)
		}
	}
	add("_Bool", "0")
	add("_Bool", "1")
	add("char", "'a'")
	add("char", "7")
	for _, static := range []string{"", "static "} {
		h := "typedef int vkint;\ntypedef unsigned char vku8;\n" + strings.ReplaceAll(hdr.String(), "const ", static+"const ")
		cv := c.cEval("decls", "typedef int vkint; typedef unsigned char vku8;\n"+hdr.String(), ex)
		j := &Job{Files: map[string]string{"a.h": h}, Manifest: M{"GENERATOR": M{"PackageName": "p"}, "PARSER": M{"SourcesPaths": L{"a.h"}}, "TRANSLATOR": M{"Rules": vkRules()}}}
		r := c.Run(j)
		gv, synt := goEval(r.Out, "const.go", "types.go")
		if r.Code != 0 || len(synt) > 0 {
			c.Violate("const declarations "+static, fmt.Sprintf("exit %d %v %s", r.Code, synt, r.Stderr), withOut(jobFiles(j), r))
			continue
		}
		for _, d := range ds {
			c.EvalN(1)
			c.Distinct(static + d.text)
			if static != "" && gv[d.name] == nil {
				continue // internal linkage: leaving it out is fine
			}
			if bad := sameValue(gv[d.name], cv[d.name]); bad != "" {
				c.Violate("declaration "+static+d.text, d.text+": "+bad, withOut(jobFiles(j), r))
			}
		}
	}
}

// cOp applies a C operator to small ints; ok is false where C leaves the result undefined.
func cOp(a int64, op string, b int64) (int64, bool) {
	t := func(x bool) (int64, bool) {
		if x {
			return 1, true
		}
		return 0, true
	}
	switch op {
	case "*":
		return a * b, true
	case "/", "%":
		if b == 0 {
			return 0, false
		}
		if op == "/" {
			return a / b, true
		}
		return a % b, true
	case "+":
		return a + b, true
	case "-":
		return a - b, true
	case "<<", ">>":
		if b < 0 || b > 30 || a < 0 {
			return 0, false
		}
		if op == "<<" {
			return a << b, a<<b < 1<<31
		}
		return a >> b, true
	case "<":
		return t(a < b)
	case ">":
		return t(a > b)
	case "<=":
		return t(a <= b)
	case ">=":
		return t(a >= b)
	case "==":
		return t(a == b)
	case "!=":
		return t(a != b)
	case "&":
		return a & b, true
	case "^":
		return a ^ b, true
	case "|":
		return a | b, true
	case "&&":
		return t(a != 0 && b != 0)
	}
	return t(a != 0 || b != 0)
}

var cPrec = map[string]int{"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}

func leftOK(o1, o2 string) bool {
	v, ok := cOp(7, o1, 2)
	if !ok {
		return false
	}
	_, ok = cOp(v, o2, 3)
	return ok
}

func rightOK(o1, o2 string) bool {
	v, ok := cOp(2, o2, 3)
	if !ok {
		return false
	}
	_, ok = cOp(7, o1, v)
	return ok
}

func floatOf(g *goVal) (float64, bool) {
	if g.v == nil || g.v.Kind() != constant.Float && g.v.Kind() != constant.Int {
		return 0, false
	}
	f, _ := constant.Float64Val(g.v)
	return f, true
}

func sortS(l []string) []string { sort.Strings(l); return l }
