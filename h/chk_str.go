package main

import (
	_ "embed"
	"os"
	"strings"
)

//go:embed rt/str.go.txt
var rtStrGo string

func init() {
	checks["C24"] = check{"exploration", "a case is one pair of strings taken along every way between Go and C of one configuration; non-trivial = distinct (configuration, way)", runStr}
}

const strHdr = `#include <stddef.h>
typedef struct { int n; const CH *const s; const CH *const u; const CH *const a[2]; } vsm;
void vsp(const CH *s); void vsp2(const CH *s, int n, const CH *t); void vspp(const CH **p, int n); void vsppw(const CH **p, int n); void vspa(const CH *p[2]);
const CH *const vsr(void); void vsmr(vsm *p); void vsmv(vsm v);
typedef int (*vscbt)(const CH *s, const CH *t); int vscb(vscbt f);
`

const strC = `
void *vck_str[4];
void vsp(const CH *s) { vck_s((const char*)s); }
void vsp2(const CH *s, int n, const CH *t) { vck_s((const char*)s); vck_i(n); vck_s((const char*)t); }
void vspp(const CH **p, int n) { for (int i = 0; i < n; i++) vck_s((const char*)p[i]); }
void vsppw(const CH **p, int n) { for (int i = 0; i < n; i++) vck_s((const char*)p[i]); p[0] = vck_str[0]; p[1] = vck_str[1]; }
void vspa(const CH *p[2]) { vck_s((const char*)p[0]); vck_s((const char*)p[1]); }
const CH *const vsr(void) { return vck_str[0]; }
void vck_sread(void *p) { vsm *v = p; vck_s((const char*)v->s); vck_s((const char*)v->u); vck_s((const char*)v->a[0]); vck_s((const char*)v->a[1]); }
void vsmr(vsm *p) { vck_sread(p); }
void vsmv(vsm v) { vck_sread(&v); }
int vscb(vscbt f) { return f(vck_str[0], vck_str[1]); }
void *vck_sobj(void) { vsm *v = vck_arena(sizeof *v); *(void**)&v->s = vck_str[0]; *(void**)&v->u = vck_str[1]; *(void**)&v->a[0] = vck_str[2]; *(void**)&v->a[1] = vck_str[3]; return v; }
void vck_swipe(void *p, unsigned long n) { memset(p, '!', n); }
`

func runStr(c *Ctx) {
	type v struct {
		cfg compCfg
		ch  string
	}
	var use []v
	for _, cfg := range compCfgs() {
		switch cfg.name {
		case "default", "safestrings":
			use = append(use, v{cfg, "char"})
			both := cfg
			both.name += " ustrings"
			both.mod = func(m M) { cfg.mod(m); sub(m, "TRANSLATOR")["ConstUCharIsString"] = true }
			use = append(use, v{both, "unsigned char"})
		case "plain", "named", "arr": // ref does not compile with const char **, see C03
			use = append(use, v{cfg, "char"})
		}
	}
	c.Par(len(use), func(i int) {
		u := use[i]
		r := strings.NewReplacer("CH", u.ch)
		p := &rtPkg{cfg: u.cfg, hdr: r.Replace(strHdr), extraC: r.Replace(strC), extraGo: rtStrGo}
		exe, pk, _ := p.build(c)
		defer os.RemoveAll(pk.Gen.Dir)
		if pk.Code != 0 {
			c.Violate(u.cfg.name+" | build", firstLines(pk.Log, 20), p.files(pk, "build"))
			return
		}
		for _, l := range strings.Split(rtStrGo, "\n") {
			if strings.HasPrefix(l, "\t{\"") {
				c.Distinct(u.cfg.name + l)
			}
		}
		p.run(c, exe, pk, "VCK_MODE=extra")
	})
}
