package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx carries one check run: what was explored, what was violated, where scratch lives.
type Ctx struct {
	ID      string
	Tier    string
	Seed    int
	Level   string
	Scratch string
	Repo    string
	Verif   string
	Start   time.Time
	Budget  time.Duration
	Bin     string // c-for-go built from Repo
	Fast    bool   // answer go env with GOWORK=off: generated files then carry no imports, which checks of names and values do not need

	mu          sync.Mutex
	evals       int64
	distinct    map[string]struct{}
	states      map[string]struct{}
	transitions int64
	validated   int64
	samples     []any
	extra       map[string]any
	rule        string
	assumptions []string
	exhaustive  bool
	notes       []string

	known      map[string]string // key -> description
	knownHit   map[string]string
	violations []violation
	nviol      int64
	timeouts   int64
}

type violation struct{ key, detail, path string }

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Expired reports whether the internal time budget is used up; the caller stops enumerating.
func (c *Ctx) Expired() bool {
	if time.Since(c.Start) > c.Budget {
		c.mu.Lock()
		c.exhaustive = false
		c.mu.Unlock()
		return true
	}
	return false
}

func (c *Ctx) Eval(key string) {
	atomic.AddInt64(&c.evals, 1)
	if key != "" {
		c.mu.Lock()
		c.distinct[key] = struct{}{}
		c.mu.Unlock()
	}
}
func (c *Ctx) EvalN(n int64) { atomic.AddInt64(&c.evals, n) }
func (c *Ctx) Distinct(key string) {
	c.mu.Lock()
	c.distinct[key] = struct{}{}
	c.mu.Unlock()
}
func (c *Ctx) State(key string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.states[key]; ok {
		return false
	}
	c.states[key] = struct{}{}
	return true
}
func (c *Ctx) Transition(n int64) { atomic.AddInt64(&c.transitions, n) }
func (c *Ctx) Validated(n int64)  { atomic.AddInt64(&c.validated, n) }
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}
func (c *Ctx) Extra(k string, v any) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}
func (c *Ctx) AddExtra(k string, n int64) {
	c.mu.Lock()
	if o, ok := c.extra[k].(int64); ok {
		n += o
	}
	c.extra[k] = n
	c.mu.Unlock()
}
func (c *Ctx) Assume(s ...string) { c.assumptions = append(c.assumptions, s...) }

// Violate records a violation under a stable key naming the failing input / history. Keys listed in
// known_findings.txt are reported as KNOWN-FINDING instead.
func (c *Ctx) Violate(key, detail string, files map[string][]byte) {
	key = strings.ReplaceAll(key, "\n", " ")
	c.mu.Lock()
	defer c.mu.Unlock()
	if d, ok := c.known[key]; ok {
		c.knownHit[key] = d
		return
	}
	c.nviol++
	if len(c.violations) >= maxViol {
		return
	}
	for _, v := range c.violations {
		if v.key == key {
			return
		}
	}
	dir := filepath.Join(c.Verif, "evidence", "replay", fmt.Sprintf("%s-%d", c.ID, len(c.violations)))
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	for n, b := range files {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, b, 0644)
	}
	os.WriteFile(filepath.Join(dir, "WHAT.txt"), []byte("property "+c.ID+"\nkey: "+key+"\n\n"+detail+"\n"), 0644)
	c.violations = append(c.violations, violation{key, detail, dir})
}

func (c *Ctx) finish() int {
	var cov = map[string]any{}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none")
	}
	cov["samples"] = c.samples
	cov["exhaustive"] = c.exhaustive
	if c.Level == "model_checking" {
		cov["states"] = len(c.states)
		cov["transitions"] = c.transitions
		cov["traces_validated_against_impl"] = c.validated
		if c.evals > 0 {
			cov["evaluations"] = c.evals
		}
	} else {
		cov["evaluations"] = c.evals
		cov["distinct_nontrivial"] = len(c.distinct)
		cov["rule"] = c.rule
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "wall_s": time.Since(c.Start).Seconds(), "violations": c.nviol,
	}
	if len(c.assumptions) > 0 {
		ev["assumptions"] = c.assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.Verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(c.Verif, "evidence", c.ID+".json"), append(b, '\n'), 0644)
	keys := make([]string, 0)
	for k := range c.knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, k, c.knownHit[k])
	}
	for k := range c.known {
		if _, ok := c.knownHit[k]; !ok {
			fmt.Printf("note: listed finding not reproduced in this run: %s\n", k)
		}
	}
	for _, v := range c.violations {
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n  %s\n", c.ID, v.path, v.key, firstLines(v.detail, 6))
	}
	fmt.Printf("%s %s: evaluations=%d distinct=%d states=%d transitions=%d violations=%d known=%d exhaustive=%v %.1fs\n",
		c.ID, c.Tier, c.evals, len(c.distinct), len(c.states), c.transitions, c.nviol, len(c.knownHit), c.exhaustive, time.Since(c.Start).Seconds())
	if c.nviol > 0 {
		return 1
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n    ")
}

// loadKnown reads lines "known: property=<id> key=<key> :: <description>".
func (c *Ctx) loadKnown() {
	c.known = map[string]string{}
	c.knownHit = map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.Verif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "known: property=" + c.ID + " key="
		if !strings.HasPrefix(l, p) {
			continue
		}
		l = l[len(p):]
		k, d, _ := strings.Cut(l, " :: ")
		c.known[strings.TrimSpace(k)] = d
	}
}

func (c *Ctx) IsKnown(key string) bool { _, ok := c.known[key]; return ok }

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: "+f+"\n", a...)
	cleanup()
	os.Exit(3)
}

var cleanup = func() {}

// goEnv is the environment for go commands on the repository.
func goEnv(extra ...string) []string {
	var out []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "CC", "CPP", "CGO_ENABLED", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GOWORK", "CGO_CFLAGS", "CGO_LDFLAGS", "GO111MODULE":
			continue
		}
		out = append(out, e)
	}
	out = append(out, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-buildvcs=false", "CGO_ENABLED=1")
	return append(out, extra...)
}

func runCmd(dir string, env []string, timeout time.Duration, name string, args ...string) (stdout, stderr []byte, code int, timedOut bool) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = env
	cmd.WaitDelay = 2 * time.Second
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		return o.Bytes(), e.Bytes(), -1, true
	}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return o.Bytes(), e.Bytes(), x.ExitCode(), false
		}
		return o.Bytes(), []byte(err.Error()), -2, false
	}
	return o.Bytes(), e.Bytes(), 0, false
}

// BuildBin builds c-for-go from the repository's working tree.
func (c *Ctx) BuildBin() {
	c.Bin = filepath.Join(c.Scratch, "c-for-go")
	_, e, code, _ := runCmd(c.Repo, goEnv("GOFLAGS=-mod=readonly -buildvcs=false"), 600*time.Second, "go", "build", "-o", c.Bin, ".")
	if code != 0 {
		fatalf("building c-for-go: %s", e)
	}
	c.setupStubs()
}

// setupStubs records what the host compiler and go tool answer to the constant questions c-for-go asks
// on every run (predefined macros, include paths, go env), so that a run costs milliseconds; the first
// run of each check is compared with a run against the real tools.
func (c *Ctx) setupStubs() {
	d := filepath.Join(c.Scratch, "stub")
	os.MkdirAll(d, 0755)
	save := func(n string, b []byte) { os.WriteFile(filepath.Join(d, n), b, 0644) }
	o, _, code, _ := runCmd("/", goEnv(), 60*time.Second, "cc", "-dM", "-E", "/dev/null")
	if code != 0 {
		fatalf("cc -dM failed")
	}
	save("dm.out", o)
	o, e, _, _ := runCmd("/", goEnv(), 60*time.Second, "cc", "-v", "-E", "/dev/null")
	save("v.out", o)
	save("v.err", e)
	o, _, code, _ = runCmd("/", goEnv("GO111MODULE=off"), 60*time.Second, "go", "env", "-json")
	if code != 0 {
		fatalf("go env failed")
	}
	save("goenv.json", o)
	o, _, code, _ = runCmd("/", goEnv("GO111MODULE=off", "GOWORK=off"), 60*time.Second, "go", "env", "-json")
	if code != 0 {
		fatalf("go env failed")
	}
	save("goenv-fast.json", o)
	os.WriteFile(filepath.Join(d, "cc"), []byte(fmt.Sprintf(`#!/bin/sh
if [ "$#" = 3 ]; then
case "$1 $2 $3" in
"-v -E -") cat %[1]s/v.err >&2; exec cat %[1]s/v.out;;
"-dM -E -") exec cat %[1]s/dm.out;;
esac
fi
exec /usr/bin/cc "$@"
`, d)), 0755)
	realGo, err := exec.LookPath("go")
	if err != nil {
		fatalf("no go tool")
	}
	os.WriteFile(filepath.Join(d, "go"), []byte(fmt.Sprintf(`#!/bin/sh
case "$*" in "env -json"*) if [ -n "$VCK_FAST" ]; then exec cat %[1]s/goenv-fast.json; fi; exec cat %[1]s/goenv.json;; "env GOFLAGS") echo; exit 0;; esac
exec %[2]s "$@"
`, d, realGo)), 0755)
}

func (c *Ctx) stubEnv() []string {
	d := filepath.Join(c.Scratch, "stub")
	env := goEnv("GO111MODULE=off", "CC="+filepath.Join(d, "cc"))
	for i, e := range env {
		if strings.HasPrefix(e, "PATH=") {
			env[i] = "PATH=" + d + ":" + e[5:]
		}
	}
	return env
}

// M is a manifest fragment; manifests are written as JSON, which is YAML.
type M = map[string]any
type L = []any

type Job struct {
	Files       map[string]string // relative to the job directory
	Manifest    M                 // written to pkg.yml unless nil
	Args        []string          // extra flags
	Argv        []string          // full argument list (overrides everything else if non-nil)
	Env         []string
	RealEnv     bool
	Dir         string // run in this directory (created); default: fresh
	Bin         string
	Timeout     time.Duration
	Keep        bool
	NoStampOff  bool // leave timestamps on
	ManifestRaw string
	Mem         int // limit of the address space in kB; 0: 6 GB
	FSize       int // if not 0: no file can get larger than FSize-1 bytes
}

type Result struct {
	Dir    string
	Out    map[string]string // path relative to out/ -> content
	Stdout string
	Stderr string
	Code   int
	TO     bool
}

func (r *Result) Sorted() []string {
	k := make([]string, 0, len(r.Out))
	for n := range r.Out {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

var jobSeq int64

func mustJSON(v any) []byte {
	b, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		panic(err)
	}
	return b
}

// Run runs the c-for-go command line on a job and collects the output tree.
func (c *Ctx) Run(j *Job) *Result {
	dir := j.Dir
	if dir == "" {
		dir = filepath.Join(c.Scratch, fmt.Sprintf("j%d", atomic.AddInt64(&jobSeq, 1)))
	}
	os.MkdirAll(dir, 0755)
	for n, s := range j.Files {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			fatalf("write %s: %v", p, err)
		}
	}
	if j.ManifestRaw != "" {
		os.WriteFile(filepath.Join(dir, "pkg.yml"), []byte(j.ManifestRaw), 0644)
	} else if j.Manifest != nil {
		os.WriteFile(filepath.Join(dir, "pkg.yml"), mustJSON(j.Manifest), 0644)
	}
	args := j.Argv
	if args == nil {
		args = []string{"-fancy=false", "-out", "out"}
		if !j.NoStampOff {
			args = append(args, "-nostamp")
		}
		args = append(args, j.Args...)
		args = append(args, "pkg.yml")
	}
	env := c.stubEnv()
	if j.RealEnv {
		env = goEnv()
	}
	if c.Fast {
		env = append(env, "VCK_FAST=1")
	}
	env = append(env, j.Env...)
	bin := c.Bin
	if j.Bin != "" {
		bin = j.Bin
	}
	if j.FSize > 0 {
		self, _ := os.Executable()
		args = append([]string{"-fsize", fmt.Sprint(j.FSize - 1), bin}, args...)
		bin = self
	}
	to := j.Timeout
	if to == 0 {
		to = 60 * time.Second
	}
	mem := j.Mem
	if mem == 0 {
		mem = 6000000
	}
	// a runaway process must not take the sandbox's memory
	o, e, code, timedOut := runCmd(dir, env, to, "/bin/sh", append([]string{"-c", "ulimit -v " + strconv.Itoa(mem) + "; exec \"$0\" \"$@\"", bin}, args...)...)
	if timedOut && atomic.AddInt64(&c.timeouts, 1) >= 8 {
		c.Budget = 0 // reported by the caller; no point in hanging on every further case
	}
	r := &Result{Dir: dir, Stdout: string(o), Stderr: string(e), Code: code, TO: timedOut}
	r.Out = readTree(filepath.Join(dir, "out"))
	if !j.Keep {
		os.RemoveAll(dir)
	}
	return r
}

func readTree(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return nil
		}
		if !info.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			rel, _ := filepath.Rel(root, p)
			m[filepath.ToSlash(rel)] = string(b)
		}
		return nil
	})
	return m
}

// jobFiles renders a job as replayable files.
func jobFiles(j *Job) map[string][]byte {
	f := map[string][]byte{}
	for n, s := range j.Files {
		f[n] = []byte(s)
	}
	if j.ManifestRaw != "" {
		f["pkg.yml"] = []byte(j.ManifestRaw)
	} else if j.Manifest != nil {
		f["pkg.yml"] = mustJSON(j.Manifest)
	}
	args := j.Argv
	if args == nil {
		args = append([]string{"-fancy=false", "-nostamp", "-out", "out"}, j.Args...)
		args = append(args, "pkg.yml")
	}
	f["replay.sh"] = []byte("#!/bin/sh\n# run inside this directory after 'bash /opt/vp/build.sh'\n" + strings.Join(j.Env, " ") + " /repo/c-for-go " + strings.Join(args, " ") + "\n")
	return f
}

func withOut(f map[string][]byte, r *Result) map[string][]byte {
	for n, s := range r.Out {
		f["out/"+n] = []byte(s)
	}
	f["stderr.txt"] = []byte(r.Stderr)
	return f
}

// Par runs f(i) for i in [0,n) on all cores, stopping early when the budget is used up; it returns how
// many were run.
func (c *Ctx) Par(n int, f func(i int)) int {
	return c.parN(n, runtime.NumCPU(), f)
}

func (c *Ctx) parN(n, workers int, f func(i int)) int {
	var next, done int64 = -1, 0
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Expired() {
					return
				}
				f(i)
				atomic.AddInt64(&done, 1)
			}
		}()
	}
	wg.Wait()
	return int(done)
}

func clone(m M) M {
	b, _ := json.Marshal(m)
	var o M
	json.Unmarshal(b, &o)
	return o
}

// std manifest: accept everything, exported public names.
func stdManifest() M {
	return M{
		"GENERATOR": M{"PackageName": "main", "Includes": L{"a.h"}},
		"PARSER":    M{"SourcesPaths": L{"a.h"}},
		"TRANSLATOR": M{
			"Rules": M{
				"global":      L{M{"action": "accept", "from": "^[a-zA-Z]"}, M{"action": "ignore", "from": "^(unix|linux)$"}},
				"post-global": L{M{"transform": "export"}},
				"private":     L{M{"transform": "unexport"}},
			},
		},
	}
}

func sub(m M, k string) M {
	v, ok := m[k].(M)
	if !ok {
		v = M{}
		m[k] = v
	}
	return v
}

func rx(s string) *regexp.Regexp { return regexp.MustCompile(s) }

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

func diffMaps(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		if _, ok := b[k]; !ok {
			return "only in first: " + k
		}
		if a[k] != b[k] {
			return k + ": " + firstDiff(a[k], b[k])
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return "only in second: " + k
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		var x, y string
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d:\n  first:  %q\n  second: %q", i+1, x, y)
		}
	}
	return "same"
}

var maxViol = func() int {
	if os.Getenv("VCK_ALL") != "" {
		return 100000
	}
	return 12
}()
