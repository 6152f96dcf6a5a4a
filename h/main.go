package main

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"syscall"
	"time"
)

type check struct {
	level string
	rule  string
	run   func(c *Ctx)
}

var checks = map[string]check{}

var fastChecks = map[string]bool{"C01": true, "C02": true, "C08": true, "C09": true, "C05": true, "C06": true, "C07": true, "C21": true, "C28": true, "C20": true, "C16": true, "C26": true, "C17": true, "C27": true, "C29": true, "C30": true}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vck ID [quick|thorough]")
		os.Exit(3)
	}
	if os.Args[1] == "-fsize" { // run a program that cannot make files larger than so many bytes
		n, _ := strconv.ParseUint(os.Args[2], 10, 64)
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
		fmt.Fprintln(os.Stderr, syscall.Exec(os.Args[3], os.Args[3:], os.Environ()))
		os.Exit(120)
	}
	id := os.Args[1]
	ck, ok := checks[id]
	if !ok {
		fatalf("no check %s", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{ID: id, Tier: tier, Seed: seed, Level: ck.level, rule: ck.rule, Start: time.Now(), exhaustive: true,
		distinct: map[string]struct{}{}, states: map[string]struct{}{}, extra: map[string]any{}}
	c.Repo = "/repo"
	if r := os.Getenv("VCK_REPO"); r != "" {
		c.Repo = r
	}
	c.Verif = os.Getenv("VCK_VERIF")
	if c.Verif == "" {
		c.Verif = "/verif"
	}
	c.Budget = 240 * time.Second
	if tier == "thorough" {
		c.Budget = 700 * time.Second
	}
	d, err := os.MkdirTemp("", "vck-"+id+"-")
	if err != nil {
		fatalf("%v", err)
	}
	c.Scratch = d
	cleanup = func() { os.RemoveAll(d) }
	if os.Getenv("VCK_KEEP") != "" {
		cleanup = func() { fmt.Println("kept", d) }
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() { <-sig; cleanup(); os.Exit(3) }()
	old, _ := filepath.Glob(filepath.Join(c.Verif, "evidence", "replay", id+"-*"))
	for _, o := range old {
		os.RemoveAll(o)
	}
	c.loadKnown()
	c.BuildBin()
	c.Fast = fastChecks[id]
	ck.run(c)
	code := c.finish()
	cleanup()
	os.Exit(code)
}
