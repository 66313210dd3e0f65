package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Env gives the checks their analysed programs, built on demand.
type Env struct {
	repo, verif string
	tier        string
	native      *Prog
	wasm        *Prog
	lib         *PTA
	cmds        *PTA
}

func (e *Env) Native() *Prog {
	if e.native == nil {
		p, err := load("native", e.repo, nil, "./...")
		if err != nil {
			fail("load: %v", err)
		}
		e.native = p
	}
	return e.native
}

func (e *Env) Wasm() *Prog {
	if e.wasm == nil {
		p, err := load("js/wasm", e.repo, []string{"GOOS=js", "GOARCH=wasm"}, "./cmd/...")
		if err != nil {
			fail("load: %v", err)
		}
		e.wasm = p
	}
	return e.wasm
}

func (e *Env) Lib() *PTA {
	if e.lib == nil {
		a := newPTA(e.Native())
		a.buildLib()
		e.lib = a
	}
	return e.lib
}

type check struct {
	id  string
	run func(e *Env, r *Report)
}

var checks []check

func register(id string, run func(e *Env, r *Report)) {
	checks = append(checks, check{id, run})
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: hv <property>|all")
		os.Exit(2)
	}
	e := &Env{repo: "/repo", verif: "/verif", tier: "quick"}
	if d := os.Getenv("HV_REPO"); d != "" {
		e.repo = d
	}
	if d := os.Getenv("HV_VERIF"); d != "" {
		e.verif = d
	} else if exe, err := os.Executable(); err == nil {
		_ = filepath.Dir(exe)
	}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		e.tier = t
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sort.Slice(checks, func(i, j int) bool { return checks[i].id < checks[j].id })
	rc := 0
	ran := false
	for _, c := range checks {
		if os.Args[1] != "all" && os.Args[1] != c.id {
			continue
		}
		ran = true
		t0 := time.Now()
		r := newReport(c.id)
		guarded(c, e, r)
		if x := r.finish(e.verif, e.tier, seed, time.Since(t0).Seconds()); x != 0 {
			rc = x
		}
	}
	if !ran {
		fmt.Println("no such check:", os.Args[1])
		os.Exit(2)
	}
	os.Exit(rc)
}

func guarded(c check, e *Env, r *Report) {
	defer func() {
		if x := recover(); x != nil {
			if f, ok := x.(failure); ok {
				if len(r.Findings) == 0 && !strings.HasPrefix(f.msg, "load: ") {
					r.open("undecided", f.msg, "the analysis cannot decide: %s", f.msg)
					return
				}
				r.fail("undecided", f.msg, "-", "the analysis cannot decide: %s", f.msg)
				return
			}
			r.open("undecided", fmt.Sprint(x), "the analysis failed: %v\n%s", x, debug.Stack())
		}
	}()
	c.run(e, r)
}

// analysedBy records the functions of the contexts of some roots.
func (r *Report) analysedBy(a *PTA, roots []*Root) {
	in := map[*Root]bool{}
	for _, x := range roots {
		in[x] = true
	}
	for _, c := range a.ctxs {
		if in[c.root] {
			r.Analysed[fnName(c.fn)] = true
		}
	}
}

var _ ssa.Value
