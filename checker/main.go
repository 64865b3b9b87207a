package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

func main() {
	if v := os.Getenv("VP_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("VP_VERIF"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: uaxcheck PROPERTY...|all")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(6 << 30)
	if f := os.Getenv("VP_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(40 * time.Second); pprof.StopCPUProfile(); w.Close(); os.Exit(3) }()
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for k := range propMeta {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	p, err := load(false)
	rc := 0
	for _, id := range ids {
		m := propMeta[id]
		if m == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		r := NewReport(id)
		if err != nil {
			r.Fail("load", "?", "the program cannot be analysed: %v", err)
		} else {
			r = runLimited(m, p, r)
		}
		if x := r.Finish(); x != 0 {
			rc = x
		}
	}
	os.Exit(rc)
}

// runLimited gives up on a quick check which would not end in time: what it
// has found so far is reported, the rest is undecided.
func runLimited(m *meta, p *Prog, r *Report) *Report {
	if r.Tier == "thorough" {
		runGuarded(m, p, r)
		return r
	}
	done := make(chan bool, 1)
	go func() {
		runGuarded(m, p, r)
		done <- true
	}()
	select {
	case <-done:
		return r
	case <-time.After(quickLimit):
	}
	r2 := NewReport(r.Prop)
	r2.start = r.start
	r2.Findings = append(r2.Findings, r.Findings...)
	r2.Oblig = len(r2.Findings)
	r2.Undecided("time", "?", "the analysis takes longer than %v", quickLimit)
	return r2
}

const quickLimit = 780 * time.Second

func runGuarded(m *meta, p *Prog, r *Report) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("VP_DEBUG") != "" {
				debug.PrintStack()
			}
			r.Undecided("analysis", "?", "the analysis failed: %v", e)
		}
	}()
	m.run(p, r)
}
