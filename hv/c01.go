package main

import "strings"

// concRoots are the exported operations that may run at the same time.
func (a *PTA) concRoots() []*Root {
	var out []*Root
	for _, r := range a.roots {
		if !r.conc {
			continue
		}
		// Registering a trace function is ordered by the caller.
		if r.api && strings.HasSuffix(r.name, ".Trace") {
			continue
		}
		out = append(out, r)
	}
	return out
}

func init() {
	register("C01", func(e *Env, r *Report) {
		a := e.Lib()
		roots := a.concRoots()
		r.analysedBy(a, roots)
		r.rule("Every two accesses to the same memory by exported operations that may run concurrently, of which one is a write, hold a common lock (or are ordered by the same sync.Once).")
		a.races(r, roots)
		r.need("concurrent operations", 30)
		r.need("shared accesses", 100)
	})
	register("C02", func(e *Env, r *Report) {
		a := e.Lib()
		roots := a.concRoots()
		r.analysedBy(a, roots)
		r.rule("On every path of every exported operation, returning or panicking, each acquired lock is released; no held lock is acquired again; no lock is released that is not held; no user-supplied code and no waiting happens under a lock; locks are never taken in a cyclic order.")
		a.lockRules(r, a.apiAndSpawned())
		r.need("roots", 30)
	})
}

func (a *PTA) apiAndSpawned() []*Root {
	var out []*Root
	for _, r := range a.roots {
		if r.conc || r.api {
			out = append(out, r)
		}
	}
	return out
}
