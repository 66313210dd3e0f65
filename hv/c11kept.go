package main

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// kept checks that a method which remembers replacements remembers every one
// it is given.
func (a *PTA) kept(r *Report, m *replMethods) {
	var fns []*ssa.Function
	for fn := range m.buffer {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, fn := range fns {
		if fn.Blocks == nil || fn.Synthetic != "" || fn.Signature.Recv() == nil {
			continue
		}
		keeps := map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isReplacer(fa.X.Type()) && isReplacements(in.Val.Type()) {
						keeps[b] = true
					}
				case ssa.CallInstruction:
					if c := in.Common().StaticCallee(); c != nil && (m.buffer[c] || m.commit[c]) {
						keeps[b] = true
					}
					if c, ok := in.(*ssa.Call); ok && isBuiltin(c) && c.Call.Value.Name() == "append" && isReplacements(c.Type()) {
						keeps[b] = true
					}
				}
			}
		}
		r.count("methods that remember replacements", 1)
		// empty: nothing is given
		empty := func(b *ssa.BasicBlock, i int) bool {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			x := emptiness(iff, i)
			return x != nil && isReplacements(x.Type())
		}
		// a loop over what is given
		whole := map[*ssa.BasicBlock]*Domain{}
		for _, d := range loopsOf(fn) {
			some := false
			for b := range d.body {
				some = some || keeps[b]
			}
			if !some || d.guard == nil || d.kind != "count" {
				continue
			}
			seq := seqOf(linVal{d.hi.v, 0})
			par, ok := seq.(*ssa.Parameter)
			if !ok || !isReplacements(par.Type()) {
				continue
			}
			r.count("loops over what is given", 1)
			if d.lo.v != nil || d.lo.k != 0 || d.hi.k != 0 || d.desc {
				r.fail("dropped", fnName(fn)+" part", a.p.instrPos(lastPos(d.hdr)), "%s: not every replacement that is given is remembered in its turn", fnName(fn))
			}
			whole[d.guard.Block()] = d
			for _, b := range fn.Blocks {
				if !d.body[b] {
					continue
				}
				for i, s := range b.Succs {
					if d.body[s] || b == d.guard.Block() || empty(b, i) || panicsOnly(s, map[*ssa.BasicBlock]bool{}) {
						continue
					}
					r.fail("dropped", fnName(fn)+" early", a.p.instrPos(lastPos(b)), "%s: the loop over the replacements may be left before its end", fnName(fn))
				}
			}
			// every round
			seen := map[*ssa.BasicBlock]bool{}
			last := map[*ssa.BasicBlock]*ssa.BasicBlock{}
			work := []*ssa.BasicBlock{d.guard.Block().Succs[d.in]}
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				if seen[b] || keeps[b] || !d.body[b] {
					continue
				}
				seen[b] = true
				if b == d.hdr {
					r.fail("dropped", fnName(fn), a.p.instrPos(lastPos(last[b])), "%s: a replacement that is given may not be remembered", fnName(fn))
					break
				}
				for _, s := range b.Succs {
					if last[s] == nil {
						last[s] = b
						if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok && last[b] != nil {
							last[s] = last[b]
						}
					}
					work = append(work, s)
				}
			}
		}
		// the way around
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{fn.Blocks[0]}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[b] || keeps[b] {
				continue
			}
			seen[b] = true
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				at := a.p.instrPos(lastPos(b))
				if at == "" || ret.Pos() == token.NoPos {
					at = a.p.pos(fn.Pos())
				}
				r.fail("dropped", fnName(fn)+" around", at, "%s may return without remembering what it is given", fnName(fn))
			}
			for i, s := range b.Succs {
				if empty(b, i) {
					continue
				}
				if d := whole[b]; d != nil && i != d.in {
					continue
				}
				work = append(work, s)
			}
		}
	}
}
