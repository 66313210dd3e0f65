package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loops that only count: they compute nothing that is used after them, write
// nothing, and end. They are taken out of the program before it is analysed.

func dropIdleLoops(prog *ssa.Program) {
	for fn := range ssautil.AllFunctions(prog) {
		p := pkgOfFn(fn)
		if p == "" || !isRepoPath(p) || len(fn.Blocks) == 0 {
			continue
		}
		for dropIdle(fn) {
		}
	}
}

func pkgOfFn(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil || fn.Pkg.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

func dropIdle(fn *ssa.Function) bool {
	for _, d := range loopsOf(fn) {
		if !d.idle() {
			continue
		}
		exit := d.hdr.Succs[1-d.in]
		var entry []*ssa.BasicBlock
		for _, p := range d.hdr.Preds {
			if !d.body[p] {
				entry = append(entry, p)
			}
		}
		if len(entry) != 1 || d.body[exit] {
			continue
		}
		for i, s := range entry[0].Succs {
			if s == d.hdr {
				entry[0].Succs[i] = exit
			}
		}
		for i, p := range exit.Preds {
			if p == d.hdr {
				exit.Preds[i] = entry[0]
			}
		}
		for b := range d.body {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					rs := (*op).Referrers()
					if rs == nil {
						continue
					}
					var keep []ssa.Instruction
					for _, r := range *rs {
						if r != in {
							keep = append(keep, r)
						}
					}
					*rs = keep
				}
			}
		}
		var left []*ssa.BasicBlock
		for _, b := range fn.Blocks {
			if !d.body[b] {
				b.Index = len(left)
				left = append(left, b)
			}
		}
		fn.Blocks = left
		return true
	}
	return false
}

// idle reports whether nothing but the time it takes tells that the loop is there.
func (d *Domain) idle() bool {
	if d.kind != "count" && d.kind != "string" {
		return false
	}
	for b := range d.body {
		for _, s := range b.Succs {
			if !d.body[s] && b != d.hdr {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Next, *ssa.Extract:
			case *ssa.BinOp:
				switch in.Op {
				case token.QUO, token.REM, token.SHL, token.SHR:
					return false
				case token.EQL, token.NEQ:
					if _, ok := constInt(in.Y); !ok {
						return false
					}
				}
			case *ssa.UnOp:
				if in.Op != token.SUB && in.Op != token.NOT && in.Op != token.XOR {
					return false
				}
			case *ssa.Call:
				b, ok := in.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "len" {
					return false
				}
			default:
				return false
			}
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !d.body[r.Block()] {
					return false
				}
			}
		}
	}
	// an inner loop must have been found idle on its own first
	for b := range d.body {
		for _, s := range b.Succs {
			if s != d.hdr && d.body[s] && s.Dominates(b) {
				return false
			}
		}
	}
	return true
}
