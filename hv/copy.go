package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// copier follows how a text is copied piece by piece: up to where it has been
// copied. It works inside one simulation.
type copier struct {
	x        *Sim
	pos, alt ekey
}

var copyObj = &Obj{kind: oGlobal, id: -9}

func newCopier(x *Sim) *copier {
	c := &copier{x, ekey{o: copyObj, path: "pos"}, ekey{o: copyObj, path: "alt"}}
	x.held = append(x.held, c.pos, c.alt)
	return c
}

func (c *copier) reset(s *State, t *Term) {
	delete(s.env, c.alt)
	if t == nil {
		delete(s.env, c.pos)
		return
	}
	s.env[c.pos] = t
}

// known tells whether the position is known.
func (c *copier) known(s *State) bool { return s.env[c.pos] != nil || s.env[c.alt] != nil }

// at tells whether the position is a value: 1 yes, 2 no, 0 unknown.
func (c *copier) at(s *State, t *Term) int {
	u := 0
	for _, k := range []ekey{c.pos, c.alt} {
		p := s.env[k]
		if p == nil {
			continue
		}
		p = c.x.norm(s, p)
		t = c.x.norm(s, t)
		if p == t {
			return 1
		}
		if r := c.x.cmp(s, p, t); r == 1 || r == 2 {
			u = r
		} else if u == 0 {
			u = 3
		}
	}
	if u == 3 {
		return 2 // two different variables
	}
	return u
}

// canonLoad names an element of a slice by the slice and the index.
func canonLoad(x *Sim, s *State, n *GNode) {
	ld, ok := n.in.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || n.kind != kInstr {
		return
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok || !isIntSlice(ia.X.Type()) {
		return
	}
	k, ok := x.eval(s, n.ctx, ia.Index).isInt()
	base := x.eval(s, n.ctx, ia.X)
	if !ok || containsReg(base, n.ctx, ld) {
		return
	}
	x.set(s, n.ctx, ld, "", x.mk("elem", itoa(int(k)), base))
}

// piece splits a part of a text into its bounds.
func (x *Sim) piece(t *Term) (text, lo, hi *Term, ok bool) {
	if t.op != "slice" || len(t.args) < 3 {
		return nil, nil, nil, false
	}
	lo, hi = t.args[1], t.args[2]
	if lo.op == "none" {
		lo = x.cInt(0)
	}
	if hi.op == "none" {
		hi = x.mk("len", "", t.args[0])
	}
	return t.args[0], lo, hi, true
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// isLocal tells a variable of the function itself.
func isLocal(v ssa.Value) bool {
	for {
		switch w := v.(type) {
		case *ssa.FieldAddr:
			v = w.X
		case *ssa.IndexAddr:
			v = w.X
		case *ssa.Alloc:
			return !w.Heap
		default:
			return false
		}
	}
}

// reaches1 tells whether a context or one it calls runs a function.
func (a *PTA) reaches1(c *Ctx, is func(fn *ssa.Function) bool) bool {
	seen := map[*Ctx]bool{c: true}
	work := []*Ctx{c}
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		if is(k.fn) {
			return true
		}
		for _, b := range k.fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				si := a.callees[siteKey{k, ci}]
				if si == nil {
					continue
				}
				for _, m := range append(append([]*Ctx{}, si.internal...), append(si.callbacks, si.once...)...) {
					if !seen[m] {
						seen[m] = true
						work = append(work, m)
					}
				}
			}
		}
	}
	return false
}
