package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loops and what they range over.

type linVal struct {
	v ssa.Value // nil: a constant
	k int64
}

// Domain is a loop with what its index takes on: [lo, hi) for counted loops,
// all entries for maps, all letters for strings.
type Domain struct {
	fn    *ssa.Function
	hdr   *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	kind  string // count, map, string, other
	guard *ssa.If
	in    int // the successor of the guard inside the loop
	phi   *ssa.Phi
	off   int64 // index = phi + off
	lo    linVal
	hi    linVal
	desc  bool
	next  *ssa.Next
	loose bool // the length of a field counts as one bound
}

func loopsOf(fn *ssa.Function) []*Domain {
	var out []*Domain
	byHdr := map[*ssa.BasicBlock]*Domain{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			d := byHdr[s]
			if d == nil {
				d = &Domain{fn: fn, hdr: s, body: map[*ssa.BasicBlock]bool{s: true}, kind: "other"}
				byHdr[s] = d
				out = append(out, d)
			}
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if d.body[x] {
					continue
				}
				d.body[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	for _, d := range out {
		d.classify()
	}
	return out
}

func lin(v ssa.Value) linVal {
	if c, ok := constInt(v); ok {
		return linVal{nil, c}
	}
	if b, ok := v.(*ssa.BinOp); ok {
		if c, ok := constInt(b.Y); ok {
			x := lin(b.X)
			if b.Op == token.ADD {
				return linVal{x.v, x.k + c}
			}
			if b.Op == token.SUB {
				return linVal{x.v, x.k - c}
			}
		}
		if c, ok := constInt(b.X); ok && b.Op == token.ADD {
			x := lin(b.Y)
			return linVal{x.v, x.k + c}
		}
	}
	return linVal{v, 0}
}

func (d *Domain) invariant(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	if !d.body[in.Block()] {
		return true
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		return d.invariant(b.X) && d.invariant(b.Y)
	}
	// len of something defined outside
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if _, isMap := c.Call.Args[0].Type().Underlying().(*types.Map); !isMap {
				return d.invariant(c.Call.Args[0])
			}
		}
	}
	return false
}

func (d *Domain) classify() {
	iff, ok := d.hdr.Instrs[len(d.hdr.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	in0, in1 := d.body[d.hdr.Succs[0]], d.body[d.hdr.Succs[1]]
	if in0 == in1 {
		return
	}
	d.guard = iff
	if in1 {
		d.in = 1
	}
	// range over a map or string
	if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 0 && d.in == 0 {
		if nx, ok := ex.Tuple.(*ssa.Next); ok && nx.Block() == d.hdr {
			d.next = nx
			d.kind = "map"
			if nx.IsString {
				d.kind = "string"
			}
			return
		}
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	op, x, y := cond.Op, cond.X, cond.Y
	if d.in == 1 {
		op = negate(op)
	}
	try := func(op token.Token, x, y ssa.Value) bool {
		l := lin(x)
		phi, ok := l.v.(*ssa.Phi)
		if !ok || phi.Block() != d.hdr || !d.invariant(y) && !(d.loose && lenOfLoad(y)) {
			return false
		}
		var init ssa.Value
		step := int64(0)
		for i, e := range phi.Edges {
			if !d.body[phi.Block().Preds[i]] {
				if init != nil && init != e {
					return false
				}
				init = e
				continue
			}
			s := lin(e)
			if s.v != phi || s.k == 0 || step != 0 && step != s.k {
				return false
			}
			step = s.k
		}
		if init == nil {
			return false
		}
		iv, b := lin(init), lin(y)
		iv.k += l.k
		switch {
		case step == 1 && (op == token.LSS || op == token.NEQ):
			d.lo, d.hi = iv, b
		case step == 1 && op == token.LEQ:
			d.lo, d.hi = iv, linVal{b.v, b.k + 1}
		case step == -1 && op == token.GEQ:
			d.lo, d.hi, d.desc = b, linVal{iv.v, iv.k + 1}, true
		case step == -1 && (op == token.GTR || op == token.NEQ):
			d.lo, d.hi, d.desc = linVal{b.v, b.k + 1}, linVal{iv.v, iv.k + 1}, true
		default:
			return false
		}
		d.phi, d.off, d.kind = phi, l.k, "count"
		return true
	}
	if !try(op, x, y) {
		try(swapOp(op), y, x)
	}
}

// lenOfLoad tells the length of a list kept in a field.
func lenOfLoad(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	u, ok := c.Call.Args[0].(*ssa.UnOp)
	return ok && u.Op == token.MUL
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// isIndex tells whether a value is the current index of a counted loop.
func (d *Domain) isIndex(v ssa.Value) bool {
	if d.kind != "count" {
		return false
	}
	l := lin(v)
	return l.v == d.phi && l.k == d.off
}

// seqOf gives the sequence whose length a bound is.
func seqOf(b linVal) ssa.Value {
	if b.k != 0 || b.v == nil {
		return nil
	}
	if c, ok := b.v.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// loopInfo caches the loops of functions for a simulation.
type loopInfo struct {
	byGuard map[*ssa.If]*Domain
	byNext  map[*ssa.Next]*Domain
	all     map[*ssa.Function][]*Domain
}

func newLoopInfo() *loopInfo {
	return &loopInfo{map[*ssa.If]*Domain{}, map[*ssa.Next]*Domain{}, map[*ssa.Function][]*Domain{}}
}

func (li *loopInfo) of(fn *ssa.Function) []*Domain {
	if ds, ok := li.all[fn]; ok {
		return ds
	}
	ds := loopsOf(fn)
	li.all[fn] = ds
	for _, d := range ds {
		if d.guard != nil && d.kind != "other" {
			li.byGuard[d.guard] = d
		}
		if d.next != nil {
			li.byNext[d.next] = d
		}
	}
	return ds
}

// linTerm evaluates a bound.
func (x *Sim) linTerm(s *State, ctx *Ctx, l linVal) *Term {
	if l.v == nil {
		return x.cInt(l.k)
	}
	t := x.eval(s, ctx, l.v)
	if l.k == 0 {
		return t
	}
	if i, ok := t.isInt(); ok {
		return x.cInt(i + l.k)
	}
	// len(slice(T, none, i)) + k
	if l.k > 0 {
		return x.mk("+", "", t, x.cInt(l.k))
	}
	return x.mk("-", "", t, x.cInt(-l.k))
}

// span normalises a sequence and an index range of it to a base sequence:
// slices of the base move the bounds.
func (x *Sim) span(seq, lo, hi *Term) (*Term, *Term, *Term) {
	zero := x.cInt(0)
	for seq != nil && seq.op == "slice" && len(seq.args) >= 3 {
		l, h := seq.args[1], seq.args[2]
		if l.op == "none" {
			l = zero
		}
		full := hi == x.mk("len", "", seq)
		seq = seq.args[0]
		if full {
			if h.op == "none" {
				hi = x.mk("len", "", seq)
			} else {
				hi = h
			}
		} else if l != zero {
			return nil, nil, nil
		}
		if l != zero {
			if lo != zero {
				return nil, nil, nil
			}
			lo = l
		}
	}
	return seq, lo, hi
}
