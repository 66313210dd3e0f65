package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Each part of a replacement is written, in each of the rounds over the parts,
// and what is written for a variable stands where the matched value has been
// found.

type partRounds struct {
	a      *PTA
	r      *Report
	x      *Sim
	root   *Root
	d      *Domain
	part   *types.Named
	consts map[string]map[int64]bool // by field: the values it can have
	o      *origins
	done   map[string]bool
	rnds   int
}

// partLoop finds the loop over the parts of a replacement.
func partLoop(a *PTA, c *Ctx) (*Domain, *types.Named) {
	for _, d := range loopsOf(c.fn) {
		if d.kind != "count" || d.guard == nil {
			continue
		}
		seq := seqOf(d.hi)
		if seq == nil {
			continue
		}
		st, ok := seq.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		n := namedOf(deref(st.Elem()))
		if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg() != c.fn.Pkg.Pkg {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); ok {
			return d, n
		}
	}
	return nil, nil
}

// fieldConsts are the numbers stored to the fields of a struct.
func fieldConsts(p *Prog, n *types.Named) map[string]map[int64]bool {
	out := map[string]map[int64]bool{}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		b, ok := st.Field(i).Type().Underlying().(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 {
			out[st.Field(i).Name()] = map[int64]bool{0: true}
		}
	}
	for fn := range ssautil.AllFunctions(p.SSA) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				store, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := store.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(deref(fa.X.Type())) != n {
					continue
				}
				name := st.Field(fa.Field).Name()
				if out[name] == nil {
					continue
				}
				if k, ok := constInt(store.Val); ok {
					out[name][k] = true
				} else {
					delete(out, name)
				}
			}
		}
	}
	return out
}

func isWrite(key string) bool {
	return strings.HasPrefix(key, "bytes.Buffer.Write") || strings.HasPrefix(key, "strings.Builder.Write")
}

// mappedValue tells whether a value is an element of a list of strings.
func (p *partRounds) mappedValue(ctx *Ctx, v ssa.Value) bool {
	os, _ := p.o.of(ctx, v)
	for _, og := range os {
		u, ok := og.v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			if s, ok := ia.X.Type().Underlying().(*types.Slice); ok && isStringT(s.Elem()) {
				return true
			}
		}
	}
	return false
}

func (p *partRounds) bad(s *State, n *GNode, rule, msg string) {
	if p.done[rule] {
		return
	}
	p.done[rule] = true
	p.r.fail(rule, fnName(n.ctx.fn), p.x.g.where(n), "%s: %s (path: %s)", p.root.name, msg, s.trail())
}

func (p *partRounds) over(s *State, n *GNode, failed bool) {
	if s.cl["in"] != "" {
		p.rnds++
		if s.cl["wrote"] == "" && !failed && s.cl["unknown"] == "" {
			p.bad(s, n, "part", "a part of the replacement may be left out")
		}
	}
	for k := range s.cl {
		delete(s.cl, k)
	}
}

// wrote: a text is added to the result.
func (p *partRounds) wrote(s *State, n *GNode, ctx *Ctx, v ssa.Value) {
	if s.cl["in"] == "" {
		return
	}
	s.cl["wrote"] = "1"
	if p.mappedValue(ctx, v) && s.cl["found"] == "" && s.cl["unknown"] == "" {
		p.bad(s, n, "found", "a variable is written although what has been matched was not found among the values it is mapped from")
	}
}

func (p *partRounds) run(c *Ctx) {
	a := p.a
	p.done = map[string]bool{}
	p.o = a.newOrigins()
	p.d, p.part = partLoop(a, c)
	if p.d == nil {
		p.r.Open = append(p.r.Open, "not judged: no loop over the parts of a replacement in "+fnName(c.fn))
		return
	}
	p.consts = fieldConsts(a.p, p.part)
	x := a.newSim(c.root)
	p.x = x
	x.root = &Root{name: p.root.name, fn: c.fn, ctx: c}
	x.maxInt = 16
	x.opaque = func(k *Ctx) bool {
		if k == c {
			return false
		}
		// what writes, searches or chooses is followed
		sig := k.fn.Signature
		return recursive(k) || pkgPathOf(k.fn) != c.fn.Pkg.Pkg.Path() || sig.Results().Len() == 1 && isStringT(sig.Results().At(0).Type()) && len(loopsOf(k.fn)) == 0
	}
	x.branch = func(s *State, n *GNode, cond *Term, truth bool) bool {
		if n.ctx == c {
			if iff, ok := n.in.(*ssa.If); ok && p.d.guard == iff {
				p.over(s, n, false)
				if truth == (p.d.in == 0) {
					s.cl["in"] = "1"
				}
				return true
			}
		}
		iff, ok := n.in.(*ssa.If)
		if !ok {
			return true
		}
		// a counter that has gone through all of them stands at the end
		for _, d := range x.loopInfo.of(iff.Parent()) {
			if d.guard != iff || d.kind != "count" || d.desc || truth == (d.in == 0) || d.phi == nil {
				continue
			}
			if seqOf(d.hi) != nil && d.hi.k == 0 && d.lo.v == nil && d.lo.k == 0 && d.off == 0 {
				i, h := x.eval(s, n.ctx, d.phi), x.linTerm(s, n.ctx, d.hi)
				if h != nil && i != h {
					x.setEq(s, i, h)
				}
			}
		}
		v, want := iff.Cond, truth
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			v, want = u.X, !want
		}
		switch v := v.(type) {
		case *ssa.BinOp:
			eq := v.Op == token.EQL && want || v.Op == token.NEQ && !want
			if v.Op != token.EQL && v.Op != token.NEQ {
				break
			}
			_, cx := v.X.(*ssa.Const)
			_, cy := v.Y.(*ssa.Const)
			if isStringT(v.X.Type()) && !cx && !cy && eq {
				s.cl["found"] = "1"
			}
			if k, isK := v.Y.(*ssa.Const); isK && k.Value != nil && k.Value.Kind() == constant.Int {
				if f := p.field(n.ctx, v.X); f != "" && p.consts[f] != nil {
					num, _ := constInt(k)
					if eq {
						return p.consts[f][num]
					}
					s.cl["not "+f+" "+k.Value.String()] = "1"
					left := 0
					for c := range p.consts[f] {
						if s.cl["not "+f+" "+itoa(int(c))] == "" {
							left++
						}
					}
					return left > 0
				}
			}
		case *ssa.Extract:
			if want {
				s.cl["found"] = "1"
			}
		case *ssa.Call:
			s.cl["found"] = "1"
		}
		return true
	}
	x.instr = func(s *State, n *GNode) []*State {
		if n.kind != kInstr {
			return nil
		}
		switch in := n.in.(type) {
		case *ssa.Return:
			if n.ctx != c {
				return nil
			}
			failed := false
			for _, v := range in.Results {
				if isErr(v.Type()) {
					t := x.norm(s, x.eval(s, n.ctx, v))
					failed = failed || t != x.tNil
					if t != x.tNil {
						continue
					}
					if s.cl["in"] != "" {
						p.bad(s, n, "early", "the replacement is given back before all of its parts are written")
					}
				}
			}
			p.over(s, n, failed)
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if vs := in.Call.Args[1]; isStringT(vs.Type()) {
					p.wrote(s, n, n.ctx, vs)
				} else if os, _ := p.o.elems(n.ctx, vs); len(os) > 0 {
					for _, og := range os {
						p.wrote(s, n, og.ctx, og.v)
					}
				} else {
					s.cl["wrote"] = "1"
				}
			}
		case *ssa.BinOp:
			if in.Op == token.ADD && isStringT(in.Type()) {
				p.wrote(s, n, n.ctx, in.X)
				p.wrote(s, n, n.ctx, in.Y)
			}
		case *ssa.MapUpdate, *ssa.Store:
			if st, ok := in.(*ssa.Store); ok {
				if _, ok := st.Addr.(*ssa.IndexAddr); ok && isStringT(st.Val.Type()) {
					p.wrote(s, n, n.ctx, st.Val)
				}
			}
		}
		return nil
	}
	x.call = func(s *State, n *GNode) []*State {
		key, cc, call := x.key1(n)
		if isWrite(key) {
			p.wrote(s, n, n.ctx, cc.Args[len(cc.Args)-1])
		} else if strings.HasPrefix(key, "fmt.Fprint") || strings.HasPrefix(key, "io.Write") {
			s.cl["wrote"] = "1"
		}
		if call != nil && (strings.HasPrefix(key, "slices.") || strings.HasPrefix(key, "sort.") || strings.HasPrefix(key, "strings.Index")) {
			s.cl["unknown"] = "1"
		}
		return x.std(s, n)
	}
	x.run(nil)
	p.r.count("rounds over parts", p.rnds)
	p.r.count("abstract states", x.states)
	p.r.sim(x)
}

// field names the field of a part a value is read from.
func (p *partRounds) field(ctx *Ctx, v ssa.Value) string {
	_, v = p.a.resolve(ctx, v)
	var st types.Type
	i := 0
	switch u := v.(type) {
	case *ssa.Field:
		st, i = u.X.Type(), u.Field
	case *ssa.UnOp:
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || u.Op != token.MUL {
			return ""
		}
		st, i = deref(fa.X.Type()), fa.Field
	default:
		return ""
	}
	if namedOf(st) != p.part {
		return ""
	}
	return p.part.Underlying().(*types.Struct).Field(i).Name()
}
