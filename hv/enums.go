package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fields that only ever hold a few constants.

var enumMemo = map[*types.Named]map[string]map[int64]bool{}

// enumOf gives the constants a value read from such a field may be.
func (a *PTA) enumOf(ctx *Ctx, v ssa.Value) map[int64]bool {
	_, v = a.resolve(ctx, v)
	var st types.Type
	i := 0
	switch u := v.(type) {
	case *ssa.Field:
		st, i = u.X.Type(), u.Field
	case *ssa.UnOp:
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || u.Op != token.MUL {
			return nil
		}
		st, i = deref(fa.X.Type()), fa.Field
	default:
		return nil
	}
	n := namedOf(st)
	if n == nil || n.Obj().Pkg() == nil || !isRepoPath(strings.TrimSuffix(n.Obj().Pkg().Path(), "_test")) {
		return nil
	}
	f := n.Underlying().(*types.Struct).Field(i)
	if f.Exported() {
		return nil
	}
	m, ok := enumMemo[n]
	if !ok {
		m = fieldConsts(a.p, n)
		enumMemo[n] = m
	}
	return m[f.Name()]
}

// possible: the comparison of such a field leaves a constant it may be.
func (x *Sim) possible(s *State, n *GNode) bool {
	iff, ok := n.in.(*ssa.If)
	if !ok {
		return true
	}
	v := iff.Cond
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v = u.X
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return true
	}
	consts := x.a.enumOf(n.ctx, b.X)
	if len(consts) == 0 {
		return true
	}
	t := x.eval(s, n.ctx, b.X)
	for k := range consts {
		if x.cmp(s, t, x.cInt(k)) != 2 {
			return true
		}
	}
	return false
}
