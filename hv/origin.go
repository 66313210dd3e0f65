package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Where a value comes from, across functions, closures and goroutines, not
// following the order of statements.

type origin struct {
	ctx *Ctx
	v   ssa.Value
}

type origins struct {
	a     *PTA
	sites map[*Root]siteKey
}

func (a *PTA) newOrigins() *origins {
	o := &origins{a: a, sites: map[*Root]siteKey{}}
	for k, si := range a.callees {
		for _, r := range si.spawned {
			o.sites[r] = siteKey{k.ctx, k.in}
		}
	}
	return o
}

// up is the context a context was called, deferred or spawned from.
func (o *origins) up(c *Ctx) *Ctx {
	if c.parent != nil {
		return c.parent
	}
	if k, ok := o.sites[c.root]; ok {
		return k.ctx
	}
	return nil
}

// binding is what a closure captured, also if another goroutine runs it.
func (o *origins) binding(ctx *Ctx, v *ssa.FreeVar) (*Ctx, ssa.Value) {
	for i, fv := range ctx.fn.FreeVars {
		if fv != v {
			continue
		}
		for x := o.up(ctx); x != nil; x = o.up(x) {
			if x.fn != ctx.fn.Parent() {
				continue
			}
			for _, b := range x.fn.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ctx.fn {
						return x, mc.Bindings[i]
					}
				}
			}
		}
	}
	return nil, nil
}

func (o *origins) argument(ctx *Ctx, v *ssa.Parameter) (*Ctx, ssa.Value) {
	if nc, nv := o.a.argument(ctx, v); nv != nil {
		return nc, nv
	}
	if ctx.parent != nil {
		return nil, nil
	}
	k, ok := o.sites[ctx.root]
	if !ok {
		return nil, nil
	}
	g, ok := k.in.(*ssa.Go)
	if !ok || g.Call.IsInvoke() || len(g.Call.Args) != len(ctx.fn.Params) {
		return nil, nil
	}
	for i, p := range ctx.fn.Params {
		if p == v {
			return k.ctx, g.Call.Args[i]
		}
	}
	return nil, nil
}

// of collects the places a value may come from. ok is false if some are not
// known.
func (o *origins) of(ctx *Ctx, v ssa.Value) (out []origin, ok bool) {
	type key struct {
		ctx *Ctx
		v   ssa.Value
	}
	seen := map[key]bool{}
	ok = true
	var walk func(ctx *Ctx, v ssa.Value)
	leaf := func(ctx *Ctx, v ssa.Value) { out = append(out, origin{ctx, v}) }
	walk = func(ctx *Ctx, v ssa.Value) {
		k := key{ctx, v}
		if seen[k] {
			return
		}
		seen[k] = true
		if len(seen) > 2000 {
			ok = false
			return
		}
		switch w := v.(type) {
		case *ssa.ChangeType:
			walk(ctx, w.X)
		case *ssa.ChangeInterface:
			walk(ctx, w.X)
		case *ssa.MakeInterface:
			walk(ctx, w.X)
		case *ssa.TypeAssert:
			if w.CommaOk {
				leaf(ctx, v)
				return
			}
			walk(ctx, w.X)
		case *ssa.Phi:
			for _, e := range w.Edges {
				walk(ctx, e)
			}
		case *ssa.Parameter:
			nc, nv := o.argument(ctx, w)
			if nv == nil {
				leaf(ctx, v)
				return
			}
			walk(nc, nv)
		case *ssa.FreeVar:
			nc, nv := o.binding(ctx, w)
			if nv == nil {
				leaf(ctx, v)
				return
			}
			walk(nc, nv)
		case *ssa.UnOp:
			if w.Op != token.MUL {
				leaf(ctx, v)
				return
			}
			cs, found := o.stores(ctx, w.X, nil)
			if !found {
				leaf(ctx, v)
				return
			}
			for _, c := range cs {
				walk(c.ctx, c.v)
			}
		case *ssa.Field:
			cs, found := o.fieldOf(ctx, w.X, w.Field)
			if !found {
				leaf(ctx, v)
				return
			}
			for _, c := range cs {
				walk(c.ctx, c.v)
			}
		case *ssa.Extract:
			call, isCall := w.Tuple.(*ssa.Call)
			if !isCall {
				leaf(ctx, v)
				return
			}
			if !o.results(ctx, call, w.Index, walk) {
				leaf(ctx, v)
			}
		case *ssa.Call:
			if !o.results(ctx, w, 0, walk) {
				leaf(ctx, v)
			}
		default:
			leaf(ctx, v)
		}
	}
	walk(ctx, v)
	return out, ok
}

func (o *origins) results(ctx *Ctx, call *ssa.Call, i int, walk func(*Ctx, ssa.Value)) bool {
	si := o.a.callees[siteKey{ctx, call}]
	if si == nil || si.external || len(si.internal) == 0 || len(si.callbacks) > 0 {
		return false
	}
	for _, c := range si.internal {
		if isLibCtx(c) {
			return false
		}
	}
	for _, c := range si.internal {
		for _, b := range c.fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				walk(c, r.Results[i])
			}
		}
	}
	return true
}

// stores are the values stored to a local variable, or to one field of it.
func (o *origins) stores(ctx *Ctx, addr ssa.Value, path []int) ([]origin, bool) {
	for d := 0; d < 40; d++ {
		switch w := addr.(type) {
		case *ssa.FreeVar:
			nc, nv := o.binding(ctx, w)
			if nv == nil {
				return nil, false
			}
			ctx, addr = nc, nv
			continue
		case *ssa.Parameter:
			nc, nv := o.argument(ctx, w)
			if nv == nil {
				return nil, false
			}
			ctx, addr = nc, nv
			continue
		case *ssa.FieldAddr:
			path = append([]int{w.Field}, path...)
			addr = w.X
			continue
		case *ssa.UnOp:
			// a pointer kept in a variable
			if w.Op != token.MUL {
				return nil, false
			}
			cs, ok := o.stores(ctx, w.X, nil)
			if !ok || len(cs) != 1 {
				return nil, false
			}
			ctx, addr = cs[0].ctx, cs[0].v
			continue
		}
		break
	}
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	return o.storesTo(ctx, al, path, 0)
}

func (o *origins) storesTo(ctx *Ctx, cell ssa.Value, path []int, d int) ([]origin, bool) {
	if d > 12 {
		return nil, false
	}
	var out []origin
	for _, r := range *cell.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != cell {
				return nil, false
			}
			if len(path) == 0 {
				out = append(out, origin{ctx, r.Val})
				continue
			}
			// the whole struct is stored
			cs := []origin{{ctx, r.Val}}
			for _, f := range path {
				var next []origin
				for _, c := range cs {
					fs, ok := o.fieldOf(c.ctx, c.v, f)
					if !ok {
						return nil, false
					}
					next = append(next, fs...)
				}
				cs = next
			}
			out = append(out, cs...)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if len(path) > 0 && r.Field == path[0] {
				cs, ok := o.storesTo(ctx, r, path[1:], d+1)
				if !ok {
					return nil, false
				}
				out = append(out, cs...)
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b != cell {
					continue
				}
				for _, c := range o.a.ctxs {
					if c.fn != fn {
						continue
					}
					if bc, bv := o.binding(c, fn.FreeVars[i]); bc != ctx || bv != cell {
						continue
					}
					cs, ok := o.storesTo(c, fn.FreeVars[i], path, d+1)
					if !ok {
						return nil, false
					}
					out = append(out, cs...)
				}
			}
		case *ssa.Call, *ssa.Defer, *ssa.Go:
			// passed by address: the callee may store
			ci := r.(ssa.CallInstruction)
			si := o.a.callees[siteKey{ctx, ci}]
			if si == nil || si.external || ci.Common().IsInvoke() {
				return nil, false
			}
			for _, c := range si.internal {
				for i, a := range ci.Common().Args {
					if a != cell || i >= len(c.fn.Params) {
						continue
					}
					cs, ok := o.storesTo(c, c.fn.Params[i], path, d+1)
					if !ok {
						return nil, false
					}
					out = append(out, cs...)
				}
			}
		default:
			return nil, false
		}
	}
	return out, true
}

// fieldOf is where a field of a struct value comes from.
func (o *origins) fieldOf(ctx *Ctx, v ssa.Value, f int) ([]origin, bool) {
	switch w := v.(type) {
	case *ssa.UnOp:
		if w.Op == token.MUL {
			return o.stores(ctx, w.X, []int{f})
		}
	case *ssa.Parameter:
		if nc, nv := o.argument(ctx, w); nv != nil {
			return o.fieldOf(nc, nv, f)
		}
	case *ssa.ChangeType:
		return o.fieldOf(ctx, w.X, f)
	case *ssa.MakeInterface:
		return o.fieldOf(ctx, w.X, f)
	case *ssa.Call:
		var out []origin
		ok := true
		if o.results(ctx, w, 0, func(c *Ctx, v ssa.Value) {
			fs, k := o.fieldOf(c, v, f)
			ok = ok && k
			out = append(out, fs...)
		}) {
			return out, ok
		}
	}
	return nil, false
}

// elems are the values of a variadic argument list.
func (o *origins) elems(ctx *Ctx, v ssa.Value) ([]origin, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	for d := 0; d < 10; d++ {
		switch w := v.(type) {
		case *ssa.Parameter:
			nc, nv := o.argument(ctx, w)
			if nv == nil {
				return nil, false
			}
			ctx, v = nc, nv
			continue
		}
		break
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	m := map[int64]ssa.Value{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		j, ok := constInt(ia.Index)
		if !ok {
			return nil, false
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
				if m[j] != nil {
					return nil, false
				}
				m[j] = st.Val
			}
		}
	}
	var out []origin
	for i := int64(0); i < int64(len(m)); i++ {
		if m[i] == nil {
			return nil, false
		}
		out = append(out, origin{ctx, m[i]})
	}
	return out, true
}
