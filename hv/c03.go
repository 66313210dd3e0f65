package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cmds analyses the commands together with the library.
func (e *Env) Cmds() *PTA {
	if e.cmds == nil {
		a := newPTA(e.Native())
		a.initRoots(nil)
		for _, q := range a.p.Pkgs {
			if libPath(q.PkgPath) {
				continue
			}
			sp := a.p.byPth[q.PkgPath]
			if sp == nil {
				continue
			}
			var fns []*ssa.Function
			var walk func(f *ssa.Function)
			walk = func(f *ssa.Function) {
				fns = append(fns, f)
				for _, x := range f.AnonFuncs {
					walk(x)
				}
			}
			for _, n := range sortedMembers(sp) {
				if f, ok := sp.Members[n].(*ssa.Function); ok {
					walk(f)
				}
			}
			if f := sp.Func("init"); f != nil {
				walk(f)
			}
			for i := 1; ; i++ {
				f := sp.Func(fmt.Sprintf("init#%d", i))
				if f == nil {
					break
				}
				walk(f)
			}
			seen := map[*ssa.Function]bool{}
			for _, f := range fns {
				if seen[f] || len(f.Blocks) == 0 {
					continue
				}
				seen[f] = true
				entry := f.Name() == "main" && f.Parent() == nil
				if s := f.Signature; s.Params().Len() == 2 && qualName(s.Params().At(0).Type()) == "github.com/spf13/cobra.Command" &&
					isStringSlice(s.Params().At(1).Type()) {
					entry = true
				}
				if !entry {
					continue
				}
				r := a.newRoot(fnName(f), f)
				r.api = true
				a.startRoot(r)
				for _, p := range f.Params {
					a.envParam(r, p, p.Type(), "")
				}
				a.solve()
			}
		}
		e.cmds = a
	}
	return e.cmds
}

func isStringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStringT(s.Elem())
}

// ---------------------------------------------------------------------------
// regions: code executed once per element, in no particular order

type region struct {
	ctx   *Ctx
	dom   *Domain // nil: the whole context (a callback)
	base  string
	src   []fnode // what an iteration is given
	slice map[*Obj]bool
	po    *Taint
	p     *Taint
}

type regionKey struct {
	ctx *Ctx
	hdr *ssa.BasicBlock
}

type order struct {
	a       *PTA
	r       *Report
	f       *Flow
	root    *Root
	g       *Graph
	loops   map[*ssa.Function][]*Domain
	regions map[regionKey]*region
	list    []*region
	gens    map[siteKey]map[*Obj]string
	quiet   bool
	found   map[string]bool
	genKey  map[siteKey]*region
}

func (o *order) domains(fn *ssa.Function) []*Domain {
	ds, ok := o.loops[fn]
	if !ok {
		ds = loopsOf(fn)
		o.loops[fn] = ds
	}
	return ds
}

func (o *order) add(rg *region) bool {
	k := regionKey{rg.ctx, nil}
	if rg.dom != nil {
		k.hdr = rg.dom.hdr
	}
	if old := o.regions[k]; old != nil {
		n := len(old.src)
		have := map[fnode]bool{}
		for _, s := range old.src {
			have[s] = true
		}
		for _, s := range rg.src {
			if !have[s] {
				old.src = append(old.src, s)
			}
		}
		return len(old.src) > n
	}
	o.regions[k] = rg
	o.list = append(o.list, rg)
	return true
}

func under(c, anc *Ctx) bool {
	for ; c != nil; c = c.parent {
		if c == anc {
			return true
		}
	}
	return false
}

// in tells whether an instruction belongs to an iteration of the region.
func (rg *region) in(ctx *Ctx, in ssa.Instruction) bool {
	for {
		if ctx == rg.ctx {
			if rg.dom == nil {
				return true
			}
			if in.Block() == rg.dom.hdr {
				_, isPhi := in.(*ssa.Phi)
				return !isPhi
			}
			return rg.dom.body[in.Block()]
		}
		if ctx.parent == nil {
			return false
		}
		in, ctx = ctx.site, ctx.parent
	}
}

// inner tells whether an object is made anew in every iteration.
func (rg *region) inner(x *Obj) bool {
	x = canon(x)
	if x.kind == oFunc {
		return true
	}
	if x.ctx == nil || x.site == nil {
		return false
	}
	in, ok := x.site.(ssa.Instruction)
	if !ok || in.Block() == nil || !rg.in(x.ctx, in) {
		return false
	}
	return true
}

func (o *order) say(rule, key, where, format string, args ...any) {
	if o.quiet {
		return
	}
	for i, x := range args {
		if t, ok := x.(string); ok {
			args[i] = strings.NewReplacer(tagKeys, "", tagLen, "").Replace(t)
		}
	}
	o.r.fail(rule, key, where, format, args...)
}

// mapRegions finds the loops over maps.
func (o *order) mapRegions() {
	for _, c := range o.a.ctxs {
		if c.root != o.root {
			continue
		}
		for _, d := range o.domains(c.fn) {
			if d.kind != "map" {
				continue
			}
			rg := &region{ctx: c, dom: d, base: "a map"}
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					if ex, ok := in.(*ssa.Extract); ok && ex.Tuple == d.next && ex.Index > 0 {
						for _, l := range allLeaves(ex.Type()) {
							rg.src = append(rg.src, o.f.reg(c, ex, l.path))
						}
					}
				}
			}
			o.add(rg)
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok || callKey(ci.Common()) != "sync.Map.Range" {
					continue
				}
				if si := o.a.callees[siteKey{c, in}]; si != nil {
					for _, cc := range si.callbacks {
						rg := &region{ctx: cc, base: "a sync.Map"}
						for _, p := range cc.fn.Params {
							for _, l := range allLeaves(p.Type()) {
								rg.src = append(rg.src, o.f.reg(cc, p, l.path))
							}
						}
						o.add(rg)
					}
				}
			}
		}
	}
}

// prepare computes what depends on the element (p), or on the element or the
// position in the sequence (po).
func (o *order) prepare(rg *region) {
	stop := func(n fnode, in ssa.Instruction, ctx *Ctx) bool {
		return n.v != nil && n.ctx != nil && n.ctx != rg.ctx && !under(n.ctx, rg.ctx)
	}
	rg.p = o.f.taint(false, stop, rg.src...)
	src := append([]fnode(nil), rg.src...)
	if rg.dom != nil {
		for _, in := range rg.dom.hdr.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if phi == rg.dom.phi || isCounter(rg.dom, phi) {
				src = append(src, o.f.reg(rg.ctx, phi, ""))
			}
		}
	}
	// how much has been collected so far
	for _, c := range o.a.ctxs {
		if c.root != o.root || !under(c, rg.ctx) {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !rg.in(c, in) {
					continue
				}
				bi, ok := call.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "len" && bi.Name() != "cap" {
					continue
				}
				x := call.Call.Args[0]
				grows := false
				if _, isMap := x.Type().Underlying().(*types.Map); isMap {
					for _, e := range o.a.pts(c, x) {
						if !rg.inner(e.o) && o.updatedIn(rg, canon(e.o)) {
							grows = true
						}
					}
				} else if _, isSlice := x.Type().Underlying().(*types.Slice); isSlice {
					grows = o.outerAcc(rg, c, x, nil)
				}
				if grows {
					src = append(src, o.f.reg(c, call, ""))
				}
			}
		}
	}
	rg.po = o.f.taint(false, stop, src...)
}

func (o *order) updatedIn(rg *region, m *Obj) bool {
	for _, c := range o.a.ctxs {
		if c.root != o.root || !under(c, rg.ctx) {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !rg.in(c, in) {
					continue
				}
				for _, e := range o.a.pts(c, mu.Map) {
					if canon(e.o) == m {
						return true
					}
				}
			}
		}
	}
	return false
}

func isCounter(d *Domain, phi *ssa.Phi) bool {
	b, ok := phi.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// outerAcc tells whether a slice value is (an extension of) one that outlives
// the iteration.
func (o *order) outerAcc(rg *region, ctx *Ctx, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, isIn := v.(ssa.Instruction)
	if isIn && !(ctx == rg.ctx && rg.dom != nil && in.Block() == rg.dom.hdr) && !rg.in(ctx, in) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice:
		return false
	case *ssa.Phi:
		if ctx == rg.ctx && rg.dom != nil && x.Block() == rg.dom.hdr {
			return true
		}
		for _, e := range x.Edges {
			if o.outerAcc(rg, ctx, e, seen) {
				return true
			}
		}
		return false
	case *ssa.Slice:
		if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
			for _, e := range o.a.pts(ctx, x.X) {
				if !rg.inner(e.o) {
					return true
				}
			}
			return false
		}
		return o.outerAcc(rg, ctx, x.X, seen)
	case *ssa.ChangeType:
		return o.outerAcc(rg, ctx, x.X, seen)
	case *ssa.Parameter, *ssa.FreeVar:
		c2, v2 := o.a.resolve(ctx, v)
		if v2 == v {
			return ctx == rg.ctx || !under(c2, rg.ctx)
		}
		if c2 != rg.ctx && !under(c2, rg.ctx) {
			return true
		}
		return o.outerAcc(rg, c2, v2, seen)
	case *ssa.UnOp:
		for _, e := range o.a.pts(ctx, x.X) {
			if !rg.inner(e.o) {
				return true
			}
		}
		return false
	case *ssa.Lookup:
		for _, e := range o.a.pts(ctx, x.X) {
			if !rg.inner(e.o) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		return o.outerAcc(rg, ctx, x.Tuple, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return o.outerAcc(rg, ctx, x.Call.Args[0], seen)
		}
		for _, e := range o.a.pts(ctx, v) {
			if !rg.inner(e.o) {
				return true
			}
		}
		return false
	}
	return false
}

func (o *order) gen(c *Ctx, in ssa.Instruction, objs []Elem, why string, rg *region) {
	k := siteKey{c, in}
	m := o.gens[k]
	if m == nil {
		m = map[*Obj]string{}
		o.gens[k] = m
	}
	for _, e := range objs {
		m[canon(e.o)] = why
	}
	o.genKey[k] = rg
}

// keyOf tells whether a value is the key of the iteration, or stands for it.
func (o *order) isKey(rg *region, ctx *Ctx, v ssa.Value) bool {
	if rg.dom == nil {
		c2, v2 := o.a.resolve(ctx, v)
		return c2 == rg.ctx && len(rg.ctx.fn.Params) > 0 && v2 == rg.ctx.fn.Params[0]
	}
	if rg.dom.next == nil {
		return false
	}
	for d := 0; d < 20; d++ {
		ctx, v = o.a.resolve(ctx, v)
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); ok && x.Op == token.ADD {
				v = x.X
				continue
			}
			if _, ok := x.X.(*ssa.Const); ok && x.Op == token.ADD {
				v = x.Y
				continue
			}
			if o.isKey(rg, ctx, x.X) || o.isKey(rg, ctx, x.Y) {
				return x.Op == token.ADD
			}
		case *ssa.Extract:
			if x.Tuple == rg.dom.next && x.Index == 1 {
				return true
			}
		case *ssa.UnOp:
			// a composite that contains the key
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				for _, u := range *al.Referrers() {
					if st := fieldStore(u); st != nil && o.isKey(rg, ctx, st.Val) {
						return true
					}
				}
			}
		}
		break
	}
	root, path := o.origin(ctx, v, 0)
	if ex, ok := root.(*ssa.Extract); ok && ex.Tuple == rg.dom.next && ex.Index == 2 && path != "" {
		return o.holdsKey(rg, path)
	}
	return false
}

func fieldStore(u ssa.Instruction) *ssa.Store {
	v, ok := u.(ssa.Value)
	if !ok {
		return nil
	}
	switch u.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr:
	default:
		return nil
	}
	for _, w := range *v.Referrers() {
		if st, ok := w.(*ssa.Store); ok && st.Addr == v {
			return st
		}
	}
	return nil
}

// origin follows a value through copies, field reads and calls.
func (o *order) origin(ctx *Ctx, v ssa.Value, d int) (ssa.Value, string) {
	_, x, path := o.originC(ctx, v, d)
	return x, path
}

func (o *order) originC(ctx *Ctx, v ssa.Value, d int) (*Ctx, ssa.Value, string) {
	path := ""
	for ; d < 40; d++ {
		c2, v2 := o.a.resolve(ctx, v)
		ctx, v = c2, v2
		switch x := v.(type) {
		case *ssa.Field:
			path = fieldPath(x.X.Type(), x.Field) + path
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				addr := x.X
				sub := ""
				for {
					if fa, ok := addr.(*ssa.FieldAddr); ok {
						sub = fieldPath(deref(fa.X.Type()), fa.Field) + sub
						addr = fa.X
						continue
					}
					break
				}
				c3, v3 := o.a.resolve(ctx, addr)
				if al, ok := v3.(*ssa.Alloc); ok {
					if s := wholeStore(al); s != nil {
						path = sub + path
						ctx, v = c3, s.Val
						continue
					}
				}
				if sub != "" {
					// a field of what a pointer points to
					path = sub + path
					ctx, v = c3, v3
					continue
				}
			}
		case *ssa.Call:
			if si := o.a.callees[siteKey{ctx, x}]; si != nil && len(si.internal) == 1 && !si.external {
				c := si.internal[0]
				var ret *ssa.Return
				n := 0
				for _, b := range c.fn.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						ret = rt
						n++
					}
				}
				if n == 1 && len(ret.Results) == 1 {
					ctx, v = c, ret.Results[0]
					continue
				}
			}
		}
		return ctx, v, path
	}
	return ctx, v, path
}

// wholeStore is the only store to all of a variable, if nothing writes parts.
func wholeStore(al *ssa.Alloc) *ssa.Store {
	var s *ssa.Store
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != al || s != nil {
				return nil
			}
			s = u
		case *ssa.FieldAddr:
			for _, w := range *u.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == u {
					return nil
				}
			}
		}
	}
	return s
}

// holdsKey: every entry of the ranged map holds its own key at a path.
func (o *order) holdsKey(rg *region, path string) bool {
	rng, ok := rg.dom.next.Iter.(*ssa.Range)
	if !ok {
		return false
	}
	maps := map[*Obj]bool{}
	for _, e := range o.a.pts(rg.ctx, rng.X) {
		maps[canon(e.o)] = true
	}
	n := 0
	for _, c := range o.a.ctxs {
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				hit := len(maps) == 0 && types.Identical(mu.Map.Type(), rng.X.Type())
				for _, e := range o.a.pts(c, mu.Map) {
					if maps[canon(e.o)] {
						hit = true
					}
				}
				if !hit {
					continue
				}
				n++
				if !o.partIs(c, mu.Value, path, mu.Key) {
					return false
				}
			}
		}
	}
	return n > 0
}

// partIs tells whether a part of a composite value is a given value.
func (o *order) partIs(c *Ctx, val ssa.Value, path string, want ssa.Value) bool {
	c2, v := o.a.resolve(c, val)
	var al *ssa.Alloc
	switch x := v.(type) {
	case *ssa.UnOp:
		al, _ = x.X.(*ssa.Alloc)
	case *ssa.Alloc:
		al = x
	}
	if al == nil {
		return false
	}
	_, wv := o.a.resolve(c, want)
	for _, u := range *al.Referrers() {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok || fieldPath(deref(fa.X.Type()), fa.Field) != path {
			continue
		}
		for _, w := range *fa.Referrers() {
			if st, ok := w.(*ssa.Store); ok && st.Addr == fa {
				_, sv := o.a.resolve(c2, st.Val)
				return sv == wv
			}
		}
	}
	return false
}

func (rg *region) isPO(ctx *Ctx, v ssa.Value) bool { return rg.po.tainted(ctx, v) }

// shallow: the value itself, not what it refers to
func (t *Taint) shallow(ctx *Ctx, v ssa.Value) bool {
	for _, l := range allLeaves(v.Type()) {
		if t.has(t.f.reg(ctx, v, l.path)) {
			return true
		}
	}
	return false
}

// check judges the effects of one region.
func (o *order) check(rg *region) {
	o.prepare(rg)
	where := func(c *Ctx, in ssa.Instruction) string { return o.a.p.instrPos(in) }
	if !o.quiet {
		o.r.count("unordered loops", 1)
		o.r.sample("%s: loop over %s in %s", o.root.name, rg.base, fnName(rg.ctx.fn))
	}
	for _, c := range o.a.ctxs {
		if c.root != o.root || !under(c, rg.ctx) {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				if !rg.in(c, in) {
					continue
				}
				id := fnName(c.fn) + " " + fnName(rg.ctx.fn)
				switch in := in.(type) {
				case *ssa.Store:
					o.store(rg, c, in, id)
				case *ssa.MapUpdate:
					outer := false
					for _, e := range o.a.pts(c, in.Map) {
						if !rg.inner(e.o) {
							outer = true
						}
					}
					if !outer || rg.p.shallow(c, in.Map) || !rg.isPO(c, in.Value) {
						continue
					}
					if o.isKey(rg, c, in.Key) {
						continue
					}
					if call, ok := in.Value.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							continue // judged at the append
						}
					}
					if commutes(in.Value, func(v ssa.Value) bool {
						if ex, ok := v.(*ssa.Extract); ok {
							v = ex.Tuple
						}
						l, ok := v.(*ssa.Lookup)
						return ok && sameAddr(l.X, in.Map) && sameAddr(l.Index, in.Key)
					}) {
						continue
					}
					o.say("last-wins", id, where(c, in), "in %s, which of several values an entry of a map gets depends on the order of the elements of %s", fnName(c.fn), rg.base)
				case *ssa.Send:
					outer := false
					for _, e := range o.a.pts(c, in.Chan) {
						if !rg.inner(e.o) {
							outer = true
						}
					}
					if outer && rg.isPO(c, in.X) {
						o.say("emit", id, where(c, in), "%s sends values in the order of the elements of %s", fnName(c.fn), rg.base)
					}
				case *ssa.Call:
					o.callIn(rg, c, in, id)
				}
			}
		}
	}
	o.phis(rg)
	o.exits(rg)
}

func (o *order) callIn(rg *region, c *Ctx, in *ssa.Call, id string) {
	cc := in.Common()
	where := o.a.p.instrPos(in)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if !rg.isPO(c, in.Call.Args[1]) && !o.partsPO(rg, c, in.Call.Args[1]) {
				return
			}
			if o.outerAcc(rg, c, in.Call.Args[0], nil) {
				why := "it is filled in " + fnName(c.fn) + " in the order of the elements of " + rg.base
				if xs := varargsOf(in.Call.Args[1]); len(xs) == 1 && o.isKey(rg, c, xs[0]) && rg.dom != nil && rg.dom.next != nil {
					why += tagKeys
				}
				o.gen(c, in, o.a.pts(c, in), why, rg)
			}
		case "copy":
			if rg.isPO(c, in.Call.Args[1]) && o.outerAcc(rg, c, in.Call.Args[0], nil) {
				o.gen(c, in, o.a.pts(c, in.Call.Args[0]), "it is filled in "+fnName(c.fn)+" in the order of the elements of "+rg.base, rg)
			}
		}
		return
	}
	si := o.a.callees[siteKey{c, in}]
	if si == nil {
		return
	}
	key := callKey(cc)
	if si.user && !cc.IsInvoke() {
		for _, x := range cc.Args {
			if rg.isPO(c, x) {
				o.say("emit", id, where, "%s calls user code in the order of the elements of %s", fnName(c.fn), rg.base)
				return
			}
		}
	}
	if !si.external || strings.HasPrefix(key, "sync.") || strings.HasPrefix(key, "sync/atomic.") {
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	if prints(key) {
		for _, x := range args {
			if rg.isPO(c, x) {
				o.say("emit", id, where, "%s prints in the order of the elements of %s", fnName(c.fn), rg.base)
				return
			}
		}
	}
	ws := map[int]bool{}
	for _, i := range extWrites(key, cc) {
		ws[i] = true
	}
	for i := range args {
		if !ws[i] {
			continue
		}
		outer := false
		for _, e := range o.a.pts(c, args[i]) {
			if !rg.inner(e.o) {
				outer = true
			}
		}
		if !outer || rg.p.shallow(c, args[i]) {
			continue
		}
		if isSort(key) {
			continue
		}
		for j, x := range args {
			if j == i || ws[j] && len(args) > 1 && j == 0 {
				continue
			}
			if rg.isPO(c, x) || o.partsPO(rg, c, x) {
				o.say("emit", id, where, "%s writes to the same output in the order of the elements of %s", fnName(c.fn), rg.base)
				return
			}
		}
	}
}

// partsPO looks at the elements of a variadic argument list.
func (o *order) partsPO(rg *region, c *Ctx, v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == ia && rg.isPO(c, st.Val) {
					return true
				}
			}
		}
	}
	return false
}

func prints(key string) bool {
	if strings.HasPrefix(key, "fmt.Print") || strings.HasPrefix(key, "log.") || strings.HasPrefix(key, "log/slog.") {
		return true
	}
	i := strings.LastIndex(key, ".")
	return strings.HasPrefix(key, "github.com/spf13/cobra.") && strings.HasPrefix(key[i+1:], "Print")
}

func isSort(key string) bool {
	return strings.HasPrefix(key, "sort.") || strings.HasPrefix(key, "slices.Sort")
}

// perRound: the variable is set anew in each round before it is read, and read
// nowhere else.
func (rg *region) perRound(c *Ctx, al *ssa.Alloc, in *ssa.Store) bool {
	before := func(u ssa.Instruction) bool {
		if u.Block() != in.Block() {
			return in.Block().Dominates(u.Block())
		}
		for _, x := range u.Block().Instrs {
			if x == in {
				return true
			}
			if x == u {
				return false
			}
		}
		return false
	}
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Store:
				if u.Val == v {
					return false
				}
			case *ssa.UnOp:
			case *ssa.FieldAddr:
				if !only(u) {
					return false
				}
			case *ssa.IndexAddr:
				if u.X != v || !only(u) {
					return false
				}
			default:
				return false
			}
			if u != ssa.Instruction(in) && (!rg.in(c, u) || !before(u)) {
				return false
			}
		}
		return true
	}
	return only(al)
}

func (o *order) store(rg *region, c *Ctx, in *ssa.Store, id string) {
	outer := false
	for _, e := range o.a.pts(c, in.Addr) {
		if !rg.inner(e.o) {
			outer = true
		}
	}
	if !outer {
		return
	}
	// a variable of the iteration itself
	if al, ok := in.Addr.(*ssa.Alloc); ok && (rg.in(c, al) || rg.perRound(c, al, in)) {
		return
	}
	// an element of a sequence
	addr := in.Addr
	for {
		if fa, ok := addr.(*ssa.FieldAddr); ok {
			addr = fa.X
			continue
		}
		break
	}
	if ia, ok := addr.(*ssa.IndexAddr); ok {
		pIdx, oIdx := rg.p.shallow(c, ia.Index), rg.po.shallow(c, ia.Index)
		switch {
		case pIdx:
			return // a place of its own
		case oIdx:
			if rg.isPO(c, in.Val) {
				o.gen(c, in, o.a.pts(c, ia.X), "it is filled in "+fnName(c.fn)+" in the order of the elements of "+rg.base, rg)
			}
			return
		}
		if rg.p.shallow(c, ia.X) {
			return
		}
		if o.inLoopInside(rg, c, ia.Index) && !rg.isPO(c, in.Val) {
			return
		}
	}
	if rg.p.shallow(c, in.Addr) || !rg.isPO(c, in.Val) {
		return
	}
	if call, ok := in.Val.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return // judged at the append
		}
	}
	if commutes(in.Val, func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && sameAddr(u.X, in.Addr)
	}) {
		return
	}
	if rg.guardedSelf(o, c, in) {
		return
	}
	o.say("last-wins", id, o.a.p.instrPos(in), "in %s, what is kept depends on the order of the elements of %s", fnName(c.fn), rg.base)
}

func (o *order) inLoopInside(rg *region, c *Ctx, idx ssa.Value) bool {
	_, isConst := idx.(*ssa.Const)
	return !isConst
}

func sameAddr(x, y ssa.Value) bool {
	if x == y || sameConst(x, y) {
		return true
	}
	switch a := x.(type) {
	case *ssa.FieldAddr:
		b, ok := y.(*ssa.FieldAddr)
		return ok && a.Field == b.Field && sameAddr(a.X, b.X)
	case *ssa.IndexAddr:
		b, ok := y.(*ssa.IndexAddr)
		return ok && sameAddr(a.X, b.X) && sameAddr(a.Index, b.Index)
	case *ssa.UnOp:
		b, ok := y.(*ssa.UnOp)
		return ok && a.Op == b.Op && sameAddr(a.X, b.X)
	}
	return false
}

// commutes: the value is the old one combined by an operation in which order
// does not matter.
func commutes(v ssa.Value, old func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if old(v) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.BinOp:
			if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString != 0 {
				return false
			}
			switch x.Op {
			case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
				return walk(x.X) != walk(x.Y)
			case token.SUB, token.AND_NOT:
				return walk(x.X)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
				for _, y := range x.Call.Args {
					if walk(y) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

// guardedSelf: the stored value is compared with the stored one before
// (minimum or maximum).
func (rg *region) guardedSelf(o *order, c *Ctx, in *ssa.Store) bool {
	for b := in.Block().Idom(); b != nil; b = b.Idom() {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		isOld := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && sameAddr(u.X, in.Addr)
		}
		switch cmp.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if cmp.X == in.Val && isOld(cmp.Y) || cmp.Y == in.Val && isOld(cmp.X) {
				return true
			}
		}
	}
	return false
}

// phis judges what is carried from one iteration to the next in registers.
func (o *order) phis(rg *region) {
	if rg.dom == nil {
		return
	}
	d := rg.dom
	for _, in := range d.hdr.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if phi == d.phi {
			continue
		}
		refs := phi.Referrers()
		if refs == nil || len(*refs) == 0 {
			continue
		}
		seen := map[ssa.Value]bool{}
		isOld := func(x ssa.Value) bool {
			if x == phi {
				return true
			}
			p, ok := x.(*ssa.Phi)
			return ok && o.reachesPhi(p, phi, map[ssa.Value]bool{})
		}
		// minimum or maximum: only taken after a comparison with the old one
		minmax := func(e ssa.Value, from *ssa.BasicBlock, isOld func(ssa.Value) bool) bool {
			for b := from; b != nil && d.body[b]; b = b.Idom() {
				iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				if cmp, ok := iff.Cond.(*ssa.BinOp); ok {
					switch cmp.Op {
					case token.LSS, token.GTR, token.LEQ, token.GEQ:
						if cmp.X == e && isOld(cmp.Y) || cmp.Y == e && isOld(cmp.X) {
							return true
						}
					}
				}
			}
			return false
		}
		var ok2 func(v ssa.Value) bool
		ok2 = func(v ssa.Value) bool {
			if v == phi || seen[v] {
				return true
			}
			seen[v] = true
			if !rg.isPO(rg.ctx, v) {
				return true
			}
			if c, isC := v.(*ssa.Const); isC {
				_ = c
				return true
			}
			if commutes(v, isOld) {
				return true
			}
			switch x := v.(type) {
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					return true // judged at the append
				}
			case *ssa.Phi:
				if x.Block() != d.hdr {
					// minimum or maximum
					for i, e := range x.Edges {
						if isOld(e) {
							continue
						}
						if ok2(e) {
							continue
						}
						good := minmax(e, x.Block().Preds[i], isOld)
						if !good {
							return false
						}
					}
					return true
				}
			}
			return false
		}
		for i, e := range phi.Edges {
			if !d.body[phi.Block().Preds[i]] {
				continue
			}
			if !ok2(e) && !minmax(e, phi.Block().Preds[i], isOld) {
				name := phi.Comment
				o.say("last-wins", fnName(rg.ctx.fn)+" "+name, o.a.p.instrPos(firstPos(phi, d)), "in %s, %s depends on the order of the elements of %s", fnName(rg.ctx.fn), nameOr(name, "a variable"), rg.base)
			}
		}
	}
}

func nameOr(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func firstPos(phi *ssa.Phi, d *Domain) ssa.Instruction {
	if phi.Pos().IsValid() {
		return phi
	}
	for _, in := range d.hdr.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	return phi
}

func (o *order) reachesPhi(p, want *ssa.Phi, seen map[ssa.Value]bool) bool {
	if p == want {
		return true
	}
	if seen[p] {
		return false
	}
	seen[p] = true
	for _, e := range p.Edges {
		if q, ok := e.(*ssa.Phi); ok && o.reachesPhi(q, want, seen) {
			return true
		}
	}
	return false
}

// exits judges what leaves the loop before its end.
func (o *order) exits(rg *region) {
	if rg.dom == nil {
		return
	}
	d := rg.dom
	exit := d.hdr // its successor outside is the normal end
	_ = exit
	for _, b := range rg.ctx.fn.Blocks {
		if !d.body[b] || b == d.hdr && d.kind != "other" {
			continue
		}
		for _, s := range b.Succs {
			if d.body[s] || panicsOnly(s, map[*ssa.BasicBlock]bool{}) {
				continue
			}
			// an early exit b -> s
			if o.keyGuard(rg, b, s) {
				continue
			}
			id := fnName(rg.ctx.fn)
			bad := ""
			// what is used outside
			for x := range d.body {
				for _, in := range x.Instrs {
					v, ok := in.(ssa.Value)
					if !ok || !rg.po.shallow(rg.ctx, v) && !(rg.isPO(rg.ctx, v) && pointerish(v.Type())) || x == d.hdr && isPhiOrNext(in) {
						continue
					}
					if v.Referrers() == nil {
						continue
					}
					for _, u := range *v.Referrers() {
						ub := u.Block()
						if p, ok := u.(*ssa.Phi); ok && !d.body[ub] {
							for i, e := range p.Edges {
								pb := p.Block().Preds[i]
								if e == v && (d.body[pb] && pb != d.hdr || !d.body[pb] && reachesBlock(s, pb, d)) {
									bad = o.a.p.instrPos(in)
								}
							}
							continue
						}
						if !d.body[ub] && reachesBlock(s, ub, d) {
							bad = o.a.p.instrPos(u)
						}
					}
				}
			}
			if bad != "" {
				o.say("first-wins", id, bad, "%s leaves a loop over %s early with what depends on the element it has met first", id, rg.base)
				continue
			}
			// different results of different early ends
		}
	}
	// constant results of several early returns
	var first *ssa.Return
	for _, b := range rg.ctx.fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || d.body[b] {
			continue
		}
		early := false
		for _, p := range b.Preds {
			if d.body[p] && p != d.hdr && !o.keyGuard(rg, p, b) {
				early = true
			}
		}
		if !early {
			continue
		}
		if first != nil {
			for i := range ret.Results {
				if ret.Results[i] != first.Results[i] && !sameConst(ret.Results[i], first.Results[i]) {
					o.say("first-wins", fnName(rg.ctx.fn), o.a.p.instrPos(ret), "%s leaves a loop over %s early with one of several results, depending on which element it has met first", fnName(rg.ctx.fn), rg.base)
				}
			}
		}
		first = ret
	}
	// a loop left with break keeps what it has done so far
	for _, b := range rg.ctx.fn.Blocks {
		if !d.body[b] || b == d.hdr {
			continue
		}
		for _, s := range b.Succs {
			if d.body[s] || panicsOnly(s, map[*ssa.BasicBlock]bool{}) || o.keyGuard(rg, b, s) {
				continue
			}
			norm := d.hdr.Succs[1-d.in]
			if !reachesBlock(s, norm, d) && !reachesBlock(norm, s, d) {
				continue
			}
			if pos := o.keeps(rg); pos != "" {
				o.say("first-wins", fnName(rg.ctx.fn)+" partial", pos, "%s leaves a loop over %s early: what it has collected until then depends on the order", fnName(rg.ctx.fn), rg.base)
			}
		}
	}
}

// keeps finds a lasting effect of an iteration.
func (o *order) keeps(rg *region) string {
	for _, c := range o.a.ctxs {
		if c.root != o.root || !under(c, rg.ctx) {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				if !rg.in(c, in) {
					continue
				}
				switch in := in.(type) {
				case *ssa.MapUpdate:
					for _, e := range o.a.pts(c, in.Map) {
						if !rg.inner(e.o) && (rg.isPO(c, in.Key) || rg.isPO(c, in.Value)) {
							return o.a.p.instrPos(in)
						}
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if (rg.isPO(c, in.Call.Args[1]) || o.partsPO(rg, c, in.Call.Args[1])) && o.outerAcc(rg, c, in.Call.Args[0], nil) {
							return o.a.p.instrPos(in)
						}
					}
				}
			}
		}
	}
	return ""
}

func isPhiOrNext(in ssa.Instruction) bool {
	switch in.(type) {
	case *ssa.Phi, *ssa.Next:
		return true
	}
	return false
}

func panicsOnly(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		return false
	}
	for _, s := range b.Succs {
		if !panicsOnly(s, seen) {
			return false
		}
	}
	return true
}

func reachesBlock(from, to *ssa.BasicBlock, d *Domain) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] || d.body[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

// keyGuard: the exit is taken only for one particular key.
func (o *order) keyGuard(rg *region, b, to *ssa.BasicBlock) bool {
	for x := b; x != nil && rg.dom.body[x]; x = x.Idom() {
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		k := func(x, y ssa.Value) bool { return o.isKey(rg, rg.ctx, x) && !rg.po.shallow(rg.ctx, y) }
		if !k(cmp.X, cmp.Y) && !k(cmp.Y, cmp.X) {
			continue
		}
		// on the side where they are equal
		eq := x.Succs[0]
		if cmp.Op == token.NEQ {
			eq = x.Succs[1]
		}
		if x == b && eq == to && x.Succs[0] != x.Succs[1] || len(eq.Preds) == 1 && eq.Dominates(b) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// slices in no particular order

type unordState map[*Obj]string

// flowUnordered follows the slices in no particular order through the
// operation. It gives the loops over such slices.
func (o *order) flowUnordered(final bool) (again bool) {
	in := make([]unordState, len(o.g.nodes))
	start := o.g.entry[o.root.ctx]
	in[start] = unordState{}
	work := []int{start}
	inWork := map[int]bool{start: true}
	for len(work) > 0 {
		id := work[0]
		work = work[1:]
		delete(inWork, id)
		n := o.g.nodes[id]
		out := o.transfer(n, in[id])
		for _, s := range n.succ {
			ch := false
			if in[s] == nil {
				in[s] = unordState{}
				ch = true
			}
			for k, w := range out {
				if _, ok := in[s][k]; !ok {
					in[s][k] = w
					ch = true
				}
			}
			if ch && !inWork[s] {
				inWork[s] = true
				work = append(work, s)
			}
		}
	}
	for id, n := range o.g.nodes {
		if len(in[id]) == 0 || n.in == nil || n.kind != kInstr {
			continue
		}
		if o.use(n, in[id], final) {
			again = true
		}
	}
	if final {
		if st := in[o.g.exit[o.root.ctx]]; len(st) > 0 {
			o.atEnd(st)
		}
	}
	return again
}

func (o *order) transfer(n *GNode, st unordState) unordState {
	if n.in == nil {
		return st
	}
	if n.kind == kInstr || n.kind == kDefer {
		if m := o.gens[siteKey{n.ctx, n.in}]; m != nil {
			st = st.plus(m)
		}
	}
	ci, ok := n.in.(ssa.CallInstruction)
	if !ok {
		return st
	}
	cc := ci.Common()
	if n.kind == kInstr {
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				if len(cc.Args) < 2 {
					return st
				}
				for _, x := range cc.Args {
					if w, ok := o.has(st, n.ctx, x); ok {
						m := map[*Obj]string{}
						for _, e := range o.a.pts(n.ctx, ci.Value()) {
							m[canon(e.o)] = w
						}
						return st.plus(m)
					}
				}
			case "copy":
				if w, ok := o.has(st, n.ctx, cc.Args[1]); ok {
					m := map[*Obj]string{}
					for _, e := range o.a.pts(n.ctx, cc.Args[0]) {
						m[canon(e.o)] = w
					}
					return st.plus(m)
				}
			}
			return st
		}
	}
	if n.kind == kInstr || n.kind == kRet {
		key := callKey(cc)
		if isSort(key) && len(cc.Args) > 0 && key != "sort.Search" && len(st) > 0 && n.kind == kRet || isSort(key) && o.noRet(n) {
			if o.totalOrder(n.ctx, ci, key) {
				objs := o.closure(n.ctx, cc.Args[0], true)
				var nw unordState
				for x := range objs {
					if _, ok := st[x]; ok {
						if nw == nil {
							nw = unordState{}
							for k, w := range st {
								nw[k] = w
							}
						}
						delete(nw, x)
					}
				}
				if nw != nil {
					return nw
				}
			} else if o.byLength(n.ctx, ci) {
				// different keys of the same length stay in no particular order
				nw := unordState{}
				for k, w := range st {
					nw[k] = w
				}
				for x := range o.closure(n.ctx, cc.Args[0], true) {
					if w, ok := st[x]; ok && strings.HasSuffix(w, tagKeys) {
						nw[x] = strings.TrimSuffix(w, tagKeys) + tagLen
					}
				}
				return nw
			}
			return st
		}
		if v := ci.Value(); v != nil && (n.kind == kRet || o.noRet(n)) {
			unord := ""
			switch {
			case strings.HasPrefix(key, "reflect.") && strings.HasSuffix(key, ".MapKeys"):
				unord = "it holds the keys of a map in no particular order"
			case strings.HasPrefix(key, "slices.Collect"), strings.HasPrefix(key, "slices.AppendSeq"):
				for _, x := range cc.Args {
					if o.fromMapSeq(x) {
						unord = "it holds the entries of a map in no particular order"
					}
				}
			case strings.HasPrefix(key, "golang.org/x/exp/maps.Keys"), strings.HasPrefix(key, "golang.org/x/exp/maps.Values"):
				unord = "it holds the entries of a map in no particular order"
			case strings.HasPrefix(key, "slices.") && !strings.HasPrefix(key, "slices.Sort"):
				for _, x := range cc.Args {
					if w, ok := o.has(st, n.ctx, x); ok {
						unord = w
					}
				}
			}
			if unord != "" {
				m := map[*Obj]string{}
				for _, e := range o.a.pts(n.ctx, v) {
					m[canon(e.o)] = unord
				}
				return st.plus(m)
			}
		}
	}
	return st
}

// noRet: the call has no separate return node.
func (o *order) noRet(n *GNode) bool {
	if n.kind != kInstr {
		return false
	}
	for _, s := range n.succ {
		m := o.g.nodes[s]
		if m.in == n.in && m.ctx == n.ctx {
			return false
		}
	}
	return true
}

func (o *order) fromMapSeq(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	k := callKey(c.Common())
	return strings.HasPrefix(k, "maps.Keys") || strings.HasPrefix(k, "maps.Values") || strings.HasPrefix(k, "maps.All")
}

func (st unordState) plus(m map[*Obj]string) unordState {
	nw := unordState{}
	for k, w := range st {
		nw[k] = w
	}
	for k, w := range m {
		if _, ok := nw[k]; !ok {
			nw[k] = w
		}
	}
	return nw
}

func (o *order) has(st unordState, ctx *Ctx, v ssa.Value) (string, bool) {
	if _, ok := v.Type().Underlying().(*types.Slice); !ok {
		return "", false
	}
	for _, e := range o.a.pts(ctx, v) {
		if w, ok := st[canon(e.o)]; ok {
			return w, true
		}
	}
	return "", false
}

// closure lists the objects a value refers to, directly or not.
func (o *order) closure(ctx *Ctx, v ssa.Value, held bool) map[*Obj]bool {
	out := map[*Obj]bool{}
	var walk func(x *Obj, d int)
	walk = func(x *Obj, d int) {
		x = canon(x)
		if out[x] || x.kind == oFunc || d > 12 {
			return
		}
		out[x] = true
		if x.kind == oClosure {
			return
		}
		for p, n := range x.cells {
			if p == "~held" && !held {
				continue
			}
			for _, e := range n.list() {
				walk(e.o, d+1)
			}
		}
	}
	if pointerish(v.Type()) {
		for _, e := range o.a.pts(ctx, v) {
			walk(e.o, 0)
		}
	} else {
		for _, l := range leaves(v.Type(), false) {
			for _, e := range o.a.reg(ctx, v, l.path).list() {
				walk(e.o, 0)
			}
		}
	}
	return out
}

func inSort(c *Ctx) bool {
	for ; c != nil && c.parent != nil; c = c.parent {
		if ci, ok := c.site.(ssa.CallInstruction); ok && (isSort(callKey(ci.Common())) || strings.HasPrefix(callKey(ci.Common()), "container/heap.")) {
			return true
		}
	}
	return false
}

// use judges an instruction that sees slices in no particular order.
func (o *order) use(n *GNode, st unordState, final bool) (again bool) {
	switch in := n.in.(type) {
	case *ssa.IndexAddr:
		w, ok := o.has(st, n.ctx, in.X)
		if !ok || inSort(n.ctx) {
			return false
		}
		read := false
		for _, u := range *in.Referrers() {
			if s, ok := u.(*ssa.Store); !ok || s.Addr != in {
				read = true
			}
		}
		if !read {
			return false
		}
		for _, d := range o.domains(n.ctx.fn) {
			if d.kind != "count" || !d.body[in.Block()] {
				continue
			}
			l := lin(in.Index)
			if l.v != d.phi {
				continue
			}
			rg := &region{ctx: n.ctx, dom: d, base: "a slice in no particular order (" + w + ")"}
			for _, u := range loadsThrough(in) {
				for _, ll := range allLeaves(u.Type()) {
					rg.src = append(rg.src, o.f.reg(n.ctx, u, ll.path))
				}
			}
			rg.src = append(rg.src, o.f.reg(n.ctx, in, ""))
			return o.add(rg)
		}
		// an index that is itself an element or a lookup
		if final {
			o.say("order", fnName(n.ctx.fn), o.a.p.instrPos(in), "%s reads a particular element of a slice in no particular order: %s", fnName(n.ctx.fn), w)
		}
	case ssa.CallInstruction:
		if !final {
			return false
		}
		cc := in.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return false
		}
		si := o.a.callees[siteKey{n.ctx, in}]
		if si == nil || !si.external && !si.user {
			return false
		}
		key := callKey(cc)
		if isSort(key) || strings.HasPrefix(key, "slices.") || strings.HasPrefix(key, "sync.") || strings.HasPrefix(key, "maps.") {
			return false
		}
		for _, x := range cc.Args {
			cl := o.closure(n.ctx, x, false)
			var hit []string
			for y := range cl {
				if w, ok := st[y]; ok && !(key == "strings.NewReplacer" && strings.Contains(w, tagLen)) {
					hit = append(hit, w)
				}
			}
			if len(hit) > 0 {
				sort.Strings(hit)
				what := key
				if what == "" {
					what = "user code"
				}
				o.say("order", fnName(n.ctx.fn)+" "+key, o.a.p.instrPos(in), "%s gives %s a slice in no particular order: %s", fnName(n.ctx.fn), what, hit[0])
				return false
			}
		}
	}
	return false
}

// loadsThrough lists what is read at or below an address.
func loadsThrough(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp:
			if u.Op == token.MUL {
				out = append(out, u)
			}
		case *ssa.FieldAddr:
			out = append(out, loadsThrough(u)...)
		case *ssa.IndexAddr:
			if u.X == v {
				out = append(out, loadsThrough(u)...)
			}
		}
	}
	return out
}

// atEnd judges what the operation leaves behind.
func (o *order) atEnd(st unordState) {
	if o.root.init {
		for _, n := range o.a.objs {
			if n.kind != oGlobal {
				continue
			}
			seen := map[*Obj]bool{}
			o.leaks(n, seen, st, "variable "+n.tag, false)
		}
		return
	}
	for _, b := range o.root.fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range ret.Results {
			for x := range o.closure(o.root.ctx, v, false) {
				if w, ok := st[x]; ok {
					o.say("order", "result "+o.root.name, o.a.p.instrPos(ret), "%s answers with a slice in no particular order: %s", o.root.name, w)
				}
			}
		}
	}
	for x, w := range st {
		if (x.shared || x.twin != nil) && !strings.Contains(w, tagLen) {
			o.say("order", "kept "+o.root.name, "-", "%s keeps a slice in no particular order: %s", o.root.name, w)
		}
	}
}

func (o *order) leaks(x *Obj, seen map[*Obj]bool, st unordState, what string, inside bool) {
	x = canon(x)
	if seen[x] || x.kind == oFunc || x.kind == oClosure {
		return
	}
	seen[x] = true
	if w, ok := st[x]; ok && !(inside && strings.Contains(w, tagLen)) {
		o.say("order", what, "-", "%s keeps a slice in no particular order: %s", what, w)
	}
	for p, n := range x.cells {
		for _, e := range n.list() {
			o.leaks(e.o, seen, st, what, inside || p == "~held")
		}
	}
}

// ---------------------------------------------------------------------------
// comparison functions

// A slice holds different keys of a map, or was sorted by their lengths: then
// no replacer made from it can tell in which order those of the same length
// are, as at most one of them matches anywhere.
const tagKeys, tagLen = "\x01", "\x02"

// byLength tells whether a sort compares lengths and nothing else.
func (o *order) byLength(ctx *Ctx, ci ssa.CallInstruction) bool {
	si := o.a.callees[siteKey{ctx, ci}]
	if si == nil || len(si.callbacks) == 0 {
		return false
	}
	any := false
	for _, c := range si.callbacks {
		if nm := c.fn.Name(); nm == "Len" || nm == "Swap" {
			continue
		}
		if len(c.fn.Params) < 2 {
			return false
		}
		ps := c.fn.Params[len(c.fn.Params)-2:]
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.BinOp:
					x, ok1 := o.elemOf(c, in.X, ps, 0)
					y, ok2 := o.elemOf(c, in.Y, ps, 0)
					if !ok1 || !ok2 || x.idx == y.idx || x.fn != "len" || y.fn != "len" || x.path != "" || y.path != "" {
						return false
					}
					switch in.Op {
					case token.LSS, token.GTR, token.SUB:
						any = true
					default:
						return false
					}
				case *ssa.If, *ssa.Phi:
					return false
				case *ssa.Call:
					if _, ok := in.Common().Value.(*ssa.Builtin); !ok {
						if k := callKey(in.Common()); !strings.HasPrefix(k, "cmp.Compare") {
							return false
						}
						any = true
					}
				}
			}
		}
	}
	return any
}

// totalOrder tells whether a sort leaves only one possible order.
func (o *order) totalOrder(ctx *Ctx, ci ssa.CallInstruction, key string) bool {
	cc := ci.Common()
	name := key[strings.LastIndex(key, ".")+1:]
	if i := strings.Index(name, "["); i >= 0 {
		name = name[:i]
	}
	switch name {
	case "Strings", "Ints", "Float64s":
		return true
	case "Sort", "Stable":
		if strings.HasPrefix(key, "slices.") {
			return true
		}
	}
	si := o.a.callees[siteKey{ctx, ci}]
	if si == nil {
		return true
	}
	// the comparison functions
	any := false
	for _, c := range si.callbacks {
		nm := c.fn.Name()
		if nm == "Len" || nm == "Swap" {
			continue
		}
		any = true
		if !o.totalCompare(ctx, ci, c) {
			return false
		}
	}
	if !any {
		// a type of the standard library, or unknown
		return true
	}
	_ = cc
	return true
}

type elemRef struct {
	idx  int // which of the two
	path string
	fn   string // computed through
}

// elemOf sees through how a comparison function reads an element.
func (o *order) elemOf(c *Ctx, v ssa.Value, ps []*ssa.Parameter, d int) (elemRef, bool) {
	path, fnc := "", ""
	for ; d < 40; d++ {
		for i, p := range ps {
			if v == p {
				return elemRef{i, path, fnc}, true
			}
		}
		switch x := v.(type) {
		case *ssa.Field:
			path = fieldPath(x.X.Type(), x.Field) + path
			v = x.X
		case *ssa.FieldAddr:
			path = fieldPath(deref(x.X.Type()), x.Field) + path
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return elemRef{}, false
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := wholeStore(al); s != nil {
					v = s.Val
					continue
				}
			}
			v = x.X
		case *ssa.Alloc:
			if s := wholeStore(x); s != nil {
				v = s.Val
				continue
			}
			return elemRef{}, false
		case *ssa.Index:
			if k, ok := constInt(x.Index); ok {
				path = fmt.Sprintf("[%d]", k) + path
				v = x.X
				continue
			}
			return elemRef{}, false
		case *ssa.IndexAddr:
			if k, ok := constInt(x.Index); ok {
				path = fmt.Sprintf("[%d]", k) + path
				v = x.X
				continue
			}
			// the element itself
			idx := x.Index
			if cv, ok := idx.(*ssa.Convert); ok {
				idx = cv.X
			}
			for i, p := range ps {
				if idx == p {
					return elemRef{i, path, fnc}, true
				}
			}
			return elemRef{}, false
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); !ok {
				return elemRef{}, false
			}
			if x.Op != token.ADD && x.Op != token.SUB {
				fnc, path = x.Op.String()+path, ""
			}
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				fnc = b.Name() + path
				if len(x.Call.Args) == 0 {
					return elemRef{}, false
				}
				path = ""
				v = x.Call.Args[0]
				continue
			}
			if len(x.Call.Args) == 0 {
				return elemRef{}, false
			}
			fnc = "call" + path
			path = ""
			v = x.Call.Args[0]
		default:
			return elemRef{}, false
		}
	}
	return elemRef{}, false
}

func (o *order) totalCompare(at *Ctx, ci ssa.CallInstruction, c *Ctx) bool {
	fn := c.fn
	if len(fn.Params) < 2 {
		return true
	}
	ps := fn.Params[len(fn.Params)-2:]
	compared := map[string]bool{}
	computed := map[string]bool{}
	unknown := false
	see := func(x, y ssa.Value) {
		a, ok1 := o.elemOf(c, x, ps, 0)
		b, ok2 := o.elemOf(c, y, ps, 0)
		if !ok1 || !ok2 {
			return
		}
		if a.idx == b.idx || a.path != b.path || a.fn != b.fn {
			return
		}
		if a.fn != "" {
			computed[a.fn] = true
			return
		}
		compared[a.path] = true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					see(in.X, in.Y)
				}
			case *ssa.Call:
				k := callKey(in.Common())
				if len(in.Call.Args) == 2 {
					see(in.Call.Args[0], in.Call.Args[1])
				}
				if cal := in.Common().StaticCallee(); cal != nil && isRepoFn(cal) {
					// a helper that compares
					unknown = true
				}
				_ = k
			}
		}
	}
	if unknown && len(compared) == 0 && len(computed) == 0 {
		return true
	}
	if compared[""] {
		return true
	}
	// the element type
	var et types.Type
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				for _, p := range ps {
					if ia.Index == p {
						et = deref(ia.Type())
					}
				}
			}
		}
	}
	if et == nil {
		et = ps[0].Type()
	}
	if p, ok := et.Underlying().(*types.Pointer); ok {
		_ = p
		return len(compared) > 0 || computed["call"]
	}
	if b, ok := et.Underlying().(*types.Basic); ok {
		_ = b
		return len(compared) == 0 && len(computed) == 0 // unknown shape: no verdict
	}
	if len(compared) == 0 && len(computed) == 0 {
		return true
	}
	ls := flatLeaves(et)
	for _, l := range ls {
		if b, ok := l.t.Underlying().(*types.Basic); !ok || b == nil {
			// something that cannot be compared: a key is enough
			for p := range compared {
				if p != "" {
					return true
				}
			}
			return computed["call"]
		}
	}
	all := true
	for _, l := range ls {
		if !compared[l.path] {
			all = false
		}
	}
	if all {
		return true
	}
	// one of them is the key of the map
	return o.comparesKey(at, ci, compared)
}

// flatLeaves lists the parts of a type, with array elements told apart.
func flatLeaves(t types.Type) []leaf {
	var out []leaf
	var walk func(t types.Type, p string)
	walk = func(t types.Type, p string) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), p+"."+u.Field(i).Name())
			}
		case *types.Array:
			if u.Len() > 8 {
				out = append(out, leaf{p, t})
				return
			}
			for i := int64(0); i < u.Len(); i++ {
				walk(u.Elem(), fmt.Sprintf("%s[%d]", p, i))
			}
		default:
			out = append(out, leaf{p, t})
		}
	}
	walk(t, "")
	return out
}

// comparesKey: the slice holds at most one element per key of a map, and the
// key is compared.
func (o *order) comparesKey(at *Ctx, ci ssa.CallInstruction, compared map[string]bool) bool {
	objs := o.closure(at, ci.Common().Args[0], true)
	n := 0
	for k, m := range o.gens {
		hit := false
		for x := range m {
			if objs[x] {
				hit = true
			}
		}
		if !hit {
			continue
		}
		n++
		rg := o.genKey[k]
		if rg == nil || rg.dom == nil || rg.dom.next == nil || k.ctx != rg.ctx {
			return false
		}
		for _, d := range o.domains(k.ctx.fn) {
			if d != rg.dom && d.body[k.in.Block()] && rg.dom.body[d.hdr] {
				return false // several per key
			}
		}
		var vals ssa.Value
		switch in := k.in.(type) {
		case *ssa.Call:
			vals = in.Call.Args[len(in.Call.Args)-1]
		default:
			return false
		}
		sl, ok := vals.(*ssa.Slice)
		if !ok {
			return false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		found := false
		for _, u := range *al.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, w := range *ia.Referrers() {
				switch w := w.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr:
					if st := fieldStore(w.(ssa.Instruction)); st != nil && o.isKey(rg, rg.ctx, st.Val) && compared[partPath(w.(ssa.Value))] {
						found = true
					}
				case *ssa.Store:
					// a composite built before
					if un, ok := w.Val.(*ssa.UnOp); ok {
						if cl, ok := un.X.(*ssa.Alloc); ok {
							for _, q := range *cl.Referrers() {
								if st := fieldStore(q); st != nil && o.isKey(rg, rg.ctx, st.Val) && compared[partPath(q.(ssa.Value))] {
									found = true
								}
							}
						}
					}
				}
			}
		}
		if !found {
			return false
		}
	}
	return n > 0
}

func partPath(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldPath(deref(x.X.Type()), x.Field)
	case *ssa.IndexAddr:
		if k, ok := constInt(x.Index); ok {
			return fmt.Sprintf("[%d]", k)
		}
	}
	return "?"
}

// ---------------------------------------------------------------------------
// other sources

func ambient(key string) string {
	switch {
	case key == "time.Now" || key == "time.Since" || key == "time.Until":
		return "the clock"
	case strings.HasPrefix(key, "math/rand"), strings.HasPrefix(key, "crypto/rand."), strings.HasPrefix(key, "hash/maphash."):
		return "random numbers"
	case key == "os.Getenv", key == "os.LookupEnv", key == "os.Environ", key == "os.ExpandEnv":
		return "the environment"
	case key == "os.Getpid", key == "os.Getppid", key == "os.Hostname", key == "os.Getwd", key == "os.UserHomeDir", key == "os.Executable", key == "os.TempDir":
		return "the process"
	case strings.HasPrefix(key, "runtime.Num"), key == "runtime.GOMAXPROCS", key == "runtime.ReadMemStats", key == "runtime.Stack", key == "runtime.Caller":
		return "the run time"
	}
	return ""
}

func (a *PTA) ambientRules(r *Report, f *Flow, lib bool) {
	type source struct {
		n    fnode
		what string
		in   ssa.Instruction
		c    *Ctx
	}
	var srcs []source
	for _, c := range a.ctxs {
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					cc := in.Common()
					key := callKey(cc)
					r.count("external calls", 1)
					if w := ambient(key); w != "" && in.Value() != nil {
						for _, l := range allLeaves(in.Value().Type()) {
							srcs = append(srcs, source{f.reg(c, in.Value(), l.path), w, in, c})
						}
					}
					if strings.HasPrefix(key, "fmt.") {
						for i, x := range cc.Args {
							if s, ok := constStr(x); ok && i < 2 && strings.Contains(strings.ReplaceAll(s, "%%", ""), "%p") {
								if in.Value() != nil {
									for _, l := range allLeaves(in.Value().Type()) {
										srcs = append(srcs, source{f.reg(c, in.Value(), l.path), "an address", in, c})
									}
								}
							}
						}
					}
				case *ssa.Select:
					if lib && len(in.States) > 1 || lib && !in.Blocking {
						r.fail("select", fnName(c.fn), a.p.instrPos(in), "%s takes whichever of several channels is ready first", fnName(c.fn))
					}
				}
			}
		}
	}
	for _, s := range srcs {
		t := f.taint(true, nil, s.n)
		key := fnName(s.c.fn) + " " + s.what
		where := a.p.instrPos(s.in)
		for _, root := range a.roots {
			if !root.api {
				continue
			}
			for _, b := range root.fn.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for i, v := range ret.Results {
					if t.tainted(root.ctx, v) || t.has(fnode{ctx: root.ctx, path: "return#" + itoa(i)}) {
						r.fail("ambient", key, where, "the result of %s depends on %s, read in %s", root.name, s.what, fnName(s.c.fn))
					}
				}
			}
		}
		for n := range t.nodes {
			if n.o != nil && (n.o.kind == oGlobal && isRepoVar(n.o) || n.o.shared && n.o.kind == oAlloc || n.o.twin != nil) {
				r.fail("ambient", key, where, "%s, read in %s, decides what is kept in %s", s.what, fnName(s.c.fn), n.o)
			}
		}
		for _, c := range a.ctxs {
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					si := a.callees[siteKey{c, in}]
					emit := si != nil && si.user || prints(callKey(ci.Common())) && !lib || strings.HasPrefix(callKey(ci.Common()), "fmt.Fprint")
					if !emit {
						continue
					}
					bad := false
					for _, x := range ci.Common().Args {
						if t.tainted(c, x) {
							bad = true
						}
					}
					if _, ok := t.blocks[blockKey{c, b}]; ok {
						bad = true
					}
					if bad {
						r.fail("ambient", key, where, "what %s gives to user code or prints depends on %s, read in %s", fnName(c.fn), s.what, fnName(s.c.fn))
					}
				}
			}
		}
	}
}

func isRepoVar(o *Obj) bool {
	g, ok := o.site.(*ssa.Global)
	return ok && g.Pkg != nil && isRepoPath(g.Pkg.Pkg.Path())
}

// scheduling: what goroutines started in a loop leave behind must not depend
// on which of them is faster.
func (a *PTA) scheduling(r *Report, loops func(*ssa.Function) []*Domain) {
	for _, root := range a.roots {
		if root.spawn == nil || root.ctx == nil {
			continue
		}
		if len(loopsAround(loops, root.spawn)) == 0 {
			continue
		}
		r.count("goroutines started in loops", 1)
		for _, c := range a.ctxs {
			if c.root != root {
				continue
			}
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					key := fnName(c.fn)
					switch in := in.(type) {
					case *ssa.Send:
						if _, isConst := in.X.(*ssa.Const); isConst || emptyStruct(in.X.Type()) {
							continue
						}
						r.fail("schedule", key, a.p.instrPos(in), "%s sends results from several goroutines in the order they happen to finish", key)
					case *ssa.Store:
						if _, isConst := in.Val.(*ssa.Const); isConst {
							continue
						}
						if _, isIdx := in.Addr.(*ssa.IndexAddr); isIdx {
							continue
						}
						for _, e := range a.pts(c, in.Addr) {
							if e.o.ctx == nil || e.o.ctx.root == root || !e.o.shared && e.o.twin == nil && e.o.orig == nil {
								continue
							}
							if perIteration(loops, root.spawn, e.o) {
								continue
							}
							r.fail("schedule", key, a.p.instrPos(in), "%s keeps a result of several goroutines in the order they happen to finish", key)
						}
					}
				}
			}
		}
	}
}

func loopsAround(loops func(*ssa.Function) []*Domain, in ssa.Instruction) []*Domain {
	var out []*Domain
	for _, d := range loops(in.Parent()) {
		if d.body[in.Block()] {
			out = append(out, d)
		}
	}
	return out
}

// perIteration: an object made anew for every goroutine.
func perIteration(loops func(*ssa.Function) []*Domain, spawn ssa.Instruction, x *Obj) bool {
	in, ok := canon(x).site.(ssa.Instruction)
	if !ok || in.Parent() != spawn.Parent() {
		return false
	}
	for _, d := range loopsAround(loops, spawn) {
		if d.body[in.Block()] {
			return true
		}
	}
	return false
}

func emptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func (a *PTA) orderRules(r *Report, f *Flow) {
	loops := map[*ssa.Function][]*Domain{}
	for _, root := range a.roots {
		if root.ctx == nil {
			continue
		}
		o := &order{a: a, r: r, f: f, root: root, loops: loops, regions: map[regionKey]*region{}, gens: map[siteKey]map[*Obj]string{}, genKey: map[siteKey]*region{}, quiet: true}
		o.mapRegions()
		o.g = a.graph(root)
		r.count("operations", 1)
		for i := 0; i < 12; i++ {
			n := len(o.gens)
			for j := 0; j < len(o.list); j++ {
				o.check(o.list[j])
			}
			if !o.flowUnordered(false) && len(o.gens) == n {
				break
			}
		}
		o.quiet = false
		for _, rg := range o.list {
			o.check(rg)
		}
		o.flowUnordered(true)
		r.count("unordered slices", len(o.gens))
	}
	a.scheduling(r, func(fn *ssa.Function) []*Domain {
		ds, ok := loops[fn]
		if !ok {
			ds = loopsOf(fn)
			loops[fn] = ds
		}
		return ds
	})
}

func init() {
	register("C03", func(e *Env, r *Report) {
		r.rule("A loop over a map, or over a slice filled in the order of such a loop and not sorted by a total order since, does only what comes out the same in every order: entries under the key of the iteration, unions, counts, minima; it keeps no first or last element, appends, prints, writes or calls in no order that reaches a result.")
		r.rule("Nothing read from the clock, random numbers, the environment or the process reaches a result, a trace or lasting memory; goroutines leave nothing whose content depends on which finishes first.")
		for _, a := range []*PTA{e.Lib(), e.Cmds()} {
			lib := a == e.Lib()
			f := a.flow(nil)
			a.orderRules(r, f)
			a.ambientRules(r, f, lib)
			r.analysedBy(a, a.roots)
		}
		r.need("operations", 60)
		r.need("unordered loops", 20)
		r.need("unordered slices", 10)
	})
}
