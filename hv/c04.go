package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wordRoots are the operations that process a word, with the parameter that
// carries it.
func (a *PTA) wordRoots() map[*Root]*ssa.Parameter {
	out := map[*Root]*ssa.Parameter{}
	add := func(r *Root, fn *ssa.Function) {
		if r == nil || !r.api {
			return
		}
		var w *ssa.Parameter
		for _, p := range fn.Params {
			if isStringT(p.Type()) {
				w = p
			}
		}
		if w != nil {
			out[r] = w
		}
	}
	rt := func(fn *ssa.Function) *Root {
		for _, r := range a.roots {
			if r.api && r.fn == fn {
				return r
			}
		}
		return nil
	}
	for _, r := range a.roots {
		if !r.api || r.fn == nil {
			continue
		}
		switch r.fn.Name() {
		case "Hangulize", "Transliterate", "Replace", "Find", "Interpolate", "ComposeHangul":
			add(rt(r.fn), r.fn)
		}
	}
	return out
}

// loadsOf lists the registers of a root that hold what was read from a memory
// location.
func (a *PTA) loadsOf(f *Flow, root *Root, o *Obj, path string) []fnode {
	var out []fnode
	for _, c := range a.ctxs {
		if c.root != root {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				hit := false
				switch in := in.(type) {
				case *ssa.UnOp, *ssa.Lookup, *ssa.Next:
					a.accesses(c, in.(ssa.Instruction), func(ac Access) {
						if !ac.write && ac.o == o && (ac.path == path || strings.HasPrefix(ac.path, path) || strings.HasPrefix(path, ac.path) && ac.prefix) {
							hit = true
						}
					})
				case *ssa.Call:
					key := callKey(in.Common())
					if strings.HasPrefix(key, "sync/atomic.") || strings.HasPrefix(key, "sync.Map.") || key == "builtin.len" || isBuiltin(in) {
						for _, x := range in.Common().Args {
							if !pointerish(x.Type()) {
								continue
							}
							for _, e := range a.pts(c, x) {
								if canon(e.o) == o {
									hit = true
								}
							}
							break
						}
					}
				}
				if hit {
					for _, l := range allLeaves(v.Type()) {
						out = append(out, f.reg(c, v, l.path))
					}
				}
			}
		}
	}
	return out
}

// under tells whether an instruction runs only if a branch on a tainted value
// is taken.
func (t *Taint) under(ctx *Ctx, b *ssa.BasicBlock) bool {
	for ctx != nil {
		cd := t.f.controls(ctx.fn)
		seen := map[*ssa.BasicBlock]bool{}
		st := []*ssa.BasicBlock{b}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			for _, y := range cd[x] {
				if seen[y] {
					continue
				}
				seen[y] = true
				st = append(st, y)
				if i, ok := y.Instrs[len(y.Instrs)-1].(*ssa.If); ok {
					for _, l := range allLeaves(i.Cond.Type()) {
						if t.has(t.f.reg(ctx, i.Cond, l.path)) {
							return true
						}
					}
				}
			}
		}
		if ctx.site == nil {
			return false
		}
		b = ctx.site.Block()
		ctx = ctx.parent
	}
	return false
}

// ifUnset tells whether an instruction runs only if something that was read is
// found to be not set.
func (t *Taint) ifUnset(ctx *Ctx, b *ssa.BasicBlock) bool {
	for ctx != nil {
		for _, x := range ctx.fn.Blocks {
			iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cond, unset := iff.Cond, 0 // the successor on which it is not set
			for {
				u, ok := cond.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				cond, unset = u.X, 1-unset
			}
			read := cond
			switch y := cond.(type) {
			case *ssa.BinOp:
				var other ssa.Value
				read, other = y.X, y.Y
				if _, ok := read.(*ssa.Const); ok {
					read, other = other, read
				}
				if !zeroConst(other) {
					continue
				}
				switch y.Op {
				case token.EQL, token.LEQ:
				case token.NEQ, token.GTR:
					unset = 1 - unset
				default:
					continue
				}
				if call, ok := read.(*ssa.Call); ok && isBuiltin(call) {
					read = call.Call.Args[0]
				}
			default:
				unset = 1 - unset
			}
			hit := false
			for _, l := range allLeaves(read.Type()) {
				if t.has(t.f.reg(ctx, read, l.path)) {
					hit = true
				}
			}
			sb := x.Succs[unset]
			if hit && len(sb.Preds) == 1 && (sb == b || sb.Dominates(b)) {
				return true
			}
			// the other way leaves
			so := x.Succs[1-unset]
			if hit && x.Dominates(b) && len(so.Preds) == 1 && !so.Dominates(b) && so != b {
				if _, ok := so.Instrs[len(so.Instrs)-1].(*ssa.Return); ok {
					return true
				}
			}
		}
		if ctx.site == nil {
			return false
		}
		b = ctx.site.Block()
		ctx = ctx.parent
	}
	return false
}

// tainted tells whether a value, or anything it holds, is tainted.
func (t *Taint) tainted(ctx *Ctx, v ssa.Value) bool {
	if v == nil {
		return false
	}
	for _, l := range allLeaves(v.Type()) {
		if t.has(t.f.reg(ctx, v, l.path)) {
			return true
		}
	}
	seen := map[Elem]bool{}
	var walk func(e Elem) bool
	walk = func(e Elem) bool {
		k := Elem{canon(e.o), "", nil}
		if seen[k] || e.o.kind == oFunc {
			return false
		}
		seen[k] = true
		for p := range t.f.cells[canon(e.o)] {
			if strings.HasPrefix(p, e.path) && t.has(fnode{o: canon(e.o), path: p}) {
				return true
			}
		}
		for p, n := range canon(e.o).cells {
			if !strings.HasPrefix(p, e.path) {
				continue
			}
			for _, x := range n.list() {
				if walk(x) {
					return true
				}
			}
		}
		return false
	}
	if pointerish(v.Type()) {
		for _, e := range t.f.a.pts(ctx, v) {
			if walk(e) {
				return true
			}
		}
	}
	return false
}

func (a *PTA) noStateLeft(r *Report) {
	f := a.flow(nil)
	words := a.wordRoots()
	for _, root := range a.roots {
		word := words[root]
		if word == nil {
			continue
		}
		r.count("operations", 1)
		g := a.graph(root)
		li := g.locks()
		src := fnode{ctx: root.ctx, v: word}
		tw := f.taint(false, nil, src)
		seen := map[string]bool{}
		type key struct {
			o *Obj
			p string
		}
		read := map[key]*Taint{}
		check := func(n *GNode, o *Obj, path, what string, vals []ssa.Value, once, checked bool) {
			k := fmt.Sprintf("%p %d %s %p", n.in, o.id, path, n.ctx)
			if seen[k] {
				return
			}
			seen[k] = true
			r.count("writes to lasting memory", 1)
			where := g.where(n)
			id := fmt.Sprintf("%s%s %s", o, path, fnName(n.ctx.fn))
			for _, v := range vals {
				if tw.tainted(n.ctx, v) {
					r.fail("word", id, where, "%s keeps something of the word in %s%s, in %s (%s)", root.name, o, path, fnName(n.ctx.fn), what)
					return
				}
			}
			r.sample("%s: %s%s in %s (%s)", root.name, o, path, fnName(n.ctx.fn), what)
			if once {
				return
			}
			if !checked {
				tr := read[key{o, path}]
				if tr == nil {
					tr = f.taint(false, nil, a.loadsOf(f, root, o, path)...)
					read[key{o, path}] = tr
				}
				if !tr.under(n.ctx, n.in.Block()) {
					r.fail("once", id, where, "%s changes %s%s in %s (%s) without a check that it has not been set before", root.name, o, path, fnName(n.ctx.fn), what)
					return
				}
				for _, v := range vals {
					if tr.tainted(n.ctx, v) {
						r.fail("once", id, where, "%s updates %s%s from its previous content in %s (%s)", root.name, o, path, fnName(n.ctx.fn), what)
						return
					}
				}
				if len(vals) > 0 && tw.under(n.ctx, n.in.Block()) && !tr.ifUnset(n.ctx, n.in.Block()) {
					r.fail("word", id, where, "%s changes %s%s in %s (%s) depending on the word", root.name, o, path, fnName(n.ctx.fn), what)
					return
				}
			}
			// A flag or number set under a condition on the word.
			basic := len(vals) > 0
			for _, v := range vals {
				if pointerish(v.Type()) {
					basic = false
				}
			}
			if basic && tw.under(n.ctx, n.in.Block()) {
				r.fail("word", id, where, "%s sets %s%s in %s (%s) depending on the word", root.name, o, path, fnName(n.ctx.fn), what)
			}
		}
		a.sharedAccesses(g, func(n *GNode, ac Access) {
			r.count("accesses to lasting memory", 1)
			if !ac.write || li.in[n.id] == nil {
				return
			}
			once := false
			for id := range li.held(n.id) {
				if li.toks[id].once {
					once = true
				}
			}
			check(n, ac.o, ac.path, ac.what, a.storedVals(n.ctx, n.in), once, false)
		})
		// atomics, concurrent maps and pools
		for _, n := range g.nodes {
			if n.in == nil || n.kind != kInstr {
				continue
			}
			ci, ok := n.in.(*ssa.Call)
			if !ok {
				continue
			}
			cc := ci.Common()
			k := callKey(cc)
			if len(cc.Args) == 0 || li.in[n.id] == nil {
				continue
			}
			checked := false
			var vals []ssa.Value
			switch {
			case strings.HasPrefix(k, "sync/atomic."):
				op := k[strings.LastIndex(k, ".")+1:]
				switch {
				case strings.HasPrefix(op, "Load"):
					continue
				case strings.HasPrefix(op, "CompareAndSwap"):
					if len(cc.Args) < 3 || !zeroConst(cc.Args[1]) {
						checked = false
					} else {
						checked = true
					}
					vals = cc.Args[2:]
				default:
					vals = cc.Args[1:]
				}
			case strings.HasPrefix(k, "sync.Map."):
				switch strings.TrimPrefix(k, "sync.Map.") {
				case "Load", "Range":
					continue
				case "LoadOrStore":
					checked = true
				}
				vals = cc.Args[1:]
			default:
				continue
			}
			for _, e := range a.pts(n.ctx, cc.Args[0]) {
				if e.o.shared || e.o.kind == oGlobal {
					check(n, canon(e.o), e.path, k, vals, false, checked)
				}
			}
		}
		a.pools(r, root)
	}
}

func zeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	return c.Value == nil || c.Value.String() == "0" || c.Value.String() == "false" || c.Value.String() == `""`
}

// storedVals are the values an instruction puts into memory.
func (a *PTA) storedVals(ctx *Ctx, in ssa.Instruction) []ssa.Value {
	switch in := in.(type) {
	case *ssa.Store:
		return []ssa.Value{in.Val}
	case *ssa.MapUpdate:
		return []ssa.Value{in.Key, in.Value}
	case *ssa.Send:
		return []ssa.Value{in.X}
	case ssa.CallInstruction:
		cc := in.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			if len(cc.Args) > 1 {
				return cc.Args[1:]
			}
			return nil
		}
		var vs []ssa.Value
		ws := map[int]bool{}
		off := 0
		if cc.IsInvoke() {
			off = 1
		}
		for _, i := range extWrites(callKey(cc), cc) {
			ws[i] = true
		}
		for i, x := range cc.Args {
			if !ws[i+off] {
				vs = append(vs, x)
			}
		}
		return vs
	}
	return nil
}

// pools checks that what comes out of a sync.Pool is reset before it is used.
func (a *PTA) pools(r *Report, root *Root) {
	for _, c := range a.ctxs {
		if c.root != root {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || callKey(call.Common()) != "sync.Pool.Get" {
					continue
				}
				r.count("pooled objects", 1)
				if !resetFirst(call) && !resetBack(a, root, call) {
					r.fail("pool", fnName(c.fn), a.p.instrPos(in), "%s takes an object from a pool in %s without resetting it: it still holds what an earlier call has left", root.name, fnName(c.fn))
				}
			}
		}
	}
}

func isReset(in ssa.Instruction, v ssa.Value) bool {
	switch in := in.(type) {
	case ssa.CallInstruction:
		cc := in.Common()
		var recv ssa.Value
		name := ""
		if cc.IsInvoke() {
			recv, name = cc.Value, cc.Method.Name()
		} else if fn := cc.StaticCallee(); fn != nil && len(cc.Args) > 0 {
			recv, name = cc.Args[0], fn.Name()
		} else if bu, ok := cc.Value.(*ssa.Builtin); ok && bu.Name() == "clear" {
			return cc.Args[0] == v
		}
		name = strings.ToLower(name)
		return recv == v && (strings.Contains(name, "reset") || name == "truncate" || strings.Contains(name, "clear"))
	case *ssa.Store:
		return in.Addr == v
	case *ssa.Slice:
		return in.X == v && in.High != nil && zeroConst(in.High)
	}
	return false
}

// resetFirst: every use of a pooled object comes after a reset of it.
func resetFirst(get *ssa.Call) bool {
	var vals []ssa.Value
	vals = append(vals, get)
	for i := 0; i < len(vals); i++ {
		refs := vals[i].Referrers()
		if refs == nil {
			continue
		}
		for _, u := range *refs {
			switch u := u.(type) {
			case *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Extract:
				vals = append(vals, u.(ssa.Value))
			}
		}
	}
	var resets, uses []ssa.Instruction
	for _, v := range vals {
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, u := range *refs {
			switch u := u.(type) {
			case *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Extract, *ssa.DebugRef, *ssa.Defer:
				continue
			case *ssa.UnOp:
				// the slice behind a pointer
				ok := u.Type().Underlying() != nil
				if _, sl := u.Type().Underlying().(*types.Slice); sl && ok {
					all := true
					for _, w := range *u.Referrers() {
						if !isReset(w, u) {
							all = false
						}
					}
					if all {
						continue
					}
				}
				uses = append(uses, u)
			case *ssa.Call:
				if callKey(u.Common()) == "sync.Pool.Put" {
					continue
				}
				if isReset(u, v) {
					resets = append(resets, u)
				} else {
					uses = append(uses, u)
				}
			default:
				if isReset(u, v) {
					resets = append(resets, u)
				} else {
					uses = append(uses, u)
				}
			}
		}
	}
	for _, u := range uses {
		ok := false
		for _, x := range resets {
			if dominates(x, u) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func dominates(x, y ssa.Instruction) bool {
	if x.Block() == y.Block() {
		for _, in := range x.Block().Instrs {
			if in == x {
				return true
			}
			if in == y {
				return false
			}
		}
	}
	return x.Block().Dominates(y.Block())
}

// resetBack: everything put into the pool has been reset just before.
func resetBack(a *PTA, root *Root, get *ssa.Call) bool {
	n := 0
	for _, c := range a.ctxs {
		if c.root != root {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || callKey(ci.Common()) != "sync.Pool.Put" {
					continue
				}
				n++
				v := ci.Common().Args[1]
				for {
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
						continue
					}
					break
				}
				found := false
				if _, isDefer := in.(*ssa.Defer); !isDefer {
					for _, x := range b.Instrs {
						if x == in {
							break
						}
						if isReset(x, v) {
							found = true
						}
					}
				}
				if !found {
					return false
				}
			}
		}
	}
	return n > 0
}

func init() {
	register("C04", func(e *Env, r *Report) {
		a := e.Lib()
		var roots []*Root
		for root := range a.wordRoots() {
			roots = append(roots, root)
		}
		r.analysedBy(a, roots)
		r.rule("Every write that an operation on a word makes to memory a later call can reach - whatever the call chain and whether locked or not - is a sync.Once body or is guarded by a check of the very location, does not derive from its previous content, and no part of the word flows into it; objects from a pool are reset before use.")
		a.noStateLeft(r)
		r.need("operations", 8)
		r.need("accesses to lasting memory", 50)
	})
}
