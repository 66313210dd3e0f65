package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Access is one read or write of memory by an instruction in a context.
type Access struct {
	o      *Obj // the object, never a twin
	path   string
	prefix bool // everything below path
	write  bool
	ctx    *Ctx
	in     ssa.Instruction
	addr   ssa.Value // for the access path of the location
	sub    string    // path of the location below addr
	shared bool
	what   string
}

// accesses lists the memory accesses of an instruction in a context.
func (a *PTA) accesses(ctx *Ctx, in ssa.Instruction, f func(Access)) {
	emit := func(v ssa.Value, sub string, write, prefix bool, what string) {
		for _, e := range a.pts(ctx, v) {
			o, sh := e.o, e.o.shared
			if o.kind == oFunc {
				continue
			}
			if o.orig != nil {
				o = o.orig
			}
			f(Access{o: o, path: e.path + sub, prefix: prefix, write: write, ctx: ctx, in: in, addr: v, sub: sub, shared: sh, what: what})
		}
	}
	leafy := func(v ssa.Value, sub string, t types.Type, write bool, what string) {
		for _, l := range leaves(t, true) {
			emit(v, sub+l.path, write, false, what)
		}
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op.String() == "*" {
			leafy(in.X, "", in.Type(), false, "load")
		}
	case *ssa.Store:
		leafy(in.Addr, "", in.Val.Type(), true, "store")
	case *ssa.MapUpdate:
		emit(in.Map, "{}", true, false, "map update")
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			emit(in.X, "{}", false, false, "map lookup")
		}
	case *ssa.Next:
		if !in.IsString {
			emit(in.Iter, "{}", false, false, "map iteration")
		}
	case *ssa.Slice:
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			_ = pt
		}
	case *ssa.Range:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			emit(in.X, "{}", false, false, "map iteration")
		}
	case ssa.CallInstruction:
		cc := in.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				st, _ := cc.Args[0].Type().Underlying().(*types.Slice)
				if st == nil {
					return
				}
				if sl, ok := cc.Args[0].(*ssa.Slice); !ok || sl.Max == nil || sl.Max != sl.High {
					leafy(cc.Args[0], "[]", st.Elem(), true, "append in place")
				}
				if st2, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
					leafy(cc.Args[1], "[]", st2.Elem(), false, "append from")
				}
			case "copy":
				if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
					leafy(cc.Args[0], "[]", st.Elem(), true, "copy")
				}
				if st, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
					leafy(cc.Args[1], "[]", st.Elem(), false, "copy from")
				}
			case "delete":
				emit(cc.Args[0], "{}", true, false, "delete")
			case "clear":
				if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
					leafy(cc.Args[0], "[]", st.Elem(), true, "clear")
				} else {
					emit(cc.Args[0], "{}", true, false, "clear")
				}
			case "len":
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					emit(cc.Args[0], "{}", false, false, "len")
				}
			}
			return
		}
		si := a.callees[siteKey{ctx, in}]
		if si == nil || !si.external {
			return
		}
		key := callKey(cc)
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		ws := extWrites(key, cc)
		for _, i := range ws {
			if i >= len(args) {
				continue
			}
			if _, ok := args[i].Type().Underlying().(*types.Slice); ok || isIfaceSlice(a, ctx, args[i]) {
				emit(args[i], "[]", true, true, key)
			} else {
				emit(args[i], "", true, true, key)
			}
		}
		if len(ws) == 0 && !cc.IsInvoke() && len(args) > 0 && cc.StaticCallee() != nil && cc.StaticCallee().Signature.Recv() != nil &&
			!strings.HasPrefix(key, "sync.") && !strings.HasPrefix(key, "sync/") {
			if _, ok := args[0].Type().Underlying().(*types.Pointer); ok {
				emit(args[0], "", false, true, key)
			}
		}
	}
}

func isIfaceSlice(a *PTA, ctx *Ctx, v ssa.Value) bool {
	if !types.IsInterface(v.Type()) {
		return false
	}
	for _, e := range a.pts(ctx, v) {
		if e.t != nil {
			if _, ok := e.t.Underlying().(*types.Slice); ok {
				return true
			}
		}
	}
	return false
}

// publications finds, per own object of a root, the nodes at which it has (or
// may have) become reachable by other calls.
func (a *PTA) publications(g *Graph) map[*Obj]map[int]bool {
	after := map[*Obj]map[int]bool{}
	memo := map[*Obj][]*Obj{}
	closure := func(e Elem) []*Obj {
		if r, ok := memo[e.o]; ok {
			return r
		}
		seen := map[*Obj]bool{e.o: true}
		st := []*Obj{e.o}
		var res []*Obj
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			res = append(res, x)
			for _, c := range x.cells {
				for _, y := range c.order {
					if !seen[y.o] && !y.o.shared {
						seen[y.o] = true
						st = append(st, y.o)
					}
				}
			}
		}
		memo[e.o] = res
		return res
	}
	type link struct {
		n   *GNode
		dst []Elem // nil: published by the node itself
		val []*Obj
	}
	var links []link
	valObjs := func(n *GNode, vs ...ssa.Value) []*Obj {
		var out []*Obj
		for _, v := range vs {
			for _, l := range leaves(v.Type(), false) {
				for _, e := range a.reg(n.ctx, v, l.path).order {
					if e.o.shared {
						continue
					}
					for _, o := range closure(e) {
						if o.twin != nil {
							out = append(out, o)
						}
					}
				}
			}
		}
		return out
	}
	for _, n := range g.nodes {
		if n.in == nil || (n.kind != kInstr && n.kind != kDefer) {
			continue
		}
		add := func(dst []Elem, vs ...ssa.Value) {
			if os := valObjs(n, vs...); len(os) > 0 {
				links = append(links, link{n, dst, os})
			}
		}
		switch in := n.in.(type) {
		case *ssa.Store:
			add(a.pts(n.ctx, in.Addr), in.Val)
		case *ssa.MapUpdate:
			add(a.pts(n.ctx, in.Map), in.Key, in.Value)
		case *ssa.Send:
			add(a.pts(n.ctx, in.Chan), in.X)
		case *ssa.Go:
			cc := in.Common()
			add(nil, append([]ssa.Value{cc.Value}, cc.Args...)...)
		case ssa.CallInstruction:
			si := a.callees[siteKey{n.ctx, in}]
			if si == nil {
				continue
			}
			cc := in.Common()
			key := callKey(cc)
			switch {
			case len(si.spawned) > 0 || si.user:
				add(nil, cc.Args...)
			case (strings.HasPrefix(key, "sync/atomic.") || strings.HasPrefix(key, "sync.Map.")) && len(cc.Args) > 1:
				add(a.pts(n.ctx, cc.Args[0]), cc.Args[1:]...)
			case isBuiltin(in) && cc.Value.Name() == "append" && in.Value() != nil:
				if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
					var vs []*Obj
					for _, e := range a.pts(n.ctx, cc.Args[1]) {
						if !e.o.shared {
							vs = append(vs, closure(e)...)
						}
					}
					links = append(links, link{n, a.pts(n.ctx, in.Value()), vs})
				}
			}
		}
	}
	publish := func(o *Obj, at int) bool {
		m := after[o]
		if m == nil {
			m = map[int]bool{}
			after[o] = m
		}
		ch := false
		for x := range g.reach(at, func(n *GNode) bool { return n.ctx == o.ctx && isSite(n.in, o.site) && n.kind == kInstr }) {
			if !m[x] {
				m[x] = true
				ch = true
			}
		}
		return ch
	}
	for again := true; again; {
		again = false
		for _, l := range links {
			pub := l.dst == nil
			for _, e := range l.dst {
				if e.o.shared || after[e.o][l.n.id] {
					pub = true
				}
			}
			if !pub {
				continue
			}
			for _, o := range l.val {
				if o.twin != nil && publish(o, l.n.id) {
					again = true
				}
			}
		}
	}
	return after
}

// sharedAccesses lists the accesses of a root to memory other calls may use.
func (a *PTA) sharedAccesses(g *Graph, f func(n *GNode, ac Access)) {
	after := a.publications(g)
	for _, n := range g.nodes {
		if n.in == nil {
			continue
		}
		switch n.kind {
		case kInstr:
			if _, ok := n.in.(*ssa.Defer); ok {
				continue
			}
		case kDefer:
		default:
			continue
		}
		a.accesses(n.ctx, n.in, func(ac Access) {
			if ac.o.user || ac.o.kind == oExt && ac.o.typ != nil && qualName(ac.o.typ) == "os.File" {
				return
			}
			if ac.shared || after[ac.o][n.id] {
				f(n, ac)
			}
		})
	}
}

type raceAcc struct {
	Access
	root  *Root
	where string
	locks map[string]lockMode    // unique locks
	pairs map[[2]string]lockMode // (location suffix, lock suffix) with a common base
}

// races reports unprotected conflicting accesses of concurrent roots.
func (a *PTA) races(r *Report, roots []*Root) {
	byObj := map[*Obj][]*raceAcc{}
	for _, root := range roots {
		g := a.graph(root)
		li := g.locks()
		r.count("concurrent operations", 1)
		seen := map[string]bool{}
		a.sharedAccesses(g, func(n *GNode, ac Access) {
			if li.in[n.id] == nil {
				return
			}
			h := li.held(n.id)
			key := fmt.Sprintf("%d|%s|%v|%p|%d|%v", ac.o.id, ac.path, ac.write, n.in, n.ctx.id, h)
			if seen[key] {
				return
			}
			seen[key] = true
			x := &raceAcc{Access: ac, root: root, where: g.where(n), locks: map[string]lockMode{}, pairs: map[[2]string]lockMode{}}
			org := a.origin(ac.ctx, ac.addr) + ac.sub
			for id, m := range h {
				t := li.toks[id]
				if t.unique {
					x.locks[id] = m
					continue
				}
				for _, p := range commonPairs(org, t.origin) {
					k := p
					if t.once {
						k[1] = "once " + k[1]
					}
					if x.pairs[k] < m {
						x.pairs[k] = m
					}
				}
			}
			byObj[ac.o] = append(byObj[ac.o], x)
			r.count("shared accesses", 1)
		})
	}
	var objs []*Obj
	for o := range byObj {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		as := byObj[o]
		writes := false
		for _, x := range as {
			if x.write {
				writes = true
			}
		}
		r.count("shared objects", 1)
		if !writes {
			continue
		}
		r.count("shared objects written", 1)
		for _, w := range as {
			if !w.write {
				continue
			}
			for _, x := range as {
				if !overlap(w, x) {
					continue
				}
				r.count("conflicting pairs", 1)
				if protected(w, x) {
					continue
				}
				r.fail("race", fmt.Sprintf("%s%s %s/%s", o, w.path, fnName(w.ctx.fn), fnName(x.ctx.fn)), w.where,
					"%s writes %s%s in %s (%s, %s) while %s may %s it in %s (%s, %s) without a common lock",
					w.root.name, o, w.path, fnName(w.ctx.fn), w.what, w.where, x.root.name, rw(x.write), fnName(x.ctx.fn), x.what, x.where)
			}
		}
		if len(as) > 0 {
			r.sample("%s: %d accesses", o, len(as))
		}
	}
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

func overlap(x, y *raceAcc) bool {
	if x.path == y.path {
		return true
	}
	if x.prefix && strings.HasPrefix(y.path, x.path) {
		return true
	}
	if y.prefix && strings.HasPrefix(x.path, y.path) {
		return true
	}
	return false
}

func protected(w, x *raceAcc) bool {
	for id, m := range w.locks {
		if n := x.locks[id]; n != 0 && (m == mW || n == mW) && (m == mW || !w.write) && (n == mW || !x.write) {
			return true
		}
		// A write under sync.Once happens before everything after Do.
	}
	for id, m := range w.pairs {
		if n := x.pairs[id]; n != 0 && (m == mW || n == mW) && (m == mW || !w.write) && (n == mW || !x.write) {
			return true
		}
	}
	return false
}

// commonPairs splits two access paths at a common object.
func commonPairs(x, y string) [][2]string {
	var out [][2]string
	n := 0
	for n < len(x) && n < len(y) && x[n] == y[n] {
		n++
	}
	for i := n; i > 0; i-- {
		bx := i == len(x) || x[i] == '.' || x[i] == '*'
		by := i == len(y) || y[i] == '.' || y[i] == '*'
		if bx && by {
			out = append(out, [2]string{x[i:], y[i:]})
			break
		}
	}
	return out
}

func isSite(in ssa.Instruction, v ssa.Value) bool {
	x, ok := in.(ssa.Value)
	return ok && x == v
}
