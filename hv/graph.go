package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The supergraph: the control flow of a root with all its callees inlined
// (per context), including deferred calls and panicking exits.

type nodeKind uint8

const (
	kInstr nodeKind = iota
	kRet            // after a call
	kMid            // external callee running callbacks
	kEntry
	kExit
	kPExit
	kDefer // a deferred call being run
	kDeferMid
	kDeferRet
)

type GNode struct {
	id   int
	ctx  *Ctx
	in   ssa.Instruction
	kind nodeKind
	succ []int
	pred []int
}

type Graph struct {
	a     *PTA
	nodes []*GNode
	instr map[siteKey]int
	entry map[*Ctx]int
	exit  map[*Ctx]int
	pexit map[*Ctx]int
	pkeys map[string]int
	built map[*Ctx]bool
	root  *Root
	rets  map[retKey]int
	// panics decides whether an external call may panic.
	panics func(g *Graph, ctx *Ctx, in ssa.CallInstruction) bool
}

type retKey struct {
	ctx *Ctx
	in  ssa.Instruction
	at  int
}

func (a *PTA) graph(r *Root) *Graph {
	g := &Graph{a: a, rets: map[retKey]int{}, instr: map[siteKey]int{}, entry: map[*Ctx]int{}, exit: map[*Ctx]int{}, pexit: map[*Ctx]int{},
		pkeys: map[string]int{}, built: map[*Ctx]bool{}, root: r, panics: a.panics}
	g.ensure(r.ctx)
	for _, n := range g.nodes {
		for _, s := range n.succ {
			g.nodes[s].pred = append(g.nodes[s].pred, n.id)
		}
	}
	return g
}

func (g *Graph) add(ctx *Ctx, in ssa.Instruction, k nodeKind) int {
	n := &GNode{id: len(g.nodes), ctx: ctx, in: in, kind: k}
	g.nodes = append(g.nodes, n)
	return n.id
}

func (g *Graph) link(from, to int) {
	for _, s := range g.nodes[from].succ {
		if s == to {
			return
		}
	}
	g.nodes[from].succ = append(g.nodes[from].succ, to)
}

func mayPanicDefault(g *Graph, ctx *Ctx, in ssa.CallInstruction) bool {
	if si := g.a.callees[siteKey{ctx, in}]; si != nil && si.user {
		return true
	}
	key := callKey(in.Common())
	switch {
	case key == "syscall/js.Value.Call", key == "syscall/js.Value.Invoke", key == "syscall/js.Value.Get",
		key == "syscall/js.Value.New", key == "syscall/js.Value.Set", key == "regexp.MustCompile", key == "syscall/js.Value.Index":
		return true
	}
	return key == "" && g.a.callees[siteKey{ctx, in}] != nil && g.a.callees[siteKey{ctx, in}].external && in.Common().StaticCallee() == nil && !isBuiltin(in)
}

func isBuiltin(in ssa.CallInstruction) bool {
	_, ok := in.Common().Value.(*ssa.Builtin)
	return ok
}

func (g *Graph) ensure(ctx *Ctx) {
	if g.built[ctx] {
		return
	}
	g.built[ctx] = true
	fn := ctx.fn
	g.entry[ctx] = g.add(ctx, nil, kEntry)
	g.exit[ctx] = g.add(ctx, nil, kExit)
	g.pexit[ctx] = g.add(ctx, nil, kPExit)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			g.instr[siteKey{ctx, in}] = g.add(ctx, in, kInstr)
		}
	}
	first := func(b *ssa.BasicBlock) int { return g.instr[siteKey{ctx, b.Instrs[0]}] }
	g.link(g.entry[ctx], first(fn.Blocks[0]))
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			n := g.instr[siteKey{ctx, in}]
			var outs []int // where control leaves this instruction
			switch x := in.(type) {
			case *ssa.Return:
				g.link(n, g.exit[ctx])
				continue
			case *ssa.Panic:
				g.link(n, g.panicFrom(ctx, in))
				continue
			case *ssa.Jump, *ssa.If:
				for _, s := range b.Succs {
					g.link(n, first(s))
				}
				continue
			case *ssa.Call:
				outs = []int{g.callNodes(ctx, x, n, kMid, kRet, func() int { return g.panicFrom(ctx, in) })}
			case *ssa.RunDefers:
				outs = []int{g.runDefers(ctx, in, n)}
			case *ssa.TypeAssert:
				if !x.CommaOk {
					g.link(n, g.panicFrom(ctx, in))
				}
				outs = []int{n}
			default:
				outs = []int{n}
			}
			if i+1 < len(b.Instrs) {
				for _, o := range outs {
					g.link(o, g.instr[siteKey{ctx, b.Instrs[i+1]}])
				}
			}
		}
	}
}

// callNodes wires a call (or a deferred call) and gives the node after it.
func (g *Graph) callNodes(ctx *Ctx, in ssa.CallInstruction, n int, mid, ret nodeKind, pan func() int) int {
	si := g.a.callees[siteKey{ctx, in}]
	r := g.add(ctx, in, ret)
	g.rets[retKey{ctx, in, n}] = r
	if si == nil {
		g.link(n, r)
		return r
	}
	for _, c := range si.internal {
		g.ensure(c)
		g.link(n, g.entry[c])
		g.link(g.exit[c], r)
		g.link(g.pexit[c], pan())
	}
	if si.external || len(si.internal) == 0 || len(si.callbacks) > 0 || len(si.once) > 0 {
		m := g.add(ctx, in, mid)
		g.link(n, m)
		for _, c := range si.callbacks {
			g.ensure(c)
			g.link(m, g.entry[c])
			g.link(g.exit[c], m)
			g.link(g.pexit[c], pan())
		}
		for _, c := range si.once {
			g.ensure(c)
			g.link(m, g.entry[c])
			g.link(g.exit[c], r)
			g.link(g.pexit[c], pan())
		}
		g.link(m, r)
		f := g.panics
		if f == nil {
			f = mayPanicDefault
		}
		if f(g, ctx, in) {
			g.link(m, pan())
		}
	}
	return r
}

type deferInfo struct {
	d    *ssa.Defer
	must bool
}

// defersBefore lists the defer statements that may have run before in, in
// reverse order of execution.
func defersBefore(in ssa.Instruction) []deferInfo {
	fn := in.Parent()
	var out []deferInfo
	idx := func(x ssa.Instruction) int {
		for i, y := range x.Block().Instrs {
			if x == y {
				return i
			}
		}
		return -1
	}
	for _, b := range fn.Blocks {
		for i, x := range b.Instrs {
			d, ok := x.(*ssa.Defer)
			if !ok {
				continue
			}
			if b == in.Block() {
				if i < idx(in) {
					out = append(out, deferInfo{d, true})
				} else if reaches(b, b) {
					out = append(out, deferInfo{d, false})
				}
				continue
			}
			if b.Dominates(in.Block()) {
				out = append(out, deferInfo{d, true})
			} else if reaches(b, in.Block()) {
				out = append(out, deferInfo{d, false})
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		bi, bj := out[i].d.Block(), out[j].d.Block()
		if bi != bj {
			if bi.Dominates(bj) {
				return false
			}
			if bj.Dominates(bi) {
				return true
			}
			return bi.Index > bj.Index
		}
		return idx(out[i].d) > idx(out[j].d)
	})
	return out
}

// reaches tells whether control may flow from the end of a to the start of b.
func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

func (g *Graph) deferChain(ctx *Ctx, ds []deferInfo, start int, pan func(i int) int) int {
	cur := start
	for i, di := range ds {
		n := g.add(ctx, di.d, kDefer)
		g.link(cur, n)
		i := i
		r := g.callNodes(ctx, di.d, n, kDeferMid, kDeferRet, func() int { return pan(i) })
		if !di.must {
			g.link(cur, r)
		}
		cur = r
	}
	return cur
}

func (g *Graph) runDefers(ctx *Ctx, in ssa.Instruction, n int) int {
	ds := defersBefore(in)
	return g.deferChain(ctx, ds, n, func(i int) int { return g.panicChain(ctx, ds[i+1:]) })
}

func (g *Graph) panicFrom(ctx *Ctx, in ssa.Instruction) int {
	return g.panicChain(ctx, defersBefore(in))
}

func (g *Graph) panicChain(ctx *Ctx, ds []deferInfo) int {
	var sb strings.Builder
	sb.WriteString(itoa(ctx.id))
	for _, d := range ds {
		sb.WriteString("|")
		sb.WriteString(itoa(d.d.Block().Index))
		sb.WriteString(",")
		for i, x := range d.d.Block().Instrs {
			if x == d.d {
				sb.WriteString(itoa(i))
			}
		}
		if d.must {
			sb.WriteString("!")
		}
	}
	key := sb.String()
	if n, ok := g.pkeys[key]; ok {
		return n
	}
	start := g.add(ctx, nil, kMid)
	g.pkeys[key] = start
	end := g.deferChain(ctx, ds, start, func(i int) int { return g.panicChain(ctx, ds[i+1:]) })
	rec := false
	mustRec := false
	for _, d := range ds {
		if g.recovers(ctx, d.d) {
			rec = true
			if d.must {
				mustRec = true
			}
		}
	}
	if rec {
		if ctx.fn.Recover != nil {
			g.link(end, g.instr[siteKey{ctx, ctx.fn.Recover.Instrs[0]}])
		} else {
			g.link(end, g.exit[ctx])
		}
	}
	if !mustRec {
		g.link(end, g.pexit[ctx])
	}
	return start
}

// recovers tells whether a deferred function calls recover unconditionally.
func (g *Graph) recovers(ctx *Ctx, d *ssa.Defer) bool {
	si := g.a.callees[siteKey{ctx, d}]
	if si == nil {
		return false
	}
	for _, c := range si.internal {
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						return true
					}
				}
			}
		}
	}
	return false
}

// call gives the call a node performs at its execution, if it executes one.
func (n *GNode) call() *ssa.CallCommon {
	switch n.kind {
	case kInstr:
		if c, ok := n.in.(*ssa.Call); ok {
			return &c.Call
		}
	case kDefer:
		return &n.in.(*ssa.Defer).Call
	}
	return nil
}

func (n *GNode) callInstr() ssa.CallInstruction {
	if n.call() == nil {
		return nil
	}
	return n.in.(ssa.CallInstruction)
}

func (g *Graph) where(n *GNode) string {
	if n.in != nil {
		return g.a.p.instrPos(n.in)
	}
	return g.a.p.pos(n.ctx.fn.Pos())
}

// reach computes the nodes reachable from the successors of start.
func (g *Graph) reach(start int, stop func(n *GNode) bool) map[int]bool {
	seen := map[int]bool{}
	st := append([]int(nil), g.nodes[start].succ...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		if stop != nil && stop(g.nodes[x]) {
			continue
		}
		seen[x] = true
		st = append(st, g.nodes[x].succ...)
	}
	return seen
}

// resolve follows parameters, captured variables and conversions to where a
// value comes from.
func (a *PTA) resolve(ctx *Ctx, v ssa.Value) (*Ctx, ssa.Value) {
	for d := 0; d < 60; d++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			if x.CommaOk {
				return ctx, v
			}
			v = x.X
		case *ssa.UnOp:
			if x.Op.String() != "*" {
				return ctx, v
			}
			c2, v2 := a.resolve(ctx, x.X)
			al, ok := v2.(*ssa.Alloc)
			if !ok {
				return ctx, v
			}
			s := soleStore(al)
			if s == nil {
				return ctx, v
			}
			ctx, v = c2, s.Val
		case *ssa.Parameter:
			nc, nv := a.argument(ctx, x)
			if nv == nil {
				return ctx, v
			}
			ctx, v = nc, nv
		case *ssa.FreeVar:
			nc, nv := a.binding(ctx, x)
			if nv == nil {
				return ctx, v
			}
			ctx, v = nc, nv
		default:
			return ctx, v
		}
	}
	return ctx, v
}

// argument is what the caller passes for a parameter, or nil.
func (a *PTA) argument(ctx *Ctx, v *ssa.Parameter) (*Ctx, ssa.Value) {
	if ctx.parent == nil {
		return nil, nil
	}
	call, ok := ctx.site.(ssa.CallInstruction)
	if !ok {
		return nil, nil
	}
	if si := a.callees[siteKey{ctx.parent, ctx.site}]; si != nil {
		direct := false
		for _, c := range si.internal {
			if c == ctx {
				direct = true
			}
		}
		if !direct {
			return nil, nil
		}
	}
	cc := call.Common()
	for i, p := range ctx.fn.Params {
		if p != v {
			continue
		}
		if cc.IsInvoke() {
			if i == 0 {
				return ctx.parent, cc.Value
			}
			return ctx.parent, cc.Args[i-1]
		}
		if i < len(cc.Args) && len(cc.Args) == len(ctx.fn.Params) {
			return ctx.parent, cc.Args[i]
		}
	}
	return nil, nil
}

// binding is what a closure captured for a free variable, or nil.
func (a *PTA) binding(ctx *Ctx, v *ssa.FreeVar) (*Ctx, ssa.Value) {
	for i, fv := range ctx.fn.FreeVars {
		if fv != v {
			continue
		}
		for x := ctx.parent; x != nil; x = x.parent {
			if x.fn != ctx.fn.Parent() {
				continue
			}
			for _, b := range x.fn.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ctx.fn {
						return x, mc.Bindings[i]
					}
				}
			}
		}
	}
	return nil, nil
}

// origin is a canonical description of where an address comes from, stable
// across calls: it resolves parameters and captured variables to the caller.
func (a *PTA) origin(ctx *Ctx, v ssa.Value) string {
	return a.originD(ctx, v, 0)
}

func (a *PTA) originD(ctx *Ctx, v ssa.Value, d int) string {
	if d > 60 {
		return "deep"
	}
	ctx, v = a.resolve(ctx, v)
	switch v := v.(type) {
	case *ssa.Global:
		return "g:" + v.String()
	case *ssa.FieldAddr:
		return a.originD(ctx, v.X, d+1) + fieldPath(deref(v.X.Type()), v.Field)
	case *ssa.UnOp:
		if v.Op.String() == "*" {
			return a.originD(ctx, v.X, d+1) + "*"
		}
	case *ssa.Parameter:
		return "p" + itoa(ctx.id) + ":" + v.Name()
	case *ssa.FreeVar:
		return "fv" + itoa(ctx.id) + ":" + v.Name()
	}
	return "v" + itoa(ctx.id) + ":" + v.Name()
}

// soleStore is the only store to a local variable that is never otherwise
// written, or nil.
func soleStore(al *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != al || st != nil {
				return nil
			}
			st = r
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// captured: only read there?
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b != al {
					continue
				}
				for _, rr := range *fn.FreeVars[i].Referrers() {
					if _, ok := rr.(*ssa.UnOp); !ok {
						return nil
					}
				}
			}
		default:
			return nil
		}
	}
	return st
}

var _ = types.Identical
