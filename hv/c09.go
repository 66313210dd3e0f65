package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: parsing ends with a spec or an error.

// rankless lists the loops of a function which may go on forever on their own:
// nothing they carry from one round to the next moves in one direction, and
// they call nothing that hands out a finite supply.
func ranked(d *Domain) bool {
	if d.kind != "other" {
		return true
	}
	for b := range d.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				for i, e := range in.Edges {
					if !d.body[in.Block().Preds[i]] {
						continue
					}
					if moves(in, e) {
						return true
					}
				}
			case ssa.CallInstruction:
				if !in.Common().IsInvoke() && in.Common().StaticCallee() == nil {
					if _, b := in.Common().Value.(*ssa.Builtin); !b {
						return true // depends on what is called
					}
				}
				if k := callKey(in.Common()); strings.Contains(k, ".Read") || strings.Contains(k, ".Scan") || strings.HasSuffix(k, ".Next") {
					return true
				}
			case *ssa.Next:
				return true
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
				return true // its state is in memory
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return true
				}
			}
		}
	}
	return false
}

// moves tells whether a value is derived from a phi by a step that makes it
// larger, smaller, shorter or a part of it.
func moves(phi *ssa.Phi, e ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, moved bool) bool
	walk = func(v ssa.Value, moved bool) bool {
		if v == phi {
			return moved
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.BinOp:
			if v.Op == token.ADD || v.Op == token.SUB || v.Op == token.QUO || v.Op == token.SHR || v.Op == token.SHL || v.Op == token.MUL {
				return walk(v.X, true) || walk(v.Y, true)
			}
		case *ssa.Slice:
			return walk(v.X, true)
		case *ssa.Phi:
			for _, x := range v.Edges {
				if walk(x, moved) {
					return true
				}
			}
		case *ssa.UnOp:
			return walk(v.X, true)
		case *ssa.FieldAddr:
			return walk(v.X, true)
		case *ssa.Field:
			return walk(v.X, true)
		case *ssa.IndexAddr:
			return walk(v.X, true)
		case *ssa.Convert:
			return walk(v.X, moved)
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return walk(v.Call.Args[0], true)
			}
			k := callKey(&v.Call)
			if strings.HasPrefix(k, "strings.Trim") || strings.HasPrefix(k, "bytes.Trim") || k == "errors.Unwrap" {
				return walk(v.Call.Args[0], true)
			}
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok {
				k := callKey(&c.Call)
				if strings.HasPrefix(k, "strings.Cut") || strings.HasPrefix(k, "strings.SplitN") {
					return walk(c.Call.Args[0], true)
				}
			}
		}
		return false
	}
	return walk(e, false)
}

// shrinks tells whether a recursive call passes on a part of an own parameter
// or a changed number.
func shrinks(c *ssa.CallCommon, fn *ssa.Function) bool {
	isParam := func(v ssa.Value) bool {
		for _, p := range fn.Params {
			if p == v {
				return true
			}
		}
		for _, p := range fn.FreeVars {
			if p == v {
				return true
			}
		}
		return false
	}
	var part func(v ssa.Value, moved bool, d int) bool
	part = func(v ssa.Value, moved bool, d int) bool {
		if d > 20 {
			return false
		}
		if isParam(v) {
			return moved
		}
		switch v := v.(type) {
		case *ssa.UnOp:
			return part(v.X, true, d+1)
		case *ssa.FieldAddr:
			return part(v.X, true, d+1)
		case *ssa.Field:
			return part(v.X, true, d+1)
		case *ssa.IndexAddr:
			return part(v.X, true, d+1)
		case *ssa.Index:
			return part(v.X, true, d+1)
		case *ssa.Lookup:
			return false
		case *ssa.Slice:
			return part(v.X, v.Low != nil || v.High != nil || moved, d+1)
		case *ssa.BinOp:
			return (v.Op == token.ADD || v.Op == token.SUB || v.Op == token.QUO) && (part(v.X, true, d+1) || part(v.Y, true, d+1))
		case *ssa.Phi:
			for _, e := range v.Edges {
				if e != v && part(e, moved, d+1) {
					return true
				}
			}
		case *ssa.Extract:
			return part(v.Tuple, moved, d+1)
		case *ssa.Next:
			if r, ok := v.Iter.(*ssa.Range); ok {
				return part(r.X, true, d+1)
			}
		case *ssa.Call:
			for _, a := range v.Call.Args {
				if part(a, true, d+1) {
					return true
				}
			}
		case *ssa.MakeInterface:
			return part(v.X, moved, d+1)
		case *ssa.ChangeType:
			return part(v.X, moved, d+1)
		case *ssa.Convert:
			return part(v.X, moved, d+1)
		case *ssa.TypeAssert:
			return part(v.X, true, d+1)
		}
		return false
	}
	for _, a := range c.Args {
		if part(a, false, 0) {
			return true
		}
	}
	if c.IsInvoke() {
		return part(c.Value, false, 0)
	}
	return false
}

type parsing struct {
	a        *PTA
	r        *Report
	relevant map[*Ctx]bool
}

func readerKey(key string) bool {
	switch key {
	case "bufio.Reader.ReadRune", "bufio.Reader.ReadByte", "bufio.Reader.UnreadRune", "bufio.Reader.UnreadByte":
		return true
	}
	return mayEOF(key) || key == "bufio.Scanner.Scan"
}

func (f *parsing) isRelevant(c *Ctx) bool {
	return f.a.reachesOwn(c, f.relevant, func(k *Ctx) bool {
		for _, b := range k.fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Panic); ok {
					return true
				}
				if ci, ok := in.(ssa.CallInstruction); ok && readerKey(callKey(ci.Common())) {
					return true
				}
			}
		}
		return false
	})
}

// reachesOwn tells whether a context or one it calls satisfies a predicate, or
// is a short function.
func (a *PTA) reachesOwn(c *Ctx, memo map[*Ctx]bool, own func(*Ctx) bool) bool {
	if v, ok := memo[c]; ok {
		return v
	}
	r := a.simpleFn(c, 3)
	seen := map[*Ctx]bool{c: true}
	work := []*Ctx{c}
	for len(work) > 0 && !r {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		if own(k) {
			r = true
			break
		}
		for _, b := range k.fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				si := a.callees[siteKey{k, ci}]
				if si == nil {
					continue
				}
				for _, m := range append(append([]*Ctx{}, si.internal...), append(si.callbacks, si.once...)...) {
					if !seen[m] {
						seen[m] = true
						work = append(work, m)
					}
				}
			}
		}
	}
	memo[c] = r
	return r
}

// simpleFn tells whether a context is short, without loops, and calls only
// such ones.
func (a *PTA) simpleFn(c *Ctx, depth int) bool {
	if depth == 0 {
		return false
	}
	n := 0
	for _, b := range c.fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			n++
			if ci, ok := in.(ssa.CallInstruction); ok {
				if si := a.callees[siteKey{c, ci}]; si != nil {
					if len(si.callbacks)+len(si.once) > 0 {
						return false
					}
					for _, m := range si.internal {
						if !a.simpleFn(m, depth-1) {
							return false
						}
					}
				}
			}
		}
	}
	return n <= 40
}

func init() {
	register("C09", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("Progress: in the graph of abstract states of hsl.Parse and ParseSpec, for readers that may end or fail at any letter, every cycle reads a new letter; a letter put back and read again is no new one, and after the end there is none.")
		r.rule("Every index, slice bound, divisor, asserted type, explicit panic and panicking library call reachable from them is discharged by the linear facts of its path.")
		r.rule("Every other loop carries something that moves in one direction, and every recursive call passes on a part of an argument.")
		r.Assume = append(r.Assume, "a reader that has ended or failed does not start again", "values of the HSL map are never nil sections")
		apis := []*ssa.Function{a.p.fn("pkg/hsl", "Parse"), a.p.fn("", "ParseSpec")}
		var roots []*Root
		for _, fn := range apis {
			rt := a.rootOf(fn)
			if rt == nil {
				continue
			}
			roots = append(roots, rt)
			opaque := func(c *Ctx) bool {
				for _, fn := range apis {
					if c.fn == fn && c != rt.ctx {
						return true
					}
				}
				return false
			}
			// contexts of this operation alone
			var own []*Ctx
			reads := false
			for _, c := range a.ctxs {
				if c.root != rt {
					continue
				}
				other := false
				for k := c; k != nil; k = k.parent {
					other = other || opaque(k)
				}
				if other {
					continue
				}
				own = append(own, c)
				for _, b := range c.fn.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && readerKey(callKey(ci.Common())) {
							reads = true
						}
					}
				}
			}
			f := &parsing{a, r, map[*Ctx]bool{}}
			if reads {
				f.run(rt, opaque)
			}
			sf := &safety{a: a, r: r, root: rt, skipPanic: reads}
			sf.run(own)
			r.count("operations", 1)
		}
		f := &parsing{a, r, nil}
		f.pure(roots)
		r.analysedBy(a, roots)
		r.need("operations", 2)
	})
}

// run explores parsing for sources of any length; where states had to be
// merged, cycles are looked for again with short sources.
func (f *parsing) run(root *Root, apis func(c *Ctx) bool) {
	if f.explore(root, apis, -1) {
		for n := 0; n <= 8 && !f.explore(root, apis, n); n++ {
			f.r.count("lengths of short sources", 1)
		}
	}
}

// explore runs the abstract reader: exactly length letters if length is not negative. It
// tells whether states of a cycle had to be merged.
func (f *parsing) explore(root *Root, apis func(c *Ctx) bool, length int) bool {
	a, r := f.a, f.r
	x := a.newSim(root)
	x.graph = true
	x.limit = 15000
	x.maxInt = 64
	pend := &Obj{kind: oGlobal, id: -7}
	pk := ekey{o: pend, path: "pend"}
	obls := map[string]bool{}
	reading := map[*ssa.Function]bool{}
	eofT := x.mk("load", "", x.mk("&g", "io.EOF"))
	x.track = func(o *Obj, path string, t types.Type) bool {
		return isErr(t)
	}
	x.keep = func(k ekey) bool { return true }
	x.coarse = func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	x.opaque = func(c *Ctx) bool {
		if c == root.ctx {
			return false
		}
		return apis(c) || !f.isRelevant(c)
	}
	x.instr = func(s *State, n *GNode) []*State {
		if _, ok := n.in.(*ssa.Panic); ok {
			obls[x.g.where(n)] = true
			r.fail("panic", fnName(n.ctx.fn)+" panic", x.g.where(n), "%s may reach the panic in %s (path: %s)", root.name, fnName(n.ctx.fn), s.trail())
			return nil
		}
		switch b := n.in.(type) {
		case *ssa.Jump:
			f.bounded(x, s, n.ctx, b.Block())
		case *ssa.If:
			f.bounded(x, s, n.ctx, b.Block())
		}
		return nil
	}
	x.noFacts = func(t *Term) bool {
		if t.op == "len" {
			return true
		}
		if t.op == "reg" && t.typ != nil {
			if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return true
			}
		}
		if t.op == "reg" {
			if l, ok := t.v.(*ssa.Lookup); ok && l.CommaOk {
				return true
			}
		}
		return false
	}
	x.call = func(s *State, n *GNode) []*State {
		key, cc, call := x.key1(n)
		if call == nil || cc.IsInvoke() && !readerKey(key) {
			return nil
		}
		if !readerKey(key) {
			ei := lastErr(cc.Signature())
			if ei >= 0 && !makesErr(key) && !neverFails(key) {
				// a call either fails or gives a value
				bad := s.clone()
				ep := "#" + itoa(ei)
				x.set(s, n.ctx, call, ep, x.tNil)
				for i := 0; i < ei; i++ {
					if pointerish(cc.Signature().Results().At(i).Type()) {
						x.setNe(s, x.reg(n.ctx, call, "#"+itoa(i)), x.tNil)
					}
				}
				x.set(bad, n.ctx, call, ep, x.mk("err", "ext", x.reg(n.ctx, call, "$")))
				return []*State{s, bad}
			}
			return x.std(s, n)
		}
		reading[n.ctx.fn] = true
		r.count("reads", 1)
		if strings.HasPrefix(key, "bufio.Reader.Unread") {
			if s.cl["last"] == "" || s.cl["back"] != "" {
				x.set(s, n.ctx, call, "", x.mk("err", "unread"))
				return []*State{s}
			}
			s.cl["back"] = "1"
			x.set(s, n.ctx, call, "", x.tNil)
			return []*State{s}
		}
		if key == "bufio.Scanner.Scan" {
			end := s.clone()
			x.set(end, n.ctx, call, "", x.tFalse)
			end.cl["ended"] = "1"
			if s.cl["ended"] != "" {
				return []*State{end}
			}
			x.set(s, n.ctx, call, "", x.tTrue)
			s.prog = true
			return []*State{s, end}
		}
		ei := lastErr(cc.Signature())
		ep := ""
		if ei >= 0 {
			ep = "#" + itoa(ei)
		}
		letters := key == "bufio.Reader.ReadRune" || key == "bufio.Reader.ReadByte"
		if letters && s.cl["back"] != "" {
			delete(s.cl, "back")
			if t := s.env[pk]; t != nil {
				x.set(s, n.ctx, call, "#0", t)
			} else {
				x.setLo(s, x.reg(n.ctx, call, "#0"), 0)
				s.env[pk] = x.reg(n.ctx, call, "#0")
			}
			x.set(s, n.ctx, call, ep, x.tNil)
			return []*State{s}
		}
		end := s.clone()
		x.set(end, n.ctx, call, ep, x.mk("err", "end"))
		delete(end.cl, "last")
		delete(end.env, pk)
		ends := []*State{end}
		if s.cl["ended"] != "fail" {
			// the end of the source
			e2 := end.clone()
			x.set(e2, n.ctx, call, ep, eofT)
			if s.cl["ended"] == "eof" {
				ends = nil
			}
			e2.cl["ended"] = "eof"
			ends = append(ends, e2)
		}
		end.cl["ended"] = "fail"
		if s.cl["ended"] != "" {
			return ends
		}
		if length >= 0 {
			k := len(s.cl["read"])
			if k >= length {
				return ends
			}
			if k < length {
				// shorter sources have been looked at before
				ends = nil
			}
			s.cl["read"] += "."
		}
		x.set(s, n.ctx, call, ep, x.tNil)
		s.prog = true
		if letters {
			t := x.reg(n.ctx, call, "#0")
			x.setLo(s, t, 0)
			s.env[pk] = t
			s.cl["last"] = "1"
		}
		return append(ends, s)
	}
	x.run(nil)
	r.sim(x)
	if length < 0 {
		r.count("explicit panics reached", len(obls))
	}
	return f.cycles(x, reading)
}

func kindOf(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
		return "index"
	case *ssa.Slice:
		return "slice"
	case *ssa.Panic:
		return "panic"
	case *ssa.TypeAssert:
		return "assertion"
	case ssa.CallInstruction:
		return callKey(in.Common())
	}
	return "operation"
}

// bounded marks the rounds of bounded loops as progress.
func (f *parsing) bounded(x *Sim, s *State, ctx *Ctx, b *ssa.BasicBlock) {
	for _, d := range x.loopInfo.of(b.Parent()) {
		if d.kind == "other" || !d.body[b] {
			continue
		}
		for _, t := range b.Succs {
			if t == d.hdr {
				s.prog = true
			}
		}
	}
}

// cycles reports cycles of abstract states without progress.
func (f *parsing) cycles(x *Sim, reading map[*ssa.Function]bool) bool {
	merged := false
	n := len(x.nodeOf)
	adj := make([][]int, n+1)
	for _, e := range x.edges {
		if !e.prog {
			adj[e.from] = append(adj[e.from], e.to)
		}
	}
	f.r.count("state edges", len(x.edges))
	for _, scc := range sccs(adj) {
		touch, wide := false, false
		var fns []string
		seen := map[string]bool{}
		var at *GNode
		top := ""
		depth := 1 << 30
		for _, v := range scc {
			if v == 0 {
				continue
			}
			nd := x.g.nodes[x.nodeOf[v-1]]
			if reading[nd.ctx.fn] {
				touch = true
			}
			if x.widened[nd.id] {
				wide = true
			}
			d := 0
			for c := nd.ctx; c != nil; c = c.parent {
				d++
			}
			if d < depth || at == nil || at.in == nil && nd.in != nil && d == depth {
				depth, at, top = d, nd, fnName(nd.ctx.fn)
			}
			if nm := fnName(nd.ctx.fn); !seen[nm] {
				seen[nm] = true
				fns = append(fns, nm)
			}
		}
		if !touch {
			continue
		}
		if wide {
			f.r.count("cycles of merged states", 1)
			merged = true
			continue
		}
		sort.Strings(fns)
		st := &State{path: x.pathOf[scc[0]-1]}
		f.r.fail("progress", top, x.g.where(at), "%s may go on forever in %s without reading anything new (through %s; path: %s)", x.root.name, top, strings.Join(fns, ", "), st.trail())
	}
	return merged
}

// sccs lists the nontrivial strongly connected components.
func sccs(adj [][]int) [][]int {
	n := len(adj)
	index := make([]int, n)
	low := make([]int, n)
	on := make([]bool, n)
	var stack []int
	var out [][]int
	next := 1
	type frame struct{ v, i int }
	for s := 0; s < n; s++ {
		if index[s] != 0 {
			continue
		}
		fr := []frame{{s, 0}}
		index[s], low[s] = next, next
		next++
		stack = append(stack, s)
		on[s] = true
		for len(fr) > 0 {
			t := &fr[len(fr)-1]
			if t.i < len(adj[t.v]) {
				w := adj[t.v][t.i]
				t.i++
				if index[w] == 0 {
					index[w], low[w] = next, next
					next++
					stack = append(stack, w)
					on[w] = true
					fr = append(fr, frame{w, 0})
				} else if on[w] && index[w] < low[t.v] {
					low[t.v] = index[w]
				}
				continue
			}
			v := t.v
			fr = fr[:len(fr)-1]
			if len(fr) > 0 && low[v] < low[fr[len(fr)-1].v] {
				low[fr[len(fr)-1].v] = low[v]
			}
			if low[v] == index[v] {
				var c []int
				for {
					w := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[w] = false
					c = append(c, w)
					if w == v {
						break
					}
				}
				self := false
				for _, w := range adj[v] {
					self = self || w == v
				}
				if len(c) > 1 || self {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

// pure checks the other loops and the recursions of the functions involved.
func (f *parsing) pure(roots []*Root) {
	seen := map[*ssa.Function]bool{}
	for _, rt := range roots {
		for _, c := range f.a.ctxs {
			if c.root != rt || seen[c.fn] {
				continue
			}
			seen[c.fn] = true
			for _, d := range loopsOf(c.fn) {
				f.r.count("loops", 1)
				if !ranked(d) && !callsReader(f.a, c, d) {
					pos := d.hdr.Instrs[0]
					for _, in := range d.hdr.Instrs {
						if in.Pos() != token.NoPos {
							pos = in
							break
						}
					}
					f.r.fail("loop", fnName(c.fn), f.a.p.instrPos(pos), "nothing bounds the rounds of a loop in %s, which %s uses", fnName(c.fn), rt.name)
				}
			}
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if ci.Common().StaticCallee() == c.fn {
						f.r.count("recursive calls", 1)
						if !shrinks(ci.Common(), c.fn) {
							f.r.fail("recursion", fnName(c.fn), f.a.p.instrPos(in), "%s calls itself with nothing smaller, so it may never return", fnName(c.fn))
						}
					}
				}
			}
		}
	}
}

// callsReader tells whether a loop reads, also inside what it calls; those
// loops are judged by the progress rule.
func callsReader(a *PTA, c *Ctx, d *Domain) bool {
	memo := map[*Ctx]bool{}
	for b := range d.body {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if readerKey(callKey(ci.Common())) {
				return true
			}
			if si := a.callees[siteKey{c, ci}]; si != nil {
				for _, m := range append(append([]*Ctx{}, si.internal...), si.callbacks...) {
					if a.reachesReader(m, memo) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (a *PTA) reachesReader(c *Ctx, memo map[*Ctx]bool) bool {
	if v, ok := memo[c]; ok {
		return v
	}
	memo[c] = false
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if readerKey(callKey(ci.Common())) {
				memo[c] = true
				return true
			}
			if si := a.callees[siteKey{c, ci}]; si != nil {
				for _, m := range append(append([]*Ctx{}, si.internal...), si.callbacks...) {
					if a.reachesReader(m, memo) {
						memo[c] = true
						return true
					}
				}
			}
		}
	}
	return false
}

var _ = constant.Int
