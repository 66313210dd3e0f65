package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Panic obligations: indices, slice bounds, divisors, asserted types and
// explicit panics, discharged by linear facts of each abstract state.

type lform struct {
	c map[*Term]int64
	k int64
}

func (l lform) add(m lform, r int64) lform {
	n := lform{map[*Term]int64{}, l.k + r*m.k}
	for t, c := range l.c {
		n.c[t] = c
	}
	for t, c := range m.c {
		n.c[t] += r * c
		if n.c[t] == 0 {
			delete(n.c, t)
		}
	}
	return n
}

// linform gives the linear form of an integer term.
func (x *Sim) linform(s *State, t *Term) lform {
	t = x.norm(s, t)
	if i, ok := t.isInt(); ok {
		return lform{map[*Term]int64{}, i}
	}
	switch t.op {
	case "+", "-":
		if len(t.args) == 2 {
			r := int64(1)
			if t.op == "-" {
				r = -1
			}
			return x.linform(s, t.args[0]).add(x.linform(s, t.args[1]), r)
		}
	case "*":
		if len(t.args) == 2 {
			for i := 0; i < 2; i++ {
				if k, ok := x.norm(s, t.args[i]).isInt(); ok {
					zero := lform{map[*Term]int64{}, 0}
					return zero.add(x.linform(s, t.args[1-i]), k)
				}
			}
		}
	case "conv":
		if len(t.args) == 1 && (t.s == "int" || t.s == "int64") {
			return x.linform(s, t.args[0])
		}
	case "len":
		a := x.norm(s, t.args[0])
		if str, ok := a.isStr(); ok {
			return lform{map[*Term]int64{}, int64(len(str))}
		}
		if a.op == "slice" && len(a.args) >= 3 {
			base := x.mk("len", "", a.args[0])
			var hi lform
			if a.args[2].op == "none" {
				hi = x.linform(s, base)
			} else {
				hi = x.linform(s, a.args[2])
			}
			if a.args[1].op == "none" {
				return hi
			}
			return hi.add(x.linform(s, a.args[1]), -1)
		}
		if a != t.args[0] {
			t = x.mk("len", "", a)
		}
	}
	return lform{map[*Term]int64{t: 1}, 0}
}

// ineqs lists what is known as linear forms that are at most zero.
func (x *Sim) ineqs(s *State) []lform {
	var out []lform
	le := func(a, b *Term, k int64) { // a + k <= b
		f := x.linform(s, a).add(x.linform(s, b), -1)
		f.k += k
		if len(f.c) > 0 {
			out = append(out, f)
		}
	}
	atoms := map[*Term]bool{}
	var keys []*Term
	for t := range s.facts {
		keys = append(keys, t)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, t := range keys {
		f := s.facts[t]
		switch {
		case t.op == "<" && f.eq == x.tTrue:
			le(t.args[0], t.args[1], 1)
		case t.op == "<" && f.eq == x.tFalse:
			le(t.args[1], t.args[0], 0)
		case t.op == "<=" && f.eq == x.tTrue:
			le(t.args[0], t.args[1], 0)
		case t.op == "<=" && f.eq == x.tFalse:
			le(t.args[1], t.args[0], 1)
		case t.op == "==" && f.eq == x.tTrue && isNum2(t.args[0]):
			le(t.args[0], t.args[1], 0)
			le(t.args[1], t.args[0], 0)
		case (t.op == "call strings.HasPrefix" || t.op == "call strings.HasSuffix") && f.eq == x.tTrue && len(t.args) == 2:
			le(x.mk("len", "", t.args[1]), x.mk("len", "", t.args[0]), 0)
		}
		if f.lo > math.MinInt64 {
			l := lform{map[*Term]int64{}, f.lo}
			out = append(out, l.add(x.linform(s, t), -1))
		}
		if f.hi < math.MaxInt64 {
			l := lform{map[*Term]int64{}, -f.hi}
			out = append(out, l.add(x.linform(s, t), 1))
		}
		// letters of a string which is not empty
		if f.hasNe(x.cStr("")) {
			n := x.mk("len", "", t)
			out = append(out, lform{map[*Term]int64{n: -1}, 1})
		}
	}
	for _, f := range out {
		for t := range f.c {
			atoms[t] = true
		}
	}
	for t := range atoms {
		if t.op == "/" && len(t.args) == 2 && x.norm(s, t.args[0]).op == "len" {
			if c, ok := x.norm(s, t.args[1]).isInt(); ok && c > 0 {
				n := x.linform(s, t.args[0])
				out = append(out, lform{map[*Term]int64{t: c}, 0}.add(n, -1), n.add(lform{map[*Term]int64{t: c}, c - 1}, -1))
			}
		}
	}
	return out
}

func isNum2(t *Term) bool {
	if isNum(t) {
		return true
	}
	switch t.op {
	case "+", "-", "*", "%":
		return true
	}
	return false
}

// axioms of atoms, as forms that are at most zero.
func (x *Sim) axioms(s *State, t *Term, depth int) []lform {
	var out []lform
	if t.op == "len" || strings.HasPrefix(t.op, "call unicode/utf8.RuneCount") {
		out = append(out, lform{map[*Term]int64{t: -1}, 0})
	}
	if strings.HasPrefix(t.op, "call strings.Index") || strings.HasPrefix(t.op, "call strings.LastIndex") {
		out = append(out, lform{map[*Term]int64{t: -1}, -1})
		if len(t.args) == 2 {
			// t <= len(s) - 1
			f := lform{map[*Term]int64{t: 1}, 1}
			out = append(out, f.add(x.linform(s, x.mk("len", "", t.args[0])), -1))
		}
	}
	if t.op == "%" && len(t.args) == 2 && depth > 0 {
		b := x.linform(s, t.args[1])
		one := lform{map[*Term]int64{}, 1}
		if x.proveD(s, one.add(b, -1), nil, depth-1) {
			f := lform{map[*Term]int64{t: 1}, 1}
			out = append(out, f.add(b, -1))
			zero := lform{map[*Term]int64{}, 0}
			if x.proveD(s, zero.add(x.linform(s, t.args[0]), -1), nil, depth-1) {
				out = append(out, lform{map[*Term]int64{t: -1}, 0})
			}
		}
	}
	if t.op == "/" && len(t.args) == 2 && depth > 0 {
		if c, ok := x.norm(s, t.args[1]).isInt(); ok && c > 0 {
			n := x.linform(s, t.args[0])
			zero := lform{map[*Term]int64{}, 0}
			if x.proveD(s, zero.add(n, -1), nil, depth-1) {
				out = append(out, lform{map[*Term]int64{t: c}, 0}.add(n, -1))
				out = append(out, n.add(lform{map[*Term]int64{t: c}, c - 1}, -1))
				out = append(out, lform{map[*Term]int64{t: -1}, 0})
			}
		}
	}
	if t.op == "reg" {
		if phi, ok := t.v.(*ssa.Phi); ok && t.s == "" {
			if lo, ok := growing(phi, 1); ok {
				for f, k := s.facts[t], 0; k < 4 && f.hasNe(x.cInt(lo)); k++ {
					lo++
				}
				out = append(out, lform{map[*Term]int64{t: -1}, lo})
			}
			if hi, ok := growing(phi, -1); ok {
				out = append(out, lform{map[*Term]int64{t: 1}, -hi})
			}
		}
	}
	if lo, hi := x.bounds(s, t); true {
		if lo > math.MinInt64 {
			out = append(out, lform{map[*Term]int64{t: -1}, lo})
		}
		if hi < math.MaxInt64 {
			out = append(out, lform{map[*Term]int64{t: 1}, -hi})
		}
	}
	return out
}

// prove decides whether a linear form is at most zero in a state.
func (x *Sim) prove(s *State, g lform) bool { return x.proveD(s, g, nil, 4) }

func (x *Sim) proveD(s *State, g lform, facts []lform, depth int) bool {
	if len(g.c) == 0 {
		return g.k <= 0
	}
	if depth <= 0 || len(g.c) > 6 {
		return false
	}
	if facts == nil {
		facts = x.ineqs(s)
	}
	try := func(fs []lform) bool {
		for _, f := range fs {
			for t, c := range g.c {
				fc := f.c[t]
				if fc == 0 || (fc > 0) != (c > 0) || c%fc != 0 {
					continue
				}
				h := g.add(f, -(c / fc))
				if len(h.c) > len(g.c)+1 {
					continue
				}
				if x.proveD(s, h, facts, depth-1) {
					return true
				}
				break
			}
		}
		return false
	}
	var ax []lform
	var ts []*Term
	for t := range g.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		ax = append(ax, x.axioms(s, t, depth-1)...)
	}
	return try(ax) || try(facts)
}

// leq proves a + k <= b.
func (x *Sim) leq(s *State, a, b *Term, k int64) bool {
	f := x.linform(s, a).add(x.linform(s, b), -1)
	f.k += k
	return x.prove(s, f)
}

// ---------------------------------------------------------------------------

// mayPanic tells whether an instruction carries an obligation.
func mayPanic(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.IndexAddr:
		if at, ok := deref(in.X.Type()).Underlying().(*types.Array); ok {
			if c, ok := constInt(in.Index); ok && c >= 0 && c < at.Len() {
				return false
			}
		}
		return true
	case *ssa.Index, *ssa.Slice, *ssa.Panic, *ssa.MakeSlice:
		if sl, ok := in.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil && sl.Max == nil {
			return false
		}
		if mk, ok := in.(*ssa.MakeSlice); ok {
			_, c := constInt(mk.Len)
			return !c
		}
		return true
	case *ssa.Lookup:
		_, isMap := in.X.Type().Underlying().(*types.Map)
		return !isMap
	case *ssa.TypeAssert:
		return !in.CommaOk
	case *ssa.BinOp:
		if (in.Op == token.QUO || in.Op == token.REM) && isIntType(in.Type()) {
			c, ok := in.Y.(*ssa.Const)
			return !ok || c.Value == nil || constant.Sign(c.Value) == 0
		}
	case *ssa.MapUpdate, *ssa.FieldAddr:
		return true
	case *ssa.UnOp:
		return in.Op == token.MUL
	case *ssa.Store:
		return true
	case ssa.CallInstruction:
		if _, ok := derefed(in); ok {
			return true
		}
		switch callKey(in.Common()) {
		case "regexp.MustCompile", "regexp.MustCompilePOSIX", "strings.NewReplacer", "strings.Repeat", "bytes.Repeat":
			return true
		}
		return in.Common().IsInvoke()
	}
	return false
}

// derefed gives the pointer an instruction certainly dereferences.
func derefed(in ssa.Instruction) (ssa.Value, bool) {
	switch in := in.(type) {
	case *ssa.FieldAddr:
		return in.X, true
	case *ssa.UnOp:
		if in.Op == token.MUL {
			return in.X, true
		}
	case *ssa.Store:
		return in.Addr, true
	case ssa.CallInstruction:
		cc := in.Common()
		fn := cc.StaticCallee()
		if fn == nil || len(cc.Args) == 0 {
			return nil, false
		}
		if _, ok := cc.Args[0].Type().Underlying().(*types.Pointer); !ok {
			return nil, false
		}
		if len(fn.Blocks) > 0 && len(fn.Params) > 0 {
			for b, k := fn.Blocks[0], 0; k < len(fn.Blocks); k++ {
				for _, i := range b.Instrs {
					if p, ok := derefed0(i); ok && p == fn.Params[0] {
						return cc.Args[0], true
					}
				}
				if len(b.Succs) != 1 {
					break
				}
				b = b.Succs[0]
			}
			return nil, false
		}
		if fn.Signature.Recv() != nil {
			return cc.Args[0], true
		}
	}
	return nil, false
}

func derefed0(in ssa.Instruction) (ssa.Value, bool) {
	if _, ok := in.(ssa.CallInstruction); ok {
		return nil, false
	}
	return derefed(in)
}

// obligation checks an instruction in a state before it is executed. It gives
// what may go wrong, or "".
// oneSub: the operators that repeat or capture have one subexpression.
func (x *Sim) oneSub(s *State, t *Term, typ types.Type) bool {
	if t.op != "load" || len(t.args) != 1 || t.args[0].op != ".Sub" || typ.String() != "[]*regexp/syntax.Regexp" {
		return false
	}
	op, ok := x.norm(s, x.mk("load", "", x.mk(".Op", "", t.args[0].args[0]))).isInt()
	return ok && op >= 13 && op <= 17
}

func (x *Sim) obligation(s *State, n *GNode) string {
	ctx := n.ctx
	zero := x.cInt(0)
	for _, op := range n.in.Operands(nil) {
		if op != nil && *op != nil {
			x.offset(s, ctx, *op)
		}
	}
	length := func(v ssa.Value) *Term {
		if at, ok := deref(v.Type()).Underlying().(*types.Array); ok {
			return x.cInt(at.Len())
		}
		t := x.eval(s, ctx, v)
		if t.op == "nil" {
			return zero
		}
		return x.mk("len", "", t)
	}
	index := func(seq, idx ssa.Value) string {
		i := x.eval(s, ctx, idx)
		n := length(seq)
		if !x.leq(s, zero, i, 0) {
			return "the index " + i.String() + " may be negative"
		}
		if k, ok := x.norm(s, i).isInt(); ok && k == 0 && x.oneSub(s, x.eval(s, ctx, seq), seq.Type()) {
			return ""
		}
		if !x.leq(s, i, n, 1) {
			return "the index " + i.String() + " may be out of range"
		}
		return ""
	}
	if p, ok := derefed(n.in); ok {
		if x.eval(s, ctx, p).op == "nil" {
			return "the pointer " + p.Name() + " is nil"
		}
	}
	switch in := n.in.(type) {
	case *ssa.IndexAddr:
		return index(in.X, in.Index)
	case *ssa.Index:
		return index(in.X, in.Index)
	case *ssa.Lookup:
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			return index(in.X, in.Index)
		}
	case *ssa.Slice:
		lo, hi := zero, length(in.X)
		if in.Low != nil {
			lo = x.eval(s, ctx, in.Low)
		}
		if in.High != nil {
			h := x.eval(s, ctx, in.High)
			if in.Low == nil && !x.leq(s, zero, h, 0) {
				return "the bound " + h.String() + " may be negative"
			}
			_, isSlice := in.X.Type().Underlying().(*types.Slice)
			if !x.leq(s, h, hi, 0) && !(isSlice && h == zero) {
				return "the bound " + h.String() + " may be out of range"
			}
			hi = h
		}
		if in.Low != nil {
			if !x.leq(s, zero, lo, 0) {
				return "the bound " + lo.String() + " may be negative"
			}
			if !x.leq(s, lo, hi, 0) {
				return "the bound " + lo.String() + " may be out of range"
			}
		}
	case *ssa.MakeSlice:
		if l := x.eval(s, ctx, in.Len); !x.leq(s, zero, l, 0) {
			return "the length " + l.String() + " may be negative"
		}
	case *ssa.BinOp:
		d := x.eval(s, ctx, in.Y)
		if x.cmp(s, d, zero) != 2 && !x.leq(s, zero, d, 1) && !x.leq(s, d, zero, 1) {
			return "the divisor " + d.String() + " may be zero"
		}
	case *ssa.TypeAssert:
		t := x.eval(s, ctx, in.X)
		if t.op == "iface" && t.s == types.TypeString(in.AssertedType, nil) {
			return ""
		}
		if types.IsInterface(in.AssertedType) && x.nonNil(s, t) && types.Implements(in.X.Type(), in.AssertedType.Underlying().(*types.Interface)) {
			return ""
		}
		return "the value may be no " + types.TypeString(in.AssertedType, nil)
	case *ssa.Panic:
		return "the panic is reached"
	case *ssa.MapUpdate:
		if x.eval(s, ctx, in.Map).op == "nil" || len(x.a.pts(ctx, in.Map)) == 0 {
			return "the map is nil"
		}
	case ssa.CallInstruction:
		cc := in.Common()
		if cc.IsInvoke() {
			if x.eval(s, ctx, cc.Value).op == "nil" {
				return "the receiver is nil"
			}
			return ""
		}
		switch callKey(cc) {
		case "regexp.MustCompile", "regexp.MustCompilePOSIX":
			if _, ok := x.eval(s, ctx, cc.Args[0]).isStr(); !ok {
				return "the expression may be invalid"
			}
		case "strings.Repeat", "bytes.Repeat":
			if c := x.eval(s, ctx, cc.Args[1]); !x.leq(s, zero, c, 0) {
				return "the count " + c.String() + " may be negative"
			}
		case "strings.NewReplacer":
			if !pairsOnly(x.a, ctx, cc.Args[0]) {
				return "there may be an odd number of arguments"
			}
		}
	}
	return ""
}

// pairsOnly tells whether a slice is only ever appended to in pairs.
func pairsOnly(a *PTA, ctx *Ctx, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var even func(ctx *Ctx, v ssa.Value) bool
	even = func(ctx *Ctx, v ssa.Value) bool {
		ctx, v = a.resolve(ctx, v)
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !even(ctx, e) {
					return false
				}
			}
			return true
		case *ssa.MakeSlice:
			if c, ok := constInt(v.Len); ok {
				return c%2 == 0
			}
			b, ok := v.Len.(*ssa.BinOp)
			if ok && b.Op == token.MUL {
				for _, o := range []ssa.Value{b.X, b.Y} {
					if c, ok := constInt(o); ok && c%2 == 0 {
						return true
					}
				}
			}
			return false
		case *ssa.Slice:
			if al, ok := v.X.(*ssa.Alloc); ok && v.Low == nil && v.High == nil {
				if at, ok := deref(al.Type()).Underlying().(*types.Array); ok {
					return at.Len()%2 == 0
				}
			}
			if v.Low == nil && v.High != nil {
				c, ok := constInt(v.High)
				return ok && c == 0
			}
			return false
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return even(ctx, v.Call.Args[0]) && even(ctx, v.Call.Args[1])
			}
			return true // built elsewhere
		}
		return true
	}
	return even(ctx, v)
}

// safety checks the panic obligations of contexts one function at a time, with
// the short functions they call.
type safety struct {
	a         *PTA
	r         *Report
	root      *Root
	skipPanic bool
	// inline also follows functions with loops, unless they are recursive
	inline bool
	// skip leaves an obligation out
	skip func(n *GNode) bool
	// call models calls
	call  func(x *Sim, s *State, n *GNode) []*State
	sites map[string]bool
}

func (sf *safety) run(ctxs []*Ctx) {
	sf.sites = map[string]bool{}
	for _, c := range ctxs {
		if sf.inline && c != sf.root.ctx && !recursive(c) {
			continue
		}
		if sf.a.simpleFn(c, 3) && c != sf.root.ctx && !sf.a.isCallback(c) {
			continue // judged where it is called
		}
		has := false
		for _, k := range sf.a.ctxs {
			if k != c && !sf.inline && (k.parent != c || !sf.a.simpleFn(k, 3)) {
				continue
			}
			for _, b := range k.fn.Blocks {
				for _, in := range b.Instrs {
					has = has || mayPanic(in)
				}
			}
		}
		if !has {
			continue
		}
		fs := sf.from(c, nil)
		// a precondition the caller may establish
		for up, n := c, 0; len(fs) > 0 && up.parent != nil && n < 2; n++ {
			chain := map[*Ctx]bool{c: true}
			for k := c; k != up.parent; k = k.parent {
				chain[k] = true
			}
			up = up.parent
			fs2 := sf.from(up, chain)
			var keep []Finding
			for _, f := range fs {
				for _, g := range fs2 {
					if f.Where == g.Where {
						keep = append(keep, f)
						break
					}
				}
			}
			fs = keep
		}
		for _, f := range fs {
			sf.r.fail(f.Rule, f.Key, f.Where, "%s", f.Msg)
		}
	}
	sf.r.count("panic obligations", len(sf.sites))
	for _, k := range sortedKeys(sf.sites) {
		sf.r.sample("obligation at %s", k)
	}
}

// isCallback tells whether a context is entered through an external function.
func (a *PTA) isCallback(c *Ctx) bool {
	if c.parent == nil {
		return false
	}
	ci, ok := c.site.(ssa.CallInstruction)
	if !ok {
		return false
	}
	si := a.callees[siteKey{c.parent, ci}]
	if si == nil {
		return false
	}
	for _, m := range si.callbacks {
		if m == c {
			return true
		}
	}
	return false
}

func (sf *safety) from(c *Ctx, chain map[*Ctx]bool) []Finding {
	var out []Finding
	seen := map[string]bool{}
	root := &Root{name: sf.root.name, fn: c.fn, ctx: c}
	x := sf.a.newSim(sf.root)
	x.root = root
	x.maxInt = 64
	x.limit = 600
	x.signs = true
	x.opaque = func(k *Ctx) bool {
		if sf.inline && k.parent != nil && !recursive(k) {
			return false
		}
		return k != c && !chain[k] && (!sf.a.simpleFn(k, 3) || sf.a.isCallback(k))
	}
	x.instr = func(s *State, n *GNode) []*State {
		if mayPanic(n.in) && (sf.skip == nil || !sf.skip(n)) && !ordered(sf.a, n) {
			_, isPanic := n.in.(*ssa.Panic)
			if !isPanic || !sf.skipPanic {
				k := x.g.where(n)
				if _, ok := derefed(n.in); !ok {
					sf.sites[k] = true
				}
				if why := x.obligation(s, n); why != "" && !seen[k] {
					seen[k] = true
					out = append(out, Finding{"panic", fnName(n.ctx.fn) + " " + kindOf(n.in), k, sf.root.name + " may panic in " + fnName(n.ctx.fn) + ": " + why + " (path: " + s.trail() + ")"})
				}
			}
		}
		if l, ok := n.in.(*ssa.Lookup); ok && l.CommaOk {
			if m, ok := l.X.Type().Underlying().(*types.Map); ok && (pointerish(m.Elem()) || types.IsInterface(m.Elem())) {
				// what is there is never nil
				x.exec(s, n)
				no := s.clone()
				x.set(no, n.ctx, l, "#0", x.tNil)
				x.set(no, n.ctx, l, "#1", x.tFalse)
				x.setNe(s, x.evalP(s, n.ctx, l, "#0"), x.tNil)
				x.set(s, n.ctx, l, "#1", x.tTrue)
				return []*State{s, no}
			}
		}
		if mk, ok := n.in.(*ssa.MakeSlice); ok {
			l := x.eval(s, n.ctx, mk.Len)
			x.exec(s, n)
			t := x.reg(n.ctx, mk, "")
			x.setNe(s, t, x.tNil)
			x.assume(s, x.mk("==", "", x.mk("len", "", t), l), true)
			return []*State{s}
		}
		return nil
	}
	x.branch = func(s *State, n *GNode, cond *Term, truth bool) bool { return x.possible(s, n) }
	x.after = func(s *State, n *GNode) { x.positions(s, n) }
	x.call = func(s *State, n *GNode) []*State {
		if sf.call != nil {
			if r := sf.call(x, s, n); r != nil {
				return r
			}
		}
		key, cc, call := x.key1(n)
		if call == nil || cc.IsInvoke() {
			return nil
		}
		ei := lastErr(cc.Signature())
		if ei >= 0 && !makesErr(key) && !neverFails(key) {
			// a call either fails or gives a value
			bad := s.clone()
			ep := "#" + itoa(ei)
			x.set(s, n.ctx, call, ep, x.tNil)
			for i := 0; i < ei; i++ {
				if pointerish(cc.Signature().Results().At(i).Type()) {
					x.setNe(s, x.reg(n.ctx, call, "#"+itoa(i)), x.tNil)
				}
			}
			x.set(bad, n.ctx, call, ep, x.mk("err", "ext", x.reg(n.ctx, call, "$")))
			for i := 0; i < ei; i++ {
				if _, ok := cc.Signature().Results().At(i).Type().Underlying().(*types.Pointer); ok {
					x.set(bad, n.ctx, call, "#"+itoa(i), x.tNil)
				}
			}
			return []*State{s, bad}
		}
		return x.std(s, n)
	}
	x.run(nil)
	sf.r.count("abstract states", x.states)
	return out
}

// ordered: the indices a sort.* callback gets are in range.
func ordered(a *PTA, n *GNode) bool {
	if !a.isCallback(n.ctx) {
		return false
	}
	ci := n.ctx.site.(ssa.CallInstruction)
	if k := callKey(ci.Common()); !strings.HasPrefix(k, "sort.") && !strings.HasPrefix(k, "slices.") {
		return false
	}
	var idx ssa.Value
	switch in := n.in.(type) {
	case *ssa.IndexAddr:
		idx = in.Index
	case *ssa.Index:
		idx = in.Index
	}
	_, ok := idx.(*ssa.Parameter)
	return ok
}

// recursive tells whether a context runs a function that is running already.
func recursive(c *Ctx) bool {
	for k := c.parent; k != nil; k = k.parent {
		if k.fn == c.fn {
			return true
		}
	}
	return false
}

// growing gives the bound of a variable that starts at constants and only
// moves in one direction.
func growing(phi *ssa.Phi, dir int64) (int64, bool) {
	seen := map[ssa.Value]bool{}
	bound, any := int64(0), false
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		if c, isC := constInt(v); isC {
			if !any || dir > 0 && c < bound || dir < 0 && c > bound {
				bound, any = c, true
			}
			return true
		}
		switch v := v.(type) {
		case *ssa.Phi:
			if !isIntType(v.Type()) {
				return false
			}
			seen[v] = true
			for _, e := range v.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			seen[v] = true
			c, isC := constInt(v.Y)
			if !isC {
				return false
			}
			if v.Op == token.ADD && c*dir >= 0 || v.Op == token.SUB && c*dir <= 0 {
				return ok(v.X)
			}
		}
		return false
	}
	return bound, ok(phi) && any
}
