package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The version analysis: which values hold a text, or a list of subwords, that
// a step has already worked on and that has been replaced by its outcome.

type vtok struct {
	site  ssa.Value
	ctx   *Ctx
	stale int // 0: no; otherwise 1 + the node that has made it stale
	part  int // 0: no; otherwise 1 + the node that has taken a part
}

type vloc struct {
	ctx  *Ctx
	v    ssa.Value
	o    *Obj
	path string
}

type vset map[vtok]bool

type vstate map[vloc]vset

func (st vstate) clone() vstate {
	out := make(vstate, len(st))
	for k, v := range st {
		out[k] = v // sets are never changed in place
	}
	return out
}

type versions struct {
	*stage
	in      map[int]vstate
	tokens  int
	derived *Taint // from what Find has found
}

func versioned(t types.Type) bool {
	if t == nil {
		return false
	}
	if isStringT(t) || isSubwords(t) || strings.HasSuffix(qualName(t), "/internal/subword.Subword") {
		_, ptr := t.Underlying().(*types.Pointer)
		return !ptr
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Int32 || b.Kind() == types.Uint8
		}
	}
	return false
}

// vleaves lists the parts of a type that hold texts or lists.
func vleaves(t types.Type) []string {
	if t == nil {
		return nil
	}
	if versioned(t) {
		return []string{""}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || extType(t) {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		for _, p := range vleaves(st.Field(i).Type()) {
			out = append(out, "."+st.Field(i).Name()+p)
		}
	}
	return out
}

func (v *versions) copy(st vstate, to vloc, s vset) {
	if len(s) == 0 {
		delete(st, to)
	} else {
		st[to] = s
	}
}

func (v *versions) get(st vstate, ctx *Ctx, x ssa.Value, path string) vset {
	switch x.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return nil
	}
	return st[vloc{ctx: ctx, v: x, path: path}]
}

func (v *versions) fresh(st vstate, ctx *Ctx, x ssa.Value, path string) {
	st[vloc{ctx: ctx, v: x, path: path}] = vset{vtok{site: x, ctx: ctx}: true}
}

func join(x, y vset) vset {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	out := vset{}
	for k := range x {
		out[k] = true
	}
	for k := range y {
		out[k] = true
	}
	return out
}

func sameSet(x, y vset) bool {
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if !y[k] {
			return false
		}
	}
	return true
}

// kill makes everything that holds the text stale.
func (v *versions) kill(st vstate, toks vset, by int) {
	if len(toks) == 0 {
		return
	}
	for l, set := range st {
		hit := false
		for t := range set {
			if t.stale == 0 && toks[t] {
				hit = true
			}
		}
		if !hit {
			continue
		}
		out := vset{}
		for t := range set {
			if t.stale == 0 && toks[t] {
				t.stale = by + 1
			}
			out[t] = true
		}
		st[l] = out
	}
}

func (v *versions) revive(st vstate, by func(n *GNode) bool) {
	for l, set := range st {
		out := vset{}
		ch := false
		for t := range set {
			if t.stale > 0 && by(v.g.nodes[t.stale-1]) {
				t.stale = 0
				ch = true
			}
			out[t] = true
		}
		if ch {
			st[l] = out
		}
	}
}

// cellLoc is the location of a local variable in memory, if it is one.
func (v *versions) cellLocs(ctx *Ctx, addr ssa.Value) []vloc {
	var out []vloc
	for _, e := range v.a.pts(ctx, addr) {
		if e.o.shared || e.o.kind != oAlloc || strings.Contains(e.path, "[]") || strings.Contains(e.path, "{") {
			return nil
		}
		out = append(out, vloc{o: canon(e.o), path: e.path})
	}
	return out
}

// load copies what memory holds.
func (v *versions) load(st vstate, n *GNode, in *ssa.UnOp) {
	base, elem := in.X, false
	for {
		switch b := base.(type) {
		case *ssa.FieldAddr:
			base = b.X
			continue
		case *ssa.IndexAddr:
			if versioned(b.X.Type()) {
				elem = true
				base = b.X
			}
		}
		break
	}
	for _, leaf := range vleaves(in.Type()) {
		s := vset{}
		if elem {
			// an element of a list carries the state of the list
			for t := range v.get(st, n.ctx, base, "") {
				s[vtok{site: in, ctx: n.ctx, stale: t.stale, part: t.part}] = true
			}
		} else {
			for _, l := range v.cellLocs(n.ctx, in.X) {
				l.path += leaf
				got := st[l]
				for p := l.path; got == nil; {
					// a field of a subword stored as a whole
					i := strings.LastIndex(p, ".")
					if i < 0 {
						break
					}
					p = p[:i]
					got = st[vloc{o: l.o, path: p}]
				}
				s = join(s, got)
			}
		}
		if len(s) == 0 {
			s = vset{vtok{site: in, ctx: n.ctx}: true}
		}
		st[vloc{ctx: n.ctx, v: in, path: leaf}] = s
	}
}

// opaque tells whether a call is not looked into.
func (v *versions) opaque(c *Ctx) bool {
	return c.fn.Pkg == nil || c.fn.Pkg.Pkg.Path() != modPath && !(c.fn.Synthetic != "" || c.fn.Parent() != nil && c.fn.Parent().Pkg != nil && c.fn.Parent().Pkg.Pkg.Path() == modPath)
}

// transfer computes the state after a node and the edges to follow.
func (v *versions) transfer(n *GNode, st vstate, emit func(to int, st vstate)) {
	if n.in == nil {
		for _, s := range n.succ {
			emit(s, st)
		}
		return
	}
	switch n.kind {
	case kRet, kDeferRet:
		ci := n.in.(ssa.CallInstruction)
		st = st.clone()
		if call, ok := n.in.(*ssa.Call); ok {
			v.results(st, n, call)
		}
		_ = ci
		for _, s := range n.succ {
			emit(s, st)
		}
		return
	case kMid, kDeferMid, kEntry, kExit, kPExit:
		for _, s := range n.succ {
			emit(s, st)
		}
		return
	}
	st = st.clone()
	switch in := n.in.(type) {
	case *ssa.If, *ssa.Jump:
		b := n.in.Block()
		for i, sb := range b.Succs {
			out := st.clone()
			if iff, ok := in.(*ssa.If); ok {
				if x := emptiness(iff, i); x != nil && emptiness(iff, 1-i) == nil {
					if v.derivedFromFind(n.ctx, x) {
						v.revive(out, func(k *GNode) bool { return v.at[k.id] == sRewrite || v.at[k.id] == sTranscribe })
					}
				}
			}
			v.leaveLoop(n, out, b, sb)
			// phis
			pi := -1
			for j, p := range sb.Preds {
				if p == b {
					pi = j
				}
			}
			type asg struct {
				l vloc
				s vset
			}
			var as []asg
			for _, x := range sb.Instrs {
				phi, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				for _, p := range vleaves(phi.Type()) {
					as = append(as, asg{vloc{ctx: n.ctx, v: phi, path: p}, v.get(out, n.ctx, phi.Edges[pi], p)})
				}
			}
			for _, x := range as {
				v.copy(out, x.l, x.s)
			}
			emit(v.first(n.ctx, sb), out)
		}
		return
	case *ssa.Phi:
	case *ssa.UnOp:
		if in.Op == token.MUL {
			v.load(st, n, in)
		}
	case *ssa.Field:
		for _, p := range vleaves(in.Type()) {
			s := v.get(st, n.ctx, in.X, "")
			if !versioned(in.X.Type()) {
				s = v.get(st, n.ctx, in.X, "."+in.X.Type().Underlying().(*types.Struct).Field(in.Field).Name()+p)
			}
			if len(s) == 0 {
				v.fresh(st, n.ctx, in, p)
			} else {
				st[vloc{ctx: n.ctx, v: in, path: p}] = s
			}
		}
	case *ssa.ChangeType:
		if versioned(in.Type()) {
			st[vloc{ctx: n.ctx, v: in}] = v.get(st, n.ctx, in.X, "")
		}
	case *ssa.Convert:
		if versioned(in.Type()) && versioned(in.X.Type()) {
			st[vloc{ctx: n.ctx, v: in}] = v.get(st, n.ctx, in.X, "")
		}
	case *ssa.Slice:
		if versioned(in.Type()) {
			s := v.get(st, n.ctx, in.X, "")
			lo := in.Low == nil
			if k, ok := constInt(in.Low); in.Low != nil && ok && k == 0 {
				lo = true
			}
			if !lo || in.High != nil {
				s2 := vset{}
				for t := range s {
					if t.part == 0 {
						t.part = n.id + 1
					}
					s2[t] = true
				}
				s = s2
			}
			st[vloc{ctx: n.ctx, v: in}] = s
		}
	case *ssa.Extract:
		for _, p := range vleaves(in.Type()) {
			if call, ok := in.Tuple.(*ssa.Call); ok {
				v.copy(st, vloc{ctx: n.ctx, v: in, path: p}, v.get(st, n.ctx, call, fmt.Sprintf("#%d", in.Index)+p))
			} else {
				v.fresh(st, n.ctx, in, p)
			}
		}
	case *ssa.Store:
		for _, p := range vleaves(in.Val.Type()) {
			locs := v.cellLocs(n.ctx, in.Addr)
			s := v.get(st, n.ctx, in.Val, p)
			for _, l := range locs {
				l.path += p
				if len(locs) == 1 {
					v.copy(st, l, s)
				} else {
					v.copy(st, l, join(st[l], s))
				}
			}
		}
	case *ssa.Return:
		for i, x := range in.Results {
			for _, p := range vleaves(x.Type()) {
				s := v.get(st, n.ctx, x, p)
				if failingRet(in) {
					s = nil // the caller gives up
				}
				v.copy(st, vloc{ctx: n.ctx, path: fmt.Sprintf("return#%d", i) + p}, s)
			}
		}
	case ssa.CallInstruction:
		if _, ok := n.in.(*ssa.Defer); ok && n.kind == kInstr {
			break
		}
		v.callSite(n, st, in, emit)
		return
	default:
		if x, ok := n.in.(ssa.Value); ok && versioned(x.Type()) {
			v.fresh(st, n.ctx, x, "")
		}
	}
	for _, s := range n.succ {
		emit(s, st)
	}
}

func (v *versions) derivedFromFind(ctx *Ctx, x ssa.Value) bool {
	for _, l := range allLeaves(x.Type()) {
		if v.derived.has(v.derived.f.reg(ctx, x, l.path)) {
			return true
		}
	}
	return v.derived.tainted(ctx, x)
}

// leaveLoop: once the loop of a step over a text or list is through, its
// outcome stands for it.
func (v *versions) leaveLoop(n *GNode, st vstate, from, to *ssa.BasicBlock) {
	for _, d := range v.loopsIn(n.ctx.fn) {
		if d.hdr != from || !d.body[from] || d.body[to] {
			continue
		}
		l := loopAt{n.ctx, d}
		step := -1
		for _, k := range []int{sNormScript, sRewrite, sTranscribe, sSyllabify, sLocalize} {
			for _, m := range v.of[k] {
				ls := v.around(m)
				for _, x := range ls {
					if x == l {
						step = k
					}
				}
			}
		}
		if step < 0 {
			continue
		}
		seq, _ := v.seqValue(l)
		if seq == nil || !versioned(seq.Type()) {
			continue
		}
		c, x := v.a.resolve(l.ctx, seq)
		set := v.get(st, l.ctx, seq, "")
		if len(set) == 0 {
			set = v.get(st, c, x, "")
		}
		v.kill(st, set, n.id)
	}
}

func (v *versions) callSite(n *GNode, st vstate, ci ssa.CallInstruction, emit func(int, vstate)) {
	cc := ci.Common()
	// the effect of a step
	if s, ok := v.at[n.id]; ok {
		switch s {
		case sTranslit, sNormSpec, sNormScript, sPartition, sRewrite, sTranscribe:
			if x := v.input(n); x != nil {
				v.kill(st, v.get(st, n.ctx, x, ""), n.id)
			}
		}
	}
	si := v.a.callees[siteKey{n.ctx, ci}]
	var in []*Ctx
	if si != nil && !si.external && len(si.internal) > 0 {
		for _, c := range si.internal {
			if !v.opaque(c) {
				in = append(in, c)
			}
		}
		if len(in) != len(si.internal) {
			in = nil
		}
	}
	if len(in) == 0 {
		if r, ok := v.g.rets[retKey{n.ctx, ci, n.id}]; ok {
			emit(r, st)
		} else {
			for _, s := range n.succ {
				emit(s, st)
			}
		}
		return
	}
	for _, c := range in {
		out := st.clone()
		args := cc.Args
		params := c.fn.Params
		if cc.IsInvoke() {
			params = params[1:]
		}
		for i, p := range params {
			if i < len(args) {
				for _, lf := range vleaves(p.Type()) {
					v.copy(out, vloc{ctx: c, v: p, path: lf}, v.get(st, n.ctx, args[i], lf))
				}
			}
		}
		emit(v.g.entry[c], out)
	}
}

// input is the text a step works on.
func (v *versions) input(n *GNode) ssa.Value {
	cc := n.in.(ssa.CallInstruction).Common()
	switch v.at[n.id] {
	case sTranslit:
		return cc.Args[0]
	case sNormSpec, sRewrite, sTranscribe:
		return cc.Args[1]
	case sSyllabify, sPartition:
		return cc.Args[0]
	case sNormScript:
		if callKey(cc) == "strings.Map" {
			return cc.Args[1]
		}
	}
	return nil
}

func (v *versions) results(st vstate, n *GNode, call *ssa.Call) {
	si := v.a.callees[siteKey{n.ctx, call}]
	looked := si != nil && !si.external && len(si.internal) > 0
	if looked {
		for _, c := range si.internal {
			if v.opaque(c) {
				looked = false
			}
		}
	}
	set := func(path string, t types.Type, i int) {
		if looked {
			for _, p := range vleaves(t) {
				s := vset{}
				for _, c := range si.internal {
					s = join(s, st[vloc{ctx: c, path: fmt.Sprintf("return#%d", i) + p}])
				}
				v.copy(st, vloc{ctx: n.ctx, v: call, path: path + p}, s)
			}
			return
		}
		if !versioned(t) {
			return
		}
		l := vloc{ctx: n.ctx, v: call, path: path}
		key := callKey(call.Common())
		if _, isStep := v.at[v.g.instr[siteKey{n.ctx, call}]]; !isStep && strings.HasPrefix(key, "strings.") && !strings.HasPrefix(key, "strings.Replacer.") && !strings.HasPrefix(key, "strings.Builder.") && isStringT(t) {
			// something made of a text is a part of it, as far as steps go
			s := vset{}
			for _, x := range call.Common().Args {
				for t := range v.get(st, n.ctx, x, "") {
					if t.part == 0 {
						t.part = n.id + 1
					}
					s[t] = true
				}
			}
			if len(s) > 0 && key != "strings.Clone" {
				st[l] = s
				return
			}
		}
		st[l] = vset{vtok{site: call, ctx: n.ctx}: true}
	}
	t := call.Type()
	if tp, ok := t.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			set(fmt.Sprintf("#%d", i), tp.At(i).Type(), i)
		}
		return
	}
	set("", t, 0)
}

// solve runs the analysis to a fixpoint.
func (v *versions) solve() {
	v.in = map[int]vstate{}
	start := v.g.entry[v.root.ctx]
	init := vstate{}
	for _, p := range v.root.fn.Params {
		if versioned(p.Type()) {
			v.fresh(init, v.root.ctx, p, "")
		}
	}
	v.in[start] = init
	work := []int{start}
	queued := map[int]bool{start: true}
	for steps := 0; len(work) > 0; steps++ {
		if steps > 400000 {
			fail("the version analysis of %s does not end", v.root.name)
		}
		id := work[0]
		work = work[1:]
		queued[id] = false
		v.transfer(v.g.nodes[id], v.in[id], func(to int, st vstate) {
			old, ok := v.in[to]
			ch := !ok
			if !ok {
				v.in[to] = st
			} else {
				var merged vstate
				for l, s := range st {
					j := join(old[l], s)
					if !sameSet(j, old[l]) {
						if merged == nil {
							merged = old.clone()
						}
						merged[l] = j
						ch = true
					}
				}
				if merged != nil {
					v.in[to] = merged
				}
			}
			if ch && !queued[to] {
				queued[to] = true
				work = append(work, to)
			}
		})
	}
}

// inTrace tells whether a node runs only for tracing.
func (v *versions) inTrace(n *GNode) bool {
	if v.traced == nil {
		return false
	}
	for c, b := n.ctx, n.in.Block(); c != nil; {
		if _, ok := v.traced.blocks[blockKey{c, b}]; ok {
			return true
		}
		if c.site == nil {
			break
		}
		b = c.site.Block()
		c = c.parent
	}
	return false
}

// check reports the places where a step is given a text that is out of date or
// only a part of one.
func (v *versions) check() {
	ids := make([]int, 0, len(v.in))
	for id := range v.in {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	say := func(n *GNode, x ssa.Value, what string, findToo bool) {
		st := v.in[n.id]
		v.r.count("uses of a text or list", 1)
		for t := range v.get(st, n.ctx, x, "") {
			if t.stale > 0 {
				by := v.g.nodes[t.stale-1]
				s, ok := v.at[by.id]
				if ok && (s == sRewrite || s == sTranscribe) && !findToo {
					continue
				}
				v.r.fail("version", fmt.Sprintf("%s %s", what, fnName(n.ctx.fn)), v.g.where(n), "%s: %s in %s is given what %s has already replaced", v.root.name, what, fnName(n.ctx.fn), v.g.where(by))
			}
			if t.part > 0 {
				v.r.fail("part", fmt.Sprintf("%s %s", what, fnName(n.ctx.fn)), v.g.where(n), "%s: %s in %s is given only a part of the text or something else made of it (%s)", v.root.name, what, fnName(n.ctx.fn), v.g.where(v.g.nodes[t.part-1]))
			}
		}
	}
	for _, id := range ids {
		n := v.g.nodes[id]
		if n.in == nil || n.kind != kInstr || v.inTrace(n) {
			continue
		}
		switch in := n.in.(type) {
		case *ssa.Range:
			if isStringT(in.X.Type()) && v.stepRange(n, in) {
				say(n, in.X, "a loop over a text", false)
			}
		case *ssa.IndexAddr:
			if isSubwords(in.X.Type()) {
				say(n, in.X, "a loop over subwords", false)
			} else if versioned(in.X.Type()) && v.stepSeq(n, in.X) {
				say(n, in.X, "a loop over a text", false)
			}
		case *ssa.Call:
			if s, ok := v.at[id]; ok && s != sPartition {
				if x := v.input(n); x != nil {
					say(n, x, stepNames[s], true)
				}
			}
			if strings.HasSuffix(callKey(in.Common()), "/internal/subword.NewReplacer") {
				say(n, in.Common().Args[0], "a replacer", false)
			}
		case *ssa.Return:
			if n.ctx == v.root.ctx && !failingRet(in) {
				for _, x := range in.Results {
					if isStringT(x.Type()) {
						say(n, x, "the result", false)
					}
				}
			}
		}
	}
}

// stepRange: a loop over a text that is one of the steps.
func (v *versions) stepRange(n *GNode, rg *ssa.Range) bool {
	for _, k := range []int{sNormScript, sLocalize} {
		for _, m := range v.of[k] {
			for _, l := range v.around(m) {
				if l.d.next != nil && l.ctx == n.ctx && l.d.next.Iter == rg {
					return true
				}
			}
		}
	}
	return false
}

// stepSeq: the letters a step goes through.
func (v *versions) stepSeq(n *GNode, x ssa.Value) bool {
	for _, k := range []int{sNormScript, sLocalize} {
		for _, m := range v.of[k] {
			for _, l := range v.around(m) {
				if seq, _ := v.seqValue(l); seq == x && l.ctx == n.ctx {
					return true
				}
			}
		}
	}
	return false
}

func (a *PTA) steps(r *Report) {
	f := a.flow(nil)
	for _, root := range a.roots {
		if !root.api || root.fn == nil || root.fn.Name() != "Hangulize" {
			continue
		}
		r.count("operations", 1)
		s := &stage{a: a, r: r, root: root, g: a.graph(root), loops: map[*ssa.Function][]*Domain{}}
		s.o = &order{a: a, r: r, f: f, root: root, g: s.g, loops: s.loops}
		s.traced = a.tracedBlocks(f, root)
		s.classify()
		missing := false
		for st := 0; st < nSteps; st++ {
			if st == sPartition {
				continue
			}
			if len(s.of[st]) == 0 {
				missing = true
				r.fail("skipped", fmt.Sprint(st), a.p.pos(root.fn.Pos()), "%s never does the %s", root.name, stepNames[st])
			}
		}
		if missing {
			continue
		}
		s.structure()
		s.eachLetter()
		var found []fnode
		for _, st := range []int{sRewrite, sTranscribe} {
			for _, n := range s.of[st] {
				v := n.in.(ssa.Value)
				for _, l := range allLeaves(v.Type()) {
					found = append(found, f.reg(n.ctx, v, l.path))
				}
				for _, e := range a.pts(n.ctx, v) {
					for _, c := range f.cellsUnder(canon(e.o), e.path) {
						found = append(found, c)
					}
				}
			}
		}
		v := &versions{stage: s, derived: f.taint(false, nil, found...)}
		v.solve()
		v.check()
		s.outcome(f)
		s.matches(f)
	}
}

// outcome: what a rule has found decides the text the next rule and the next
// step are given.
func (s *stage) outcome(f *Flow) {
	for _, st := range []int{sRewrite, sTranscribe} {
		for _, n := range s.of[st] {
			v := n.in.(ssa.Value)
			var src []fnode
			for _, l := range allLeaves(v.Type()) {
				src = append(src, f.reg(n.ctx, v, l.path))
			}
			for _, e := range s.a.pts(n.ctx, v) {
				src = append(src, f.cellsUnder(canon(e.o), e.path)...)
			}
			t := f.taint(false, nil, src...)
			s.r.count("outcomes", 1)
			arg := n.in.(ssa.CallInstruction).Common().Args[1]
			if !t.has(f.reg(n.ctx, arg, "")) {
				s.r.fail("outcome", fmt.Sprintf("%d next rule", st), s.g.where(n), "%s: what a rule of %s has replaced never reaches the next rule", s.root.name, stepNames[st])
			}
			for _, m := range s.of[sSyllabify] {
				if !t.has(f.reg(m.ctx, m.in.(ssa.CallInstruction).Common().Args[0], "")) {
					s.r.fail("outcome", fmt.Sprintf("%d syllabify", st), s.g.where(n), "%s: what a rule of %s has replaced never reaches the composition of syllables", s.root.name, stepNames[st])
				}
			}
		}
	}
}

// reduced: a number may be less than a length.
func reduced(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		k, ok := constInt(v)
		return ok && k >= 0
	case *ssa.Phi:
		for _, e := range v.Edges {
			if reduced(e, d+1) {
				return true
			}
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.QUO, token.REM, token.SHR, token.SUB, token.AND:
			return true
		case token.ADD, token.MUL:
			_, x := constInt(v.X)
			_, y := constInt(v.Y)
			return !x && reduced(v.X, d+1) || !y && reduced(v.Y, d+1)
		}
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "min"
	}
	return false
}

// matches: every match of a rule is replaced, unless its replacement cannot be
// computed.
func (s *stage) matches(f *Flow) {
	for _, st := range []int{sRewrite, sTranscribe} {
		for _, n := range s.of[st] {
			_, lim := s.a.resolve(n.ctx, n.in.(ssa.CallInstruction).Common().Args[2])
			if k, ok := constInt(lim); ok && k >= 0 {
				s.r.fail("matches", fmt.Sprintf("%d count", st), s.g.where(n), "%s: at most %d matches of a rule of %s are looked for", s.root.name, k, stepNames[st])
			} else if !ok && reduced(lim, 0) {
				s.r.fail("matches", fmt.Sprintf("%d count", st), s.g.where(n), "%s: a limited number of matches of a rule of %s is looked for", s.root.name, stepNames[st])
			}
			v := n.in.(ssa.Value)
			t := f.taint(false, nil, f.reg(n.ctx, v, ""))
			// the calls that compute the replacement of a match
			for _, m := range s.g.nodes {
				call, ok := m.in.(*ssa.Call)
				if !ok || m.kind != kInstr || callKey(call.Common()) != modPath+"/pkg/hre.RPattern.Interpolate" {
					continue
				}
				ls := s.around(m)
				if len(ls) == 0 {
					continue
				}
				l := ls[0]
				seq, whole := s.seqValue(l)
				if seq == nil {
					continue
				}
				_, x := s.a.resolve(l.ctx, seq)
				if x != v && !t.has(f.reg(l.ctx, seq, "")) {
					continue
				}
				s.r.count("loops over matches", 1)
				key := fmt.Sprintf("%d %s", st, fnName(m.ctx.fn))
				pos := s.a.p.instrPos(lastPos(l.d.hdr))
				if whole != "" {
					s.r.fail("matches", key+" part", pos, "%s: the loop over the matches of a rule of %s %s", s.root.name, stepNames[st], whole)
				}
				if sl := partialSlice(s.a, l.ctx, seq); sl != nil {
					s.r.fail("matches", key+" part", pos, "%s: the loop over the matches of a rule of %s visits only some of them", s.root.name, stepNames[st])
				}
				for b := range l.d.body {
					if b == l.d.hdr {
						continue
					}
					for _, sb := range b.Succs {
						if !l.d.body[sb] && !panicsOnly(sb, map[*ssa.BasicBlock]bool{}) {
							s.r.fail("matches", key+" left", s.a.p.instrPos(lastPos(b)), "%s: the loop over the matches of a rule of %s may be left before its end", s.root.name, stepNames[st])
						}
					}
				}
				ti := f.taint(false, nil, f.reg(m.ctx, call, "#0"))
				lands := func(y *GNode) bool {
					switch in := y.in.(type) {
					case *ssa.Call:
						if y.kind != kInstr || !strings.Contains(callKey(in.Common()), "/internal/subword.") {
							return false
						}
						for _, x := range in.Common().Args {
							if ti.tainted(y.ctx, x) {
								return true
							}
						}
					case *ssa.Store:
						if fa, ok := in.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(qualName(fa.X.Type()), "/internal/subword.Replacement") {
							return ti.tainted(y.ctx, in.Val)
						}
					}
					return false
				}
				var from []int
				for _, sb := range l.d.hdr.Succs {
					if l.d.body[sb] && sb != l.d.hdr {
						from = append(from, s.first(l.ctx, sb))
					}
				}
				out := func(y *GNode) bool {
					for c := y.ctx; c != nil; c = c.parent {
						if c == l.ctx {
							return c == y.ctx && y.in != nil && !l.d.body[y.in.Block()]
						}
					}
					return true
				}
				x2, prev := s.walk(from, func(y *GNode) bool { return lands(y) || out(y) }, func(iff *ssa.If, y *GNode, succ int) bool {
					bo, ok := iff.Cond.(*ssa.BinOp)
					if !ok || !isNil(bo.X) && !isNil(bo.Y) || !isError(bo.X.Type()) && !isError(bo.Y.Type()) {
						return false
					}
					return bo.Op == token.NEQ && succ == 0 || bo.Op == token.EQL && succ == 1
				}, func(y *GNode) bool { return s.isHeader(y, l) })
				if x2 != nil {
					s.r.fail("matches", key+" skipped", s.lastBranch(x2, prev), "%s: a match of a rule of %s may be left as it is", s.root.name, stepNames[st])
				}
			}
		}
	}
}

// tracedBlocks marks what runs only with a trace function.
func (a *PTA) tracedBlocks(f *Flow, root *Root) *Taint {
	var srcs []fnode
	for _, c := range a.ctxs {
		if c.root != root {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && isTraceFunc(u.Type()) {
					srcs = append(srcs, f.reg(c, u, ""))
				}
			}
		}
		for _, p := range c.fn.Params {
			if isTraceFunc(p.Type()) {
				srcs = append(srcs, f.reg(c, p, ""))
			}
		}
	}
	return f.taint(true, nil, srcs...)
}

func init() {
	register("C16", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("In the control flow of a transcription with all calls inlined, every path that succeeds passes the steps in order: the translits of the language, the normalization by the spec and by the script, the rewrite rules, the transcribe rules, syllabification and localization; none comes again.")
		r.rule("The loop of each step visits the whole of its sequence, from the first element to the last, is left by nothing but its end or an error, and passes its step in every iteration; only an empty text or sequence, or a subword of level 0 after partitioning, may be skipped.")
		r.rule("In each round over the letters, a letter is normalized unless it is known that the script does not own it or that the spec has put it in, and it is taken for meaningful unless it is known to be none of the script, the punctuations and the spaces.")
		r.rule("No step, and no rule, is given a text or a list of subwords that an earlier one has already replaced, nor a part of one; and the outcome of every rule reaches the next rule and the syllables.")
		a.steps(r)
		var roots []*Root
		for _, root := range a.roots {
			if root.api && root.fn != nil && root.fn.Name() == "Hangulize" {
				roots = append(roots, root)
			}
		}
		r.analysedBy(a, roots)
		r.need("rounds over letters", 4)
		r.need("operations", 2)
		r.need("step sites", 14)
		r.need("loops over matches", 4)
		r.need("uses of a text or list", 10)
	})
}
