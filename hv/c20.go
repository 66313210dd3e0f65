package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// event is a call of the trace function.
type event struct {
	n    *GNode
	arg  ssa.Value
	step string // "" if not known
}

var stepEvents = map[int]string{sTranslit: "Transliterate", sNormSpec: "Normalize", sNormScript: "Normalize", sRewrite: "Rewrite", sTranscribe: "Transcribe", sSyllabify: "Syllabify", sLocalize: "Localize"}

// fieldVals lists the values a field of a struct value may have been given.
func (v *versions) fieldVals(ctx *Ctx, x ssa.Value, path string, d int) []refVal {
	if d > 12 {
		return nil
	}
	c, y := v.a.resolve(ctx, x)
	if path == "" {
		switch y := y.(type) {
		case *ssa.UnOp:
			if y.Op == token.MUL {
				return v.memVals(c, y.X, "", d)
			}
		case *ssa.Field:
			return v.fieldVals(c, y.X, fieldPath(y.X.Type(), y.Field), d+1)
		case *ssa.Phi:
			var out []refVal
			for _, e := range y.Edges {
				out = append(out, v.fieldVals(c, e, "", d+1)...)
			}
			return out
		}
		return []refVal{{c, y}}
	}
	switch y := y.(type) {
	case *ssa.UnOp:
		if y.Op == token.MUL {
			return v.memVals(c, y.X, path, d)
		}
	case *ssa.Field:
		return v.fieldVals(c, y.X, fieldPath(y.X.Type(), y.Field)+path, d+1)
	}
	return nil
}

type refVal struct {
	ctx *Ctx
	v   ssa.Value
}

// memVals lists what may have been stored in a location.
func (v *versions) memVals(ctx *Ctx, addr ssa.Value, path string, d int) []refVal {
	locs := map[vloc]bool{}
	for _, e := range v.a.pts(ctx, addr) {
		locs[vloc{o: canon(e.o), path: e.path + path}] = true
	}
	var out []refVal
	for _, c := range v.a.ctxs {
		if c.root != v.root {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				for _, e := range v.a.pts(c, st.Addr) {
					for l := range locs {
						if l.o != canon(e.o) || !strings.HasPrefix(l.path, e.path) {
							continue
						}
						rest := l.path[len(e.path):]
						if rest != "" && rest[0] != '.' {
							continue
						}
						out = append(out, v.fieldVals(c, st.Val, rest, d+1)...)
					}
				}
			}
		}
	}
	return out
}

func (v *versions) events() []*event {
	var out []*event
	for _, n := range v.g.nodes {
		if n.in == nil || n.kind != kInstr && n.kind != kDefer {
			continue
		}
		ci, ok := n.in.(ssa.CallInstruction)
		if !ok {
			continue
		}
		if _, ok := n.in.(*ssa.Defer); ok && n.kind == kInstr {
			continue
		}
		cc := ci.Common()
		si := v.a.callees[siteKey{n.ctx, ci}]
		if si == nil || !si.user || cc.IsInvoke() || !isTraceFunc(cc.Value.Type()) || len(cc.Args) != 1 {
			continue
		}
		ev := &event{n: n, arg: cc.Args[0]}
		names := map[string]bool{}
		for _, x := range v.fieldVals(n.ctx, ev.arg, ".Step", 0) {
			s, ok := constStr(x.v)
			if !ok {
				s = "?"
			}
			names[s] = true
		}
		if len(names) == 1 {
			for s := range names {
				if s != "?" {
					ev.step = s
				}
			}
		}
		out = append(out, ev)
	}
	return out
}

// wordToks is what is known about the word of an event.
func (v *versions) wordToks(ev *event) vset {
	return v.get(v.in[ev.n.id], ev.n.ctx, ev.arg, ".Word")
}

func (v *versions) sites(s vset) map[refVal]bool {
	out := map[refVal]bool{}
	for t := range s {
		x := t.site
		c := t.ctx
		if e, ok := x.(*ssa.Extract); ok {
			x = e.Tuple
		}
		out[refVal{c, x}] = true
	}
	return out
}

// dedupe describes the comparison that leaves out an event.
type dedupe struct {
	ctx   *Ctx
	iff   *ssa.If
	equal int // the successor taken if the words are equal
	cell  map[vloc]bool
	load  *GNode  // where what is remembered is read
	inner *dedupe // the comparison in a helper
}

// dedupes finds the comparisons of an event's word with what is remembered.
func (v *versions) dedupes(ev *event) []dedupe {
	var out []dedupe
	word := v.wordSource(ev.n.ctx, ev.arg)
	for c := ev.n.ctx; c != nil; c = c.parent {
		for _, b := range c.fn.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			if d := v.compares(word, c, iff.Cond, 0); d != nil {
				d.ctx, d.iff = c, iff
				out = append(out, *d)
			}
		}
		if c.site == nil {
			break
		}
	}
	return out
}

// compares tells whether a condition compares the word with what is remembered,
// where that is, and on which successor the two are equal.
func (v *versions) compares(word []refVal, c *Ctx, cond ssa.Value, d int) *dedupe {
	if d > 4 {
		return nil
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			dd := v.compares(word, c, x.X, d+1)
			if dd != nil {
				dd.equal = 1 - dd.equal
			}
			return dd
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ || !isStringT(x.X.Type()) {
			return nil
		}
		for _, xy := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			u, ok := xy[0].(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			if !v.same(word, v.valSource(c, xy[1])) || v.same(word, v.valSource(c, xy[0])) {
				continue
			}
			cells := map[vloc]bool{}
			for _, e := range v.a.pts(c, u.X) {
				cells[vloc{o: canon(e.o), path: e.path}] = true
			}
			dd := &dedupe{cell: cells, load: v.g.nodes[v.g.instr[siteKey{c, u}]]}
			if x.Op == token.NEQ {
				dd.equal = 1
			}
			return dd
		}
	case *ssa.Call:
		si := v.a.callees[siteKey{c, x}]
		if si == nil || len(si.internal) != 1 {
			return nil
		}
		to := si.internal[0]
		var rets []*ssa.Return
		for _, b := range to.fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b.Comment != "recover" {
				if len(ret.Results) != 1 {
					return nil
				}
				rets = append(rets, ret)
			}
		}
		if len(rets) == 1 {
			if _, ok := rets[0].Results[0].(*ssa.Const); !ok {
				return v.compares(word, to, rets[0].Results[0], d+1)
			}
		}
		for _, b := range to.fn.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			dd := v.compares(word, to, iff.Cond, d+1)
			if dd == nil {
				continue
			}
			dd.ctx, dd.iff = to, iff
			// the answers on either side
			side := [2]map[bool]bool{{}, {}}
			for i, sb := range b.Succs {
				for _, ret := range rets {
					rb := ret.Block()
					if !sb.Dominates(rb) && sb != rb {
						continue
					}
					k, ok := ret.Results[0].(*ssa.Const)
					if !ok || k.Value == nil {
						return nil
					}
					side[i][constant.BoolVal(k.Value)] = true
				}
			}
			if len(side[0]) == 1 && len(side[1]) == 1 && side[0][true] != side[1][true] {
				out := &dedupe{cell: dd.cell, load: dd.load, inner: dd}
				if !side[dd.equal][true] {
					out.equal = 1
				}
				return out
			}
		}
	}
	return nil
}

// wordSource and valSource name where a string comes from, by copies only.
func (v *versions) wordSource(ctx *Ctx, arg ssa.Value) []refVal {
	return v.localVals(ctx, arg, ".Word", 0)
}

func (v *versions) valSource(ctx *Ctx, x ssa.Value) []refVal {
	return v.localVals(ctx, x, "", 0)
}

// localVals is fieldVals, but stops at memory that outlives the call.
func (v *versions) localVals(ctx *Ctx, x ssa.Value, path string, d int) []refVal {
	if d > 12 {
		return nil
	}
	c, y := v.a.resolve(ctx, x)
	switch y := y.(type) {
	case *ssa.Field:
		return v.localVals(c, y.X, fieldPath(y.X.Type(), y.Field)+path, d+1)
	case *ssa.UnOp:
		if y.Op != token.MUL {
			break
		}
		addr, sub := y.X, path
		for {
			fa, ok := addr.(*ssa.FieldAddr)
			if !ok {
				break
			}
			sub = fieldPath(deref(fa.X.Type()), fa.Field) + sub
			addr = fa.X
		}
		c2, a2 := v.a.resolve(c, addr)
		al, ok := a2.(*ssa.Alloc)
		if !ok {
			return []refVal{{c, y}}
		}
		var out []refVal
		for _, u := range *al.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr == al {
					out = append(out, v.localVals(c2, u.Val, sub, d+1)...)
				}
			case *ssa.FieldAddr:
				fp := fieldPath(deref(u.X.Type()), u.Field)
				if !strings.HasPrefix(sub, fp) {
					continue
				}
				for _, w := range *u.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == u {
						out = append(out, v.localVals(c2, st.Val, sub[len(fp):], d+1)...)
					}
				}
			}
		}
		return out
	}
	if path != "" {
		return []refVal{{c, y}}
	}
	return []refVal{{c, y}}
}

func (v *versions) same(x, y []refVal) bool {
	if len(x) == 0 || len(y) == 0 {
		return false
	}
	for _, p := range x {
		for _, q := range y {
			if p == q {
				return true
			}
		}
	}
	return false
}

// cut: the ways that no tracing, or a word that has not changed, takes.
func (v *versions) cut(dd []dedupe, t *Taint) func(iff *ssa.If, n *GNode, succ int) bool {
	return func(iff *ssa.If, n *GNode, succ int) bool {
		for i := range dd {
			for d := &dd[i]; d != nil; d = d.inner {
				if d.iff == iff && d.ctx == n.ctx {
					return succ == d.equal
				}
			}
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			return false
		}
		x := bo.X
		if isNil(x) {
			x = bo.Y
		} else if !isNil(bo.Y) {
			return false
		}
		if !t.has(t.f.reg(n.ctx, x, "")) && !isTraceFunc(x.Type()) {
			return false
		}
		return bo.Op == token.EQL && succ == 0 || bo.Op == token.NEQ && succ == 1
	}
}

func (v *versions) trace(f *Flow) {
	r := v.r
	evs := v.events()
	if len(evs) == 0 {
		r.fail("no events", v.root.name, v.a.p.pos(v.root.fn.Pos()), "%s never calls the trace function", v.root.name)
		return
	}
	var all []dedupe
	isEv := map[int]*event{}
	for _, ev := range evs {
		r.count("events", 1)
		isEv[ev.n.id] = ev
		dd := v.dedupes(ev)
		all = append(all, dd...)
		v.stutter(ev, dd)
	}
	// what runs only with a trace function, by the function itself
	cut := v.cut(all, v.traced)
	word := v.rootWord()
	// the start
	inputs := map[int]bool{}
	for _, ev := range evs {
		if ev.step == "Input" {
			inputs[ev.n.id] = true
			for s := range v.sites(v.wordToks(ev)) {
				if s.v != word {
					r.fail("start", "input word", v.g.where(ev.n), "%s: the first event carries something else than the given word", v.root.name)
				}
			}
		}
	}
	x, prev := v.walk([]int{v.g.entry[v.root.ctx]}, func(n *GNode) bool { return inputs[n.id] }, cut, func(n *GNode) bool { return isEv[n.id] != nil && !inputs[n.id] })
	if x != nil {
		r.fail("start", "first event", v.g.where(x), "%s: the trace may begin with an event other than the input (%s)", v.root.name, v.lastBranch(x, prev))
	}
	// each step
	heads := func(st int) map[int]bool {
		out := map[int]bool{}
		for i, n := range v.of[st] {
			if st == sTranslit || st == sNormSpec {
				out[n.id] = true
			} else {
				out[v.head[st][i]] = true
			}
		}
		return out
	}
	next := func(st int) map[int]bool {
		out := map[int]bool{}
		for k := st; k < nSteps; k++ {
			if k == st && st != sTranslit {
				continue
			}
			if k == sPartition {
				continue
			}
			for id := range heads(k) {
				out[id] = true
			}
		}
		out[v.g.exit[v.root.ctx]] = true
		return out
	}
	inLoop := func(st int, n *GNode) bool {
		for _, m := range v.of[st] {
			ms := v.around(m)
			if len(ms) == 0 {
				continue
			}
			for _, l := range v.around(n) {
				if l == ms[len(ms)-1] {
					return true
				}
			}
		}
		return false
	}
	for st := 0; st < nSteps; st++ {
		name, ok := stepEvents[st]
		if !ok {
			continue
		}
		pass := map[int]bool{}
		hs := heads(st)
		for _, ev := range evs {
			if ev.step != name {
				continue
			}
			// the event, or the outermost loop around it that is no part of the procedure
			id := ev.n.id
			for _, l := range v.around(ev.n) {
				own := false
				for k := 0; k < nSteps; k++ {
					for _, m := range v.of[k] {
						for _, ml := range v.around(m) {
							if ml == l {
								own = true
							}
						}
					}
				}
				if !own {
					id = v.first(l.ctx, l.d.hdr)
				}
			}
			pass[id] = true
			// not before the step
			if st == sNormScript {
				continue
			}
			x, _ := v.walk([]int{v.g.entry[v.root.ctx]}, func(n *GNode) bool { return hs[n.id] }, func(iff *ssa.If, n *GNode, succ int) bool {
				if e := emptiness(iff, succ); e != nil && st != sTranslit && v.nothing(st, n.ctx, e) {
					return true // there is nothing to do in the step
				}
				return cut(iff, n, succ)
			}, func(n *GNode) bool { return n.id == ev.n.id })
			if x != nil || st != sTranslit && inLoop(st, ev.n) {
				r.fail("order", "before "+name, v.g.where(ev.n), "%s: the event of %s may come before the step is done (%s)", v.root.name, name, v.callerOf(ev.n))
			}
			// nor after a later one
			for k := st + 1; k < nSteps; k++ {
				if k == sNormScript || k == sPartition {
					continue
				}
				for h := range heads(k) {
					y, _ := v.walk([]int{h}, func(*GNode) bool { return false }, nil, func(n *GNode) bool { return n.id == ev.n.id })
					if y != nil {
						r.fail("order", "after "+name, v.g.where(ev.n), "%s: the event of %s may come after %s (%s)", v.root.name, name, stepNames[k], v.callerOf(ev.n))
					}
				}
			}
		}
		r.count("steps", 1)
		if len(pass) == 0 {
			r.fail("unreported", name, v.a.p.pos(v.root.fn.Pos()), "%s: the trace has no event of %s", v.root.name, name)
			continue
		}
		goal := next(st)
		var from []int
		for _, n := range v.of[st] {
			if st == sTranslit || st == sNormSpec {
				from = append(from, n.succ...)
				continue
			}
			ls := v.around(n)
			if len(ls) == 0 {
				from = append(from, n.succ...)
				continue
			}
			l := ls[len(ls)-1]
			for b := range l.d.body {
				for _, sb := range b.Succs {
					if !l.d.body[sb] {
						from = append(from, v.first(l.ctx, sb))
					}
				}
			}
		}
		sort.Ints(from)
		x, prev := v.walk(from, func(n *GNode) bool {
			if pass[n.id] {
				return true
			}
			ret, ok := n.in.(*ssa.Return)
			return ok && n.kind == kInstr && failingRet(ret)
		}, cut, func(n *GNode) bool { return goal[n.id] })
		if x != nil {
			r.fail("unreported", fmt.Sprint(st), v.lastBranch(x, prev), "%s: %s may go on without reporting its word", v.root.name, stepNames[st])
		}
	}
	// the words
	for _, ev := range evs {
		for t := range v.wordToks(ev) {
			if t.stale > 0 {
				r.fail("word", "old "+ev.step, v.callerOf(ev.n), "%s: the event of %s carries a text that %s has already replaced", v.root.name, ev.step, v.g.where(v.g.nodes[t.stale-1]))
			}
			if t.part > 0 {
				r.fail("word", "part "+ev.step, v.callerOf(ev.n), "%s: the event of %s carries only a part of the word or something made of it (%s)", v.root.name, ev.step, v.g.where(v.g.nodes[t.part-1]))
			}
		}
		v.produced(ev)
	}
	v.records(evs, f)
	// the end
	last := map[int]bool{}
	for _, ev := range evs {
		if ev.step == "Localize" {
			last[ev.n.id] = true
		}
	}
	for id := range last {
		x, _ := v.walk(v.g.nodes[id].succ, func(*GNode) bool { return false }, nil, func(n *GNode) bool { return isEv[n.id] != nil && !last[n.id] })
		if x != nil {
			r.fail("end", "last event", v.g.where(x), "%s: an event may follow that of the last step", v.root.name)
		}
	}
}

func (v *versions) rootWord() ssa.Value {
	for _, p := range v.root.fn.Params {
		if isStringT(p.Type()) {
			if v.root.fn.Signature.Recv() == nil && v.root.fn.Signature.Params().Len() > 1 {
				continue
			}
			return p
		}
	}
	return nil
}

// callerOf is where the procedure reports.
func (v *versions) callerOf(n *GNode) string {
	c, in := n.ctx, n.in
	for c.parent != nil && c.site != nil && v.tracing(c.fn) {
		in = c.site
		c = c.parent
	}
	return v.a.p.instrPos(in)
}

// tracing tells whether a function belongs to what watches the procedure: to a
// type that has the trace function, directly or through another such type, but
// not the spec.
func (v *versions) tracing(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	sig := fn.Signature
	if sig.Recv() != nil {
		return isWatcher(sig.Recv().Type(), 0)
	}
	if fn.Synthetic != "" {
		return true
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isWatcher(sig.Params().At(i).Type(), 0) {
			return true
		}
	}
	return false
}

func isWatcher(t types.Type, d int) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || extType(deref(t)) || d > 3 {
		return false
	}
	has := false
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if qualName(deref(ft)) == modPath+".Spec" {
			return false
		}
		if isTraceFunc(ft) || isWatcher(ft, d+1) {
			has = true
		}
	}
	return has
}

// produced: the word of the event of a step is what the next step is given.
func (v *versions) produced(ev *event) {
	e := v.sites(v.wordToks(ev))
	if len(e) == 0 {
		return
	}
	want := map[refVal]bool{}
	asked := false
	add := func(n *GNode, x ssa.Value) {
		whole := vset{}
		for t := range v.get(v.in[n.id], n.ctx, x, "") {
			if t.part == 0 {
				whole[t] = true
			}
		}
		for s := range v.sites(whole) {
			want[s] = true
		}
		asked = true
	}
	loops := func(st int) {
		for _, m := range v.of[st] {
			ls := v.around(m)
			if len(ls) == 0 {
				if x := v.input(m); x != nil {
					add(m, x)
				}
				continue
			}
			l := ls[len(ls)-1]
			seq, _ := v.seqValue(l)
			if seq == nil {
				continue
			}
			h := v.first(l.ctx, l.d.hdr)
			add(&GNode{id: h, ctx: l.ctx}, seq)
		}
	}
	next := ""
	switch ev.step {
	case "Transliterate":
		next = "the next step"
		for _, st := range []int{sTranslit, sNormSpec} {
			for _, m := range v.of[st] {
				add(m, v.input(m))
			}
		}
	case "Normalize":
		next = "the next step"
		loops(sNormScript)
		for _, m := range v.of[sPartition] {
			add(m, v.input(m))
		}
	case "Syllabify":
		next = "localization"
		loops(sLocalize)
	case "Localize":
		next = "the caller"
		for _, b := range v.root.fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || failingRet(ret) {
				continue
			}
			for _, x := range ret.Results {
				if isStringT(x.Type()) {
					add(v.g.nodes[v.g.instr[siteKey{v.root.ctx, ret}]], x)
				}
			}
		}
	default:
		return
	}
	if !asked {
		return
	}
	v.r.count("words of events", 1)
	for s := range e {
		if !want[s] {
			v.r.fail("word", "other "+ev.step, v.callerOf(ev.n), "%s: the event of %s carries something else than what %s is given", v.root.name, ev.step, next)
		}
	}
}

// records checks what the tracer is told about each rule.
func (v *versions) records(evs []*event, f *Flow) {
	for _, st := range []int{sRewrite, sTranscribe} {
		var src []fnode
		for _, n := range v.of[st] {
			src = append(src, f.reg(n.ctx, n.in.(ssa.Value), ""))
			for _, e := range v.a.pts(n.ctx, n.in.(ssa.Value)) {
				src = append(src, f.cellsUnder(canon(e.o), e.path)...)
			}
		}
		t := f.taint(false, nil, src...)
		for _, ev := range evs {
			if ev.step != stepEvents[st] {
				continue
			}
			v.r.count("words of events", 1)
			if !t.has(f.reg(ev.n.ctx, ev.arg, ".Word")) {
				v.r.fail("word", "unrelated "+ev.step, v.g.where(ev.n), "%s: the events of %s carry nothing of what its rules have replaced", v.root.name, ev.step)
			}
		}
	}
	// the calls that tell the tracer
	kept := map[*Obj]bool{}
	for _, n := range v.g.nodes {
		call, ok := n.in.(*ssa.Call)
		if ok && n.kind == kInstr && strings.HasSuffix(callKey(call.Common()), "/internal/subword.Replacer.Subwords") {
			for _, e := range v.a.pts(n.ctx, call.Common().Args[0]) {
				kept[canon(e.o)] = true
			}
		}
	}
	recs := map[int]bool{}
	defer func() { v.told(recs, kept) }()
	for _, n := range v.g.nodes {
		call, ok := n.in.(*ssa.Call)
		if !ok || n.kind != kInstr || v.in[n.id] == nil || v.tracing(n.ctx.fn) {
			continue
		}
		si := v.a.callees[siteKey{n.ctx, call}]
		if si == nil || len(si.internal) == 0 {
			continue
		}
		to := si.internal[0]
		for d := 0; d < 3 && to.fn.Synthetic != ""; d++ {
			// through a method value
			for _, b := range to.fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(*ssa.Call); ok {
						if s2 := v.a.callees[siteKey{to, ci}]; s2 != nil && len(s2.internal) > 0 {
							to = s2.internal[0]
						}
					}
				}
			}
		}
		if !v.tracing(to.fn) {
			continue
		}
		rule := -1
		for i, x := range call.Common().Args {
			if qualName(x.Type()) == modPath+".Rule" {
				rule = i
			}
		}
		if rule < 0 {
			continue
		}
		v.r.count("records of rules", 1)
		recs[n.id] = true
		v.recIndex(n, call)
		for _, x := range call.Common().Args {
			if !isStringT(x.Type()) {
				continue
			}
			for t := range v.get(v.in[n.id], n.ctx, x, "") {
				if t.stale > 0 {
					v.r.fail("word", "old record "+fnName(n.ctx.fn), v.g.where(n), "%s: the tracer is told in %s about a text that %s has already replaced", v.root.name, fnName(n.ctx.fn), v.g.where(v.g.nodes[t.stale-1]))
				}
				if t.part > 0 {
					v.r.fail("word", "part record "+fnName(n.ctx.fn), v.g.where(n), "%s: the tracer is told in %s only about a part of a text or something made of it", v.root.name, fnName(n.ctx.fn))
				}
			}
			for _, src := range v.valSource(n.ctx, x) {
				c2, ok := src.v.(*ssa.Call)
				if !ok || !strings.HasSuffix(callKey(c2.Common()), "/internal/subword.Replacer.String") {
					continue
				}
				ok = false
				for _, e := range v.a.pts(src.ctx, c2.Common().Args[0]) {
					if kept[canon(e.o)] {
						ok = true
					}
				}
				if !ok {
					v.r.fail("word", "mask "+fnName(n.ctx.fn), v.g.where(n), "%s: the tracer is told in %s about a text which is not the one the step produces", v.root.name, fnName(n.ctx.fn))
				}
			}
		}
	}
}

// told checks that the tracer is told about the text of a replacer after each
// replacement, and only then.
func (v *versions) told(recs map[int]bool, kept map[*Obj]bool) {
	isRep := func(n *GNode, names ...string) *Obj {
		call, ok := n.in.(*ssa.Call)
		if !ok || n.kind != kInstr || v.tracing(n.ctx.fn) {
			return nil
		}
		for _, name := range names {
			if strings.HasSuffix(callKey(call.Common()), "/internal/subword.Replacer."+name) {
				for _, e := range v.a.pts(n.ctx, call.Common().Args[0]) {
					if kept[canon(e.o)] {
						return canon(e.o)
					}
				}
			}
		}
		return nil
	}
	inSub := func(n *GNode) bool {
		return n.ctx.fn.Pkg != nil && strings.HasSuffix(n.ctx.fn.Pkg.Pkg.Path(), "/internal/subword")
	}
	untraced := v.cut(nil, v.traced)
	for _, n := range v.g.nodes {
		o := isRep(n, "Replace", "ReplaceBy")
		if o == nil || inSub(n) || v.in[n.id] == nil {
			continue
		}
		ls := v.around(n)
		near := false // a loop in which rules are told about
		depth := 0
		for i, l := range ls {
			for id := range recs {
				for _, m := range v.around(v.g.nodes[id]) {
					if m == l && !near {
						near = true
						depth = i
					}
				}
			}
		}
		if !near {
			continue
		}
		l := ls[depth]
		hdr := v.first(l.ctx, l.d.hdr)
		v.r.count("replacements", 1)
		x, prev := v.walk(n.succ, func(m *GNode) bool { return recs[m.id] }, func(iff *ssa.If, m *GNode, succ int) bool {
			if e := emptiness(iff, succ); e != nil && isSliceT(e.Type()) {
				return true // nothing has been replaced
			}
			return untraced(iff, m, succ)
		}, func(m *GNode) bool { return m.id == hdr })
		if x != nil {
			v.r.fail("untold", fnName(n.ctx.fn), v.lastBranch(x, prev), "%s: the tracer may not be told in %s about a replacement", v.root.name, fnName(n.ctx.fn))
			continue
		}
		if y, _ := v.walk(n.succ, func(m *GNode) bool { return recs[m.id] }, untraced, func(m *GNode) bool { return m.id == hdr }); y != nil {
			// what the rules leave alone is not told: it must be kept
			for _, c := range v.a.ctxs {
				if c.root == v.root && v.tracing(c.fn) {
					v.startsOver(c)
				}
			}
		}
		x, _ = v.walk(n.succ, func(m *GNode) bool { return m.id == hdr || isRep(m, "String") == o }, nil, func(m *GNode) bool { return recs[m.id] })
		if x != nil {
			v.r.fail("untold", "before "+fnName(n.ctx.fn), v.g.where(x), "%s: the tracer is told in %s about the text before the replacement at %s", v.root.name, fnName(n.ctx.fn), v.g.where(n))
		}
	}
}

// recIndex checks that the tracer is told the index of the subword.
func (v *versions) recIndex(n *GNode, call *ssa.Call) {
	for _, x := range call.Common().Args {
		b, ok := x.Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Int {
			continue
		}
		c, y := v.a.resolve(n.ctx, x)
		if _, ok := y.(*ssa.Const); ok {
			v.r.fail("word", "index "+fnName(n.ctx.fn), v.g.where(n), "%s: the tracer is told in %s always about the same subword", v.root.name, fnName(n.ctx.fn))
			continue
		}
		for i, l := range v.around(n) {
			if bo, ok := y.(*ssa.BinOp); ok && l.ctx == c && l.d.kind == "count" && l.d.lo.v == nil && l.d.lo.k == 0 {
				_, con := bo.Y.(*ssa.Const)
				if con && l.d.isIndex(bo.X) {
					if seq, _ := v.seqValue(l); seq != nil && isSubwords(seq.Type()) {
						v.r.fail("word", "index "+fnName(n.ctx.fn), v.g.where(n), "%s: the tracer is told in %s the number of another subword", v.root.name, fnName(n.ctx.fn))
						break
					}
				}
			}
			if l.ctx != c || l.d.kind != "count" || !l.d.isIndex(y) {
				continue
			}
			seq, _ := v.seqValue(l)
			if seq != nil && isSubwords(seq.Type()) {
				break
			}
			if i == 0 && seq != nil && strings.HasSuffix(seq.Type().String(), ".Rule") {
				v.r.fail("word", "index "+fnName(n.ctx.fn), v.g.where(n), "%s: the tracer is told in %s the number of the rule instead of that of the subword", v.root.name, fnName(n.ctx.fn))
			}
		}
	}
}

// conditions checks what decides, inside the tracer, whether an event is handed
// out and what its word is made of.
func (v *versions) conditions(ev *event) {
	seen := map[*ssa.Function]bool{}
	var fns []*Ctx
	for c := ev.n.ctx; c != nil && v.tracing(c.fn); c = c.parent {
		fns = append(fns, c)
	}
	for _, c := range v.a.ctxs {
		if c.root == v.root && v.tracing(c.fn) && c.fn.Synthetic == "" {
			fns = append(fns, c)
		}
	}
	for _, c := range fns {
		if seen[c.fn] {
			continue
		}
		seen[c.fn] = true
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				if !v.matters(c, in) {
					continue
				}
				v.conditional20(c, in, b)
			}
		}
		v.toTheEnd(c)
	}
}

// emits: the instruction hands out an event, here or in what it calls.
func (v *versions) emits(c *Ctx, in ssa.Instruction, d int) bool {
	call, ok := in.(*ssa.Call)
	if !ok || d == 0 {
		return false
	}
	si := v.a.callees[siteKey{c, call}]
	if si == nil {
		return false
	}
	if si.user && isTraceFunc(call.Common().Value.Type()) {
		return true
	}
	for _, to := range si.internal {
		if !v.tracing(to.fn) {
			continue
		}
		for _, b := range to.fn.Blocks {
			for _, in := range b.Instrs {
				if v.emits(to, in, d-1) {
					return true
				}
			}
		}
	}
	return false
}

// toTheEnd: a loop that hands out events ends only after its last element.
func (v *versions) toTheEnd(c *Ctx) {
	for _, d := range v.loopsIn(c.fn) {
		if d.guard == nil || d.kind == "other" {
			continue
		}
		some := false
		for b := range d.body {
			for _, in := range b.Instrs {
				some = some || v.emits(c, in, 4)
			}
		}
		if !some {
			continue
		}
		v.r.count("loops that report", 1)
		for _, b := range c.fn.Blocks {
			if !d.body[b] {
				continue
			}
			for _, sb := range b.Succs {
				if d.body[sb] || b == d.guard.Block() || b == d.hdr || panicsOnly(sb, map[*ssa.BasicBlock]bool{}) {
					continue
				}
				v.r.fail("left out", "early "+fnName(c.fn), v.a.p.instrPos(lastPos(b)), "%s: the loop of %s that hands out the events may be left before its end", v.root.name, fnName(c.fn))
			}
		}
	}
}

// matters: the instruction hands out an event, or keeps a text.
func (v *versions) matters(c *Ctx, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Call:
		si := v.a.callees[siteKey{c, in}]
		if si == nil {
			return false
		}
		if si.user && isTraceFunc(in.Common().Value.Type()) {
			return true
		}
		for _, to := range si.internal {
			if v.tracing(to.fn) && to.fn.Signature.Results().Len() == 0 {
				return true
			}
		}
	case *ssa.Store:
		ia, ok := in.Addr.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		_, arr := deref(ia.X.Type()).Underlying().(*types.Array)
		return !arr
	}
	return false
}

func (v *versions) conditional20(c *Ctx, in ssa.Instruction, b *ssa.BasicBlock) {
	if st, ok := in.(*ssa.Store); ok {
		if k, ok := st.Addr.(*ssa.IndexAddr).Index.(*ssa.Const); ok {
			v.r.fail("word", "place "+fnName(c.fn), v.a.p.instrPos(in), "%s: %s keeps what it is told always in the place %s", v.root.name, fnName(c.fn), k.Value)
		}
	}
	ds := v.loopsIn(c.fn)
	cd := v.traced.f.controls(c.fn)
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, y := range cd[x] {
			if seen[y] {
				continue
			}
			seen[y] = true
			work = append(work, y)
			loop := false
			for _, d := range ds {
				if y == d.hdr || d.guard != nil && d.guard.Block() == y {
					loop = true
				}
			}
			if loop {
				continue
			}
			cond := y.Instrs[len(y.Instrs)-1].(*ssa.If).Cond
			if why := v.oddWord(c, cond); why != "" {
				v.r.fail("left out", "word "+fnName(c.fn), v.a.p.instrPos(lastPos(y)), "%s: %s decides in %s whether what a rule has made is kept", v.root.name, why, fnName(c.fn))
			}
			if why := v.odd(c, cond, 0); why != "" {
				v.r.fail("left out", "condition "+fnName(c.fn), v.a.p.instrPos(lastPos(y)), "%s: %s of %s decides in %s whether something is reported", v.root.name, why, v.root.name, fnName(c.fn))
			}
		}
	}
}

// odd tells why a condition of the tracer asks for more than whether anyone
// traces, whether something has been recorded, or whether the word has changed.
func (v *versions) odd(c *Ctx, cond ssa.Value, d int) string {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return v.odd(c, x.X, d)
		}
	case *ssa.BinOp:
		if isNil(x.X) || isNil(x.Y) {
			return ""
		}
		if b, ok := x.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return ""
		}
		for _, y := range []ssa.Value{x.X, x.Y} {
			if aboutLen(y, 0) {
				return ""
			}
		}
		_, kx := x.X.(*ssa.Const)
		_, ky := x.Y.(*ssa.Const)
		if !kx && !ky {
			return ""
		}
		// a number that comes with what is reported, and a constant
		y := x.X
		if kx {
			y = x.Y
		}
		for _, src := range append([]refVal{{c, y}}, v.valSource(c, y)...) {
			switch s := src.v.(type) {
			case *ssa.Parameter:
				return "a number"
			case *ssa.Phi:
				for _, l := range v.loopsIn(src.ctx.fn) {
					if l.isIndex(s) {
						return "the position"
					}
				}
			case *ssa.BinOp:
				for _, l := range v.loopsIn(src.ctx.fn) {
					if l.isIndex(s) {
						return "the position"
					}
				}
			case *ssa.UnOp, *ssa.Field:
				if t := s.(ssa.Value).Type(); t != nil && d == 0 {
					if fa := fieldOf(s.(ssa.Value)); strings.HasSuffix(fa, ".Rule.ID") {
						return "the number of the rule"
					} else if strings.HasSuffix(fa, ".Subword.Level") {
						return "the level"
					}
				}
			}
		}
	}
	return ""
}

// oddWord: where the tracer is told about a rule, the text itself decides, by a
// comparison with a constant or with what the step was given.
func (v *versions) oddWord(c *Ctx, cond ssa.Value) string {
	told := false
	for _, p := range c.fn.Params {
		told = told || strings.HasSuffix(qualName(deref(p.Type())), modPath+".Rule") || strings.HasSuffix(qualName(deref(p.Type())), "hangulize.Rule")
	}
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return v.oddWord(c, u.X)
	}
	b, ok := cond.(*ssa.BinOp)
	if !told || !ok || !isStringT(b.X.Type()) || b.Op != token.EQL && b.Op != token.NEQ {
		return ""
	}
	word := func(x ssa.Value) bool {
		p, ok := x.(*ssa.Parameter)
		if u, ok2 := x.(*ssa.UnOp); ok2 && u.Op == token.MUL {
			if al, ok2 := u.X.(*ssa.Alloc); ok2 && al.Referrers() != nil {
				for _, r := range *al.Referrers() {
					if st, ok2 := r.(*ssa.Store); ok2 && st.Addr == al {
						p, ok = st.Val.(*ssa.Parameter)
					}
				}
			}
		}
		return ok && isStringT(p.Type())
	}
	for _, xy := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		if !word(xy[0]) {
			continue
		}
		if _, ok := xy[1].(*ssa.Const); ok {
			return "a comparison of the text with a constant"
		}
		if strings.HasSuffix(fieldOf(xy[1]), ".Subword.Word") {
			return "a comparison of the text with the one the step was given"
		}
	}
	return ""
}

func aboutLen(x ssa.Value, d int) bool {
	if d > 3 {
		return false
	}
	switch x := x.(type) {
	case *ssa.Call:
		return isBuiltin(x)
	case *ssa.BinOp:
		return aboutLen(x.X, d+1) || aboutLen(x.Y, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if aboutLen(e, d+1) {
				return true
			}
		}
	}
	return false
}

// fieldOf names the field a value is read from.
func fieldOf(x ssa.Value) string {
	switch x := x.(type) {
	case *ssa.Field:
		return qualName(x.X.Type()) + fieldPath(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return qualName(deref(fa.X.Type())) + fieldPath(deref(fa.X.Type()), fa.Field)
		}
	}
	return ""
}

// startsOver: the texts are merged into the same list from rule to rule.
func (v *versions) startsOver(c *Ctx) {
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !isBuiltin(call) {
				continue
			}
			bi := call.Call.Value.(*ssa.Builtin).Name()
			if bi != "append" && bi != "copy" || !isSubwords(call.Call.Args[1].Type()) {
				continue
			}
			var l *Domain
			for _, d := range v.loopsIn(c.fn) {
				if d.body[b] && (l == nil || len(d.body) < len(l.body)) {
					l = d
				}
			}
			if l == nil {
				continue
			}
			fresh := bi == "copy"
			if bi == "append" {
				switch y := call.Call.Args[0].(type) {
				case *ssa.Const:
					fresh = true
				case *ssa.Slice:
					al, ok := y.X.(*ssa.Alloc)
					fresh = ok && l.body[al.Block()]
				case *ssa.MakeSlice:
					fresh = l.body[y.Block()]
				}
			}
			if !fresh {
				continue
			}
			src := call.Call.Args[1]
			same := false
			switch y := src.(type) {
			case *ssa.Parameter:
				same = true
			case *ssa.UnOp:
				same = !l.body[y.Block()]
				if _, ok := y.X.(*ssa.FieldAddr); ok && !same {
					same = true
					for b2 := range l.body {
						for _, in2 := range b2.Instrs {
							if st, ok := in2.(*ssa.Store); ok && isSubwords(st.Val.Type()) {
								same = false
							}
						}
					}
				}
			}
			if same {
				v.r.fail("word", "again "+fnName(c.fn), v.a.p.instrPos(call), "%s: %s starts over with the same subwords for each rule, so that what the other rules have changed is lost", v.root.name, fnName(c.fn))
			}
		}
	}
}

// stutter checks that an event is left out exactly if its word is that of the
// previous one.
func (v *versions) stutter(ev *event, dd []dedupe) {
	r := v.r
	name := fnName(ev.n.ctx.fn)
	if len(dd) == 0 {
		r.fail("stutter", "none "+name, v.g.where(ev.n), "%s: an event is handed out in %s without comparing its word with that of the previous one", v.root.name, name)
		return
	}
	word := v.wordSource(ev.n.ctx, ev.arg)
	asks := map[int]bool{}
	for _, d := range dd {
		for _, n := range v.g.nodes {
			if n.kind == kInstr && n.ctx == d.ctx && n.in == ssa.Instruction(d.iff) {
				asks[n.id] = true
			}
		}
	}
	// the outermost tracing call around the event
	top := ev.n.ctx
	for c := ev.n.ctx; c != nil && v.tracing(c.fn); c = c.parent {
		top = c
	}
	if x, prev := v.walk([]int{v.g.entry[top]}, func(n *GNode) bool { return asks[n.id] || n.id == v.g.exit[top] }, nil, func(n *GNode) bool { return n == ev.n }); x != nil {
		r.fail("stutter", "unasked "+name, v.lastBranch(x, prev), "%s: an event may be handed out in %s without comparing its word with that of the previous one", v.root.name, name)
	}
	v.conditions(ev)
	for _, d := range dd {
		r.count("comparisons", 1)
		b := d.iff.Block()
		// equal: not handed out
		x, _ := v.walk([]int{v.first(d.ctx, b.Succs[d.equal])}, func(n *GNode) bool {
			return n.ctx == d.ctx && n.in == ssa.Instruction(d.iff) || n.id == v.g.exit[d.ctx]
		}, nil, func(n *GNode) bool { return n == ev.n })
		if x != nil {
			r.fail("stutter", "equal "+name, v.g.where(ev.n), "%s: an event may be handed out in %s although its word is that of the previous one", v.root.name, name)
		}
		// different: handed out
		x, prev := v.walk([]int{v.first(d.ctx, b.Succs[1-d.equal])}, func(n *GNode) bool { return n == ev.n }, v.cut(dd, v.traced), func(n *GNode) bool { return n.id == v.g.exit[d.ctx] })
		if x != nil {
			r.fail("left out", name, v.lastBranch(x, prev), "%s: an event may be left out in %s although its word differs from that of the previous one", v.root.name, name)
		}
		// and remembered
		stored := map[int]bool{}
		for _, n := range v.g.nodes {
			st, ok := n.in.(*ssa.Store)
			if !ok || n.kind != kInstr {
				continue
			}
			for _, e := range v.a.pts(n.ctx, st.Addr) {
				hit := ""
				for l := range d.cell {
					if l.o == canon(e.o) && strings.HasPrefix(l.path, e.path) {
						hit = l.path[len(e.path):] + "|"
					}
				}
				if hit == "" {
					continue
				}
				vals := v.localVals(n.ctx, st.Val, strings.TrimSuffix(hit, "|"), 0)
				if c, ok := st.Val.(*ssa.Const); ok && zeroConst(c) {
					continue
				}
				if v.same(word, vals) {
					stored[n.id] = true
					continue
				}
				if !v.sameEvent(ev, n) {
					continue
				}
				r.fail("stutter", "remembered "+name, v.g.where(n), "%s: what is remembered as the word of the previous event is something else", v.root.name)
			}
		}
		if len(stored) == 0 {
			r.fail("stutter", "forgotten "+name, v.g.where(ev.n), "%s: the word of an event handed out in %s is not remembered", v.root.name, name)
			continue
		}
		// on the way from the comparison through the event to the end
		start := v.first(d.ctx, b.Succs[1-d.equal])
		before, _ := v.walk(d.load.succ, func(n *GNode) bool { return stored[n.id] }, v.cut(dd, v.traced), func(n *GNode) bool { return n == ev.n })
		if before != nil {
			after, _ := v.walk(ev.n.succ, func(n *GNode) bool { return stored[n.id] }, nil, func(n *GNode) bool { return n.id == v.g.exit[d.ctx] })
			if after != nil {
				r.fail("stutter", "forgotten "+name, v.g.where(ev.n), "%s: the word of an event handed out in %s may not be remembered", v.root.name, name)
			}
		}
		// nothing is remembered without an event
		for id := range stored {
			a1, _ := v.walk([]int{start}, func(n *GNode) bool { return n == ev.n }, nil, func(n *GNode) bool { return n.id == id })
			if a1 == nil {
				continue // after the event
			}
			a2, _ := v.walk(v.g.nodes[id].succ, func(n *GNode) bool { return n == ev.n }, nil, func(n *GNode) bool { return n.id == v.g.exit[d.ctx] })
			if a2 != nil {
				r.fail("stutter", "early "+name, v.g.where(v.g.nodes[id]), "%s: a word is remembered although its event may be left out", v.root.name)
			}
		}
		eq, _ := v.walk([]int{v.first(d.ctx, b.Succs[d.equal])}, func(n *GNode) bool { return n.id == v.g.exit[d.ctx] }, nil, func(n *GNode) bool { return stored[n.id] })
		_ = eq
	}
}

// sameEvent tells whether a store belongs to the call that hands out the event.
func (v *versions) sameEvent(ev *event, n *GNode) bool {
	for c := n.ctx; c != nil; c = c.parent {
		if c == ev.n.ctx {
			return true
		}
	}
	for c := ev.n.ctx; c != nil; c = c.parent {
		if c == n.ctx && v.tracing(c.fn) {
			return true
		}
	}
	return false
}

func (a *PTA) traces(r *Report) {
	f := a.flow(nil)
	for _, root := range a.roots {
		if !root.api || root.fn == nil || root.fn.Name() != "Hangulize" || root.fn.Signature.Recv() == nil {
			continue
		}
		r.count("operations", 1)
		// the steps themselves are C16's business
		s := &stage{a: a, r: newReport("C16"), root: root, g: a.graph(root), loops: map[*ssa.Function][]*Domain{}}
		s.o = &order{a: a, r: s.r, f: f, root: root, g: s.g, loops: s.loops}
		s.traced = a.tracedBlocks(f, root)
		s.classify()
		s.structure()
		v := &versions{stage: s, derived: f.taint(false, nil)}
		v.solve()
		s.r = r
		v.trace(f)
	}
}

func init() {
	register("C20", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("With every call inlined, the first event on every path is the input with the given word; every step is followed by an event of its own name before the next step begins, and reported neither before it is done nor after a later one; nothing follows the event of the last step.")
		r.rule("The word of an event is, by the version analysis, what the step has just produced: no text already replaced, no part of it, and the very value the next step or the caller is given; what the tracer is told about a rule is the text of the replacer the step keeps.")
		r.rule("An event is left out exactly on the branch on which its word equals the remembered word, and whenever one is handed out, and only then, its word is remembered.")
		a.traces(r)
		var roots []*Root
		for _, root := range a.roots {
			if root.api && root.fn != nil && root.fn.Name() == "Hangulize" && root.fn.Signature.Recv() != nil {
				roots = append(roots, root)
			}
		}
		r.analysedBy(a, roots)
		r.need("operations", 1)
		r.need("events", 8)
		r.need("steps", 7)
		r.need("words of events", 5)
		r.need("records of rules", 2)
	})
}
