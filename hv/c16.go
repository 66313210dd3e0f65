package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The steps of the procedure, in order.
const (
	sTranslit = iota
	sNormSpec
	sNormScript
	sPartition
	sRewrite
	sTranscribe
	sSyllabify
	sLocalize
	nSteps
)

var stepNames = []string{"Transliterate", "normalization by the spec", "normalization by the script", "partitioning", "Rewrite", "Transcribe", "syllabification", "localization"}

// stage analyses the order and the versions of the text in one operation.
type stage struct {
	a    *PTA
	o    *order
	r    *Report
	g    *Graph
	root *Root
	at   map[int]int // node -> step
	of   [nSteps][]*GNode
	// the outermost loop around each step, or the step itself
	head   [nSteps][]int
	traced *Taint
	loops  map[*ssa.Function][]*Domain
}

// srcPath follows a value through copies, fields and elements to where it
// comes from, and spells the way.
func (o *order) srcPath(ctx *Ctx, v ssa.Value) string {
	path := ""
	for d := 0; d < 20; d++ {
		c, x, p := o.originC(ctx, v, 0)
		path = p + path
		switch y := x.(type) {
		case *ssa.UnOp:
			if y.Op == token.MUL {
				switch ad := y.X.(type) {
				case *ssa.IndexAddr:
					path = "[]" + path
					ctx, v = c, ad.X
					continue
				case *ssa.FieldAddr:
					path = fieldPath(deref(ad.X.Type()), ad.Field) + path
					ctx, v = c, ad.X
					continue
				}
			}
		case *ssa.IndexAddr:
			path = "[]" + path
			ctx, v = c, y.X
			continue
		case *ssa.FieldAddr:
			path = fieldPath(deref(y.X.Type()), y.Field) + path
			ctx, v = c, y.X
			continue
		case *ssa.Extract:
			if nx, ok := y.Tuple.(*ssa.Next); ok && !nx.IsString {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					path = "[]" + path
					ctx, v = c, rg.X
					continue
				}
			}
		case *ssa.Slice:
			ctx, v = c, y.X
			continue
		case *ssa.Phi:
			// a sequence consumed from the front
			for _, e := range y.Edges {
				if s, ok := e.(*ssa.Slice); ok && s.X == y {
					continue
				}
				if e != y {
					ctx, v = c, e
				}
			}
			if v != y {
				continue
			}
		}
		t := qualName(x.Type())
		if i := strings.LastIndex(t, "."); i >= 0 {
			t = t[i+1:]
		}
		return t + path
	}
	return path
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

func runeMethod(cc *ssa.CallCommon, name string, res types.BasicKind) bool {
	if calleeName(cc) != name {
		return false
	}
	s := cc.Signature()
	n := s.Params().Len()
	if n == 0 || s.Results().Len() != 1 || s.Recv() == nil {
		return false
	}
	p, ok := s.Params().At(n - 1).Type().Underlying().(*types.Basic)
	q, ok2 := s.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && ok2 && p.Kind() == types.Int32 && q.Kind() == res
}

// classify finds the steps among the calls of the operation.
func (s *stage) classify() {
	s.at = map[int]int{}
	mapped := s.mappedCalls()
	for _, n := range s.g.nodes {
		if n.in == nil || n.kind != kInstr {
			continue
		}
		if underCall(n.ctx, mapped) {
			continue
		}
		if _, ok := n.in.(*ssa.Defer); ok {
			continue
		}
		ci, ok := n.in.(ssa.CallInstruction)
		if !ok {
			continue
		}
		if n.ctx.fn.Pkg == nil || n.ctx.fn.Pkg.Pkg.Path() != modPath {
			continue
		}
		cc := ci.Common()
		key := callKey(cc)
		st := -1
		switch {
		case cc.IsInvoke() && cc.Method.Name() == "Transliterate" && qualName(cc.Value.Type()) == modPath+".Translit":
			st = sTranslit
		case key == "strings.Replacer.Replace":
			st = sNormSpec
		case runeMethod(cc, "Normalize", types.Int32) || mapped[siteKey{n.ctx, ci}]:
			st = sNormScript
		case key == modPath+"/pkg/hre.Pattern.Find":
			p := s.o.srcPath(n.ctx, cc.Args[0])
			switch {
			case strings.Contains(p, ".Rewrite"):
				st = sRewrite
			case strings.Contains(p, ".Transcribe"):
				st = sTranscribe
			default:
				s.r.fail("unknown rules", fnName(n.ctx.fn), s.g.where(n), "%s: a pattern is applied in %s which comes from neither the rewrite nor the transcribe rules of the spec (%s)", s.root.name, fnName(n.ctx.fn), p)
			}
		case key == modPath+"/internal/subword.NewReplacer" && len(s.around(n)) == 0:
			st = sPartition
		case key == modPath+"/internal/jamo.ComposeHangul":
			st = sSyllabify
		case runeMethod(cc, "LocalizePunct", types.String):
			st = sLocalize
		}
		if st >= 0 {
			s.at[n.id] = st
			s.of[st] = append(s.of[st], n)
		}
	}
}

// mappedCalls are the calls that run a step over every letter of a text by
// themselves: strings.Map with a function that normalizes.
func (s *stage) mappedCalls() map[siteKey]bool {
	maps := map[siteKey]bool{}
	for _, n := range s.g.nodes {
		if n.kind != kInstr || n.in == nil {
			continue
		}
		if ci, ok := n.in.(*ssa.Call); ok && callKey(ci.Common()) == "strings.Map" {
			maps[siteKey{n.ctx, ci}] = true
		}
	}
	out := map[siteKey]bool{}
	if len(maps) == 0 {
		return out
	}
	for _, c := range s.a.ctxs {
		if c.root != s.root || !underCall(c, maps) {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !runeMethod(ci.Common(), "Normalize", types.Int32) {
					continue
				}
				for d := c; d != nil; d = d.parent {
					if k := (siteKey{d.parent, d.site}); d.site != nil && maps[k] {
						out[k] = true
					}
				}
			}
		}
	}
	return out
}

// underCall: the context runs below one of the calls.
func underCall(c *Ctx, sites map[siteKey]bool) bool {
	for ; c != nil && c.site != nil; c = c.parent {
		if sites[siteKey{c.parent, c.site}] {
			return true
		}
	}
	return false
}

type loopAt struct {
	ctx *Ctx
	d   *Domain
}

func (s *stage) loopsIn(fn *ssa.Function) []*Domain {
	ds, ok := s.loops[fn]
	if !ok {
		ds = loopsOf(fn)
		s.loops[fn] = ds
	}
	return ds
}

// around lists the loops a node runs in, innermost first.
func (s *stage) around(n *GNode) []loopAt {
	var out []loopAt
	ctx, b := n.ctx, n.in.Block()
	for ctx != nil {
		var in []*Domain
		for _, d := range s.loopsIn(ctx.fn) {
			if d.body[b] {
				in = append(in, d)
			}
		}
		sort.SliceStable(in, func(i, j int) bool { return len(in[i].body) < len(in[j].body) })
		for _, d := range in {
			out = append(out, loopAt{ctx, d})
		}
		if ctx.site == nil {
			break
		}
		b = ctx.site.Block()
		ctx = ctx.parent
	}
	return out
}

func (s *stage) first(ctx *Ctx, b *ssa.BasicBlock) int { return s.g.instr[siteKey{ctx, b.Instrs[0]}] }

// seqValue is what a loop ranges over, if it visits it from the first to the
// last; whole tells whether it visits all of it, and why not.
func (s *stage) seqValue(l loopAt) (v ssa.Value, whole string) {
	d := l.d
	switch d.kind {
	case "string", "map":
		if rg, ok := d.next.Iter.(*ssa.Range); ok {
			return rg.X, ""
		}
	case "count":
		hi := d.hi
		if hi.v == nil {
			return nil, "visits a fixed number of elements"
		}
		c, x := s.a.resolve(l.ctx, hi.v)
		_ = c
		var seq ssa.Value
		if call, ok := x.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len":
					seq = call.Call.Args[0]
				case "min":
					return nil, "visits only some of the elements"
				}
			}
		}
		if seq == nil {
			return nil, ""
		}
		if hi.k < 0 {
			return seq, "leaves out the last element"
		}
		if d.lo.v == nil && d.lo.k > 0 {
			return seq, "leaves out the first element"
		}
		if d.lo.v != nil {
			return seq, "may leave out the first elements"
		}
		if d.desc {
			return seq, "visits the elements in reverse"
		}
		return seq, ""
	}
	return nil, ""
}

// emptiness: taking the succ-th branch tells that a text or sequence is empty.
func emptiness(iff *ssa.If, succ int) ssa.Value {
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	op := bo.Op
	x, y := bo.X, bo.Y
	lenOf := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return c.Call.Args[0]
			}
			switch callKey(c.Common()) {
			case "bytes.Buffer.Len", "strings.Builder.Len":
				return c.Call.Args[0]
			}
		}
		return nil
	}
	isEmptyStr := func(v ssa.Value) bool {
		c, ok := constStr(v)
		return ok && c == ""
	}
	if isEmptyStr(x) || lenOf(y) != nil && lenOf(x) == nil {
		x, y = y, x
		op = swapOp(op)
	}
	if isEmptyStr(y) || isNil(y) && isSliceT(x.Type()) {
		if op == token.EQL && succ == 0 || op == token.NEQ && succ == 1 {
			return x
		}
		return nil
	}
	seq := lenOf(x)
	k, ok := constInt(y)
	if seq == nil || !ok {
		return nil
	}
	if succ == 1 {
		op = negate(op)
	}
	switch {
	case op == token.EQL && k == 0, op == token.LSS && k == 1, op == token.LEQ && k == 0:
		return seq
	}
	return nil
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// walk visits what is reachable from some nodes without passing avoid, and
// returns the first goal reached.
func (s *stage) walk(from []int, avoid func(n *GNode) bool, allow func(iff *ssa.If, n *GNode, succ int) bool, goal func(n *GNode) bool) (*GNode, map[int]int) {
	prev := map[int]int{}
	work := []int{}
	for _, f := range from {
		if _, ok := prev[f]; !ok {
			prev[f] = -1
			work = append(work, f)
		}
	}
	for len(work) > 0 {
		id := work[0]
		work = work[1:]
		n := s.g.nodes[id]
		if goal(n) {
			return n, prev
		}
		if avoid(n) {
			continue
		}
		iff, isIf := n.in.(*ssa.If)
		for _, t := range n.succ {
			if isIf && n.kind == kInstr && allow != nil {
				skip := false
				for i, sb := range n.in.Block().Succs {
					if s.first(n.ctx, sb) == t && allow(iff, n, i) && !allow(iff, n, 1-i) {
						skip = true
					}
				}
				if skip {
					continue
				}
			}
			if _, ok := prev[t]; !ok {
				prev[t] = id
				work = append(work, t)
			}
		}
	}
	return nil, prev
}

// lastBranch is the last decision on a path found by walk.
func (s *stage) lastBranch(n *GNode, prev map[int]int) string {
	for id := n.id; id >= 0; id = prev[id] {
		if iff, ok := s.g.nodes[id].in.(*ssa.If); ok && s.g.nodes[id].kind == kInstr {
			p := s.a.p.instrPos(iff)
			if in, ok := iff.Cond.(ssa.Instruction); ok {
				p = s.a.p.instrPos(in)
			}
			return p
		}
	}
	return s.g.where(n)
}

func isError(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// failingRet tells whether a return instruction hands out an error.
func failingRet(ret *ssa.Return) bool {
	if len(ret.Results) == 0 {
		return false
	}
	e := ret.Results[len(ret.Results)-1]
	if !isError(e.Type()) {
		return false
	}
	return nonNilError(e, ret.Block(), 0)
}

func nonNilError(e ssa.Value, at *ssa.BasicBlock, d int) bool {
	switch x := e.(type) {
	case *ssa.Const:
		return false
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Global); ok {
			return true
		}
	case *ssa.Call:
		switch callKey(x.Common()) {
		case "fmt.Errorf", "errors.New", "errors.Join":
			return true
		}
	case *ssa.Phi:
		if d < 4 {
			all := len(x.Edges) > 0
			for i, y := range x.Edges {
				if !nonNilError(y, x.Block().Preds[i], d+1) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	// dominated by a check
	refs := e.Referrers()
	if refs == nil {
		return false
	}
	for _, u := range *refs {
		bo, ok := u.(*ssa.BinOp)
		if !ok || bo.Op != token.NEQ && bo.Op != token.EQL || !isNil(bo.X) && !isNil(bo.Y) {
			continue
		}
		for _, w := range *bo.Referrers() {
			iff, ok := w.(*ssa.If)
			if !ok {
				continue
			}
			i := 0
			if bo.Op == token.EQL {
				i = 1
			}
			t := iff.Block().Succs[i]
			if t.Dominates(at) && len(t.Preds) == 1 {
				return true
			}
		}
	}
	return false
}

func (s *stage) isHeader(n *GNode, l loopAt) bool {
	return n.ctx == l.ctx && n.kind == kInstr && n.in != nil && n.in == l.d.hdr.Instrs[0]
}

func isText(t types.Type) bool { return isStringT(t) }

func isSubwords(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasSuffix(qualName(sl.Elem()), "/internal/subword.Subword")
}

// nothing tells whether there is nothing to do in a step because a value is
// empty: the text, its pieces or the list of the step. A translit is asked for
// any text.
func (s *stage) nothing(step int, ctx *Ctx, v ssa.Value) bool {
	p := s.o.srcPath(ctx, v)
	spec := strings.HasPrefix(p, "Spec.") || strings.Contains(p, ".spec.") || strings.Contains(p, ".Lang.")
	if isStringT(v.Type()) {
		if spec || step == sTranslit {
			return false
		}
		// something else than the text
		if c, ok := v.(*ssa.Call); ok {
			if k := callKey(c.Common()); strings.HasPrefix(k, "strings.") && strings.Count(k, ".") == 1 {
				return false
			}
		}
		return true
	}
	if list := map[int]string{sTranslit: ".Translit", sRewrite: ".Rewrite", sTranscribe: ".Transcribe", sNormSpec: ".Normalize"}[step]; spec {
		return list != "" && strings.HasSuffix(p, list)
	}
	return true
}

func (s *stage) skipCond(step int, passed bool) func(iff *ssa.If, n *GNode, succ int) bool {
	return func(iff *ssa.If, n *GNode, succ int) bool {
		if v := emptiness(iff, succ); v != nil {
			return s.nothing(step, n.ctx, v)
		}
		if passed && (step == sTranscribe || step == sSyllabify) {
			// a subword that has passed through as it is
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					k, ok := constInt(xy[1])
					if ok && strings.HasSuffix(s.o.srcPath(n.ctx, xy[0]), ".Level") {
						op := bo.Op
						if xy[0] == bo.Y {
							op = swapOp(op)
						}
						if succ == 1 {
							op = negate(op)
						}
						switch {
						case op == token.EQL && k == 0, op == token.LSS && k == 1, op == token.LEQ && k == 0:
							return true
						}
					}
				}
			}
		}
		return false
	}
}

// structure checks that no step, rule, translit or part of the word is skipped
// or repeated, and that the steps come in order.
func (s *stage) structure() {
	for st := 0; st < nSteps; st++ {
		for _, n := range s.of[st] {
			s.r.count("step sites", 1)
			ls := s.around(n)
			h := n.id
			if len(ls) > 0 {
				l := ls[len(ls)-1]
				h = s.first(l.ctx, l.d.hdr)
			}
			s.head[st] = append(s.head[st], h)
			s.checkLoops(st, n, ls)
		}
	}
	// order
	for st := 0; st < nSteps; st++ {
		for _, n := range s.of[st] {
			seen := s.g.reach(n.id, nil)
			for e := 0; e < st; e++ {
				for _, m := range s.of[e] {
					if seen[m.id] {
						s.r.fail("order", fmt.Sprintf("%d %d %s", st, e, fnName(n.ctx.fn)), s.g.where(m), "%s: %s may run after %s (%s)", s.root.name, stepNames[e], stepNames[st], s.g.where(n))
					}
				}
			}
		}
	}
	// nothing is repeated
	for st := 0; st < nSteps; st++ {
		if st == sSyllabify || st == sLocalize || st == sNormScript {
			continue
		}
		hs := map[int]*GNode{}
		for i, h := range s.head[st] {
			hs[h] = s.of[st][i]
		}
		for h, n := range hs {
			// leave the loop, then come back
			ls := s.around(n)
			var from []int
			if len(ls) == 0 {
				from = s.g.nodes[h].succ
			} else {
				l := ls[len(ls)-1]
				for b := range l.d.body {
					for _, sb := range b.Succs {
						if !l.d.body[sb] {
							from = append(from, s.first(l.ctx, sb))
						}
					}
				}
			}
			for h2, m := range hs {
				x, _ := s.walk(from, func(*GNode) bool { return false }, nil, func(y *GNode) bool { return y.id == h2 })
				if x != nil {
					s.r.fail("repeated", fmt.Sprintf("%d %s", st, fnName(m.ctx.fn)), s.g.where(m), "%s: %s may run again after it has run (%s)", s.root.name, stepNames[st], s.g.where(n))
				}
			}
		}
	}
	// nothing is skipped
	for st := 0; st < nSteps; st++ {
		if len(s.head[st]) == 0 {
			continue
		}
		heads := map[int]bool{}
		for _, h := range s.head[st] {
			heads[h] = true
		}
		if st == sSyllabify {
			// the last text is composed after the loop
			heads = map[int]bool{}
			for _, n := range s.of[st] {
				heads[n.id] = true
			}
		}
		exit := s.g.exit[s.root.ctx]
		x, prev := s.walk([]int{s.g.entry[s.root.ctx]}, func(n *GNode) bool {
			if heads[n.id] {
				return true
			}
			if ret, ok := n.in.(*ssa.Return); ok && n.kind == kInstr && failingRet(ret) {
				return true
			}
			return false
		}, s.skipCond(st, false), func(n *GNode) bool { return n.id == exit })
		if x != nil {
			s.r.fail("skipped", fmt.Sprint(st), s.lastBranch(x, prev), "%s may succeed without %s", s.root.name, stepNames[st])
		}
	}
}

// checkLoops checks the loops around one site of a step.
func (s *stage) checkLoops(st int, n *GNode, ls []loopAt) {
	key := fmt.Sprintf("%d %s", st, fnName(n.ctx.fn))
	want := map[int]int{sTranslit: 1, sRewrite: 2, sTranscribe: 2}[st]
	rules := map[int]string{sTranslit: ".Translit", sRewrite: ".Rewrite", sTranscribe: ".Transcribe"}[st]
	if want > 0 && len(ls) > want {
		s.r.fail("repeated", key+" loop", s.g.where(n), "%s: %s runs inside one more loop (%s)", s.root.name, stepNames[st], s.a.p.instrPos(lastPos(ls[len(ls)-1].d.hdr)))
	}
	if want > 0 && len(ls) < want {
		s.r.fail("skipped", key+" loop", s.g.where(n), "%s: %s does not run for every element of what it is given", s.root.name, stepNames[st])
	}
	foundRules := rules == ""
	for i, l := range ls {
		s.r.count("loops", 1)
		pos := s.a.p.instrPos(lastPos(l.d.hdr))
		seq, whole := s.seqValue(l)
		if whole != "" {
			s.r.fail("part", fmt.Sprintf("%s %d", key, i), pos, "%s: the loop of %s %s", s.root.name, stepNames[st], whole)
		}
		if seq != nil {
			if sl := partialSlice(s.a, l.ctx, seq); sl != nil {
				s.r.fail("part", fmt.Sprintf("%s %d slice", key, i), s.a.p.instrPos(sl), "%s: the loop of %s visits only a part of its sequence", s.root.name, stepNames[st])
			}
		}
		if seq != nil && rules != "" {
			p := s.o.srcPath(l.ctx, seq)
			if strings.HasSuffix(p, rules) || !strings.HasPrefix(p, "Spec.") && !strings.HasPrefix(p, "procedure.") && !isSubwords(seq.Type()) {
				foundRules = true
			}
		} else if seq == nil {
			foundRules = true // not recognised
		}
		// the other ways out
		for b := range l.d.body {
			for si, sb := range b.Succs {
				if l.d.body[sb] || l.d.guard != nil && b == l.d.hdr {
					continue
				}
				if l.d.guard == nil || l.d.kind == "other" {
					// not a loop over a known sequence: its own end may be anywhere
					continue
				}
				if panicsOnly(sb, map[*ssa.BasicBlock]bool{}) {
					continue
				}
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && emptiness(iff, si) != nil && s.nothing(st, l.ctx, emptiness(iff, si)) {
					continue
				}
				if st == sTranslit && returnsError(sb, map[*ssa.BasicBlock]bool{}) {
					continue
				}
				s.r.fail("left early", fmt.Sprintf("%s %d", key, i), s.a.p.instrPos(lastPos(b)), "%s: the loop of %s may be left before its end", s.root.name, stepNames[st])
			}
		}
		if want == 0 {
			continue
		}
		if i == 0 {
			// not again for the same element
			x, _ := s.walk(n.succ, func(y *GNode) bool {
				return s.isHeader(y, l) || y.ctx == l.ctx && y.in != nil && !l.d.body[y.in.Block()]
			}, nil, func(y *GNode) bool { return y.kind == kInstr && s.at[y.id] == st && nodeIn(s.of[st], y) })
			if x != nil {
				s.r.fail("repeated", key+" again", s.g.where(x), "%s: %s may run again for the same element of its loop (%s)", s.root.name, stepNames[st], s.g.where(n))
			}
		}
		// every iteration passes
		var from []int
		for _, sb := range l.d.hdr.Succs {
			if l.d.body[sb] && (sb != l.d.hdr) {
				from = append(from, s.first(l.ctx, sb))
			}
		}
		passes := map[int]bool{}
		for _, m := range s.of[st] {
			ms := s.around(m)
			k := -1
			for j := range ms {
				if ms[j] == l {
					k = j
				}
			}
			switch {
			case k == 0:
				passes[m.id] = true
			case k > 0:
				passes[s.first(ms[k-1].ctx, ms[k-1].d.hdr)] = true
			}
		}
		inside := func(y *GNode) bool {
			// still in the iteration
			for c := y.ctx; c != nil; c = c.parent {
				if c == l.ctx {
					return true
				}
			}
			return false
		}
		x, prev := s.walk(from, func(y *GNode) bool {
			if passes[y.id] || !inside(y) {
				return true
			}
			if y.ctx == l.ctx && y.in != nil && !l.d.body[y.in.Block()] {
				return true
			}
			return false
		}, s.skipCond(st, true), func(y *GNode) bool { return s.isHeader(y, l) })
		if x != nil {
			s.r.fail("skipped", fmt.Sprintf("%s iteration %d", key, i), s.lastBranch(x, prev), "%s: %s may be skipped for an element of its loop", s.root.name, stepNames[st])
		}
	}
	if !foundRules && len(ls) >= want {
		s.r.fail("part", key+" rules", s.g.where(n), "%s: %s runs over something else than the %s of the spec", s.root.name, stepNames[st], strings.TrimPrefix(rules, "."))
	}
}

// partialSlice finds a slicing that leaves something out.
func partialSlice(a *PTA, ctx *Ctx, v ssa.Value) *ssa.Slice {
	for d := 0; d < 10; d++ {
		c, x := a.resolve(ctx, v)
		sl, ok := x.(*ssa.Slice)
		if !ok {
			return nil
		}
		if sl.High != nil {
			return sl
		}
		if sl.Low != nil {
			if k, ok := constInt(sl.Low); !ok || k != 0 {
				return sl
			}
		}
		ctx, v = c, sl.X
	}
	return nil
}

func returnsError(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	switch x := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Return:
		return failingRet(x)
	case *ssa.Panic:
		return true
	}
	for _, s := range b.Succs {
		if !returnsError(s, seen) {
			return false
		}
	}
	return len(b.Succs) > 0
}
