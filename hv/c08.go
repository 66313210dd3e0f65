package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: failures are reported and identifiable.

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return t != nil && types.Identical(t, errType) }

// lastErr is the index of the error among the results of a call: -1 for the
// only result, -2 for none.
func lastErr(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 || !isErr(sig.Results().At(n-1).Type()) {
		return -2
	}
	if n == 1 {
		return -1
	}
	return n - 1
}

// External calls whose error is always nil or tells nothing.
func neverFails(key string) bool {
	for _, p := range []string{"bytes.Buffer.", "strings.Builder.", "fmt.Fprint", "fmt.Print", "hash."} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	switch key {
	case "bufio.Reader.UnreadRune", "bufio.Reader.UnreadByte", "strings.Reader.UnreadRune", "io.WriteString":
		return true
	}
	return strings.HasSuffix(key, ".Close")
}

// Readers end with io.EOF.
func mayEOF(key string) bool {
	i := strings.LastIndexByte(key, '.')
	m := key[i+1:]
	switch m {
	case "Read", "ReadRune", "ReadByte", "ReadString", "ReadBytes", "ReadSlice", "ReadLine", "Peek":
		return true
	}
	return false
}

func makesErr(key string) bool {
	switch key {
	case "errors.New", "fmt.Errorf", "errors.Join", "errors.Unwrap":
		return true
	}
	return strings.HasPrefix(key, "github.com/pkg/errors.") || strings.HasPrefix(key, "io.TeeReader")
}

type failing struct {
	r        *Report
	x        *Sim
	a        *PTA
	relevant map[*Ctx]bool
	apis     map[*ssa.Function]bool
	exempt   map[*ssa.Function]bool
	sites    map[string]bool
}

func (f *failing) exempted(c *Ctx) bool {
	for ; c != nil; c = c.parent {
		if f.exempt[c.fn] {
			return true
		}
	}
	return false
}

// errRelevant tells whether entering a function can matter to the errors.
func (f *failing) errRelevant(c *Ctx) bool {
	if v, ok := f.relevant[c]; ok {
		return v
	}
	r := smallFn(c.fn)
	seen := map[*Ctx]bool{c: true}
	work := []*Ctx{c}
	for len(work) > 0 && !r {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		if f.errOwn(k) {
			r = true
			break
		}
		for _, b := range k.fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				si := f.a.callees[siteKey{k, ci}]
				if si == nil {
					continue
				}
				for _, m := range append(append([]*Ctx{}, si.internal...), append(si.callbacks, si.once...)...) {
					if !seen[m] {
						seen[m] = true
						work = append(work, m)
					}
				}
			}
		}
	}
	f.relevant[c] = r
	return r
}

// smallFn tells whether a function is a short one without calls and loops.
func smallFn(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			n++
			if _, ok := in.(ssa.CallInstruction); ok {
				return false
			}
		}
	}
	return n <= 40
}

func (f *failing) errOwn(c *Ctx) bool {
	sig := c.fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		if isErr(sig.Results().At(i).Type()) {
			return true
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isErr(sig.Params().At(i).Type()) {
			return true
		}
	}
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && isErr(v.Type()) {
				return true
			}
			if ci, ok := in.(ssa.CallInstruction); ok && lastErr(ci.Common().Signature()) != -2 && !neverFails(callKey(ci.Common())) {
				return true
			}
			if l, ok := in.(*ssa.Lookup); ok && isTranslitMap(l.X.Type()) {
				return true
			}
		}
	}
	return false
}

func isTranslitMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && qualName(m.Elem()) == modPath+".Translit"
}

func (f *failing) fault(s *State, n *GNode, what string) {
	if s.cl["fault"] == "" {
		s.cl["fault"] = what + " at " + f.x.g.where(n)
	}
}

func init() {
	register("C08", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("Single-fault simulation of every loading, parsing, compiling and transliterating operation: every external call with an error result forks into success and failure (readers also into the end of input); from the failure on, every path has to end with a non-nil error result or a panic.")
		r.rule("An error any function of these operations returns counts as a failure too. A missing translit, a failing translit and an unknown language end in an error that wraps ErrTranslitNotImported, ErrTranslit or ErrSpecNotFound, and those are reported in no other case. An unknown language leaves the word unchanged. The end of input is no error.")
		r.Assume = append(r.Assume, "embed.FS.ReadFile fails only when the file does not exist", "a failing regexp/syntax.Parse is reported when the same expression is compiled by regexp.Compile")
		var roots []*Root
		add := func(fn *ssa.Function) {
			if fn == nil {
				return
			}
			if rt := a.rootOf(fn); rt != nil {
				roots = append(roots, rt)
			}
		}
		for _, n := range []string{"LoadSpec", "Hangulize", "ParseSpec"} {
			add(a.p.fn("", n))
		}
		add(a.p.fn("pkg/hsl", "Parse"))
		add(a.p.fn("pkg/hre", "NewPattern"))
		roots = append(roots, a.implRoots("", "Hangulizer", "Hangulize")...)
		translits := map[*Root]bool{}
		for _, rt := range a.implRoots("", "Translit", "Transliterate") {
			roots = append(roots, rt)
			translits[rt] = true
		}
		apis := map[*ssa.Function]bool{}
		for _, rt := range roots {
			if rt.fn.Signature.Recv() == nil {
				apis[rt.fn] = true
			}
		}
		exempt := map[*ssa.Function]bool{}
		if ip := a.p.methodOf("pkg/hre", "RPattern", "Interpolate"); ip != nil {
			exempt[ip] = true
		}
		sites := map[string]bool{}
		for _, rt := range roots {
			f := &failing{r: r, a: a, relevant: map[*Ctx]bool{}, apis: apis, exempt: exempt, sites: sites}
			f.run(rt)
		}
		r.count("operations", len(roots))
		r.count("failure sites", len(sites))
		for _, k := range sortedKeys(sites) {
			r.sample("%s", k)
		}
		r.analysedBy(a, roots)
		r.need("operations", 7)
		r.need("failure sites", 5)
	})
}

func (f *failing) run(root *Root) {
	a, r := f.a, f.r
	x := a.newSim(root)
	f.x = x
	load := func(pkg, name string) *Term { return x.mk("load", "", x.mk("&g", pkg+"."+name)) }
	eof := load("io", "EOF")
	notFound, notImported, failed := load(modPath, "ErrSpecNotFound"), load(modPath, "ErrTranslitNotImported"), load(modPath, "ErrTranslit")
	errCells := map[ekey]bool{}
	x.keep = func(k ekey) bool { return errCells[k] }
	x.track = func(o *Obj, path string, t types.Type) bool {
		if isErr(t) {
			errCells[ekey{o: o, path: path}] = true
			return true
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return true
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return true
		}
		return false
	}
	// The letters of a source do not matter to its failures.
	x.noFacts = func(t *Term) bool {
		switch t.op {
		case "reg":
			if t.typ != nil {
				b, ok := t.typ.Underlying().(*types.Basic)
				return ok && b.Info()&types.IsInteger != 0
			}
		case "==", "<", "<=":
			for _, a := range t.args {
				if isNum(a) {
					return true
				}
			}
		case "+", "-", "*", "len":
			return true
		}
		return strings.HasPrefix(t.op, "call unicode.")
	}
	x.opaque = func(c *Ctx) bool {
		if c == root.ctx {
			return false
		}
		if f.apis[c.fn] {
			return true
		}
		return !f.errRelevant(c)
	}
	x.instr = func(s *State, n *GNode) []*State {
		switch in := n.in.(type) {
		case *ssa.Lookup:
			if !in.CommaOk && !isTranslitMap(in.X.Type()) || f.exempted(n.ctx) {
				return nil
			}
			if isTranslitMap(in.X.Type()) && keyOfRange(in) {
				return nil
			}
			if isTranslitMap(in.X.Type()) {
				x.define(s, n.ctx, in)
				miss := s.clone()
				if in.CommaOk {
					x.set(s, n.ctx, in, "#1", x.tTrue)
					x.setNe(s, x.reg(n.ctx, in, "#0"), x.tNil)
					x.set(miss, n.ctx, in, "#1", x.tFalse)
					x.set(miss, n.ctx, in, "#0", x.tNil)
				} else {
					x.setNe(s, x.reg(n.ctx, in, ""), x.tNil)
					x.set(miss, n.ctx, in, "", x.tNil)
				}
				if miss.cl["fault"] != "" {
					return []*State{s}
				}
				f.fault(miss, n, "a missing translit")
				miss.cl["missing"] = "1"
				f.sites[f.x.g.where(n)+": a translit is looked up"] = true
				return []*State{s, miss}
			}
		case *ssa.Return:
			x.exec(s, n)
			if n.ctx == root.ctx || f.exempted(n.ctx) || s.cl["fault"] != "" {
				return []*State{s}
			}
			for i, v := range in.Results {
				if !isErr(v.Type()) {
					continue
				}
				t := x.norm(s, s.env[ekey{ctx: n.ctx, path: "ret#" + itoa(i)}])
				if t != nil && x.errIs(s, t, eof) != 1 && x.nonNil(s, t) {
					f.fault(s, n, "an error of "+fnName(n.ctx.fn))
					f.sites[f.x.g.where(n)+": "+fnName(n.ctx.fn)+" reports an error"] = true
				}
			}
			return []*State{s}
		}
		return nil
	}
	x.call = func(s *State, n *GNode) []*State {
		key, cc, call := x.key1(n)
		if call == nil {
			return nil
		}
		if makesErr(key) {
			return x.std(s, n)
		}
		exempt := f.exempted(n.ctx)
		if key == "bufio.Scanner.Scan" && !exempt {
			more, bad := s, s.clone()
			end := s.clone()
			x.set(more, n.ctx, call, "", x.tTrue)
			x.set(end, n.ctx, call, "", x.tFalse)
			x.set(bad, n.ctx, call, "", x.tFalse)
			if s.cl["fault"] != "" {
				return []*State{more, end}
			}
			f.fault(bad, n, "a failure of "+key)
			bad.cl["scanner"] = "1"
			f.sites[x.g.where(n)+": "+key] = true
			return []*State{more, end, bad}
		}
		if key == "bufio.Scanner.Err" {
			if s.cl["scanner"] != "" {
				x.set(s, n.ctx, call, "", x.mk("err", "fault", x.reg(n.ctx, call, "$")))
			} else {
				x.set(s, n.ctx, call, "", x.tNil)
			}
			return []*State{s}
		}
		ei := lastErr(cc.Signature())
		if ei == -2 {
			if key == "fmt.Sprintf" {
				if lit, ok := x.eval(s, n.ctx, cc.Args[0]).isStr(); ok {
					for _, v := range verbs(lit) {
						if v[0] == 'l' && v != "l" {
							x.setNe(s, x.eval(s, n.ctx, call), x.cStr(""))
							break
						}
					}
				}
				return []*State{s}
			}
			return x.std(s, n)
		}
		ep := ""
		if ei >= 0 {
			ep = "#" + itoa(ei)
		}
		if neverFails(key) {
			x.set(s, n.ctx, call, ep, x.tNil)
			return []*State{s}
		}
		if exempt {
			return nil
		}
		if mayEOF(key) && len(cc.Args) > 0 && !cc.IsInvoke() && inMemory(a, n.ctx, cc.Args[0]) {
			end := s.clone()
			x.set(s, n.ctx, call, ep, x.tNil)
			x.set(end, n.ctx, call, ep, eof)
			return []*State{s, end}
		}
		f.sites[x.g.where(n)+": "+key] = true
		term := x.mk("err", "fault", x.reg(n.ctx, call, "$"))
		if s.cl["fault"] != "" {
			// at most one failure; reading goes on to fail
			if s.cl["invalid"] != "" && key == "regexp.Compile" {
				if x.eval(s, n.ctx, cc.Args[0]).String() == s.cl["invalid"] {
					x.set(s, n.ctx, call, ep, term)
					return []*State{s}
				}
			}
			x.set(s, n.ctx, call, ep, x.tNil)
			return []*State{s}
		}
		bad := s.clone()
		x.set(s, n.ctx, call, ep, x.tNil)
		f.fault(bad, n, "a failure of "+key)
		out := []*State{s}
		switch {
		case cc.IsInvoke() && cc.Method.Name() == "Transliterate" && qualName(cc.Value.Type()) == modPath+".Translit":
			bad.cl["failed"] = "1"
		case key == modPath+".LoadSpec":
			term = x.mk("err", "fault", x.reg(n.ctx, call, "$"), notFound)
			bad.cl["unknown"] = "1"
		case strings.HasPrefix(key, "embed.FS.") || strings.HasPrefix(key, "io/fs."):
			term = x.mk("err", "fault", x.reg(n.ctx, call, "$"), load("io/fs", "ErrNotExist"), load("os", "ErrNotExist"))
			bad.cl["unknown"] = "1"
		case key == "regexp/syntax.Parse":
			bad.cl["invalid"] = x.eval(bad, n.ctx, cc.Args[0]).String()
		case mayEOF(key):
			end := s.clone()
			x.set(end, n.ctx, call, ep, eof)
			out = append(out, end)
			// the reader is the caller's: its error may be any but the end
			term = x.mk("err", "user", x.reg(n.ctx, call, "$"))
		}
		x.set(bad, n.ctx, call, ep, term)
		return append(out, bad)
	}
	x.end = func(s *State, n *GNode, panics bool) {
		r.count("outcomes", 1)
		if panics {
			return
		}
		ei := lastErr(root.fn.Signature)
		if ei == -1 {
			ei = 0
		}
		er := x.result(s, ei, "")
		fault := s.cl["fault"]
		fkey := fault
		if i := strings.Index(fault, " at "); i > 0 {
			fkey = fault[:i]
		}
		if fault != "" {
			if er == nil || !x.nonNil(s, er) {
				what := "may return no error"
				if er != nil && er.op == "nil" {
					what = "returns no error"
				}
				r.fail("swallowed", root.name+" "+fkey, x.g.where(n), "%s %s after %s (path: %s)", root.name, what, fault, s.trail())
				return
			}
		} else if er != nil && x.errIs(s, er, eof) == 1 {
			r.fail("eof", root.name, x.g.where(n), "%s reports the end of the input as an error (path: %s)", root.name, s.trail())
			return
		}
		if er == nil || er.op == "nil" {
			return
		}
		for _, k := range []struct {
			cl, name string
			t        *Term
		}{{"unknown", "ErrSpecNotFound", notFound}, {"missing", "ErrTranslitNotImported", notImported}, {"failed", "ErrTranslit", failed}} {
			is := x.errIs(s, er, k.t)
			if s.cl[k.cl] != "" && is != 1 && (k.cl != "unknown" || isTop(root)) {
				r.fail("identity", root.name+" "+k.name, x.g.where(n), "%s reports %s by an error that does not match %s (path: %s)", root.name, fault, k.name, s.trail())
			}
			if s.cl[k.cl] == "" && is == 1 {
				r.fail("identity", root.name+" spurious "+k.name, x.g.where(n), "%s reports %s though that is not what failed (%s; path: %s)", root.name, k.name, fault, s.trail())
			}
		}
		if s.cl["unknown"] != "" && root.fn.Name() == "Hangulize" && root.fn.Signature.Recv() == nil {
			if w := x.result(s, 0, ""); w != x.param(1) {
				r.fail("word", root.name, x.g.where(n), "for an unknown language %s returns %v instead of the given word", root.name, w)
			}
		}
	}
	x.run(nil)
	r.sim(x)
}

// inMemory tells whether a reader reads from memory only, which never fails.
func inMemory(a *PTA, ctx *Ctx, v ssa.Value) bool {
	switch qualName(deref(v.Type())) {
	case "strings.Reader", "bytes.Reader", "bytes.Buffer":
		return true
	case "bufio.Reader":
	default:
		return false
	}
	es := a.pts(ctx, v)
	for _, e := range es {
		o := canon(e.o)
		call, ok := o.site.(*ssa.Call)
		if !ok || !strings.HasPrefix(callKey(call.Common()), "bufio.NewReader") {
			return false
		}
		_, w := a.resolve(o.ctx, call.Call.Args[0])
		switch qualName(deref(w.Type())) {
		case "strings.Reader", "bytes.Reader", "bytes.Buffer":
		default:
			return false
		}
	}
	return len(es) > 0
}

func isNum(t *Term) bool {
	if _, ok := t.isInt(); ok || t.op == "len" {
		return true
	}
	if t.op == "reg" && t.typ != nil {
		b, ok := t.typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	return false
}

func isTop(root *Root) bool {
	return root.fn.Name() == "LoadSpec" || root.fn.Name() == "Hangulize"
}
