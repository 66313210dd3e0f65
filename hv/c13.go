package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: the command answers every word in order and reports failure.

const cobraPkg = "github.com/spf13/cobra.Command."

func isCobraRun(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() == 2 && qualName(s.Params().At(0).Type()) == "github.com/spf13/cobra.Command" && isStringSlice(s.Params().At(1).Type())
}

type cli struct {
	a      *PTA
	r      *Report
	root   *Root
	cmd    bool // the root is a command, not a goroutine
	x      *Sim
	pends  map[string]pendSrc
	counts map[string]map[string]bool
	ranges bool // somebody receives words until the channel is closed
}

// pendSrc is where a word that has to be answered comes from.
type pendSrc struct {
	kind string // recv, line, scan, arg, test
	ctx  *Ctx
	v    ssa.Value // recv: the received value, line: the call
	path string
	dom  *Domain
	lo   int64
}

func (c *cli) note(what, key string) {
	if c.counts[what] == nil {
		c.counts[what] = map[string]bool{}
	}
	c.counts[what][key] = true
}

// argsBase tells whether a slice is the rest of the arguments from some index.
func (c *cli) argsBase(ctx *Ctx, v ssa.Value, d int) (int64, bool) {
	if d > 20 {
		return 0, false
	}
	ctx, v = c.a.resolve(ctx, v)
	switch v := v.(type) {
	case *ssa.Slice:
		lo := int64(0)
		if v.Low != nil {
			k, ok := constInt(v.Low)
			if !ok {
				return 0, false
			}
			lo = k
		}
		if v.High != nil {
			return 0, false
		}
		b, ok := c.argsBase(ctx, v.X, d+1)
		return b + lo, ok
	case *ssa.Parameter:
		if ctx != ctx.root.ctx {
			return 0, false
		}
		if isCobraRun(ctx.fn) {
			return 0, v == ctx.fn.Params[1]
		}
		if pc, in := c.spawnSite(ctx.root); in != nil {
			for i, p := range ctx.fn.Params {
				if args := in.Common().Args; p == v && i < len(args) {
					return c.argsBase(pc, args[i], d+1)
				}
			}
		}
	case *ssa.UnOp:
		if fv, ok := v.X.(*ssa.FreeVar); ok {
			return c.argsCaptured(ctx, fv, d)
		}
	}
	return 0, false
}

func (c *cli) argsCaptured(ctx *Ctx, fv *ssa.FreeVar, d int) (int64, bool) {
	pc, b := c.captured(ctx, fv)
	if b == nil {
		return 0, false
	}
	if al, ok := b.(*ssa.Alloc); ok {
		if st := soleStore(al); st != nil {
			return c.argsBase(pc, st.Val, d+1)
		}
	}
	return c.argsBase(pc, b, d+1)
}

func (c *cli) spawnSite(root *Root) (*Ctx, ssa.CallInstruction) {
	for k, si := range c.a.callees {
		for _, r := range si.spawned {
			if r == root {
				in, _ := k.in.(ssa.CallInstruction)
				return k.ctx, in
			}
		}
	}
	return nil, nil
}

// captured is what the closure run by a goroutine captured.
func (c *cli) captured(ctx *Ctx, fv *ssa.FreeVar) (*Ctx, ssa.Value) {
	pc, _ := c.spawnSite(ctx.root)
	if pc == nil || ctx != ctx.root.ctx {
		return nil, nil
	}
	for i, f := range ctx.fn.FreeVars {
		if f != fv {
			continue
		}
		for p := pc; p != nil; p = p.parent {
			for _, b := range p.fn.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ctx.fn {
						return p, mc.Bindings[i]
					}
				}
			}
		}
	}
	return nil, nil
}

// trims tells whether a term is a text or that text without space around.
func trims(t, of *Term) bool {
	for t != of {
		switch {
		case t == nil || len(t.args) == 0:
			return false
		case t.op == "conv":
			t = t.args[0]
			continue
		case t.op == "call bytes.TrimSpace", t.op == "call strings.TrimSpace", t.op == "call strings.Trim", t.op == "call strings.TrimRight",
			t.op == "call strings.TrimLeft", t.op == "call strings.TrimSuffix":
			for _, cut := range t.args[1:] {
				if s, ok := cut.isStr(); !ok || strings.TrimSpace(s) != "" {
					return false
				}
			}
		default:
			return false
		}
		t = t.args[0]
	}
	return true
}

func (c *cli) words(s *State, p pendSrc) []*Term {
	x := c.x
	switch p.kind {
	case "recv", "line":
		return []*Term{x.norm(s, x.evalP(s, p.ctx, p.v, p.path)), x.reg(p.ctx, p.v, p.path)}
	case "arg", "test":
		var out []*Term
		for b := range p.dom.body {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				if ia, ok := u.X.(*ssa.IndexAddr); ok && p.dom.isIndex(ia.Index) {
					out = append(out, x.norm(s, x.eval(s, p.ctx, u)), x.reg(p.ctx, u, ""))
				}
			}
		}
		return out
	}
	return nil
}

// isWord tells whether a value is the pending word.
func (c *cli) isWord(s *State, t *Term) bool {
	p, ok := c.pends[s.cl["pend"]]
	if !ok || t == nil {
		return false
	}
	if p.kind == "scan" {
		for t.op != "call bufio.Scanner.Text" {
			if !strings.HasPrefix(t.op, "call strings.Trim") || len(t.args) == 0 || !trims(t, t.args[0]) {
				return false
			}
			t = t.args[0]
		}
		return true
	}
	if p.kind == "test" {
		return true // which part is judged by its use
	}
	for _, w := range c.words(s, p) {
		if trims(t, w) {
			return true
		}
	}
	return false
}

// blank tells whether the pending word is known to be empty on this path.
func (c *cli) blank(s *State) bool {
	p, ok := c.pends[s.cl["pend"]]
	if !ok || p.kind == "test" {
		return false
	}
	isOne := func(t *Term) bool {
		if p.kind == "arg" || p.kind == "recv" {
			for _, w := range c.words(s, p) {
				if t == w {
					return true
				}
			}
			return false
		}
		return c.isWord(s, t)
	}
	for t, f := range s.facts {
		if t.op == "len" && len(t.args) == 1 {
			if _, hi := c.x.bounds(s, t); hi <= 0 && isOne(t.args[0]) {
				return true
			}
		}
		if f.eq == c.x.cStr("") && isOne(t) {
			return true
		}
	}
	return false
}

// next: a new word comes, or the work ends.
func (c *cli) next(s *State, n *GNode, what string) {
	if s.cl["fault"] != "" {
		delete(s.cl, "pend")
		delete(s.cl, "res")
		return
	}
	w := c.x.g.where(n)
	if id := s.cl["pend"]; id != "" {
		p := c.pends[id]
		switch p.kind {
		case "test":
			c.r.fail("lost", "test "+c.root.name, w, "an example of a spec is not tested on the path %s", s.trail())
		default:
			c.r.fail("lost", p.kind+" "+c.root.name, w, "a word (%s) is not answered before %s on the path %s", p.kind, what, s.trail())
		}
		delete(s.cl, "pend")
	}
	switch s.cl["res"] {
	case "print":
		c.r.fail("result", c.root.name, w, "the result of a word is not printed to the standard output before %s on the path %s", what, s.trail())
	case "nl":
		c.r.fail("result", "line "+c.root.name, w, "the result of a word is printed without ending its line before %s on the path %s", what, s.trail())
	case "test":
		c.r.fail("result", "test "+c.root.name, w, "the result of an example is not compared with what is expected before %s on the path %s", what, s.trail())
	}
	delete(s.cl, "res")
}

func (c *cli) take(s *State, n *GNode, t *Term, what string) {
	id := s.cl["pend"]
	if id == "" {
		if s.cl["other"] != "" {
			c.r.Open = append(c.r.Open, "not judged: "+c.root.name+": the standard input is not read line by line")
			return
		}
		if s.cl["fault"] == "" && what != "" {
			c.r.fail("lost", "again "+c.root.name, c.x.g.where(n), "a text that is no new word is %s on the path %s", what, s.trail())
		}
		return
	}
	p := c.pends[id]
	if p.kind == "arg" && what != "opened" && p.lo != 1 {
		c.r.fail("lost", "first "+c.root.name, c.x.g.where(n), "the words are taken from the arguments from %d on", p.lo)
	}
	delete(s.cl, "pend")
}

func (c *cli) source(s *State, n *GNode, p pendSrc) {
	id := p.kind + "@" + itoa(n.id)
	c.pends[id] = p
	c.note("word sources", c.a.p.instrPos(n.in))
	s.cl["pend"] = id
}

func (c *cli) fault(s *State, n *GNode, what string) {
	s.cl["fault"] = what + " (" + c.x.g.where(n) + ")"
	delete(s.cl, "msg")
	delete(s.cl, "pend")
	delete(s.cl, "res")
}

func isLibCtx(n *Ctx) bool {
	f := n.fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return libPath(o.Pkg().Path())
		}
		return f.Synthetic != ""
	}
	return libPath(f.Pkg.Pkg.Path())
}

// writer tells where a writer leads: out, err, buf or unknown.
func (c *cli) writer(t *Term) string {
	t = unbox(t)
	switch {
	case t == nil:
		return "?"
	case t.op == "stdout" || t.op == "load" && len(t.args) == 1 && t.args[0].s == "os.Stdout":
		return "out"
	case t.op == "stderr" || t.op == "load" && len(t.args) == 1 && t.args[0].s == "os.Stderr":
		return "err"
	case t.op == "bufw":
		if w := c.writer(t.args[0]); w == "out" {
			return "buf"
		}
	case t.op == "iface" && len(t.args) == 1:
		return c.writer(t.args[0])
	}
	return "?"
}

// print is an output call.
func (c *cli) print(s *State, n *GNode, key string, cc *ssa.CallCommon) bool {
	x := c.x
	arg := func(i int) *Term { return x.norm(s, x.eval(s, n.ctx, cc.Args[i])) }
	dest, first, format := "", 0, -1
	name := key[strings.LastIndex(key, ".")+1:]
	switch {
	case strings.HasPrefix(key, "fmt.Fprint"):
		dest, first = c.writer(arg(0)), 1
	case strings.HasPrefix(key, "fmt.Print"):
		dest = "out"
	case strings.HasPrefix(key, cobraPkg+"Print"):
		dest, first = "err", 1
	case strings.HasPrefix(key, "log.Print"), strings.HasPrefix(key, "log.Fatal"), strings.HasPrefix(key, "log.Panic"):
		dest = "err"
	case key == "io.WriteString":
		dest, first = c.writer(arg(0)), 1
	case key == "os.File.WriteString" || key == "bufio.Writer.WriteString":
		dest, first = c.writer(arg(0)), 1
	default:
		return false
	}
	if dest == "err" || dest == "?" {
		s.cl["msg"] = "1"
	}
	if dest == "err" {
		return true
	}
	c.note("prints", c.a.p.instrPos(n.in))
	line := strings.HasSuffix(name, "ln")
	var ops []*Term
	if strings.HasSuffix(name, "f") {
		format = first
		first++
	}
	if name == "WriteString" {
		ops = []*Term{arg(first)}
	} else {
		vs, ok := x.varargs(s, n.ctx, cc.Args[len(cc.Args)-1])
		if !ok {
			vs = nil
		}
		for _, v := range vs {
			ops = append(ops, unbox(v))
		}
	}
	if format >= 0 {
		if f, ok := arg(format).isStr(); ok && strings.HasSuffix(f, "\n") {
			line = true
		}
	}
	var has func(t *Term, w *Term, d int) bool
	has = func(t, w *Term, d int) bool {
		if t == w {
			return true
		}
		if t == nil || d > 12 {
			return false
		}
		for _, u := range t.args {
			if has(u, w, d+1) {
				return true
			}
		}
		return false
	}
	for _, o := range ops {
		ps := x.concat(o)
		if len(ps) > 0 && strings.HasSuffix(ps[len(ps)-1], "\\n\"") {
			line = true
		}
		if v, ok := o.isStr(); ok && strings.HasSuffix(v, "\n") {
			line = true
		}
	}
	shows := false
	for id := range c.pends {
		if !strings.HasPrefix(id, "result@") {
			continue
		}
		p := c.pends[id]
		for _, o := range ops {
			if has(o, x.reg(p.ctx, p.v, "#0"), 0) {
				shows = true
			}
		}
	}
	if !shows && s.cl["pend"] != "" {
		for _, o := range ops {
			if c.isWord(s, o) && c.pends[s.cl["pend"]].kind == "recv" && s.cl["res"] == "" {
				// results handed over by another goroutine
				delete(s.cl, "pend")
				s.cl["res"] = "print"
				shows = true
			}
		}
	}
	if s.cl["fault"] != "" {
		return true
	}
	if dest == "buf" {
		s.cl["buffered"] = "1"
	}
	switch {
	case shows && s.cl["res"] == "print" && line, s.cl["res"] == "nl" && line && !shows:
		delete(s.cl, "res")
	case shows && s.cl["res"] == "print":
		s.cl["res"] = "nl"
	case shows && s.cl["res"] == "" && dest != "?":
		c.r.fail("result", "twice "+c.root.name, x.g.where(n), "the result of a word is printed twice on the path %s", s.trail())
	}
	return true
}

func (c *cli) ends(s *State, n *GNode, how string, ok bool) {
	w := c.x.g.where(n)
	if f := s.cl["fault"]; f != "" {
		if !ok {
			c.r.fail("failure", c.root.name+" "+f, w, "after %s the command %s as if nothing had failed (path %s)", f, how, s.trail())
		} else if s.cl["msg"] == "" && how != "returns" {
			c.r.fail("failure", "silent "+c.root.name+" "+f, w, "after %s the command %s without a message (path %s)", f, how, s.trail())
		}
	}
	if s.cl["buffered"] != "" {
		c.r.fail("result", "buffered "+c.root.name, w, "results are left in a buffer when the command %s (path %s)", how, s.trail())
	}
}

func (c *cli) run() {
	a, root := c.a, c.root
	x := a.newSim(root)
	c.x = x
	x.opaque = func(ctx *Ctx) bool { return ctx != root.ctx && isLibCtx(ctx) }
	x.track = func(o *Obj, path string, t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			return true
		case *types.Basic:
			return u.Info()&(types.IsBoolean|types.IsString|types.IsInteger) != 0
		}
		return false
	}
	x.keep = func(k ekey) bool { return false }
	doms := func(n *GNode) *Domain {
		iff, ok := n.in.(*ssa.If)
		if !ok {
			return nil
		}
		for _, d := range x.loopInfo.of(iff.Parent()) {
			if d.guard == iff {
				return d
			}
		}
		return nil
	}
	inLoop := func(b *ssa.BasicBlock) bool {
		for _, d := range x.loopInfo.of(b.Parent()) {
			if d.body[b] {
				return true
			}
		}
		return false
	}
	// what a loop gives out
	given := func(n *GNode, d *Domain) (pendSrc, bool) {
		if d.kind != "count" {
			return pendSrc{}, false
		}
		seq := seqOf(d.hi)
		if seq == nil || d.lo.v != nil {
			return pendSrc{}, false
		}
		if b, ok := c.argsBase(n.ctx, seq, 0); ok {
			if d.desc {
				c.r.fail("order", "args "+root.name, x.g.where(n), "the arguments are taken from the last to the first")
			}
			return pendSrc{kind: "arg", ctx: n.ctx, dom: d, lo: b + d.lo.k}, true
		}
		if isTests(seq) {
			part := false
			for {
				var v ssa.Value
				_, v = a.resolve(n.ctx, seq)
				sl, ok := v.(*ssa.Slice)
				if !ok {
					break
				}
				if sl.High != nil {
					part = true
				}
				if sl.Low != nil {
					if k, ok := constInt(sl.Low); !ok || k != 0 {
						part = true
					}
				}
				seq = sl.X
			}
			if d.lo.k != 0 || part {
				c.r.fail("lost", "tests "+root.name, x.g.where(n), "some examples of a spec are not tested")
			}
			return pendSrc{kind: "test", ctx: n.ctx, dom: d}, true
		}
		return pendSrc{}, false
	}
	x.branch = func(s *State, n *GNode, cond *Term, truth bool) bool {
		if c.blank(s) {
			delete(s.cl, "pend")
		}
		// an example is compared
		if s.cl["res"] == "test" && cond != nil {
			k := cond
			eq := truth
			for k.op == "!" && len(k.args) == 1 {
				k, eq = k.args[0], !eq
			}
			if k.op == "!=" {
				eq = !eq
			}
			if (k.op == "==" || k.op == "!=") && len(k.args) == 2 {
				for i := range k.args {
					for id, p := range c.pends {
						if strings.HasPrefix(id, "result@") && k.args[i] == x.reg(p.ctx, p.v, "#0") {
							if k.args[1-i].isConst() {
								continue
							}
							c.note("comparisons", a.p.instrPos(n.in))
							delete(s.cl, "res")
							if !eq {
								c.fault(s, n, "a failed spec test")
							}
							return true
						}
					}
				}
			}
		}
		if s.cl["noargs"] == "" {
			for t, f := range s.facts {
				if t.op != "len" || len(t.args) != 1 || f.hi > 1 && f.eq == nil {
					continue
				}
				if b, ok := c.argsTerm(t.args[0]); ok {
					if _, hi := x.bounds(s, t); hi+b <= 1 {
						s.cl["noargs"] = "1"
					}
				}
			}
		}
		if d := doms(n); d != nil {
			p, ok := given(n, d)
			if !ok {
				return true
			}
			loop := p.kind + "loop"
			if truth == (d.in == 0) {
				// one fault per run
				old := s.cl["fault"]
				if old == "" {
					if s.cl["pend"] != "" && c.pends[s.cl["pend"]].kind == "arg" && p.kind == "test" {
						delete(s.cl, "pend")
					}
					c.next(s, n, "the next one")
					c.source(s, n, p)
				}
				s.cl[loop] = "in"
			} else {
				if s.cl[loop] == "in" || s.cl["fault"] == "" {
					c.next(s, n, "the end")
				}
				s.cl[loop] = "done"
			}
		}
		return true
	}
	x.instr = func(s *State, n *GNode) []*State {
		if n.kind == kInstr {
			switch in := n.in.(type) {
			case *ssa.Defer, *ssa.Go:
				return nil
			case *ssa.Send:
				if !isStringT(in.X.Type()) {
					return nil
				}
				if s.cl["closed"] != "" {
					c.r.fail("channel", "closed "+root.name, x.g.where(n), "a word is sent to a closed channel on the path %s", s.trail())
				}
				t := x.norm(s, x.eval(s, n.ctx, in.X))
				s.cl["sends"] = "1"
				for id, p := range c.pends {
					if strings.HasPrefix(id, "result@") && t == x.reg(p.ctx, p.v, "#0") && s.cl["res"] == "print" {
						delete(s.cl, "res")
						return nil
					}
				}
				c.note("word hand-overs", a.p.instrPos(in))
				if s.cl["pend"] != "" && !c.isWord(s, t) {
					c.r.fail("lost", "other "+root.name, x.g.where(n), "another text than the word is handed over (%s) on the path %s", t, s.trail())
				}
				c.take(s, n, t, "handed over")
				return nil
			case *ssa.UnOp:
				if in.Op != token.ARROW {
					return nil
				}
				ch, ok := in.X.Type().Underlying().(*types.Chan)
				if !ok || !isStringT(ch.Elem()) {
					return nil
				}
				c.next(s, n, "the next one")
				x.define(s, n.ctx, in)
				if !in.CommaOk {
					c.source(s, n, pendSrc{kind: "recv", ctx: n.ctx, v: in})
					return []*State{s}
				}
				end := s.clone()
				x.set(s, n.ctx, in, "#1", x.tTrue)
				x.set(end, n.ctx, in, "#1", x.tFalse)
				c.source(s, n, pendSrc{kind: "recv", ctx: n.ctx, v: in, path: "#0"})
				s.cl["chan"] = "open"
				end.cl["chan"] = "closed"
				return []*State{s, end}
			}
		}
		if cv, ok := n.in.(*ssa.Convert); ok && n.kind == kInstr && isStringT(cv.Type()) && cv.X.Type().String() == "[]byte" {
			// a line read as bytes
			t := x.norm(s, x.eval(s, n.ctx, cv.X))
			if s.cl["pend"] != "" && c.isWord(s, t) {
				x.define(s, n.ctx, cv)
				x.set(s, n.ctx, cv, "", x.mk("conv", "", t))
				return []*State{s}
			}
		}
		ci := n.callInstr()
		if ci == nil || n.kind != kInstr && n.kind != kDefer {
			return nil
		}
		if b, ok := ci.Common().Value.(*ssa.Builtin); ok {
			if b.Name() == "close" {
				if s.cl["closed"] != "" {
					c.r.fail("channel", "twice "+root.name, x.g.where(n), "a channel is closed twice on the path %s", s.trail())
				}
				s.cl["closed"] = "1"
			}
			if b.Name() == "append" && n.kind == kInstr && s.cl["pend"] != "" && isStringSlice(ci.Common().Args[0].Type()) {
				if vs, ok := x.varargs(s, n.ctx, ci.Common().Args[1]); ok && len(vs) == 1 && c.isWord(s, x.norm(s, vs[0])) && c.pends[s.cl["pend"]].kind != "test" {
					c.note("word hand-overs", a.p.instrPos(n.in))
					c.take(s, n, vs[0], "handed over")
				}
			}
			return nil
		}
		key := callKey(ci.Common())
		switch key {
		case "bufio.Reader.ReadString", "bufio.Reader.ReadLine", "bufio.Reader.ReadBytes", "bufio.Scanner.Scan":
			if c.stdin(x.norm(s, x.eval(s, n.ctx, ci.Common().Args[0]))) {
				c.next(s, n, "the next one")
				if s.cl["noargs"] == "" && s.cl["argloop"] == "" && c.argLoops() {
					c.r.fail("lost", "mode "+root.name, x.g.where(n), "the standard input is read although the arguments may hold a word, on the path %s", s.trail())
				}
			}
		case "bufio.Writer.Flush":
			delete(s.cl, "buffered")
		}
		return nil
	}
	x.call = func(s *State, n *GNode) []*State {
		key, cc, call := x.key1(n)
		if call == nil {
			return nil
		}
		arg := func(i int) *Term { return x.norm(s, x.eval(s, n.ctx, cc.Args[i])) }
		fork := func(path, what string) []*State {
			c.note("fallible calls", a.p.instrPos(n.in))
			bad := s.clone()
			if s.cl["fault"] != "" {
				x.set(s, n.ctx, call, path, x.tNil)
				return []*State{s}
			}
			x.set(s, n.ctx, call, path, x.tNil)
			x.set(bad, n.ctx, call, path, x.mk("err", "fault", x.reg(n.ctx, call, "$")))
			c.fault(bad, n, what)
			return []*State{s, bad}
		}
		if key == "os.Exit" || strings.HasPrefix(key, "log.Fatal") {
			if key != "os.Exit" {
				s.cl["msg"] = "1"
				c.ends(s, n, "exits", true)
				return []*State{}
			}
			lo, hi := x.bounds(s, arg(0))
			ok := lo > 0 || hi < 0
			if s.cl["fault"] == "" && !ok {
				c.next(s, n, "the exit")
				c.left(s, n)
			}
			c.ends(s, n, "exits", ok)
			return []*State{}
		}
		if c.print(s, n, key, cc) {
			return []*State{s}
		}
		switch key {
		case "os.Open", "os.ReadFile", "os.OpenFile":
			if s.cl["pend"] != "" && c.pends[s.cl["pend"]].kind == "arg" && c.isWord(s, arg(0)) {
				if p := c.pends[s.cl["pend"]]; p.lo != 0 {
					c.r.fail("lost", "files "+root.name, x.g.where(n), "the files are taken from the arguments from %d on", p.lo)
				}
				c.take(s, n, arg(0), "opened")
			}
			if key == "os.OpenFile" {
				return nil
			}
			return fork("#1", "a spec that cannot be read")
		case modPath + ".ParseSpec":
			return fork("#1", "an invalid spec")
		case modPath + ".LoadSpec":
			return fork("#1", "an unknown language")
		case modPath + ".New":
			me := x.reg(n.ctx, call, "").String()
			delete(s.cl, "inst:"+me)
			s.cl["new:"+me] = "1"
			return nil
		case modPath + "/translit.Install":
			vs, ok := x.varargs(s, n.ctx, cc.Args[0])
			if ok && len(vs) == 0 || !ok {
				s.cl["inst"] = "*"
			}
			for _, v := range vs {
				s.cl["inst:"+unbox(v).String()] = "1"
			}
			return nil
		case modPath + ".Hangulizer.Hangulize", modPath + ".Hangulize":
			c.note("transcribing calls", a.p.instrPos(n.in))
			word := arg(len(cc.Args) - 1)
			if cc.IsInvoke() {
				recv := unbox(x.norm(s, x.eval(s, n.ctx, cc.Value)))
				if s.cl["inst"] == "" && s.cl["inst:"+recv.String()] == "" {
					any := false
					for k := range s.cl {
						any = any || strings.HasPrefix(k, "inst:")
					}
					if !any || s.cl["new:"+recv.String()] != "" {
						c.r.fail("install", root.name, x.g.where(n), "a word is transcribed without the standard translits on the path %s", s.trail())
					}
				}
			} else if s.cl["inst"] == "" {
				c.r.fail("install", root.name, x.g.where(n), "a word is transcribed without the standard translits on the path %s", s.trail())
			}
			if !c.cmd && inSpawnLoop(c, inLoop) {
				c.r.fail("order", root.name, x.g.where(n), "words are transcribed by goroutines of their own: their results come in any order")
			}
			mode := "print"
			if p, ok := c.pends[s.cl["pend"]]; ok && p.kind == "test" {
				mode = "test"
			}
			if s.cl["fault"] == "" {
				if s.cl["pend"] == "" {
					c.next(s, n, "the next one")
				}
				if s.cl["pend"] != "" && !c.isWord(s, word) {
					c.r.fail("lost", "other "+root.name, x.g.where(n), "another text than the word is transcribed (%s) on the path %s", word, s.trail())
				}
				if s.cl["pend"] != "" {
					c.take(s, n, word, "")
				}
				s.cl["res"] = mode
			}
			c.pends["result@"+itoa(n.id)] = pendSrc{kind: "result", ctx: n.ctx, v: call}
			if mode == "test" && s.cl["fault"] == "" {
				c.exampleParts(n, cc.Args[len(cc.Args)-1])
			}
			return fork("#1", "a word that cannot be transcribed")
		case cobraPkg + "Execute", cobraPkg + "ExecuteContext":
			return fork("", "a failed command")
		case cobraPkg + "OutOrStdout":
			x.set(s, n.ctx, call, "", x.mk("stdout", ""))
			return []*State{s}
		case cobraPkg + "OutOrStderr", cobraPkg + "ErrOrStderr":
			x.set(s, n.ctx, call, "", x.mk("stderr", ""))
			return []*State{s}
		case cobraPkg + "InOrStdin":
			x.set(s, n.ctx, call, "", x.mk("stdin", ""))
			return []*State{s}
		case "bufio.NewWriter", "bufio.NewWriterSize":
			x.set(s, n.ctx, call, "", x.mk("bufw", "", arg(0)))
			return []*State{s}
		case "bufio.NewScanner":
			x.set(s, n.ctx, call, "", x.mk("reader", "scan", unbox(arg(0))))
			return []*State{s}
		case "bufio.Scanner.Scan":
			if !c.stdin(arg(0)) {
				return nil
			}
			end := s.clone()
			x.set(s, n.ctx, call, "", x.tTrue)
			x.set(end, n.ctx, call, "", x.tFalse)
			c.source(s, n, pendSrc{kind: "scan", ctx: n.ctx, v: call})
			s.cl["scan"] = s.cl["pend"]
			s.cl["stdin"], end.cl["stdin"] = "more", "end"
			if end.cl["scanerr"] == "" {
				end.cl["scanerr"] = "unread"
			}
			return []*State{s, end}
		case "bufio.Scanner.Text", "bufio.Scanner.Bytes":
			if p, ok := c.pends[s.cl["scan"]]; ok && c.stdin(arg(0)) {
				x.set(s, n.ctx, call, "", x.mk("call bufio.Scanner.Text", "", x.reg(p.ctx, p.v, "#text")))
				return []*State{s}
			}
		case "bufio.Scanner.Err":
			s.cl["scanerr"] = "read"
			return nil
		case "bytes.TrimSpace":
			if s.cl["pend"] != "" && c.isWord(s, arg(0)) {
				x.set(s, n.ctx, call, "", x.mk("call bytes.TrimSpace", "", arg(0)))
				return []*State{s}
			}
		case "io.ReadAll", "ioutil.ReadAll", "io/ioutil.ReadAll", "fmt.Fscan", "fmt.Fscanln", "fmt.Scan", "fmt.Scanln", "io.Copy":
			for i := range cc.Args {
				if key == "fmt.Scan" || key == "fmt.Scanln" || c.stdin(arg(i)) {
					s.cl["other"] = "1"
				}
			}
		case "bufio.Reader.ReadString", "bufio.Reader.ReadBytes":
			if !c.stdin(arg(0)) {
				return nil
			}
			if d, ok := arg(1).isInt(); !ok || d != '\n' {
				c.r.fail("lost", "lines "+root.name, x.g.where(n), "the standard input is not read by lines")
			}
			end := s.clone()
			x.set(s, n.ctx, call, "#1", x.tNil)
			x.set(end, n.ctx, call, "#1", x.mk("load", "", x.mk("&g", "io.EOF")))
			for _, t := range []*State{s, end} {
				c.source(t, n, pendSrc{kind: "line", ctx: n.ctx, v: call, path: "#0"})
			}
			s.cl["stdin"], end.cl["stdin"] = "more", "end"
			return []*State{s, end}
		}
		return x.std(s, n)
	}
	x.end = func(s *State, n *GNode, panics bool) {
		if panics {
			return
		}
		ok := false
		if i := lastErr(root.fn.Signature); i == -1 && c.cmd {
			if t := x.result(s, 0, ""); t != nil && x.nonNil(s, t) {
				ok = true
			}
		}
		if s.cl["fault"] == "" && !ok {
			c.next(s, n, "the end")
			c.left(s, n)
		}
		if c.cmd {
			c.ends(s, n, "returns", ok)
		}
		if !c.cmd && s.cl["sends"] != "" || s.cl["closed"] == "" && !c.cmd && c.ranges && c.sends() {
			if s.cl["closed"] == "" && c.ranges {
				c.r.fail("channel", "open "+root.name, x.g.where(n), "the channel of words is not closed at the end: the command waits for ever (path %s)", s.trail())
			}
		}
	}
	x.run(nil)
	c.r.sim(x)
}

// argsTerm is argsBase for a term.
func (c *cli) argsTerm(t *Term) (int64, bool) {
	switch {
	case t == nil:
	case t.op == "slice" && len(t.args) >= 3:
		b, ok := c.argsTerm(t.args[0])
		if t.args[2].op != "none" {
			return 0, false
		}
		if t.args[1].op == "none" {
			return b, ok
		}
		k, isC := t.args[1].isInt()
		return b + k, ok && isC
	case t.op == "load" && len(t.args) == 1 && t.args[0].op == "reg":
		if fv, ok := t.args[0].v.(*ssa.FreeVar); ok {
			return c.argsCaptured(t.args[0].ctx, fv, 0)
		}
	case t.op == "reg" && t.v != nil:
		return c.argsBase(t.ctx, t.v, 0)
	}
	return 0, false
}

// argLoops tells whether the words of the arguments are taken here.
func (c *cli) argLoops() bool {
	for _, k := range c.a.ctxs {
		if k.root != c.root || isLibCtx(k) {
			continue
		}
		for _, d := range c.x.loopInfo.of(k.fn) {
			if d.kind != "count" {
				continue
			}
			if seq := seqOf(d.hi); seq != nil {
				if _, ok := c.argsBase(k, seq, 0); ok {
					return true
				}
			}
		}
	}
	return false
}

// sends tells whether the goroutine hands over words at all.
func (c *cli) sends() bool {
	for _, k := range c.a.ctxs {
		if k.root != c.root {
			continue
		}
		for _, b := range k.fn.Blocks {
			for _, in := range b.Instrs {
				if sd, ok := in.(*ssa.Send); ok && isStringT(sd.X.Type()) {
					return true
				}
			}
		}
	}
	return false
}

// left: something remains to be done at a normal end.
func (c *cli) left(s *State, n *GNode) {
	w := c.x.g.where(n)
	say := func(key, what string) {
		c.r.fail("lost", key+" "+c.root.name, w, "%s on the path %s", what, s.trail())
	}
	if s.cl["chan"] == "open" {
		say("channel", "the work ends before the last word has come")
	}
	if s.cl["stdin"] == "more" {
		say("stdin", "the work ends before the end of the standard input")
	}
	if s.cl["scanerr"] == "unread" {
		say("scan", "reading the standard input may stop at a line that is too long, unnoticed,")
	}
	if s.cl["argloop"] == "in" {
		say("args", "the work ends before the last argument")
	}
	if s.cl["testloop"] == "in" {
		say("tests", "the work ends before the last example")
	}
}

func (c *cli) stdin(t *Term) bool {
	for t != nil {
		t = unbox(t)
		if t.op == "stdin" || t.op == "load" && len(t.args) == 1 && t.args[0].s == "os.Stdin" {
			return true
		}
		if (t.op == "reader" || t.op == "iface") && len(t.args) >= 1 {
			t = t.args[len(t.args)-1]
			continue
		}
		return false
	}
	return false
}

func inSpawnLoop(c *cli, inLoop func(b *ssa.BasicBlock) bool) bool {
	for r := c.root; ; {
		pc, in := c.spawnSite(r)
		if in == nil {
			return false
		}
		if inLoop(in.Block()) {
			return true
		}
		r = pc.root
	}
}

// isTests tells whether a sequence is the examples of a spec.
func isTests(v ssa.Value) bool {
	sl, ok := v.Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	ar, ok := sl.Elem().Underlying().(*types.Array)
	if !ok || ar.Len() != 2 || !isStringT(ar.Elem()) {
		return false
	}
	return true
}

// exampleParts: an example's word is its first part.
func (c *cli) exampleParts(n *GNode, v ssa.Value) {
	ctx, v := c.a.resolve(n.ctx, v)
	_ = ctx
	var ix ssa.Value
	switch u := v.(type) {
	case *ssa.UnOp:
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			ix = ia.Index
		}
	case *ssa.Index:
		ix = u.Index
	}
	if ix != nil {
		if k, ok := constInt(ix); ok && k != 0 {
			c.r.fail("result", "part "+c.root.name, c.x.g.where(n), "what an example expects is transcribed instead of its word")
		}
	}
}

func init() {
	register("C13", func(e *Env, r *Report) {
		a := e.Cmds()
		r.rule("Every command that transcribes, every goroutine it starts and main are simulated on every path, with at most one failure. After a file that cannot be opened, an invalid spec, an unknown language, a word that cannot be transcribed, a failed comparison of an example or a failed command, every path must exit with another status than zero after a message, return an error to cobra, or panic.")
		r.rule("Every word received, every non-blank line read from the standard input (the last one too) and every non-empty argument from the second on is handed over or transcribed exactly once, unchanged but for space around it, before the next one comes; every result is printed exactly once, on a line of the standard output, before the next word. The input is read to its end; a channel of words is closed after the last one.")
		r.rule("A hangulizer transcribes only after translit.Install on it. Every example of a spec is transcribed and compared.")
		var roots []*Root
		hang := map[*Root]bool{}
		for _, c := range a.ctxs {
			if isLibCtx(c) {
				continue
			}
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						switch callKey(ci.Common()) {
						case modPath + ".Hangulizer.Hangulize", modPath + ".Hangulize", cobraPkg + "Execute", cobraPkg + "ExecuteContext":
							if c.root.fn.Pkg != nil && strings.HasSuffix(c.root.fn.Pkg.Pkg.Path(), "/cmd/hangulize") || c.root.fn.Parent() != nil {
								hang[c.root] = true
							}
						}
					}
				}
			}
		}
		// goroutines and their starters belong together
		for again := true; again; {
			again = false
			for k, si := range a.callees {
				for _, sp := range si.spawned {
					if hang[k.ctx.root] != hang[sp] {
						hang[k.ctx.root], hang[sp] = true, true
						again = true
					}
				}
			}
		}
		for h := range hang {
			if !h.init {
				roots = append(roots, h)
			}
		}
		sort.Slice(roots, func(i, j int) bool { return roots[i].ctx.id < roots[j].ctx.id })
		ranges := false
		for _, c := range a.ctxs {
			if !hang[c.root] || isLibCtx(c) {
				continue
			}
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && u.CommaOk {
						ranges = true
					}
				}
			}
		}
		counts := map[string]map[string]bool{}
		for _, root := range roots {
			c := &cli{a: a, r: r, root: root, cmd: root.spawn == nil, pends: map[string]pendSrc{}, counts: counts, ranges: ranges}
			r.sample("%s", root.name)
			c.run()
		}
		r.count("operations", len(roots))
		for _, k := range []string{"fallible calls", "transcribing calls", "word sources", "word hand-overs", "prints", "comparisons"} {
			r.count(k, len(counts[k]))
			for _, w := range sortedKeys(counts[k]) {
				r.sample("%s: %s", k, w)
			}
		}
		r.analysedBy(a, roots)
		r.need("operations", 3)
		r.need("fallible calls", 4)
		r.need("transcribing calls", 1)
	})
}
