package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: promises of the WebAssembly modules.

const jsPkg = "syscall/js."

// jsFunc is one creation of a JavaScript function from a Go one.
type jsFunc struct {
	id       string
	ctx      *Ctx
	call     *ssa.Call
	cbs      []*Root
	executor bool
	armed    map[string]bool // fulfil, reject
	escapes  bool
	made     bool // seen being created
	group    map[*jsFunc]bool
	live     map[*Root]string // roots that may end with it not released
	ended    map[*Root]int    // roots analysed, with the number of ends
	rel      bool             // some root releases it
}

type wasm struct {
	a     *PTA
	r     *Report
	o     *origins
	funcs map[siteKey]*jsFunc
	all   []*jsFunc
	// settle: roots that settle an executor's promise
	settles map[*jsFunc]map[*Root]bool
	unknown map[*jsFunc]bool // something unknown may settle or release
	notes   map[string]map[string]bool
	byRoot  map[*Root]*jsFunc
}

func (w *wasm) note(k, v string) {
	if w.notes[k] == nil {
		w.notes[k] = map[string]bool{}
	}
	w.notes[k][v] = true
}

// jsArg tells that a value is an argument JavaScript passed to a callback.
func (w *wasm) jsArg(og origin) (root *Root, idx int64, ok bool) {
	u, isU := og.v.(*ssa.UnOp)
	if !isU || u.Op != token.MUL {
		return nil, 0, false
	}
	ia, isIA := u.X.(*ssa.IndexAddr)
	if !isIA {
		return nil, 0, false
	}
	idx, isC := constInt(ia.Index)
	if !isC {
		return nil, 0, false
	}
	bs, known := w.o.of(og.ctx, ia.X)
	if !known || len(bs) != 1 {
		return nil, 0, false
	}
	if sl, isS := bs[0].v.(*ssa.Slice); isS && sl.Low != nil {
		k, isC := constInt(sl.Low)
		if !isC {
			return nil, 0, false
		}
		idx += k
		bs, known = w.o.of(bs[0].ctx, sl.X)
		if !known || len(bs) != 1 {
			return nil, 0, false
		}
	}
	p, isP := bs[0].v.(*ssa.Parameter)
	if !isP || bs[0].ctx.parent != nil || w.byRoot[bs[0].ctx.root] == nil {
		return nil, 0, false
	}
	return bs[0].ctx.root, idx, p == bs[0].ctx.fn.Params[len(bs[0].ctx.fn.Params)-1]
}

// funcsOf are the functions created for JavaScript a value may be.
func (w *wasm) funcsOf(ctx *Ctx, v ssa.Value) (out []*jsFunc, known bool) {
	os, known := w.o.of(ctx, v)
	for _, og := range os {
		call, ok := og.v.(*ssa.Call)
		if ok && callKey(&call.Call) == jsPkg+"FuncOf" {
			if f := w.funcs[siteKey{og.ctx, call}]; f != nil {
				out = append(out, f)
				continue
			}
		}
		// the Value of a Func
		if fl, ok := og.v.(*ssa.Field); ok && qualName(fl.X.Type()) == jsPkg+"Func" {
			fs, k := w.funcsOf(og.ctx, fl.X)
			out = append(out, fs...)
			known = known && k
			continue
		}
		if u, ok := og.v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && qualName(deref(fa.X.Type())) == jsPkg+"Func" {
				if cs, ok := w.o.stores(og.ctx, fa.X, nil); ok {
					for _, c := range cs {
						fs, k := w.funcsOf(c.ctx, c.v)
						out = append(out, fs...)
						known = known && k
					}
					continue
				}
			}
		}
		if c, ok := og.v.(*ssa.Const); ok && c.Value == nil {
			continue // not set yet
		}
		if q := qualName(og.v.Type()); q == jsPkg+"Func" || q == jsPkg+"Value" || types.IsInterface(og.v.Type()) {
			known = false
		}
	}
	return out, known
}

// global tells that a value is a member of the JavaScript global object.
func (w *wasm) global(ctx *Ctx, v ssa.Value) (string, bool) {
	os, known := w.o.of(ctx, v)
	if !known || len(os) != 1 {
		return "", false
	}
	call, ok := os[0].v.(*ssa.Call)
	if !ok {
		if u, isU := os[0].v.(*ssa.UnOp); isU && u.Op == token.MUL {
			if g, isG := u.X.(*ssa.Global); isG {
				return w.globalVar(g)
			}
		}
		return "", false
	}
	switch callKey(&call.Call) {
	case jsPkg + "Global":
		return "", true
	case jsPkg + "Value.Get":
		n, ok := w.global(os[0].ctx, call.Call.Args[0])
		if ok && n == "" {
			if s, isS := constString(call.Call.Args[1]); isS {
				return s, true
			}
		}
	}
	return "", false
}

// globalVar is a package variable initialised with a member of the global
// object.
func (w *wasm) globalVar(g *ssa.Global) (string, bool) {
	name, n := "", 0
	for _, c := range w.a.ctxs {
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				s, ok := w.global(c, st.Val)
				if !ok || n > 0 && s != name {
					return "", false
				}
				name = s
				n++
			}
		}
	}
	return name, n > 0
}

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return "", false
	}
	s := c.Value.ExactString()
	u, err := strconv.Unquote(s)
	return u, err == nil
}

// settled tells which promise a call settles and how.
func (w *wasm) settled(ctx *Ctx, cc *ssa.CallCommon) (f *jsFunc, resolve, unknown bool) {
	if callKey(cc) != jsPkg+"Value.Invoke" {
		return nil, false, false
	}
	os, known := w.o.of(ctx, cc.Args[0])
	if !known {
		return nil, false, true
	}
	n, other := 0, 0
	for _, og := range os {
		if r, i, ok := w.jsArg(og); ok {
			if g := w.byRoot[r]; g != nil && g.executor && i < 2 {
				f, resolve = g, i == 0
				n++
				continue
			}
			other++
			continue
		}
		if w.plain(og) {
			other++
			continue
		}
		unknown = true
	}
	if n == 0 {
		return nil, false, unknown
	}
	if n > 1 || other > 0 {
		return nil, false, true
	}
	return f, resolve, false
}

// plain tells values which are no resolving function.
func (w *wasm) plain(og origin) bool {
	switch v := og.v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Call:
		k := callKey(&v.Call)
		return strings.HasPrefix(k, jsPkg)
	case *ssa.UnOp:
		// a variable of the package or a field of a value kept there
		if v.Op == token.MUL {
			if _, ok := v.X.(*ssa.Global); ok {
				return true
			}
		}
	}
	return false
}

func (w *wasm) panics(g *Graph, ctx *Ctx, in ssa.CallInstruction) bool {
	cc := in.Common()
	key := callKey(cc)
	if strings.HasPrefix(key, jsPkg) {
		switch key {
		case jsPkg + "Value.Get", jsPkg + "Value.Set", jsPkg + "Value.Delete":
			_, ok := w.global(ctx, cc.Args[0])
			return !ok
		case jsPkg + "Value.New":
			n, ok := w.global(ctx, cc.Args[0])
			return !(ok && n != "")
		case jsPkg + "Value.Invoke":
			if f, _, unknown := w.settled(ctx, cc); f != nil || unknown {
				return false
			}
			return true
		case jsPkg + "Value.Call", jsPkg + "Value.Index", jsPkg + "Value.SetIndex", jsPkg + "Value.Length":
			return true
		}
		return false
	}
	return mayPanicDefault(g, ctx, in)
}

// chans are the channels a value may be.
func (w *wasm) chans(ctx *Ctx, v ssa.Value) ([]ssa.Value, bool) {
	os, known := w.o.of(ctx, v)
	var out []ssa.Value
	for _, og := range os {
		mk, ok := og.v.(*ssa.MakeChan)
		if !ok {
			return nil, false
		}
		out = append(out, mk)
	}
	return out, known
}

func (w *wasm) chanName(ctx *Ctx, v ssa.Value) string {
	cs, ok := w.chans(ctx, v)
	if !ok || len(cs) != 1 {
		return "?"
	}
	return fmt.Sprintf("%p", cs[0])
}

// handlers are the callbacks a call registers, by role.
func (w *wasm) handlers(ctx *Ctx, cc *ssa.CallCommon) (map[string][]*jsFunc, bool) {
	if callKey(cc) != jsPkg+"Value.Call" {
		return nil, false
	}
	name, ok := constString(cc.Args[1])
	if !ok || name != "then" && name != "catch" && name != "finally" {
		return nil, false
	}
	es, ok := w.o.elems(ctx, cc.Args[2])
	if !ok {
		return nil, true
	}
	roles := map[string][]string{"then": {"fulfil", "reject"}, "catch": {"reject"}, "finally": {"both"}}[name]
	out := map[string][]*jsFunc{}
	for i, e := range es {
		if i >= len(roles) {
			break
		}
		fs, _ := w.funcsOf(e.ctx, e.v)
		out[roles[i]] = append(out[roles[i]], fs...)
	}
	return out, true
}

func init() {
	register("C14", func(e *Env, r *Report) {
		r.rule("Every callback given to Promise settles it exactly once on every path, by itself or by one goroutine that does, also when loading or transcribing fails or a JavaScript function throws: with an error then, with the result of transcribing otherwise.")
		r.rule("Every function created for JavaScript while handling a call is released on every path, once it cannot be called any more: at the end of the function that waited for it, or by itself if it is called exactly once.")
		r.rule("Where Go waits for a promise both of its outcomes are handled; each handler sends exactly once on every path, to a channel that is waited for; a rejection becomes an error.")
		r.rule("No callback and no goroutine of a module can panic without recovering.")
		a := newPTA(e.Wasm())
		a.initRoots(nil)
		iface := a.p.typ("", "Translit")
		var methods []*Root
		for _, q := range a.p.Pkgs {
			if libPath(q.PkgPath) {
				continue
			}
			sp := a.p.byPth[q.PkgPath]
			if sp == nil {
				continue
			}
			if f := sp.Func("main"); f != nil {
				a.startRoot(a.newRoot("main "+q.PkgPath, f))
			}
			for _, n := range sortedMembers(sp) {
				t, ok := sp.Members[n].(*ssa.Type)
				if !ok || types.IsInterface(t.Type()) {
					continue
				}
				it := iface.Underlying().(*types.Interface)
				for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if !types.Implements(rt, it) {
						continue
					}
					for _, mn := range []string{"Transliterate", "Load"} {
						f := a.p.SSA.LookupMethod(rt, sp.Pkg, mn)
						if f == nil || f.Synthetic != "" || len(f.Blocks) == 0 {
							continue
						}
						root := a.newRoot("method "+fnName(f), f)
						a.startRoot(root)
						for _, p := range f.Params {
							a.envParam(root, p, p.Type(), "")
						}
						methods = append(methods, root)
					}
					break
				}
			}
		}
		a.solve()

		w := &wasm{a: a, r: r, funcs: map[siteKey]*jsFunc{}, settles: map[*jsFunc]map[*Root]bool{}, unknown: map[*jsFunc]bool{},
			notes: map[string]map[string]bool{}, byRoot: map[*Root]*jsFunc{}}
		w.o = a.newOrigins()
		for _, c := range a.ctxs {
			if isLibCtx(c) {
				continue
			}
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || callKey(&call.Call) != jsPkg+"FuncOf" {
						continue
					}
					f := &jsFunc{id: strconv.Itoa(len(w.all)), ctx: c, call: call, armed: map[string]bool{}, group: map[*jsFunc]bool{},
						live: map[*Root]string{}, ended: map[*Root]int{}}
					if si := a.callees[siteKey{c, call}]; si != nil {
						f.cbs = si.spawned
					}
					w.funcs[siteKey{c, call}] = f
					w.all = append(w.all, f)
					for _, cb := range f.cbs {
						w.byRoot[cb] = f
					}
					w.note("callbacks", a.p.instrPos(call))
				}
			}
		}
		w.scan()
		w.analyse(methods)
		for _, k := range []string{"callbacks", "executors", "settling calls", "handlers", "releases", "waits"} {
			r.count(k, len(w.notes[k]))
			for _, s := range sortedKeys(w.notes[k]) {
				r.sample("%s: %s", k, s)
			}
		}
		r.need("callbacks", 3)
	})
}

// scan finds what is done with the functions created for JavaScript.
func (w *wasm) scan() {
	for _, c := range w.a.ctxs {
		if isLibCtx(c) {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					cc := in.Common()
					key := callKey(cc)
					if _, ok := in.(*ssa.Go); ok && strings.HasPrefix(key, jsPkg) && w.panics(nil, c, in) {
						w.r.fail("crash", "go "+fnName(c.fn), w.a.p.instrPos(in), "a goroutine calls JavaScript, and nothing recovers if it throws")
					}
					switch key {
					case jsPkg + "Value.New":
						if n, ok := w.global(c, cc.Args[0]); ok && n == "Promise" {
							es, _ := w.o.elems(c, cc.Args[1])
							for _, e := range es {
								fs, _ := w.funcsOf(e.ctx, e.v)
								for _, f := range fs {
									f.executor = true
									w.note("executors", w.a.p.instrPos(f.call))
								}
							}
						}
					case jsPkg + "Value.Call":
						if hs, ok := w.handlers(c, cc); ok {
							for role, fs := range hs {
								for _, f := range fs {
									f.armed[role] = true
									w.note("handlers", role+" "+w.a.p.instrPos(f.call))
									for g := range w.groupIn(c) {
										f.group[g] = true
									}
								}
							}
						}
					case jsPkg + "Value.Set", jsPkg + "Value.SetIndex", jsPkg + "ValueOf":
						for _, arg := range cc.Args {
							if types.IsInterface(arg.Type()) {
								fs, _ := w.funcsOf(c, arg)
								for _, f := range fs {
									f.escapes = true
								}
							}
						}
					case jsPkg + "Func.Release":
						fs, known := w.funcsOf(c, cc.Args[0])
						for _, f := range fs {
							f.rel = true
						}
						if !known || len(fs) == 0 {
							for _, f := range w.all {
								if w.family(c.root) == w.family(f.ctx.root) {
									w.unknown[f] = true
								}
							}
						} else {
							w.note("releases", w.a.p.instrPos(in))
						}
					}
				case *ssa.Return:
					if c.parent != nil {
						continue
					}
					for _, v := range in.Results {
						fs, _ := w.funcsOf(c, v)
						for _, f := range fs {
							f.escapes = true
						}
					}
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok && !c.root.init {
						if q := qualName(g.Type().(*types.Pointer).Elem()); strings.HasPrefix(q, jsPkg) {
							fs, _ := w.funcsOf(c, in.Val)
							for _, f := range fs {
								f.escapes = true
							}
						}
					}
				case *ssa.MapUpdate:
					if strings.HasPrefix(qualName(in.Value.Type()), jsPkg) {
						fs, _ := w.funcsOf(c, in.Value)
						for _, f := range fs {
							f.escapes = true
						}
					}
				}
			}
		}
	}
	// who settles
	for _, c := range w.a.ctxs {
		if isLibCtx(c) {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f, _, unknown := w.settled(c, ci.Common())
				if f != nil {
					if w.settles[f] == nil {
						w.settles[f] = map[*Root]bool{}
					}
					w.settles[f][c.root] = true
					w.note("settling calls", w.a.p.instrPos(in))
				}
				if unknown && !throughLib(c) {
					if os.Getenv("HV_DEBUG") != "" {
						ss, k := w.o.of(c, ci.Common().Args[0])
						fmt.Fprintln(os.Stderr, "unknown settle", w.a.p.instrPos(in), k)
						for _, og := range ss {
							fmt.Fprintln(os.Stderr, "  ", og.ctx, og.v, og.v.Name())
						}
					}
					for _, g := range w.all {
						for _, cb := range g.cbs {
							if g.executor && w.under(c.root, cb) {
								w.unknown[g] = true
							}
						}
					}
				}
				// a resolving function passed on
				key := callKey(ci.Common())
				if strings.HasPrefix(key, jsPkg+"Value.") {
					args := ci.Common().Args[1:]
					for _, arg := range args {
						vs := []origin{{c, arg}}
						if _, ok := arg.Type().Underlying().(*types.Slice); ok {
							es, known := w.o.elems(c, arg)
							if !known {
								continue
							}
							vs = es
						}
						for _, v := range vs {
							os, _ := w.o.of(v.ctx, v.v)
							for _, og := range os {
								if r, i, ok := w.jsArg(og); ok && i < 2 {
									if g := w.byRoot[r]; g != nil && g.executor {
										w.unknown[g] = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// throughLib tells whether the library is between a function and its root. A
// value that comes from memory of the library is no resolving function.
func throughLib(c *Ctx) bool {
	for ; c != nil; c = c.parent {
		if isLibCtx(c) {
			return true
		}
	}
	return false
}

// family is the operation a root belongs to.
func (w *wasm) family(r *Root) *Root {
	for d := 0; d < 30; d++ {
		k, ok := w.o.sites[r]
		if !ok || k.ctx.root.init {
			break
		}
		r = k.ctx.root
	}
	return r
}

// under tells whether a root is another one or spawned by it.
func (w *wasm) under(r, top *Root) bool {
	for d := 0; d < 30; d++ {
		if r == top {
			return true
		}
		k, ok := w.o.sites[r]
		if !ok {
			break
		}
		r = k.ctx.root
	}
	return false
}

// groupIn are the handlers registered in one function.
func (w *wasm) groupIn(c *Ctx) map[*jsFunc]bool {
	out := map[*jsFunc]bool{}
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if hs, ok := w.handlers(c, &call.Call); ok {
					for _, fs := range hs {
						for _, f := range fs {
							out[f] = true
						}
					}
				}
			}
		}
	}
	return out
}

func (w *wasm) analyse(methods []*Root) {
	var roots []*Root
	seen := map[*Root]bool{}
	add := func(r *Root) {
		if !seen[r] && !r.init {
			seen[r] = true
			roots = append(roots, r)
		}
	}
	for _, m := range methods {
		add(m)
	}
	for _, f := range w.all {
		if !f.ctx.root.init {
			add(f.ctx.root)
		}
		for _, cb := range f.cbs {
			add(cb)
		}
	}
	for again := true; again; {
		again = false
		for k, si := range w.a.callees {
			if isLibCtx(k.ctx) || !seen[k.ctx.root] {
				continue
			}
			for _, sp := range si.spawned {
				if !seen[sp] {
					add(sp)
					again = true
				}
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].ctx.id < roots[j].ctx.id })
	isMethod := map[*Root]bool{}
	for _, m := range methods {
		isMethod[m] = true
	}
	w.a.panics = w.panics
	defer func() { w.a.panics = nil }()
	for _, root := range roots {
		if strings.HasPrefix(root.name, "main ") {
			continue
		}
		s := &wsim{wasm: w, root: root, method: isMethod[root]}
		s.run()
	}
	w.r.analysedBy(w.a, roots)

	// releases
	made := map[*ssa.Call]bool{}
	for _, f := range w.all {
		made[f.call] = made[f.call] || f.made
	}
	for _, f := range w.all {
		if f.ctx.root.init || f.escapes || w.unknown[f] || strings.HasPrefix(f.ctx.root.name, "main ") {
			continue
		}
		where := w.a.p.instrPos(f.call)
		key := fnName(f.ctx.fn)
		if !f.made && throughLib(f.ctx) && !made[f.call] {
			// created while the library calls back
			if f.executor || len(f.group) > 0 || len(f.armed) > 0 {
				w.r.Open = append(w.r.Open, "not judged: the function created in "+key+", which the library calls")
			} else if path := w.callback(f); path != "" {
				w.r.fail("leak", key, where, "the function created for JavaScript each time %s is called is not released on every path (%s)", key, path)
			}
			continue
		}
		all := func(r *Root) bool { return f.ended[r] > 0 && f.live[r] == "" }
		if all(f.ctx.root) {
			continue
		}
		ok := false
		if f.executor && len(f.cbs) > 0 {
			ok = true
			for _, cb := range f.cbs {
				if !all(cb) && !w.spawnedRelease(f, cb) {
					ok = false
				}
			}
		}
		if !ok && len(f.group) > 0 {
			ok = true
			for g := range f.group {
				for _, cb := range g.cbs {
					if !all(cb) {
						ok = false
					}
				}
			}
			// both outcomes must be handled
			both := map[string]bool{}
			for g := range f.group {
				for role := range g.armed {
					both[role] = true
				}
			}
			if !both["both"] && !(both["fulfil"] && both["reject"]) {
				ok = false
			}
		}
		if !ok && w.spawnedRelease(f, f.ctx.root) {
			ok = true
		}
		if !ok {
			path := f.live[f.ctx.root]
			w.r.fail("leak", key, where, "the function created for JavaScript in %s is not released on every path (%s)", key, path)
		}
	}
}

// callback gives a path through a function the library calls back on which a
// function created for JavaScript is not released.
func (w *wasm) callback(f *jsFunc) (leak string) {
	x := w.a.newSim(f.ctx.root)
	x.root = &Root{name: fnName(f.ctx.fn), fn: f.ctx.fn, ctx: f.ctx}
	x.maxInt = 8
	x.opaque = func(c *Ctx) bool { return c != f.ctx && (isLibCtx(c) || !w.a.simpleFn(c, 3)) }
	x.call = func(s *State, n *GNode) []*State {
		key, cc, call := x.key1(n)
		switch key {
		case jsPkg + "FuncOf":
			if call == f.call && n.ctx == f.ctx {
				s.cl["live"] = "1"
			}
		case jsPkg + "Func.Release":
			fs, _ := w.funcsOf(n.ctx, cc.Args[0])
			for _, g := range fs {
				if g == f {
					delete(s.cl, "live")
				}
			}
		}
		return x.std(s, n)
	}
	x.end = func(s *State, n *GNode, panics bool) {
		if s.cl["live"] != "" {
			leak = "path " + s.trail()
		}
	}
	x.run(nil)
	w.r.sim(x)
	return leak
}

// spawnedRelease tells whether a goroutine started on every path of a root
// releases a function on every path.
func (w *wasm) spawnedRelease(f *jsFunc, root *Root) bool {
	for k, si := range w.a.callees {
		if k.ctx.root != root {
			continue
		}
		if _, ok := k.in.(*ssa.Go); !ok {
			continue
		}
		for _, sp := range si.spawned {
			if f.ended[sp] > 0 && f.live[sp] == "" && w.releasesIn(f, sp) {
				return true
			}
		}
	}
	return false
}

func (w *wasm) releasesIn(f *jsFunc, root *Root) bool {
	for _, c := range w.a.ctxs {
		if c.root != root {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && callKey(ci.Common()) == jsPkg+"Func.Release" {
					fs, _ := w.funcsOf(c, ci.Common().Args[0])
					for _, g := range fs {
						if g == f {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

type wsim struct {
	*wasm
	root   *Root
	method bool
	x      *Sim
}

// duty is the promise a root has to settle: that of the executor it is or was
// started by.
func (s *wsim) duty() *jsFunc {
	if g := s.byRoot[s.root]; g != nil && g.executor {
		return g
	}
	for f, rs := range s.settles {
		if rs[s.root] && s.byRoot[s.root] == nil {
			return f
		}
	}
	return nil
}

func (s *wsim) delegates(f *jsFunc, ctx *Ctx, in ssa.Instruction) bool {
	si := s.a.callees[siteKey{ctx, in}]
	if si == nil {
		return false
	}
	for _, sp := range si.spawned {
		if s.settles[f][sp] {
			return true
		}
		// transitively
		for k, si2 := range s.a.callees {
			if k.ctx.root != sp {
				continue
			}
			for _, sp2 := range si2.spawned {
				if s.settles[f][sp2] {
					return true
				}
			}
		}
	}
	return false
}

func (s *wsim) run() {
	a, root, r := s.a, s.root, s.r
	x := a.newSim(root)
	s.x = x
	x.opaque = func(ctx *Ctx) bool { return ctx != root.ctx && isLibCtx(ctx) }
	x.opaquePanics = func(ctx *Ctx) bool {
		return ctx.fn.Name() == "Hangulize"
	}
	if s.byRoot[root] != nil {
		s.blocks()
	}
	x.track = func(o *Obj, path string, t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			return true
		case *types.Basic:
			return u.Info()&(types.IsBoolean|types.IsString|types.IsInteger) != 0
		}
		return false
	}
	x.keep = func(k ekey) bool { return false }
	duty := s.duty()
	x.onPanic = func(st *State, n *GNode) { st.cl["panic"] = "1" }
	x.edge_ = func(st *State, from, to *GNode) bool {
		ends := from.kind == kDeferRet || from.kind == kMid && from.in == nil
		if to.kind == kPExit && st.cl["panic"] == "" {
			return false
		}
		if ends && from.ctx == to.ctx && st.cl["panic"] != "" {
			if to.kind == kExit {
				return false
			}
			if to.kind == kInstr && from.ctx.fn.Recover != nil && to.in == from.ctx.fn.Recover.Instrs[0] {
				return false
			}
		}
		return true
	}
	settle := func(st *State, n *GNode, f *jsFunc, resolve bool, cc *ssa.CallCommon) {
		if f != duty {
			if duty == nil && s.byRoot[root] == nil {
				return
			}
		}
		if st.cl["set"] != "" {
			r.fail("twice", "settle "+root.name, x.g.where(n), "the promise is settled a second time on the path %s", st.trail())
			return
		}
		st.cl["set"] = "1"
		if unk := s.unknown[f]; unk {
			return
		}
		if resolve && st.cl["fault"] != "" {
			r.fail("fault", "resolve "+root.name, x.g.where(n), "the promise is resolved although %s, on the path %s", st.cl["fault"], st.trail())
		}
		if !resolve && st.cl["fault"] == "" {
			r.fail("fault", "reject "+root.name, x.g.where(n), "the promise is rejected although nothing failed, on the path %s", st.trail())
		}
		vs, ok := x.varargs(st, n.ctx, cc.Args[1])
		if !ok {
			return
		}
		if len(vs) == 0 {
			r.fail("value", "none "+root.name, x.g.where(n), "the promise is settled without a value")
			return
		}
		if resolve {
			t := x.norm(st, unbox(vs[0]))
			if t.op == "c" || t.op == "nil" {
				r.fail("value", "const "+root.name, x.g.where(n), "the promise is resolved with %s instead of the result, on the path %s", t, st.trail())
			}
			if es, ok := s.o.elems(n.ctx, cc.Args[1]); ok && st.cl["result"] != "" {
				if os, ok := s.o.of(es[0].ctx, es[0].v); ok && len(os) == 1 {
					if c, ok := os[0].v.(*ssa.Call); ok && callKey(&c.Call) == jsPkg+"Value.String" {
						r.fail("value", "input "+root.name, x.g.where(n), "the promise is resolved with an argument of the call instead of the result, on the path %s", st.trail())
					}
				}
			}
			if id := st.cl["result"]; id != "" && t.op == "reg" {
				if call, isCall := t.v.(*ssa.Call); isCall && fmt.Sprintf("%p", call) != id && s.isHang(call) {
					r.fail("value", "other "+root.name, x.g.where(n), "the promise is resolved with another result")
				}
			}
		} else if t := x.norm(st, unbox(vs[0])); t.op == "nil" {
			r.fail("value", "nil "+root.name, x.g.where(n), "the promise is rejected with nothing")
		}
	}
	x.instr = func(st *State, n *GNode) []*State {
		if n.kind == kInstr {
			switch in := n.in.(type) {
			case *ssa.Defer:
				return nil
			case *ssa.Go:
				if duty != nil && s.delegates(duty, n.ctx, in) {
					if st.cl["set"] != "" {
						r.fail("twice", "go "+root.name, x.g.where(n), "a goroutine settles the promise again, on the path %s", st.trail())
					}
					st.cl["set"] = "1"
				}
				return nil
			case *ssa.Send:
				s.send(st, n, s.chanName(n.ctx, in.Chan))
				return nil
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					s.receive(st, n, []string{s.chanName(n.ctx, in.X)}, true)
					s.received(st, s.chanName(n.ctx, in.X))
				}
				return nil
			case *ssa.Select:
				var names []string
				for _, c := range in.States {
					if c.Dir == types.RecvOnly {
						names = append(names, s.chanName(n.ctx, c.Chan))
					}
				}
				if in.Blocking {
					s.receive(st, n, names, true)
				}
				var out []*State
				for i, c := range in.States {
					u := st.clone()
					x.define(u, n.ctx, in)
					x.set(u, n.ctx, in, "#0", x.cInt(int64(i)))
					if c.Dir == types.RecvOnly {
						s.received(u, s.chanName(n.ctx, c.Chan))
					} else {
						s.send(u, n, s.chanName(n.ctx, c.Chan))
					}
					out = append(out, u)
				}
				if !in.Blocking {
					x.define(st, n.ctx, in)
					x.set(st, n.ctx, in, "#0", x.cInt(-1))
					out = append(out, st)
				}
				return out
			}
		}
		cc := n.call()
		if cc == nil {
			return nil
		}
		key := callKey(cc)
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "close" {
			if s.byRoot[root] != nil {
				s.send(st, n, s.chanName(n.ctx, cc.Args[0]))
			}
		}
		if cc.IsInvoke() && !isLibCtx(n.ctx) {
			s.missing(st, n, cc)
		}
		switch key {
		case jsPkg + "FuncOf":
			if f := s.funcs[siteKey{n.ctx, n.in}]; f != nil {
				f.made = true
				st.cl["f"+f.id] = "live"
			}
		case jsPkg + "Func.Release":
			fs, known := s.funcsOf(n.ctx, cc.Args[0])
			if !known || len(fs) != 1 {
				return nil
			}
			f := fs[0]
			if st.cl["f"+f.id] == "armed" && st.cl["wait"] == "" && st.cl["panic"] == "" && f.ctx.root == root && !s.unknown[f] {
				r.fail("early", fnName(n.ctx.fn), x.g.where(n), "a function a promise may still call is released, on the path %s", st.trail())
			}
			st.cl["f"+f.id] = "rel"
		case jsPkg + "Value.Get", jsPkg + "Value.Set", jsPkg + "Value.Index", jsPkg + "Value.SetIndex", jsPkg + "Value.Delete", jsPkg + "Value.Length":
			// a throwing accessor cannot be recovered from
			os, known := s.o.of(n.ctx, cc.Args[0])
			foreign := known && len(os) > 0
			for _, og := range os {
				_, _, isArg := s.jsArg(og)
				if c, ok := og.v.(*ssa.Call); ok && callKey(&c.Call) == jsPkg+"Value.Invoke" {
					isArg = true
				}
				if !isArg {
					foreign = false
				}
			}
			if foreign {
				r.fail("crash", "accessor "+fnName(n.ctx.fn), x.g.where(n), "a property of a value given by JavaScript is accessed with %s, which ends the program if the accessor throws", key[len(jsPkg):])
			}
		case jsPkg + "Value.Invoke":
			if f, resolve, _ := s.settled(n.ctx, cc); f != nil {
				settle(st, n, f, resolve, cc)
			}
		}
		if strings.HasPrefix(key, jsPkg+"Value.") {
			for _, arg := range cc.Args[1:] {
				if _, ok := arg.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				es, _ := s.o.elems(n.ctx, arg)
				for _, e := range es {
					fs, known := s.funcsOf(e.ctx, e.v)
					if known && len(fs) == 1 && st.cl["f"+fs[0].id] == "rel" && fs[0].ctx.root == root {
						r.fail("early", "use "+fnName(n.ctx.fn), x.g.where(n), "a released function is passed to JavaScript, on the path %s", st.trail())
					}
				}
			}
		}
		return nil
	}
	x.call = func(st *State, n *GNode) []*State {
		ci, ok := n.in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		cc := ci.Common()
		key := callKey(cc)
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
			v, isV := n.in.(*ssa.Call)
			if !isV {
				st.cl["panic"] = ""
				return nil
			}
			t := x.reg(n.ctx, v, "")
			if st.cl["panic"] != "" {
				st.cl["panic"] = ""
				st.cl["fault"] = "a JavaScript function threw"
				x.setNe(st, t, x.tNil)
			} else {
				x.setEq(st, t, x.tNil)
			}
			return []*State{st}
		}
		if hs, ok := s.handlers(n.ctx, cc); ok {
			for _, fs := range hs {
				for _, f := range fs {
					if st.cl["f"+f.id] == "live" {
						st.cl["f"+f.id] = "armed"
					}
				}
			}
			for role, fs := range hs {
				for _, f := range fs {
					st.cl["role"+role] = addID(st.cl["role"+role], f.id)
				}
			}
		}
		if key == "sync.WaitGroup.Wait" || key == "sync.Cond.Wait" {
			st.cl["wait"] = "1"
		}
		switch key {
		case modPath + ".LoadSpec", modPath + ".ParseSpec", modPath + ".Hangulizer.Hangulize", modPath + ".Hangulize":
			v, isV := n.in.(*ssa.Call)
			if !isV || v.Call.Signature().Results().Len() != 2 {
				return nil
			}
			s.inputs(n, key, cc)
			good, bad := st, st.clone()
			e := x.reg(n.ctx, v, "#1")
			x.setEq(good, e, x.tNil)
			if s.isHang(v) {
				good.cl["result"] = fmt.Sprintf("%p", v)
			}
			x.setNe(bad, e, x.tNil)
			if bad.cl["fault"] == "" {
				bad.cl["fault"] = key[len(modPath)+1:] + " failed"
			}
			return []*State{good, bad}
		}
		return x.std(st, n)
	}
	x.end = func(st *State, n *GNode, panics bool) {
		cb := s.byRoot[root]
		if panics && (cb != nil || root.spawn != nil) {
			r.fail("crash", root.name, a.p.pos(root.fn.Pos()), "a JavaScript function that throws ends the program: nothing recovers from it in %s, on the path %s", fnName(root.fn), st.trail())
		}
		if duty != nil && !s.unknown[duty] && !panics {
			if st.cl["set"] == "" {
				r.fail("never", root.name, a.p.instrPos(duty.call), "the promise is never settled on the path %s", st.trail())
			}
		}
		for _, f := range s.all {
			own := f.ctx.root == root
			state := st.cl["f"+f.id]
			f.ended[root]++
			if own && (state == "live" || state == "armed") || !own && state == "" {
				f.live[root] = "path " + st.trail()
			}
		}
		if cb != nil && !panics {
			s.sentOnce(st, cb)
		}
		if s.method && !panics && st.cl["got"] != "" {
			s.outcome(st)
		}
	}
	x.run(nil)
}

// blocks: a callback must not wait for what only other callbacks can bring.
func (s *wsim) blocks() {
	for _, c := range s.a.ctxs {
		if c.root != s.root || isLibCtx(c) {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				wait := false
				switch in := in.(type) {
				case *ssa.Select:
					wait = in.Blocking
				case *ssa.UnOp:
					wait = in.Op == token.ARROW
				}
				if !wait {
					continue
				}
				for _, f := range s.all {
					if f.ctx == c && len(f.armed) > 0 {
						s.r.fail("block", s.root.name, s.a.p.instrPos(in), "the callback %s waits for a promise, which cannot settle before the callback returns (%s)", fnName(s.root.fn), c)
						break
					}
				}
			}
		}
	}
}

func addID(l, id string) string {
	for _, x := range strings.Fields(l) {
		if x == id {
			return l
		}
	}
	f := append(strings.Fields(l), id)
	sort.Strings(f)
	return strings.Join(f, " ")
}

func (s *wsim) isHang(c *ssa.Call) bool {
	k := callKey(&c.Call)
	return k == modPath+".Hangulizer.Hangulize" || k == modPath+".Hangulize"
}

// inputs: the language is the first argument of the call, the word the second.
func (s *wsim) inputs(n *GNode, key string, cc *ssa.CallCommon) {
	check := func(v ssa.Value, want int64, what string) {
		os, known := s.o.of(n.ctx, v)
		if !known || len(os) != 1 {
			return
		}
		call, ok := os[0].v.(*ssa.Call)
		if !ok || callKey(&call.Call) != jsPkg+"Value.String" {
			return
		}
		bs, known := s.o.of(os[0].ctx, call.Call.Args[0])
		if !known || len(bs) != 1 {
			return
		}
		if _, i, ok := s.jsArg(bs[0]); ok && i != want {
			s.r.fail("inputs", what, s.x.g.where(n), "the %s is taken from argument %d of the call", what, i)
		}
	}
	switch key {
	case modPath + ".LoadSpec":
		check(cc.Args[0], 0, "language")
	case modPath + ".Hangulizer.Hangulize":
		check(cc.Args[len(cc.Args)-1], 1, "word")
	case modPath + ".Hangulize":
		check(cc.Args[0], 0, "language")
		check(cc.Args[1], 1, "word")
	}
}

// missing: a method of what a map does not have.
func (s *wsim) missing(st *State, n *GNode, cc *ssa.CallCommon) {
	if s.byRoot[s.root] == nil && s.root.spawn == nil {
		return
	}
	v := cc.Value
	if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
		if l, ok := e.Tuple.(*ssa.Lookup); ok {
			if f := s.x.norm(st, s.x.reg(n.ctx, l, "#1")); f != s.x.tTrue && !s.x.nonNil(st, s.x.reg(n.ctx, l, "#0")) {
				s.r.fail("crash", "lookup "+fnName(n.ctx.fn), s.x.g.where(n), "a method of a value a map may not have is called, which ends the program, on the path %s", st.trail())
			}
		}
	}
	if l, ok := v.(*ssa.Lookup); ok && !l.CommaOk {
		if !s.x.nonNil(st, s.x.reg(n.ctx, l, "")) {
			s.r.fail("crash", "lookup "+fnName(n.ctx.fn), s.x.g.where(n), "a method of a value a map may not have is called, which ends the program, on the path %s", st.trail())
		}
	}
}

// send: a handler tells its outcome.
func (s *wsim) send(st *State, n *GNode, ch string) {
	cb := s.byRoot[s.root]
	if cb == nil || len(cb.armed) == 0 {
		return
	}
	if st.cl["sent"] != "" && ch == st.cl["sent"] {
		s.r.fail("handler", "twice "+s.root.name, s.x.g.where(n), "a handler of a promise sends twice on the path %s", st.trail())
	}
	st.cl["sent"] = ch
}

func (s *wsim) sentOnce(st *State, cb *jsFunc) {
	if len(cb.armed) == 0 || !s.waited(cb) || s.unknown[cb] {
		return
	}
	if st.cl["sent"] == "" {
		s.r.fail("handler", "none "+s.root.name, s.a.p.instrPos(cb.call), "a handler of a promise tells nothing to the goroutine waiting for it, on the path %s", st.trail())
	}
}

// waited tells whether the goroutine that registered a handler waits.
func (s *wsim) waited(cb *jsFunc) bool {
	for _, c := range s.a.ctxs {
		if c.root != cb.ctx.root || isLibCtx(c) {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Select:
					return true
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						return true
					}
				}
			}
		}
	}
	return false
}

// chansOf are the channels a handler sends to.
func (s *wsim) chansOf(f *jsFunc) (map[string]bool, bool) {
	out := map[string]bool{}
	for _, cb := range f.cbs {
		for _, c := range s.a.ctxs {
			if c.root != cb {
				continue
			}
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					var ch ssa.Value
					switch in := in.(type) {
					case *ssa.Send:
						ch = in.Chan
					case *ssa.Go:
						return nil, false
					case ssa.CallInstruction:
						if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
							ch = in.Common().Args[0]
						}
					case *ssa.Select:
						return nil, false
					}
					if ch == nil {
						continue
					}
					n := s.chanName(c, ch)
					if n == "?" {
						return nil, false
					}
					out[n] = true
				}
			}
		}
	}
	return out, true
}

func (s *wsim) fn(id string) *jsFunc {
	i, _ := strconv.Atoi(id)
	return s.all[i]
}

// receive: waiting for handlers.
func (s *wsim) receive(st *State, n *GNode, chans []string, blocking bool) {
	defer func() { st.cl["wait"] = "1" }()
	if st.cl["wait"] != "" {
		return
	}
	armed := map[string]bool{}
	var fs []*jsFunc
	for _, role := range []string{"fulfil", "reject", "both"} {
		for _, id := range strings.Fields(st.cl["role"+role]) {
			armed[role] = true
			fs = append(fs, s.fn(id))
		}
	}
	if len(fs) == 0 {
		return
	}
	s.note("waits", s.x.g.where(n))
	for _, c := range chans {
		if c == "?" {
			return
		}
	}
	if !armed["both"] && !(armed["fulfil"] && armed["reject"]) {
		miss := "rejected"
		if !armed["fulfil"] {
			miss = "fulfilled"
		}
		s.r.fail("wait", "outcome "+fnName(n.ctx.fn), s.x.g.where(n), "a promise is waited for, but nothing handles that it is %s", miss)
	}
	for _, f := range fs {
		cs, ok := s.chansOf(f)
		if !ok || s.unknown[f] {
			continue
		}
		hit := len(cs) == 0
		for c := range cs {
			for _, d := range chans {
				if c == d {
					hit = true
				}
			}
		}
		if !hit {
			s.r.fail("wait", "channel "+fnName(n.ctx.fn), s.x.g.where(n), "nothing receives what the handler created at %s sends while the promise is waited for", s.a.p.instrPos(f.call))
		}
	}
}

// received: which handler was called.
func (s *wsim) received(st *State, ch string) {
	if st.cl["got"] != "" || ch == "?" {
		return
	}
	got := map[string]bool{}
	for _, role := range []string{"fulfil", "reject"} {
		for _, id := range strings.Fields(st.cl["role"+role]) {
			cs, ok := s.chansOf(s.fn(id))
			if !ok {
				return
			}
			if cs[ch] {
				got[role] = true
			}
		}
	}
	if len(got) == 1 {
		for k := range got {
			st.cl["got"] = k
		}
	}
}

// outcome: what a translit answers after its promise settled.
func (s *wsim) outcome(st *State) {
	sig := s.root.fn.Signature.Results()
	if sig.Len() != 2 {
		return
	}
	e := s.x.result(st, 1, "")
	v := s.x.result(st, 0, "")
	if e == nil || v == nil {
		return
	}
	e = s.x.norm(st, e)
	switch st.cl["got"] {
	case "reject":
		if e.op == "nil" {
			s.r.fail("outcome", "reject "+s.root.name, s.a.p.pos(s.root.fn.Pos()), "a rejected promise is no error, on the path %s", st.trail())
		}
	case "fulfil":
		if s.x.nonNil(st, e) {
			s.r.fail("outcome", "fulfil "+s.root.name, s.a.p.pos(s.root.fn.Pos()), "a fulfilled promise is an error, on the path %s", st.trail())
		}
		if v.isConst() {
			s.r.fail("outcome", "value "+s.root.name, s.a.p.pos(s.root.fn.Pos()), "the value of a fulfilled promise is lost, on the path %s", st.trail())
		}
	}
}
