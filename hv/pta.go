package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Contexts: every call site clones its callee (full call strings); recursion
// merges into the ancestor.

type childKey struct {
	site ssa.Instruction
	fn   *ssa.Function
}

type Ctx struct {
	id       int
	fn       *ssa.Function
	parent   *Ctx
	site     ssa.Instruction
	root     *Root
	depth    int
	children map[childKey]*Ctx
	dead     map[*ssa.BasicBlock]bool
	done     bool
}

type Root struct {
	name  string
	fn    *ssa.Function
	ctx   *Ctx
	init  bool
	api   bool // an exported operation (as opposed to init, goroutines)
	spawn ssa.Instruction
	conc  bool // may run concurrently with the others
}

func (c *Ctx) String() string {
	if c == nil {
		return ""
	}
	s := fnName(c.fn)
	if c.parent != nil {
		return c.parent.String() + " > " + s
	}
	return s
}

type ObjKind int

const (
	oAlloc ObjKind = iota
	oGlobal
	oFunc
	oClosure
	oBox
	oExt
)

// Obj is an abstract object.
type Obj struct {
	id     int
	kind   ObjKind
	site   ssa.Value
	ctx    *Ctx
	typ    types.Type // type of the object's contents
	fn     *ssa.Function
	tag    string
	shared bool // may be reached by more than one concurrent call
	init   bool // allocated while initialising packages
	twin   *Obj // the shared view of a published object
	orig   *Obj // of a twin: the object itself
	depth  int
	user   bool // stands for user-supplied values
	cells  map[string]*Node
}

func (o *Obj) String() string {
	switch o.kind {
	case oGlobal:
		return "variable " + strings.TrimPrefix(o.tag, modPath+".")
	case oFunc:
		return "func " + fnName(o.fn)
	case oClosure:
		return "closure " + fnName(o.fn)
	}
	t := ""
	if o.typ != nil {
		t = types.TypeString(o.typ, func(p *types.Package) string { return p.Name() })
	}
	if o.kind == oExt {
		return "external " + t
	}
	in := ""
	if o.ctx != nil {
		in = " made in " + fnName(o.ctx.fn)
	}
	return t + in
}

// Elem is a location an address may have, or a function, or (with t set) what
// an interface value may hold.
type Elem struct {
	o    *Obj
	path string
	t    types.Type
}

type Node struct {
	elems    map[Elem]struct{}
	order    []Elem
	copies   []edge
	handlers []func(Elem)
	copySet  map[edgeKey]bool
}

type edge struct {
	to   *Node
	pub  bool
	back bool // from the shared view to the object itself
}
type edgeKey struct {
	to  *Node
	pub bool
}

type regKey struct {
	ctx  *Ctx
	v    ssa.Value
	path string
}

type PTA struct {
	panics    func(g *Graph, ctx *Ctx, in ssa.CallInstruction) bool // for graphs
	globReach map[*Obj]bool
	fold      *folder
	p         *Prog
	roots     []*Root
	ctxs      []*Ctx
	objs      []*Obj
	regs      map[regKey]*Node
	globals   map[*ssa.Global]*Obj
	funcs     map[*ssa.Function]*Obj
	allocs    map[string]*Obj
	work      []workItem
	// call graph: (ctx, site) -> internal callees / external flag
	callees map[siteKey]*SiteInfo
	curInit bool
	env     []envElem
	envSubs []envSub
	typeIDs map[string]int
	pubs    map[pubKey]bool
	pubAt   []pubSite
}

type pubSite struct {
	ctx *Ctx
	in  ssa.Instruction
}
type pubKey struct {
	o *Obj
}

type envElem struct {
	e Elem
	t types.Type
}
type envSub struct {
	n *Node
	t types.Type
}

type workItem struct {
	n *Node
	e Elem
}

type siteKey struct {
	ctx *Ctx
	in  ssa.Instruction
}

// SiteInfo is what a call site in a context resolves to.
type SiteInfo struct {
	internal  []*Ctx
	callbacks []*Ctx // called synchronously by an external callee, zero or more times
	once      []*Ctx // called at most once, guarded by a once-object
	external  bool   // an external function may be called
	user      bool   // user-supplied code may be called
	spawned   []*Root
	unknown   bool
}

func newPTA(p *Prog) *PTA {
	return &PTA{p: p, regs: map[regKey]*Node{}, globals: map[*ssa.Global]*Obj{}, funcs: map[*ssa.Function]*Obj{},
		allocs: map[string]*Obj{}, callees: map[siteKey]*SiteInfo{}, typeIDs: map[string]int{}}
}

func (a *PTA) site(ctx *Ctx, in ssa.Instruction) *SiteInfo {
	k := siteKey{ctx, in}
	s := a.callees[k]
	if s == nil {
		s = &SiteInfo{}
		a.callees[k] = s
	}
	return s
}

// ---------------------------------------------------------------------------
// leaf paths

func pointerish(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

type leaf struct {
	path string
	t    types.Type
}

// leaves lists the scalar parts of a type; with all, also non-pointers.
func leaves(t types.Type, all bool) []leaf {
	var out []leaf
	var walk func(t types.Type, path string, d int)
	walk = func(t types.Type, path string, d int) {
		if t == nil {
			return
		}
		if tp, ok := t.(*types.Tuple); ok {
			for i := 0; i < tp.Len(); i++ {
				walk(tp.At(i).Type(), path+"#"+strconv.Itoa(i), d)
			}
			return
		}
		if extType(t) {
			if _, isStruct := t.Underlying().(*types.Struct); isStruct {
				out = append(out, leaf{path, t})
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), path+"."+u.Field(i).Name(), d+1)
			}
		case *types.Array:
			walk(u.Elem(), path+"[]", d+1)
		default:
			if all || pointerish(t) {
				out = append(out, leaf{path, t})
			}
		}
	}
	walk(t, "", 0)
	return out
}

// fieldPath is the path of a field; fields of opaque external structs collapse.
func fieldPath(t types.Type, i int) string {
	if extType(t) {
		return ""
	}
	return "." + t.Underlying().(*types.Struct).Field(i).Name()
}

// ---------------------------------------------------------------------------
// nodes

func newNode() *Node {
	return &Node{elems: map[Elem]struct{}{}, copySet: map[edgeKey]bool{}}
}

func (a *PTA) reg(ctx *Ctx, v ssa.Value, path string) *Node {
	switch v.(type) {
	case *ssa.Global, *ssa.Function, *ssa.Const, *ssa.Builtin:
		ctx = nil
	}
	k := regKey{ctx, v, path}
	n := a.regs[k]
	if n == nil {
		n = newNode()
		a.regs[k] = n
		if path == "" {
			switch v := v.(type) {
			case *ssa.Global:
				a.add(n, Elem{o: a.global(v)})
			case *ssa.Function:
				a.add(n, Elem{o: a.funcObj(v)})
			}
		}
	}
	return n
}

func (a *PTA) newObj(k ObjKind, t types.Type) *Obj {
	o := &Obj{id: len(a.objs), kind: k, typ: t, cells: map[string]*Node{}}
	a.objs = append(a.objs, o)
	return o
}

func (a *PTA) global(g *ssa.Global) *Obj {
	o := a.globals[g]
	if o == nil {
		o = a.newObj(oGlobal, deref(g.Type()))
		o.shared, o.init = true, true
		o.tag = g.String()
		o.site = g
		a.globals[g] = o
		if g.Pkg != nil && !isRepoPath(g.Pkg.Pkg.Path()) {
			o.kind = oExt // content of external variables is opaque
			o.shared = true
		}
	}
	return o
}

func (a *PTA) funcObj(f *ssa.Function) *Obj {
	o := a.funcs[f]
	if o == nil {
		o = a.newObj(oFunc, f.Type())
		o.fn = f
		o.shared = true
		a.funcs[f] = o
	}
	return o
}

func (a *PTA) alloc(ctx *Ctx, v ssa.Value, kind ObjKind, t types.Type, tag string) *Obj {
	key := fmt.Sprintf("%d/%p/%s", ctx.id, v, tag)
	o := a.allocs[key]
	if o == nil {
		o = a.newObj(kind, t)
		o.site, o.ctx, o.tag = v, ctx, tag
		if ctx.root.init {
			o.shared, o.init = true, true
		}
		a.allocs[key] = o
	}
	return o
}

// typeAt is the type at a path inside t, or nil.
func typeAt(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		if extType(t) {
			if _, ok := t.Underlying().(*types.Struct); ok {
				return nil
			}
		}
		switch {
		case strings.HasPrefix(path, "[]"):
			path = path[2:]
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			default:
				return nil
			}
		case strings.HasPrefix(path, "{k}"):
			path = path[3:]
			if u, ok := t.Underlying().(*types.Map); ok {
				t = u.Key()
			} else {
				return nil
			}
		case strings.HasPrefix(path, "{v}"):
			path = path[3:]
			if u, ok := t.Underlying().(*types.Map); ok {
				t = u.Elem()
			} else {
				return nil
			}
		case strings.HasPrefix(path, "<-"):
			path = path[2:]
			if u, ok := t.Underlying().(*types.Chan); ok {
				t = u.Elem()
			} else {
				return nil
			}
		case path[0] == '.':
			end := 1
			for end < len(path) && path[end] != '.' && path[end] != '[' && path[end] != '{' && path[end] != '<' {
				end++
			}
			name := path[1:end]
			path = path[end:]
			u, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			t = nil
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					t = u.Field(i).Type()
				}
			}
		default:
			return nil
		}
	}
	return t
}

func (a *PTA) cell(o *Obj, path string) *Node {
	n := o.cells[path]
	if n != nil {
		return n
	}
	n = newNode()
	o.cells[path] = n
	if o.kind == oExt && o.typ != nil {
		if t := typeAt(o.typ, path); t != nil && pointerish(t) {
			a.add(n, a.extChild(o, path, t))
		}
	}
	if o.twin != nil {
		a.linkTwin(o, path)
	}
	if o.orig != nil {
		a.cell(o.orig, path)
		a.linkTwin(o.orig, path)
	}
	return n
}

func (a *PTA) extChild(o *Obj, path string, t types.Type) Elem {
	if o.depth >= 4 {
		return Elem{o: o, path: ""}
	}
	return a.extValue(o.ctx, o.site, fmt.Sprintf("ext%d%s", o.id, path), t, o)
}

// extValue makes an opaque value of a pointer-like type.
func (a *PTA) extValue(ctx *Ctx, site ssa.Value, tag string, t types.Type, parent *Obj) Elem {
	key := fmt.Sprintf("%p/%p/%s", ctx, site, tag)
	o := a.allocs[key]
	if o == nil {
		var ct types.Type
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			ct = u.Elem()
		default:
			ct = t
		}
		o = a.newObj(oExt, ct)
		o.ctx, o.site, o.tag = ctx, site, tag
		if parent != nil {
			o.shared, o.init, o.depth, o.user = parent.shared, parent.init, parent.depth+1, parent.user
		} else if ctx != nil && ctx.root.init {
			o.shared, o.init = true, true
		}
		a.allocs[key] = o
	}
	e := Elem{o: o}
	if types.IsInterface(t) {
		e.t = t
	}
	return e
}

func (a *PTA) linkTwin(o *Obj, path string) {
	c := o.cells[path]
	s := o.twin.cells[path]
	if s == nil {
		s = newNode()
		o.twin.cells[path] = s
	}
	a.copyTo(c, s, true)
	k := edgeKey{c, false}
	if s.copySet[k] {
		return
	}
	s.copySet[k] = true
	s.copies = append(s.copies, edge{c, false, true})
	for _, e := range append([]Elem(nil), s.order...) {
		if !backed(c, e) {
			a.add(c, e)
		}
	}
}

// backed tells whether a node has the own view of a shared element already.
func backed(to *Node, e Elem) bool {
	if e.o.orig == nil {
		return false
	}
	_, ok := to.elems[Elem{e.o.orig, e.path, e.t}]
	return ok
}

// publish gives the shared view of a value.
func (a *PTA) publish(e Elem) Elem {
	o := e.o
	if o.shared {
		return e
	}
	if o.twin == nil {
		s := a.newObj(o.kind, o.typ)
		s.site, s.ctx, s.tag, s.fn, s.depth, s.user = o.site, o.ctx, o.tag+"#shared", o.fn, o.depth, o.user
		s.shared = true
		s.orig = o
		o.twin = s
		var paths []string
		for p := range o.cells {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		for _, p := range paths {
			a.linkTwin(o, p)
		}
	}
	return Elem{o.twin, e.path, e.t}
}

func (a *PTA) add(n *Node, e Elem) {
	if _, ok := n.elems[e]; ok {
		return
	}
	n.elems[e] = struct{}{}
	n.order = append(n.order, e)
	a.work = append(a.work, workItem{n, e})
}

func (a *PTA) copyTo(from, to *Node, pub bool) {
	if from == to {
		return
	}
	k := edgeKey{to, pub}
	if from.copySet[k] {
		return
	}
	from.copySet[k] = true
	from.copies = append(from.copies, edge{to, pub, false})
	for _, e := range append([]Elem(nil), from.order...) {
		a.add(to, a.xfer(e, pub))
	}
}

func (a *PTA) xfer(e Elem, pub bool) Elem {
	if pub {
		return a.publish(e)
	}
	return e
}

func (a *PTA) on(n *Node, h func(Elem)) {
	n.handlers = append(n.handlers, h)
	for _, e := range append([]Elem(nil), n.order...) {
		h(e)
	}
}

func (a *PTA) solve() {
	for len(a.work) > 0 {
		w := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		for i := 0; i < len(w.n.copies); i++ {
			c := w.n.copies[i]
			if c.back && backed(c.to, w.e) {
				continue
			}
			a.add(c.to, a.xfer(w.e, c.pub))
		}
		hs := w.n.handlers
		for i := 0; i < len(hs); i++ {
			hs[i](w.e)
		}
	}
}

// copyVal copies all pointer leaves of a register of type t.
func (a *PTA) copyVal(ctx *Ctx, src ssa.Value, sp string, dctx *Ctx, dst ssa.Value, dp string, t types.Type) {
	for _, l := range leaves(t, false) {
		a.copyTo(a.reg(ctx, src, sp+l.path), a.reg(dctx, dst, dp+l.path), false)
	}
}

func (a *PTA) loadInto(e Elem, path string, t types.Type, ctx *Ctx, dst ssa.Value, dp string) {
	for _, l := range leaves(t, false) {
		a.copyTo(a.cell(e.o, e.path+path+l.path), a.reg(ctx, dst, dp+l.path), false)
	}
}

func (a *PTA) storeFrom(e Elem, path string, t types.Type, ctx *Ctx, src ssa.Value) {
	for _, l := range leaves(t, false) {
		a.copyTo(a.reg(ctx, src, l.path), a.cell(e.o, e.path+path+l.path), e.o.shared && !ctx.root.init)
	}
}

// ---------------------------------------------------------------------------
// contexts and instructions

func (a *PTA) newRoot(name string, fn *ssa.Function) *Root {
	r := &Root{name: name, fn: fn}
	a.roots = append(a.roots, r)
	return r
}

func (a *PTA) newCtx(fn *ssa.Function, parent *Ctx, site ssa.Instruction, root *Root) *Ctx {
	c := &Ctx{id: len(a.ctxs), fn: fn, parent: parent, site: site, root: root, children: map[childKey]*Ctx{}}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	a.ctxs = append(a.ctxs, c)
	if len(a.ctxs) > 60000 {
		fail("context explosion at %s", c)
	}
	return c
}

func (a *PTA) child(ctx *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	k := childKey{site, fn}
	if c := ctx.children[k]; c != nil {
		return c
	}
	for x := ctx; x != nil; x = x.parent {
		if x.fn == fn {
			ctx.children[k] = x
			return x
		}
	}
	c := a.newCtx(fn, ctx, site, ctx.root)
	ctx.children[k] = c
	a.body(c)
	return c
}

func (a *PTA) startRoot(r *Root) {
	r.ctx = a.newCtx(r.fn, nil, nil, r)
	a.body(r.ctx)
}

func (a *PTA) body(ctx *Ctx) {
	if ctx.done {
		return
	}
	ctx.done = true
	for _, b := range ctx.fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(ctx, in)
		}
	}
}

func (a *PTA) instr(ctx *Ctx, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		a.add(a.reg(ctx, in, ""), Elem{o: a.alloc(ctx, in, oAlloc, deref(in.Type()), "")})
	case *ssa.MakeSlice:
		a.add(a.reg(ctx, in, ""), Elem{o: a.alloc(ctx, in, oAlloc, in.Type(), "")})
	case *ssa.MakeMap:
		a.add(a.reg(ctx, in, ""), Elem{o: a.alloc(ctx, in, oAlloc, in.Type(), "")})
	case *ssa.MakeChan:
		a.add(a.reg(ctx, in, ""), Elem{o: a.alloc(ctx, in, oAlloc, in.Type(), "")})
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o := a.alloc(ctx, in, oClosure, fn.Type(), "")
		o.fn = fn
		for i, b := range in.Bindings {
			for _, l := range leaves(b.Type(), false) {
				a.copyTo(a.reg(ctx, b, l.path), a.cell(o, ".fv"+strconv.Itoa(i)+l.path), false)
			}
		}
		a.add(a.reg(ctx, in, ""), Elem{o: o})
	case *ssa.FieldAddr:
		fp := fieldPath(deref(in.X.Type()), in.Field)
		dst := a.reg(ctx, in, "")
		a.on(a.reg(ctx, in.X, ""), func(e Elem) { a.add(dst, Elem{e.o, e.path + fp, nil}) })
	case *ssa.IndexAddr:
		dst := a.reg(ctx, in, "")
		a.on(a.reg(ctx, in.X, ""), func(e Elem) { a.add(dst, Elem{e.o, e.path + "[]", nil}) })
	case *ssa.Field:
		a.copyVal(ctx, in.X, fieldPath(in.X.Type(), in.Field), ctx, in, "", in.Type())
	case *ssa.Index:
		a.copyVal(ctx, in.X, "[]", ctx, in, "", in.Type())
	case *ssa.UnOp:
		switch in.Op.String() {
		case "*":
			t := in.Type()
			a.on(a.reg(ctx, in.X, ""), func(e Elem) { a.loadInto(e, "", t, ctx, in, "") })
		case "<-":
			t := in.X.Type().Underlying().(*types.Chan).Elem()
			dp := ""
			if in.CommaOk {
				dp = "#0"
			}
			a.on(a.reg(ctx, in.X, ""), func(e Elem) { a.loadInto(e, "<-", t, ctx, in, dp) })
		}
	case *ssa.Store:
		t := in.Val.Type()
		a.on(a.reg(ctx, in.Addr, ""), func(e Elem) { a.storeFrom(e, "", t, ctx, in.Val) })
	case *ssa.MapUpdate:
		kt, vt := in.Key.Type(), in.Value.Type()
		a.on(a.reg(ctx, in.Map, ""), func(e Elem) {
			a.storeFrom(e, "{k}", kt, ctx, in.Key)
			a.storeFrom(e, "{v}", vt, ctx, in.Value)
		})
	case *ssa.Send:
		t := in.X.Type()
		a.on(a.reg(ctx, in.Chan, ""), func(e Elem) { a.storeFrom(e, "<-", t, ctx, in.X) })
	case *ssa.Select:
		ri := 2
		for _, st := range in.States {
			st := st
			if st.Dir == types.SendOnly {
				t := st.Send.Type()
				a.on(a.reg(ctx, st.Chan, ""), func(e Elem) { a.storeFrom(e, "<-", t, ctx, st.Send) })
			} else {
				dp := "#" + strconv.Itoa(ri)
				ri++
				t := st.Chan.Type().Underlying().(*types.Chan).Elem()
				a.on(a.reg(ctx, st.Chan, ""), func(e Elem) { a.loadInto(e, "<-", t, ctx, in, dp) })
			}
		}
	case *ssa.Lookup:
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			dp := ""
			if in.CommaOk {
				dp = "#0"
			}
			a.on(a.reg(ctx, in.X, ""), func(e Elem) { a.loadInto(e, "{v}", m.Elem(), ctx, in, dp) })
		}
	case *ssa.Range:
		a.copyTo(a.reg(ctx, in.X, ""), a.reg(ctx, in, ""), false)
	case *ssa.Next:
		if !in.IsString {
			r := in.Iter.(*ssa.Range)
			m := r.X.Type().Underlying().(*types.Map)
			a.on(a.reg(ctx, in.Iter, ""), func(e Elem) {
				a.loadInto(e, "{k}", m.Key(), ctx, in, "#1")
				a.loadInto(e, "{v}", m.Elem(), ctx, in, "#2")
			})
		}
	case *ssa.Extract:
		a.copyVal(ctx, in.Tuple, "#"+strconv.Itoa(in.Index), ctx, in, "", in.Type())
	case *ssa.Phi:
		for _, e := range in.Edges {
			a.copyVal(ctx, e, "", ctx, in, "", in.Type())
		}
	case *ssa.ChangeType:
		a.copyVal(ctx, in.X, "", ctx, in, "", in.Type())
	case *ssa.ChangeInterface:
		a.copyVal(ctx, in.X, "", ctx, in, "", in.Type())
	case *ssa.SliceToArrayPointer:
		a.copyVal(ctx, in.X, "", ctx, in, "", in.Type())
	case *ssa.Convert:
		if pointerish(in.Type()) {
			if _, ok := in.Type().Underlying().(*types.Slice); ok {
				a.add(a.reg(ctx, in, ""), Elem{o: a.alloc(ctx, in, oAlloc, in.Type(), "")})
			} else {
				a.copyVal(ctx, in.X, "", ctx, in, "", in.Type())
			}
		}
	case *ssa.MultiConvert:
		if pointerish(in.Type()) {
			a.add(a.reg(ctx, in, ""), Elem{o: a.alloc(ctx, in, oAlloc, in.Type(), "")})
		}
	case *ssa.Slice:
		if pointerish(in.Type()) {
			a.copyTo(a.reg(ctx, in.X, ""), a.reg(ctx, in, ""), false)
		}
	case *ssa.MakeInterface:
		a.makeIface(ctx, in, in.X, in)
	case *ssa.TypeAssert:
		a.typeAssert(ctx, in)
	case *ssa.Call, *ssa.Go, *ssa.Defer:
		a.call(ctx, in.(ssa.CallInstruction))
	}
}

func (a *PTA) makeIface(ctx *Ctx, at ssa.Value, x ssa.Value, dst ssa.Value) {
	t := x.Type()
	if pointerish(t) {
		d := a.reg(ctx, dst, "")
		a.on(a.reg(ctx, x, ""), func(e Elem) { a.add(d, Elem{e.o, e.path, t}) })
		return
	}
	o := a.alloc(ctx, at, oBox, t, "box")
	for _, l := range leaves(t, false) {
		a.copyTo(a.reg(ctx, x, l.path), a.cell(o, l.path), false)
	}
	a.add(a.reg(ctx, dst, ""), Elem{o, "", t})
}

func (a *PTA) typeAssert(ctx *Ctx, in *ssa.TypeAssert) {
	dp := ""
	if in.CommaOk {
		dp = "#0"
	}
	T := in.AssertedType
	a.on(a.reg(ctx, in.X, ""), func(e Elem) {
		if e.t == nil {
			return
		}
		if types.IsInterface(T) {
			if types.IsInterface(e.t) {
				a.add(a.reg(ctx, in, dp), Elem{e.o, e.path, T})
			} else if types.Implements(e.t, T.Underlying().(*types.Interface)) {
				a.add(a.reg(ctx, in, dp), e)
			}
			return
		}
		if types.IsInterface(e.t) { // opaque
			for _, l := range leaves(T, false) {
				a.add(a.reg(ctx, in, dp+l.path), a.extValue(ctx, in, "ta"+l.path, l.t, e.o))
			}
			return
		}
		if !types.Identical(e.t, T) {
			return
		}
		if pointerish(T) {
			a.add(a.reg(ctx, in, dp), Elem{e.o, e.path, nil})
			return
		}
		a.loadInto(e, "", T, ctx, in, dp)
	})
}

// ---------------------------------------------------------------------------
// calls

// bindArg passes caller-side values to a parameter.
type argVal struct {
	ctx  *Ctx
	v    ssa.Value
	path string
	e    *Elem // a concrete element instead of a value
	pub  bool
}

func (a *PTA) bind(arg argVal, cctx *Ctx, param ssa.Value) {
	if arg.e != nil {
		a.add(a.reg(cctx, param, ""), a.xfer(*arg.e, arg.pub))
		return
	}
	for _, l := range leaves(param.Type(), false) {
		a.copyTo(a.reg(arg.ctx, arg.v, arg.path+l.path), a.reg(cctx, param, l.path), arg.pub)
	}
}

func (a *PTA) bindResult(cctx *Ctx, ctx *Ctx, in ssa.CallInstruction) {
	v := in.Value()
	if v == nil {
		return
	}
	res := cctx.fn.Signature.Results()
	for _, b := range cctx.fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, r := range ret.Results {
			dp := ""
			if res.Len() > 1 {
				dp = "#" + strconv.Itoa(i)
			}
			a.copyVal(cctx, r, "", ctx, v, dp, r.Type())
		}
	}
}

func (a *PTA) addInternal(si *SiteInfo, c *Ctx) {
	for _, x := range si.internal {
		if x == c {
			return
		}
	}
	si.internal = append(si.internal, c)
}

// invokeFn connects a call site with a resolved callee.
func (a *PTA) invokeFn(ctx *Ctx, in ssa.CallInstruction, fn *ssa.Function, clo *Elem, args []argVal) {
	if !analysable(fn) {
		a.external(ctx, in, fnKey(fn), fn.Signature, args)
		return
	}
	if _, ok := in.(*ssa.Go); ok {
		r := a.spawn(ctx, in, fn)
		c := r.ctx
		if clo != nil {
			pe := a.publish(*clo)
			for i, fv := range fn.FreeVars {
				for _, l := range leaves(fv.Type(), false) {
					a.copyTo(a.cell(pe.o, ".fv"+strconv.Itoa(i)+l.path), a.reg(c, fv, l.path), true)
				}
			}
		}
		for i, ar := range args {
			if i < len(fn.Params) {
				ar.pub = true
				a.bind(ar, c, fn.Params[i])
			}
		}
		return
	}
	c := a.child(ctx, in, fn)
	a.addInternal(a.site(ctx, in), c)
	if clo != nil {
		for i, fv := range fn.FreeVars {
			for _, l := range leaves(fv.Type(), false) {
				a.copyTo(a.cell(clo.o, ".fv"+strconv.Itoa(i)+l.path), a.reg(c, fv, l.path), false)
			}
		}
	}
	for i, ar := range args {
		if i < len(fn.Params) {
			a.bind(ar, c, fn.Params[i])
		}
	}
	if _, ok := in.(*ssa.Call); ok {
		a.bindResult(c, ctx, in)
	}
}

func (a *PTA) spawn(ctx *Ctx, in ssa.Instruction, fn *ssa.Function) *Root {
	si := a.site(ctx, in)
	for _, r := range si.spawned {
		if r.fn == fn {
			return r
		}
	}
	r := a.newRoot("goroutine "+fnName(fn)+" of "+ctx.root.name, fn)
	r.spawn = in
	r.conc = true
	si.spawned = append(si.spawned, r)
	a.startRoot(r)
	return r
}

func (a *PTA) call(ctx *Ctx, in ssa.CallInstruction) {
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(ctx, in, b, cc.Args)
		return
	}
	var args []argVal
	for _, x := range cc.Args {
		args = append(args, argVal{ctx: ctx, v: x})
	}
	if cc.IsInvoke() {
		seen := map[Elem]bool{}
		a.on(a.reg(ctx, cc.Value, ""), func(e Elem) {
			if seen[e] || e.t == nil {
				return
			}
			seen[e] = true
			recv := argVal{e: &Elem{e.o, e.path, nil}}
			if types.IsInterface(e.t) { // opaque implementation
				si := a.site(ctx, in)
				si.external = true
				if e.o.user {
					si.user = true
				}
				a.external(ctx, in, callKey(cc), cc.Signature(), append([]argVal{{e: &e}}, args...))
				return
			}
			m := a.p.SSA.LookupMethod(e.t, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				return
			}
			if !pointerish(e.t) { // boxed value receiver
				if !analysable(m) {
					a.external(ctx, in, fnKey(m), m.Signature, append([]argVal{{e: &e}}, args...))
					return
				}
				c := a.child(ctx, in, m)
				if len(m.Params) > 0 {
					a.loadInto(e, "", e.t, c, m.Params[0], "")
				}
				a.invokeFn(ctx, in, m, nil, append([]argVal{{e: &Elem{o: a.nowhere()}}}, args...))
				return
			}
			a.invokeFn(ctx, in, m, nil, append([]argVal{recv}, args...))
		})
		return
	}
	if fn := cc.StaticCallee(); fn != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			e := Elem{o: a.alloc(ctx, mc, oClosure, fn.Type(), "")}
			a.invokeFn(ctx, in, fn, &e, args)
			return
		}
		a.invokeFn(ctx, in, fn, nil, args)
		return
	}
	a.callValue(ctx, in, a.reg(ctx, cc.Value, ""), func(e Elem) []argVal { return args }, cc.Signature())
}

func (a *PTA) nowhere() *Obj {
	o := a.allocs["nowhere"]
	if o == nil {
		o = a.newObj(oExt, types.Typ[types.Int])
		a.allocs["nowhere"] = o
	}
	return o
}

func (a *PTA) callValue(ctx *Ctx, in ssa.CallInstruction, n *Node, args func(Elem) []argVal, sig *types.Signature) {
	seen := map[*Obj]bool{}
	a.on(n, func(e Elem) {
		if seen[e.o] {
			return
		}
		seen[e.o] = true
		switch e.o.kind {
		case oFunc:
			a.invokeFn(ctx, in, e.o.fn, nil, args(e))
		case oClosure:
			ce := Elem{o: e.o}
			a.invokeFn(ctx, in, e.o.fn, &ce, args(e))
		default:
			si := a.site(ctx, in)
			si.external = true
			if e.o.user {
				si.user = true
			}
			key := "opaque function"
			if strings.HasPrefix(e.o.tag, "oncefn:") {
				a.onceFn(ctx, in, e)
				return
			}
			a.external(ctx, in, key, sig, args(e))
		}
	})
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	if c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func (a *PTA) builtin(ctx *Ctx, in ssa.CallInstruction, b *ssa.Builtin, args []ssa.Value) {
	switch b.Name() {
	case "append":
		v := in.Value()
		d := a.reg(ctx, v, "")
		a.copyTo(a.reg(ctx, args[0], ""), d, false)
		fresh := a.alloc(ctx, v, oAlloc, v.Type(), "append")
		a.add(d, Elem{o: fresh})
		et := v.Type().Underlying().(*types.Slice).Elem()
		ls := leaves(et, false)
		if _, isSlice := args[1].Type().Underlying().(*types.Slice); isSlice {
			a.on(a.reg(ctx, args[1], ""), func(e Elem) {
				for _, l := range ls {
					src := a.cell(e.o, e.path+"[]"+l.path)
					a.on(d, func(de Elem) {
						a.copyTo(src, a.cell(de.o, de.path+"[]"+l.path), de.o.shared && !ctx.root.init)
					})
				}
			})
		}
		a.on(a.reg(ctx, args[0], ""), func(e Elem) {
			for _, l := range ls {
				a.copyTo(a.cell(e.o, e.path+"[]"+l.path), a.cell(fresh, "[]"+l.path), false)
			}
		})
	case "copy":
		if st, ok := args[0].Type().Underlying().(*types.Slice); ok {
			ls := leaves(st.Elem(), false)
			if _, ok := args[1].Type().Underlying().(*types.Slice); ok {
				a.on(a.reg(ctx, args[1], ""), func(e Elem) {
					for _, l := range ls {
						src := a.cell(e.o, e.path+"[]"+l.path)
						a.on(a.reg(ctx, args[0], ""), func(de Elem) {
							a.copyTo(src, a.cell(de.o, de.path+"[]"+l.path), de.o.shared && !ctx.root.init)
						})
					}
				})
			}
		}
	case "recover":
		if v := in.Value(); v != nil {
			a.add(a.reg(ctx, v, ""), a.extValue(ctx, v, "recover", v.Type(), nil))
		}
	case "min", "max":
	case "ssa:wrapnilchk":
		if v := in.Value(); v != nil {
			a.copyTo(a.reg(ctx, args[0], ""), a.reg(ctx, v, ""), false)
		}
	}
}

func (n *Node) list() []Elem {
	out := append([]Elem(nil), n.order...)
	sort.Slice(out, func(i, j int) bool {
		if out[i].o.id != out[j].o.id {
			return out[i].o.id < out[j].o.id
		}
		return out[i].path < out[j].path
	})
	return out
}

func (a *PTA) pts(ctx *Ctx, v ssa.Value) []Elem {
	return a.reg(ctx, v, "").list()
}
