package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The value-flow graph: how values move between registers (per context) and
// memory cells. Reachability in it, together with control dependence, decides
// the dependence rules.

type fnode struct {
	ctx  *Ctx
	v    ssa.Value
	o    *Obj
	path string
}

type fedge struct {
	to fnode
	in ssa.Instruction
	cx *Ctx
}

type Flow struct {
	a     *PTA
	out   map[fnode][]fedge
	cells map[*Obj]map[string]bool
	cd    map[*ssa.Function]map[*ssa.BasicBlock][]*ssa.BasicBlock
	late  []func()
	edges int
	// skip suppresses the flow through an instruction.
	skip func(ctx *Ctx, in ssa.Instruction) bool
}

func canon(o *Obj) *Obj {
	if o.orig != nil {
		return o.orig
	}
	return o
}

func (f *Flow) reg(ctx *Ctx, v ssa.Value, path string) fnode {
	switch v.(type) {
	case *ssa.Global, *ssa.Function, *ssa.Const, *ssa.Builtin:
		ctx = nil
	}
	return fnode{ctx: ctx, v: v, path: path}
}

func (f *Flow) cell(o *Obj, path string) fnode {
	o = canon(o)
	m := f.cells[o]
	if m == nil {
		m = map[string]bool{}
		f.cells[o] = m
	}
	m[path] = true
	return fnode{o: o, path: path}
}

func (f *Flow) edge(from, to fnode, ctx *Ctx, in ssa.Instruction) {
	if from == to {
		return
	}
	for _, e := range f.out[from] {
		if e.to == to && e.in == in && e.cx == ctx {
			return
		}
	}
	f.out[from] = append(f.out[from], fedge{to, in, ctx})
	f.edges++
}

// allLeaves is leaves(t, true), with at least one leaf.
func allLeaves(t types.Type) []leaf {
	ls := leaves(t, true)
	if len(ls) == 0 {
		return []leaf{{"", t}}
	}
	return ls
}

func (a *PTA) flow(skip func(ctx *Ctx, in ssa.Instruction) bool) *Flow {
	f := &Flow{a: a, out: map[fnode][]fedge{}, cells: map[*Obj]map[string]bool{}, cd: map[*ssa.Function]map[*ssa.BasicBlock][]*ssa.BasicBlock{}, skip: skip}
	for _, c := range a.ctxs {
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				if skip != nil && skip(c, in) {
					continue
				}
				f.instr(c, in)
			}
		}
	}
	for _, l := range f.late {
		l()
	}
	return f
}

func (f *Flow) copyVal(ctx *Ctx, src ssa.Value, sp string, dctx *Ctx, dst ssa.Value, dp string, t types.Type, at *Ctx, in ssa.Instruction) {
	for _, l := range allLeaves(t) {
		f.edge(f.reg(ctx, src, sp+l.path), f.reg(dctx, dst, dp+l.path), at, in)
	}
}

func (f *Flow) instr(ctx *Ctx, in ssa.Instruction) {
	a := f.a
	all := func(dst ssa.Value, dp string, srcs ...ssa.Value) {
		for _, s := range srcs {
			if s == nil {
				continue
			}
			for _, l := range allLeaves(s.Type()) {
				f.edge(f.reg(ctx, s, l.path), f.reg(ctx, dst, dp), ctx, in)
			}
		}
	}
	switch in := in.(type) {
	case *ssa.FieldAddr:
		all(in, "", in.X)
	case *ssa.IndexAddr:
		all(in, "", in.X, in.Index)
	case *ssa.Field:
		f.copyVal(ctx, in.X, fieldPath(in.X.Type(), in.Field), ctx, in, "", in.Type(), ctx, in)
	case *ssa.Index:
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			all(in, "", in.X, in.Index)
		} else {
			f.copyVal(ctx, in.X, "[]", ctx, in, "", in.Type(), ctx, in)
			for _, l := range allLeaves(in.Type()) {
				all(in, l.path, in.Index)
			}
		}
	case *ssa.UnOp:
		switch in.Op.String() {
		case "*":
			for _, l := range allLeaves(in.Type()) {
				for _, e := range a.pts(ctx, in.X) {
					f.edge(f.cell(e.o, e.path+l.path), f.reg(ctx, in, l.path), ctx, in)
				}
				all(in, l.path, in.X)
			}
		case "<-":
			dp := ""
			if in.CommaOk {
				dp = "#0"
			}
			t := in.X.Type().Underlying().(*types.Chan).Elem()
			for _, l := range allLeaves(t) {
				for _, e := range a.pts(ctx, in.X) {
					f.edge(f.cell(e.o, e.path+"<-"+l.path), f.reg(ctx, in, dp+l.path), ctx, in)
				}
			}
		default:
			all(in, "", in.X)
		}
	case *ssa.BinOp:
		all(in, "", in.X, in.Y)
	case *ssa.Store:
		for _, l := range allLeaves(in.Val.Type()) {
			for _, e := range a.pts(ctx, in.Addr) {
				f.edge(f.reg(ctx, in.Val, l.path), f.cell(e.o, e.path+l.path), ctx, in)
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
					f.edge(f.reg(ctx, ia.Index, ""), f.cell(e.o, e.path+l.path), ctx, in)
				}
			}
		}
	case *ssa.MapUpdate:
		for _, e := range a.pts(ctx, in.Map) {
			for _, l := range allLeaves(in.Key.Type()) {
				f.edge(f.reg(ctx, in.Key, l.path), f.cell(e.o, e.path+"{k}"+l.path), ctx, in)
				for _, vl := range allLeaves(in.Value.Type()) {
					f.edge(f.reg(ctx, in.Key, l.path), f.cell(e.o, e.path+"{v}"+vl.path), ctx, in)
				}
			}
			for _, l := range allLeaves(in.Value.Type()) {
				f.edge(f.reg(ctx, in.Value, l.path), f.cell(e.o, e.path+"{v}"+l.path), ctx, in)
			}
		}
	case *ssa.Send:
		for _, e := range a.pts(ctx, in.Chan) {
			for _, l := range allLeaves(in.X.Type()) {
				f.edge(f.reg(ctx, in.X, l.path), f.cell(e.o, e.path+"<-"+l.path), ctx, in)
			}
		}
	case *ssa.Select:
		ri := 2
		for _, st := range in.States {
			if st.Dir == types.SendOnly {
				for _, e := range a.pts(ctx, st.Chan) {
					for _, l := range allLeaves(st.Send.Type()) {
						f.edge(f.reg(ctx, st.Send, l.path), f.cell(e.o, e.path+"<-"+l.path), ctx, in)
					}
				}
				continue
			}
			t := st.Chan.Type().Underlying().(*types.Chan).Elem()
			for _, l := range allLeaves(t) {
				for _, e := range a.pts(ctx, st.Chan) {
					f.edge(f.cell(e.o, e.path+"<-"+l.path), f.reg(ctx, in, "#"+strconv.Itoa(ri)+l.path), ctx, in)
				}
			}
			ri++
		}
	case *ssa.Lookup:
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			dp := ""
			if in.CommaOk {
				dp = "#0"
			}
			for _, l := range allLeaves(m.Elem()) {
				for _, e := range a.pts(ctx, in.X) {
					f.edge(f.cell(e.o, e.path+"{v}"+l.path), f.reg(ctx, in, dp+l.path), ctx, in)
				}
				all(in, dp+l.path, in.X, in.Index)
			}
			if in.CommaOk {
				for _, e := range a.pts(ctx, in.X) {
					for _, l := range allLeaves(m.Key()) {
						f.edge(f.cell(e.o, e.path+"{k}"+l.path), f.reg(ctx, in, "#1"), ctx, in)
					}
				}
				all(in, "#1", in.X, in.Index)
			}
		} else {
			all(in, "", in.X, in.Index)
		}
	case *ssa.Range:
		all(in, "", in.X)
	case *ssa.Next:
		r := in.Iter.(*ssa.Range)
		if in.IsString {
			all(in, "#0", r.X)
			all(in, "#1", r.X)
			all(in, "#2", r.X)
			return
		}
		m := r.X.Type().Underlying().(*types.Map)
		for _, e := range a.pts(ctx, r.X) {
			for _, l := range allLeaves(m.Key()) {
				f.edge(f.cell(e.o, e.path+"{k}"+l.path), f.reg(ctx, in, "#1"+l.path), ctx, in)
				f.edge(f.cell(e.o, e.path+"{k}"+l.path), f.reg(ctx, in, "#0"), ctx, in)
			}
			for _, l := range allLeaves(m.Elem()) {
				f.edge(f.cell(e.o, e.path+"{v}"+l.path), f.reg(ctx, in, "#2"+l.path), ctx, in)
			}
		}
	case *ssa.Extract:
		f.copyVal(ctx, in.Tuple, "#"+strconv.Itoa(in.Index), ctx, in, "", in.Type(), ctx, in)
	case *ssa.Phi:
		for _, e := range in.Edges {
			f.copyVal(ctx, e, "", ctx, in, "", in.Type(), ctx, in)
		}
	case *ssa.ChangeType:
		f.copyVal(ctx, in.X, "", ctx, in, "", in.Type(), ctx, in)
	case *ssa.ChangeInterface:
		f.copyVal(ctx, in.X, "", ctx, in, "", in.Type(), ctx, in)
	case *ssa.SliceToArrayPointer:
		all(in, "", in.X)
	case *ssa.Convert:
		all(in, "", in.X)
		f.convContents(ctx, in, in.X)
	case *ssa.MultiConvert:
		all(in, "", in.X)
		f.convContents(ctx, in, in.X)
	case *ssa.Slice:
		all(in, "", in.X, in.Low, in.High, in.Max)
	case *ssa.MakeInterface:
		all(in, "", in.X)
		if !pointerish(in.X.Type()) {
			for _, e := range a.pts(ctx, in) {
				for _, l := range allLeaves(in.X.Type()) {
					f.edge(f.reg(ctx, in.X, l.path), f.cell(e.o, e.path+l.path), ctx, in)
				}
			}
		}
	case *ssa.TypeAssert:
		dp := ""
		if in.CommaOk {
			dp = "#0"
			all(in, "#1", in.X)
		}
		for _, l := range allLeaves(in.AssertedType) {
			if types.IsInterface(in.AssertedType) || pointerish(in.AssertedType) {
				all(in, dp+l.path, in.X)
				continue
			}
			for _, e := range a.pts(ctx, in.X) {
				if e.t != nil && types.Identical(e.t, in.AssertedType) {
					f.edge(f.cell(e.o, e.path+l.path), f.reg(ctx, in, dp+l.path), ctx, in)
				}
			}
			all(in, dp+l.path, in.X)
		}
	case *ssa.MakeSlice:
		all(in, "", in.Len, in.Cap)
	case *ssa.MakeMap:
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		_ = fn
		for _, e := range a.pts(ctx, in) {
			for i, b := range in.Bindings {
				for _, l := range allLeaves(b.Type()) {
					f.edge(f.reg(ctx, b, l.path), f.cell(e.o, ".fv"+strconv.Itoa(i)+l.path), ctx, in)
				}
			}
		}
	case ssa.CallInstruction:
		f.call(ctx, in)
	}
}

// convContents moves the text of a conversion between strings and slices.
func (f *Flow) convContents(ctx *Ctx, in ssa.Value, x ssa.Value) {
	instr := in.(ssa.Instruction)
	if _, ok := in.Type().Underlying().(*types.Slice); ok {
		for _, e := range f.a.pts(ctx, in) {
			f.edge(f.reg(ctx, x, ""), f.cell(e.o, e.path+"[]"), ctx, instr)
		}
	}
	if _, ok := x.Type().Underlying().(*types.Slice); ok {
		for _, e := range f.a.pts(ctx, x) {
			f.edge(f.cell(e.o, e.path+"[]"), f.reg(ctx, in, ""), ctx, instr)
		}
	}
}

func (f *Flow) bindCall(ctx *Ctx, in ssa.CallInstruction, c *Ctx, args []ssa.Value) {
	for i, p := range c.fn.Params {
		if i < len(args) && args[i] != nil {
			if types.IsInterface(args[i].Type()) && !types.IsInterface(p.Type()) {
				// receiver of an interface call
				for _, l := range allLeaves(p.Type()) {
					f.edge(f.reg(ctx, args[i], ""), f.reg(c, p, l.path), ctx, in)
					if !pointerish(p.Type()) {
						for _, e := range f.a.pts(ctx, args[i]) {
							if e.t != nil && types.Identical(e.t, p.Type()) {
								f.edge(f.cell(e.o, e.path+l.path), f.reg(c, p, l.path), ctx, in)
							}
						}
					}
				}
				continue
			}
			f.copyVal(ctx, args[i], "", c, p, "", p.Type(), ctx, in)
		}
	}
	if v := in.Value(); v != nil {
		res := c.fn.Signature.Results()
		for _, b := range c.fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for i, r := range ret.Results {
				dp := ""
				if res.Len() > 1 {
					dp = "#" + strconv.Itoa(i)
				}
				f.copyVal(c, r, "", ctx, v, dp, r.Type(), ctx, in)
			}
		}
	}
}

func (f *Flow) bindFree(ctx *Ctx, in ssa.CallInstruction, c *Ctx, fnv ssa.Value) {
	if len(c.fn.FreeVars) == 0 {
		return
	}
	for _, e := range f.a.pts(ctx, fnv) {
		if e.o.fn != c.fn {
			continue
		}
		for i, fv := range c.fn.FreeVars {
			for _, l := range allLeaves(fv.Type()) {
				f.edge(f.cell(e.o, ".fv"+strconv.Itoa(i)+l.path), f.reg(c, fv, l.path), ctx, in)
			}
		}
	}
}

func (f *Flow) call(ctx *Ctx, in ssa.CallInstruction) {
	a := f.a
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f.builtin(ctx, in, b)
		return
	}
	si := a.callees[siteKey{ctx, in}]
	if si == nil {
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for _, c := range si.internal {
		f.bindCall(ctx, in, c, args)
		if !cc.IsInvoke() {
			f.bindFree(ctx, in, c, cc.Value)
		}
	}
	for _, r := range si.spawned {
		if r.ctx != nil {
			f.bindCall(ctx, in, r.ctx, args)
			f.bindFree(ctx, in, r.ctx, cc.Value)
			for _, x := range args {
				f.bindFree(ctx, in, r.ctx, x)
			}
		}
	}
	cbs := append(append([]*Ctx(nil), si.callbacks...), si.once...)
	for _, c := range cbs {
		for _, x := range args {
			f.bindFree(ctx, in, c, x)
		}
		if !cc.IsInvoke() {
			f.bindFree(ctx, in, c, cc.Value)
		}
		// The external callee may pass anything it was given, and use results.
		for _, p := range c.fn.Params {
			for _, l := range allLeaves(p.Type()) {
				for _, x := range args {
					for _, xl := range allLeaves(x.Type()) {
						f.edge(f.reg(ctx, x, xl.path), f.reg(c, p, l.path), ctx, in)
					}
				}
			}
		}
		if v := in.Value(); v != nil {
			for _, b := range c.fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for i, r := range ret.Results {
						for _, rl := range allLeaves(r.Type()) {
							for _, vl := range allLeaves(v.Type()) {
								_ = i
								f.edge(f.reg(c, r, rl.path), f.reg(ctx, v, vl.path), ctx, in)
							}
						}
					}
				}
			}
		}
	}
	if !si.external {
		return
	}
	key := callKey(cc)
	// inputs of the external callee
	var ins []fnode
	for _, x := range args {
		for _, l := range allLeaves(x.Type()) {
			ins = append(ins, f.reg(ctx, x, l.path))
		}
	}
	var outs []fnode
	if v := in.Value(); v != nil {
		for _, l := range allLeaves(v.Type()) {
			outs = append(outs, f.reg(ctx, v, l.path))
			if sl, ok := l.t.Underlying().(*types.Slice); ok {
				for _, e := range a.reg(ctx, v, l.path).list() {
					for _, el := range allLeaves(sl.Elem()) {
						outs = append(outs, f.cell(e.o, e.path+"[]"+el.path))
					}
				}
			}
		}
	}
	var memOuts []fnode
	for _, i := range extWrites(key, cc) {
		if i >= len(args) {
			continue
		}
		for _, e := range a.pts(ctx, args[i]) {
			memOuts = append(memOuts, f.cell(e.o, e.path))
			e := e
			f.late = append(f.late, func() {
				for _, p := range f.cellsUnder(e.o, e.path) {
					for _, x := range ins {
						f.edge(x, p, ctx, in)
					}
				}
			})
		}
	}
	for _, x := range ins {
		for _, y := range outs {
			f.edge(x, y, ctx, in)
		}
		for _, y := range memOuts {
			f.edge(x, y, ctx, in)
		}
	}
	// memory read by the external callee
	f.late = append(f.late, func() {
		seen := map[Elem]bool{}
		var walk func(e Elem, d int)
		walk = func(e Elem, d int) {
			k := Elem{canon(e.o), e.path, nil}
			if seen[k] || d > 3 || e.o.kind == oFunc {
				return
			}
			seen[k] = true
			for _, p := range f.cellsUnder(e.o, e.path) {
				for _, y := range outs {
					f.edge(p, y, ctx, in)
				}
				for _, y := range memOuts {
					f.edge(p, y, ctx, in)
				}
			}
			for path, n := range canon(e.o).cells {
				if path != "~held" && !strings.HasPrefix(path, e.path) {
					continue
				}
				for _, x := range n.list() {
					walk(x, d+1)
				}
			}
		}
		for _, x := range args {
			if pointerish(x.Type()) {
				for _, e := range a.pts(ctx, x) {
					walk(e, 0)
				}
			}
		}
	})
}

// cellsUnder lists the known cells of an object at or below a path.
func (f *Flow) cellsUnder(o *Obj, path string) []fnode {
	o = canon(o)
	var out []fnode
	for p := range f.cells[o] {
		if strings.HasPrefix(p, path) {
			out = append(out, fnode{o: o, path: p})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].path < out[j].path })
	return out
}

func (f *Flow) builtin(ctx *Ctx, in ssa.CallInstruction, b *ssa.Builtin) {
	a := f.a
	v := in.Value()
	args := in.Common().Args
	switch b.Name() {
	case "append":
		st := v.Type().Underlying().(*types.Slice)
		for _, x := range args {
			f.edge(f.reg(ctx, x, ""), f.reg(ctx, v, ""), ctx, in)
		}
		for _, d := range a.pts(ctx, v) {
			for _, l := range allLeaves(st.Elem()) {
				to := f.cell(d.o, d.path+"[]"+l.path)
				for _, x := range args {
					if _, ok := x.Type().Underlying().(*types.Slice); ok {
						for _, e := range a.pts(ctx, x) {
							f.edge(f.cell(e.o, e.path+"[]"+l.path), to, ctx, in)
						}
					} else {
						f.edge(f.reg(ctx, x, ""), to, ctx, in)
					}
				}
			}
		}
	case "copy":
		st, _ := args[0].Type().Underlying().(*types.Slice)
		if st == nil {
			return
		}
		for _, d := range a.pts(ctx, args[0]) {
			for _, l := range allLeaves(st.Elem()) {
				to := f.cell(d.o, d.path+"[]"+l.path)
				if _, ok := args[1].Type().Underlying().(*types.Slice); ok {
					for _, e := range a.pts(ctx, args[1]) {
						f.edge(f.cell(e.o, e.path+"[]"+l.path), to, ctx, in)
					}
				} else {
					f.edge(f.reg(ctx, args[1], ""), to, ctx, in)
				}
			}
		}
		f.edge(f.reg(ctx, args[0], ""), f.reg(ctx, v, ""), ctx, in)
		f.edge(f.reg(ctx, args[1], ""), f.reg(ctx, v, ""), ctx, in)
	case "len", "cap":
		f.edge(f.reg(ctx, args[0], ""), f.reg(ctx, v, ""), ctx, in)
		if m, ok := args[0].Type().Underlying().(*types.Map); ok {
			for _, e := range a.pts(ctx, args[0]) {
				for _, l := range allLeaves(m.Key()) {
					f.edge(f.cell(e.o, e.path+"{k}"+l.path), f.reg(ctx, v, ""), ctx, in)
				}
			}
		}
	case "delete":
		m := args[0].Type().Underlying().(*types.Map)
		for _, e := range a.pts(ctx, args[0]) {
			for _, l := range allLeaves(m.Key()) {
				f.edge(f.reg(ctx, args[1], l.path), f.cell(e.o, e.path+"{k}"+l.path), ctx, in)
			}
		}
	default:
		if v != nil {
			for _, x := range args {
				for _, l := range allLeaves(x.Type()) {
					f.edge(f.reg(ctx, x, l.path), f.reg(ctx, v, l.path), ctx, in)
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------
// control dependence

// controls lists, per block, the branching blocks it directly depends on.
// Blocks that always end in a panic are left out.
func (f *Flow) controls(fn *ssa.Function) map[*ssa.BasicBlock][]*ssa.BasicBlock {
	if m, ok := f.cd[fn]; ok {
		return m
	}
	m := controlDeps(fn)
	f.cd[fn] = m
	return m
}

func controlDeps(fn *ssa.Function) map[*ssa.BasicBlock][]*ssa.BasicBlock {
	n := len(fn.Blocks)
	live := make([]bool, n) // can reach a return
	for again := true; again; {
		again = false
		for _, b := range fn.Blocks {
			if live[b.Index] {
				continue
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				live[b.Index] = true
				again = true
				continue
			}
			for _, s := range b.Succs {
				if live[s.Index] {
					live[b.Index] = true
					again = true
				}
			}
		}
	}
	// postdominators as sets
	pd := make([]map[int]bool, n)
	full := func() map[int]bool {
		m := map[int]bool{}
		for i := 0; i < n; i++ {
			if live[i] {
				m[i] = true
			}
		}
		return m
	}
	for i, b := range fn.Blocks {
		if !live[i] {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			pd[i] = map[int]bool{i: true}
		} else {
			pd[i] = full()
		}
	}
	for again := true; again; {
		again = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if !live[i] {
				continue
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				continue
			}
			var nw map[int]bool
			for _, s := range b.Succs {
				if !live[s.Index] {
					continue
				}
				if nw == nil {
					nw = map[int]bool{}
					for k := range pd[s.Index] {
						nw[k] = true
					}
				} else {
					for k := range nw {
						if !pd[s.Index][k] {
							delete(nw, k)
						}
					}
				}
			}
			if nw == nil {
				nw = map[int]bool{}
			}
			nw[i] = true
			if len(nw) != len(pd[i]) {
				pd[i] = nw
				again = true
			}
		}
	}
	out := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		if !live[i] {
			continue
		}
		nl := 0
		for _, s := range b.Succs {
			if live[s.Index] {
				nl++
			}
		}
		if nl < 2 {
			continue
		}
		for _, x := range fn.Blocks {
			if !live[x.Index] {
				continue
			}
			dep := false
			for _, s := range b.Succs {
				if live[s.Index] && pd[s.Index][x.Index] {
					dep = true
				}
			}
			if dep && (x == b || !pd[i][x.Index]) {
				out[x] = append(out[x], b)
			}
		}
	}
	return out
}

// ---------------------------------------------------------------------------
// taint

type blockKey struct {
	ctx *Ctx
	b   *ssa.BasicBlock
}

type why struct {
	prev fnode
	in   ssa.Instruction
	ctx  *Ctx
	ctl  bool
}

type Taint struct {
	f        *Flow
	implicit bool
	nodes    map[fnode]why
	blocks   map[blockKey]fnode // control depends on a tainted value
	ctxs     map[*Ctx]fnode
	work     []fnode
	stop     func(n fnode, in ssa.Instruction, ctx *Ctx) bool
}

func (f *Flow) taint(implicit bool, stop func(n fnode, in ssa.Instruction, ctx *Ctx) bool, sources ...fnode) *Taint {
	t := &Taint{f: f, implicit: implicit, nodes: map[fnode]why{}, blocks: map[blockKey]fnode{}, ctxs: map[*Ctx]fnode{}, stop: stop}
	for _, s := range sources {
		t.mark(s, why{})
	}
	t.run()
	return t
}

func (t *Taint) mark(n fnode, w why) {
	if _, ok := t.nodes[n]; ok {
		return
	}
	if t.stop != nil && t.stop(n, w.in, w.ctx) {
		return
	}
	t.nodes[n] = w
	t.work = append(t.work, n)
}

func (t *Taint) has(n fnode) bool { _, ok := t.nodes[n]; return ok }

func (t *Taint) run() {
	for len(t.work) > 0 {
		n := t.work[len(t.work)-1]
		t.work = t.work[:len(t.work)-1]
		for _, e := range t.f.out[n] {
			t.mark(e.to, why{prev: n, in: e.in, ctx: e.cx})
		}
		if t.implicit && n.v != nil {
			t.branches(n)
		}
	}
}

// branches handles the branches and calls decided by a tainted value.
func (t *Taint) branches(n fnode) {
	refs := n.v.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.If:
			t.branch(n, n.ctx, r.Block())
		case ssa.CallInstruction:
			cc := r.Common()
			if cc.Value == n.v {
				if si := t.f.a.callees[siteKey{n.ctx, r}]; si != nil {
					for _, c := range si.internal {
						t.ctxTaint(c, n)
					}
				}
			}
		}
	}
}

func (t *Taint) branch(n fnode, ctx *Ctx, b *ssa.BasicBlock) {
	cd := t.f.controls(ctx.fn)
	// blocks transitively control dependent on b
	dep := map[*ssa.BasicBlock]bool{}
	for again := true; again; {
		again = false
		for x, bs := range cd {
			if dep[x] {
				continue
			}
			for _, y := range bs {
				if y == b || dep[y] {
					dep[x] = true
					again = true
					break
				}
			}
		}
	}
	for x := range dep {
		t.blockTaint(blockKey{ctx, x}, n)
	}
	// phis at joins
	for _, j := range ctx.fn.Blocks {
		for _, p := range j.Preds {
			if p == b || dep[p] {
				t.phis(ctx, j, n)
			}
		}
	}
	// returns
	for _, x := range ctx.fn.Blocks {
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && dep[x] {
			t.returns(ctx, n)
		}
	}
}

func (t *Taint) phis(ctx *Ctx, j *ssa.BasicBlock, n fnode) {
	for _, in := range j.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		same := true
		for _, e := range phi.Edges {
			if e != phi.Edges[0] {
				same = false
			}
		}
		if same {
			continue
		}
		for _, l := range allLeaves(phi.Type()) {
			t.mark(t.f.reg(ctx, phi, l.path), why{prev: n, in: phi, ctx: ctx, ctl: true})
		}
	}
}

func (t *Taint) returns(ctx *Ctx, n fnode) {
	nret := 0
	var first *ssa.Return
	same := true
	for _, b := range ctx.fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			nret++
			if first == nil {
				first = ret
			}
			for i := range ret.Results {
				if ret.Results[i] != first.Results[i] && !sameConst(ret.Results[i], first.Results[i]) {
					same = false
				}
			}
		}
	}
	if nret < 2 || same {
		return
	}
	for _, b := range ctx.fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for i, r := range ret.Results {
				if sameEverywhere(ctx.fn, i) {
					continue
				}
				// the value handed to the caller
				if ctx.parent != nil {
					if ci, ok := ctx.site.(ssa.CallInstruction); ok && ci.Value() != nil {
						dp := ""
						if len(ret.Results) > 1 {
							dp = "#" + strconv.Itoa(i)
						}
						for _, l := range allLeaves(r.Type()) {
							t.mark(t.f.reg(ctx.parent, ci.Value(), dp+l.path), why{prev: n, in: ret, ctx: ctx, ctl: true})
						}
					}
				}
				t.mark(fnode{ctx: ctx, v: nil, path: "return#" + strconv.Itoa(i)}, why{prev: n, in: ret, ctx: ctx, ctl: true})
			}
		}
	}
}

func sameConst(x, y ssa.Value) bool {
	a, ok := x.(*ssa.Const)
	b, ok2 := y.(*ssa.Const)
	return ok && ok2 && a.String() == b.String()
}

func sameEverywhere(fn *ssa.Function, i int) bool {
	var first ssa.Value
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if first == nil {
				first = ret.Results[i]
			} else if first != ret.Results[i] && !sameConst(first, ret.Results[i]) {
				return false
			}
		}
	}
	return true
}

func (t *Taint) ctxTaint(c *Ctx, n fnode) {
	if _, ok := t.ctxs[c]; ok {
		return
	}
	t.ctxs[c] = n
	for _, b := range c.fn.Blocks {
		t.blockTaint(blockKey{c, b}, n)
	}
}

// blockTaint handles a block that is executed or not depending on a tainted
// value: its effects are tainted.
func (t *Taint) blockTaint(k blockKey, n fnode) {
	if _, ok := t.blocks[k]; ok {
		return
	}
	t.blocks[k] = n
	a := t.f.a
	for _, in := range k.b.Instrs {
		switch in := in.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
			t.effects(k.ctx, in.(ssa.Instruction), n)
		case ssa.CallInstruction:
			t.effects(k.ctx, in, n)
			if si := a.callees[siteKey{k.ctx, in}]; si != nil {
				for _, c := range si.internal {
					t.ctxTaint(c, n)
				}
				for _, c := range si.callbacks {
					t.ctxTaint(c, n)
				}
				for _, c := range si.once {
					t.ctxTaint(c, n)
				}
				for _, r := range si.spawned {
					t.ctxTaint(r.ctx, n)
				}
			}
		}
	}
}

func (t *Taint) effects(ctx *Ctx, in ssa.Instruction, n fnode) {
	t.f.a.accesses(ctx, in, func(ac Access) {
		if !ac.write {
			return
		}
		w := why{prev: n, in: in, ctx: ctx, ctl: true}
		if ac.path != "" && strings.HasSuffix(ac.path, "{}") {
			base := strings.TrimSuffix(ac.path, "{}")
			for _, c := range t.f.cellsUnder(ac.o, base+"{") {
				t.mark(c, w)
			}
			return
		}
		if ac.prefix {
			for _, c := range t.f.cellsUnder(ac.o, ac.path) {
				t.mark(c, w)
			}
		}
		t.mark(t.f.cell(ac.o, ac.path), w)
	})
	if s, ok := in.(*ssa.Send); ok {
		for _, e := range t.f.a.pts(ctx, s.Chan) {
			t.mark(t.f.cell(e.o, e.path+"<-"), why{prev: n, in: in, ctx: ctx, ctl: true})
		}
	}
}

// explain lists the positions along which a node became tainted.
func (t *Taint) explain(n fnode) string {
	var parts []string
	last := ""
	for i := 0; i < 60; i++ {
		w, ok := t.nodes[n]
		if !ok || w.in == nil {
			break
		}
		s := t.f.a.p.instrPos(w.in)
		if w.ctl {
			s += " (control)"
		}
		if s != last {
			parts = append(parts, s)
			last = s
		}
		n = w.prev
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	if len(parts) > 14 {
		parts = append(append(append([]string{}, parts[:6]...), "..."), parts[len(parts)-7:]...)
	}
	return strings.Join(parts, " -> ")
}
