package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// initRoots analyses the initialisation of all repository packages.
func (a *PTA) initRoots(only func(path string) bool) {
	for _, q := range a.p.Pkgs {
		if only != nil && !only(q.PkgPath) {
			continue
		}
		sp := a.p.byPth[q.PkgPath]
		if sp == nil {
			continue
		}
		f := sp.Func("init")
		if f == nil {
			continue
		}
		r := a.newRoot("init "+q.PkgPath, f)
		r.init = true
		a.startRoot(r)
	}
	a.solve()
}

// libPath tells the library packages: everything except commands.
func libPath(path string) bool {
	rel := trimMod(path)
	return rel == "" || (len(rel) < 4 || rel[:4] != "cmd/")
}

func trimMod(path string) string {
	if path == modPath {
		return ""
	}
	if len(path) > len(modPath) {
		return path[len(modPath)+1:]
	}
	return path
}

// compatible tells whether a value of type t (with element e) can be passed as
// a parameter of type pt.
func (a *PTA) compatible(e Elem, t, pt types.Type) (Elem, bool) {
	if types.IsInterface(pt) {
		dyn := e.t
		if dyn == nil {
			dyn = t
		}
		if types.IsInterface(dyn) {
			return Elem{e.o, e.path, dyn}, types.Implements(dyn, pt.Underlying().(*types.Interface)) || types.Identical(dyn, pt)
		}
		if types.Implements(dyn, pt.Underlying().(*types.Interface)) {
			return Elem{e.o, e.path, dyn}, true
		}
		return e, false
	}
	st := t
	if e.t != nil {
		st = e.t
	}
	if types.Identical(st, pt) && pointerish(pt) {
		return Elem{e.o, e.path, nil}, true
	}
	return e, false
}

// envAdd makes values available as arguments of exported operations.
func (a *PTA) envAdd(n *Node, t types.Type) {
	if !pointerish(t) {
		return
	}
	a.on(n, func(e Elem) {
		pe := a.publish(e)
		ee := envElem{pe, t}
		for _, x := range a.env {
			if x.e == pe && types.Identical(x.t, t) {
				return
			}
		}
		a.env = append(a.env, ee)
		for _, s := range a.envSubs {
			if ce, ok := a.compatible(pe, t, s.t); ok {
				a.add(s.n, ce)
			}
		}
	})
}

func (a *PTA) envSub(n *Node, t types.Type) {
	a.envSubs = append(a.envSubs, envSub{n, t})
	for _, x := range append([]envElem(nil), a.env...) {
		if ce, ok := a.compatible(x.e, x.t, t); ok {
			a.add(n, ce)
		}
	}
}

// apiRoot starts an exported operation: its parameters are any value the
// exported operations hand out, or user-supplied values.
func (a *PTA) apiRoot(name string, fn *ssa.Function) *Root {
	for _, r := range a.roots {
		if r.api && r.fn == fn {
			return r
		}
	}
	r := a.newRoot(name, fn)
	r.api, r.conc = true, true
	a.startRoot(r)
	for _, p := range fn.Params {
		a.envParam(r, p, p.Type(), "")
	}
	a.solve()
	res := fn.Signature.Results()
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, v := range ret.Results {
			_ = res
			_ = i
			for _, l := range leaves(v.Type(), false) {
				a.envAdd(a.reg(r.ctx, v, l.path), l.t)
			}
		}
	}
	a.solve()
	return r
}

func (a *PTA) envParam(r *Root, p *ssa.Parameter, t types.Type, path string) {
	if st, ok := t.Underlying().(*types.Struct); ok && !extType(t) {
		// a struct passed by value, e.g. a method with a value receiver
		for i := 0; i < st.NumFields(); i++ {
			_ = i
		}
		for _, l := range leaves(t, false) {
			a.envSub(a.reg(r.ctx, p, path+l.path), l.t)
			// values of such a struct reachable from handed-out pointers
		}
		return
	}
	for _, l := range leaves(t, false) {
		n := a.reg(r.ctx, p, path+l.path)
		a.envSub(n, l.t)
		nt := namedOf(l.t)
		repoType := nt != nil && nt.Obj().Pkg() != nil && isRepoPath(nt.Obj().Pkg().Path())
		if _, isIface := l.t.Underlying().(*types.Interface); isIface || !repoType {
			e := a.extValue(r.ctx, p, "user"+l.path, l.t, nil)
			e.o.shared, e.o.user = true, true
			a.add(n, e)
		}
		if sl, ok := l.t.Underlying().(*types.Slice); ok {
			// elements of a variadic or slice parameter
			o := a.extValue(r.ctx, p, "userslice"+l.path, l.t, nil)
			o.o.shared, o.o.user = false, true
			a.add(n, o)
			for _, el := range leaves(sl.Elem(), false) {
				a.envSub(a.cell(o.o, "[]"+el.path), el.t)
			}
		}
	}
}

// buildLib analyses the library with all its exported operations as concurrent
// roots.
func (a *PTA) buildLib() {
	a.initRoots(libPath)
	// Values of exported variables.
	for _, q := range a.p.Pkgs {
		if !libPath(q.PkgPath) || isInternal(q.PkgPath) {
			continue
		}
		sp := a.p.byPth[q.PkgPath]
		for _, name := range sortedMembers(sp) {
			g, ok := sp.Members[name].(*ssa.Global)
			if !ok || !g.Object().Exported() {
				continue
			}
			t := deref(g.Type())
			for _, l := range leaves(t, false) {
				a.envAdd(a.cell(a.global(g), l.path), l.t)
			}
		}
	}
	for _, e := range a.p.exported(func(path string) bool { return libPath(path) && !isInternal(path) }) {
		a.apiRoot(e.name, e.fn)
	}
	a.solve()
}

func isInternal(path string) bool {
	rel := trimMod(path)
	return len(rel) >= 9 && rel[:9] == "internal/"
}

func sortedMembers(sp *ssa.Package) []string {
	var out []string
	for n, m := range sp.Members {
		if m.Object() == nil {
			continue
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

type export struct {
	name string
	fn   *ssa.Function
	recv types.Type
}

// exported lists the exported operations: functions, methods of exported types,
// and the methods by which unexported types implement exported interfaces.
func (p *Prog) exported(in func(path string) bool) []export {
	var out []export
	var ifaces []*types.Interface
	for _, q := range p.Pkgs {
		if !libPath(q.PkgPath) || isInternal(q.PkgPath) {
			continue
		}
		sp := p.byPth[q.PkgPath]
		for _, name := range sortedMembers(sp) {
			if t, ok := sp.Members[name].(*ssa.Type); ok && t.Object().Exported() {
				if i, ok := t.Type().Underlying().(*types.Interface); ok && i.NumMethods() > 0 {
					ifaces = append(ifaces, i)
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	add := func(name string, fn *ssa.Function, recv types.Type) {
		if fn == nil || seen[fn] || !analysable(fn) {
			return
		}
		seen[fn] = true
		out = append(out, export{name, fn, recv})
	}
	for _, q := range p.Pkgs {
		if !in(q.PkgPath) {
			continue
		}
		sp := p.byPth[q.PkgPath]
		for _, name := range sortedMembers(sp) {
			switch m := sp.Members[name].(type) {
			case *ssa.Function:
				if m.Object().Exported() && m.Signature.Recv() == nil && m.TypeParams().Len() == 0 {
					add(q.Types.Name()+"."+name, m, nil)
				}
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok || types.IsInterface(n) {
					continue
				}
				allow := map[string]bool{}
				pt := types.NewPointer(n)
				for _, i := range ifaces {
					for _, T := range []types.Type{n, pt} {
						if types.Implements(T, i) {
							for k := 0; k < i.NumMethods(); k++ {
								allow[i.Method(k).Name()] = true
							}
						}
					}
				}
				for k := 0; k < n.NumMethods(); k++ {
					f := n.Method(k)
					if !f.Exported() {
						continue
					}
					if !m.Object().Exported() && !allow[f.Name()] {
						continue
					}
					add(q.Types.Name()+"."+name+"."+f.Name(), p.SSA.FuncValue(f), n)
				}
			}
		}
	}
	return out
}
