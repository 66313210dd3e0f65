package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values by what they are made from: small programs, followed through every
// call, not following the order of statements.

// frame is one call of a function.
type frame struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	up   *frame // the caller, or who made the closure
	lex  *frame // where the closure was made
	mc   *ssa.MakeClosure
	subs map[ssa.Instruction]*frame
}

type frames struct {
	into  func(fn *ssa.Function) bool
	stop  func(t types.Type) string // types whose values are named, "" for others
	all   []*frame
	loops map[*ssa.Function][]*Domain
}

// piece is a value, or a part of one.
type part struct {
	f    *frame
	v    ssa.Value // nil: never set
	path string
}

func (fs *frames) root(fn *ssa.Function) *frame {
	f := &frame{fn: fn, subs: map[ssa.Instruction]*frame{}}
	fs.all = append(fs.all, f)
	fs.explore(f)
	return f
}

func (fs *frames) explore(f *frame) {
	depth := 0
	for x := f; x != nil; x = x.up {
		depth++
		if x != f && x.fn == f.fn {
			return
		}
	}
	if depth > 12 || len(fs.all) > 4000 {
		return
	}
	sub := func(in ssa.Instruction, fn *ssa.Function, ci ssa.CallInstruction, lex *frame, mc *ssa.MakeClosure) {
		if fn == nil || len(fn.Blocks) == 0 || !fs.into(fn) {
			return
		}
		g := &frame{fn: fn, call: ci, up: f, lex: lex, mc: mc, subs: map[ssa.Instruction]*frame{}}
		if ci != nil {
			f.subs[in] = g
		}
		fs.all = append(fs.all, g)
		fs.explore(g)
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			ci, isCall := in.(ssa.CallInstruction)
			if isCall && !ci.Common().IsInvoke() {
				switch v := ci.Common().Value.(type) {
				case *ssa.Function:
					sub(in, v, ci, nil, nil)
				case *ssa.Builtin:
				default:
					for _, p := range fs.follow(f, v, "") {
						switch w := p.v.(type) {
						case *ssa.Function:
							sub(in, w, ci, nil, nil)
						case *ssa.MakeClosure:
							sub(in, w.Fn.(*ssa.Function), ci, p.f, w)
						}
					}
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				called := false
				for _, u := range *mc.Referrers() {
					if c, ok := u.(ssa.CallInstruction); ok && c.Common().Value == mc {
						called = true
					}
				}
				if !called {
					sub(in, mc.Fn.(*ssa.Function), nil, f, mc)
				}
				continue
			}
			for _, op := range in.Operands(nil) {
				if fn, ok := (*op).(*ssa.Function); ok && !(isCall && op == &ci.Common().Value) {
					sub(in, fn, nil, nil, nil)
				}
			}
		}
	}
}

func (f *frame) param(p *ssa.Parameter) ssa.Value {
	if f.call == nil {
		return nil
	}
	cc := f.call.Common()
	for i, q := range f.fn.Params {
		if q == p && i < len(cc.Args) && len(cc.Args) == len(f.fn.Params) {
			return cc.Args[i]
		}
	}
	return nil
}

func (f *frame) free(v *ssa.FreeVar) (*frame, ssa.Value) {
	if f.mc == nil {
		return nil, nil
	}
	for i, q := range f.fn.FreeVars {
		if q == v {
			return f.lex, f.mc.Bindings[i]
		}
	}
	return nil, nil
}

// follow finds what a value, or a part of it, is made from.
func (fs *frames) follow(f *frame, v ssa.Value, path string) []part {
	w := &follower{fs: fs, seen: map[part]bool{}}
	w.val(f, v, path)
	return w.out
}

type follower struct {
	fs   *frames
	seen map[part]bool
	out  []part
}

func (w *follower) leaf(f *frame, v ssa.Value, path string) {
	w.out = append(w.out, part{f, v, path})
}

func (w *follower) val(f *frame, v ssa.Value, path string) {
	k := part{f, v, path}
	if w.seen[k] || len(w.seen) > 3000 {
		return
	}
	w.seen[k] = true
	if w.fs.stop != nil && w.fs.stop(v.Type()) != "" {
		w.leaf(f, v, path)
		return
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		w.val(f, x.X, path)
	case *ssa.ChangeInterface:
		w.val(f, x.X, path)
	case *ssa.MakeInterface:
		w.val(f, x.X, path)
	case *ssa.Convert:
		if isStringT(x.Type()) && isStringT(x.X.Type()) {
			w.val(f, x.X, path)
			return
		}
		w.leaf(f, v, path)
	case *ssa.TypeAssert:
		w.val(f, x.X, path)
	case *ssa.Phi:
		for _, e := range x.Edges {
			w.val(f, e, path)
		}
	case *ssa.Parameter:
		if a := f.param(x); a != nil {
			w.val(f.up, a, path)
			return
		}
		w.leaf(f, v, path)
	case *ssa.FreeVar:
		if g, b := f.free(x); b != nil {
			w.val(g, b, path)
			return
		}
		w.leaf(f, v, path)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			w.leaf(f, v, path)
			return
		}
		w.addr(f, x.X, path)
	case *ssa.Field:
		w.val(f, x.X, fieldPath(x.X.Type(), x.Field)+path)
	case *ssa.Index:
		if isStringT(x.X.Type()) {
			w.leaf(f, v, path)
			return
		}
		w.val(f, x.X, w.fs.index(f, x.Index)+path)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && w.results(f, call, x.Index, path) {
			return
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			w.val(f, ta.X, path)
			return
		}
		w.leaf(f, v, path)
	case *ssa.Call:
		if w.results(f, x, 0, path) {
			return
		}
		if k := callKey(&x.Call); k == "slices.Clone" || k == "strings.Clone" {
			w.val(f, x.Call.Args[0], path)
			return
		}
		w.leaf(f, v, path)
	default:
		w.leaf(f, v, path)
	}
}

// results follows what a function answers. A failing return is no answer.
func (w *follower) results(f *frame, call *ssa.Call, i int, path string) bool {
	g := f.subs[call]
	if g == nil {
		return false
	}
	for _, b := range g.fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(r.Results) || failingRet(r) && !isError(r.Results[i].Type()) {
			continue
		}
		w.val(g, r.Results[i], path)
	}
	return true
}

// addr follows what is stored at an address.
func (w *follower) addr(f *frame, a ssa.Value, path string) {
	if w.fs.stop != nil && w.fs.stop(deref(a.Type())) != "" {
		w.leaf(f, a, path)
		return
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		w.addr(f, x.X, fieldPath(deref(x.X.Type()), x.Field)+path)
	case *ssa.IndexAddr:
		if _, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
				w.addr(f, x.X, w.fs.index(f, x.Index)+path)
				return
			}
		}
		w.leaf(f, a, path)
	case *ssa.Alloc:
		w.stored(f, x, "", path)
	case *ssa.Global:
		w.leaf(f, a, path)
	case *ssa.Parameter:
		if arg := f.param(x); arg != nil {
			w.addr(f.up, arg, path)
			return
		}
		w.leaf(f, a, path)
	case *ssa.FreeVar:
		if g, b := f.free(x); b != nil {
			w.addr(g, b, path)
			return
		}
		w.leaf(f, a, path)
	case *ssa.Phi:
		k := part{f, a, path + "*"}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		for _, e := range x.Edges {
			w.addr(f, e, path)
		}
	default:
		// a pointer which was answered or kept
		for _, p := range w.fs.follow(f, a, "") {
			if p.v != nil && p.v != a && p.path == "" {
				if c, ok := p.v.(*ssa.Const); ok && c.Value == nil {
					continue
				}
				w.addr(p.f, p.v, path)
				continue
			}
			if p.v == nil {
				w.leaf(f, a, path)
				continue
			}
			w.leaf(p.f, p.v, p.path+path)
		}
	}
}

// stored follows the stores to a variable or to a part of it. at is the part of
// the variable the address is.
func (w *follower) stored(f *frame, a ssa.Value, at, want string) {
	k := part{f, a, at + "=" + want}
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	n := len(w.out)
	found := w.storesAt(f, a, at, want)
	if !found && len(w.out) == n && at == "" {
		w.leaf(f, nil, want)
	}
}

func (w *follower) storesAt(f *frame, a ssa.Value, at, want string) bool {
	found := false
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != a {
				continue
			}
			if strings.HasPrefix(want, at) {
				found = true
				w.val(f, r.Val, want[len(at):])
			} else if strings.HasPrefix(at, want) {
				found = true
				w.leaf(f, a, "?"+want)
			}
		case *ssa.FieldAddr:
			if r.X == a && related(at+fieldPath(deref(a.Type()), r.Field), want) {
				found = w.storesAt(f, r, at+fieldPath(deref(a.Type()), r.Field), want) || found
			}
		case *ssa.IndexAddr:
			if p := at + w.fs.index(f, r.Index); r.X == a && related(p, want) {
				found = w.storesAt(f, r, p, want) || found
			}
		case *ssa.MakeClosure:
			for _, g := range w.fs.all {
				if g.mc != r || g.lex != f {
					continue
				}
				for i, b := range r.Bindings {
					if b == a {
						found = w.storesAt(g, g.fn.FreeVars[i], at, want) || found
					}
				}
			}
		case *ssa.Slice:
			for _, u := range *r.Referrers() {
				c, ok := u.(*ssa.Call)
				if !ok || r.Low != nil || r.High != nil {
					continue
				}
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && c.Call.Args[0] == r && len(want) > len(at) {
					found = true
					w.val(f, c.Call.Args[1], want[len(at):])
				}
			}
		case ssa.CallInstruction:
			if g := f.subs[r]; g != nil {
				for i, x := range r.Common().Args {
					if x == a && i < len(g.fn.Params) {
						found = w.storesAt(g, g.fn.Params[i], at, want) || found
					}
				}
			}
		}
	}
	return found
}

// related tells whether one part lies in the other.
func related(p, q string) bool {
	if !strings.HasPrefix(p, q) && !strings.HasPrefix(q, p) {
		return false
	}
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	longer := p
	if len(q) > len(p) {
		longer = q
	}
	return n == len(longer) || longer[n] == '.' || longer[n] == '['
}

// index spells an index: its number, or [] if it runs over a whole loop.
func (fs *frames) index(f *frame, i ssa.Value) string {
	if l := lin(i); l.v == nil {
		return "[" + strconv.Itoa(int(l.k)) + "]"
	} else if s := seqOf(linVal{l.v, 0}); s != nil && l.k != 0 {
		return "[len" + strconv.Itoa(int(l.k)) + "]"
	}
	if in, ok := i.(ssa.Instruction); ok {
		for _, d := range fs.loopsIn(in.Parent()) {
			if d.isIndex(i) {
				return "[]"
			}
			if ex, ok := i.(*ssa.Extract); ok && d.next != nil && ex.Tuple == d.next {
				return "[]"
			}
			// worked out from the index of the loop
			if b, ok := i.(*ssa.BinOp); ok && d.kind == "count" {
				for _, x := range []ssa.Value{b.X, b.Y} {
					if d.isIndex(x) {
						return "[" + b.Op.String() + "]"
					}
				}
			}
		}
	}
	return "[?]"
}

func (fs *frames) loopsIn(fn *ssa.Function) []*Domain {
	if fs.loops == nil {
		fs.loops = map[*ssa.Function][]*Domain{}
	}
	ds, ok := fs.loops[fn]
	if !ok {
		ds = loopsOf(fn)
		for _, d := range ds {
			if d.kind == "other" {
				d.loose = true
				d.classify()
			}
		}
		fs.loops[fn] = ds
	}
	return ds
}

// name spells what a value is made from.
func (fs *frames) name(f *frame, v ssa.Value) string { return fs.names(fs.follow(f, v, ""), 0) }

func (fs *frames) names(ps []part, d int) string {
	set := map[string]bool{}
	for _, p := range ps {
		set[fs.partName(p, d)] = true
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	if len(out) == 1 {
		return out[0]
	}
	return "{" + strings.Join(out, "|") + "}"
}

func (fs *frames) partName(p part, d int) string {
	if p.v == nil {
		return "unset" + p.path
	}
	if d > 8 {
		return "?"
	}
	sub := func(v ssa.Value) string { return fs.names(fs.follow(p.f, v, ""), d+1) }
	if fs.stop != nil {
		if s := fs.stop(deref(p.v.Type())); s != "" {
			return s + p.path
		}
	}
	switch x := p.v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.Global:
		return "global " + x.Name() + p.path
	case *ssa.Parameter:
		return "param " + x.Name() + p.path
	case *ssa.IndexAddr:
		return sub(x.X) + fs.index(p.f, x.Index) + p.path
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return sub(x.X) + p.path
		}
		if k, ok := constInt(x.Low); ok && k == 0 && x.High == nil {
			return sub(x.X) + p.path
		}
		return sub(x.X) + "[part]" + p.path
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			rg, ok := t.Iter.(*ssa.Range)
			if !ok {
				break
			}
			if x.Index == 2 {
				return sub(rg.X) + "[]" + p.path
			}
			if mm, f := fs.mapOf(p.f, rg.X); mm != nil {
				return fs.keys(f, mm, d+1)
			}
			return sub(rg.X) + "[key]"
		case *ssa.Call:
			s := fs.callName(p.f, t, d)
			if x.Index > 0 {
				s += "#" + strconv.Itoa(x.Index)
			}
			return s + p.path
		case *ssa.Lookup:
			return sub(t.X) + "[" + sub(t.Index) + "]" + p.path
		}
	case *ssa.Lookup:
		return sub(x.X) + "[" + sub(x.Index) + "]" + p.path
	case *ssa.Call:
		return fs.callName(p.f, x, d) + p.path
	case *ssa.BinOp:
		return "(" + sub(x.X) + x.Op.String() + sub(x.Y) + ")"
	}
	return "?" + p.path
}

func (fs *frames) callName(f *frame, c *ssa.Call, d int) string {
	var args []string
	for _, a := range c.Call.Args {
		args = append(args, fs.names(fs.follow(f, a, ""), d+1))
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name() + "(" + strings.Join(args, ", ") + ")"
	}
	if c.Call.IsInvoke() {
		return fs.names(fs.follow(f, c.Call.Value, ""), d+1) + "." + c.Call.Method.Name() + "(" + strings.Join(args, ", ") + ")"
	}
	fn := c.Call.StaticCallee()
	if fn == nil {
		return "?"
	}
	if fn.Signature.Recv() != nil && len(args) > 0 {
		return args[0] + "." + fn.Name() + "(" + strings.Join(args[1:], ", ") + ")"
	}
	return fn.Name() + "(" + strings.Join(args, ", ") + ")"
}

// mapOf finds the one map a value is.
func (fs *frames) mapOf(f *frame, v ssa.Value) (*ssa.MakeMap, *frame) {
	ps := fs.follow(f, v, "")
	if len(ps) != 1 || ps[0].path != "" {
		return nil, nil
	}
	mm, _ := ps[0].v.(*ssa.MakeMap)
	return mm, ps[0].f
}

type update struct {
	f *frame
	u *ssa.MapUpdate
}

// updates are the entries put into a map.
func (fs *frames) updates(f *frame, mm *ssa.MakeMap) []update {
	var out []update
	for _, g := range fs.all {
		for _, b := range g.fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				for _, p := range fs.follow(g, u.Map, "") {
					if p.v == mm && p.f == f {
						out = append(out, update{g, u})
						break
					}
				}
			}
		}
	}
	return out
}

func (fs *frames) keys(f *frame, mm *ssa.MakeMap, d int) string {
	set := map[string]bool{}
	for _, u := range fs.updates(f, mm) {
		set[fs.names(fs.follow(u.f, u.u.Key, ""), d+1)] = true
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	if len(out) == 1 {
		return out[0]
	}
	return "{" + strings.Join(out, "|") + "}"
}
