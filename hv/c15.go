package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What each key of an encoding must carry.
var specFields = map[string]string{
	"lang.id":          "Spec.Lang.ID",
	"lang.code2":       "Spec.Lang.Codes[0]",
	"lang.code3":       "Spec.Lang.Codes[1]",
	"lang.english":     "Spec.Lang.English",
	"lang.korean":      "Spec.Lang.Korean",
	"lang.script":      "Spec.Lang.Script",
	"lang.translit[]":  "Spec.Lang.Translit[]",
	"config.stage":     "Spec.Config.Stage",
	"config.authors[]": "Spec.Config.Authors[]",
	"test[].word":      "Spec.Test[][0]",
	"test[].result":    "Spec.Test[][1]",
	"source":           "Spec.Source",
}

var traceFields = map[string]string{
	"step":      "Trace.Step",
	"word":      "Trace.Word",
	"why":       "Trace.Why",
	"rule.id":   "Trace.Rule.ID",
	"rule.from": "Trace.Rule.From.String()",
	"rule.to":   "Trace.Rule.To.String()",
}

// What each field of a spec must be read from, by what its name ends with.
var parseFields = []struct{ path, from string }{
	{".Lang.ID", `["lang"].One("id")`},
	{".Lang.Codes[0]", `["lang"].All("codes")[0]`},
	{".Lang.Codes[1]", `["lang"].All("codes")[1]`},
	{".Lang.English", `["lang"].One("english")`},
	{".Lang.Korean", `["lang"].One("korean")`},
	{".Lang.Script", `["lang"].One("script")`},
	{".Lang.Translit", `["lang"].All("translit")`},
	{".Config.Authors", `["config"].All("author")`},
	{".Config.Stage", `["config"].One("stage")`},
	{".Macros", `["macros"].Injective()`},
	{".Vars", `["vars"].Map()`},
	{".Normalize", `["normalize"].Map()`},
}

type encoder struct {
	fs    *frames
	p     *Prog
	r     *Report
	what  string
	out   map[string]map[string]string // key path -> source -> where
	done  map[string]bool
	langs []specAt // specs kept under a key
}

type specAt struct {
	f   *frame
	key ssa.Value
	at  string // key path
	u   ssa.Instruction
}

func (e *encoder) add(out, src, where string) {
	if e.out[out] == nil {
		e.out[out] = map[string]string{}
	}
	if _, ok := e.out[out][src]; !ok {
		e.out[out][src] = where
	}
}

func (e *encoder) where(in ssa.Instruction) string { return e.p.instrPos(in) }

func hangulizeStop(t types.Type) string {
	n := namedOf(deref(t))
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath {
		return ""
	}
	if s := n.Obj().Name(); s == "Spec" || s == "Trace" {
		return s
	}
	return ""
}

// walk notes what a value, encoded at a place of the output, is made from.
func (e *encoder) walk(f *frame, v ssa.Value, path, out string, at ssa.Instruction) {
	k := fmt.Sprintf("%p %p %s %s", f, v, path, out)
	if e.done[k] {
		return
	}
	e.done[k] = true
	if mi, ok := v.(*ssa.MakeInterface); ok {
		e.jsType(mi, out)
	}
	// a struct encoded by its fields
	t := v.Type()
	if path == "" && hangulizeStop(t) == "" {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			t = mi.X.Type()
			if hangulizeStop(t) != "" {
				t = nil
			}
		}
		if t != nil {
			if st, ok := deref(t).Underlying().(*types.Struct); ok && isRepoT(t) {
				e.structOf(f, v, "", st, out, at)
				return
			}
		}
	}
	for _, p := range e.fs.follow(f, v, path) {
		e.leafOf(p, out, at)
	}
}

func isRepoT(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path())
}

// pointerTo unpacks a pointer handed on as any value.
func pointerTo(v ssa.Value) (ssa.Value, types.Type, bool) {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	p, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, nil, false
	}
	return v, p.Elem(), true
}

// structOf walks the fields json.Marshal encodes.
func (e *encoder) structOf(f *frame, v ssa.Value, path string, st *types.Struct, out string, at ssa.Instruction) {
	for i := 0; i < st.NumFields(); i++ {
		fd := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		name, opts, _ := strings.Cut(tag, ",")
		if tag == "-" || !fd.Exported() && !fd.Anonymous() {
			continue
		}
		if name == "" {
			name = fd.Name()
		}
		key := strings.TrimPrefix(out+"."+name, ".")
		if strings.Contains(","+opts+",", ",omitempty,") || strings.Contains(","+opts+",", ",omitzero,") {
			e.r.fail("dropped", e.what+":"+key, e.p.pos(fd.Pos()), "%s leaves %q out when it is empty", e.what, key)
		}
		if strings.Contains(","+opts+",", ",string,") && !isStringT(fd.Type()) {
			e.r.fail("changed", e.what+":"+key, e.p.pos(fd.Pos()), "%s quotes %q", e.what, key)
		}
		fp := path + "." + fd.Name()
		if s2, ok := fd.Type().Underlying().(*types.Struct); ok && isRepoT(fd.Type()) {
			e.structOf(f, v, fp, s2, key, at)
			continue
		}
		n := 0
		ps := e.fs.follow(f, v, fp)
		if x, _, ok := pointerTo(v); ok {
			w := &follower{fs: e.fs, seen: map[part]bool{}}
			w.addr(f, x, fp)
			ps = w.out
		}
		for _, p := range ps {
			n++
			e.leafOf(p, key, at)
		}
		if n == 0 {
			e.add(key, "?", e.p.pos(fd.Pos()))
		}
	}
}

// jsType checks that JavaScript takes a value.
func (e *encoder) jsType(mi *ssa.MakeInterface, out string) {
	if e.what != "the JavaScript value" {
		return
	}
	t := mi.X.Type()
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, named := t.(*types.Named); !named && u.Info()&types.IsComplex == 0 {
			return
		}
	case *types.Slice:
		if it, ok := u.Elem().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			if _, named := t.(*types.Named); !named {
				return
			}
		}
	case *types.Map:
		if it, ok := u.Elem().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			if _, named := t.(*types.Named); !named {
				return
			}
		}
	default:
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "syscall/js" {
			return
		}
		if types.IsInterface(t) {
			return
		}
	}
	e.r.fail("type", e.what+":"+out, e.where(mi), "%s is given a %s for %q, which js.ValueOf refuses with a panic", e.what, t, out)
}

func (e *encoder) leafOf(p part, out string, at ssa.Instruction) {
	if p.v == nil {
		e.add(out, "unset", e.where(at))
		return
	}
	in, _ := p.v.(ssa.Instruction)
	if in == nil {
		in = at
	}
	if p.path != "" {
		s := e.fs.partName(p, 0)
		if t := partType(p.v.Type(), p.path); t != nil && isStringSlice(t) {
			out, s = out+"[]", s+"[]"
		}
		e.add(out, s, e.where(in))
		return
	}
	switch x := p.v.(type) {
	case *ssa.Call:
		switch callKey(&x.Call) {
		case jsPkg + "ValueOf":
			e.walk(p.f, x.Call.Args[0], "", out, x)
			return
		case jsPkg + "Null", jsPkg + "Undefined":
			e.add(out, "null", e.where(x))
			return
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			e.walk(p.f, x.Call.Args[0], "", out, x)
			if len(x.Call.Args) == 2 {
				e.appended(p.f, x, out)
			}
			return
		}
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				return
			}
			e.add(out, "null", e.where(at))
			return
		}
	case *ssa.MakeMap:
		e.object(p.f, x, out)
		return
	case *ssa.MakeSlice:
		e.made(p.f, x, out)
		return
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Low == nil && x.High == nil {
			e.literal(p.f, al, out+"[]", nil)
			return
		}
	}
	if isStringSlice(deref(p.v.Type())) {
		s := e.fs.partName(p, 0)
		e.add(out+"[]", s+"[]", e.where(in))
		return
	}
	e.add(out, e.fs.partName(p, 0), e.where(in))
}

// partType is the type of a part of a value.
func partType(t types.Type, path string) types.Type {
	for path != "" {
		t = deref(t)
		n := strings.IndexAny(path[1:], ".[") + 1
		if n == 0 {
			n = len(path)
		}
		head := path[:n]
		path = path[n:]
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = nil
			for i := 0; i < u.NumFields(); i++ {
				if "."+u.Field(i).Name() == head {
					t = u.Field(i).Type()
				}
			}
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return nil
		}
		if t == nil {
			return nil
		}
	}
	return t
}

// literal walks the elements of a list written out.
func (e *encoder) literal(f *frame, al *ssa.Alloc, out string, at ssa.Instruction) {
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, u := range *ia.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr == ia {
					e.walk(f, u.Val, "", out, u)
				}
			case *ssa.FieldAddr:
				// a struct built in place
				if st, ok := deref(ia.Type()).Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if u.Field != i {
							continue
						}
						name, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
						if name == "" {
							name = st.Field(i).Name()
						}
						for _, w := range *u.Referrers() {
							if s, ok := w.(*ssa.Store); ok && s.Addr == u {
								e.walk(f, s.Val, "", out+"."+name, s)
							}
						}
					}
				}
			}
		}
	}
}

func (e *encoder) appended(f *frame, call *ssa.Call, out string) {
	v := call.Call.Args[1]
	if sl, ok := v.(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok && sl.Low == nil && sl.High == nil {
			e.literal(f, al, out+"[]", call)
			e.covered(f, call, out)
			return
		}
	}
	e.add(out+"[]", e.fs.name(f, v)+"[]", e.where(call))
}

// made walks a list whose elements are stored by index.
func (e *encoder) made(f *frame, ms *ssa.MakeSlice, out string) {
	stored := false
	for _, g := range e.fs.all {
		for _, b := range g.fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					root, fields := in.Addr, ""
					for {
						fa, ok := root.(*ssa.FieldAddr)
						if !ok {
							break
						}
						st := deref(fa.X.Type()).Underlying().(*types.Struct)
						name, _, _ := strings.Cut(reflect.StructTag(st.Tag(fa.Field)).Get("json"), ",")
						if name == "" {
							name = st.Field(fa.Field).Name()
						}
						fields = "." + name + fields
						root = fa.X
					}
					ia, ok := root.(*ssa.IndexAddr)
					if !ok || !e.is(g, ia.X, f, ms) {
						continue
					}
					stored = true
					if i := e.fs.index(g, ia.Index); i != "[]" {
						e.add(out+"[]"+fields, "?", e.where(in))
						continue
					}
					e.walk(g, in.Val, "", out+"[]"+fields, in)
					e.covered(g, in, out)
				case *ssa.Call:
					if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && e.is(g, in.Call.Args[0], f, ms) {
						stored = true
						e.add(out+"[]", e.fs.name(g, in.Call.Args[1])+"[]", e.where(in))
					}
				}
			}
		}
	}
	if k, ok := constInt(ms.Len); !stored && (!ok || k != 0) {
		e.r.fail("blank", e.what+":"+out, e.where(ms), "%s starts %q with blank elements", e.what, out)
	}
}

func (e *encoder) is(g *frame, v ssa.Value, f *frame, want ssa.Value) bool {
	ps := e.fs.follow(g, v, "")
	for _, p := range ps {
		if p.f == f && p.v == want && p.path == "" {
			return true
		}
	}
	return false
}

// object walks the entries of a map.
func (e *encoder) object(f *frame, mm *ssa.MakeMap, out string) {
	for _, u := range e.fs.updates(f, mm) {
		ps := e.fs.follow(u.f, u.u.Key, "")
		key := "*"
		if len(ps) == 1 {
			if s, ok := constStr(ps[0].v); ok {
				key = s
			}
		}
		full := strings.TrimPrefix(out+"."+key, ".")
		if key == "*" {
			e.langs = append(e.langs, specAt{u.f, u.u.Key, full, u.u})
			e.covered(u.f, u.u, full)
		} else if u.f == f && e.skippable(mm, u.u) {
			e.r.fail("dropped", e.what+":"+full, e.where(u.u), "%s may leave %q out", e.what, full)
		}
		e.walk(u.f, u.u.Value, "", full, u.u)
	}
}

// skippable tells whether a function may return without an instruction that
// follows another one.
func (e *encoder) skippable(from ssa.Instruction, in ssa.Instruction) bool {
	if from.Block() == in.Block() {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{in.Block(): true}
	st := []*ssa.BasicBlock{from.Block()}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !failingRet(r) {
			return true
		}
		st = append(st, b.Succs...)
	}
	return false
}

// covered checks that a loop goes over a whole list and does its work for each
// element.
func (e *encoder) covered(f *frame, in ssa.Instruction, out string) {
	var d *Domain
	for _, x := range e.fs.loopsIn(in.Parent()) {
		if x.body[in.Block()] && (d == nil || len(x.body) < len(d.body)) {
			d = x
		}
	}
	if d == nil {
		return
	}
	e.r.count("loops", 1)
	if d.kind == "other" {
		e.r.open("loop", e.what+":"+out, "%s: the loop at %s that fills %q has an unknown form", e.what, e.where(in), out)
		return
	}
	bad := func(format string, args ...any) {
		e.r.fail("incomplete", e.what+":"+out, e.where(in), "%s: %s", e.what, fmt.Sprintf(format, args...))
	}
	if d.kind == "count" {
		seq := seqOf(d.hi)
		if d.lo.v != nil || d.lo.k != 0 || seq == nil {
			if d.lo.v == nil && d.lo.k > 0 || seq == nil && d.hi.v != nil && d.hi.k < 0 {
				bad("the loop that fills %q does not go over the whole list", out)
			}
			return
		}
		if d.desc {
			if _, isMap := in.(*ssa.MapUpdate); !isMap {
				bad("%q is filled backwards", out)
			}
		}
	}
	// a round that does nothing
	start := d.hdr.Succs[d.in]
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) *ssa.BasicBlock
	walk = func(b *ssa.BasicBlock) *ssa.BasicBlock {
		if b == in.Block() || seen[b] {
			return nil
		}
		seen[b] = true
		for i, s := range b.Succs {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && e.fine(iff, i, in, out) {
				continue
			}
			if s == d.hdr {
				return b
			}
			if d.body[s] {
				if x := walk(s); x != nil {
					return x
				}
			}
		}
		return nil
	}
	if b := walk(start); b != nil {
		bad("a round of the loop that fills %q may do nothing (the round ending at %s)", out, e.where(b.Instrs[len(b.Instrs)-1]))
	}
	for b := range d.body {
		for i, s := range b.Succs {
			if d.body[s] || b == d.hdr && i != d.in || returnsError(s, map[*ssa.BasicBlock]bool{}) || answersNothing(s) {
				continue
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && e.fine(iff, i, in, out) {
				continue
			}
			bad("the loop that fills %q may end early (at %s)", out, e.where(b.Instrs[len(b.Instrs)-1]))
		}
	}
}

// answersNothing tells a block which returns nothing but an error.
func answersNothing(b *ssa.BasicBlock) bool {
	r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) < 2 {
		return false
	}
	return isNil(r.Results[0]) && isError(r.Results[len(r.Results)-1].Type()) && !isNil(r.Results[len(r.Results)-1])
}

// fine tells a branch taken only if loading failed, or for an element which is
// already there.
func (e *encoder) fine(iff *ssa.If, succ int, in ssa.Instruction, out string) bool {
	cond := iff.Cond
	neg := false
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		cond, neg = u.X, true
	}
	// a list of different things, or the entry itself
	set := func(m ssa.Value) bool {
		u, ok := in.(*ssa.MapUpdate)
		return ok && u.Map == m || out == "translits"
	}
	if ex, ok := cond.(*ssa.Extract); ok {
		switch t := ex.Tuple.(type) {
		case *ssa.Call:
			return (succ == 1) != neg
		case *ssa.Lookup:
			return (succ == 0) != neg && set(t.X)
		}
	}
	if lk, ok := cond.(*ssa.Lookup); ok {
		_, isMap := lk.X.Type().Underlying().(*types.Map)
		return isMap && (succ == 0) != neg && set(lk.X)
	}
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		for _, x := range []ssa.Value{b.X, b.Y} {
			if c, ok := x.(*ssa.Const); ok && c.Value == nil {
				other := b.X
				if other == x {
					other = b.Y
				}
				if isError(other.Type()) {
					return (succ == 0) == (b.Op == token.NEQ)
				}
				return (succ == 0) == (b.Op == token.EQL)
			}
		}
	}
	return false
}

// compare judges the keys of one object of the output.
func (e *encoder) compare(prefix string, want map[string]string, skip map[string]bool, nullable map[string]bool) {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if skip[k] {
			continue
		}
		full := strings.TrimPrefix(prefix+"."+k, ".")
		got := e.out[full]
		e.r.count("fields", 1)
		if len(got) == 0 {
			// a part of it may not be followed
			if e.unknownAbove(full) {
				e.r.open("followed", e.what+":"+k, "%s: what %q carries could not be followed", e.what, full)
				continue
			}
			e.r.fail("dropped", e.what+":"+k, "-", "%s has no %q", e.what, k)
			continue
		}
		var srcs []string
		for s := range got {
			srcs = append(srcs, s)
		}
		sort.Strings(srcs)
		for _, s := range srcs {
			if s == want[k] {
				e.r.sample("%s: %s is %s", e.what, k, s)
				continue
			}
			if strings.Contains(s, "?") {
				e.r.open("followed", e.what+":"+k, "%s: what %q carries could not be followed: %s (%s)", e.what, full, s, got[s])
				continue
			}
			if s == "unset" && len(srcs) > 1 {
				continue
			}
			e.r.fail("swapped", e.what+":"+k, got[s], "%s: %q carries %s instead of %s", e.what, k, s, want[k])
		}
	}
	_ = nullable
}

// unknownAbove tells whether something around a key is not known.
func (e *encoder) unknownAbove(full string) bool {
	for out, srcs := range e.out {
		if out == full || !strings.HasPrefix(full, out) && !strings.HasPrefix(strings.ReplaceAll(full, "[]", ""), out) {
			continue
		}
		for s := range srcs {
			if strings.Contains(s, "?") {
				return true
			}
		}
	}
	return false
}

// prefixes finds where in the output objects with values of a kind are.
func (e *encoder) prefixes(kind string, want map[string]string) []string {
	set := map[string]bool{}
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return len(keys[i]) > len(keys[j]) })
	for out, srcs := range e.out {
		is := false
		for s := range srcs {
			is = is || strings.HasPrefix(s, kind+".")
		}
		if !is {
			continue
		}
		for _, k := range keys {
			if out == k {
				set[""] = true
			} else if strings.HasSuffix(out, "."+k) {
				set[strings.TrimSuffix(out, "."+k)] = true
			} else {
				continue
			}
			break
		}
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// keyed checks that each spec is kept under its own language.
func (e *encoder) keyed(prefix string) {
	for _, l := range e.langs {
		if l.at != prefix {
			continue
		}
		e.r.count("keyed", 1)
		key := e.fs.name(l.f, l.key)
		val := ""
		switch u := l.u.(type) {
		case *ssa.MapUpdate:
			val = e.specOf(l.f, u.Value, 0)
		case ssa.CallInstruction:
			val = e.specOf(l.f, u.Common().Args[2], 0)
		}
		if key == "Spec.Lang.ID" || strings.HasPrefix(key, "Spec.") && strings.HasSuffix(key, ".String()") {
			continue
		}
		if strings.Contains(key, "?") || val == "" || strings.Contains(val, "?") {
			e.r.open("followed", e.what+":key", "%s: which spec is kept under which key could not be followed (%s: %s)", e.what, key, val)
			continue
		}
		if val != "LoadSpec("+key+")" {
			e.r.fail("key", e.what, e.where(l.u), "%s keeps the spec %s under the key %s", e.what, val, key)
			continue
		}
		if key != "ListLangs()[]" {
			e.r.fail("key", e.what+" langs", e.where(l.u), "%s has specs of %s, not of every language", e.what, key)
		}
	}
}

// specOf finds which spec a value tells about.
func (e *encoder) specOf(f *frame, v ssa.Value, d int) string {
	if d > 12 {
		return "?"
	}
	set := map[string]bool{}
	var visit func(f *frame, v ssa.Value, d int)
	seen := map[part]bool{}
	visit = func(f *frame, v ssa.Value, d int) {
		k := part{f, v, ""}
		if seen[k] || d > 40 {
			return
		}
		seen[k] = true
		if hangulizeStop(v.Type()) == "Spec" {
			switch x := v.(type) {
			case *ssa.Parameter:
				if a := f.param(x); a != nil {
					visit(f.up, a, d+1)
					return
				}
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok {
					if g := f.subs[c]; g != nil {
						for _, b := range g.fn.Blocks {
							if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(r.Results) {
								visit(g, r.Results[x.Index], d+1)
							}
						}
						return
					}
					set[e.fs.callName(f, c, 0)] = true
					return
				}
			case *ssa.Call:
				if g := f.subs[x]; g != nil {
					for _, b := range g.fn.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
							visit(g, r.Results[0], d+1)
						}
					}
					return
				}
				set[e.fs.callName(f, x, 0)] = true
				return
			case *ssa.Phi:
				for _, y := range x.Edges {
					visit(f, y, d+1)
				}
				return
			case *ssa.Const:
				return
			case *ssa.UnOp:
				if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
					if s := soleStore(al); s != nil {
						visit(f, s.Val, d+1)
						return
					}
				}
			}
			set["?"] = true
			return
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			if p, ok := v.(*ssa.Parameter); ok {
				if a := f.param(p); a != nil {
					visit(f.up, a, d+1)
				}
			}
			return
		}
		if c, ok := v.(*ssa.Call); ok {
			if g := f.subs[c]; g != nil {
				for _, b := range g.fn.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, x := range r.Results {
							visit(g, x, d+1)
						}
					}
				}
			}
			for _, a := range c.Call.Args {
				visit(f, a, d+1)
			}
			return
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == al {
						visit(f, r.Val, d+1)
					}
				case *ssa.FieldAddr:
					for _, u := range *r.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == r {
							visit(f, s.Val, d+1)
						}
					}
				}
			}
			return
		}
		if mm, ok := v.(*ssa.MakeMap); ok {
			for _, u := range e.fs.updates(f, mm) {
				visit(u.f, u.u.Value, d+1)
			}
			return
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				visit(f, *op, d+1)
			}
		}
	}
	visit(f, v, 0)
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	if len(out) == 1 {
		return out[0]
	}
	return strings.Join(out, "|")
}

// ruleCond checks that the rule of an event is left out only if there is none.
func (e *encoder) ruleCond(prefix string) {
	full := strings.TrimPrefix(prefix+".rule", ".")
	if e.out[full] == nil {
		return
	}
	for _, f := range e.fs.all {
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				mm, ok := in.(*ssa.MakeMap)
				if !ok || !e.carries(f, mm, "Trace.Rule.") {
					continue
				}
				e.r.count("optional", 1)
				for _, c := range f.fn.Blocks {
					iff, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If)
					if !ok || !decides(c, b) {
						continue
					}
					if bo, ok := iff.Cond.(*ssa.BinOp); ok {
						n := e.fs.name(f, bo.X) + " " + e.fs.name(f, bo.Y)
						if n == "Trace.Rule nil" || n == "nil Trace.Rule" {
							continue
						}
						if strings.Contains(n, "Trace.") && !strings.Contains(n, "?") {
							e.r.fail("dropped", e.what+":rule", e.where(iff), "%s leaves the rule of an event out on a condition other than that it has none (%s)", e.what, n)
						}
					}
				}
			}
		}
	}
}

func (e *encoder) carries(f *frame, mm *ssa.MakeMap, prefix string) bool {
	for _, u := range e.fs.updates(f, mm) {
		if strings.HasPrefix(e.fs.name(u.f, u.u.Value), prefix) {
			return true
		}
	}
	return false
}

// decides tells whether a branch in c decides if b runs.
func decides(c, b *ssa.BasicBlock) bool {
	if len(c.Succs) != 2 || c == b {
		return false
	}
	can := func(s *ssa.BasicBlock) bool { return s == b || reaches(s, b) }
	return can(c.Succs[0]) != can(c.Succs[1])
}

// declared reads an interface of a TypeScript source.
func declared(src string, name string, d int) (map[string]string, bool) {
	re := regexp.MustCompile(`(?:interface|type)\s+` + name + `\s*=?\s*\{`)
	m := re.FindStringIndex(src)
	if m == nil || d > 6 {
		return nil, false
	}
	out := map[string]string{}
	i := m[1]
	ok := members(src, &i, "", out, d)
	return out, ok
}

var memberRE = regexp.MustCompile(`^(?:readonly\s+)?["']?([A-Za-z_$][\w$]*)["']?\s*(\??)\s*:\s*`)

func members(src string, i *int, prefix string, out map[string]string, d int) bool {
	for *i < len(src) {
		switch c := src[*i]; {
		case c == '}':
			*i++
			return true
		case c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == ';' || c == ',':
			*i++
			continue
		case strings.HasPrefix(src[*i:], "//"):
			n := strings.IndexByte(src[*i:], '\n')
			if n < 0 {
				return false
			}
			*i += n
			continue
		case strings.HasPrefix(src[*i:], "/*"):
			n := strings.Index(src[*i:], "*/")
			if n < 0 {
				return false
			}
			*i += n + 2
			continue
		}
		m := memberRE.FindStringSubmatch(src[*i:])
		if m == nil {
			return false
		}
		*i += len(m[0])
		key := prefix + m[1]
		if src[*i] == '{' {
			*i++
			if !members(src, i, key+".", out, d) {
				return false
			}
			if strings.HasPrefix(src[*i:], "[]") {
				return false
			}
			continue
		}
		end := strings.IndexAny(src[*i:], "\n;,}")
		if end < 0 {
			return false
		}
		t := strings.TrimSpace(src[*i : *i+end])
		*i += end
		elem := ""
		if s, ok := strings.CutSuffix(t, "[]"); ok {
			t, elem = s, "[]"
		} else if strings.HasPrefix(t, "Array<") && strings.HasSuffix(t, ">") {
			t, elem = t[6:len(t)-1], "[]"
		}
		switch t {
		case "string", "number", "boolean":
			out[key+elem] = t
		default:
			sub, ok := declared(src, regexp.QuoteMeta(t), d+1)
			if !ok {
				out[key+elem] = "?" + t
				continue
			}
			for k, v := range sub {
				out[key+elem+"."+k] = v
			}
		}
	}
	return false
}

// typescript compares the declarations of the web page.
func typescript(r *Report, repo string, decl, file string, want map[string]string, need []string) {
	what := "the TypeScript declaration of " + decl
	b, err := os.ReadFile(filepath.Join(repo, file))
	if err != nil {
		r.open("followed", what, "%s: %v", what, err)
		return
	}
	got, ok := declared(string(b), decl, 0)
	if !ok {
		r.open("followed", what, "%s in %s could not be read", what, file)
		return
	}
	for _, k := range need {
		r.count("declared", 1)
		t, ok := got[k]
		alt := strings.TrimSuffix(k, "[]")
		if alt == k {
			alt = k + "[]"
		}
		switch {
		case !ok && got[alt] != "":
			r.fail("type", what+":"+k, file, "%s: %q is declared as %s", what, k, map[bool]string{true: "a list", false: "no list"}[strings.HasSuffix(alt, "[]")])
		case !ok:
			r.fail("dropped", what+":"+k, file, "%s has no %q", what, k)
		case strings.HasPrefix(t, "?"):
			r.open("followed", what+":"+k, "%s: the type of %q could not be read: %s", what, k, t)
		case t != "string":
			r.fail("type", what+":"+k, file, "%s: %q is declared as %s, but is a string", what, k, t)
		default:
			r.sample("%s: %s is %s", what, k, t)
		}
	}
	var extra []string
	for k := range got {
		extra = append(extra, k)
	}
	sort.Strings(extra)
	for _, k := range extra {
		if want[k] == "" && !strings.HasPrefix(k, "rule") {
			r.fail("dropped", what+":"+k, file, "%s has %q, which no encoder tells", what, k)
		}
	}
}

// parsedTests checks what the examples of a spec are read from.
func parsedTests(fs *frames, f *frame, p *Prog, r *Report) {
	e := &encoder{fs: fs, p: p, r: r, what: "the parsed spec", out: map[string]map[string]string{}, done: map[string]bool{}}
	for _, b := range f.fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || isNil(ret.Results[0]) {
			continue
		}
		w := &follower{fs: fs, seen: map[part]bool{}}
		w.addr(f, ret.Results[0], ".Test")
		for _, x := range w.out {
			c, ok := x.v.(*ssa.Call)
			if !ok || len(c.Call.Args) != 2 {
				continue
			}
			if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
				continue
			}
			sl, ok := c.Call.Args[1].(*ssa.Slice)
			if !ok {
				continue
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			e.covered(x.f, c, "test")
			for i, want := range []string{`["test"].Pairs()[].Left()`, `["test"].Pairs()[].Right()[0]`} {
				r.count("parsed", 1)
				y := &follower{fs: fs, seen: map[part]bool{}}
				y.stored(x.f, al, "", "[0]["+strconv.Itoa(i)+"]")
				for _, q := range y.out {
					s := fs.partName(q, 0)
					if strings.HasSuffix(s, want) {
						r.sample("the parsed spec: test[%d] is %s", i, want)
						continue
					}
					tail := ""
					if j := strings.Index(s, "[\""); j >= 0 {
						tail = s[j:]
					}
					if tail == "" || strings.Contains(tail, "?") {
						r.open("followed", "parse:test"+strconv.Itoa(i), "what part %d of an example is read from could not be followed: %s", i, s)
						continue
					}
					r.fail("read", "test"+strconv.Itoa(i), p.instrPos(c), "part %d of an example is read from %s instead of %s", i, s, want)
				}
			}
		}
	}
}

func mainFrames(p *Prog, pkg string, into func(fn *ssa.Function) bool) (*frames, bool) {
	sp := p.byPth[modPath+"/"+pkg]
	if sp == nil || sp.Func("main") == nil {
		return nil, false
	}
	fs := &frames{into: into, stop: hangulizeStop}
	fs.root(sp.Func("main"))
	fs.root(sp.Func("init"))
	return fs, true
}

func inCmd(fn *ssa.Function) bool { return strings.HasPrefix(trimMod(pkgPathOf(fn)), "cmd/") }

func init() {
	register("C15", func(env *Env, r *Report) {
		r.rule("Each key of a spec or of an event in the JavaScript value, in the JSON manifest and in the TypeScript declarations carries exactly the part of the spec or the event of that name, from no other part, whatever way the value takes through helpers, loops and variables.")
		r.rule("Lists (translits, authors, tests, languages) are encoded completely and in order: the loop goes over the whole list and does its work in every round.")
		r.rule("Each spec is kept under the language it was loaded for; the rule of an event is left out only if there is none; JavaScript takes the type of every value.")
		r.rule("Each field of a parsed spec is read from the HSL section and key of that name.")

		// JavaScript
		p := env.Wasm()
		fs, ok := mainFrames(p, "cmd/hangulize.wasm", inCmd)
		if !ok {
			fail("no main of hangulize.wasm")
		}
		specs, traces := 0, 0
		sink := func(f *frame, v ssa.Value, key string, at ssa.Instruction) {
			e := &encoder{fs: fs, p: p, r: r, what: "the JavaScript value", out: map[string]map[string]string{}, done: map[string]bool{}}
			e.walk(f, v, "", key, at)
			for _, pre := range e.prefixes("Spec", specFields) {
				specs++
				r.count("encodings", 1)
				e.compare(pre, specFields, nil, nil)
				e.keyed(pre)
			}
			for _, pre := range e.prefixes("Trace", traceFields) {
				traces++
				r.count("encodings", 1)
				e.compare(pre, traceFields, nil, nil)
				e.ruleCond(pre)
			}
			if key == "version" {
				r.count("fields", 1)
				for s, w := range e.out["version"] {
					if s != "global version" && !strings.Contains(s, "?") {
						r.fail("swapped", e.what+":version", w, "%s: %q carries %s instead of the version", e.what, "version", s)
					}
				}
			}
		}
		for _, f := range fs.all {
			r.Analysed[fnName(f.fn)] = true
			for _, b := range f.fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := ci.Common()
					switch callKey(cc) {
					case jsPkg + "Value.Set":
						if len(cc.Args) != 3 {
							continue
						}
						key := ""
						for _, q := range fs.follow(f, cc.Args[1], "") {
							key, _ = constStr(q.v)
						}
						sink(f, cc.Args[2], key, in)
					case jsPkg + "Value.Invoke", jsPkg + "Value.Call":
						if len(cc.Args) == 0 {
							continue
						}
						va := cc.Args[len(cc.Args)-1]
						if sl, ok := va.(*ssa.Slice); ok {
							if al, ok := sl.X.(*ssa.Alloc); ok {
								for _, u := range *al.Referrers() {
									ia, ok := u.(*ssa.IndexAddr)
									if !ok {
										continue
									}
									for _, w := range *ia.Referrers() {
										if st, ok := w.(*ssa.Store); ok && st.Addr == ia {
											sink(f, st.Val, "", in)
										}
									}
								}
							}
						}
					}
				}
			}
		}
		if specs == 0 {
			r.open("followed", "js specs", "the JavaScript value of the specs could not be found")
		}
		if traces == 0 {
			r.open("followed", "js traces", "the JavaScript value of events could not be found")
		}

		// JSON
		p = env.Native()
		fs, ok = mainFrames(p, "cmd/manifest.json", inCmd)
		if !ok {
			fail("no main of manifest.json")
		}
		found := 0
		for _, f := range fs.all {
			r.Analysed[fnName(f.fn)] = true
			for _, b := range f.fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := ci.Common()
					var v ssa.Value
					switch callKey(cc) {
					case "encoding/json.Marshal", "encoding/json.MarshalIndent":
						v = cc.Args[0]
					case "encoding/json.Encoder.Encode":
						v = cc.Args[1]
					default:
						continue
					}
					e := &encoder{fs: fs, p: p, r: r, what: "the manifest", out: map[string]map[string]string{}, done: map[string]bool{}}
					e.walk(f, v, "", "", in)
					for _, pre := range e.prefixes("Spec", specFields) {
						if !strings.HasSuffix(pre, "*") {
							continue
						}
						found++
						r.count("encodings", 1)
						e.compare(pre, specFields, map[string]bool{"source": true}, nil)
						e.keyed(pre)
						if pre != "specs.*" {
							r.fail("dropped", "the manifest:specs", e.where(in), "the manifest keeps the specs as %q, not as \"specs\"", strings.TrimSuffix(pre, ".*"))
						}
					}
					if found > 0 {
						e.compare("", map[string]string{"version": "global version", "translits[]": "Spec.Lang.Translit[]"}, nil, nil)
					}
				}
			}
		}
		if found == 0 {
			r.open("followed", "json specs", "the specs of the manifest could not be found")
		}

		// TypeScript
		var ts []string
		for k := range specFields {
			if k != "source" && !strings.HasPrefix(k, "config.") {
				ts = append(ts, k)
			}
		}
		sort.Strings(ts)
		typescript(r, env.repo, "Spec", "web/src/hangulize/spec.d.ts", specFields, ts)
		typescript(r, env.repo, "HangulizeTrace", "web/src/hangulize/hangulize.worker.ts", traceFields, []string{"step", "word", "why"})

		// HSL
		fs = &frames{into: func(fn *ssa.Function) bool { return pkgPathOf(fn) == modPath }}
		f := fs.root(p.fn("", "ParseSpec"))
		for _, g := range fs.all {
			r.Analysed[fnName(g.fn)] = true
		}
		for _, b := range f.fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || isNil(ret.Results[0]) {
				continue
			}
			for _, pf := range parseFields {
				r.count("parsed", 1)
				w := &follower{fs: fs, seen: map[part]bool{}}
				w.addr(f, ret.Results[0], pf.path)
				right := 0
				for _, x := range w.out {
					s := fs.partName(x, 0)
					if c, ok := x.v.(*ssa.Const); ok && c.Value == nil || x.v == nil {
						continue
					}
					if strings.HasSuffix(s, pf.from) {
						right++
						continue
					}
					tail := ""
					if i := strings.Index(s, "[\""); i >= 0 {
						tail = s[i:]
					}
					if strings.Contains(tail, "?") || tail == "" {
						r.open("followed", "parse:"+pf.path, "what %s of a spec is read from could not be followed: %s", pf.path[1:], s)
						right++
						continue
					}
					where := p.instrPos(ret)
					if in, ok := x.v.(ssa.Instruction); ok {
						where = p.instrPos(in)
					}
					r.fail("read", pf.path, where, "%s of a spec is read from %s instead of %s", pf.path[1:], s, pf.from)
					right++
				}
				if right == 0 {
					r.fail("read", pf.path, p.instrPos(ret), "%s of a spec is read from nowhere", pf.path[1:])
				}
			}
		}
		parsedTests(fs, f, p, r)
		r.need("fields", 30)
		r.need("encodings", 3)
		r.need("declared", 12)
		r.need("parsed", 12)
		r.need("keyed", 2)
	})
}
