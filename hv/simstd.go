package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Models of external functions for the path-sensitive analysis.

// newState is an empty state.
func newState() *State {
	return &State{env: map[ekey]*Term{}, facts: map[*Term]fact{}, cl: map[string]string{}}
}

// param is the term of a parameter of the root.
func (x *Sim) param(i int) *Term {
	return x.reg(x.root.ctx, x.root.ctx.fn.Params[i], "")
}

// varargs gives the elements of a variadic argument list.
func (x *Sim) varargs(s *State, ctx *Ctx, v ssa.Value) ([]*Term, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	ctx, v = x.a.resolve(ctx, v)
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	es := x.a.pts(ctx, al)
	var out []*Term
	for i := int64(0); i < at.Len(); i++ {
		var t *Term
		if len(es) == 1 {
			t = s.env[ekey{o: canon(es[0].o), path: "[" + strconv.FormatInt(i, 10) + "]"}]
		}
		if t == nil {
			// the only store
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					if j, ok := constInt(ia.Index); ok && j == i {
						for _, rr := range *ia.Referrers() {
							if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
								t = x.eval(s, ctx, st.Val)
							}
						}
					}
				}
			}
		}
		if t == nil {
			return nil, false
		}
		out = append(out, x.norm(s, t))
	}
	return out, true
}

// unbox is the value in an interface.
func unbox(t *Term) *Term {
	if t != nil && t.op == "iface" && len(t.args) == 1 {
		return t.args[0]
	}
	return t
}

// verbs splits a constant format into literal text and verbs.
func verbs(f string) []string {
	var out []string
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		if f[j] == '%' {
			lit += "%"
		} else {
			out = append(out, "l"+lit, f[i:j+1])
			lit = ""
		}
		i = j
	}
	return append(out, "l"+lit)
}

// concat flattens string concatenations, also by Sprintf and Join: constant
// parts are quoted.
func (x *Sim) concat(t *Term) []string {
	var parts []string
	var walk func(t *Term)
	walk = func(t *Term) {
		t = unbox(t)
		if s, ok := t.isStr(); ok {
			if n := len(parts); n > 0 && strings.HasPrefix(parts[n-1], "\"") {
				u, _ := strconv.Unquote(parts[n-1])
				parts[n-1] = strconv.Quote(u + s)
			} else if s != "" {
				parts = append(parts, strconv.Quote(s))
			}
			return
		}
		if t.op == "+" || t.op == "cat" {
			for _, a := range t.args {
				walk(a)
			}
			return
		}
		parts = append(parts, t.String())
	}
	walk(t)
	return parts
}

func (x *Sim) key1(n *GNode) (string, *ssa.CallCommon, *ssa.Call) {
	ci, ok := n.in.(ssa.CallInstruction)
	if !ok {
		return "", nil, nil
	}
	call, _ := n.in.(*ssa.Call)
	return callKey(ci.Common()), ci.Common(), call
}

// std models well-known external functions after their call. It returns nil
// when it has nothing to say.
func (x *Sim) std(s *State, n *GNode) []*State {
	key, cc, call := x.key1(n)
	if call == nil {
		return nil
	}
	ctx := n.ctx
	arg := func(i int) *Term { return x.eval(s, ctx, cc.Args[i]) }
	one := func(t *Term) []*State {
		if t != nil {
			x.set(s, ctx, call, "", t)
		}
		return []*State{s}
	}
	if strings.HasPrefix(key, "unicode.Is") && len(cc.Args) == 1 {
		if c, ok := arg(0).isInt(); ok {
			if f := unicodeIs[key]; f != nil {
				if f(rune(c)) {
					return one(x.tTrue)
				}
				return one(x.tFalse)
			}
		}
		return nil
	}
	switch key {
	case "errors.New", "github.com/pkg/errors.New":
		return one(x.mk("err", "new", x.reg(ctx, call, "$")))
	case "github.com/pkg/errors.Errorf":
		return one(x.mk("err", "new", x.reg(ctx, call, "$")))
	case "fmt.Errorf":
		as := []*Term{x.reg(ctx, call, "$")}
		f, isC := arg(0).isStr()
		vs, ok := x.varargs(s, ctx, cc.Args[1])
		if isC && ok {
			i := 0
			for _, v := range verbs(f) {
				if v[0] == 'l' {
					continue
				}
				if strings.HasSuffix(v, "w") && i < len(vs) {
					as = append(as, unbox2(vs[i]))
				}
				i++
			}
		}
		return one(x.mk("err", "fmt", as...))
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef":
		e := arg(0)
		if e.op == "nil" {
			return one(x.tNil)
		}
		if x.nonNil(s, e) {
			return one(x.mk("err", "wrap", e))
		}
		t := s.clone()
		var out []*State
		if x.assume(s, x.mkEqNil(e), true) {
			x.set(s, ctx, call, "", x.tNil)
			out = append(out, s)
		}
		if x.assume(t, x.mkEqNil(e), false) {
			x.set(t, ctx, call, "", x.mk("err", "wrap", e))
			out = append(out, t)
		}
		return out
	case "errors.Is", "github.com/pkg/errors.Is":
		switch x.errIs(s, arg(0), arg(1)) {
		case 1:
			return one(x.tTrue)
		case 2:
			return one(x.tFalse)
		}
		return one(x.mk("call errors.Is", "", arg(0), arg(1)))
	case "fmt.Sprintf":
		f, isC := arg(0).isStr()
		vs, ok := x.varargs(s, ctx, cc.Args[1])
		if !isC || !ok {
			return nil
		}
		var as []*Term
		i := 0
		for _, v := range verbs(f) {
			if v[0] == 'l' {
				as = append(as, x.cStr(v[1:]))
				continue
			}
			if i >= len(vs) || v != "%s" && v != "%v" {
				return nil
			}
			as = append(as, unbox2(vs[i]))
			i++
		}
		return one(x.mk("cat", "", as...))
	case "path.Join", "path/filepath.Join":
		vs, ok := x.varargs(s, ctx, cc.Args[0])
		if !ok {
			return nil
		}
		var as []*Term
		for i, v := range vs {
			if i > 0 {
				as = append(as, x.cStr("/"))
			}
			as = append(as, v)
		}
		return one(x.mk("cat", "", as...))
	case "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer", "bufio.NewReader":
		return one(x.mk("reader", "", unbox2(arg(0))))
	}
	return nil
}

func unbox2(t *Term) *Term { return unbox(t) }

func (x *Sim) mkEqNil(e *Term) *Term { return x.mk("==", "", e, x.tNil) }

// errIs decides errors.Is(e, target): 1 yes, 2 no, 0 unknown.
func (x *Sim) errIs(s *State, e, target *Term) int {
	e, target = x.norm(s, e), x.norm(s, target)
	if e == target {
		return 1
	}
	if e.op == "nil" || target.op == "nil" {
		return 2
	}
	switch e.op {
	case "err":
		r := 2
		for _, a := range e.args {
			if a.op == "reg" && a.s == "$" {
				continue
			}
			switch x.errIs(s, a, target) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	case "iface":
		if e.depth < 4 {
			return 0
		}
	case "load":
		if target.op == "load" {
			return 2
		}
	}
	return 0
}

// fork gives two copies of a state in which a condition holds and does not.
func (x *Sim) fork(s *State, cond *Term) (yes, no *State) {
	t := s.clone()
	if x.assume(s, cond, true) {
		yes = s
	}
	if x.assume(t, cond, false) {
		no = t
	}
	return
}

func states(ss ...*State) []*State {
	var out []*State
	for _, s := range ss {
		if s != nil {
			out = append(out, s)
		}
	}
	return out
}

// rootOf is the exported operation of a function.
func (a *PTA) rootOf(fn *ssa.Function) *Root {
	for _, r := range a.roots {
		if r.api && r.fn == fn {
			return r
		}
	}
	return nil
}

// implRoots are the roots of all methods which implement a method of an
// exported interface.
func (a *PTA) implRoots(rel, iface, method string) []*Root {
	it := a.p.typ(rel, iface).Underlying().(*types.Interface)
	var out []*Root
	for _, r := range a.roots {
		recv := r.fn.Signature.Recv()
		if !r.api || recv == nil || r.fn.Name() != method {
			continue
		}
		if types.Implements(recv.Type(), it) || types.Implements(types.NewPointer(recv.Type()), it) {
			out = append(out, r)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func (r *Report) sim(x *Sim) {
	r.count("abstract states", x.states)
	r.count("steps", x.steps)
	if len(x.widened) > 0 {
		r.count("widened points", len(x.widened))
	}
	for _, n := range x.g.nodes {
		if n.kind == kEntry {
			r.Analysed[fnName(n.ctx.fn)] = true
		}
	}
}

var _ = constant.Int

// unicodeIs are the letter classes, for letters known.
var unicodeIs = map[string]func(rune) bool{
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct, "unicode.IsUpper": unicode.IsUpper,
	"unicode.IsLower": unicode.IsLower, "unicode.IsControl": unicode.IsControl, "unicode.IsGraphic": unicode.IsGraphic,
	"unicode.IsPrint": unicode.IsPrint, "unicode.IsSymbol": unicode.IsSymbol, "unicode.IsMark": unicode.IsMark, "unicode.IsTitle": unicode.IsTitle,
}
