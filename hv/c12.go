package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: bytes and letters.

type unit int

const (
	byteUnit unit = iota
	letterUnit
)

func (u unit) String() string { return []string{"bytes", "letters"}[u] }

// units infers for every integer of the program whether it counts bytes or
// letters. Integers that are added, subtracted, ordered or assigned have the
// same unit; so have the indices of a list and everything that indexes it.
type units struct {
	a     *PTA
	ids   map[unitKey]int
	keys  []unitKey
	edges [][]unitEdge
	from  [][]int           // where a value comes from
	seeds [2]map[int]string // what makes it so
	loops map[*ssa.Function][]*Domain
	where map[int]string
	sinks map[string]bool
	funcs map[*ssa.Function]bool
	ctx   *Ctx
	steps []unitStep
	bound []unitBound
	fixed []unitBound
}

type unitKey struct {
	ctx  *Ctx
	v    any
	path string
}

type unitEdge struct {
	to    int
	where string
}

type unitStep struct {
	ctx *Ctx
	in  *ssa.BinOp
	id  int // the operand that is no constant
	res int
	k   int64
}

// unitBound is a place where a position in a text is used.
type unitBound struct {
	ctx *Ctx
	v   ssa.Value
	in  ssa.Instruction
}

func (u *units) id(k unitKey) int {
	if n, ok := u.ids[k]; ok {
		return n
	}
	n := len(u.keys)
	u.ids[k] = n
	u.keys = append(u.keys, k)
	u.edges = append(u.edges, nil)
	u.from = append(u.from, nil)
	return n
}

// unitType tells whether values of a type may count something.
func unitType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	switch b.Kind() {
	case types.Int32, types.Uint8, types.UntypedRune, types.Int8:
		return false
	}
	return true
}

func elemKind(t types.Type) types.BasicKind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return types.Invalid
	}
	return b.Kind()
}

// unitLeaves gives the places in a value of a type that have a unit: integers,
// and for lists and arrays their indices ("@").
func unitLeaves(t types.Type) []string {
	var out []string
	var walk func(t types.Type, path string, d int)
	walk = func(t types.Type, path string, d int) {
		if t == nil || d > 5 {
			return
		}
		if tp, ok := t.(*types.Tuple); ok {
			for i := 0; i < tp.Len(); i++ {
				walk(tp.At(i).Type(), path+"#"+strconv.Itoa(i), d)
			}
			return
		}
		if unitType(t) {
			out = append(out, path)
			return
		}
		switch w := t.Underlying().(type) {
		case *types.Slice:
			out = append(out, path+"@")
			walk(w.Elem(), path+"[]", d+1)
		case *types.Array:
			out = append(out, path+"@")
			walk(w.Elem(), path+"[]", d+1)
		case *types.Pointer:
			walk(w.Elem(), path+"*", d+1)
		case *types.Map:
			if unitType(w.Key()) {
				out = append(out, path+"@")
			}
			walk(w.Elem(), path+"[]", d+1)
		case *types.Chan:
			walk(w.Elem(), path+"[]", d+1)
		case *types.Struct:
			if namedOf(t) != nil {
				return // by field, see fieldKey
			}
			for i := 0; i < w.NumFields(); i++ {
				walk(w.Field(i).Type(), path+"."+w.Field(i).Name(), d+1)
			}
		}
	}
	walk(t, "", 0)
	return out
}

// node is the place at a path of a value.
func (u *units) node(ctx *Ctx, v ssa.Value, path string) int {
	switch w := v.(type) {
	case *ssa.Global:
		ctx = nil
	case *ssa.FreeVar:
		if c2, v2 := u.a.binding(ctx, w); v2 != nil {
			return u.node(c2, v2, path)
		}
	case *ssa.Const:
		return -1
	}
	n := u.id(unitKey{ctx, v, path})
	u.fix(n, typeOfPath(v.Type(), path), path)
	return n
}

// typeOfPath follows a path of unitLeaves; for "…@" it is the type of the list.
func typeOfPath(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		switch path[0] {
		case '@':
			return t
		case '*':
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return nil
			}
			t, path = p.Elem(), path[1:]
		case '[':
			switch w := t.Underlying().(type) {
			case *types.Slice:
				t = w.Elem()
			case *types.Array:
				t = w.Elem()
			case *types.Map:
				t = w.Elem()
			case *types.Chan:
				t = w.Elem()
			default:
				return nil
			}
			path = path[2:]
		case '#':
			j := 1
			for j < len(path) && path[j] >= '0' && path[j] <= '9' {
				j++
			}
			i, _ := strconv.Atoi(path[1:j])
			tp, ok := t.(*types.Tuple)
			if !ok || i >= tp.Len() {
				return nil
			}
			t, path = tp.At(i).Type(), path[j:]
		case '.':
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			found := false
			for i := 0; i < st.NumFields(); i++ {
				f := "." + st.Field(i).Name()
				if strings.HasPrefix(path, f) {
					rest := path[len(f):]
					if rest == "" || strings.ContainsRune(".[@*#", rune(rest[0])) {
						t, path, found = st.Field(i).Type(), rest, true
						break
					}
				}
			}
			if !found {
				return nil
			}
		default:
			return nil
		}
	}
	return t
}

// fix gives the indices of letters and bytes their unit.
func (u *units) fix(n int, t types.Type, path string) {
	if t == nil || !strings.HasSuffix(path, "@") {
		return
	}
	var el types.Type
	switch w := t.Underlying().(type) {
	case *types.Slice:
		el = w.Elem()
	case *types.Array:
		el = w.Elem()
	default:
		return
	}
	if named, ok := el.(*types.Named); ok && named.Obj() != nil {
		return
	}
	switch elemKind(el) {
	case types.Int32:
		u.seed(n, letterUnit, "the positions of a list of letters")
	case types.Uint8:
		u.seed(n, byteUnit, "the positions of a list of bytes")
	}
}

func (u *units) seed(n int, k unit, why string) {
	if n < 0 {
		return
	}
	if _, ok := u.seeds[k][n]; !ok {
		u.seeds[k][n] = why
	}
}

func (u *units) join(a, b int, where string) {
	if a < 0 || b < 0 || a == b {
		return
	}
	u.edges[a] = append(u.edges[a], unitEdge{b, where})
	u.edges[b] = append(u.edges[b], unitEdge{a, where})
}

// flow tells that a comes from b; what is reached by pointers or lists may go
// both ways.
func (u *units) flow(a, b int, where string) {
	u.join(a, b, where)
	if a < 0 || b < 0 {
		return
	}
	u.from[a] = append(u.from[a], b)
	if p, q := u.keys[a].path, u.keys[b].path; strings.ContainsAny(p, "*[") && strings.ContainsAny(q, "*[") {
		u.from[b] = append(u.from[b], a)
	}
}

// alias tells that a and b are the same place.
func (u *units) alias(a, b int, where string) {
	u.flow(a, b, where)
	if a >= 0 && b >= 0 {
		u.from[b] = append(u.from[b], a)
	}
}

// same relates a value with the one it comes from.
func (u *units) same(c1 *Ctx, v1 ssa.Value, p1 string, c2 *Ctx, v2 ssa.Value, p2 string, t types.Type, where string) {
	for _, l := range unitLeaves(t) {
		u.flow(u.node(c1, v1, p1+l), u.node(c2, v2, p2+l), where)
	}
}

func (u *units) field(t types.Type, i int, path string) int {
	st := t.Underlying().(*types.Struct)
	n := namedOf(t)
	if n == nil {
		return -1
	}
	name := n.Obj().Name()
	if n.Obj().Pkg() != nil {
		name = n.Obj().Pkg().Path() + "." + name
	}
	k := u.id(unitKey{nil, "field " + name + "." + st.Field(i).Name(), path})
	u.fix(k, typeOfPath(st.Field(i).Type(), path), path)
	if path == "" && name == "github.com/ikawaha/kagome.ipadic/tokenizer.Token" && (st.Field(i).Name() == "Start" || st.Field(i).Name() == "End") {
		u.seed(k, letterUnit, "a position Kagome counts in letters")
	}
	return k
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && elemKind(s.Elem()) == types.Uint8
}

func isTextT(t types.Type) bool { return isStringT(t) || isByteSlice(t) }

func (u *units) instr(ctx *Ctx, in ssa.Instruction) {
	where := u.a.p.instrPos(in)
	switch w := in.(type) {
	case *ssa.Phi:
		for _, e := range w.Edges {
			u.same(ctx, w, "", ctx, e, "", w.Type(), where)
		}
	case *ssa.BinOp:
		if !unitType(w.X.Type()) {
			return
		}
		x, y := u.node(ctx, w.X, ""), u.node(ctx, w.Y, "")
		switch w.Op {
		case token.ADD, token.SUB:
			r := u.node(ctx, w, "")
			u.flow(r, x, where)
			u.flow(r, y, where)
			u.join(x, y, where)
			if k, ok := constInt(w.Y); ok && k != 0 {
				if w.Op == token.SUB {
					k = -k
				}
				u.steps = append(u.steps, unitStep{ctx, w, x, r, k})
			} else if k, ok := constInt(w.X); ok && k != 0 && w.Op == token.ADD {
				u.steps = append(u.steps, unitStep{ctx, w, y, r, k})
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			u.join(x, y, where)
		}
	case *ssa.UnOp:
		switch w.Op {
		case token.MUL:
			for _, l := range unitLeaves(w.Type()) {
				u.flow(u.node(ctx, w, l), u.node(ctx, w.X, "*"+l), where)
			}
		case token.ARROW:
			el := w.X.Type().Underlying().(*types.Chan).Elem()
			p := ""
			if w.CommaOk {
				p = "#0"
			}
			for _, l := range unitLeaves(el) {
				u.flow(u.node(ctx, w, p+l), u.node(ctx, w.X, "[]"+l), where)
			}
		case token.SUB:
			if unitType(w.Type()) {
				u.join(u.node(ctx, w, ""), u.node(ctx, w.X, ""), where)
			}
		}
	case *ssa.Send:
		for _, l := range unitLeaves(w.X.Type()) {
			u.flow(u.node(ctx, w.Chan, "[]"+l), u.node(ctx, w.X, l), where)
		}
	case *ssa.Store:
		for _, l := range unitLeaves(w.Val.Type()) {
			u.flow(u.node(ctx, w.Addr, "*"+l), u.node(ctx, w.Val, l), where)
		}
	case *ssa.FieldAddr:
		st := deref(w.X.Type())
		ft := st.Underlying().(*types.Struct).Field(w.Field)
		for _, l := range unitLeaves(ft.Type()) {
			if namedOf(st) != nil {
				u.alias(u.node(ctx, w, "*"+l), u.field(st, w.Field, l), where)
			} else {
				u.alias(u.node(ctx, w, "*"+l), u.node(ctx, w.X, "*."+ft.Name()+l), where)
			}
		}
	case *ssa.Field:
		ft := w.X.Type().Underlying().(*types.Struct).Field(w.Field)
		for _, l := range unitLeaves(ft.Type()) {
			if namedOf(w.X.Type()) != nil {
				u.flow(u.node(ctx, w, l), u.field(w.X.Type(), w.Field, l), where)
			} else {
				u.flow(u.node(ctx, w, l), u.node(ctx, w.X, "."+ft.Name()+l), where)
			}
		}
	case *ssa.IndexAddr:
		p := ""
		if _, ok := w.X.Type().Underlying().(*types.Pointer); ok {
			p = "*"
		}
		u.join(u.node(ctx, w.X, p+"@"), u.node(ctx, w.Index, ""), where)
		for _, l := range unitLeaves(deref(w.Type())) {
			u.alias(u.node(ctx, w, "*"+l), u.node(ctx, w.X, p+"[]"+l), where)
		}
		if isByteSlice(w.X.Type()) {
			u.sink(ctx, w.Index, w)
		}
	case *ssa.Index:
		if isStringT(w.X.Type()) {
			u.sink(ctx, w.Index, w)
			return
		}
		u.join(u.node(ctx, w.X, "@"), u.node(ctx, w.Index, ""), where)
		u.same(ctx, w, "", ctx, w.X, "[]", w.Type(), where)
	case *ssa.Lookup:
		m, ok := w.X.Type().Underlying().(*types.Map)
		if !ok {
			u.sink(ctx, w.Index, w)
			return
		}
		if unitType(m.Key()) {
			u.join(u.node(ctx, w.X, "@"), u.node(ctx, w.Index, ""), where)
		}
		p := ""
		if w.CommaOk {
			p = "#0"
		}
		u.same(ctx, w, p, ctx, w.X, "[]", m.Elem(), where)
	case *ssa.MapUpdate:
		m := w.Map.Type().Underlying().(*types.Map)
		if unitType(m.Key()) {
			u.join(u.node(ctx, w.Map, "@"), u.node(ctx, w.Key, ""), where)
		}
		u.same(ctx, w.Map, "[]", ctx, w.Value, "", m.Elem(), where)
	case *ssa.Next:
		if w.IsString {
			u.seed(u.node(ctx, w, "#1"), byteUnit, "the place of a letter in a text at "+where)
			return
		}
		rg, ok := w.Iter.(*ssa.Range)
		if !ok {
			return
		}
		m, ok := rg.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		if unitType(m.Key()) {
			u.join(u.node(ctx, w, "#1"), u.node(ctx, rg.X, "@"), where)
		}
		u.same(ctx, w, "#2", ctx, rg.X, "[]", m.Elem(), where)
	case *ssa.Extract:
		u.same(ctx, w, "", ctx, w.Tuple, "#"+strconv.Itoa(w.Index), w.Type(), where)
	case *ssa.Slice:
		for _, b := range []ssa.Value{w.Low, w.High, w.Max} {
			if b == nil {
				continue
			}
			if isTextT(w.X.Type()) {
				u.sink(ctx, b, w)
				continue
			}
			p := ""
			if _, ok := w.X.Type().Underlying().(*types.Pointer); ok {
				p = "*"
			}
			u.join(u.node(ctx, w.X, p+"@"), u.node(ctx, b, ""), where)
		}
		if isStringT(w.X.Type()) {
			return
		}
		p := ""
		if _, ok := w.X.Type().Underlying().(*types.Pointer); ok {
			p = "*"
		}
		u.same(ctx, w, "", ctx, w.X, p, w.Type(), where)
	case *ssa.MakeSlice:
		u.join(u.node(ctx, w, "@"), u.node(ctx, w.Len, ""), where)
	case *ssa.ChangeType:
		u.same(ctx, w, "", ctx, w.X, "", w.Type(), where)
	case *ssa.Convert:
		if unitType(w.Type()) && unitType(w.X.Type()) {
			u.flow(u.node(ctx, w, ""), u.node(ctx, w.X, ""), where)
		}
	case *ssa.Return:
		res := w.Parent().Signature.Results()
		for i, v := range w.Results {
			if i < res.Len() {
				for _, l := range unitLeaves(res.At(i).Type()) {
					u.flow(u.id(unitKey{ctx, "ret", "#" + strconv.Itoa(i) + l}), u.node(ctx, v, l), where)
				}
			}
		}
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		u.call(ctx, ci, where)
	}
}

// sink: a value is a position in the bytes of a text.
func (u *units) sink(ctx *Ctx, v ssa.Value, in ssa.Instruction) {
	if _, ok := v.(*ssa.Const); ok {
		if k, ok := constInt(v); ok && k > 0 {
			u.fixed = append(u.fixed, unitBound{ctx, v, in})
		}
		return
	}
	where := u.a.p.instrPos(in)
	u.sinks[where] = true
	u.seed(u.node(ctx, v, ""), byteUnit, "a position in a text at "+where)
	u.bound = append(u.bound, unitBound{ctx, v, in})
}

func (u *units) call(ctx *Ctx, ci ssa.CallInstruction, where string) {
	cc := ci.Common()
	v, _ := ci.(ssa.Value)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			x := cc.Args[0]
			if isTextT(x.Type()) {
				u.seed(u.node(ctx, v, ""), byteUnit, "the length of a text at "+where)
				return
			}
			t := x.Type()
			p := ""
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t, p = pt.Elem(), "*"
			}
			switch t.Underlying().(type) {
			case *types.Slice, *types.Array:
				u.join(u.node(ctx, v, ""), u.node(ctx, x, p+"@"), where)
			}
		case "append":
			u.same(ctx, v, "", ctx, cc.Args[0], "", v.Type(), where)
			if len(cc.Args) > 1 && !isStringT(cc.Args[1].Type()) {
				// the elements of both, but not the positions
				for _, l := range unitLeaves(v.Type()) {
					one := false
					if l == "@" {
						_, at := wholeArray(cc.Args[1])
						one = at != nil
					}
					if !one {
						u.flow(u.node(ctx, v, l), u.node(ctx, cc.Args[1], l), where)
					}
				}
			}
			u.grow(ctx, ci, where)
		case "copy":
			if !isTextT(cc.Args[0].Type()) {
				u.same(ctx, cc.Args[0], "", ctx, cc.Args[1], "", cc.Args[0].Type(), where)
			}
			if v != nil && isTextT(cc.Args[0].Type()) {
				u.seed(u.node(ctx, v, ""), byteUnit, "the length of a text at "+where)
			}
		case "min", "max":
			if v != nil && unitType(v.Type()) {
				for _, x := range cc.Args {
					u.flow(u.node(ctx, v, ""), u.node(ctx, x, ""), where)
				}
			}
		}
		return
	}
	in := ci.(ssa.Instruction)
	si := u.a.callees[siteKey{ctx, in}]
	if si != nil {
		for _, list := range [][]*Ctx{si.internal, si.once} {
			for _, c2 := range list {
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				if len(args) == len(c2.fn.Params) {
					for i, x := range args {
						if i == 0 && cc.IsInvoke() {
							continue
						}
						u.same(c2, c2.fn.Params[i], "", ctx, x, "", c2.fn.Params[i].Type(), where)
					}
				}
				if v == nil {
					continue
				}
				res := c2.fn.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					p := ""
					if res.Len() > 1 {
						p = "#" + strconv.Itoa(i)
					}
					for _, l := range unitLeaves(res.At(i).Type()) {
						u.flow(u.node(ctx, v, p+l), u.id(unitKey{c2, "ret", "#" + strconv.Itoa(i) + l}), where)
					}
				}
			}
		}
	}
	key := callKey(cc)
	if v == nil || key == "" {
		return
	}
	u.ext(ctx, v, cc, key, where)
}

// ext: what external functions count.
func (u *units) ext(ctx *Ctx, v ssa.Value, cc *ssa.CallCommon, key, where string) {
	i := strings.LastIndex(key, ".")
	if i < 0 {
		return
	}
	pkg, name := key[:i], key[i+1:]
	set := func(path string, k unit, why string) {
		t := typeOfPath(v.Type(), path)
		if t != nil && unitType(t) {
			u.seed(u.node(ctx, v, path), k, why+" at "+where)
		}
	}
	switch pkg {
	case "strings", "bytes":
		if strings.Contains(name, "Index") {
			set("", byteUnit, "a position in a text")
		}
	case "strings.Reader", "bytes.Reader", "bytes.Buffer", "strings.Builder", "bufio.Reader", "bufio.Writer":
		switch name {
		case "Len", "Buffered":
			set("", byteUnit, "the length of a text")
		case "ReadRune":
			set("#1", byteUnit, "the length of a letter")
		case "WriteString", "WriteRune", "Write", "Read":
			set("#0", byteUnit, "the length of a text")
		}
	case "unicode/utf8":
		switch name {
		case "RuneCount", "RuneCountInString":
			set("", letterUnit, "a number of letters")
		case "RuneLen", "EncodeRune":
			set("", byteUnit, "the length of a letter")
		case "DecodeRune", "DecodeRuneInString", "DecodeLastRune", "DecodeLastRuneInString":
			set("#1", byteUnit, "the length of a letter")
		}
	case "regexp.Regexp":
		if strings.HasSuffix(name, "Index") && strings.HasPrefix(name, "Find") {
			p := "[]"
			if strings.HasPrefix(name, "FindAll") {
				p = "[][]"
			}
			set(p, byteUnit, "a match in a text")
		}
	case "strings.Count":
	}
}

// grow: a list to which every round of a loop appends one element is as long as
// there are rounds.
func (u *units) grow(ctx *Ctx, ci ssa.CallInstruction, where string) {
	cc := ci.Common()
	if len(cc.Args) < 2 {
		return
	}
	_, at := wholeArray(cc.Args[1])
	if at == nil || at.Len() != 1 {
		return
	}
	v := ci.(ssa.Value)
	b := ci.(ssa.Instruction).Block()
	if d := u.inner(b); d != nil && d.always(b) {
		switch d.kind {
		case "string":
			u.seed(u.node(ctx, v, "@"), letterUnit, "one element for each letter of a text at "+where)
		case "count":
			u.join(u.node(ctx, v, "@"), u.node(ctx, d.phi, ""), where)
		case "other":
			// a bound computed in every round
			iff, ok := d.hdr.Instrs[len(d.hdr.Instrs)-1].(*ssa.If)
			if !ok {
				break
			}
			if c, ok := iff.Cond.(*ssa.BinOp); ok && unitType(c.X.Type()) {
				for _, x := range []ssa.Value{c.X, c.Y} {
					if phi, ok := x.(*ssa.Phi); ok && phi.Block() == d.hdr {
						u.join(u.node(ctx, v, "@"), u.node(ctx, phi, ""), where)
					}
				}
			}
		}
	}
}

// inner is the innermost loop around a block.
func (u *units) inner(b *ssa.BasicBlock) *Domain {
	fn := b.Parent()
	ds, ok := u.loops[fn]
	if !ok {
		ds = loopsOf(fn)
		u.loops[fn] = ds
	}
	var best *Domain
	for _, d := range ds {
		if d.body[b] && (best == nil || len(d.body) < len(best.body)) {
			best = d
		}
	}
	return best
}

// always tells whether a block runs in every round of a loop that goes on.
func (d *Domain) always(b *ssa.BasicBlock) bool {
	n := 0
	for _, p := range d.hdr.Preds {
		if d.body[p] {
			n++
			if !b.Dominates(p) {
				return false
			}
		}
	}
	return n > 0
}

// counters: a variable that moves by one for every letter counts letters.
func (u *units) counters(ctx *Ctx) {
	fn := ctx.fn
	if len(fn.Blocks) == 0 {
		return
	}
	u.inner(fn.Blocks[0])
	for _, d := range u.loops[fn] {
		letters := d.kind == "string"
		var at token.Pos
		if !letters {
			n := 0
			for b := range d.body {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					switch key := callKey(&c.Call); {
					case strings.HasPrefix(key, "unicode/utf8.Decode"), strings.HasSuffix(key, ".ReadRune"):
						if u.inner(b) == d && d.always(b) {
							n++
							at = c.Pos()
						}
					}
				}
			}
			letters = n == 1
		}
		if !letters {
			continue
		}
		for _, in := range d.hdr.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !unitType(phi.Type()) {
				continue
			}
			moves := true
			for i, e := range phi.Edges {
				if !d.body[d.hdr.Preds[i]] {
					continue
				}
				b, ok := e.(*ssa.BinOp)
				if !ok || b.X != phi || (b.Op != token.ADD && b.Op != token.SUB) {
					moves = false
					break
				}
				if k, ok := constInt(b.Y); !ok || k != 1 && k != -1 {
					moves = false
					break
				}
			}
			if moves {
				_ = at
				u.seed(u.node(ctx, phi, ""), letterUnit, "a count of letters in "+fnName(fn))
			}
		}
	}
}

func (u *units) describe(n int) string {
	k := u.keys[n]
	switch v := k.v.(type) {
	case ssa.Value:
		name := v.Name()
		switch w := v.(type) {
		case *ssa.Parameter:
			name = "parameter " + w.Name()
		case *ssa.Phi:
			if w.Comment != "" {
				name = "variable " + w.Comment
			}
		case *ssa.Alloc:
			name = "variable " + w.Comment
		case *ssa.Call:
			name = "result of " + callKey(&w.Call)
		default:
			name = "a value"
		}
		if v.Parent() != nil {
			return name + " in " + fnName(v.Parent())
		}
		return name
	case string:
		if v == "ret" {
			return "result of " + fnName(k.ctx.fn)
		}
		return v
	}
	return "?"
}

// conflicts finds the values that are used as both.
func (u *units) conflicts(r *Report) {
	// from letters, the shortest way to bytes
	type from struct {
		prev  int
		where string
	}
	comp := make([]int, len(u.keys))
	for i := range comp {
		comp[i] = -1
	}
	var order []int
	for n := range u.seeds[letterUnit] {
		order = append(order, n)
	}
	sort.Ints(order)
	back := map[int]from{}
	var queue []int
	told := map[string]bool{}
	for _, n := range order {
		back[n] = from{-1, ""}
		queue = append(queue, n)
	}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if why, ok := u.seeds[byteUnit][n]; ok {
			var path []string
			m := n
			for back[m].prev >= 0 {
				if w := back[m].where; w != "" && (len(path) == 0 || path[len(path)-1] != w) {
					path = append(path, w)
				}
				m = back[m].prev
			}
			for i, j := 0, len(path)-1; i < j; i, j = i+1, j-1 {
				path[i], path[j] = path[j], path[i]
			}
			at := "-"
			if len(path) > 0 {
				at = path[0]
			}
			if told[at] {
				continue
			}
			told[at] = true
			key := u.describe(m) + " / " + u.describe(n)
			r.fail("mixed", key, at, "%s (%s) meets %s (%s): bytes are mixed with letters on the way %s", u.seeds[letterUnit][m], u.describe(m), why, u.describe(n), strings.Join(path, ", "))
			continue // what lies beyond is the same mix
		}
		for _, e := range u.edges[n] {
			if _, ok := back[e.to]; !ok {
				back[e.to] = from{n, e.where}
				queue = append(queue, e.to)
			}
		}
	}
}

// class tells which values share the unit of seeds.
func (u *units) class(k unit) map[int]bool {
	in := map[int]bool{}
	var st []int
	for n := range u.seeds[k] {
		in[n] = true
		st = append(st, n)
	}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range u.edges[n] {
			if !in[e.to] {
				in[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	return in
}

// moved judges positions in texts moved by a fixed number of bytes, and bytes of
// a text taken for letters.
func (u *units) moved(r *Report) {
	at := map[int][]unitStep{}
	for _, s := range u.steps {
		at[s.res] = append(at[s.res], s)
	}
	for _, b := range u.bound {
		sl, ok := b.in.(*ssa.Slice)
		if !ok {
			continue
		}
		seen := map[int]bool{}
		st := []int{u.node(b.ctx, b.v, "")}
		for len(st) > 0 {
			n := st[len(st)-1]
			st = st[:len(st)-1]
			if n < 0 || seen[n] {
				continue
			}
			seen[n] = true
			for _, s := range at[n] {
				fn := s.in.Parent()
				if s.id < 0 || u.looks(s.ctx) || u.looks(b.ctx) {
					continue
				}
				r.fail("moved", fnName(fn)+" "+s.in.String(), u.a.p.instrPos(s.in), "a position in a text is moved by %d bytes, whatever letters are there, and the text is cut there at %s", s.k, u.a.p.instrPos(sl))
			}
			st = append(st, u.from[n]...)
		}
	}
	for _, b := range u.fixed {
		if sl, ok := b.in.(*ssa.Slice); ok && !u.looks(b.ctx) {
			r.fail("moved", "fixed "+fnName(sl.Parent()), u.a.p.instrPos(sl), "a text is cut after %s bytes, whatever letters are there", b.v.Name())
		}
	}
	var fns []*ssa.Function
	for fn := range u.funcs {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cv, ok := in.(*ssa.Convert)
				if !ok || elemKind(cv.X.Type()) != types.Uint8 || elemKind(cv.Type()) != types.Int32 && !isStringT(cv.Type()) {
					continue
				}
				if !byteOfText(cv.X, 0) || u.ascii(fn) {
					continue
				}
				r.fail("byte", fnName(fn), u.a.p.instrPos(in), "one byte of a text is taken for a letter")
			}
		}
	}
}

func byteOfText(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch w := v.(type) {
	case *ssa.Index:
		return isStringT(w.X.Type())
	case *ssa.Lookup:
		return isStringT(w.X.Type())
	case *ssa.Phi:
		for _, e := range w.Edges {
			if byteOfText(e, d+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if ia, ok := w.X.(*ssa.IndexAddr); ok && w.Op == token.MUL {
			cv, ok := ia.X.(*ssa.Convert)
			return ok && isStringT(cv.X.Type())
		}
	}
	return false
}

func (u *units) looks(c *Ctx) bool {
	for i := 0; c != nil && i < 2; i++ {
		if c.fn != nil && u.ascii(c.fn) {
			return true
		}
		c = c.parent
	}
	return false
}

// ascii tells whether a function looks at the text: whether something in it is
// one of some bytes, starts with a known text or the like. What it then does by
// bytes is taken to be right.
func (u *units) ascii(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch w := in.(type) {
			case *ssa.BinOp:
				if elemKind(w.X.Type()) == types.Uint8 {
					return true
				}
				if elemKind(w.X.Type()) == types.Int32 {
					for _, x := range []ssa.Value{w.X, w.Y} {
						if k, ok := constInt(x); ok && k >= 0 && k <= 0x80 {
							return true
						}
					}
				}
			case *ssa.Call:
				key := callKey(&w.Call)
				for _, p := range []string{"strings.Has", "strings.Index", "strings.LastIndex", "strings.Contains", "strings.Count", "strings.Cut", "bytes.Has", "bytes.Index", "unicode/utf8.RuneStart", "unicode/utf8.Valid"} {
					if strings.HasPrefix(key, p) {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	register("C12", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("Every integer of the library gets a unit by inference: what len, strings.Index, a match, a range over a text and a decoded letter's size give is in bytes, what utf8.RuneCount, the length of a []rune and a counter moved once per letter give is in letters. Integers added, subtracted, ordered, assigned, passed or returned share their unit, as do the indices of a list; slicing and indexing a text takes bytes, a []rune letters. No value may have both units.")
		r.rule("No position where a text is cut comes from another one by a fixed number of bytes, and no byte of a text is taken for a letter, in functions that do not look for ASCII letters there.")
		u := &units{a: a, ids: map[unitKey]int{}, loops: map[*ssa.Function][]*Domain{}, sinks: map[string]bool{}, funcs: map[*ssa.Function]bool{}}
		u.seeds = [2]map[int]string{{}, {}}
		for _, ctx := range a.ctxs {
			if ctx.fn == nil || len(ctx.fn.Blocks) == 0 {
				continue
			}
			u.funcs[ctx.fn] = true
			for _, b := range ctx.fn.Blocks {
				for _, in := range b.Instrs {
					u.instr(ctx, in)
				}
			}
			u.counters(ctx)
		}
		u.conflicts(r)
		u.moved(r)
		r.count("integers and lists", len(u.keys))
		r.count("in bytes by themselves", len(u.seeds[byteUnit]))
		r.count("in letters by themselves", len(u.seeds[letterUnit]))
		r.count("positions in texts", len(u.sinks))
		r.need("positions in texts", 10)
		for _, w := range sortedKeys(u.sinks) {
			r.sample("position in a text: %s", w)
		}
		r.analysedBy(a, a.roots)
	})
}
