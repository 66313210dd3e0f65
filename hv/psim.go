package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A path-sensitive dataflow analysis (property simulation) over the supergraph
// of a root. Every register or tracked cell holds a term; terms are value
// numbers, so equal terms are equal values. Branch conditions leave finite
// facts (equal to a constant, different from constants, an interval) on terms.
// Nothing is executed and no solver is involved; loops end because dead values
// are forgotten and terms are bounded.

type Term struct {
	id    int
	op    string // "c" constant, "nil", "reg", or an operator
	s     string
	args  []*Term
	ctx   *Ctx
	v     ssa.Value
	typ   types.Type
	bases []*Term // the reg terms inside
	depth int
}

func (t *Term) String() string {
	switch t.op {
	case "c":
		return t.s
	case "nil":
		return "nil"
	case "reg":
		n := ""
		if t.v != nil {
			n = t.v.Name()
		}
		if t.ctx != nil {
			return n + "@" + itoa(t.ctx.id) + t.s
		}
		return n + t.s
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	return t.op + t.s + "(" + strings.Join(as, ", ") + ")"
}

type fact struct {
	eq     *Term
	ne     string // sorted constant term ids
	lo, hi int64
}

var noFact = fact{lo: math.MinInt64, hi: math.MaxInt64}

type ekey struct {
	ctx  *Ctx
	v    ssa.Value
	o    *Obj
	path string
}

type trail struct {
	prev *trail
	at   string
}

type State struct {
	env   map[ekey]*Term
	facts map[*Term]fact
	cl    map[string]string // the client's finite state
	path  *trail
	from  int  // the abstract state it comes from, when edges are recorded
	prog  bool // the client saw progress since then
}

func (s *State) clone() *State {
	n := &State{make(map[ekey]*Term, len(s.env)+4), make(map[*Term]fact, len(s.facts)+2), make(map[string]string, len(s.cl)+1), s.path, s.from, s.prog}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.cl {
		n.cl[k] = v
	}
	return n
}

// Sim runs one analysis.
type Sim struct {
	a                   *PTA
	g                   *Graph
	root                *Root
	terms               map[string]*Term
	list                []*Term
	regs                map[regKey2][]*Term
	tTrue, tFalse, tNil *Term

	// opaque: do not enter this callee.
	opaque func(callee *Ctx) bool
	// call: the result of an external or opaque call; nil means default.
	call func(s *State, n *GNode) []*State
	// instr: before an instruction; a non-nil result replaces its effect.
	instr func(s *State, n *GNode) []*State
	// after: after an instruction or call.
	after func(s *State, n *GNode)
	// end: the root returns or panics.
	end func(s *State, n *GNode, panics bool)
	// onPanic: before the deferred calls of a panicking function.
	onPanic func(s *State, n *GNode)
	// edge_: whether control may go from one node to another
	edge_ func(s *State, from, to *GNode) bool
	// opaquePanics: an opaque callee that may panic
	opaquePanics func(callee *Ctx) bool
	// branch: after an assumption, tells whether the path is feasible.
	branch func(s *State, n *GNode, cond *Term, truth bool) bool
	// track decides which cells are followed.
	track func(o *Obj, path string, t types.Type) bool
	// keep: cells not to forget while the object may be reachable
	keep func(k ekey) bool
	// coarse: types of registers whose values at joins are their own
	coarse func(t types.Type) bool
	// signs: keep the sign of what is too deep to keep
	signs bool
	// held are cells which follow the value of a variable into its next round
	held []ekey
	// noFacts: values whose facts do not matter
	noFacts  func(t *Term) bool
	limit    int
	steps    int
	states   int
	visited  []map[string]int
	widened  map[int]bool
	live     map[*ssa.Function]*liveness
	single_  map[*Obj]bool
	written  map[*Obj][]wpath
	loops    map[*Ctx]bool
	loopInfo *loopInfo
	ints     bool // follow small integer arithmetic
	maxInt   int64
	unroll   bool // follow loops of a few rounds
	// the graph of abstract states
	graph  bool
	nodeOf []int
	edges  []simEdge
	pathOf []*trail
}

type simEdge struct {
	from, to int
	prog     bool
}

type wpath struct {
	path   string
	prefix bool
}

type regKey2 struct {
	ctx *Ctx
	v   ssa.Value
}

func (a *PTA) newSim(root *Root) *Sim {
	x := &Sim{a: a, g: a.graph(root), root: root, terms: map[string]*Term{}, regs: map[regKey2][]*Term{}, limit: 3000,
		widened: map[int]bool{}, live: map[*ssa.Function]*liveness{}, single_: map[*Obj]bool{}, loops: map[*Ctx]bool{}, loopInfo: newLoopInfo()}
	x.tTrue, x.tFalse, x.tNil = x.cst("b:true"), x.cst("b:false"), x.mk("nil", "")
	x.visited = make([]map[string]int, len(x.g.nodes))
	return x
}

func (x *Sim) intern(key string, mk func() *Term) *Term {
	if t, ok := x.terms[key]; ok {
		return t
	}
	t := mk()
	t.id = len(x.list)
	x.list = append(x.list, t)
	x.terms[key] = t
	return t
}

func (x *Sim) cst(s string) *Term {
	return x.intern("c"+s, func() *Term { return &Term{op: "c", s: s} })
}

func (x *Sim) cInt(i int64) *Term  { return x.cst("i:" + strconv.FormatInt(i, 10)) }
func (x *Sim) cStr(s string) *Term { return x.cst("s:" + strconv.Quote(s)) }
func (x *Sim) cBool(b bool) *Term {
	if b {
		return x.tTrue
	}
	return x.tFalse
}

func (t *Term) isInt() (int64, bool) {
	if t == nil || t.op != "c" || !strings.HasPrefix(t.s, "i:") {
		return 0, false
	}
	i, err := strconv.ParseInt(t.s[2:], 10, 64)
	return i, err == nil
}

func (t *Term) isStr() (string, bool) {
	if t == nil || t.op != "c" || !strings.HasPrefix(t.s, "s:") {
		return "", false
	}
	s, err := strconv.Unquote(t.s[2:])
	return s, err == nil
}

func (t *Term) isConst() bool { return t != nil && (t.op == "c" || t.op == "nil") }

func (x *Sim) reg(ctx *Ctx, v ssa.Value, path string) *Term {
	key := fmt.Sprintf("r%p/%p%s", ctx, v, path)
	return x.intern(key, func() *Term {
		t := &Term{op: "reg", s: path, ctx: ctx, v: v, depth: 1}
		t.bases = []*Term{t}
		if v != nil {
			t.typ = typeAtLeaf(v.Type(), path)
		}
		x.regs[regKey2{ctx, v}] = append(x.regs[regKey2{ctx, v}], t)
		return t
	})
}

func typeAtLeaf(t types.Type, path string) types.Type {
	if tp, ok := t.(*types.Tuple); ok {
		if !strings.HasPrefix(path, "#") {
			return nil
		}
		j := 1
		for j < len(path) && path[j] >= '0' && path[j] <= '9' {
			j++
		}
		i, _ := strconv.Atoi(path[1:j])
		if i >= tp.Len() {
			return nil
		}
		return typeAt(tp.At(i).Type(), path[j:])
	}
	if path == "" {
		return t
	}
	return typeAt(t, path)
}

// mk builds a term.
func (x *Sim) mk(op, s string, args ...*Term) *Term {
	if op == "len" && len(args) == 1 && args[0] != nil && args[0].op == "slice" && len(args[0].args) >= 3 {
		if hi, ok := args[0].args[2].isInt(); ok {
			lo := int64(0)
			known := args[0].args[1].op == "none"
			if l, ok := args[0].args[1].isInt(); ok {
				lo, known = l, true
			}
			if known && hi >= lo {
				return x.cInt(hi - lo)
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("t")
	sb.WriteString(op)
	sb.WriteString("/")
	sb.WriteString(s)
	for _, a := range args {
		if a == nil {
			return nil
		}
		sb.WriteString(",")
		sb.WriteString(strconv.Itoa(a.id))
	}
	return x.intern(sb.String(), func() *Term {
		t := &Term{op: op, s: s, args: args}
		seen := map[*Term]bool{}
		for _, a := range args {
			if a.depth >= t.depth {
				t.depth = a.depth + 1
			}
			for _, b := range a.bases {
				if !seen[b] {
					seen[b] = true
					t.bases = append(t.bases, b)
				}
			}
		}
		return t
	})
}

func (x *Sim) constTerm(c *ssa.Const, path string) *Term {
	t := c.Type()
	if path != "" {
		if lt := pathType(t, path); lt != nil {
			return x.zero(lt)
		}
		return x.mk("zero", "")
	}
	if c.Value == nil {
		return x.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return x.cBool(constant.BoolVal(c.Value))
	case constant.String:
		return x.cStr(constant.StringVal(c.Value))
	case constant.Int:
		return x.cst("i:" + c.Value.ExactString())
	}
	return x.cst("o:" + c.Value.ExactString())
}

func (x *Sim) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.tFalse
		case u.Info()&types.IsString != 0:
			return x.cStr("")
		case u.Info()&types.IsInteger != 0:
			return x.cInt(0)
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return x.tNil
		}
		return x.cst("o:0")
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return x.tNil
	}
	return x.mk("zero", types.TypeString(t, nil))
}

// pleaves lists the leaves of a type, with small arrays element by element.
func pleaves(t types.Type) []leaf {
	var out []leaf
	var walk func(t types.Type, path string)
	walk = func(t types.Type, path string) {
		if tp, ok := t.(*types.Tuple); ok {
			for i := 0; i < tp.Len(); i++ {
				walk(tp.At(i).Type(), path+"#"+strconv.Itoa(i))
			}
			return
		}
		if extType(t) {
			if _, isStruct := t.Underlying().(*types.Struct); isStruct {
				out = append(out, leaf{path, t})
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if u.NumFields() == 0 {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), path+"."+u.Field(i).Name())
			}
		case *types.Array:
			if u.Len() <= 8 {
				for i := int64(0); i < u.Len(); i++ {
					walk(u.Elem(), path+"["+strconv.FormatInt(i, 10)+"]")
				}
				return
			}
			out = append(out, leaf{path, t})
		default:
			out = append(out, leaf{path, t})
		}
	}
	walk(t, "")
	return out
}

func pathType(t types.Type, path string) types.Type {
	for _, l := range pleaves(t) {
		if l.path == path {
			return l.t
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// evaluation

func (x *Sim) eval(s *State, ctx *Ctx, v ssa.Value) *Term { return x.evalP(s, ctx, v, "") }

func (x *Sim) evalP(s *State, ctx *Ctx, v ssa.Value, path string) *Term {
	t := x.evalD(s, ctx, v, path, 0)
	return x.norm(s, t)
}

// norm replaces a term by the constant it is known to equal.
func (x *Sim) norm(s *State, t *Term) *Term {
	if t == nil || t.isConst() {
		return t
	}
	if f, ok := s.facts[t]; ok && f.eq != nil {
		return f.eq
	}
	return t
}

func (x *Sim) evalD(s *State, ctx *Ctx, v ssa.Value, path string, d int) *Term {
	if d > 80 {
		return x.reg(ctx, v, path)
	}
	self := func() *Term { return x.reg(ctx, v, path) }
	ev := func(w ssa.Value) *Term { return x.norm(s, x.evalD(s, ctx, w, "", d+1)) }
	switch w := v.(type) {
	case *ssa.Const:
		return x.constTerm(w, path)
	case *ssa.Global:
		return x.mk("&g", w.String())
	case *ssa.Function:
		return x.mk("fn", w.String())
	case *ssa.Builtin:
		return x.mk("fn", w.Name())
	}
	if t, ok := s.env[ekey{ctx: ctx, v: v, path: path}]; ok {
		return t
	}
	switch w := v.(type) {
	case *ssa.Parameter:
		nc, nv := x.a.argument(ctx, w)
		if nv != nil {
			t := x.evalD(s, nc, nv, path, d+1)
			if types.IsInterface(nv.Type()) && !types.IsInterface(w.Type()) {
				if t.op == "iface" {
					return t.args[0]
				}
				return x.bound(x.mk("data", path, x.evalD(s, nc, nv, "", d+1)), self)
			}
			return t
		}
	case *ssa.FreeVar:
		nc, nv := x.a.binding(ctx, w)
		if nv != nil {
			return x.evalD(s, nc, nv, path, d+1)
		}
	case *ssa.ChangeType:
		return x.evalD(s, ctx, w.X, path, d+1)
	case *ssa.ChangeInterface:
		return x.evalD(s, ctx, w.X, path, d+1)
	case *ssa.MakeInterface:
		ls := pleaves(w.X.Type())
		var as []*Term
		if len(ls) > 4 {
			as = append(as, x.reg(ctx, w.X, ""))
		} else {
			for _, l := range ls {
				as = append(as, x.norm(s, x.evalD(s, ctx, w.X, l.path, d+1)))
			}
		}
		return x.bound(x.mk("iface", types.TypeString(w.X.Type(), nil), as...), self)
	case *ssa.TypeAssert:
		if !w.CommaOk {
			t := ev(w.X)
			if t.op == "iface" && len(t.args) == 1 && !types.IsInterface(w.AssertedType) {
				return t.args[0]
			}
			if types.IsInterface(w.AssertedType) {
				return t
			}
			return x.bound(x.mk("as", types.TypeString(w.AssertedType, nil)+path, t), self)
		}
	case *ssa.Field:
		return x.evalD(s, ctx, w.X, fieldPath(w.X.Type(), w.Field)+path, d+1)
	case *ssa.Extract:
		return x.evalD(s, ctx, w.Tuple, "#"+strconv.Itoa(w.Index)+path, d+1)
	case *ssa.FieldAddr:
		return x.bound(x.mk("."+deref(w.X.Type()).Underlying().(*types.Struct).Field(w.Field).Name(), "", ev(w.X)), self)
	case *ssa.IndexAddr:
		return x.bound(x.mk("[]", "", ev(w.X), ev(w.Index)), self)
	case *ssa.Index:
		if path == "" {
			if _, isArr := w.X.Type().Underlying().(*types.Array); isArr {
				if i, ok := ev(w.Index).isInt(); ok {
					return x.evalD(s, ctx, w.X, "["+strconv.FormatInt(i, 10)+"]", d+1)
				}
				return self()
			}
			return x.bound(x.mk("idx", "", ev(w.X), ev(w.Index)), self)
		}
	case *ssa.Lookup:
		if _, isMap := w.X.Type().Underlying().(*types.Map); !isMap {
			return x.bound(x.mk("idx", "", ev(w.X), ev(w.Index)), self)
		}
	case *ssa.UnOp:
		switch w.Op {
		case token.NOT:
			return x.not(ev(w.X), self)
		case token.SUB, token.XOR:
			return x.bound(x.mk(w.Op.String(), "u", ev(w.X)), self)
		}
	case *ssa.BinOp:
		return x.binop(s, ctx, w, d)
	case *ssa.Slice:
		as := []*Term{ev(w.X)}
		for _, b := range []ssa.Value{w.Low, w.High, w.Max} {
			if b == nil {
				as = append(as, x.mk("none", ""))
			} else {
				as = append(as, ev(b))
			}
		}
		return x.bound(x.mk("slice", "", as...), self)
	case *ssa.Convert:
		t := ev(w.X)
		if _, ok := t.isInt(); ok && isIntType(w.Type()) {
			return t
		}
		if isIntType(w.Type()) && isIntType(w.X.Type()) {
			return t
		}
		if _, isSlice := w.Type().Underlying().(*types.Slice); isSlice {
			return self()
		}
		if _, isSlice := w.X.Type().Underlying().(*types.Slice); isSlice {
			return self()
		}
		return x.bound(x.mk("conv", types.TypeString(w.Type(), nil), t), self)
	case *ssa.Call:
		if b, ok := w.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			if _, v := x.a.resolve(ctx, w.Call.Args[0]); v != nil {
				if _, at := wholeArray(v); at != nil {
					return x.cInt(at.Len())
				}
			}
			if _, isMap := w.Call.Args[0].Type().Underlying().(*types.Map); isMap {
				return self()
			}
			t := ev(w.Call.Args[0])
			if str, ok := t.isStr(); ok {
				return x.cInt(int64(len(str)))
			}
			if t.op == "nil" {
				return x.cInt(0)
			}
			return x.bound(x.mk("len", "", t), self)
		}
		if key := callKey(&w.Call); path == "" && pureCall(key) && !w.Call.IsInvoke() {
			var as []*Term
			for _, arg := range w.Call.Args {
				if pointerish(arg.Type()) && !types.IsInterface(arg.Type()) {
					return self()
				}
				as = append(as, ev(arg))
			}
			if t := x.foldPure(key, as); t != nil {
				return t
			}
			return x.bound(x.mk("call "+key, "", as...), self)
		}
	}
	return self()
}

// pureCall lists external functions whose result is a function of the values
// of their arguments.
func pureCall(key string) bool {
	i := strings.LastIndex(key, ".")
	if i < 0 {
		return false
	}
	switch key[:i] {
	case "unicode", "unicode/utf8":
		return !strings.Contains(key, "Encode") && !strings.Contains(key, "Append")
	case "strings":
		switch key[i+1:] {
		case "NewReader", "NewReplacer", "Split", "SplitN", "SplitAfter", "Fields", "FieldsFunc", "IndexFunc", "TrimFunc", "TrimLeftFunc", "TrimRightFunc", "Map", "ContainsFunc", "LastIndexFunc":
			return false
		}
		return true
	}
	return strings.HasPrefix(key, "github.com/suapapa/go_hangul.Is")
}

func (x *Sim) foldPure(key string, as []*Term) *Term {
	if key == "unicode/utf8.RuneCountInString" && len(as) == 1 {
		if s, ok := as[0].isStr(); ok {
			return x.cInt(int64(len([]rune(s))))
		}
	}
	return nil
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Sim) bound(t *Term, self func() *Term) *Term {
	if t == nil || t.depth > 9 {
		return self()
	}
	return t
}

func (x *Sim) not(t *Term, self func() *Term) *Term {
	switch {
	case t == x.tTrue:
		return x.tFalse
	case t == x.tFalse:
		return x.tTrue
	case t.op == "!":
		return t.args[0]
	}
	return x.bound(x.mk("!", "", t), self)
}

func (x *Sim) binop(s *State, ctx *Ctx, w *ssa.BinOp, d int) *Term {
	self := func() *Term { return x.reg(ctx, w, "") }
	op := w.Op
	if op == token.EQL || op == token.NEQ {
		ls := pleaves(w.X.Type())
		_, iface := w.X.Type().Underlying().(*types.Interface)
		if len(ls) > 1 && !iface {
			eq, known := true, true
			var as []*Term
			for _, l := range ls {
				a := x.norm(s, x.evalD(s, ctx, w.X, l.path, d+1))
				b := x.norm(s, x.evalD(s, ctx, w.Y, l.path, d+1))
				switch x.cmp(s, a, b) {
				case 1:
				case 2:
					eq = false
				default:
					known = false
				}
				as = append(as, a, b)
			}
			if !eq {
				return x.cBool(op == token.NEQ)
			}
			if known {
				return x.cBool(op == token.EQL)
			}
			t := x.bound(x.mk("==agg", "", as...), self)
			if op == token.NEQ {
				return x.not(t, self)
			}
			return t
		}
	}
	var xp, yp string
	a := x.norm(s, x.evalD(s, ctx, w.X, xp, d+1))
	b := x.norm(s, x.evalD(s, ctx, w.Y, yp, d+1))
	return x.op(s, op, a, b, self)
}

func (x *Sim) op(s *State, op token.Token, a, b *Term, self func() *Term) *Term {
	switch op {
	case token.EQL, token.NEQ:
		switch x.cmp(s, a, b) {
		case 1:
			return x.cBool(op == token.EQL)
		case 2:
			return x.cBool(op == token.NEQ)
		}
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
		t := x.bound(x.mk("==", "", a, b), self)
		if op == token.NEQ && t.op == "==" {
			return x.norm(s, x.not(x.norm(s, t), self))
		}
		if t.op != "==" {
			return t
		}
		return x.norm(s, t)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		switch op {
		case token.GTR:
			op, a, b = token.LSS, b, a
		case token.GEQ:
			op, a, b = token.LEQ, b, a
		}
		la, ha := x.bounds(s, a)
		lb, hb := x.bounds(s, b)
		if op == token.LSS {
			if ha < lb {
				return x.tTrue
			}
			if la >= hb {
				return x.tFalse
			}
			return x.norm(s, x.bound(x.mk("<", "", a, b), self))
		}
		if ha <= lb {
			return x.tTrue
		}
		if la > hb {
			return x.tFalse
		}
		return x.norm(s, x.bound(x.mk("<=", "", a, b), self))
	}
	i, ok1 := a.isInt()
	j, ok2 := b.isInt()
	if ok1 && ok2 {
		var k int64
		switch op {
		case token.ADD:
			k = i + j
		case token.SUB:
			k = i - j
		case token.MUL:
			k = i * j
		case token.AND:
			k = i & j
		case token.OR:
			k = i | j
		default:
			return x.bound(x.mk(op.String(), "", a, b), self)
		}
		if x.ints || (k >= -1 && (k <= 4 || k <= x.maxInt)) {
			return x.cInt(k)
		}
		return self()
	}
	if s1, ok := a.isStr(); ok && op == token.ADD {
		if s2, ok := b.isStr(); ok {
			return x.cStr(s1 + s2)
		}
	}
	return x.bound(x.mk(op.String(), "", a, b), self)
}

// cmp: 1 equal, 2 different, 0 unknown.
func (x *Sim) cmp(s *State, a, b *Term) int {
	if a == b {
		return 1
	}
	if a.isConst() && b.isConst() {
		return 2
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.op == "nil" && x.nonNil(s, a) {
			return 2
		}
		f, ok := s.facts[a]
		if ok {
			if f.eq != nil {
				if f.eq == b {
					return 1
				}
				return 2
			}
			if f.hasNe(b) {
				return 2
			}
		}
		if i, ok := b.isInt(); ok {
			lo, hi := x.bounds(s, a)
			if i < lo || i > hi {
				return 2
			}
		}
		return 0
	}
	// a new error is no sentinel, and sentinels differ
	sa, sb := x.isSentinel(a), x.isSentinel(b)
	if sa && sb || sa && b.op == "err" || sb && a.op == "err" {
		// but an error of the caller's own may be any
		for i, e := range []*Term{a, b} {
			o := []*Term{b, a}[i]
			if e.op == "err" && e.s == "user" && o.op == "load" && o.args[0].s != "io.EOF" {
				return 0
			}
		}
		return 2
	}
	// different allocations
	if isAlloc(a) && isAlloc(b) {
		return 2
	}
	fa, fb := s.facts[a], s.facts[b]
	if fa.eq != nil && fb.eq != nil {
		if fa.eq == fb.eq {
			return 1
		}
		return 2
	}
	return 0
}

func (x *Sim) isSentinel(t *Term) bool {
	return t.op == "load" && len(t.args) == 1 && t.args[0].op == "&g" && x.sentinel(t.args[0].s)
}

func isAlloc(t *Term) bool {
	if t.op != "reg" {
		return t.op == "&g"
	}
	switch t.v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
		return true
	}
	return false
}

func (x *Sim) nonNil(s *State, t *Term) bool {
	switch t.op {
	case "iface", "&g", "fn", "err":
		return true
	case "c":
		return true
	case "nil":
		return false
	}
	if strings.HasPrefix(t.op, ".") || t.op == "[]" || isAlloc(t) {
		return true
	}
	if t.op == "load" && len(t.args) == 1 && t.args[0].op == "&g" && x.sentinel(t.args[0].s) {
		return true
	}
	f, ok := s.facts[t]
	return ok && f.hasNe(x.tNil)
}

// sentinel tells whether a variable of type error is set while initialising
// only, to a new error.
func (x *Sim) sentinel(name string) bool {
	for g := range x.a.globals {
		if g.String() == name {
			return types.Identical(deref(g.Type()), types.Universe.Lookup("error").Type())
		}
	}
	return false
}

func (f fact) hasNe(c *Term) bool {
	return f.ne != "" && strings.Contains(f.ne, ","+strconv.Itoa(c.id)+",")
}

func (x *Sim) bounds(s *State, t *Term) (int64, int64) {
	if i, ok := t.isInt(); ok {
		return i, i
	}
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	if t.op == "len" || strings.HasPrefix(t.op, "call unicode/utf8.RuneCount") {
		lo = 0
	}
	if (t.op == "+" || t.op == "-") && len(t.args) == 2 {
		if k, ok := t.args[1].isInt(); ok && k < 1<<40 && k > -(1<<40) {
			if t.op == "-" {
				k = -k
			}
			l, h := x.bounds(s, t.args[0])
			if l > math.MinInt64/2 && l < math.MaxInt64/2 {
				lo = l + k
			}
			if h < math.MaxInt64/2 && h > math.MinInt64/2 {
				hi = h + k
			}
		}
	}
	if f, ok := s.facts[t]; ok {
		if f.lo > lo {
			lo = f.lo
		}
		if f.hi < hi {
			hi = f.hi
		}
		if f.eq != nil {
			if i, ok := f.eq.isInt(); ok {
				return i, i
			}
		}
	}
	return lo, hi
}

// ---------------------------------------------------------------------------
// assumptions

func (x *Sim) assume(s *State, t *Term, truth bool) bool {
	t = x.norm(s, t)
	if t == x.tTrue {
		return truth
	}
	if t == x.tFalse {
		return !truth
	}
	switch t.op {
	case "!":
		return x.assume(s, t.args[0], !truth)
	case "==":
		a, b := x.norm(s, t.args[0]), x.norm(s, t.args[1])
		switch x.cmp(s, a, b) {
		case 1:
			return truth
		case 2:
			return !truth
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if truth {
				return x.setEq(s, a, b)
			}
			return x.setNe(s, a, b)
		}
		x.setFact(s, t, x.cBool(truth))
		return true
	case "<", "<=":
		a, b := x.norm(s, t.args[0]), x.norm(s, t.args[1])
		la, ha := x.bounds(s, a)
		lb, hb := x.bounds(s, b)
		strict := int64(0)
		if t.op == "<" {
			strict = 1
		}
		if truth { // a + strict <= b
			if !a.isConst() && hb != math.MaxInt64 && !x.setHi(s, a, hb-strict) {
				return false
			}
			if !b.isConst() && la != math.MinInt64 && !x.setLo(s, b, la+strict) {
				return false
			}
		} else { // b + (1-strict) <= a
			if !b.isConst() && ha != math.MaxInt64 && !x.setHi(s, b, ha-(1-strict)) {
				return false
			}
			if !a.isConst() && lb != math.MinInt64 && !x.setLo(s, a, lb+(1-strict)) {
				return false
			}
		}
		x.setFact(s, t, x.cBool(truth))
		return true
	}
	x.setFact(s, t, x.cBool(truth))
	return true
}

func (x *Sim) setFact(s *State, t, c *Term) {
	if t.isConst() || x.noFacts != nil && x.noFacts(t) {
		return
	}
	f, ok := s.facts[t]
	if !ok {
		f = noFact
	}
	f.eq = c
	s.facts[t] = f
}

func (x *Sim) setEq(s *State, a, c *Term) bool {
	if x.noFacts != nil && x.noFacts(a) {
		return true
	}
	f, ok := s.facts[a]
	if !ok {
		f = noFact
	}
	if f.eq != nil && f.eq != c || f.hasNe(c) || c.op == "nil" && x.nonNil(s, a) {
		return false
	}
	if i, ok := c.isInt(); ok {
		lo, hi := x.bounds(s, a)
		if i < lo || i > hi {
			return false
		}
	}
	f.eq = c
	s.facts[a] = f
	// len(s) == 0 means s == ""
	return true
}

func (x *Sim) setNe(s *State, a, c *Term) bool {
	if x.noFacts != nil && x.noFacts(a) {
		return true
	}
	f, ok := s.facts[a]
	if !ok {
		f = noFact
	}
	if f.eq == c {
		return false
	}
	if i, ok := c.isInt(); ok {
		lo, hi := x.bounds(s, a)
		if lo == i && lo != math.MinInt64 {
			f.lo = i + 1
		}
		if hi == i && hi != math.MaxInt64 {
			f.hi = i - 1
		}
		if f.lo > f.hi {
			return false
		}
	}
	if !f.hasNe(c) {
		var ids []int
		for _, p := range strings.Split(f.ne, ",") {
			if n, err := strconv.Atoi(p); err == nil {
				ids = append(ids, n)
			}
		}
		if len(ids) < 40 {
			ids = append(ids, c.id)
			sort.Ints(ids)
			var sb strings.Builder
			sb.WriteString(",")
			for _, i := range ids {
				sb.WriteString(strconv.Itoa(i))
				sb.WriteString(",")
			}
			f.ne = sb.String()
		}
	}
	if !a.isConst() {
		s.facts[a] = f
	}
	return true
}

func (x *Sim) setHi(s *State, a *Term, hi int64) bool {
	if x.noFacts != nil && x.noFacts(a) {
		return true
	}
	f, ok := s.facts[a]
	if !ok {
		f = noFact
	}
	if hi < f.hi {
		f.hi = hi
	}
	lo, _ := x.bounds(s, a)
	if lo > f.hi {
		return false
	}
	s.facts[a] = f
	return true
}

func (x *Sim) setLo(s *State, a *Term, lo int64) bool {
	if x.noFacts != nil && x.noFacts(a) {
		return true
	}
	f, ok := s.facts[a]
	if !ok {
		f = noFact
	}
	if lo > f.lo {
		f.lo = lo
	}
	_, hi := x.bounds(s, a)
	if f.lo > hi {
		return false
	}
	s.facts[a] = f
	return true
}

// define forgets what was known about an earlier value of a register.
func (x *Sim) define(s *State, ctx *Ctx, v ssa.Value) {
	rs := x.regs[regKey2{ctx, v}]
	for k := range s.env {
		if k.ctx == ctx && k.v == v {
			delete(s.env, k)
		}
	}
	if len(rs) == 0 {
		return
	}
	has := func(t *Term) bool {
		for _, b := range t.bases {
			if b.ctx == ctx && b.v == v {
				return true
			}
		}
		return false
	}
	for k, t := range s.env {
		if has(t) {
			delete(s.env, k)
		}
	}
	for t := range s.facts {
		if has(t) {
			delete(s.facts, t)
		}
	}
}

// set gives a register leaf a value.
func (x *Sim) set(s *State, ctx *Ctx, v ssa.Value, path string, t *Term) {
	k := ekey{ctx: ctx, v: v, path: path}
	if t == nil || t == x.reg(ctx, v, path) {
		delete(s.env, k)
		return
	}
	if t.depth > 9 {
		delete(s.env, k)
		return
	}
	s.env[k] = t
}

// ---------------------------------------------------------------------------
// memory

type caddr struct {
	o     *Obj
	path  string
	exact bool
}

// wholeArray gives the array of which a value is a slice of all elements.
func wholeArray(v ssa.Value) (ssa.Value, *types.Array) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
		return nil, nil
	}
	pt, ok := sl.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	at, _ := pt.Elem().Underlying().(*types.Array)
	return sl.X, at
}

// addrs gives the cells an address may denote.
func (x *Sim) addrs(s *State, ctx *Ctx, v ssa.Value) []caddr {
	c2, v2 := x.a.resolve(ctx, v)
	switch w := v2.(type) {
	case *ssa.FieldAddr:
		var out []caddr
		fp := fieldPath(deref(w.X.Type()), w.Field)
		for _, b := range x.addrs(s, c2, w.X) {
			out = append(out, caddr{b.o, b.path + fp, b.exact})
		}
		return out
	case *ssa.IndexAddr:
		if at, ok := deref(w.X.Type()).Underlying().(*types.Array); ok && at.Len() <= 8 {
			idx := "[?]"
			if i, ok := x.eval(s, c2, w.Index).isInt(); ok {
				idx = "[" + strconv.FormatInt(i, 10) + "]"
			}
			var out []caddr
			for _, b := range x.addrs(s, c2, w.X) {
				out = append(out, caddr{b.o, b.path + idx, b.exact})
			}
			return out
		}
		if c3, v3 := x.a.resolve(c2, w.X); v3 != nil {
			if arr, at := wholeArray(v3); at != nil && at.Len() <= 8 {
				if i, ok := x.eval(s, c2, w.Index).isInt(); ok {
					var out []caddr
					for _, b := range x.addrs(s, c3, arr) {
						out = append(out, caddr{b.o, b.path + "[" + strconv.FormatInt(i, 10) + "]", b.exact})
					}
					return out
				}
			}
		}
	case *ssa.Alloc:
		es := x.a.pts(c2, w)
		if len(es) == 1 {
			return []caddr{{canon(es[0].o), es[0].path, true}}
		}
	}
	var out []caddr
	for _, e := range x.a.pts(ctx, v) {
		o := canon(e.o)
		out = append(out, caddr{o, e.path, x.single(o)})
	}
	if len(out) > 1 {
		for i := range out {
			out[i].exact = false
		}
	}
	return out
}

// single tells whether an object stands for one object in a run of the root.
func (x *Sim) single(o *Obj) bool {
	if r, ok := x.single_[o]; ok {
		return r
	}
	r := func() bool {
		if o.kind == oGlobal {
			return true
		}
		if o.kind != oAlloc || o.ctx == nil || o.ctx.root != x.root {
			return false
		}
		in, ok := o.site.(ssa.Instruction)
		if !ok || in.Block() == nil {
			return false
		}
		for c := o.ctx; c != nil; c = c.parent {
			if reaches(in.Block(), in.Block()) {
				return false
			}
			if c.parent == nil {
				return true
			}
			in = c.site
			if in == nil || in.Block() == nil {
				return false
			}
		}
		return false
	}()
	x.single_[o] = r
	return r
}

func (x *Sim) tracked(o *Obj, path string, t types.Type) bool {
	if strings.Contains(path, "[]") || strings.Contains(path, "{") || strings.Contains(path, "[?]") {
		return false
	}
	if x.track != nil {
		return x.track(o, path, t)
	}
	return true
}

func (x *Sim) store(s *State, ctx *Ctx, addr ssa.Value, val func(l leaf) *Term, t types.Type) {
	as := x.addrs(s, ctx, addr)
	for _, a := range as {
		for _, l := range pleaves(t) {
			p := a.path + l.path
			x.killOverlap(s, a.o, p)
			if a.exact && len(as) == 1 && x.tracked(a.o, p, l.t) {
				v := val(l)
				if v != nil && v.depth <= 9 {
					s.env[ekey{o: a.o, path: p}] = v
				}
			}
		}
	}
}

// killOverlap forgets cells which a store to a path may change.
func (x *Sim) killOverlap(s *State, o *Obj, path string) {
	for k := range s.env {
		if k.o != o {
			continue
		}
		if mayAlias(k.path, path) {
			delete(s.env, k)
		}
	}
}

func mayAlias(a, b string) bool {
	if a == b || strings.HasPrefix(a, b) || strings.HasPrefix(b, a) {
		return true
	}
	if strings.Contains(a, "[") && strings.Contains(b, "[") {
		return genIdx(a) == genIdx(b) && (strings.Contains(a, "[?]") || strings.Contains(b, "[?]") || strings.Contains(a, "[]") || strings.Contains(b, "[]"))
	}
	return false
}

func genIdx(p string) string {
	var sb strings.Builder
	in := false
	for _, c := range p {
		switch {
		case c == '[':
			in = true
			sb.WriteRune(c)
		case c == ']':
			in = false
			sb.WriteRune(c)
		case !in:
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

func (x *Sim) load(s *State, ctx *Ctx, in *ssa.UnOp) {
	as := x.addrs(s, ctx, in.X)
	type kv struct {
		p string
		t *Term
	}
	var got []kv
	at := x.eval(s, ctx, in.X)
	for _, l := range pleaves(in.Type()) {
		var t *Term
		if len(as) == 1 && as[0].exact {
			t = s.env[ekey{o: as[0].o, path: as[0].path + l.path}]
		}
		if t == nil && x.stable(as, l.path) {
			t = x.mk("load", l.path, at)
			if t.depth > 9 {
				t = nil
			}
		}
		got = append(got, kv{l.path, t})
	}
	x.define(s, ctx, in)
	for _, g := range got {
		if g.t != nil && !containsReg(g.t, ctx, in) {
			x.set(s, ctx, in, g.p, g.t)
		} else if len(as) == 1 && as[0].exact && x.tracked(as[0].o, as[0].path+g.p, in.Type()) {
			// remember what was read
			s.env[ekey{o: as[0].o, path: as[0].path + g.p}] = x.reg(ctx, in, g.p)
		}
	}
}

func containsReg(t *Term, ctx *Ctx, v ssa.Value) bool {
	for _, b := range t.bases {
		if b.ctx == ctx && b.v == v {
			return true
		}
	}
	return false
}

// stable tells whether nothing in this root writes the cells.
func (x *Sim) stable(as []caddr, sub string) bool {
	if len(as) == 0 {
		return false
	}
	if x.written == nil {
		x.written = map[*Obj][]wpath{}
		seen := map[siteKey]bool{}
		for _, n := range x.g.nodes {
			if n.in == nil || seen[siteKey{n.ctx, n.in}] {
				continue
			}
			seen[siteKey{n.ctx, n.in}] = true
			x.a.accesses(n.ctx, n.in, func(ac Access) {
				if ac.write {
					x.written[ac.o] = append(x.written[ac.o], wpath{ac.path, ac.prefix})
				}
			})
		}
	}
	for _, a := range as {
		if a.o.user {
			return false
		}
		p := genIdx(a.path + sub)
		if a.o.kind == oAlloc && a.o.ctx != nil && a.o.ctx.root == x.root {
			return false
		}
		for _, w := range x.written[a.o] {
			q := genIdx(w.path)
			if p == q || strings.HasPrefix(p, q) || strings.HasPrefix(q, p) {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// execution of the abstraction

func (x *Sim) exec(s *State, n *GNode) {
	ctx := n.ctx
	switch in := n.in.(type) {
	case *ssa.Alloc:
		x.define(s, ctx, in)
		es := x.a.pts(ctx, in)
		for _, e := range es {
			o := canon(e.o)
			for k := range s.env {
				if k.o == o {
					delete(s.env, k)
				}
			}
			ls := pleaves(deref(in.Type()))
			if len(ls) > 60 {
				continue
			}
			for _, l := range ls {
				if x.tracked(o, l.path, l.t) {
					s.env[ekey{o: o, path: l.path}] = x.zero(l.t)
				}
			}
		}
	case *ssa.Store:
		x.store(s, ctx, in.Addr, func(l leaf) *Term { return x.evalP(s, ctx, in.Val, l.path) }, in.Val.Type())
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			x.load(s, ctx, in)
		default:
			x.define(s, ctx, in)
		}
	case *ssa.Return:
		for k := range s.env {
			if k.ctx == ctx && k.v == nil && strings.HasPrefix(k.path, "ret#") {
				delete(s.env, k)
			}
		}
		for i, r := range in.Results {
			for _, l := range pleaves(r.Type()) {
				if t := x.evalP(s, ctx, r, l.path); t != nil {
					s.env[ekey{ctx: ctx, path: "ret#" + strconv.Itoa(i) + l.path}] = t
				}
			}
		}
	case *ssa.Phi:
	case *ssa.TypeAssert:
		x.define(s, ctx, in)
		if in.CommaOk {
			t := x.eval(s, ctx, in.X)
			if t.op == "iface" && !types.IsInterface(in.AssertedType) {
				if t.s == types.TypeString(in.AssertedType, nil) {
					x.set(s, ctx, in, "#1", x.tTrue)
					if len(t.args) == 1 {
						x.set(s, ctx, in, "#0", t.args[0])
					}
				} else {
					x.set(s, ctx, in, "#1", x.tFalse)
				}
			} else if t.op == "nil" {
				x.set(s, ctx, in, "#1", x.tFalse)
			}
		}
	case *ssa.Call:
		// results are set on return
		x.callEffects(s, n)
	default:
		if v, ok := n.in.(ssa.Value); ok {
			x.define(s, ctx, v)
		}
	}
}

// callEffects forgets memory an external callee may write.
func (x *Sim) callEffects(s *State, n *GNode) {
	ci, ok := n.in.(ssa.CallInstruction)
	if !ok {
		return
	}
	x.a.accesses(n.ctx, ci, func(ac Access) {
		if !ac.write {
			return
		}
		for k := range s.env {
			if k.o == ac.o && (strings.HasPrefix(genIdx(k.path), genIdx(ac.path)) || strings.HasPrefix(genIdx(ac.path), genIdx(k.path))) {
				delete(s.env, k)
			}
		}
	})
	si := x.a.callees[siteKey{n.ctx, ci}]
	if si != nil && si.user {
		for k := range s.env {
			if k.o != nil && (k.o.shared || k.o.twin != nil) {
				delete(s.env, k)
			}
		}
	}
}

func (x *Sim) phis(s *State, ctx *Ctx, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	if idx < 0 {
		return
	}
	type kv struct {
		phi *ssa.Phi
		p   string
		t   *Term
	}
	var vals []kv
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for _, l := range pleaves(phi.Type()) {
			t := x.evalP(s, ctx, phi.Edges[idx], l.path)
			vals = append(vals, kv{phi, l.path, t})
		}
	}
	loop := reaches(to, to)
	holds := map[ekey]*Term{}
	for _, k := range x.held {
		if t := s.env[k]; t != nil {
			holds[k] = t
		}
	}
	nonneg := map[*ssa.Phi]bool{}
	below := map[*ssa.Phi][]*Term{}
	if x.signs && loop {
		for _, kv := range vals {
			if kv.t != nil && kv.p == "" && kv.t.depth > 4 && isIntType(kv.phi.Type()) {
				nonneg[kv.phi] = x.leq(s, x.cInt(0), kv.t, 0)
				lens := map[*Term]bool{}
				for t := range s.facts {
					if t.op == "len" {
						lens[t] = true
					}
					for _, a := range t.args {
						if a.op == "len" {
							lens[a] = true
						}
					}
				}
				for l := range lens {
					if x.leq(s, kv.t, l, 1) {
						below[kv.phi] = append(below[kv.phi], l)
					}
				}
			}
		}
	}
	for _, kv := range vals {
		keep := kv.t
		if keep == x.reg(ctx, kv.phi, kv.p) {
			continue // unchanged
		}
		x.define(s, ctx, kv.phi)
	}
	for i := 0; i+1 < len(x.held); i += 2 {
		// a pair of cells: the value, and the variable which has it
		for _, kv := range vals {
			if kv.t == nil || kv.p != "" {
				continue
			}
			if h := holds[x.held[i]]; h == kv.t {
				s.env[x.held[i+1]] = x.reg(ctx, kv.phi, "")
			} else if h := holds[x.held[i+1]]; h == kv.t {
				s.env[x.held[i+1]] = x.reg(ctx, kv.phi, "")
			}
		}
	}
	for _, kv := range vals {
		t := kv.t
		if t == nil {
			continue
		}
		if t == x.reg(ctx, kv.phi, kv.p) {
			continue
		}
		bad := false
		for _, o := range vals {
			if containsReg(t, ctx, o.phi) {
				bad = true
			}
		}
		if bad {
			// the value of another phi before this step, or of this one
			continue
		}
		if loop {
			if _, ok := t.isInt(); ok && isIntType(kv.phi.Type()) && !x.ints && !boolish(kv.phi) {
				if x.maxInt == 0 || to.Dominates(from) && moves(kv.phi, kv.phi.Edges[idx]) && !x.unrolled(s, ctx, kv.phi) {
					continue
				}
			}
			if t.depth > 4 {
				if nonneg[kv.phi] {
					x.setLo(s, x.reg(ctx, kv.phi, ""), 0)
				}
				for _, l := range below[kv.phi] {
					if !containsReg(l, ctx, kv.phi) {
						x.setFact(s, x.mk("<", "", x.reg(ctx, kv.phi, ""), l), x.tTrue)
					}
				}
				continue
			}
		}
		x.set(s, ctx, kv.phi, kv.p, t)
	}
	if loop {
		// a counted loop starts at its first index
		x.loopInfo.of(to.Parent())
		for _, d := range x.loopInfo.all[to.Parent()] {
			if d.hdr == to && d.kind == "count" {
				t := x.reg(ctx, d.phi, "")
				if _, has := s.env[ekey{ctx: ctx, v: d.phi}]; !has {
					if !d.desc && d.lo.v == nil {
						x.setLo(s, t, d.lo.k-d.off)
					}
					if d.desc && d.hi.v == nil {
						x.setHi(s, t, d.hi.k-1-d.off)
					}
				}
			}
		}
	}
}

// unrolled tells whether a phi counts the rounds of a loop that makes a few, known
// in advance, which the simulation follows one by one.
func (x *Sim) unrolled(s *State, ctx *Ctx, phi *ssa.Phi) bool {
	if !x.unroll {
		return false
	}
	fn := phi.Parent()
	x.loopInfo.of(fn)
	for _, d := range x.loopInfo.all[fn] {
		if d.kind != "count" || d.phi != phi || d.lo.v != nil {
			continue
		}
		hi := d.hi.k
		if d.hi.v != nil {
			k, ok := x.eval(s, ctx, d.hi.v).isInt()
			if !ok {
				continue
			}
			hi += k
		}
		if n := hi - d.lo.k; n >= 0 && n <= x.maxInt && n <= 8 {
			return true
		}
	}
	return false
}

// boolish tells whether an integer phi takes constants only (a state variable).
func boolish(phi *ssa.Phi) bool {
	seen := map[*ssa.Phi]bool{}
	var ok func(p *ssa.Phi) bool
	ok = func(p *ssa.Phi) bool {
		if seen[p] {
			return true
		}
		seen[p] = true
		for _, e := range p.Edges {
			switch e := e.(type) {
			case *ssa.Const:
			case *ssa.Phi:
				if !ok(e) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(phi)
}

// bindRet passes results to the caller.
func (x *Sim) bindRet(s *State, from *Ctx, m *GNode) {
	call, ok := m.in.(*ssa.Call)
	if !ok {
		return
	}
	res := from.fn.Signature.Results()
	type kv struct {
		p string
		t *Term
	}
	var got []kv
	for i := 0; i < res.Len(); i++ {
		dp := ""
		if res.Len() > 1 {
			dp = "#" + strconv.Itoa(i)
		}
		for _, l := range pleaves(res.At(i).Type()) {
			k := ekey{ctx: from, path: "ret#" + strconv.Itoa(i) + l.path}
			t := s.env[k]
			delete(s.env, k)
			got = append(got, kv{dp + l.path, t})
		}
	}
	x.define(s, m.ctx, call)
	for _, g := range got {
		if g.t != nil && !containsReg(g.t, m.ctx, call) {
			x.set(s, m.ctx, call, g.p, g.t)
		}
	}
}

type simItem struct {
	n int
	s *State
}

// run explores all states.
func (x *Sim) run(init *State) {
	if init == nil {
		init = newState()
	}
	work := []simItem{{x.g.entry[x.root.ctx], init}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		n := x.g.nodes[it.n]
		s := it.s
		x.steps++
		if x.steps > 8000000 {
			fail("too many states in %s", x.root.name)
		}
		if len(n.pred) != 1 || n.kind == kEntry {
			x.collect(s, n)
			key := x.key(s)
			vm := x.visited[n.id]
			if vm == nil {
				vm = map[string]int{}
				x.visited[n.id] = vm
			}
			if id := vm[key]; id > 0 {
				x.edge(s, id)
				continue
			}
			if len(vm) >= x.limit {
				// widen: forget facts and values
				if !x.widened[n.id] && os.Getenv("HV_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "widened", x.g.where(n), fnName(n.ctx.fn), n.ctx.id, key)
				}
				x.widened[n.id] = true
				s.facts = map[*Term]fact{}
				hard := x.keep == nil || len(vm) >= 3*x.limit
				for k, t := range s.env {
					if k.v != nil || k.o != nil {
						if !hard && (t.isConst() || t.op == "err" || x.isSentinel(t)) {
							if _, isInt := t.isInt(); !isInt || k.o == nil {
								continue
							}
						}
						delete(s.env, k)
					}
				}
				key = x.key(s)
				if id := vm[key]; id > 0 {
					x.edge(s, id)
					continue
				}
			}
			x.states++
			vm[key] = x.states
			if os.Getenv("HV_KEYS") != "" && len(vm) > 400 && len(vm) < 408 {
				fmt.Fprintln(os.Stderr, "KEY", x.g.where(n), key)
			}
			x.edge(s, x.states)
			if x.graph {
				x.nodeOf = append(x.nodeOf, n.id)
				x.pathOf = append(x.pathOf, s.path)
			}
			s.from, s.prog = x.states, false
		}
		for _, nx := range x.step(n, s) {
			work = append(work, nx)
		}
	}
}

func (x *Sim) edge(s *State, to int) {
	if x.graph && s.from > 0 {
		x.edges = append(x.edges, simEdge{s.from, to, s.prog})
	}
}

func (x *Sim) step(n *GNode, s *State) []simItem {
	var out []simItem
	if n.id == x.g.exit[x.root.ctx] || n.id == x.g.pexit[x.root.ctx] {
		if x.end != nil {
			x.end(s, n, n.id == x.g.pexit[x.root.ctx])
		}
		return nil
	}
	states := []*State{s}
	if n.kind == kInstr {
		handled := false
		if x.instr != nil {
			if r := x.instr(s, n); r != nil {
				states = r
				handled = true
			}
		}
		if !handled {
			x.exec(s, n)
		}
		if x.after != nil {
			if _, isCall := n.in.(*ssa.Call); !isCall {
				for _, s := range states {
					x.after(s, n)
				}
			}
		}
	} else if n.kind == kDefer {
		if x.instr != nil {
			if r := x.instr(s, n); r != nil {
				states = r
			}
		}
		for _, s := range states {
			x.callEffects(s, n)
		}
	}
	if n.kind == kInstr {
		if br, ok := n.in.(*ssa.If); ok {
			for _, s := range states {
				cond := x.eval(s, n.ctx, br.Cond)
				if w := os.Getenv("HV_IF"); w != "" && x.a.p.instrPos(br) == w {
					fmt.Fprintln(os.Stderr, "IF", n.ctx.id, fnName(n.ctx.fn), cond, s.cl, s.trail())
					for t, f := range s.facts {
						fmt.Fprintln(os.Stderr, "   ", t, f.eq, f.ne, f.lo, f.hi)
					}
				}
				for i, succ := range br.Block().Succs {
					truth := i == 0
					t := s
					if !(cond == x.tTrue || cond == x.tFalse) {
						t = s.clone()
						if !x.assume(t, cond, truth) {
							continue
						}
						t.path = &trail{t.path, fmt.Sprintf("%s=%v", x.a.p.instrPos(br), truth)}
					} else if (cond == x.tTrue) != truth {
						continue
					} else if i == 0 && len(br.Block().Succs) > 1 {
						t = s.clone()
					}
					if x.branch != nil && !x.branch(t, n, cond, truth) {
						continue
					}
					x.phis(t, n.ctx, br.Block(), succ)
					out = append(out, simItem{x.g.instr[siteKey{n.ctx, succ.Instrs[0]}], t})
				}
			}
			return out
		}
	}
	for _, s := range states {
		succ := n.succ
		if ci := n.callInstr(); ci != nil && len(succ) > 1 && !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil {
			// a function value known on this path
			if want := x.knownFn(s, n.ctx, ci.Common().Value); want != "" {
				var keep []int
				for _, m := range succ {
					if mn := x.g.nodes[m]; mn.kind == kEntry && mn.ctx.fn.String() == want {
						keep = append(keep, m)
					}
				}
				if len(keep) > 0 {
					succ = keep
				}
			}
		}
		if ci := n.callInstr(); ci != nil && x.opaque != nil {
			from := succ
			succ = nil
			opq := false
			for _, m := range from {
				mn := x.g.nodes[m]
				if mn.kind == kEntry && mn.ctx != n.ctx && x.opaque(mn.ctx) {
					opq = true
					if x.opaquePanics != nil && x.opaquePanics(mn.ctx) {
						succ = append(succ, x.g.nodes[x.g.pexit[mn.ctx]].succ...)
					}
					continue
				}
				succ = append(succ, m)
			}
			if opq {
				r := x.g.rets[retKey{n.ctx, n.in, n.id}]
				if r != 0 {
					succ = append(succ, r)
				}
			}
		}
		for i, m := range succ {
			t := s
			if i < len(succ)-1 {
				t = s.clone()
			}
			mn := x.g.nodes[m]
			if x.edge_ != nil && !x.edge_(t, n, mn) {
				continue
			}
			if x.onPanic != nil && mn.kind == kMid && mn.in == nil {
				x.onPanic(t, n)
			}
			if mn.kind == kRet || mn.kind == kDeferRet {
				if n.kind == kExit {
					x.bindRet(t, n.ctx, mn)
					if x.after != nil {
						x.after(t, mn)
					}
				} else {
					if v, ok := mn.in.(*ssa.Call); ok && mn.kind == kRet {
						x.define(t, mn.ctx, v)
					}
					if x.call != nil {
						if rs := x.call(t, mn); rs != nil {
							for _, u := range rs {
								if x.after != nil {
									x.after(u, mn)
								}
								out = append(out, simItem{m, u})
							}
							continue
						}
					}
					if x.after != nil {
						x.after(t, mn)
					}
				}
			}
			if n.kind == kInstr {
				if j, ok := n.in.(*ssa.Jump); ok {
					x.phis(t, n.ctx, j.Block(), j.Block().Succs[0])
				}
			}
			out = append(out, simItem{m, t})
		}
	}
	return out
}

// ---------------------------------------------------------------------------
// liveness and state keys

type liveness struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
	at map[ssa.Instruction]map[ssa.Value]bool // live before the instruction
}

func (x *Sim) liveOf(fn *ssa.Function) *liveness {
	if l, ok := x.live[fn]; ok {
		return l
	}
	l := &liveness{map[*ssa.BasicBlock]map[ssa.Value]bool{}, map[ssa.Instruction]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for again := true; again; {
		again = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := l.liveOut(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				liveStep(cur, b.Instrs[j])
			}
			if len(cur) != len(l.in[b]) {
				l.in[b] = cur
				again = true
			}
		}
	}
	x.live[fn] = l
	return l
}

func (l *liveness) liveOut(b *ssa.BasicBlock) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range l.in[s] {
			out[v] = true
		}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			out[phi] = true
			for i, p := range s.Preds {
				if p == b {
					useVal(out, phi.Edges[i])
				}
			}
		}
	}
	return out
}

func useVal(m map[ssa.Value]bool, v ssa.Value) {
	if v == nil || m[v] {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return
	}
	m[v] = true
	// pure values are evaluated from their operands
	if in, ok := v.(ssa.Instruction); ok {
		switch in.(type) {
		case *ssa.Phi, *ssa.Alloc, *ssa.Next, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
			return
		}
		var ops [8]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			useVal(m, *o)
		}
	}
}

func liveStep(cur map[ssa.Value]bool, in ssa.Instruction) {
	if v, ok := in.(ssa.Value); ok {
		if _, isPhi := in.(*ssa.Phi); !isPhi {
			delete(cur, v)
		}
	}
	if _, ok := in.(*ssa.Phi); ok {
		return
	}
	var ops [8]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		useVal(cur, *o)
	}
}

func (l *liveness) before(in ssa.Instruction) map[ssa.Value]bool {
	if m, ok := l.at[in]; ok {
		return m
	}
	b := in.Block()
	cur := l.liveOut(b)
	for j := len(b.Instrs) - 1; j >= 0; j-- {
		liveStep(cur, b.Instrs[j])
		m := make(map[ssa.Value]bool, len(cur))
		for k := range cur {
			m[k] = true
		}
		l.at[b.Instrs[j]] = m
	}
	return l.at[in]
}

// collect drops what the rest of the run cannot use.
func (x *Sim) collect(s *State, n *GNode) {
	keepReg := map[ekey]bool{}
	alive := map[*Ctx]map[ssa.Value]bool{}
	mark := func(ctx *Ctx, in ssa.Instruction) {
		m := alive[ctx]
		if m == nil {
			m = map[ssa.Value]bool{}
			alive[ctx] = m
		}
		for v := range x.liveOf(ctx.fn).before(in) {
			m[v] = true
		}
	}
	switch {
	case n.kind == kEntry:
		mark(n.ctx, n.ctx.fn.Blocks[0].Instrs[0])
	case n.in != nil:
		mark(n.ctx, n.in)
		if v, ok := n.in.(ssa.Value); ok && n.kind == kRet {
			alive[n.ctx][v] = true
		}
	default:
		// exits: returned values only; panic chains: keep the frame
		if n.kind != kExit && n.kind != kPExit {
			alive[n.ctx] = nil
		}
	}
	inChain := map[*Ctx]bool{}
	for c := n.ctx; c != nil; c = c.parent {
		inChain[c] = true
		if c.parent != nil && c.site != nil {
			mark(c.parent, c.site)
			if v, ok := c.site.(ssa.Value); ok {
				alive[c.parent][v] = true
			}
		}
	}
	_ = keepReg
	bases := map[*Term]bool{}
	for k, t := range s.env {
		switch {
		case k.o != nil:
		case k.v == nil: // returned values
			if n.kind != kExit || k.ctx != n.ctx {
				if !inChain[k.ctx] || n.kind != kExit && n.kind != kMid && n.kind != kDefer && n.kind != kDeferRet && n.kind != kDeferMid {
					delete(s.env, k)
					continue
				}
			}
		default:
			m, ok := alive[k.ctx]
			if !ok {
				delete(s.env, k)
				continue
			}
			if m != nil && !m[k.v] {
				delete(s.env, k)
				continue
			}
			if x.coarse != nil && (!t.isConst() || isStrTerm(t)) {
				if lt := typeAtLeaf(k.v.Type(), k.path); lt != nil && x.coarse(lt) {
					delete(s.env, k)
					continue
				}
			}
		}
		for _, b := range t.bases {
			bases[b] = true
		}
	}
	liveBase := func(b *Term) bool {
		if bases[b] {
			return true
		}
		if b.v == nil {
			return true
		}
		if _, ok := b.v.(*ssa.Parameter); ok && b.ctx != nil && inChain[b.ctx] {
			return true
		}
		m, ok := alive[b.ctx]
		if ok && (m == nil || m[b.v]) {
			return true
		}
		return false
	}
	// cells of dead objects
	for k := range s.env {
		if k.o == nil || k.o.kind == oGlobal || k.o.ctx == nil || inChain[k.o.ctx] {
			continue
		}
		live := false
		for _, b := range x.regs[regKey2{k.o.ctx, k.o.site}] {
			if bases[b] || liveBase(b) {
				live = true
			}
		}
		if al, ok := k.o.site.(*ssa.Alloc); ok && !al.Heap && !live {
			delete(s.env, k)
			continue
		}
		if !live && x.keep != nil && x.keep(k) {
			continue
		}
		if !live {
			delete(s.env, k)
		}
	}
	for t := range s.facts {
		for _, b := range t.bases {
			if !liveBase(b) {
				delete(s.facts, t)
				break
			}
		}
	}
}

func (x *Sim) key(s *State) string {
	var parts []string
	for k, t := range s.env {
		oid, cid := -1, -1
		if k.o != nil {
			oid = k.o.id
		}
		if k.ctx != nil {
			cid = k.ctx.id
		}
		parts = append(parts, fmt.Sprintf("%d|%p|%d|%s=%d", cid, k.v, oid, k.path, t.id))
	}
	for t, f := range s.facts {
		e := -1
		if f.eq != nil {
			e = f.eq.id
		}
		parts = append(parts, fmt.Sprintf("f%d:%d:%s:%d:%d", t.id, e, f.ne, f.lo, f.hi))
	}
	for k, v := range s.cl {
		parts = append(parts, "c"+k+"="+v)
	}
	sort.Strings(parts)
	return strings.Join(parts, ";")
}

func (s *State) trail() string {
	var ps []string
	for t := s.path; t != nil && len(ps) < 12; t = t.prev {
		ps = append(ps, t.at)
	}
	for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
		ps[i], ps[j] = ps[j], ps[i]
	}
	return strings.Join(ps, ", ")
}

// result is what the root returns as its i-th result, at its exit.
func (x *Sim) result(s *State, i int, path string) *Term {
	t := s.env[ekey{ctx: x.root.ctx, path: "ret#" + strconv.Itoa(i) + path}]
	if t == nil {
		return nil
	}
	return x.norm(s, t)
}

func (x *Sim) knownFn(s *State, ctx *Ctx, v ssa.Value) string {
	t := x.eval(s, ctx, v)
	switch {
	case t.op == "fn":
		return t.s
	case t.op == "reg" && t.v != nil:
		if mc, ok := t.v.(*ssa.MakeClosure); ok {
			return mc.Fn.String()
		}
	}
	return ""
}

func isStrTerm(t *Term) bool {
	v, ok := t.isStr()
	return ok && v != ""
}
