package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: composing syllables.

const hangulPkg = "github.com/suapapa/go_hangul."

// jamoSim follows the letters the composer has read but not written yet.
type jamoSim struct {
	a     *PTA
	r     *Report
	x     *Sim
	root  *Root
	name  string
	reads map[string]bool
	emits map[string]bool
	joins map[string]bool
	lost  bool // a form the analysis does not follow
	why   string
	pend  []jamoFinding
}

type jamoFinding struct{ rule, key, where, msg string }

// A letter is "tok" with its class and number: L lead, V vowel, T tail, S
// syllable without tail, F syllable with tail, O other. Part i of a syllable is
// "part".

func (j *jamoSim) tok(class string, id int) *Term { return j.x.mk("tok", class+strconv.Itoa(id)) }

func (j *jamoSim) bad(s *State, rule, key, where, format string, args ...any) {
	if s.cl["unknown"] != "" {
		return
	}
	j.pend = append(j.pend, jamoFinding{rule, key, where, fmt.Sprintf(format, args...)})
}

func (j *jamoSim) quiet(s *State, n *GNode, why string) {
	s.cl["unknown"] = "1"
	if os.Getenv("HV_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "unknown", j.x.g.where(n), s.cl["pend"], s.trail())
	}
	if !j.lost {
		j.lost = true
		j.why = why + " at " + j.x.g.where(n)
	}
}

func (j *jamoSim) pending(s *State) []string { return strings.Fields(s.cl["pend"]) }

// read forks on the class of the next letter; set gives it to the program.
func (j *jamoSim) read(s *State, n *GNode, set func(u *State, t *Term)) []*State {
	x := j.x
	j.reads[x.g.where(n)] = true
	j.forget(s)
	pend := j.pending(s)
	others := 0
	for _, id := range pend {
		if id[0] == 'O' {
			others++
		}
	}
	if len(pend) > 5 || others > 1 {
		j.bad(s, "lost", j.name, x.g.where(n), "more letters than fit a syllable are held back, or letters were dropped: the letters %s are read but not written on the path %s", s.cl["pend"], s.trail())
		return []*State{}
	}
	id := len(pend)
	var out []*State
	// the prefix of a tail
	h := s.clone()
	h.cl["hy"] = "1"
	set(h, x.cInt('-'))
	h.path = &trail{h.path, "-"}
	out = append(out, h)
	for _, class := range []string{"C", "V", "S", "F", "O"} {
		u := s.clone()
		k := class
		if class == "C" {
			k = "L"
			if s.cl["hy"] != "" {
				k = "T"
			}
		}
		delete(u.cl, "hy")
		t := j.tok(k, id)
		delete(u.facts, t)
		u.cl["pend"] = strings.Join(append(append([]string{}, pend...), k+strconv.Itoa(id)), " ")
		x.setNe(u, t, x.cInt(0))
		x.setNe(u, t, x.cInt('-'))
		switch class {
		case "C":
			x.setLo(u, t, 0x1100)
			x.setHi(u, t, 0x314e)
		case "V":
			x.setLo(u, t, 0x1161)
			x.setHi(u, t, 0x3163)
		case "S", "F":
			x.setLo(u, t, 0xac00)
			x.setHi(u, t, 0xd7a3)
		}
		set(u, t)
		u.path = &trail{u.path, k}
		out = append(out, u)
	}
	return out
}

// token is the letter a term stands for, with the part of it.
func tokenOf(t *Term) (id, part string) {
	for t != nil && t.op == "conv" && len(t.args) == 1 {
		t = t.args[0]
	}
	switch {
	case t == nil:
		return "", ""
	case t.op == "tok":
		return t.s, ""
	case t.op == "part":
		return t.args[0].s, t.s
	}
	return "", ""
}

// done tells the letters are written, in the right order.
func (j *jamoSim) done(s *State, n *GNode, ids []string, what string) bool {
	pend := j.pending(s)
	for i, id := range ids {
		if strings.HasSuffix(id, "done") {
			j.bad(s, "twice", j.name, j.x.g.where(n), "a letter is written twice, the second time %s, on the path %s", what, s.trail())
			return false
		}
		if i >= len(pend) || pend[i] != id {
			j.bad(s, "order", j.name, j.x.g.where(n), "the letters %v are written %s while %v wait, on the path %s", ids, what, pend, s.trail())
			return false
		}
	}
	x := j.x
	change := func(old, now *Term, fresh bool) {
		for k, t := range s.env {
			if nt := j.rename(t, old, now); nt != t {
				s.env[k] = nt
			}
		}
		for t, f := range s.facts {
			if nt := j.rename(t, old, now); nt != t {
				delete(s.facts, t)
				if !fresh {
					s.facts[nt] = f
				}
			}
		}
	}
	for _, id := range ids {
		now := x.mk("tok", id[:1]+"done")
		change(x.mk("tok", id), now, true)
		x.setNe(s, now, x.cInt(0))
	}
	var rest []string
	for i, id := range pend[len(ids):] {
		now := id[:1] + strconv.Itoa(i)
		change(x.mk("tok", id), x.mk("tok", now), false)
		rest = append(rest, now)
	}
	s.cl["pend"] = strings.Join(rest, " ")
	if len(rest) == 0 {
		delete(s.cl, "pend")
	}
	return true
}

// forget drops what is known of written letters the program does not hold.
func (j *jamoSim) forget(s *State) {
	held := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		held[t] = true
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range s.env {
		walk(t)
	}
	for t := range s.facts {
		if id, _ := tokenOf(t); strings.HasSuffix(id, "done") && !held[t] {
			delete(s.facts, t)
		}
	}
}

func (j *jamoSim) rename(t, old, now *Term) *Term {
	if t == old {
		return now
	}
	if len(t.args) == 0 {
		return t
	}
	change := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = j.rename(a, old, now)
		if as[i] != a {
			change = true
		}
	}
	if !change {
		return t
	}
	return j.x.mk(t.op, t.s, as...)
}

// emit: a letter is written.
func (j *jamoSim) emit(s *State, n *GNode, t *Term) bool {
	t = j.x.norm(s, t)
	for t.op == "conv" && len(t.args) == 1 {
		t = t.args[0]
	}
	j.emits[j.x.g.where(n)] = true
	if t.op == "join" {
		if t.s == "old" {
			j.bad(s, "twice", j.name, j.x.g.where(n), "a syllable is written twice on the path %s", s.trail())
			return false
		}
		return j.syllable(s, n, t)
	}
	if id, part := tokenOf(t); id != "" {
		if part != "" {
			j.bad(s, "lost", "part "+j.name, j.x.g.where(n), "a part of a syllable is written on its own on the path %s", s.trail())
			return false
		}
		if id[0] != 'O' && id[0] != 'S' && id[0] != 'F' {
			j.bad(s, "lost", "raw "+j.name, j.x.g.where(n), "a phoneme is written without a syllable, on the path %s", s.trail())
			return false
		}
		return j.done(s, n, []string{id}, "as they are")
	}
	if t.isConst() {
		return true
	}
	j.quiet(s, n, "an unknown letter is written ("+t.String()+")")
	return true
}

func (j *jamoSim) syllable(s *State, n *GNode, t *Term) bool {
	j.joins[j.x.g.where(n)] = true
	var ids []string
	fill := [][]int64{{0x3147, 0x110b}, {0x3161, 0x1173}, {0}}
	slot := []string{"lead", "vowel", "tail"}
	classes := []string{"L", "V", "T"}
	for i, a := range t.args {
		a = j.x.norm(s, a)
		if c, ok := a.isInt(); ok {
			good := false
			for _, f := range fill[i] {
				good = good || c == f
			}
			if !good {
				j.bad(s, "lost", "fill "+j.name, j.x.g.where(n), "a syllable is composed with %q as its %s, which no letter stands for, on the path %s", rune(c), slot[i], s.trail())
				return false
			}
			continue
		}
		id, part := tokenOf(a)
		if id == "" {
			j.quiet(s, n, "a syllable is composed of an unknown letter ("+a.String()+")")
			return false
		}
		if strings.HasSuffix(id, "done") {
			j.bad(s, "twice", j.name, j.x.g.where(n), "a letter that is written already becomes the %s of another syllable on the path %s", slot[i], s.trail())
			return false
		}
		if part == "" && id[:1] != classes[i] {
			j.bad(s, "place", j.name, j.x.g.where(n), "a letter of another kind (%s) becomes the %s of a syllable on the path %s", id[:1], slot[i], s.trail())
			return false
		}
		if part != "" && part != strconv.Itoa(i) {
			j.bad(s, "place", j.name, j.x.g.where(n), "part %s of a syllable becomes the %s of another on the path %s", part, slot[i], s.trail())
			return false
		}
		if part != "" && len(ids) > 0 && ids[len(ids)-1] == id {
			continue
		}
		if part != "" && part != "0" {
			j.bad(s, "lost", "torn "+j.name, j.x.g.where(n), "a syllable is torn apart on the path %s", s.trail())
			return false
		}
		if part == "" || part == "0" {
			ids = append(ids, id)
		}
	}
	// all parts of a syllable together
	for _, id := range ids {
		want := map[byte]int{'S': 2, 'F': 3}[id[0]]
		got := 0
		for _, a := range t.args {
			if i, p := tokenOf(j.x.norm(s, a)); i == id && p != "" {
				got++
			}
		}
		if got != want {
			j.bad(s, "lost", "torn "+j.name, j.x.g.where(n), "a part of a syllable is lost on the path %s", s.trail())
			return false
		}
	}
	if len(ids) == 0 {
		j.bad(s, "twice", "empty "+j.name, j.x.g.where(n), "a syllable is written that no letter stands for, on the path %s", s.trail())
		return false
	}
	return j.done(s, n, ids, "as a syllable")
}

func (j *jamoSim) run() {
	a, root := j.a, j.root
	x := a.newSim(root)
	j.x = x
	x.limit = 20000
	x.maxInt = 8
	x.unroll = true
	x.track = func(o *Obj, path string, t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			return true
		case *types.Basic:
			return u.Info()&(types.IsBoolean|types.IsInteger) != 0
		}
		return false
	}
	x.keep = func(k ekey) bool { return false }
	doms := func(n *GNode) *Domain {
		iff, ok := n.in.(*ssa.If)
		if !ok {
			return nil
		}
		for _, d := range x.loopInfo.of(iff.Parent()) {
			if d.guard == iff {
				return d
			}
		}
		return nil
	}
	// a loop over the letters of the text
	letters := func(n *GNode, d *Domain) bool {
		if d.kind != "count" || d.desc || d.lo.v != nil || d.lo.k != 0 {
			return false
		}
		seq := seqOf(d.hi)
		if seq == nil {
			return false
		}
		st, ok := seq.Type().Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := st.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int32
	}
	x.branch = func(s *State, n *GNode, cond *Term, truth bool) bool {
		if d := doms(n); d != nil && letters(n, d) {
			if truth == (d.in == 0) {
				s.cl["next"] = "1"
			}
		}
		// a letter is none that is not of its kind
		for cond.op == "!" {
			cond, truth = cond.args[0], !truth
		}
		if truth && cond.op == "==" && len(cond.args) == 2 {
			for i := range cond.args {
				id, part := tokenOf(cond.args[i])
				k, ok := cond.args[1-i].isInt()
				if id != "" && part == "" && ok && !ofClass(id[:1], k) {
					return false
				}
			}
		}
		return true
	}
	is := func(v *ssa.Call, s *State, n *GNode, classes string) []*State {
		t := x.norm(s, x.eval(s, n.ctx, v.Call.Args[0]))
		if id, part := tokenOf(t); id != "" {
			c := id[:1]
			if part != "" {
				c = string("LVT"[part[0]-'0'])
			}
			x.set(s, n.ctx, v, "", x.cBool(strings.Contains(classes, c)))
			return []*State{s}
		}
		if k, ok := t.isInt(); ok {
			jaeum := k >= 0x3131 && k <= 0x314e || k >= 0x1100 && k < 0x1161 || k >= 0x11a8 && k < 0x1200
			moeum := k >= 0x314f && k <= 0x3163 || k >= 0x1161 && k < 0x11a8
			whole := k >= 0xac00 && k <= 0xd7a3
			r := strings.Contains(classes, "L") && jaeum || strings.Contains(classes, "V") && moeum || strings.Contains(classes, "S") && whole
			x.set(s, n.ctx, v, "", x.cBool(r))
			return []*State{s}
		}
		return nil
	}
	x.instr = func(s *State, n *GNode) []*State {
		if n.kind != kInstr {
			return nil
		}
		switch in := n.in.(type) {
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if ia, ok := in.X.(*ssa.IndexAddr); ok && s.cl["next"] != "" {
					for _, d := range x.loopInfo.of(in.Parent()) {
						if letters(n, d) && d.body[in.Block()] {
							if seqOf(d.hi) != ia.X && !sameSeq(a, n.ctx, seqOf(d.hi), ia.X) {
								continue
							}
							if !d.isIndex(ia.Index) {
								j.quiet(s, n, "letters are not taken one by one")
								return nil
							}
							delete(s.cl, "next")
							return j.read(s, n, func(u *State, t *Term) {
								x.define(u, n.ctx, in)
								x.set(u, n.ctx, in, "", t)
							})
						}
					}
				}
			}
		case *ssa.Next:
			if in.IsString {
				end := s.clone()
				x.define(end, n.ctx, in)
				x.set(end, n.ctx, in, "#0", x.tFalse)
				end.cl["eof"] = "1"
				x.define(s, n.ctx, in)
				out := j.read(s, n, func(u *State, t *Term) {
					x.set(u, n.ctx, in, "#0", x.tTrue)
					x.set(u, n.ctx, in, "#2", t)
				})
				return append(out, end)
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if vs, ok := x.varargs(s, n.ctx, in.Call.Args[1]); ok {
					for _, t := range vs {
						if id, _ := tokenOf(t); id != "" || t.op == "join" {
							if !j.emit(s, n, t) {
								return []*State{}
							}
						}
					}
				}
			}
		case *ssa.BinOp:
			// out += string(letter)
			if in.Op == token.ADD && isStringT(in.Type()) {
				for _, v := range []ssa.Value{in.X, in.Y} {
					t := x.norm(s, x.eval(s, n.ctx, v))
					if t.op == "conv" {
						if id, _ := tokenOf(t); id != "" || t.args[0].op == "join" {
							if !j.emit(s, n, t) {
								return []*State{}
							}
						}
					}
				}
			}
		}
		return nil
	}
	x.call = func(s *State, n *GNode) []*State {
		ci, ok := n.in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		cc := ci.Common()
		key := callKey(cc)
		v, isV := n.in.(*ssa.Call)
		if !isV {
			return nil
		}
		last := func() *Term { return x.norm(s, x.eval(s, n.ctx, cc.Args[len(cc.Args)-1])) }
		switch {
		case strings.HasSuffix(key, ".ReadRune") && v.Call.Signature().Results().Len() == 3:
			if s.cl["eof"] != "" {
				x.setNe(s, x.reg(n.ctx, v, "#2"), x.tNil)
				x.set(s, n.ctx, v, "#0", x.cInt(0))
				return []*State{s}
			}
			end := s.clone()
			x.setNe(end, x.reg(n.ctx, v, "#2"), x.tNil)
			x.set(end, n.ctx, v, "#0", x.cInt(0))
			end.cl["eof"] = "1"
			out := j.read(s, n, func(u *State, t *Term) {
				x.setEq(u, x.reg(n.ctx, v, "#2"), x.tNil)
				x.set(u, n.ctx, v, "#0", t)
			})
			return append(out, end)
		case strings.HasSuffix(key, ".UnreadRune"):
			j.quiet(s, n, "letters are put back")
		case key == hangulPkg+"IsHangul":
			return is(v, s, n, "LVTSF")
		case key == hangulPkg+"IsJaeum":
			return is(v, s, n, "LT")
		case key == hangulPkg+"IsMoeum":
			return is(v, s, n, "V")
		case key == hangulPkg+"Split", key == hangulPkg+"SplitCompat":
			t := last()
			id, part := tokenOf(t)
			if id == "" || part != "" || strings.HasSuffix(id, "done") {
				j.quiet(s, n, "an unknown letter is split")
				return nil
			}
			if id[0] != 'S' && id[0] != 'F' {
				if id[0] != 'O' {
					j.bad(s, "place", "split "+j.name, x.g.where(n), "a phoneme is split as if it were a syllable on the path %s", s.trail())
				}
				return []*State{} // another letter was taken for a syllable by its number
			}
			for i := 0; i < 3; i++ {
				p := x.mk("part", strconv.Itoa(i), t)
				if i == 2 && id[0] == 'S' {
					p = x.cInt(0)
				} else {
					x.setNe(s, p, x.cInt(0))
				}
				x.set(s, n.ctx, v, "#"+strconv.Itoa(i), p)
			}
			return []*State{s}
		case key == hangulPkg+"Lead", key == hangulPkg+"Medial", key == hangulPkg+"Tail", key == hangulPkg+"CompatJamo":
			x.set(s, n.ctx, v, "", last())
			return []*State{s}
		case key == hangulPkg+"Join":
			var as []*Term
			for _, arg := range cc.Args {
				as = append(as, x.norm(s, x.eval(s, n.ctx, arg)))
			}
			x.set(s, n.ctx, v, "", x.mk("join", "", as...))
			return []*State{s}
		case strings.HasPrefix(key, hangulPkg):
			j.quiet(s, n, key+" is called")
		case strings.HasSuffix(key, ".WriteRune"):
			if !j.emit(s, n, last()) {
				return []*State{}
			}
			return []*State{s}
		case strings.HasSuffix(key, ".WriteString"):
			if !j.emit(s, n, last()) {
				return []*State{}
			}
			return []*State{s}
		case key == "bytes.Buffer.Reset" || key == "strings.Builder.Reset" || key == "bytes.Buffer.Truncate":
			if len(j.emits) > 0 && s.cl["out"] != "" {
				j.bad(s, "lost", "reset "+j.name, x.g.where(n), "what was written is thrown away on the path %s", s.trail())
			}
		}
		return x.std(s, n)
	}
	x.end = func(s *State, n *GNode, panics bool) {
		if panics {
			return
		}
		if p := s.cl["pend"]; p != "" {
			j.bad(s, "lost", "end "+j.name, a.p.pos(root.fn.Pos()), "at the end the letters %s are read but not written, on the path %s", p, s.trail())
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil && len(j.pend) == 0 {
				panic(e)
			}
		}()
		x.run(nil)
	}()
	if len(j.emits) == 0 {
		j.lost, j.why = true, "nothing is written letter by letter"
	}
	if len(j.reads) == 0 {
		j.lost, j.why = true, "nothing is read letter by letter"
	}
	if j.lost {
		j.r.Open = append(j.r.Open, "not judged: "+root.name+": "+j.why)
		return
	}
	for _, f := range j.pend {
		j.r.fail(f.rule, f.key, f.where, "%s", f.msg)
	}
}

func ofClass(class string, k int64) bool {
	jaeum := k >= 0x3131 && k <= 0x314e || k >= 0x1100 && k < 0x1161 || k >= 0x11a8 && k < 0x1200
	moeum := k >= 0x314f && k <= 0x3163 || k >= 0x1161 && k < 0x11a8
	whole := k >= 0xac00 && k <= 0xd7a3
	switch class {
	case "L", "T":
		return jaeum
	case "V":
		return moeum
	case "S", "F":
		return whole
	}
	return !jaeum && !moeum && !whole
}

// sameSeq tells whether two values are the same sequence.
func sameSeq(a *PTA, ctx *Ctx, u, v ssa.Value) bool {
	if u == nil || v == nil {
		return false
	}
	c1, x1 := a.resolve(ctx, u)
	c2, x2 := a.resolve(ctx, v)
	return c1 == c2 && x1 == x2
}

func init() {
	register("C17", func(e *Env, r *Report) {
		a := newPTA(e.Native())
		a.initRoots(libPath)
		r.rule("The composer is simulated for every sequence of leads, vowels, tails (a consonant after '-'), syllables with and without a tail and other letters. The letters read but not written yet are its state. What it writes must be exactly the oldest of them: another letter or a syllable as it is, or a syllable composed of a lead, a vowel and a tail that come from them in this order, where ㅇ, ㅡ and nothing stand for a missing one.")
		r.rule("At the end of the text nothing waits any more; nothing is written twice; no syllable is torn apart.")
		var roots []*Root
		for _, ex := range a.p.exported(isInternal) {
			if ex.recv != nil || !reachesExt(a.p, ex.fn, hangulPkg+"Join") {
				continue
			}
			sig := ex.fn.Signature
			if sig.Params().Len() != 1 || sig.Results().Len() == 0 || !isStringT(sig.Params().At(0).Type()) || !isStringT(sig.Results().At(0).Type()) {
				continue
			}
			root := a.newRoot(ex.name, ex.fn)
			root.api = true
			a.startRoot(root)
			for _, p := range ex.fn.Params {
				a.envParam(root, p, p.Type(), "")
			}
			a.solve()
			roots = append(roots, root)
		}
		r.count("composers", len(roots))
		r.need("composers", 1)
		for _, root := range roots {
			j := &jamoSim{a: a, r: r, root: root, name: root.name, reads: map[string]bool{}, emits: map[string]bool{}, joins: map[string]bool{}}
			j.run()
			for k, m := range map[string]map[string]bool{"reads": j.reads, "writes": j.emits, "compositions": j.joins} {
				r.count(k, len(m))
				for _, w := range sortedKeys(m) {
					r.sample("%s: %s", k, w)
				}
			}
			r.count("abstract states", j.x.states)
		}
		r.analysedBy(a, roots)
	})
}

// reachesExt tells whether an external function is called from a function.
func reachesExt(p *Prog, fn *ssa.Function, key string) bool {
	seen := map[*ssa.Function]bool{}
	found := false
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || found {
			return
		}
		seen[f] = true
		for _, g := range f.AnonFuncs {
			walk(g)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if callKey(ci.Common()) == key {
						found = true
						return
					}
					if g := ci.Common().StaticCallee(); g != nil && analysable(g) {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	return found
}
