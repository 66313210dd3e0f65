package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// mapModel follows which keys of some maps are known to be present.
type mapModel struct {
	x        *Sim
	is       func(t *types.Map) bool
	onLookup func(s *State, n *GNode, m, k *Term)
	onInsert func(s *State, n *GNode, m, k *Term, val func(path string) *Term)
	onDelete func(s *State, n *GNode, m, k *Term)
	onClear  func(s *State, n *GNode, m *Term)
}

func (mm *mapModel) tracked(v ssa.Value) bool {
	mt, ok := v.Type().Underlying().(*types.Map)
	return ok && mm.is(mt)
}

// instr is an instr hook of a simulation.
func (mm *mapModel) instr(s *State, n *GNode) []*State {
	x := mm.x
	ctx := n.ctx
	switch in := n.in.(type) {
	case *ssa.Lookup:
		if !mm.tracked(in.X) {
			return nil
		}
		m, k := x.eval(s, ctx, in.X), x.eval(s, ctx, in.Index)
		if mm.onLookup != nil {
			mm.onLookup(s, n, m, k)
		}
		x.define(s, ctx, in)
		p := x.mk("present", "", m, k)
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		pre := ""
		if in.CommaOk {
			pre = "#0"
		}
		if keyOfRange(in) {
			x.setFact(s, p, x.tTrue)
		}
		yes, no := x.fork(s, p)
		if yes != nil {
			if in.CommaOk {
				x.set(yes, ctx, in, "#1", x.tTrue)
			}
			for _, l := range pleaves(vt) {
				t := x.mk("at", l.path, m, k)
				x.set(yes, ctx, in, pre+l.path, t)
				if l.path == "" && pointerish(vt) {
					x.setNe(yes, t, x.tNil)
				}
			}
		}
		if no != nil {
			if in.CommaOk {
				x.set(no, ctx, in, "#1", x.tFalse)
			}
			for _, l := range pleaves(vt) {
				x.set(no, ctx, in, pre+l.path, x.zero(l.t))
			}
		}
		return states(yes, no)
	case *ssa.MapUpdate:
		if !mm.tracked(in.Map) {
			return nil
		}
		m, k := x.eval(s, ctx, in.Map), x.eval(s, ctx, in.Key)
		if mm.onInsert != nil {
			mm.onInsert(s, n, m, k, func(p string) *Term { return x.evalP(s, ctx, in.Value, p) })
		}
		mm.forget(s)
		x.setFact(s, x.mk("present", "", m, k), x.tTrue)
		return []*State{s}
	case *ssa.Call:
		return mm.call(s, n, in)
	case *ssa.Defer:
		if n.kind == kDefer {
			return mm.call(s, n, in)
		}
	}
	return nil
}

func (mm *mapModel) call(s *State, n *GNode, in ssa.CallInstruction) []*State {
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && mm.tracked(cc.Args[0]) {
		m := mm.x.eval(s, n.ctx, cc.Args[0])
		if b.Name() == "clear" {
			if mm.onClear != nil {
				mm.onClear(s, n, m)
			}
			mm.forget(s)
			return []*State{s}
		}
		k := mm.x.eval(s, n.ctx, cc.Args[1])
		if mm.onDelete != nil {
			mm.onDelete(s, n, m, k)
		}
		mm.forget(s)
		mm.x.setFact(s, mm.x.mk("present", "", m, k), mm.x.tFalse)
		return []*State{s}
	}
	return nil
}

// unlocked forgets what was known under a lock.
func (mm *mapModel) unlocked(s *State, n *GNode) {
	key, _, _ := mm.x.key1(n)
	switch key {
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		mm.forget(s)
	}
}

func (mm *mapModel) forget(s *State) {
	for t := range s.facts {
		if t.op == "present" {
			delete(s.facts, t)
		}
	}
}

// keyOfRange tells whether a lookup asks for a key which a loop over the very
// map has just given, in a function that takes nothing out of a map.
func keyOfRange(l *ssa.Lookup) bool {
	e, ok := l.Index.(*ssa.Extract)
	if !ok || e.Index != 1 {
		return false
	}
	next, ok := e.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	r, ok := next.Iter.(*ssa.Range)
	if !ok || r.X != l.X {
		return false
	}
	for _, b := range l.Parent().Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if b, ok := c.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
				return false
			}
		}
	}
	return true
}
