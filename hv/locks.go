package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Lock sets: which locks must and may be held at every node of a supergraph.

type lockMode uint8

const (
	mR lockMode = 1 // shared
	mW lockMode = 2 // exclusive
)

// lockTok is one lock as seen from one place.
type lockTok struct {
	id     string // identity: "g:..." for a unique lock, or the access path
	unique bool   // the identity denotes one lock in the whole program
	origin string
	once   bool
	locs   string // abstract locations, for lock ordering
}

type held map[string]lockMode // by lockTok.id

type lockOp struct {
	tok     lockTok
	acquire bool
	mode    lockMode
	try     bool
}

type lockState struct {
	must, may held
	at        map[string]*GNode // where a may-held lock was taken
}

type lockInfo struct {
	g    *Graph
	ops  map[int]*lockOp
	toks map[string]lockTok
	in   []*lockState
}

var lockMethods = map[string]struct {
	acquire bool
	mode    lockMode
	try     bool
}{
	"Lock": {true, mW, false}, "Unlock": {false, mW, false}, "RLock": {true, mR, false}, "RUnlock": {false, mR, false},
	"TryLock": {true, mW, true}, "TryRLock": {true, mR, true},
}

// lockOpOf recognises an operation on a mutex in a call.
func (a *PTA) lockOpOf(ctx *Ctx, in ssa.CallInstruction) *lockOp {
	cc := in.Common()
	key := callKey(cc)
	if !strings.HasPrefix(key, "sync.Mutex.") && !strings.HasPrefix(key, "sync.RWMutex.") && !strings.HasPrefix(key, "sync.Locker.") {
		return nil
	}
	m, ok := lockMethods[key[strings.LastIndex(key, ".")+1:]]
	if !ok {
		return nil
	}
	recv := cc.Value
	if !cc.IsInvoke() {
		recv = cc.Args[0]
	}
	return &lockOp{a.token(ctx, recv, false), m.acquire, m.mode, m.try}
}

func (a *PTA) token(ctx *Ctx, v ssa.Value, once bool) lockTok {
	o := a.origin(ctx, v)
	es := a.pts(ctx, v)
	var locs []string
	for _, e := range es {
		x := e.o
		if x.orig != nil {
			x = x.orig
		}
		locs = append(locs, fmt.Sprintf("%s#%d%s", x, x.id, e.path))
	}
	sort.Strings(locs)
	t := lockTok{id: o, origin: o, once: once, locs: strings.Join(locs, "|")}
	if len(es) == 1 && a.singleton(es[0].o) {
		x := es[0].o
		if x.orig != nil {
			x = x.orig
		}
		t.id, t.unique = fmt.Sprintf("g:%s#%d%s", x, x.id, es[0].path), true
	}
	if once {
		t.id = "once " + t.id
	}
	return t
}

// singleton tells whether an abstract object stands for exactly one object.
func (a *PTA) singleton(o *Obj) bool {
	if o.kind == oGlobal {
		return true
	}
	if !o.init || o.ctx == nil || o.kind == oExt {
		return false
	}
	in, ok := o.site.(ssa.Instruction)
	if !ok || in.Block() == nil {
		return false
	}
	for c, x := o.ctx, in; c != nil; {
		if reaches(x.Block(), x.Block()) {
			return false
		}
		if c.parent == nil {
			return true
		}
		x, c = c.site, c.parent
		if x == nil || x.Block() == nil {
			return false
		}
	}
	return true
}

func (h held) clone() held {
	n := make(held, len(h))
	for k, v := range h {
		n[k] = v
	}
	return n
}

func (s *lockState) clone() *lockState {
	n := &lockState{s.must.clone(), s.may.clone(), map[string]*GNode{}}
	for k, v := range s.at {
		n.at[k] = v
	}
	return n
}

// join merges t into s and tells whether s changed.
func (s *lockState) join(t *lockState) bool {
	ch := false
	for k, v := range s.must {
		w := t.must[k]
		if w == 0 {
			delete(s.must, k)
			ch = true
		} else if w < v {
			s.must[k] = w
			ch = true
		}
	}
	for k, v := range t.may {
		if s.may[k]|v != s.may[k] {
			s.may[k] |= v
			if s.at[k] == nil {
				s.at[k] = t.at[k]
			}
			ch = true
		}
	}
	return ch
}

func (g *Graph) locks() *lockInfo {
	a := g.a
	li := &lockInfo{g: g, ops: map[int]*lockOp{}, toks: map[string]lockTok{}, in: make([]*lockState, len(g.nodes))}
	onceMid := map[int]lockTok{}
	onceRet := map[int]lockTok{}
	for _, n := range g.nodes {
		if n.in == nil {
			continue
		}
		ci, ok := n.in.(ssa.CallInstruction)
		if !ok {
			continue
		}
		switch n.kind {
		case kMid, kDeferMid:
			if op := a.lockOpOf(n.ctx, ci); op != nil {
				li.ops[n.id] = op
				li.toks[op.tok.id] = op.tok
			}
		}
		si := a.callees[siteKey{n.ctx, n.in}]
		if si == nil {
			continue
		}
		isOnce := callKey(ci.Common()) == "sync.Once.Do" || len(si.once) > 0
		if isOnce {
			v := ci.Common().Value
			if len(ci.Common().Args) > 0 && callKey(ci.Common()) == "sync.Once.Do" {
				v = ci.Common().Args[0]
			}
			t := a.token(n.ctx, v, true)
			li.toks[t.id] = t
			switch n.kind {
			case kMid, kDeferMid:
				onceMid[n.id] = t
			case kRet, kDeferRet:
				onceRet[n.id] = t
			}
		}
	}
	start := g.entry[g.root.ctx]
	li.in[start] = &lockState{held{}, held{}, map[string]*GNode{}}
	work := []int{start}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		n := g.nodes[x]
		out := li.in[x]
		if op := li.ops[x]; op != nil {
			out = out.clone()
			if op.acquire {
				if !op.try {
					out.must[op.tok.id] = op.mode
				}
				out.may[op.tok.id] |= op.mode
				out.at[op.tok.id] = n
			} else {
				delete(out.must, op.tok.id)
				delete(out.may, op.tok.id)
				delete(out.at, op.tok.id)
			}
		}
		if t, ok := onceMid[x]; ok {
			out = out.clone()
			out.must[t.id] = mW
			out.may[t.id] = mW
			out.at[t.id] = n
		}
		if t, ok := onceRet[x]; ok {
			out = out.clone()
			out.must[t.id] = mR
			delete(out.may, t.id)
			delete(out.at, t.id)
		}
		for _, s := range n.succ {
			if li.in[s] == nil {
				li.in[s] = out.clone()
				work = append(work, s)
			} else if li.in[s].join(out) {
				work = append(work, s)
			}
		}
	}
	return li
}

func (li *lockInfo) held(n int) held {
	if li.in[n] == nil {
		return held{}
	}
	return li.in[n].must
}

// ---------------------------------------------------------------------------
// C02

func (a *PTA) lockRules(r *Report, roots []*Root) {
	type order struct{ from, to string }
	orders := map[order]string{}
	for _, root := range roots {
		g := a.graph(root)
		li := g.locks()
		r.count("roots", 1)
		r.count("nodes", len(g.nodes))
		r.count("lock operations", len(li.ops))
		for _, n := range g.nodes {
			st := li.in[n.id]
			if st == nil {
				continue
			}
			// leaks
			if n.id == g.exit[root.ctx] || n.id == g.pexit[root.ctx] {
				how := "returns"
				if n.id == g.pexit[root.ctx] {
					how = "panics"
				}
				for _, k := range sortedKeys(st.may) {
					if li.toks[k].once {
						continue
					}
					at := st.at[k]
					r.fail("lock-leak", fmt.Sprintf("%s %s still held when %s %s", fnName(at.ctx.fn), li.toks[k].origin, root.name, how), g.where(at),
						"%s may end (it %s) with %s still held: acquired at %s in %s", root.name, how, lockName(li.toks[k]), g.where(at), fnName(at.ctx.fn))
				}
				continue
			}
			if op := li.ops[n.id]; op != nil {
				if op.acquire {
					for _, k := range sortedKeys(st.may) {
						t := li.toks[k]
						if t.once {
							orders[order{t.locs, op.tok.locs}] = g.where(n)
							continue
						}
						if k == op.tok.id {
							if !op.try {
								r.fail("lock-again", fnName(n.ctx.fn)+" "+op.tok.origin, g.where(n), "%s acquires %s in %s while it may already hold it (acquired at %s)",
									root.name, lockName(t), fnName(n.ctx.fn), g.where(st.at[k]))
							}
							continue
						}
						orders[order{t.locs, op.tok.locs}] = g.where(n)
					}
				} else if m, ok := st.must[op.tok.id]; !ok {
					if !li.mayTry(op.tok.id) {
						r.fail("unlock-unheld", fnName(n.ctx.fn)+" "+op.tok.origin, g.where(n), "%s releases %s in %s on a path where it is not held", root.name, lockName(op.tok), fnName(n.ctx.fn))
					}
				} else if m != op.mode {
					r.fail("unlock-mode", fnName(n.ctx.fn)+" "+op.tok.origin, g.where(n), "%s releases %s in %s in another mode than it was acquired", root.name, lockName(op.tok), fnName(n.ctx.fn))
				}
				continue
			}
			if len(st.may) == 0 {
				continue
			}
			var names []string
			mutex := false
			for _, k := range sortedKeys(st.may) {
				names = append(names, lockName(li.toks[k]))
				if !li.toks[k].once {
					mutex = true
				}
			}
			what := strings.Join(names, ", ")
			switch n.kind {
			case kMid, kDeferMid:
				ci, ok := n.in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if callKey(ci.Common()) == "sync.Once.Do" {
					t := a.token(n.ctx, ci.Common().Args[0], true)
					if st.may[t.id] != 0 {
						r.fail("once-again", fnName(n.ctx.fn)+" "+t.origin, g.where(n), "%s runs sync.Once.Do in %s from inside the same Once", root.name, fnName(n.ctx.fn))
					}
				}
				r.count("calls under a lock", 1)
				if why := a.userCode(n.ctx, ci); why != "" {
					r.fail("user-code-under-lock", fnName(n.ctx.fn)+" "+why, g.where(n), "%s runs user-supplied code (%s) in %s while %s is held", root.name, why, fnName(n.ctx.fn), what)
				}
				switch callKey(ci.Common()) {
				case "sync.WaitGroup.Wait", "time.Sleep":
					if mutex {
						r.fail("wait-under-lock", fnName(n.ctx.fn)+" "+callKey(ci.Common()), g.where(n), "%s waits (%s) in %s while %s is held", root.name, callKey(ci.Common()), fnName(n.ctx.fn), what)
					}
				}
			case kInstr:
				wait := ""
				switch x := n.in.(type) {
				case *ssa.Send:
					wait = "channel send"
				case *ssa.UnOp:
					if x.Op.String() == "<-" {
						wait = "channel receive"
					}
				case *ssa.Select:
					if x.Blocking {
						wait = "select"
					}
				}
				if wait != "" && mutex {
					r.fail("wait-under-lock", fnName(n.ctx.fn)+" "+wait, g.where(n), "%s waits (%s) in %s while %s is held", root.name, wait, fnName(n.ctx.fn), what)
				}
			}
		}
	}
	// cyclic lock orders
	adj := map[string]map[string]string{}
	for o, w := range orders {
		if adj[o.from] == nil {
			adj[o.from] = map[string]string{}
		}
		adj[o.from][o.to] = w
	}
	r.count("lock order edges", len(orders))
	for _, from := range sortedKeys(adj) {
		seen := map[string]bool{}
		var walk func(x string) bool
		walk = func(x string) bool {
			for _, y := range sortedKeys(adj[x]) {
				if y == from {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if walk(y) {
						return true
					}
				}
			}
			return false
		}
		if walk(from) {
			var ws []string
			for _, to := range sortedKeys(adj[from]) {
				ws = append(ws, fmt.Sprintf("%s then %s at %s", from, to, adj[from][to]))
			}
			r.fail("lock-order", from, firstOf(adj[from]), "locks are taken in a cyclic order: %s", strings.Join(ws, "; "))
		}
	}
}

func (li *lockInfo) mayTry(id string) bool {
	for _, op := range li.ops {
		if op.try && op.tok.id == id {
			return true
		}
	}
	return false
}

func lockName(t lockTok) string {
	if t.once {
		return "sync.Once " + strings.TrimPrefix(t.origin, "g:")
	}
	return strings.TrimPrefix(t.origin, "g:")
}

func firstOf(m map[string]string) string {
	for _, k := range sortedKeys(m) {
		return m[k]
	}
	return "?"
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// userCode tells how a call may run code supplied by the user of the library.
func (a *PTA) userCode(ctx *Ctx, ci ssa.CallInstruction) string {
	si := a.callees[siteKey{ctx, ci}]
	if si == nil || !si.external {
		return ""
	}
	cc := ci.Common()
	key := callKey(cc)
	if si.user {
		if key == "" {
			return "function value"
		}
		return key
	}
	if key == "" || isBuiltin(ci) {
		return ""
	}
	// An external function that may use a user-supplied value it is given or
	// holds, such as a reader.
	if inertWithUser(key) {
		return ""
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for _, v := range args {
		if !pointerish(v.Type()) {
			continue
		}
		for _, e := range a.pts(ctx, v) {
			if a.holdsUser(e, map[*Obj]bool{}) {
				return key + " on a user-supplied value"
			}
		}
	}
	return ""
}

// inertWithUser lists external functions that only wrap what they are given.
func inertWithUser(key string) bool {
	switch key {
	case "bufio.NewReader", "bufio.NewReaderSize", "bufio.NewScanner", "io.TeeReader", "io.LimitReader", "io.MultiReader", "bufio.NewWriter",
		"errors.Is", "github.com/pkg/errors.Is", "io.NopCloser", "bufio.Scanner.Text", "bufio.Scanner.Bytes", "bufio.Scanner.Err", "bufio.Reader.UnreadRune",
		"bufio.Reader.UnreadByte", "bufio.Reader.Buffered", "bufio.Reader.Reset":
		return true
	}
	return strings.HasPrefix(key, "sync.") || strings.HasPrefix(key, "sync/atomic.")
}

func (a *PTA) holdsUser(e Elem, seen map[*Obj]bool) bool {
	if seen[e.o] {
		return false
	}
	seen[e.o] = true
	if e.o.user && e.t != nil && types.IsInterface(e.t) && e.t.Underlying().(*types.Interface).NumMethods() > 0 {
		return true
	}
	if e.o.kind != oExt {
		return false
	}
	if n := e.o.cells["~held"]; n != nil {
		for _, x := range n.list() {
			if a.holdsUser(x, seen) {
				return true
			}
		}
	}
	return false
}
