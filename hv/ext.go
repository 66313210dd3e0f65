package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// external models a call of a function whose body is not analysed.
func (a *PTA) external(ctx *Ctx, in ssa.CallInstruction, key string, sig *types.Signature, args []argVal) {
	si := a.site(ctx, in)
	si.external = true
	node := func(i int) *Node {
		if i >= len(args) {
			return newNode()
		}
		if args[i].e != nil {
			n := newNode()
			a.add(n, *args[i].e)
			return n
		}
		return a.reg(args[i].ctx, args[i].v, args[i].path)
	}
	v := in.Value()
	res := sig.Results()
	resNode := func(i int) *Node {
		if v == nil {
			return newNode()
		}
		if res.Len() > 1 {
			return a.reg(ctx, v, "#"+itoa(i))
		}
		return a.reg(ctx, v, "")
	}
	switch {
	case key == "sync.Once.Do":
		a.callback(ctx, in, node(1), true)
		return
	case key == "sync.OnceFunc" || key == "sync.OnceValue" || key == "sync.OnceValues":
		if v == nil {
			return
		}
		o := a.alloc(ctx, v, oExt, v.Type(), "oncefn:"+key)
		a.copyTo(node(0), a.cell(o, ".fn"), false)
		a.add(resNode(0), Elem{o: o})
		return
	case strings.HasPrefix(key, "sync/atomic."):
		m := key[strings.LastIndex(key, ".")+1:]
		recv := node(0)
		switch m {
		case "Load", "LoadPointer":
			a.on(recv, func(e Elem) { a.copyTo(a.cell(e.o, e.path+".atomic"), resNode(0), false) })
		case "Store", "Swap", "StorePointer", "SwapPointer":
			src := node(1)
			a.on(recv, func(e Elem) {
				a.copyTo(src, a.cell(e.o, e.path+".atomic"), e.o.shared && !ctx.root.init)
				if strings.HasPrefix(m, "Swap") {
					a.copyTo(a.cell(e.o, e.path+".atomic"), resNode(0), false)
				}
			})
		case "CompareAndSwap", "CompareAndSwapPointer":
			src := node(2)
			a.on(recv, func(e Elem) {
				a.copyTo(src, a.cell(e.o, e.path+".atomic"), e.o.shared && !ctx.root.init)
			})
		}
		return
	case strings.HasPrefix(key, "sync.Map."):
		recv := node(0)
		st := func(i int, part string) {
			src := node(i)
			a.on(recv, func(e Elem) { a.copyTo(src, a.cell(e.o, e.path+part), e.o.shared && !ctx.root.init) })
		}
		ld := func(part string, to *Node) {
			a.on(recv, func(e Elem) { a.copyTo(a.cell(e.o, e.path+part), to, false) })
		}
		switch strings.TrimPrefix(key, "sync.Map.") {
		case "Load", "LoadAndDelete":
			ld("{v}", resNode(0))
		case "Store":
			st(1, "{k}")
			st(2, "{v}")
		case "LoadOrStore", "Swap":
			st(1, "{k}")
			st(2, "{v}")
			ld("{v}", resNode(0))
		case "CompareAndSwap":
			st(3, "{v}")
		case "Range":
			a.callValueSync(ctx, in, node(1), func() []*Node {
				k, v := newNode(), newNode()
				ld("{k}", k)
				ld("{v}", v)
				return []*Node{k, v}
			}, false)
		}
		return
	case key == "sync.Pool.Get":
		a.on(node(0), func(e Elem) {
			a.copyTo(a.cell(e.o, e.path+".pool"), resNode(0), false)
			a.callValue(ctx, in, a.cell(e.o, e.path), func(Elem) []argVal { return nil }, types.NewSignatureType(nil, nil, nil, nil, nil, false))
		})
		return
	case key == "sync.Pool.Put":
		src := node(1)
		a.on(node(0), func(e Elem) { a.copyTo(src, a.cell(e.o, e.path+".pool"), false) })
		return
	case strings.HasPrefix(key, "sync."):
		return
	case key == "encoding/json.Unmarshal" || key == "encoding/json.Decoder.Decode":
		a.on(node(1), func(e Elem) {
			t := e.t
			if t == nil {
				return
			}
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				for _, l := range leaves(pt.Elem(), false) {
					a.add(a.cell(e.o, e.path+l.path), a.extValue(ctx, callVal(in), "json"+l.path, l.t, nil))
				}
			}
		})
	}

	// Functions passed to external code.
	async := key == "syscall/js.FuncOf" || key == "time.AfterFunc" || key == "context.AfterFunc"
	for i := range args {
		var n *Node
		if args[i].e != nil {
			if args[i].e.o.kind == oFunc || args[i].e.o.kind == oClosure {
				n = node(i)
			}
		} else if _, ok := args[i].v.Type().Underlying().(*types.Signature); ok {
			n = node(i)
		}
		if n == nil {
			continue
		}
		if async {
			a.asyncCallback(ctx, in, n)
		} else {
			a.callback(ctx, in, n, false)
		}
	}
	// Methods of repository values called by external code.
	for i := range args {
		a.implicitMethods(ctx, in, key, node(i), args[i])
	}
	if v == nil {
		return
	}
	// Results.
	for ri := 0; ri < res.Len(); ri++ {
		rt := res.At(ri).Type()
		for _, l := range leaves(rt, false) {
			dst := resNode(ri)
			if l.path != "" {
				base := ""
				if res.Len() > 1 {
					base = "#" + itoa(ri)
				}
				dst = a.reg(ctx, v, base+l.path)
			}
			if _, isStruct := l.t.Underlying().(*types.Struct); isStruct {
				continue
			}
			ev := a.extValue(ctx, v, "res"+itoa(ri)+l.path, l.t, nil)
			a.add(dst, ev)
			for i := range args {
				if args[i].e != nil {
					a.add(a.cell(ev.o, "~held"), *args[i].e)
					continue
				}
				if pointerish(args[i].v.Type()) && args[i].path == "" {
					a.copyTo(node(i), a.cell(ev.o, "~held"), false)
					if types.Identical(args[i].v.Type(), l.t) && l.path == "" && aliasing(key) {
						a.copyTo(node(i), dst, false)
					}
				}
			}
		}
	}
	// The receiver keeps what it is given.
	if len(args) > 0 && args[0].e == nil && sig.Recv() != nil {
		for i := 1; i < len(args); i++ {
			if args[i].e == nil && pointerish(args[i].v.Type()) {
				src := node(i)
				a.on(node(0), func(e Elem) { a.copyTo(src, a.cell(e.o, "~held"), e.o.shared && !ctx.root.init) })
			}
		}
	}
}

func aliasing(key string) bool {
	switch {
	case strings.HasPrefix(key, "fmt."), strings.HasPrefix(key, "strings."), strings.HasPrefix(key, "regexp."):
		return false
	}
	return true
}

func callVal(in ssa.CallInstruction) ssa.Value {
	if v := in.Value(); v != nil {
		return v
	}
	return in.Common().Value
}

func itoa(i int) string {
	return string(appendInt(nil, i))
}

func appendInt(b []byte, i int) []byte {
	if i >= 10 {
		b = appendInt(b, i/10)
	}
	return append(b, byte('0'+i%10))
}

// callback lets external code call a function value synchronously.
func (a *PTA) callback(ctx *Ctx, in ssa.CallInstruction, n *Node, once bool) {
	a.callValueSync(ctx, in, n, nil, once)
}

func (a *PTA) callValueSync(ctx *Ctx, in ssa.CallInstruction, n *Node, params func() []*Node, once bool) {
	seen := map[*Obj]bool{}
	a.on(n, func(e Elem) {
		if seen[e.o] {
			return
		}
		seen[e.o] = true
		si := a.site(ctx, in)
		if e.o.fn == nil || !analysable(e.o.fn) {
			if e.o.user {
				si.user = true
			}
			return
		}
		if _, ok := in.(*ssa.Go); ok {
			return
		}
		c := a.child(ctx, in, e.o.fn)
		if once {
			si.once = addCtx(si.once, c)
		} else {
			si.callbacks = addCtx(si.callbacks, c)
		}
		a.bindClosure(e, c)
		var ps []*Node
		if params != nil {
			ps = params()
		}
		for i, p := range e.o.fn.Params {
			if i < len(ps) {
				a.copyTo(ps[i], a.reg(c, p, ""), false)
				continue
			}
			for _, l := range leaves(p.Type(), false) {
				a.add(a.reg(c, p, l.path), a.extValue(c, p, "cbarg"+l.path, l.t, nil))
			}
		}
	})
}

func addCtx(s []*Ctx, c *Ctx) []*Ctx {
	for _, x := range s {
		if x == c {
			return s
		}
	}
	return append(s, c)
}

func (a *PTA) bindClosure(e Elem, c *Ctx) {
	if e.o.kind != oClosure {
		return
	}
	for i, fv := range e.o.fn.FreeVars {
		for _, l := range leaves(fv.Type(), false) {
			a.copyTo(a.cell(e.o, ".fv"+itoa(i)+l.path), a.reg(c, fv, l.path), false)
		}
	}
}

func (a *PTA) asyncCallback(ctx *Ctx, in ssa.CallInstruction, n *Node) {
	a.on(n, func(e Elem) {
		if e.o.fn == nil || !analysable(e.o.fn) {
			return
		}
		r := a.spawn(ctx, in, e.o.fn)
		pe := a.publish(e)
		a.bindClosure(pe, r.ctx)
		for _, p := range e.o.fn.Params {
			for _, l := range leaves(p.Type(), false) {
				a.add(a.reg(r.ctx, p, l.path), a.extValue(r.ctx, p, "cbarg"+l.path, l.t, nil))
			}
		}
	})
}

func (a *PTA) onceFn(ctx *Ctx, in ssa.CallInstruction, e Elem) {
	si := a.site(ctx, in)
	a.on(a.cell(e.o, ".fn"), func(f Elem) {
		if f.o.fn == nil || !analysable(f.o.fn) {
			return
		}
		c := a.child(ctx, in, f.o.fn)
		si.once = addCtx(si.once, c)
		a.bindClosure(f, c)
		if _, ok := in.(*ssa.Call); ok {
			a.bindResult(c, ctx, in)
		}
	})
}

// implicitMethods: formatting calls String/Error, sorting calls Len/Less/Swap.
func (a *PTA) implicitMethods(ctx *Ctx, in ssa.CallInstruction, key string, n *Node, arg argVal) {
	var names []string
	switch {
	case strings.HasPrefix(key, "fmt."), strings.HasPrefix(key, "github.com/pkg/errors."), strings.HasPrefix(key, "log."),
		strings.HasPrefix(key, "github.com/spf13/cobra.Command.Print"):
		names = []string{"String", "Error", "GoString"}
	case strings.HasPrefix(key, "sort."), strings.HasPrefix(key, "container/heap."):
		names = []string{"Len", "Less", "Swap"}
	default:
		return
	}
	h := func(e Elem) {
		if e.t == nil || types.IsInterface(e.t) {
			return
		}
		for _, m := range names {
			fn := a.lookup(e.t, m)
			if fn == nil || !analysable(fn) {
				continue
			}
			if _, ok := in.(*ssa.Go); ok {
				continue
			}
			c := a.child(ctx, in, fn)
			si := a.site(ctx, in)
			si.callbacks = addCtx(si.callbacks, c)
			if len(fn.Params) == 0 {
				continue
			}
			if pointerish(e.t) {
				a.add(a.reg(c, fn.Params[0], ""), Elem{e.o, e.path, nil})
			} else {
				a.loadInto(e, "", e.t, c, fn.Params[0], "")
			}
		}
	}
	a.on(n, func(e Elem) {
		if e.t != nil {
			h(e)
			return
		}
		if arg.e == nil {
			if st, ok := arg.v.Type().Underlying().(*types.Slice); ok && types.IsInterface(st.Elem()) {
				a.on(a.cell(e.o, e.path+"[]"), h)
			}
		}
	})
}

func (a *PTA) lookup(t types.Type, name string) *ssa.Function {
	ms := a.p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return a.p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// effects of external functions on their arguments

var readOnlyRecv = map[string]bool{
	"regexp.Regexp": true, "strings.Replacer": true, "regexp/syntax.Regexp": true, "embed.FS": true,
	"golang.org/x/text/unicode/norm.Form": true, "syscall/js.Value": true, "syscall/js.Func": true,
	"os.File": true, "time.Time": true, "time.Duration": true, "reflect.Value": true, "text/template.Template": true,
	"github.com/ikawaha/kagome.ipadic/tokenizer.Token": true, "io/fs.DirEntry": true, "io/fs.FS": true,
	"strings.Builder": false, "unicode.RangeTable": true, "go/token.FileSet": true, "builtin.error": true,
}

// Tokenizing reads the dictionary only; the lattice comes from a sync.Pool.
var readOnlyMethods = map[string]bool{
	"github.com/ikawaha/kagome.ipadic/tokenizer.Tokenizer.Tokenize":     true,
	"github.com/ikawaha/kagome.ipadic/tokenizer.Tokenizer.Analyze":      true,
	"github.com/ikawaha/kagome.ipadic/tokenizer.Tokenizer.Dot":          true,
	"github.com/ikawaha/kagome.ipadic/tokenizer.Tokenizer.AnalyzeGraph": true,
	"bytes.Buffer.String": true, "bytes.Buffer.Len": true, "bytes.Buffer.Bytes": true, "bytes.Buffer.Cap": true,
	"strings.Builder.String": true, "strings.Builder.Len": true, "strings.Builder.Cap": true,
	"strings.Reader.Len": true, "strings.Reader.Size": true,
	"bytes.Reader.Len": true, "container/list.List.Len": true, "container/list.List.Front": true,
}

var writeArgs = map[string][]int{
	"encoding/json.Unmarshal": {1}, "io.Copy": {0, 1}, "io.ReadFull": {0, 1}, "io.ReadAll": {0}, "io.WriteString": {0},
	"io.CopyN": {0, 1}, "io.ReadAtLeast": {0, 1}, "unicode/utf8.EncodeRune": {0},
	"sort.Sort": {0}, "sort.Stable": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Strings": {0}, "sort.Ints": {0}, "sort.Float64s": {0},
	"errors.As": {1}, "github.com/pkg/errors.As": {1},
}

// extWrites lists the arguments an external callee writes through.
func extWrites(key string, cc *ssa.CallCommon) []int {
	if w, ok := writeArgs[key]; ok {
		return w
	}
	if strings.HasPrefix(key, "fmt.Fprint") {
		return []int{0}
	}
	if strings.HasPrefix(key, "fmt.Append") || strings.HasPrefix(key, "strconv.Append") || key == "unicode/utf8.AppendRune" {
		return []int{0}
	}
	if strings.HasPrefix(key, "sync.") || strings.HasPrefix(key, "sync/atomic.") {
		return nil
	}
	if cc.IsInvoke() {
		if key == "builtin.error.Error" {
			return nil
		}
		// A method of an opaque implementation: readers and writers change
		// their own state.
		switch cc.Method.Name() {
		case "Read", "Write", "ReadRune", "UnreadRune", "WriteString", "Seek", "Close", "ReadByte", "WriteByte", "WriteRune":
			return []int{0}
		}
		return nil
	}
	fn := cc.StaticCallee()
	if fn == nil || fn.Signature.Recv() == nil {
		return nil
	}
	if readOnlyMethods[key] {
		return nil
	}
	if key == "regexp.Regexp.Longest" || key == "regexp.Regexp.UnmarshalText" {
		return []int{0}
	}
	rt := fn.Signature.Recv().Type()
	if ro, ok := readOnlyRecv[qualName(rt)]; ok && ro {
		return nil
	}
	if _, ok := types.Unalias(rt).(*types.Pointer); ok {
		return []int{0}
	}
	return nil
}
