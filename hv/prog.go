package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/hangulize/hangulize"

// Prog is a loaded, type-checked and SSA-built configuration of /repo.
type Prog struct {
	Name  string
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package // repository packages, sorted by path
	SSA   *ssa.Program
	byPth map[string]*ssa.Package
	pkgOf map[string]*packages.Package
}

// stdAnalysed are standard packages whose bodies are analysed like repository code.
var stdAnalysed = map[string]bool{"slices": true, "maps": true, "cmp": true, "iter": true}

func load(name, dir string, env []string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule | packages.NeedEmbedFiles | packages.NeedEmbedPatterns,
		Dir:  dir,
		Env:  append(os.Environ(), append([]string{"GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local"}, env...)...),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, fmt.Sprintf("%s: %v", p.PkgPath, e))
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot type-check %s: %s", name, strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	dropIdleLoops(prog)
	p := &Prog{Name: name, Dir: dir, Fset: prog.Fset, SSA: prog, byPth: map[string]*ssa.Package{}, pkgOf: map[string]*packages.Package{}}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		if sp := prog.Package(q.Types); sp != nil {
			p.byPth[q.PkgPath] = sp
		}
		p.pkgOf[q.PkgPath] = q
		if isRepoPath(q.PkgPath) {
			p.Pkgs = append(p.Pkgs, q)
		}
	})
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	return p, nil
}

func isRepoPath(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func (p *Prog) pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.byPth[modPath]
	}
	if sp, ok := p.byPth[modPath+"/"+rel]; ok {
		return sp
	}
	return p.byPth[rel]
}

// fn resolves an exported package-level function of a repository package.
func (p *Prog) fn(rel, name string) *ssa.Function {
	sp := p.pkg(rel)
	if sp == nil {
		fail("unresolved package %q", rel)
	}
	f := sp.Func(name)
	if f == nil {
		fail("unresolved function %s.%s", rel, name)
	}
	return f
}

func (p *Prog) tryFn(rel, name string) *ssa.Function {
	sp := p.pkg(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) typ(rel, name string) *types.Named {
	sp := p.pkg(rel)
	if sp == nil {
		fail("unresolved package %q", rel)
	}
	t := sp.Type(name)
	if t == nil {
		fail("unresolved type %s.%s", rel, name)
	}
	n, ok := t.Object().Type().(*types.Named)
	if !ok {
		fail("type %s.%s is not a named type", rel, name)
	}
	return n
}

// method resolves an exported method of *T or T.
func (p *Prog) method(t types.Type, name string) *ssa.Function {
	if f := p.SSA.LookupMethod(t, nil, name); f != nil {
		return f
	}
	return nil
}

func (p *Prog) methodOf(rel, typ, name string) *ssa.Function {
	t := p.typ(rel, typ)
	ms := p.SSA.MethodSets.MethodSet(types.NewPointer(t))
	sel := ms.Lookup(nil, name)
	if sel == nil {
		fail("unresolved method %s.%s.%s", rel, typ, name)
	}
	return p.SSA.MethodValue(sel)
}

func pkgPathOf(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
		if f.Origin() != nil {
			f = f.Origin()
		}
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

// analysable tells whether a function body is part of the analysed program.
func analysable(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	if fn.Synthetic != "" && (strings.HasPrefix(fn.Synthetic, "bound method") || strings.HasPrefix(fn.Synthetic, "thunk") || strings.HasPrefix(fn.Synthetic, "wrapper")) {
		return true
	}
	path := pkgPathOf(fn)
	return isRepoPath(path) || stdAnalysed[path]
}

func isRepoFn(fn *ssa.Function) bool { return isRepoPath(pkgPathOf(fn)) }

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.Fset.Position(ps)
	if rel, err := filepath.Rel(p.Dir, q.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		return fmt.Sprintf("%s:%d", rel, q.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// instrPos finds the best known position for an instruction.
func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					return p.pos(r.Pos())
				}
			}
		}
	}
	var ops [8]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if o != nil && *o != nil && (*o).Pos().IsValid() {
			return p.pos((*o).Pos())
		}
	}
	// Nearest positioned instruction in the block.
	if b := in.Block(); b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return p.pos(x.Pos())
			}
		}
	}
	if in.Parent() != nil {
		return p.pos(in.Parent().Pos())
	}
	return "?"
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "hangulize.")
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// qualName is "pkgpath.Name" of a named type, or "".
func qualName(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

// extType tells whether the type is declared outside the analysed packages, so
// that its internals are opaque.
func extType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	path := n.Obj().Pkg().Path()
	return !isRepoPath(path) && !stdAnalysed[path]
}

// calleeKey names a statically known callee: "pkg.Func" or "pkg.Type.Method".
func calleeKey(f *types.Func) string {
	if f == nil {
		return ""
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	sig := f.Type().(*types.Signature)
	pkg := ""
	if f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	if r := sig.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if pt, ok := t.(*types.Pointer); ok {
			t = types.Unalias(pt.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + "." + n.Obj().Name() + "." + f.Name()
		}
		return pkg + ".?." + f.Name()
	}
	return pkg + "." + f.Name()
}

// callKey names the callee of a call when it is a static or interface call.
func callKey(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		t := c.Value.Type()
		q := qualName(t)
		if q == "" {
			q = "?"
			if c.Method.Pkg() == nil {
				q = "builtin.error"
			}
		}
		return q + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnKey(f)
	}
	return ""
}

func fnKey(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if o, ok := f.Object().(*types.Func); ok {
		return calleeKey(o)
	}
	return f.String()
}

type failure struct{ msg string }

func fail(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}
