package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository.
type Program struct {
	dir       string
	prog      *ssa.Program
	pkgs      []*packages.Package
	ssaPkgs   map[string]*ssa.Package // by path below the module ("" is the root)
	cfgs      map[*ssa.Function]*fnInfo
	poolNews  map[*ssa.Global]*Term
	globals   map[*ssa.Global]*Term
	initing   bool
	initSt    *State
	stores    map[*ssa.Global][]ssa.Instruction
	escapes   map[*ssa.Global][]ssa.Instruction
	funcs     []*ssa.Function
	recursive map[*ssa.Function]recursion
	defaults  bool         // bbolt's default options are only copied
	wit       *ssa.Package // compositions of exported operations
}

func loadProgram(dir string, env ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off"), env...)}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, spk := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{dir: dir, prog: prog, pkgs: pk, ssaPkgs: map[string]*ssa.Package{}, cfgs: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]*Term{}, poolNews: map[*ssa.Global]*Term{}, stores: map[*ssa.Global][]ssa.Instruction{}, escapes: map[*ssa.Global][]ssa.Instruction{}}
	for i, sp := range spk {
		if sp == nil {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pk[i].PkgPath, modPath), "/")
		p.ssaPkgs[rel] = sp
	}
	for f := range ssautil.AllFunctions(prog) {
		if p.inRepo(f) && len(f.Blocks) > 0 {
			p.funcs = append(p.funcs, f)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	p.scanGlobals()
	p.defaults = p.onlyCopied(defaultOptions)
	p.runInits()
	return p, nil
}

func (p *Program) inRepo(f *ssa.Function) bool {
	path := pkgOf(f)
	if path == "" && f.Parent() != nil {
		return p.inRepo(f.Parent())
	}
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// inlinable functions are the repository's own (and wrappers made for them).
func (p *Program) inlinable(f *ssa.Function) bool {
	if p.inRepo(f) || pkgOf(f) == witnessPath {
		return true
	}
	// synthetic wrappers have no package of their own
	return f.Synthetic != "" && f.Pkg == nil
}

// fnName is a short stable name: pkg.Func or pkg.Type.Method.
func (p *Program) fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() == nil {
		if f.Parent() != nil {
			return p.fnName(f.Parent()) + "$" + f.Name()
		}
		if f.Pkg != nil {
			return f.Pkg.Pkg.Name() + "." + f.Name()
		}
		return f.String()
	}
	tf, ok := f.Object().(*types.Func)
	if !ok {
		return f.String()
	}
	pkg := ""
	if tf.Pkg() != nil {
		pkg = tf.Pkg().Name()
		switch tf.Pkg().Path() {
		case "github.com/json-iterator/go", "encoding/json":
			pkg = "json"
		}
	}
	sig := tf.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + "." + n.Obj().Name() + "." + tf.Name()
		}
		return pkg + ".?." + tf.Name()
	}
	return pkg + "." + tf.Name()
}

// fn finds an exported function or method, e.g. ("id", "Standalone.NewUser").
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.ssaPkgs[pkg]
	if sp == nil {
		return nil
	}
	parts := strings.SplitN(name, ".", 2)
	if len(parts) == 1 {
		return sp.Func(name)
	}
	tn, ok := sp.Pkg.Scope().Lookup(parts[0]).(*types.TypeName)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
		ms := p.prog.MethodSets.MethodSet(t)
		if sel := ms.Lookup(sp.Pkg, parts[1]); sel != nil {
			// prefer the declared method over a wrapper
			if f, ok := sel.Obj().(*types.Func); ok {
				if d := p.prog.FuncValue(f); d != nil {
					return d
				}
			}
			return p.prog.MethodValue(sel)
		}
	}
	return nil
}

func (p *Program) typ(pkg, name string) types.Type {
	sp := p.ssaPkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// constVal is the value of a package-level constant.
func (p *Program) constTerm(pkg, name string) *Term {
	sp := p.ssaPkgs[pkg]
	if sp == nil {
		return nil
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	return mk(KConst, "", 0, c.Type(), c.Val(), nil)
}

// sentinel is the error value held by a package-level variable.
func (p *Program) sentinel(pkg, name string) *Term {
	sp := p.ssaPkgs[pkg]
	if sp == nil {
		return nil
	}
	g := sp.Var(name)
	if g == nil {
		return nil
	}
	return p.globalContent(g)
}

func (p *Program) pos(ps token.Pos) string {
	if ps == token.NoPos {
		return "?"
	}
	x := p.prog.Fset.Position(ps)
	f := x.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

// scanGlobals records where each package-level variable is assigned or its address taken.
func (p *Program) scanGlobals() {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range i.Operands(ops) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := i.(type) {
					case *ssa.UnOp:
						continue // load
					case *ssa.Store:
						if x.Addr == g && x.Val != ssa.Value(g) {
							p.stores[g] = append(p.stores[g], i)
							continue
						}
					case *ssa.DebugRef:
						continue
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if readOnlyAddr(i.(ssa.Value)) {
							continue
						}
					}
					p.escapes[g] = append(p.escapes[g], i)
				}
			}
		}
	}
}

// readOnlyAddr says that an address is only ever loaded from.
func readOnlyAddr(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.FieldAddr:
			if !readOnlyAddr(x) {
				return false
			}
		case *ssa.IndexAddr:
			if !readOnlyAddr(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isInitFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

// fixedGlobal says that a package-level variable is assigned once, by initialisation, and not exposed.
func (p *Program) fixedGlobal(g *ssa.Global) bool {
	if len(p.escapes[g]) > 0 {
		return false
	}
	for _, s := range p.stores[g] {
		if !isInitFn(s.Parent()) {
			return false
		}
	}
	return len(p.stores[g]) <= 1
}

func (p *Program) runInits() {
	p.initing = true
	p.initSt = newState()
	var names []string
	for n := range p.ssaPkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := p.ssaPkgs[n].Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		in := &Interp{p: p, visited: map[*ssa.Function]bool{}, boundary: cryptoBoundary}
		ex := in.run(f, nil, nil, p.initSt, ctxOf(0, f, "init"))
		// the path on which initialisation happens is the one with the most memory
		var best *State
		for _, e := range ex {
			if best == nil || len(e.st.heap) > len(best.heap) {
				best = e.st
			}
		}
		if best != nil {
			p.initSt.heap = best.heap
			p.initSt.shared = best.shared
		}
	}
	p.initing = false
	for a, v := range p.initSt.heap {
		if a.k != KGlobal {
			continue
		}
		g := a.obj.(*ssa.Global)
		p.findPoolNew(g, v)
		if !p.fixedGlobal(g) {
			continue
		}
		if v.k == KApp && (v.op == "errors.New" || v.op == "fmt.Errorf" && !wraps(v)) {
			p.globals[g] = mk(KApp, "sentinel", 0, pointee(g.Type()), nil, g)
		} else {
			p.globals[g] = v
		}
		delete(p.initSt.heap, a)
	}
	updated := map[string]bool{} // types of the maps that change after initialisation
	for _, f := range p.funcs {
		if isInitFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var m ssa.Value
				switch x := i.(type) {
				case *ssa.MapUpdate:
					m = x.Map
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						m = x.Call.Args[0]
					}
				}
				if m == nil {
					continue
				}
				if _, local := m.(*ssa.MakeMap); !local {
					updated[m.Type().Underlying().String()] = true
				}
			}
		}
	}
	for a := range p.initSt.heap {
		if a.k == KGlobal || a.k == KObj && a.typ != nil && updated[a.typ.Underlying().String()] {
			delete(p.initSt.heap, a)
		}
	}
	p.initSt.events, p.initSt.facts, p.initSt.logs, p.initSt.writes = nil, nil, nil, nil
}

func wraps(v *Term) bool {
	f, ok := v.args[0].strVal()
	return !ok || strings.Contains(f, "%w")
}

func (p *Program) globalContent(g *ssa.Global) *Term {
	if t, ok := p.globals[g]; ok {
		return t
	}
	pt := pointee(g.Type())
	inRepo := g.Pkg != nil && (g.Pkg.Pkg.Path() == modPath || strings.HasPrefix(g.Pkg.Pkg.Path(), modPath+"/"))
	if !inRepo && pt != nil && types.Implements(pt, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
		return mk(KApp, "sentinel", 0, pt, nil, g)
	}
	if inRepo && !p.initing && p.fixedGlobal(g) && len(p.stores[g]) == 0 {
		return zeroOf(pt)
	}
	name := g.Name()
	if g.Pkg != nil {
		name = g.Pkg.Pkg.Path() + "." + name
	}
	if name == "github.com/gofrs/uuid.Nil" {
		return mkZeros(mkInt(16))
	}
	return app("global:"+name, pt)
}

// defaultOptions is bbolt's set of options for a database that is opened without any.
const defaultOptions = "go.etcd.io/bbolt.DefaultOptions"

// onlyCopied says the analysed code reads what a pointer variable of another module points to, as a whole, and does nothing else with it.
func (p *Program) onlyCopied(name string) bool {
	ok := true
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range i.Operands(ops) {
					g, is := (*o).(*ssa.Global)
					if !is || g.Pkg == nil || g.Pkg.Pkg.Path()+"."+g.Name() != name {
						continue
					}
					l, is := i.(*ssa.UnOp)
					if !is {
						ok = false
						continue
					}
					for _, r := range *l.Referrers() {
						switch x := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.FieldAddr:
							ok = ok && readOnlyAddr(x)
						default:
							ok = false
						}
					}
				}
			}
		}
	}
	return ok
}
