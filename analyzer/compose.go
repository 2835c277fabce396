package main

import (
	_ "embed"
	"go/ast"
	"go/parser"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Compositions of exported operations (witness/witness.go.txt) are type-checked against the repository and analysed like its own
// code. In them, and only in them, the laws of the operations that are not looked into apply: opening what was sealed gives it back.

//go:embed witness/witness.go.txt
var witnessSrc string

const witnessPath = "d1static/witness"

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// witness is the package of compositions.
func (p *Program) witness() *ssa.Package {
	if p.wit != nil {
		return p.wit
	}
	all := map[string]*types.Package{}
	packages.Visit(p.pkgs, nil, func(q *packages.Package) { all[q.PkgPath] = q.Types })
	f, err := parser.ParseFile(p.prog.Fset, "witness.go", witnessSrc, parser.SkipObjectResolution)
	if err != nil {
		fail("the compositions do not parse: %v", err)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
	cfg := &types.Config{Sizes: p.pkgs[0].TypesSizes, Importer: importerFunc(func(path string) (*types.Package, error) {
		if q := all[path]; q != nil {
			return q, nil
		}
		fail("package %s is not part of the repository", path)
		return nil, nil
	})}
	pkg, err := cfg.Check(witnessPath, p.prog.Fset, []*ast.File{f}, info)
	if err != nil {
		fail("the exported operations cannot be used as documented: %v", err)
	}
	p.wit = p.prog.CreatePackage(pkg, []*ast.File{f}, info, false)
	p.wit.Build()
	return p.wit
}

// compose analyses one composition.
func (a *Analysis) compose(prof profile, name string) *Run {
	key := prof.name + "/witness." + name
	if r, ok := a.runs[key]; ok {
		return r[0]
	}
	f := a.p.witness().Func(name)
	if f == nil {
		fail("composition %s not found", name)
	}
	in := a.interp(prof)
	in.laws = true
	par := paramTerms(f)
	ex := in.run(f, par, nil, resetState(a.p.initSt), ctxOf(0, f, "entry"))
	for x := range in.visited {
		a.used[x] = true
	}
	r := &Run{a: a, name: "composition " + name, fn: f, in: in, exits: ex, par: par}
	a.runs[key] = []*Run{r}
	return r
}

// materialise makes a value with the given content and memory of its own.
func (in *Interp) materialise(s *State, fr *frame, at ssa.Instruction, tag string, v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if v.k == KNil {
			return v
		}
		return in.freshSeq(s, fr, at, tag, v, t)
	case *types.Map:
		if v.k == KNil {
			return v
		}
		o := mk(KObj, "", ctxOf(fr.ctx, at, "map"+tag), t, nil, at)
		s.heap[o] = v
		return o
	case *types.Struct:
		if !refers(t, 0) {
			return v
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = in.materialise(s, fr, at, tag+"."+u.Field(i).Name(), mkField(v, i, u.Field(i).Type()), u.Field(i).Type())
		}
		return mkStruct(t, args...)
	}
	return v
}

// sameContent is the value behind an argument of an encoding, when it survives being decoded into type t.
func sameContent(x *Term, t types.Type) *Term {
	ct := x.typ
	for x.k == KIface || x.k == KPtrTo {
		if x.k == KPtrTo {
			ct = pointee(ct)
		} else {
			ct = x.typ
		}
		x = x.args[0]
	}
	if ct == nil || t == nil || !types.Identical(ct, t) {
		return nil
	}
	var out []string
	n := 0
	lossy(t, "", map[types.Type]bool{}, &out, &n)
	for _, l := range out {
		if !strings.Contains(l, "is a string") && !strings.Contains(l, "key is a string") {
			return nil
		}
	}
	return x
}

// opened is what was sealed, when the arguments of a decryption are the results of an encryption on this path.
func opened(s *State, ev *Event, t types.Type) *Term {
	for _, e := range s.events {
		if e.op != "crypto.Encrypt" || e.term == nil || e.loop != nil || len(e.args) != 3 || len(ev.args) != 5 {
			continue
		}
		if deref(ev.args[0]) == deref(e.args[0]) && sameBytes(ev.args[2], e.args[2]) && resOf(ev.args[3], 0) == e.term && resOf(ev.args[4], 1) == e.term {
			return sameContent(e.args[1], t)
		}
	}
	return nil
}

// sameBytes says that two values passed as data are the same value of the same type.
func sameBytes(x, y *Term) bool {
	for x.k == KIface && y.k == KIface && types.Identical(x.typ, y.typ) {
		x, y = x.args[0], y.args[0]
	}
	return x == y
}

// undone applies a law that takes an operation back: given the operation and what its arguments are, the value its first result is
// then known to be. The second result, an error, is then nil.
func (in *Interp) undone(s *State, op string, a []*Term) *Term {
	if !in.laws {
		return nil
	}
	switch op {
	case "aead.Decrypt":
		for _, e := range s.events {
			if e.op == "aead.Encrypt" && e.loop == nil && e.term != nil && len(e.args) == 4 && len(a) == 4 && sameMaker(a[0], e.args[0]) &&
				resOf(a[1], 0) == e.term && sameBytes(a[2], e.args[2]) && sameBytes(a[3], e.args[3]) {
				return e.args[1]
			}
		}
	case "crypto.Unwrap":
		if m := resOf(a[1], 0); m != nil && m.k == KApp && m.op == "crypto.Wrap" && deref(m.args[0]) == deref(a[0]) {
			return m.args[1]
		}
	case "gcm.Open":
		ct := a[3]
		if ct.k == KApp && ct.op == "sized" {
			ct = ct.args[0]
		}
		if ct.k == KApp && ct.op == "gcm.Seal" && ct.args[0] == a[0] && ct.args[1] == a[2] && sameBytes(ct.args[3], a[4]) {
			return ct.args[2]
		}
	case "base64.Encoding.DecodeString", "base32.Encoding.DecodeString":
		if x := a[1]; x.k == KApp && x.op == strings.Replace(op, "DecodeString", "EncodeToString", 1) && x.args[0] == a[0] {
			return x.args[1]
		}
	case "hex.DecodeString":
		if x := a[0]; x.k == KApp && x.op == "hex.EncodeToString" {
			return x.args[0]
		}
	}
	return nil
}

// sameMaker says that two values are the same, or of the library's AEAD type, whose fields matter for encryption only.
func sameMaker(x, y *Term) bool {
	x, y = deref(x), deref(y)
	return x == y || x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) && strings.HasSuffix(x.typ.String(), "crypto.AES256GCM")
}

// compared says whether a password is the one a hash was made along with, or the one another hash was made along with.
func compared(s *State, pwd, hash *Term) *Term {
	var a, b *Event
	for _, e := range s.events {
		if e.op == "crypto.GeneratePassword" && e.loop == nil && e.term != nil {
			if resOf(pwd, 0) == e.term {
				a = e
			}
			if resOf(hash, 1) == e.term {
				b = e
			}
		}
	}
	if a == nil || b == nil {
		return nil
	}
	return mkBool(a == b)
}

// result is the named result of an outcome of a composition.
func (r *Run) result(o *Outcome, name string) *Term {
	for i := 0; i < r.fn.Signature.Results().Len(); i++ {
		if r.fn.Signature.Results().At(i).Name() == name && i < len(o.res) {
			return o.res[i]
		}
	}
	return nil
}

// refers says that values of the type refer to memory that a copy shares.
func refers(t types.Type, depth int) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if depth > 6 || refers(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Basic:
		return false
	case *types.Array:
		return refers(u.Elem(), depth+1)
	}
	return true
}

// prune drops the outcomes of an operation that cannot come about.
func prune(ex []Exit) []Exit {
	var out []Exit
	for _, x := range ex {
		if x.panic || !impossible(x.st.facts, x.st.events, 0) {
			out = append(out, x)
		}
	}
	return out
}

// impossible says that what is known about the members of small sets, and about the sets that were swept to the end, contradicts
// itself.
func impossible(facts []Fact, events []*Event, depth int) bool {
	if depth > 0 && contradict(facts, witness{}, 0) {
		return true
	}
	seen := map[*Term]bool{}
	var keys []*Term
	note := func(t *Term) bool {
		if t.k == KMSet && !seen[t.args[1]] {
			seen[t.args[1]] = true
			keys = append(keys, t.args[1])
		}
		return true
	}
	for _, f := range facts {
		walk(f.atom, note)
	}
	for _, k := range keys {
		if refutes(facts, events, witness{key: k}, 0, 0) {
			return true
		}
	}
	if depth > 2 {
		return false
	}
	try := func(x, m *Term) bool {
		members, ok := membersOf(m)
		if !ok || seen[x] || len(members) > 6 {
			return false
		}
		for _, m := range members {
			sub := newSubst(func(t *Term) *Term {
				if t == x {
					return m
				}
				return nil
			})
			var fs []Fact
			for _, g := range facts {
				fs = append(fs, Fact{sub.do(g.atom), g.val})
			}
			if !impossible(fs, events, depth+1) {
				return false
			}
		}
		return true
	}
	ranged := map[*Term]bool{}
	for _, f := range facts {
		if f.val && f.atom.k == KLookupOk && try(f.atom.args[1], f.atom.args[0]) {
			return true
		}
		walk(f.atom, func(t *Term) bool {
			if t.k == KRangeKey && t.op == "" && len(t.args) == 1 {
				ranged[t] = true
			}
			return true
		})
	}
	for k := range ranged {
		if try(k, k.args[0]) {
			return true
		}
	}
	return false
}

// membersOf lists the keys a map that was made from nothing can have.
func membersOf(m *Term) ([]*Term, bool) {
	var out []*Term
	for {
		switch m.k {
		case KNil, KMEmpty:
			return out, true
		case KMSet:
			out = append(out, m.args[1])
		case KMDel:
		default:
			return nil, false
		}
		m = m.args[0]
	}
}

// exactKeys lists the keys of a map, each once, when it is certain which they are.
func exactKeys(s *State, m *Term) ([]*Term, bool) {
	members, ok := membersOf(m)
	if !ok || len(members) > 6 {
		return nil, false
	}
	eq := func(a, b *Term) int { return s.eval(mkEq(a, b)) }
	var keys []*Term
next:
	for i := len(members) - 1; i >= 0; i-- {
		k := members[i]
		switch mkLookupOk(m, k, eq) {
		case tTrue:
			for _, x := range keys {
				switch eq(x, k) {
				case 1:
					continue next
				case 0:
				default:
					return nil, false
				}
			}
			keys = append(keys, k)
		case tFalse:
		default:
			return nil, false
		}
	}
	return keys, true
}
