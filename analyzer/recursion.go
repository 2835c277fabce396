package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A recursive function is followed when it only computes a value from numbers, texts and lists of them, and calls itself
// with a shorter list each time, so that it always ends. If it can be shown, by induction over that list, to be the
// bitwise union of its elements, it is that; otherwise it is an unknown function of its arguments.

type recursion struct {
	ok    bool
	list  int  // the parameter that gets shorter
	union bool // the function is the union of that list's elements
}

func plainData(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Slice:
		_, ok := u.Elem().Underlying().(*types.Basic)
		return ok
	}
	return false
}

// recursionOf describes a function that calls itself.
func (in *Interp) recursionOf(fn *ssa.Function) recursion {
	if r, ok := in.p.recursive[fn]; ok {
		return r
	}
	if in.p.initSt == nil {
		return recursion{}
	}
	if in.p.recursive == nil {
		in.p.recursive = map[*ssa.Function]recursion{}
	}
	in.p.recursive[fn] = recursion{}
	r := shortens(fn)
	if r.ok {
		// its own step: it does not panic whatever it is given
		sub := &Interp{p: in.p, visited: map[*ssa.Function]bool{}, boundary: in.boundary}
		run := func() (ex []Exit, xs *Term) {
			var args []*Term
			for _, q := range fn.Params {
				args = append(args, mk(KParam, "", 0, q.Type(), nil, q))
			}
			return sub.run(fn, args, nil, in.p.initSt.clone(), ctxOf(0, fn, "induction")), args[r.list]
		}
		in.p.recursive[fn] = r
		ex, _ := run()
		for _, e := range ex {
			if e.panic || len(e.st.writes) > 0 || len(e.st.events) > 0 {
				r.ok = false
			}
		}
		r.ok = r.ok && len(sub.notes) == 0
		if r.ok && len(fn.Params) == 1 && len(ex) > 0 {
			r.union = true
			in.p.recursive[fn] = r
			ex, xs := run()
			for _, e := range ex {
				if len(e.res) != 1 || !unionOfList(e.res[0], xs, e.st.facts) {
					r.union = false
				}
			}
		}
	}
	in.p.recursive[fn] = r
	return r
}

// unionOfList says that a value is the union of a list's elements.
func unionOfList(v, xs *Term, facts []Fact) bool {
	if z, ok := v.intVal(); ok && z == 0 {
		return holds(facts, mkEq(mkLen(xs), mkInt(0)), true)
	}
	if v.k == KApp && v.op == "orAll" {
		return v.args[1] == xs && isZeroInt(v.args[0])
	}
	return v == mkElem(xs, mkInt(0), v.typ) && holds(facts, mkEq(mkLen(xs), mkInt(1)), true)
}

// shortens finds the list that a function calls itself with less and less of.
func shortens(fn *ssa.Function) recursion {
	for _, q := range fn.Params {
		if !plainData(q.Type()) {
			return recursion{}
		}
	}
	if fn.Signature.Results().Len() != 1 || !plainData(fn.Signature.Results().At(0).Type()) || len(fn.FreeVars) > 0 {
		return recursion{}
	}
	var self []*ssa.Call
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef, *ssa.Index, *ssa.Lookup:
			case *ssa.IndexAddr:
				if !readOnlyAddr(x) {
					return recursion{}
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return recursion{}
				}
				if _, g := x.X.(*ssa.Global); g {
					return recursion{}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				if x.Call.Value != ssa.Value(fn) {
					return recursion{}
				}
				self = append(self, x)
			default:
				return recursion{}
			}
		}
	}
	for n, q := range fn.Params {
		if _, ok := q.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		all := len(self) > 0
		for _, c := range self {
			s, ok := c.Call.Args[n].(*ssa.Slice)
			if !ok || s.X != ssa.Value(q) || s.High != nil || s.Low == nil {
				all = false
				break
			}
			lo, ok := s.Low.(*ssa.Const)
			all = all && ok && lo.Int64() >= 1
		}
		if all {
			return recursion{ok: true, list: n}
		}
	}
	return recursion{}
}

// recursiveValue is what a recursive function returns.
func (fr *frame) recursiveValue(s *State, fn *ssa.Function, args []*Term) *Term {
	in := fr.in
	r := in.recursionOf(fn)
	if !r.ok {
		return nil
	}
	t := fn.Signature.Results().At(0).Type()
	vals := make([]*Term, len(args))
	for i, a := range args {
		vals[i] = a
		if _, ok := fn.Params[i].Type().Underlying().(*types.Slice); ok {
			vals[i] = in.seqOf(s, a)
		}
	}
	if r.union {
		if vals[0].k == KLit {
			u := mkInt(0)
			for _, x := range vals[0].args {
				u = mkBin(token.OR, u, x, t)
			}
			return u
		}
		return app("orAll", t, mkInt(0), vals[0])
	}
	return app("recursive:"+in.p.fnName(fn), t, vals...)
}
