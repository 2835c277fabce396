package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Run is the analysis of one entry point of the library.
type Run struct {
	a     *Analysis
	name  string
	fn    *ssa.Function
	in    *Interp
	exits []Exit
	par   []*Term // parameters, the receiver (if any) first
	recv  *Term   // what the receiver holds at entry
	outs  []*Outcome
}

// Outcome is one way an entry point ends, decided to be a success or a failure.
type Outcome struct {
	run   *Run
	st    *State
	res   []*Term // snapshots
	raw   []*Term
	err   *Term // nil when there is no error result
	ok    bool
	panic bool
	pos   token.Pos
}

// Site is one operation on one path.
type Site struct {
	*Event
	out   *Outcome
	facts []Fact
	loops []*Event // the enclosing loop events, when the operation belongs to an earlier iteration
	idx   int      // position in the outcome's top-level events
}

// Analysis holds what is computed once per loaded program.
type Analysis struct {
	p     *Program
	runs  map[string][]*Run
	recvs map[string][]recvState
	mut   map[string]map[int][]ssa.Instruction
	used  map[*ssa.Function]bool
	memo  map[*ruleGroup]*Ctx
}

type recvState struct {
	st      *State
	content *Term
	typ     types.Type
	params  []*Term
	desc    string
}

func newAnalysis(p *Program) *Analysis {
	a := &Analysis{p: p, runs: map[string][]*Run{}, recvs: map[string][]recvState{}, used: map[*ssa.Function]bool{}, memo: map[*ruleGroup]*Ctx{}}
	a.scanFieldStores()
	return a
}

type failure struct{ msg string }

func fail(f string, args ...interface{}) { panic(failure{fmt.Sprintf(f, args...)}) }

type profile struct {
	name string
	f    func(*ssa.Function) string
}

var (
	profCrypto = profile{"crypto", cryptoBoundary}
	profParts  = profile{"parts", partsBoundary}
	profNone   = profile{"none", noBoundary}
)

// fn finds an entry point or fails.
func (a *Analysis) fn(pkg, name string) *ssa.Function {
	f := a.p.fn(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		fail("entry point %s.%s not found", pkg, name)
	}
	return f
}

func (a *Analysis) typ(pkg, name string) types.Type {
	t := a.p.typ(pkg, name)
	if t == nil {
		fail("type %s.%s not found", pkg, name)
	}
	return t
}

func (a *Analysis) sent(pkg, name string) *Term {
	t := a.p.sentinel(pkg, name)
	if t == nil {
		fail("error value %s.%s not found", pkg, name)
	}
	return t
}

func (a *Analysis) cint(pkg, name string) int64 {
	t := a.p.constTerm(pkg, name)
	if t == nil {
		fail("constant %s.%s not found", pkg, name)
	}
	v, ok := t.intVal()
	if !ok {
		fail("constant %s.%s is not an integer", pkg, name)
	}
	return v
}

func fieldIdx(t types.Type, name string) int {
	st := structOf(t)
	if st == nil {
		fail("%s is not a struct", shortType(t))
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	fail("%s has no field %s", shortType(t), name)
	return -1
}

// field is x.name for a value x of struct type t.
func field(x *Term, t types.Type, name string) *Term {
	i := fieldIdx(t, name)
	return mkField(x, i, structOf(t).Field(i).Type())
}

// scanFieldStores finds the fields of named struct types that are assigned through a pointer the function did not allocate.
func (a *Analysis) scanFieldStores() {
	a.mut = map[string]map[int][]ssa.Instruction{}
	for _, f := range a.p.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var addr ssa.Value
				switch x := i.(type) {
				case *ssa.Store:
					addr = x.Addr
				default:
					continue
				}
				v := addr
				for {
					var base ssa.Value
					fi := -1
					switch x := v.(type) {
					case *ssa.FieldAddr:
						base, fi = x.X, x.Field
					case *ssa.IndexAddr:
						base = x.X
					}
					if base == nil {
						break
					}
					if fi >= 0 && !localAlloc(base) {
						if n, ok := pointee(base.Type()).(*types.Named); ok {
							k := n.String()
							if a.mut[k] == nil {
								a.mut[k] = map[int][]ssa.Instruction{}
							}
							a.mut[k][fi] = append(a.mut[k][fi], i)
						}
					}
					v = base
				}
				// a whole struct assigned through a pointer
				if n, ok := pointee(addr.Type()).(*types.Named); ok && structOf(n) != nil && !localAlloc(addr) {
					if _, isF := addr.(*ssa.FieldAddr); !isF {
						k := n.String()
						if a.mut[k] == nil {
							a.mut[k] = map[int][]ssa.Instruction{}
						}
						for j := 0; j < structOf(n).NumFields(); j++ {
							a.mut[k][j] = append(a.mut[k][j], i)
						}
					}
				}
			}
		}
	}
}

// localAlloc says an address lies in memory allocated by the function itself.
func localAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !localAlloc(e) {
					return false
				}
			}
			return len(x.Edges) > 0
		default:
			return false
		}
	}
}

func paramTerms(f *ssa.Function) []*Term {
	var out []*Term
	for _, q := range f.Params {
		out = append(out, mk(KParam, "", 0, q.Type(), nil, q))
	}
	return out
}

func (a *Analysis) interp(prof profile) *Interp {
	return &Interp{p: a.p, visited: map[*ssa.Function]bool{}, boundary: prof.f, hookIdx: true}
}

func resetState(s *State) *State {
	n := s.clone()
	n.env = map[ssa.Value]*Term{}
	n.facts, n.events, n.logs, n.writes, n.defers, n.fails = nil, nil, nil, nil, nil, nil
	n.pre = map[*Term]bool{}
	for o := range n.heap {
		if o.k == KObj {
			n.pre[o] = true
		}
	}
	return n
}

// receivers are the states the named constructor can leave its result in.
func (a *Analysis) receivers(prof profile, pkg, ctor string) []recvState {
	key := prof.name + "/" + pkg + "." + ctor
	if r, ok := a.recvs[key]; ok {
		return r
	}
	r := a.run(prof, pkg, ctor, "")[0]
	var out []recvState
	for _, o := range r.outcomes() {
		if o.panic || !o.ok {
			continue
		}
		v := o.raw[0]
		t := r.fn.Signature.Results().At(0).Type()
		if pointee(t) != nil {
			t = pointee(t)
			v = r.in.load(o.st, v)
		}
		if v.k != KStruct {
			if st := structOf(t); st != nil {
				f := make([]*Term, st.NumFields())
				for i := range f {
					f[i] = mkField(v, i, st.Field(i).Type())
				}
				v = mk(KStruct, "", 0, t, nil, nil, f...)
			}
		}
		if m := a.mut[t.String()]; m != nil && v.k == KStruct {
			args := append([]*Term{}, v.args...)
			for i := range m {
				args[i] = app(fmt.Sprintf("mutable:%s.%d", t.String(), i), structOf(t).Field(i).Type())
			}
			v = mk(KStruct, "", 0, t, nil, nil, args...)
		}
		st := resetState(o.st)
		for _, f := range o.st.facts {
			// lengths that the constructor insists on
			if lengthFact(f) {
				st.facts = append(st.facts, f)
			}
		}
		for x, h := range st.heap {
			if x.k != KObj {
				continue
			}
			if _, isMap := x.typ.Underlying().(*types.Map); isMap {
				// other calls may have changed it since
				delete(st.heap, x)
				continue
			}
			if h.k == KStruct && h.typ != nil && a.mut[h.typ.String()] != nil {
				args := append([]*Term{}, h.args...)
				for i := range a.mut[h.typ.String()] {
					args[i] = app(fmt.Sprintf("mutable:%s.%d", h.typ.String(), i), structOf(h.typ).Field(i).Type(), x)
				}
				st.heap[x] = mk(KStruct, "", 0, h.typ, nil, nil, args...)
			}
		}
		out = append(out, recvState{st: st, content: v, typ: t, params: r.par})
	}
	if len(out) == 0 {
		fail("%s.%s never succeeds", pkg, ctor)
	}
	a.recvs[key] = out
	return out
}

// lengthFact says that a fact is about lengths only.
func lengthFact(f Fact) bool {
	d := f.atom
	switch {
	case d.k == KUn && d.op == "<0":
		d = d.args[0]
	case d.k == KBin && d.op == "==" && intLike(d.args[0]) && intLike(d.args[1]):
		d = tSub(d.args[0], d.args[1])
	default:
		return false
	}
	for a := range linOf(d).coefs {
		if a.k != KLen {
			return false
		}
	}
	return true
}

// run analyses an entry point; when ctor is given, the receiver is what that constructor returns.
func (a *Analysis) run(prof profile, pkg, name, ctor string) []*Run {
	key := prof.name + "/" + pkg + "." + name + "/" + ctor
	if r, ok := a.runs[key]; ok {
		return r
	}
	f := a.fn(pkg, name)
	var out []*Run
	par := paramTerms(f)
	do := func(st *State, recv *Term) {
		in := a.interp(prof)
		ex := in.run(f, par, nil, st, ctxOf(0, f, "entry"))
		for x := range in.visited {
			a.used[x] = true
		}
		out = append(out, &Run{a: a, name: a.p.fnName(f), fn: f, in: in, exits: ex, par: par, recv: recv})
	}
	if ctor == "" {
		do(resetState(a.p.initSt), nil)
	} else {
		for _, rs := range a.receivers(prof, pkg, ctor) {
			st := rs.st.clone()
			if pointee(par[0].typ) != nil {
				st.heap[par[0]] = rs.content
				do(st, rs.content)
			} else {
				save := par[0]
				par[0] = rs.content
				do(st, rs.content)
				par[0] = save
			}
		}
	}
	a.runs[key] = out
	return out
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// outcomes decides the exits of a run.
func (r *Run) outcomes() []*Outcome {
	if r.outs != nil {
		return r.outs
	}
	sig := r.fn.Signature
	n := sig.Results().Len()
	hasErr := n > 0 && isErrorType(sig.Results().At(n-1).Type())
	for _, e := range r.exits {
		mkOut := func(st *State, ok bool) {
			o := &Outcome{run: r, st: st, ok: ok, pos: e.pos, raw: e.res, panic: e.panic}
			for _, x := range e.res {
				o.res = append(o.res, r.in.snap(st, x))
			}
			if hasErr && !e.panic {
				o.err = e.res[n-1]
			}
			r.outs = append(r.outs, o)
		}
		if e.panic {
			mkOut(e.st, false)
			continue
		}
		if !hasErr {
			mkOut(e.st, true)
			continue
		}
		err := e.res[n-1]
		switch e.st.eval(mkEq(err, tNil)) {
		case 1:
			mkOut(e.st, true)
		case 0:
			mkOut(e.st, false)
		default:
			s1 := e.st.clone()
			if s1.assume(mkEq(err, tNil), true) {
				mkOut(s1, true)
			}
			s2 := e.st.clone()
			if s2.assume(mkEq(err, tNil), false) {
				mkOut(s2, false)
			}
		}
	}
	return r.outs
}

// sites lists every operation on the path, those of summarised loop iterations included.
func (o *Outcome) sites() []Site {
	var out []Site
	var rec func(evs []*Event, facts []Fact, loops []*Event, top bool, idx int)
	rec = func(evs []*Event, facts []Fact, loops []*Event, top bool, idx int) {
		for i, e := range evs {
			x := idx
			if top {
				x = i
			}
			if e.loop != nil {
				for _, b := range e.loop.backs {
					rec(b.events, b.st.facts, append(append([]*Event{}, loops...), e), false, x)
				}
				continue
			}
			nf := e.nfacts
			if nf > len(facts) {
				nf = len(facts)
			}
			out = append(out, Site{Event: e, out: o, facts: facts[:nf], loops: loops, idx: x})
		}
	}
	rec(o.st.events, o.st.facts, nil, true, 0)
	return out
}

// top lists the operations that happen exactly once on the path.
func (o *Outcome) top() []Site {
	var out []Site
	for _, s := range o.sites() {
		if len(s.loops) == 0 {
			out = append(out, s)
		}
	}
	return out
}

func (o *Outcome) loopEvents() []*Event {
	var out []*Event
	for _, e := range o.st.events {
		if e.loop != nil {
			out = append(out, e)
		}
	}
	return out
}

func stateOf(facts []Fact) *State {
	s := newState()
	s.facts = facts
	return s
}

// holds says the facts imply that the atom has the value.
func holds(facts []Fact, atom *Term, val bool) bool {
	want := 0
	if val {
		want = 1
	}
	return stateOf(facts).eval(atom) == want
}

// refuted says that assuming the atom to have the value contradicts the facts.
func refuted(facts []Fact, atom *Term, val bool) bool { return holds(facts, atom, !val) }

func (r *Run) where(pos token.Pos) string { return r.a.p.pos(pos) }

func sortStrings(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// methodRuns analyses a method of the value a constructor returns, in the states the constructor leaves it in.
func (a *Analysis) methodRuns(prof profile, pkg, ctor, method string) []*Run {
	key := prof.name + "/" + pkg + "." + ctor + "()." + method
	if r, ok := a.runs[key]; ok {
		return r
	}
	var out []*Run
	for _, o := range a.run(prof, pkg, ctor, "")[0].outcomes() {
		if o.panic || !o.ok {
			continue
		}
		v := o.raw[0]
		t := a.fn(pkg, ctor).Signature.Results().At(0).Type()
		if v.k == KIface {
			t, v = v.typ, v.args[0]
		}
		sel := types.NewMethodSet(t).Lookup(nil, method)
		if sel == nil {
			fail("the result of %s.%s has no method %s that can be followed", pkg, ctor, method)
		}
		f := a.p.prog.MethodValue(sel)
		if f == nil || len(f.Blocks) == 0 {
			fail("the result of %s.%s has no method %s that can be followed", pkg, ctor, method)
		}
		st := resetState(o.st)
		st.facts = append([]Fact{}, o.st.facts...) // facts are about values, which do not change
		for x, h := range st.heap {
			if x.k == KObj && h.k == KStruct && h.typ != nil && a.mut[h.typ.String()] != nil {
				args := append([]*Term{}, h.args...)
				for i := range a.mut[h.typ.String()] {
					args[i] = app(fmt.Sprintf("mutable:%s.%d", h.typ.String(), i), structOf(h.typ).Field(i).Type(), x)
				}
				st.heap[x] = mk(KStruct, "", 0, h.typ, nil, nil, args...)
			}
		}
		in := a.interp(prof)
		par := append([]*Term{v}, paramTerms(f)[1:]...)
		ex := in.run(f, par, nil, st, ctxOf(0, f, "entry"))
		for x := range in.visited {
			a.used[x] = true
		}
		out = append(out, &Run{a: a, name: pkg + "." + ctor + "()." + method, fn: f, in: in, exits: ex, par: par, recv: v})
	}
	a.runs[key] = out
	return out
}
