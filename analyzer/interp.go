package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	maxStates = 6000
	maxDepth  = 40
	maxUnroll = 12
)

// Exit is one way a function ends.
type Exit struct {
	st    *State
	res   []*Term
	panic bool
	pos   token.Pos
}

// Interp is the abstract interpreter for one analysis.
type Interp struct {
	p        *Program
	boundary func(fn *ssa.Function) string // name of the operation when fn is not to be looked into
	notes    []Note
	stack    []*ssa.Function
	visited  map[*ssa.Function]bool
	steps    int
	calls    int
	loops    int
	checks   []BoundCheck
	hookIdx  bool
	laws     bool // operations that are not looked into undo one another
}

// Note says that something could not be decided.
type Note struct {
	pos token.Pos
	fn  *ssa.Function
	msg string
}

func (in *Interp) note(fn *ssa.Function, pos token.Pos, f string, a ...interface{}) {
	n := Note{pos, fn, fmt.Sprintf(f, a...)}
	for _, o := range in.notes {
		if o.pos == n.pos && o.msg == n.msg {
			return
		}
	}
	in.notes = append(in.notes, n)
}

var ctxTab = map[string]int{}

func ctxOf(parent int, what interface{}, tag string) int {
	k := fmt.Sprintf("%d/%d/%s", parent, objID(what), tag)
	if v, ok := ctxTab[k]; ok {
		return v
	}
	v := len(ctxTab) + 1
	ctxTab[k] = v
	return v
}

type frame struct {
	in    *Interp
	fn    *ssa.Function
	info  *fnInfo
	ctx   int
	round int // of the loop being unrolled, from 1; 0 outside
	order int // in which the keys of a map are taken in it
	keys  int // how many there are
}

// ---------------------------------------------------------------- control flow facts of a function

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	order []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loop // by header
	bad   bool
}

func analyseCFG(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}}
	if len(fn.Blocks) == 0 {
		return fi
	}
	var post []*ssa.BasicBlock
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				if !s.Dominates(b) {
					fi.bad = true
				}
			}
		}
		state[b] = 2
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if _, ok := fi.rpo[p]; ok {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	return fi
}

// ---------------------------------------------------------------- memory

func pointee(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	}
	return nil
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	return nil
}

// contentType is the type of what is stored at an address.
func contentType(p *Term) types.Type {
	switch p.k {
	case KObj:
		return p.typ
	case KGlobal:
		return pointee(p.obj.(*ssa.Global).Type())
	case KFieldAddr:
		if st := structOf(contentType(p.args[0])); st != nil && p.n < st.NumFields() {
			return st.Field(p.n).Type()
		}
		return p.typ
	case KElemAddr:
		if p.typ != nil {
			return p.typ
		}
		return elemType(contentType(p.args[0]))
	}
	if p.typ != nil {
		switch u := p.typ.Underlying().(type) {
		case *types.Pointer:
			return u.Elem()
		case *types.Slice, *types.Map:
			return p.typ
		}
	}
	return nil
}

// rootOf strips an address down to the object it lies in.
func rootOf(p *Term) *Term {
	for p.k == KFieldAddr || p.k == KElemAddr {
		p = p.args[0]
	}
	if p.k == KSlice {
		return rootOf(p.args[0])
	}
	return p
}

func (in *Interp) loadRoot(st *State, p *Term) *Term {
	if v, ok := st.heap[p]; ok {
		return v
	}
	switch p.k {
	case KGlobal:
		return in.p.globalContent(p.obj.(*ssa.Global))
	case KNil:
		return app("nilderef", nil)
	}
	if p.typ != nil {
		switch p.typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			return p
		}
	}
	if p.k == KPtrTo {
		return p.args[0]
	}
	if p.k == KApp && p.op == "global:"+defaultOptions && p.typ != nil && in.p.defaults {
		// all fields but the free list's type, which nothing depends on, have their zero values
		return zeroOf(pointee(p.typ))
	}
	return mk(KDeref, "", 0, contentType(p), nil, nil, p)
}

func (in *Interp) load(st *State, p *Term) *Term {
	switch p.k {
	case KFieldAddr:
		base := in.load(st, p.args[0])
		return mkField(base, p.n, contentType(p))
	case KElemAddr:
		return mkElem(in.load(st, p.args[0]), p.args[1], contentType(p))
	}
	return in.loadRoot(st, p)
}

// owned says the object was allocated by the analysed code itself.
func owned(root *Term) bool { return root.k == KObj }

func (in *Interp) recordWrite(st *State, fr *frame, root *Term, how string, val *Term, pos token.Pos) {
	seen := map[*Term]bool{}
	var rec func(r *Term)
	rec = func(r *Term) {
		if seen[r] {
			return
		}
		seen[r] = true
		if !owned(r) || st.pre[r] {
			st.writes = append(st.writes, Write{r, how, val, pos, fr.fn})
		}
		for _, o := range st.shared[r] {
			rec(o)
		}
	}
	rec(root)
}

// clobber forgets the contents of memory that may be shared with root.
func (in *Interp) clobber(st *State, root *Term, pos token.Pos) {
	seen := map[*Term]bool{root: true}
	work := append([]*Term{}, st.shared[root]...)
	for len(work) > 0 {
		r := work[0]
		work = work[1:]
		if seen[r] {
			continue
		}
		seen[r] = true
		old := in.loadRoot(st, r)
		st.heap[r] = forgotten(r, old, pos)
		work = append(work, st.shared[r]...)
	}
}

// forgotten is the content of memory after a change that is not followed.
func forgotten(r, old *Term, pos token.Pos) *Term {
	op := "clobbered"
	if isStorage(r) {
		op = "rewritten" // as long as before
	}
	return app(op, contentType(r), old, mkInt(int64(pos)))
}

func link(st *State, a, b *Term) {
	if a == b {
		return
	}
	st.shared[a] = append(append([]*Term{}, st.shared[a]...), b)
	st.shared[b] = append(append([]*Term{}, st.shared[b]...), a)
}

func (in *Interp) store(st *State, fr *frame, p, v *Term, pos token.Pos) {
	root := rootOf(p)
	in.recordWrite(st, fr, root, "store", v, pos)
	if len(st.shared[root]) > 0 {
		in.clobber(st, root, pos)
	}
	in.storeRaw(st, p, v)
}

func (in *Interp) storeRaw(st *State, p, v *Term) {
	switch p.k {
	case KFieldAddr:
		base := in.load(st, p.args[0])
		in.storeRaw(st, p.args[0], withField(base, contentType(p.args[0]), p.n, v))
	case KElemAddr:
		base := in.load(st, p.args[0])
		in.storeRaw(st, p.args[0], mkUpd(base, p.args[1], v))
	default:
		st.heap[p] = v
	}
}

// seqOf is the sequence a slice or string value holds.
func (in *Interp) seqOf(st *State, v *Term) *Term {
	switch v.k {
	case KSlice:
		return mkSub(in.load(st, v.args[0]), v.args[1], v.args[2])
	case KNil:
		return tEmpty
	}
	if h, ok := st.heap[v]; ok {
		return h
	}
	return v
}

func (in *Interp) lenOf(st *State, v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if v.k == KSlice {
			return tSub(v.args[2], v.args[1])
		}
		return mkLen(in.seqOf(st, v))
	case *types.Array:
		return mkInt(u.Len())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	case *types.Map:
		return mkLen(in.mapOf(st, v))
	case *types.Basic:
		return mkLen(v)
	}
	return mkLen(v)
}

func (in *Interp) mapOf(st *State, v *Term) *Term {
	if v.k == KNil {
		return tMNew
	}
	if h, ok := st.heap[v]; ok {
		return h
	}
	return v
}

// freshSeq is new memory holding seq, as a slice.
func (in *Interp) freshSeq(st *State, fr *frame, at interface{}, tag string, seq *Term, typ types.Type) *Term {
	var at2 types.Type
	if e := elemType(typ); e != nil {
		at2 = types.NewSlice(e)
	} else {
		at2 = types.NewSlice(types.Typ[types.Byte])
	}
	o := mk(KObj, "", ctxOf(fr.ctx, at, "obj"+tag), at2, nil, at)
	st.heap[o] = seq
	st.shared[o] = nil
	return mk(KSlice, "", 0, typ, nil, nil, o, mkInt(0), mkLen(seq))
}

// outside says a map existed before the analysed call and can be changed by others.
func outside(st *State, m *Term) bool {
	if _, known := st.heap[m]; known {
		return false
	}
	return st.pre[m] || m.k == KApp && strings.HasPrefix(m.op, "mutable:")
}

// snap replaces addresses in v by what they hold now.
func (in *Interp) snap(st *State, v *Term) *Term { return in.snapD(st, v, 8) }

func (in *Interp) snapD(st *State, v *Term, d int) *Term {
	if d == 0 {
		return v
	}
	switch v.k {
	case KSlice:
		s := in.seqOf(st, v)
		return in.snapParts(st, s, d-1)
	case KObj, KFieldAddr, KElemAddr, KGlobal:
		if v.k == KObj {
			if _, isMap := v.typ.Underlying().(*types.Map); isMap {
				return in.snapParts(st, in.loadRoot(st, v), d-1)
			}
		}
		return mk(KPtrTo, "", 0, v.typ, nil, nil, in.snapD(st, in.load(st, v), d-1))
	case KStruct, KIface, KTuple, KClosure:
		return in.snapParts(st, v, d-1)
	case KApp:
		if v.op == "buffer" {
			return app("buffer", v.typ, in.snapParts(st, v.args[0], d-1))
		}
	case KConcat, KLit, KSub, KUpd, KMSet, KMDel, KMSetAll, KMDelAll:
		return in.snapParts(st, v, d-1)
	}
	if h, ok := st.heap[v]; ok {
		if v.typ != nil {
			if _, isPtr := v.typ.Underlying().(*types.Pointer); isPtr {
				return mk(KPtrTo, "", 0, v.typ, nil, nil, in.snapD(st, h, d-1))
			}
		}
		return in.snapD(st, h, d-1)
	}
	if v.typ != nil && v.k != KConst {
		// an opaque struct with a part (a map, say) that was modified since
		if sty := structOf(v.typ); sty != nil && partStored(st, v) {
			args := make([]*Term, sty.NumFields())
			for i := range args {
				args[i] = in.snapD(st, mkField(v, i, sty.Field(i).Type()), d-1)
			}
			return mkStruct(v.typ, args...)
		}
	}
	if v.typ != nil {
		if pt, isPtr := v.typ.Underlying().(*types.Pointer); isPtr && (v.k == KParam || v.k == KRes || v.k == KApp || v.k == KField || v.k == KLoop) {
			if v.k == KApp && strings.HasPrefix(v.op, "log:") {
				return v
			}
			return mk(KPtrTo, "", 0, v.typ, nil, nil, mk(KDeref, "", 0, pt.Elem(), nil, nil, v))
		}
	}
	return v
}

// partStored says the heap holds something for a field of v.
func partStored(st *State, v *Term) bool {
	for k := range st.heap {
		for x := k; x.k == KField; x = x.args[0] {
			if x.args[0] == v {
				return true
			}
		}
	}
	return false
}

func (in *Interp) snapParts(st *State, v *Term, d int) *Term {
	if len(v.args) == 0 {
		return v
	}
	switch v.k {
	case KStruct, KIface, KTuple, KClosure, KConcat, KLit, KSub, KUpd, KMSet, KMDel, KMSetAll, KMDelAll:
	default:
		return v
	}
	args := make([]*Term, len(v.args))
	for i, a := range v.args {
		args[i] = in.snapD(st, a, d)
	}
	return rebuild(v, args)
}

// ---------------------------------------------------------------- functions

func (in *Interp) fnInfo(fn *ssa.Function) *fnInfo {
	if fi, ok := in.p.cfgs[fn]; ok {
		return fi
	}
	fi := analyseCFG(fn)
	in.p.cfgs[fn] = fi
	return fi
}

// run analyses fn from st with the given arguments.
func (in *Interp) run(fn *ssa.Function, args, bindings []*Term, st *State, ctx int) []Exit {
	if len(in.stack) > maxDepth {
		in.note(fn, fn.Pos(), "call depth limit reached")
		return []Exit{{st: st, res: in.opaqueResults(fn.Signature, ctx, fn)}}
	}
	in.stack = append(in.stack, fn)
	in.visited[fn] = true
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()

	fr := &frame{in: in, fn: fn, info: in.fnInfo(fn), ctx: ctx}
	if fr.info.bad {
		in.note(fn, fn.Pos(), "irreducible control flow")
	}
	s := st.clone()
	s.env = map[ssa.Value]*Term{}
	s.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bindings) {
			s.env[f] = bindings[i]
		}
	}
	edges, backs, rets := fr.region(nil, fn.Blocks[0], []inState{{nil, s}}, nil)
	if len(edges) > 0 || len(backs) > 0 {
		in.note(fn, fn.Pos(), "stray control flow edges")
	}
	if len(rets) > maxStates {
		in.note(fn, fn.Pos(), "too many paths (%d)", len(rets))
		rets = rets[:maxStates]
	}
	return rets
}

func (in *Interp) opaqueResults(sig *types.Signature, ctx int, at interface{}) []*Term {
	var out []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, mk(KNew, fmt.Sprintf(".%d", i), ctxOf(ctx, at, "opaque"), sig.Results().At(i).Type(), nil, nil))
	}
	return out
}

type inState struct {
	pred *ssa.BasicBlock
	st   *State
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// region runs the blocks of a loop body (or a whole function when blocks is nil).
func (fr *frame) region(blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, ins []inState, outer *loop) (edges, backs []edge, rets []Exit) {
	queue := map[*ssa.BasicBlock][]inState{entry: ins}
	first := true
	for {
		var b *ssa.BasicBlock
		best := -1
		for q := range queue {
			if r := fr.info.rpo[q]; best < 0 || r < best {
				b, best = q, r
			}
		}
		if b == nil {
			return
		}
		states := queue[b]
		delete(queue, b)
		if len(states) > maxStates {
			fr.in.note(fr.fn, b.Instrs[0].Pos(), "too many paths (%d)", len(states))
			states = states[:maxStates]
		}
		var out []edge
		l := fr.info.loops[b]
		if l != nil && !(first && outer == l) {
			for _, s := range states {
				es, rs := fr.runLoop(l, s)
				out = append(out, es...)
				rets = append(rets, rs...)
			}
		} else {
			for _, s := range states {
				st := s.st
				if !(first && outer == l && l != nil) {
					fr.phis(b, s.pred, st)
				}
				es, rs := fr.block(b, st)
				out = append(out, es...)
				rets = append(rets, rs...)
			}
		}
		first = false
		for _, e := range out {
			switch {
			case outer != nil && e.to == outer.header:
				backs = append(backs, e)
			case blocks != nil && !blocks[e.to]:
				edges = append(edges, e)
			default:
				queue[e.to] = append(queue[e.to], inState{e.from, e.st})
			}
		}
	}
}

func (fr *frame) phis(b, pred *ssa.BasicBlock, st *State) {
	if pred == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var vals []*Term
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, fr.val(st, p.Edges[idx]))
	}
	for i, p := range ps {
		st.env[p] = vals[i]
	}
}

func (fr *frame) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return mk(KGlobal, "", 0, x.Type(), nil, x)
	case *ssa.Function:
		return mk(KFunc, "", 0, x.Type(), nil, x)
	case *ssa.Builtin:
		return app("builtin:"+x.Name(), nil)
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	fr.in.note(fr.fn, v.Pos(), "value %s not available", v.Name())
	return mk(KNew, "undef", ctxOf(fr.ctx, v, ""), v.Type(), nil, nil)
}

// block executes the non-phi instructions of b.
func (fr *frame) block(b *ssa.BasicBlock, st *State) (edges []edge, rets []Exit) {
	states := []*State{st}
	for _, instr := range b.Instrs {
		if _, ok := instr.(*ssa.Phi); ok {
			continue
		}
		if _, ok := instr.(*ssa.DebugRef); ok {
			continue
		}
		fr.in.steps++
		var next []*State
		for _, s := range states {
			switch x := instr.(type) {
			case *ssa.If:
				c := fr.val(s, x.Cond)
				switch s.evalLoop(c) {
				case 1:
					edges = append(edges, edge{b, b.Succs[0], s})
				case 0:
					edges = append(edges, edge{b, b.Succs[1], s})
				default:
					t := s.clone()
					if t.assume(c, true) {
						edges = append(edges, edge{b, b.Succs[0], t})
					}
					if s.assume(c, false) {
						edges = append(edges, edge{b, b.Succs[1], s})
					}
				}
			case *ssa.Jump:
				edges = append(edges, edge{b, b.Succs[0], s})
			case *ssa.Return:
				var res []*Term
				for _, r := range x.Results {
					res = append(res, fr.val(s, r))
				}
				rets = append(rets, Exit{st: s, res: res, pos: x.Pos()})
			case *ssa.Panic:
				rets = append(rets, Exit{st: s, res: nil, panic: true, pos: x.Pos()})
			case *ssa.RunDefers:
				ds := s.defers
				s.defers = nil
				cur := []*State{s}
				for i := len(ds) - 1; i >= 0; i-- {
					var nx []*State
					for _, c := range cur {
						for _, o := range fr.dispatch(c, ds[i].instr, &ds[i].instr.Call, ds[i].fn, ds[i].args) {
							if o.panic {
								rets = append(rets, Exit{st: o.st, panic: true, pos: x.Pos()})
								continue
							}
							nx = append(nx, o.st)
						}
					}
					cur = nx
				}
				next = append(next, cur...)
			case *ssa.Call:
				for _, o := range fr.call(s, x) {
					if o.panic {
						rets = append(rets, o)
						continue
					}
					switch len(o.res) {
					case 0:
					case 1:
						o.st.env[x] = o.res[0]
					default:
						o.st.env[x] = mk(KTuple, "", 0, x.Type(), nil, nil, o.res...)
					}
					next = append(next, o.st)
				}
			case *ssa.TypeAssert:
				next = append(next, fr.typeAssert(s, x)...)
			case *ssa.UnOp:
				fr.simple(s, instr)
				if x.Op == token.MUL {
					next = append(next, fr.collected(s, s.env[x])...)
				} else {
					next = append(next, s)
				}
			default:
				fr.simple(s, instr)
				next = append(next, s)
			}
		}
		states = next
		if len(states) > maxStates {
			fr.in.note(fr.fn, instr.Pos(), "too many paths (%d)", len(states))
			states = states[:maxStates]
		}
	}
	return
}

// collected recalls under which conditions an element got into a list that a loop has collected.
func (fr *frame) collected(s *State, t *Term) []*State {
	if t.k != KElem || t.args[0].k != KLoop {
		return []*State{s}
	}
	for _, e := range s.events {
		if e.loop == nil {
			continue
		}
		for _, v := range e.loop.vars {
			if v.term != t.args[0] {
				continue
			}
			in, ok := collects(v, e.loop)
			if !ok {
				return []*State{s}
			}
			var next []*State
			seen := map[string]bool{}
			for _, b := range in {
				elt := appended(v, b)
				sub := newSubst(func(x *Term) *Term {
					if x == elt {
						return t
					}
					return nil
				})
				// what is left of a fact when the element is taken out must not change from one iteration to the next
				rest := newSubst(func(x *Term) *Term {
					if x == elt {
						return tNil
					}
					return nil
				})
				var fs []Fact
				var key strings.Builder
				for _, f := range b.facts {
					if elt.k == KRangeKey && f.atom.k == KRangeOk && f.atom.n == elt.n && f.atom.op == elt.op && f.val && len(f.atom.args) > 0 {
						f.atom = mkLookupOk(f.atom.args[0], elt, constEq)
					}
					if !contains(f.atom, elt) || anyTerm(rest.do(f.atom), func(x *Term) bool {
						return x.k == KLoop && x.n == e.loop.ctx || x.k == KRangeKey || x.k == KRangeOk
					}) {
						continue
					}
					a := sub.do(f.atom)
					fs = append(fs, Fact{a, f.val})
					fmt.Fprint(&key, a.key(), f.val)
				}
				if seen[key.String()] {
					continue
				}
				seen[key.String()] = true
				w := s.clone()
				ok := true
				for _, f := range fs {
					ok = ok && w.assume(f.atom, f.val)
				}
				if ok {
					next = append(next, w)
				}
			}
			return next
		}
	}
	return []*State{s}
}

// collects says the loop starts with an empty list and does nothing with it but append single values; it returns the iterations that do.
func collects(v *LoopVar, rec *LoopRec) (in []*Back, ok bool) {
	if v.kind != "slice" || v.entry == nil || mkLen(v.entry) != mkInt(0) {
		return nil, false
	}
	for _, b := range rec.backs {
		n := b.next[v]
		if n == v.term {
			continue
		}
		if n == nil || appended(v, b) == nil {
			return nil, false
		}
		in = append(in, b)
	}
	return in, len(in) > 0
}

// appended is the single value an iteration appends to the list.
func appended(v *LoopVar, b *Back) *Term {
	n := b.next[v]
	if n == nil || n.k != KConcat || len(n.args) != 2 || n.args[0] != v.term || n.args[1].k != KLit || len(n.args[1].args) != 1 {
		return nil
	}
	return n.args[1].args[0]
}

func (fr *frame) typeAssert(s *State, x *ssa.TypeAssert) []*State {
	v := fr.val(s, x.X)
	set := func(s *State, val, ok *Term) {
		if x.CommaOk {
			s.env[x] = mk(KTuple, "", 0, x.Type(), nil, nil, val, ok)
		} else {
			s.env[x] = val
		}
	}
	if v.k == KIface {
		match := false
		var val *Term
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			match = types.Implements(v.typ, it)
			val = v
		} else {
			match = types.Identical(v.typ, x.AssertedType)
			val = v.args[0]
		}
		if !match && !x.CommaOk {
			fr.check(s, x.Pos(), "assertion to another type").never = true
		}
		if match {
			set(s, val, tTrue)
		} else {
			set(s, zeroOf(x.AssertedType), tFalse)
		}
		return []*State{s}
	}
	if v.k == KNil {
		if !x.CommaOk {
			fr.check(s, x.Pos(), "type assertion on nil").never = true
		}
		set(s, zeroOf(x.AssertedType), tFalse)
		return []*State{s}
	}
	val := app("as:"+types.TypeString(x.AssertedType, nil), x.AssertedType, v)
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		val = v
	}
	ok := app("is:"+types.TypeString(x.AssertedType, nil), types.Typ[types.Bool], v)
	if !x.CommaOk {
		if s.eval(ok) != 1 && !types.Identical(x.X.Type(), x.AssertedType) {
			k := fr.check(s, x.Pos(), "assertion that "+v.String()+" is a "+x.AssertedType.String())
			k.never, k.asserted, k.typ = true, v, x.AssertedType
		}
		set(s, val, tTrue)
		return []*State{s}
	}
	t := s.clone()
	var out []*State
	if t.assume(ok, true) {
		set(t, val, tTrue)
		out = append(out, t)
	}
	if s.assume(ok, false) {
		set(s, zeroOf(x.AssertedType), tFalse)
		out = append(out, s)
	}
	return out
}

// simple executes an instruction that neither forks nor ends a path.
func (fr *frame) simple(s *State, instr ssa.Instruction) {
	in := fr.in
	switch x := instr.(type) {
	case *ssa.Alloc:
		et := pointee(x.Type())
		o := mk(KObj, "", ctxOf(fr.ctx, x, "alloc"), et, nil, x)
		s.heap[o] = zeroOf(et)
		s.shared[o] = nil
		s.env[x] = o
	case *ssa.Store:
		if rootOf(fr.val(s, x.Addr)).k == KNil {
			fr.check(s, x.Pos(), "nil pointer written to").never = true
		}
		in.store(s, fr, fr.val(s, x.Addr), fr.val(s, x.Val), x.Pos())
	case *ssa.UnOp:
		v := fr.val(s, x.X)
		switch x.Op {
		case token.MUL:
			r := in.load(s, v)
			if rootOf(v).k == KNil {
				fr.check(s, x.Pos(), "nil pointer read").never = true
			}
			s.env[x] = r
		case token.NOT:
			s.env[x] = mkNot(v)
		case token.SUB:
			s.env[x] = linMul(v, -1)
		case token.XOR:
			if v.k == KConst && v.c.Kind() == constant.Int {
				var sz uint
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
					switch b.Kind() {
					case types.Uint8:
						sz = 8
					case types.Uint16:
						sz = 16
					case types.Uint32:
						sz = 32
					default:
						sz = 64
					}
				}
				s.env[x] = mk(KConst, "", 0, x.Type(), constant.UnaryOp(token.XOR, v.c, sz), nil)
			} else {
				s.env[x] = mk(KUn, "^", 0, x.Type(), nil, nil, v)
			}
		default:
			in.note(fr.fn, x.Pos(), "channel receive")
			s.env[x] = mk(KNew, "recv", ctxOf(fr.ctx, x, ""), x.Type(), nil, nil)
		}
	case *ssa.BinOp:
		a, b := fr.val(s, x.X), fr.val(s, x.Y)
		if isSliceOrMap(x.X.Type()) {
			// comparison with nil
			s.env[x] = fr.nilCompare(s, x, a, b)
			return
		}
		t := x.Type()
		if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL {
			t = x.X.Type()
		}
		if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.Type()) {
			if v, ok := b.intVal(); !ok {
				fr.check(s, x.Pos(), "division by "+b.String(), tSub(b, mkInt(1)))
			} else if v == 0 {
				fr.check(s, x.Pos(), "division by zero").never = true
			}
		}
		s.env[x] = mkBin(x.Op, a, b, t)
	case *ssa.FieldAddr:
		s.env[x] = mk(KFieldAddr, "", x.Field, x.Type(), nil, nil, fr.val(s, x.X))
	case *ssa.Field:
		s.env[x] = mkField(fr.val(s, x.X), x.Field, x.Type())
	case *ssa.IndexAddr:
		base := fr.val(s, x.X)
		i := fr.val(s, x.Index)
		fr.checkIndex(s, x, base, x.X.Type(), i)
		et := pointee(x.Type())
		if base.k == KSlice {
			s.env[x] = mk(KElemAddr, "", 0, et, nil, nil, base.args[0], tAdd(base.args[1], i))
		} else {
			s.env[x] = mk(KElemAddr, "", 0, et, nil, nil, base, i)
		}
	case *ssa.Index:
		v := fr.val(s, x.X)
		i := fr.val(s, x.Index)
		fr.checkIndex(s, x, v, x.X.Type(), i)
		s.env[x] = mkElem(v, i, x.Type())
	case *ssa.Lookup:
		m := fr.val(s, x.X)
		k := fr.val(s, x.Index)
		if isString(x.X.Type()) {
			s.env[x] = mkElem(m, k, x.Type())
			return
		}
		vt := elemType(x.X.Type())
		if outside(s, m) {
			// other calls may use the map at any time
			e := fr.event(s, x, "map.Get", []*Term{m, k})
			val := res(0, vt, e.term)
			if x.CommaOk {
				val = mk(KTuple, "", 0, x.Type(), nil, nil, val, res(1, types.Typ[types.Bool], e.term))
			}
			s.env[x] = val
			return
		}
		mc := in.mapOf(s, m)
		eq := func(a, b *Term) int { return s.eval(mkEq(a, b)) }
		val := mkLookup(mc, k, vt, eq)
		if x.CommaOk {
			ok := mkLookupOk(mc, k, eq)
			if s.eval(ok) == 0 {
				val, ok = zeroOf(vt), tFalse
			}
			s.env[x] = mk(KTuple, "", 0, x.Type(), nil, nil, val, ok)
		} else {
			if s.eval(mkLookupOk(mc, k, eq)) == 0 {
				val = zeroOf(vt)
			}
			s.env[x] = val
		}
	case *ssa.MapUpdate:
		m := fr.val(s, x.Map)
		k, v := fr.val(s, x.Key), fr.val(s, x.Value)
		if m.k == KNil || m.k == KMEmpty {
			fr.check(s, x.Pos(), "write to a nil map").never = true
		}
		in.recordWrite(s, fr, m, "map update", v, x.Pos())
		if outside(s, m) {
			fr.event(s, x, "map.Set", []*Term{m, k, v})
			return
		}
		s.heap[m] = mkMSet(in.mapOf(s, m), k, v)
	case *ssa.MakeMap:
		o := mk(KObj, "", ctxOf(fr.ctx, x, "map"), x.Type(), nil, x)
		s.heap[o] = tMNew
		s.env[x] = o
	case *ssa.MakeSlice:
		n := fr.val(s, x.Len)
		fr.check(s, x.Pos(), "slice made of length "+n.String(), n)
		o := mk(KObj, "", ctxOf(fr.ctx, x, "mkslice"), types.NewSlice(elemType(x.Type())), nil, x)
		s.heap[o] = mkZeros(n)
		s.shared[o] = nil
		op := ""
		if fr.val(s, x.Cap) == n {
			op = "x"
		}
		s.env[x] = mk(KSlice, op, 0, x.Type(), nil, nil, o, mkInt(0), n)
	case *ssa.Slice:
		fr.slice(s, x)
	case *ssa.MakeInterface:
		v := fr.val(s, x.X)
		s.env[x] = mk(KIface, "", 0, x.X.Type(), nil, nil, v)
	case *ssa.ChangeInterface:
		s.env[x] = fr.val(s, x.X)
	case *ssa.ChangeType:
		s.env[x] = fr.val(s, x.X)
	case *ssa.Convert:
		s.env[x] = fr.convert(s, x, fr.val(s, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		s.env[x] = fr.convert(s, x, fr.val(s, x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		v := fr.val(s, x.X)
		if v.k == KSlice {
			s.env[x] = v.args[0]
		} else {
			s.env[x] = v
		}
	case *ssa.Extract:
		t := fr.val(s, x.Tuple)
		if t.k == KTuple {
			s.env[x] = t.args[x.Index]
		} else {
			s.env[x] = res(x.Index, x.Type(), t)
		}
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, fr.val(s, v))
		}
		s.env[x] = mk(KClosure, "", 0, x.Type(), nil, x.Fn, b...)
	case *ssa.Range:
		v := fr.val(s, x.X)
		if isString(x.X.Type()) {
			s.env[x] = app("rangestr", nil, v)
		} else {
			s.env[x] = app("rangemap", x.X.Type(), in.mapOf(s, v), v)
		}
	case *ssa.Next:
		it := fr.val(s, x.Iter)
		c := ctxOf(fr.ctx, x, "next")
		ok := mk(KRangeOk, "", c, types.Typ[types.Bool], nil, nil, it.args[0])
		if len(it.args) > 0 && (it.args[0].k == KMEmpty || it.args[0].k == KNil) {
			ok = tFalse
		}
		tt := x.Type().(*types.Tuple)
		key := mk(KRangeKey, "", c, tt.At(1).Type(), nil, nil, it.args[0])
		var val *Term
		if x.IsString {
			val = mk(KRangeKey, "rune", c, types.Typ[types.Rune], nil, nil, it.args[0])
		} else {
			kt := it.typ.Underlying().(*types.Map).Key()
			key = mk(KRangeKey, "", c, kt, nil, nil, it.args[0])
			m := it.args[0]
			eq := func(a, b *Term) int { return s.eval(mkEq(a, b)) }
			if in.laws && fr.round > 0 && in.mapOf(s, it.args[1]) == m {
				// a map whose few keys are known is ranged over in every order
				if ks, known := exactKeys(s, m); known && len(ks) <= 3 {
					if ok = mkBool(fr.round <= len(ks)); fr.round <= len(ks) {
						if key = ks[fr.round-1]; fr.order < len(orders[len(ks)]) {
							key = ks[orders[len(ks)][fr.order][fr.round-1]]
						}
					}
					fr.keys = len(ks)
				}
			}
			val = mkLookup(m, key, elemType(it.typ), eq)
		}
		s.env[x] = mk(KTuple, "", 0, x.Type(), nil, nil, ok, key, val)
	case *ssa.Defer:
		var args []*Term
		for _, a := range x.Call.Args {
			args = append(args, fr.val(s, a))
		}
		fr.checkNoLoop(x)
		s.defers = append(s.defers, deferred{x, fr.val(s, x.Call.Value), args})
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		in.note(fr.fn, instr.Pos(), "concurrency construct %T is not modelled", instr)
		if v, ok := instr.(ssa.Value); ok {
			s.env[v] = mk(KNew, "chan", ctxOf(fr.ctx, instr, ""), v.Type(), nil, nil)
		}
	default:
		in.note(fr.fn, instr.Pos(), "instruction %T is not modelled", instr)
		if v, ok := instr.(ssa.Value); ok {
			s.env[v] = mk(KNew, "unk", ctxOf(fr.ctx, instr, ""), v.Type(), nil, nil)
		}
	}
}

func (fr *frame) checkNoLoop(x ssa.Instruction) {
	for _, l := range fr.info.loops {
		if l.blocks[x.Block()] {
			fr.in.note(fr.fn, x.Pos(), "defer inside a loop")
		}
	}
}

func isSliceOrMap(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func (fr *frame) nilCompare(s *State, x *ssa.BinOp, a, b *Term) *Term {
	if a.k == KNil {
		a, b = b, a
	}
	r := mkEq(a, b)
	if a.k == KObj {
		r = tFalse
	}
	if x.Op == token.NEQ {
		return mkNot(r)
	}
	return r
}

func (fr *frame) checkIndex(s *State, x ssa.Instruction, base *Term, t types.Type, i *Term) {
	if !fr.in.hookIdx {
		return
	}
	n := fr.in.lenOf(s, base, t)
	fr.check(s, x.Pos(), fmt.Sprintf("index %s of length %s", i, n), i, tSub(tSub(n, i), mkInt(1)))
}

func (fr *frame) slice(s *State, x *ssa.Slice) {
	in := fr.in
	v := fr.val(s, x.X)
	get := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return fr.val(s, e)
	}
	lo, hi, max := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = mkInt(0)
	}
	n := in.lenOf(s, v, x.X.Type())
	hiGiven := hi != nil
	if hi == nil {
		hi = n
	}
	if in.hookIdx {
		goals := []*Term{lo, tSub(hi, lo)}
		if hiGiven {
			// safe when hi <= len; the capacity may be larger, but do not rely on it
			if c := app("cap", types.Typ[types.Int], v); mentioned(s, c) {
				n = c // what the path relies on instead
			}
			goals = append(goals, tSub(n, hi))
		}
		fr.check(s, x.Pos(), fmt.Sprintf("slice [%s:%s] of length %s", lo, hi, n), goals...)
	}
	if isString(x.X.Type()) {
		s.env[x] = mkSub(v, lo, hi)
		return
	}
	op := ""
	if max != nil && max == hi {
		op = "x"
	}
	if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
		// array
		if !hiGiven || hi == n {
			op = "x"
		}
		s.env[x] = mk(KSlice, op, 0, x.Type(), nil, nil, v, lo, hi)
		return
	}
	if v.k == KSlice {
		if !hiGiven && v.op == "x" {
			op = "x"
		}
		if hiGiven && hi == n && v.op == "x" {
			op = "x"
		}
		s.env[x] = mk(KSlice, op, 0, x.Type(), nil, nil, v.args[0], tAdd(v.args[1], lo), tAdd(v.args[1], hi))
		return
	}
	if v.k == KNil {
		s.env[x] = tNil
		return
	}
	s.env[x] = mk(KSlice, op, 0, x.Type(), nil, nil, v, lo, hi)
}

// mentioned says the path has decided something about t.
func mentioned(s *State, t *Term) bool {
	for _, f := range s.facts {
		if contains(f.atom, t) {
			return true
		}
	}
	return false
}

func intSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (fr *frame) convert(s *State, at ssa.Instruction, v *Term, from, to types.Type) *Term {
	in := fr.in
	switch {
	case isString(to) && isSliceOrMap(from):
		return in.seqOf(s, v)
	case isString(from) && isSliceOrMap(to):
		return in.freshSeq(s, fr, at, "conv", v, to)
	case isInt(from) && isInt(to):
		if v.k == KConst {
			bits := intSize(to)
			if n, ok := v.intVal(); ok {
				if unsignedType(to) && bits < 64 {
					return mk(KConst, "", 0, to, constant.MakeInt64(n&(1<<uint(bits)-1)), nil)
				}
				if n >= 0 || !unsignedType(to) {
					return mk(KConst, "", 0, to, constant.MakeInt64(n), nil)
				}
			}
			return mk(KConst, "", 0, to, v.c, nil)
		}
		if intSize(to) >= intSize(from) {
			return v
		}
		if unsignedType(to) {
			if r := decoded(v, 0, int64(intSize(to))); r != nil {
				return r
			}
		}
		return mk(KConv, "", 0, to, nil, nil, v)
	case types.Identical(from.Underlying(), to.Underlying()):
		return v
	}
	if isString(to) && isInt(from) {
		return app("string(rune)", to, v)
	}
	return mk(KConv, "", 0, to, nil, nil, v)
}

// ---------------------------------------------------------------- loops

func (fr *frame) runLoop(l *loop, s inState) (edges []edge, rets []Exit) {
	if c := fr.undecidedKey(l, s.st); c != nil {
		for _, v := range []bool{true, false} {
			if x := s.st.clone(); x.assume(c, v) && !contradict(x.facts, witness{}, 0) {
				e, r := fr.runLoop(l, inState{s.pred, x})
				edges, rets = append(edges, e...), append(rets, r...)
			}
		}
		return edges, rets
	}
	defer func(o, k int) { fr.order, fr.keys = o, k }(fr.order, fr.keys)
	for fr.order, fr.keys = 0, 0; ; fr.order++ {
		e, r, ok := fr.unroll(l, s)
		if !ok {
			return fr.widen(l, s)
		}
		edges, rets = append(edges, e...), append(rets, r...)
		if fr.order+1 >= len(orders[fr.keys]) {
			return edges, rets
		}
	}
}

// undecidedKey is what decides which keys a small map has, if that is not known where it is ranged over.
func (fr *frame) undecidedKey(l *loop, s *State) *Term {
	if !fr.in.laws {
		return nil
	}
	for _, i := range l.header.Instrs {
		x, ok := i.(*ssa.Next)
		if !ok || x.IsString {
			continue
		}
		it := fr.val(s, x.Iter)
		if it.k != KApp || it.op != "rangemap" {
			continue
		}
		members, ok := membersOf(it.args[0])
		if !ok || len(members) > 3 {
			continue
		}
		for i, a := range members {
			for _, b := range members[:i] {
				if c := mkEq(a, b); a != b && s.eval(c) < 0 {
					return c
				}
			}
		}
	}
	return nil
}

// orders are the ways to go through so many keys.
var orders = [][][]int{{{}}, {{0}}, {{0, 1}, {1, 0}}, {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}}

// unroll runs a loop whose condition is decided in every iteration.
func (fr *frame) unroll(l *loop, s inState) (edges []edge, rets []Exit, ok bool) {
	h := l.header
	iff, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, nil, false
	}
	_ = iff
	for _, i := range h.Instrs {
		if _, isCall := i.(*ssa.Call); isCall {
			if b, isB := i.(*ssa.Call).Call.Value.(*ssa.Builtin); isB && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			return nil, nil, false
		}
		if _, isNext := i.(*ssa.Next); isNext {
			// only the empty map can be decided
			continue
		}
	}
	in := fr.in
	mark := len(in.notes)
	nchk := len(in.checks)
	saved, round := fr.ctx, fr.round
	defer func() { fr.ctx, fr.round = saved, round }()
	fail := func() ([]edge, []Exit, bool) {
		in.notes = in.notes[:mark]
		in.checks = in.checks[:nchk]
		return nil, nil, false
	}
	cur := []inState{{s.pred, s.st.clone()}}
	for it := 0; len(cur) > 0; it++ {
		if it > maxUnroll || len(cur) > 64 {
			return fail()
		}
		name := fmt.Sprintf("u%d", it)
		if fr.order > 0 {
			name = fmt.Sprintf("u%d.%d", it, fr.order)
		}
		fr.ctx = ctxOf(saved, l.header, name)
		fr.round = it + 1
		var next []inState
		for _, c := range cur {
			probe := c.st.clone()
			fr.phis(h, c.pred, probe)
			es, rs := fr.block(h, probe.clone())
			if len(rs) > 0 || len(es) != 1 {
				return fail()
			}
			if !l.blocks[es[0].to] {
				edges = append(edges, es[0])
				continue
			}
			e, b, r := fr.region(l.blocks, h, []inState{{nil, probe}}, l)
			edges = append(edges, e...)
			rets = append(rets, r...)
			for _, x := range b {
				next = append(next, inState{x.from, x.st})
			}
		}
		cur = next
	}
	return edges, rets, true
}

// leaves is the edge out of the loop when the loop's condition, after a round, is certain to end it.
func (fr *frame) leaves(l *loop, b edge) *edge {
	h := l.header
	if _, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If); !isIf {
		return nil
	}
	for _, i := range h.Instrs {
		switch x := i.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.DebugRef, *ssa.FieldAddr:
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return nil
			}
		default:
			return nil
		}
	}
	mark, nchk := len(fr.in.notes), len(fr.in.checks)
	st := b.st.clone()
	fr.phis(h, b.from, st)
	es, rs := fr.block(h, st)
	if len(rs) == 0 && len(es) == 1 && !l.blocks[es[0].to] {
		return &es[0]
	}
	fr.in.notes, fr.in.checks = fr.in.notes[:mark], fr.in.checks[:nchk]
	return nil
}

func pathKey(root *Term, path []int) string {
	s := fmt.Sprint(root.id)
	for _, p := range path {
		s += fmt.Sprintf(".%d", p)
	}
	return s
}

func getPath(t *Term, path []int, typ types.Type) *Term {
	for _, p := range path {
		st := structOf(typ)
		var ft types.Type
		if st != nil {
			ft = st.Field(p).Type()
		}
		t = mkField(t, p, ft)
		typ = ft
	}
	return t
}

func pathType(typ types.Type, path []int) types.Type {
	for _, p := range path {
		st := structOf(typ)
		if st == nil {
			return nil
		}
		typ = st.Field(p).Type()
	}
	return typ
}

func setPath(t *Term, typ types.Type, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	st := structOf(typ)
	if st == nil {
		return v
	}
	ft := st.Field(path[0]).Type()
	return withField(t, typ, path[0], setPath(mkField(t, path[0], ft), ft, path[1:], v))
}

// diffPaths lists where two contents differ.
func diffPaths(a, b *Term, typ types.Type, path []int, out *[][]int) {
	if a == b {
		return
	}
	st := structOf(typ)
	if st != nil && (a.k == KStruct || b.k == KStruct) {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			diffPaths(mkField(a, i, ft), mkField(b, i, ft), ft, append(append([]int{}, path...), i), out)
		}
		return
	}
	*out = append(*out, path)
}

func (fr *frame) defaultContent(r *Term) *Term {
	return fr.in.loadRoot(newState(), r)
}

func (fr *frame) widen(l *loop, s inState) (edges []edge, rets []Exit) {
	defer func(r int) { fr.round = r }(fr.round)
	fr.round = 0
	in := fr.in
	in.loops++
	saved := fr.ctx
	lctx := ctxOf(saved, l.header, "w")
	defer func() { fr.ctx = saved }()

	entry := s.st
	nchk0 := len(in.checks)
	fr.phis(l.header, s.pred, entry)
	type wkey struct {
		phi *ssa.Phi
		key string
	}
	widened := map[wkey]*LoopVar{}
	var vars []*LoopVar
	unbox := map[wkey]bool{}

	var phis []*ssa.Phi
	for _, i := range l.header.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}

	newVar := func(name string, typ types.Type, ev *Term, noBox, store bool) *LoopVar {
		v := &LoopVar{name: name, typ: typ, kind: "plain", entry: ev}
		if typ != nil && !noBox && !store {
			switch u := typ.Underlying().(type) {
			case *types.Slice:
				v.kind = "slice"
				v.box = mk(KObj, "loop", lctx, types.NewSlice(u.Elem()), nil, "box:"+name)
				v.entry = in.seqOf(entry, ev)
			case *types.Pointer:
				if nonNil(ev) {
					v.kind = "ptr"
					v.box = mk(KObj, "loop", lctx, u.Elem(), nil, "box:"+name)
					v.entry = in.load(entry, ev)
				}
			}
		}
		vt := typ
		if v.kind == "ptr" {
			vt = elemType(typ)
		}
		if store {
			// memory keeps its length
			v.term = mk(KLoop, name, lctx, vt, nil, nil, mkLen(ev))
			return v
		}
		v.term = mk(KLoop, name, lctx, vt, nil, nil)
		return v
	}
	valueOf := func(v *LoopVar) *Term {
		switch v.kind {
		case "slice":
			return mk(KSlice, "", 0, v.typ, nil, nil, v.box, mkInt(0), mkLen(v.term))
		case "ptr":
			return v.box
		}
		return v.term
	}

	windows := map[*ssa.Phi]map[string]*LoopVar{}
	window := func(p *ssa.Phi, kind string) *LoopVar {
		at := entry.env[p].args[1]
		if kind == "hi" {
			at = entry.env[p].args[2]
		}
		v := newVar("phi:"+phiName(p)+"."+kind, types.Typ[types.Int], at, true, false)
		v.phi, v.kind = p, kind
		return v
	}

	var st0 *State
	var backs, tails []edge
	for round := 0; ; round++ {
		if round > 60 {
			in.note(fr.fn, l.header.Instrs[0].Pos(), "loop summary does not stabilise")
			break
		}
		st0 = entry.clone()
		for _, v := range vars {
			if v.box != nil {
				st0.heap[v.box] = v.term
				st0.shared[v.box] = nil
			}
		}
		for _, v := range vars {
			val := valueOf(v)
			if v.kind == "lo" || v.kind == "hi" {
				// a slice that moves along its memory
				w := st0.env[v.phi]
				lo, hi := w.args[1], w.args[2]
				if v.kind == "lo" {
					lo = v.term
				} else {
					hi = v.term
				}
				st0.env[v.phi] = mk(KSlice, w.op, w.n, w.typ, w.c, w.obj, w.args[0], lo, hi)
			} else if v.phi != nil {
				if v.box != nil {
					link(st0, v.box, rootOf(entry.env[v.phi]))
				}
				st0.env[v.phi] = val
			} else {
				base := in.loadRoot(st0, v.root)
				if v.box != nil {
					link(st0, v.box, rootOf(getPath(base, v.path, contentType(v.root))))
				}
				st0.heap[v.root] = setPath(base, contentType(v.root), v.path, val)
			}
		}
		mark := len(in.notes)
		nchk := len(in.checks)
		fr.ctx = lctx
		var e []edge
		var r []Exit
		run := st0.clone()
		e, backs, r = fr.region(l.blocks, l.header, []inState{{nil, run}}, l)
		tails = nil
		var again []edge
		for _, b := range backs {
			if t := fr.leaves(l, b); t != nil {
				tails = append(tails, *t)
			} else {
				again = append(again, b)
			}
		}
		backs = again
		fr.ctx = saved
		changed := false
		for _, b := range backs {
			bi := -1
			for i, p := range l.header.Preds {
				if p == b.from {
					bi = i
				}
			}
			for _, p := range phis {
				k := wkey{phi: p}
				nv := fr.val(b.st, p.Edges[bi])
				if ws := windows[p]; len(ws) > 0 {
					cur := st0.env[p]
					if sameMemory(cur, nv) {
						for i, kind := range []string{"lo", "hi"} {
							if nv.args[i+1] != cur.args[i+1] && ws[kind] == nil {
								ws[kind] = window(p, kind)
								vars = append(vars, ws[kind])
								changed = true
							}
						}
						continue
					}
					// it does not stay within its memory after all
					var keep []*LoopVar
					for _, v := range vars {
						if v != ws["lo"] && v != ws["hi"] {
							keep = append(keep, v)
						}
					}
					vars = keep
					delete(windows, p)
					unbox[wkey{phi: p, key: "window"}] = true
					v := newVar("phi:"+phiName(p), p.Type(), entry.env[p], false, false)
					v.phi = p
					widened[k] = v
					vars = append(vars, v)
					changed = true
					continue
				}
				if w := widened[k]; w != nil {
					if w.kind == "ptr" && !nonNil(nv) && !unbox[k] {
						unbox[k] = true
						*w = *newVar(w.name, w.typ, entry.env[p], true, false)
						w.phi = p
						changed = true
					}
					continue
				}
				if cur := st0.env[p]; nv != cur && !unbox[wkey{phi: p, key: "window"}] && sameMemory(cur, nv) && b.st.heap[cur.args[0]] != st0.heap[cur.args[0]] {
					windows[p] = map[string]*LoopVar{}
					for i, kind := range []string{"lo", "hi"} {
						if nv.args[i+1] != cur.args[i+1] {
							windows[p][kind] = window(p, kind)
							vars = append(vars, windows[p][kind])
						}
					}
					changed = true
					continue
				}
				if nv != st0.env[p] {
					v := newVar("phi:"+phiName(p), p.Type(), entry.env[p], false, false)
					v.phi = p
					if v.kind == "ptr" && !nonNil(nv) {
						v = newVar("phi:"+phiName(p), p.Type(), entry.env[p], true, false)
						v.phi = p
						unbox[k] = true
					}
					widened[k] = v
					vars = append(vars, v)
					changed = true
				}
			}
			for root, c := range b.st.heap {
				if root.k == KObj {
					if _, ok := st0.heap[root]; !ok {
						continue // allocated inside the loop
					}
				}
				if root.k == KObj && root.op == "loop" && root.n == lctx {
					// a boxed loop value written in place: its content at the back edge is taken below
					continue
				}
				old, ok := st0.heap[root]
				if !ok {
					old = fr.defaultContent(root)
				}
				if old == c {
					continue
				}
				ct := contentType(root)
				var ps [][]int
				diffPaths(old, c, ct, nil, &ps)
				for _, p := range ps {
					k := wkey{key: pathKey(root, p)}
					if widened[k] != nil {
						continue
					}
					base, ok := entry.heap[root]
					if !ok {
						base = fr.defaultContent(root)
					}
					v := newVar("cell:"+k.key, pathType(ct, p), getPath(base, p, ct), false, len(p) == 0 && isStorage(root))
					v.root, v.path = root, p
					if v.kind == "ptr" {
						nv := getPath(c, p, ct)
						if !nonNil(nv) {
							v = newVar("cell:"+k.key, pathType(ct, p), getPath(base, p, ct), true, false)
							v.root, v.path = root, p
						}
					}
					widened[k] = v
					vars = append(vars, v)
					changed = true
				}
			}
		}
		if !changed {
			edges, rets = e, r
			break
		}
		in.notes = in.notes[:mark]
		in.checks = in.checks[:nchk]
	}

	rec := &LoopRec{ctx: lctx, fn: fr.fn, pos: loopPos(l), vars: vars}
	for i := nchk0; i < len(in.checks); i++ {
		in.checks[i].loops = append(in.checks[i].loops, rec)
	}
	for _, b := range backs {
		bk := &Back{facts: b.st.facts[len(st0.facts):], events: b.st.events[len(st0.events):], next: map[*LoopVar]*Term{}, st: b.st}
		bi := -1
		for i, p := range l.header.Preds {
			if p == b.from {
				bi = i
			}
		}
		for _, v := range vars {
			var nv *Term
			if v.phi != nil {
				nv = fr.val(b.st, v.phi.Edges[bi])
			} else {
				nv = getPath(in.loadRoot(b.st, v.root), v.path, contentType(v.root))
			}
			switch v.kind {
			case "slice":
				nv = in.seqOf(b.st, nv)
			case "ptr":
				nv = in.load(b.st, nv)
			case "lo":
				nv = nv.args[1]
			case "hi":
				nv = nv.args[2]
			}
			bk.next[v] = nv
		}
		// anything the loop did to outside memory or the log happened in earlier iterations too
		rec.backs = append(rec.backs, bk)
	}

	var extraW []Write
	var extraL []*Event
	var extraF []Fallible
	carried := map[*LoopVar]bool{}
	for i, b := range backs {
		for _, f := range b.st.fails[len(st0.fails):] {
			if f.loop != nil {
				extraF = append(extraF, f)
				continue
			}
			var by *LoopVar
			for _, v := range vars {
				if rec.backs[i].next[v] == f.err {
					by = v
				}
			}
			if by == nil {
				f.loop = append([]Fact{}, b.st.facts...)
				extraF = append(extraF, f)
			} else if !carried[by] {
				// looked at in the next iteration, or after the loop
				carried[by] = true
				g := f
				g.err = by.term
				extraF = append(extraF, g)
				for _, b2 := range backs {
					g.loop = append([]Fact{}, b2.st.facts...)
					extraF = append(extraF, g)
				}
			}
		}
	}
	for _, b := range backs {
		extraW = append(extraW, b.st.writes[len(st0.writes):]...)
		extraL = append(extraL, b.st.logs[len(st0.logs):]...)
	}
	fix := func(st *State, fromHeader bool) []*State {
		delta := append([]*Event{}, st.events[len(st0.events):]...)
		nf := len(st0.facts)
		ev := &Event{op: "loop", loop: rec, pos: rec.pos, fn: fr.fn, ctx: lctx, nfacts: nf}
		st.events = append(append(append([]*Event{}, st0.events...), ev), delta...)
		st.writes = append(append([]Write{}, st.writes...), extraW...)
		st.logs = append(append([]*Event{}, st.logs...), extraL...)
		st.fails = append(append([]Fallible{}, st.fails...), extraF...)
		// contents of boxed values written in place
		return fr.closeLoop(st, st0, rec, ev, fromHeader && len(delta) == 0)
	}
	var outE []edge
	for _, e := range edges {
		for _, st := range fix(e.st, e.from == l.header) {
			outE = append(outE, edge{e.from, e.to, st})
		}
	}
	for _, e := range tails {
		for _, st := range fix(e.st, false) {
			outE = append(outE, edge{e.from, e.to, st})
		}
	}
	var outR []Exit
	for _, r := range rets {
		// results live in the state's environment under a private key so that substitutions reach them
		keys := make([]*ssa.Parameter, len(r.res))
		for i, t := range r.res {
			keys[i] = &ssa.Parameter{}
			r.st.env[keys[i]] = t
		}
		for _, st := range fix(r.st, false) {
			n := r
			n.st = st
			n.res = nil
			for _, k := range keys {
				n.res = append(n.res, st.env[k])
				delete(st.env, k)
			}
			outR = append(outR, n)
		}
	}
	return outE, outR
}

// sameMemory says that two slices are windows of the same memory.
func sameMemory(a, b *Term) bool {
	return a != nil && b != nil && a.k == KSlice && b.k == KSlice && a.args[0] == b.args[0] && a.args[0].k == KObj && a.op == b.op && a.n == b.n
}

// isStorage says the object is the memory behind slices rather than a variable holding a slice.
func isStorage(root *Term) bool {
	switch root.k {
	case KGlobal, KFieldAddr, KElemAddr:
		return false
	case KObj:
		if _, isVar := root.obj.(*ssa.Alloc); isVar {
			return false
		}
	}
	if root.typ == nil {
		return false
	}
	_, ok := root.typ.Underlying().(*types.Slice)
	return ok
}

func phiName(p *ssa.Phi) string {
	return fmt.Sprintf("%s#%s.%d", p.Comment, p.Name(), p.Block().Index)
}

func loopPos(l *loop) token.Pos {
	for _, i := range l.header.Instrs {
		if i.Pos() != token.NoPos {
			return i.Pos()
		}
	}
	best := token.NoPos
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if p := i.Pos(); p != token.NoPos && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

// ---------------------------------------------------------------- what is known once a loop is left

// findSweep recognises a loop left because it has visited a whole sequence or map.
func findSweep(st, st0 *State, rec *LoopRec) *Sweep {
	if len(rec.backs) == 0 {
		return nil
	}
	inAll := func(atom *Term, val bool) bool {
		for _, b := range rec.backs {
			found := false
			for _, f := range b.facts {
				if f.atom == atom && f.val == val {
					found = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	stepOf := func(v *LoopVar) (int64, bool) {
		var step int64
		for i, b := range rec.backs {
			d, ok := diffConst(b.next[v], v.term)
			if !ok || (i > 0 && d != step) {
				return 0, false
			}
			step = d
		}
		return step, true
	}
	for _, f := range st.facts[len(st0.facts):] {
		a := f.atom
		if a.k == KRangeOk && !f.val && inAll(a, true) {
			return &Sweep{m: a.args[0], key: mk(KRangeKey, "", a.n, nil, nil, nil, a.args[0]), full: true, sized: true, ctx: rec.ctx}
		}
		if sw := shrinkSweep(f, rec, inAll); sw != nil {
			return sw
		}
		var d *Term
		desc, eqForm := false, false
		if a.k == KUn && a.op == "<0" && !f.val && inAll(a, true) {
			d = a.args[0]
		} else if a.k == KUn && a.op == "<0" && f.val && inAll(a, false) {
			d = a.args[0]
			desc = true
		} else if a.k == KBin && a.op == "==" && f.val && intLike(a.args[0]) && inAll(a, false) {
			d = a.args[0]
			eqForm = true
		} else {
			continue
		}
		for _, v := range rec.vars {
			if !v.plain() || v.typ == nil || !isInt(v.typ) {
				continue
			}
			ld := linOf(d)
			c := ld.coefs[v.term]
			dd, ddesc := d, desc
			if eqForm && c == -1 {
				dd = linMul(d, -1)
				c = 1
			}
			if !eqForm && c == -1 {
				// L - v < 0 stops it: v <= L goes on, that is v - L - 1 < 0
				dd = tAdd(linMul(d, -1), mkInt(-1))
				ddesc = !desc
				c = 1
			}
			if c != 1 {
				continue
			}
			step, ok := stepOf(v)
			if !ok {
				continue
			}
			rest := tSub(dd, v.term) // dd = v + rest
			if mentionsLoop(rest, rec.ctx) {
				continue
			}
			sw := &Sweep{ivar: v, ctx: rec.ctx}
			switch {
			case !ddesc && step == 1:
				// goes on while v+rest < 0
				sw.lo, sw.hi = v.entry, linMul(rest, -1)
				sw.end = sw.hi
			case step == -1 && (ddesc || eqForm):
				// goes on while v+rest >= 0 (for the form v+rest != 0: > 0)
				sw.desc = true
				sw.lo, sw.hi = linMul(rest, -1), tAdd(v.entry, mkInt(1))
				if eqForm {
					sw.lo = tAdd(sw.lo, mkInt(1))
				}
				sw.end = tSub(sw.lo, mkInt(1))
			default:
				continue
			}
			sw.full = true
			sw.sized = st0.eval(mkLt(sw.hi, sw.lo)) == 0
			sw.collect(rec)
			return sw
		}
	}
	return nil
}

// collect finds the elements the iterations look at.
func (sw *Sweep) collect(rec *LoopRec) {
	seen := map[*Term]bool{}
	visit := func(t *Term) {
		walk(t, func(k *Term) bool {
			if k.k == KElem && !seen[k] {
				seen[k] = true
				if seq := sw.over(k); seq != nil {
					sw.parts = append(sw.parts, sweepPart{seq, k})
				}
			}
			return true
		})
	}
	for _, b := range rec.backs {
		for _, f := range b.facts {
			visit(f.atom)
		}
		for _, v := range rec.vars {
			if n := b.next[v]; n != nil {
				visit(n)
			}
		}
		for _, e := range b.events {
			for _, x := range e.args {
				visit(x)
			}
		}
	}
}

// shrinkSweep recognises a loop that takes elements off a sequence until it is empty.
func shrinkSweep(f Fact, rec *LoopRec, inAll func(*Term, bool) bool) *Sweep {
	for _, v := range rec.vars {
		if v.kind != "slice" && !(v.typ != nil && isString(v.typ)) {
			continue
		}
		t := v.term
		n := mkLen(t)
		empty := f.atom == mkEq(n, mkInt(0)) && f.val
		more := mkLt(mkInt(0), n)
		if f.atom == more && !f.val {
			empty = true
		}
		if !empty || !inAll(f.atom, !f.val) {
			continue
		}
		front, back := true, true
		for _, b := range rec.backs {
			front = front && b.next[v] == mkSub(t, mkInt(1), n)
			back = back && b.next[v] == mkSub(t, mkInt(0), tSub(n, mkInt(1)))
		}
		if front == back {
			continue
		}
		sw := &Sweep{full: true, sized: true, desc: back, ctx: rec.ctx, ivar: v, end: tEmpty}
		at := mkInt(0)
		if back {
			at = tSub(n, mkInt(1))
		}
		sw.parts = []sweepPart{{v.entry, mkElem(t, at, nil)}}
		return sw
	}
	return nil
}

// closeLoop rewrites an exit state of a loop: closed forms for completed sweeps and case splits on flags.
func (fr *frame) closeLoop(st, st0 *State, rec *LoopRec, ev *Event, complete bool) []*State {
	sub := map[*Term]*Term{}
	if complete {
		if sw := findSweep(st, st0, rec); sw != nil {
			ev.sweep = sw
			if sw.full {
				for _, v := range rec.vars {
					if t := closedForm(v, rec, sw); t != nil {
						sub[v.term] = t
					}
				}
			}
		}
	}
	for n, v := range rec.vars {
		if sub[v.term] == nil && v.plain() {
			if t := sameAs(v, rec, n, sub); t != nil {
				sub[v.term] = t
			}
		}
	}
	states := []*State{st}
	if len(sub) > 0 {
		if !substState(st, func(t *Term) *Term { return sub[t] }) {
			return nil
		}
	}
	// flags
	for _, v := range rec.vars {
		if sub[v.term] != nil || !v.plain() || v.typ == nil {
			continue
		}
		if !flagType(v.typ) || !(v.entry.k == KConst || v.entry.k == KNil) {
			continue
		}
		var keep, set []*Back
		good := true
		for _, b := range rec.backs {
			n := b.next[v]
			if n != v.term && n != nil && holds(b.facts, mkEq(v.term, n), true) {
				n = v.term // it is given the value it has
			}
			switch {
			case n == v.term:
				keep = append(keep, b)
			case n == v.entry:
				// reset to the initial value: monotone only if nothing else is ever set
				keep = append(keep, b)
				good = good && !setElsewhere(v, rec)
			case contains(n, v.term):
				good = false
			default:
				set = append(set, b)
			}
		}
		if !good || len(set) == 0 {
			continue
		}
		var next []*State
		for _, s := range states {
			if !mentions(s, v.term, st0) {
				next = append(next, s)
				continue
			}
			// never set
			a := s.clone()
			var unset []*Back // iterations that start with the flag not set
			for _, b := range keep {
				if !holds(b.facts, mkEq(v.term, v.entry), false) {
					unset = append(unset, b)
				}
			}
			rec2 := &LoopRec{ctx: rec.ctx, fn: rec.fn, pos: rec.pos, vars: rec.vars, backs: unset}
			replaceLoopRec(a, rec, rec2)
			if substState(a, func(t *Term) *Term {
				if t == v.term {
					return v.entry
				}
				return nil
			}) {
				next = append(next, a)
			}
			// set in some iteration
			for _, b := range set {
				w := s.clone()
				ren := func(t *Term) *Term {
					switch t.k {
					case KLoop:
						if t.n == rec.ctx {
							if t == v.term {
								return v.entry
							}
							return mk(KLoop, t.op+"'", t.n, t.typ, nil, nil, t.args...)
						}
					case KRangeKey:
						return mk(KRangeKey, t.op+"'", t.n, t.typ, nil, nil, t.args...)
					case KRangeOk:
						return mk(KRangeOk, t.op+"'", t.n, t.typ, nil, nil, t.args...)
					}
					return nil
				}
				sb := newSubst(ren)
				nv := sb.do(b.next[v])
				if !substState(w, func(t *Term) *Term {
					if t == v.term {
						return nv
					}
					return nil
				}) {
					continue
				}
				ok := true
				for _, f := range b.facts {
					if !w.assume(sb.do(f.atom), f.val) {
						ok = false
						break
					}
				}
				if ok {
					next = append(next, w)
				}
			}
		}
		states = next
	}
	// counters: of the iterations, none, all or some count
	for _, v := range rec.vars {
		if sub[v.term] != nil || !v.plain() || v.typ == nil || !isInt(v.typ) || v.entry == nil {
			continue
		}
		keep, count, one, good := counts(v, rec)
		if !good {
			continue
		}
		var all *Term
		if ev.sweep != nil && one {
			if n := ev.sweep.iterations(); n != nil {
				all = tAdd(v.entry, n)
			}
		}
		var next []*State
		for _, s := range states {
			if !mentions(s, v.term, st0) {
				next = append(next, s)
				continue
			}
			only := func(val *Term, backs []*Back) {
				w := s.clone()
				replaceLoopRec(w, rec, &LoopRec{ctx: rec.ctx, fn: rec.fn, pos: rec.pos, vars: rec.vars, backs: backs})
				if substState(w, func(t *Term) *Term {
					if t == v.term {
						return val
					}
					return nil
				}) {
					next = append(next, w)
				}
			}
			only(v.entry, keep)
			if all != nil {
				only(all, count)
			}
			for _, b := range count {
				w := s.clone()
				if !w.assume(mkLt(v.entry, v.term), true) || all != nil && !w.assume(mkLt(v.term, all), true) {
					continue
				}
				sb := newSubst(func(t *Term) *Term {
					switch t.k {
					case KLoop:
						if t.n == rec.ctx {
							return mk(KLoop, t.op+"'", t.n, t.typ, nil, nil, t.args...)
						}
					case KRangeKey:
						return mk(KRangeKey, t.op+"'", t.n, t.typ, nil, nil, t.args...)
					case KRangeOk:
						return mk(KRangeOk, t.op+"'", t.n, t.typ, nil, nil, t.args...)
					}
					return nil
				})
				ok := true
				for _, f := range b.facts {
					if !w.assume(sb.do(f.atom), f.val) {
						ok = false
						break
					}
				}
				if ok {
					next = append(next, w)
				}
			}
		}
		states = next
	}
	return states
}

// setElsewhere says that some iteration gives a variable another value than it started with.
func setElsewhere(v *LoopVar, rec *LoopRec) bool {
	for _, b := range rec.backs {
		if n := b.next[v]; n != v.term && n != v.entry {
			return true
		}
	}
	return false
}

// sameAs finds what a variable of a loop always equals: another variable, or a field of one, with the same start and the same next value.
func sameAs(v *LoopVar, rec *LoopRec, n int, taken map[*Term]*Term) *Term {
	if v.entry == nil || v.typ == nil || len(rec.backs) == 0 {
		return nil
	}
	same := func(u *LoopVar, part func(t *Term) *Term) *Term {
		if part(u.entry) != v.entry {
			return nil
		}
		t := part(u.term)
		sb := newSubst(func(x *Term) *Term {
			if x == v.term {
				return t
			}
			return nil
		})
		for _, b := range rec.backs {
			if b.next[u] == nil || b.next[v] == nil || sb.do(part(b.next[u])) != sb.do(b.next[v]) {
				return nil
			}
		}
		return t
	}
	for m, u := range rec.vars {
		if u == v || taken[u.term] != nil || !u.plain() || u.entry == nil || u.typ == nil {
			continue
		}
		if m < n && types.Identical(u.typ, v.typ) {
			if t := same(u, func(t *Term) *Term { return t }); t != nil {
				return t
			}
		}
		st, ok := u.typ.Underlying().(*types.Struct)
		for i := 0; ok && i < st.NumFields(); i++ {
			if ft := st.Field(i).Type(); types.Identical(ft, v.typ) {
				if t := same(u, func(t *Term) *Term { return mkField(t, i, ft) }); t != nil {
					return t
				}
			}
		}
	}
	return nil
}

// counts says that a variable counts some of the iterations of a loop, and which.
func counts(v *LoopVar, rec *LoopRec) (keep, count []*Back, one, good bool) {
	one = true
	for _, b := range rec.backs {
		d, ok := diffConst(b.next[v], v.term)
		switch {
		case !ok || d < 0:
			return nil, nil, false, false
		case d == 0:
			keep = append(keep, b)
		default:
			count = append(count, b)
			one = one && d == 1
		}
	}
	return keep, count, one, len(keep) > 0 && len(count) > 0
}

// iterations is how often a complete sweep goes round, if that is known.
func (sw *Sweep) iterations() *Term {
	switch {
	case !sw.sized:
		return nil
	case sw.m != nil:
		return mkLen(sw.m)
	case sw.lo != nil && sw.hi != nil:
		return tSub(sw.hi, sw.lo)
	case len(sw.parts) == 1:
		return mkLen(sw.parts[0].seq)
	}
	return nil
}

func flagType(t types.Type) bool {
	if isBool(t) {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

func replaceLoopRec(s *State, old, new *LoopRec) {
	for i, e := range s.events {
		if e.loop == old {
			n := *e
			n.loop = new
			evs := append([]*Event{}, s.events...)
			evs[i] = &n
			s.events = evs
			return
		}
	}
}

func mentions(s *State, v *Term, st0 *State) bool {
	for _, t := range s.env {
		if contains(t, v) {
			return true
		}
	}
	for _, t := range s.heap {
		if contains(t, v) {
			return true
		}
	}
	for _, f := range s.facts[min(len(st0.facts), len(s.facts)):] {
		if contains(f.atom, v) {
			return true
		}
	}
	return false
}

// substState rewrites every term of a state; false when a fact becomes contradictory.
func substState(s *State, f func(*Term) *Term) bool {
	sb := newSubst(f)
	for k, t := range s.env {
		s.env[k] = sb.do(t)
	}
	for k, t := range s.heap {
		s.heap[k] = sb.do(t)
	}
	facts := s.facts
	nf := make([]Fact, 0, len(facts))
	for _, x := range facts {
		a := sb.do(x.atom)
		v := x.val
		for a.k == KUn && a.op == "!" {
			a, v = a.args[0], !v
		}
		if a == tTrue || a == tFalse {
			if (a == tTrue) != v {
				return false
			}
			// keep positions stable for events that count facts
			nf = append(nf, Fact{tTrue, true})
			continue
		}
		nf = append(nf, Fact{a, v})
	}
	s.facts = nf
	fs := make([]Fallible, len(s.fails))
	for i, x := range s.fails {
		x.err = sb.do(x.err)
		fs[i] = x
	}
	s.fails = fs
	return true
}

func closedForm(v *LoopVar, rec *LoopRec, sw *Sweep) *Term {
	if v == sw.ivar {
		if !sw.sized {
			return nil
		}
		return sw.end
	}
	// every element must run through the same sequence
	var keysSeq *Term
	if sw.m != nil {
		keysSeq = app("keys", nil, sw.m)
	}
	elem := func(k *Term) bool {
		if sw.m != nil {
			return k.k == KRangeKey && k.op == "" && k.n == sw.key.n
		}
		o := sw.over(k)
		if o == nil || keysSeq != nil && keysSeq != o {
			return false
		}
		keysSeq = o
		return true
	}
	x := v.term
	inv := func(t *Term) bool {
		return !anyTerm(t, func(y *Term) bool {
			return (y.k == KLoop && y.n == rec.ctx) || (y.k == KRangeKey && sw.key != nil && y.n == sw.key.n)
		})
	}
	// all iterations leave it alone
	factHas := func(b *Back, atom *Term, val bool) bool {
		for _, f := range b.facts {
			if f.atom == atom && f.val == val {
				return true
			}
		}
		return false
	}
	kind := ""
	var val *Term
	var elt *Term
	for _, b := range rec.backs {
		n := b.next[v]
		var k string
		var vv, el *Term
		switch {
		case n == x:
			k = "same"
			// unchanged because the key was already in (out of) the map
			for _, f := range b.facts {
				if f.atom.k == KLookupOk && f.atom.args[0] == x && elem(f.atom.args[1]) {
					if f.val {
						k = "in"
					} else {
						k = "out"
					}
				}
			}
		case n.k == KMSet && n.args[0] == x && elem(n.args[1]) && inv(n.args[2]):
			k, vv = "mset", n.args[2]
		case n.k == KMSet && n.args[0] == x && elem(n.args[1]):
			// value depends on the element
			k, vv = "mset", app("valueOf", nil, n.args[2])
			if sw.m != nil && n.args[2].k == KLookup && n.args[2].args[0] == sw.m && elem(n.args[2].args[1]) {
				vv = app("copied", nil, sw.m)
			}
		case n.k == KMDel && n.args[0] == x && elem(n.args[1]):
			k = "mdel"
		case n.k == KConcat && len(n.args) >= 2 && n.args[0] == x:
			k, el = "append", mkConcat(n.args[1:]...)
		case n.k == KApp && n.op == "buffer" && n.args[0].k == KConcat && len(n.args[0].args) >= 2 && n.args[0].args[0] == bufSeq(x):
			k, el = "append", mkConcat(n.args[0].args[1:]...)
		case n.k == KUpd && n.args[0] == x && sw.m == nil && sw.lo != nil && !sw.desc && n.args[1] == tSub(sw.ivar.term, sw.lo):
			k, el = "upd", n.args[2]
		case n.k == KBin && n.op == "|" && (n.args[0] == x || n.args[1] == x):
			o := n.args[0]
			if o == x {
				o = n.args[1]
			}
			k, el = "or", o
		default:
			return nil
		}
		_ = factHas
		if k == "in" {
			if kind == "" || kind == "mset" || kind == "in" {
				if kind == "" {
					kind = "in"
				}
				continue
			}
			return nil
		}
		if k == "out" {
			if kind == "" || kind == "mdel" || kind == "out" {
				if kind == "" {
					kind = "out"
				}
				continue
			}
			return nil
		}
		if kind == "in" && k == "mset" || kind == "out" && k == "mdel" {
			kind = ""
		}
		if kind == "mset" && k == "mset" && val != vv && val != nil && vv != nil {
			// different paths store different values under the same key
			val = app("anyOf", nil, val, vv)
			continue
		}
		if kind != "" && (kind != k || val != vv || elt != el) {
			return nil
		}
		kind, val, elt = k, vv, el
	}
	switch kind {
	case "same", "in", "out":
		return v.entry
	case "mset":
		return mkMSetAll(v.entry, keysSeq, val)
	case "mdel":
		return mkMDelAll(v.entry, keysSeq)
	case "append":
		if sw.desc || !sw.sized {
			return nil
		}
		if v.typ != nil && bufferType(v.typ) {
			if elem(elt) {
				return app("buffer", v.typ, mkConcat(bufSeq(v.entry), app("flat", nil, keysSeq)))
			}
			return nil
		}
		if elt.k == KLit && len(elt.args) == 1 && elem(elt.args[0]) {
			return mkConcat(v.entry, keysSeq)
		}
		over := keysSeq
		if over == nil {
			if len(sw.parts) > 0 {
				over = sw.parts[0].seq
			} else {
				over = app("upto", nil, tSub(sw.hi, sw.lo))
			}
		}
		return mkConcat(v.entry, app("collect", v.typ, over, elt))
	case "upd":
		if !sw.sized {
			return nil
		}
		n := tSub(sw.hi, sw.lo)
		if elt.k == KElem && inv(elt.args[0]) {
			if src := sw.over(elt); src != nil {
				if r := splice(v.entry, mkInt(0), src); r != nil {
					return r
				}
			}
		}
		if z, ok := elt.intVal(); ok && z == 0 {
			if r := splice(v.entry, mkInt(0), mkZeros(n)); r != nil {
				return r
			}
		}
		return nil
	case "or":
		if elem(elt) {
			return app("orAll", v.typ, v.entry, keysSeq)
		}
		return nil
	}
	return nil
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (fr *frame) freshSeq(s *State, _ *frame, at interface{}, tag string, seq *Term, typ types.Type) *Term {
	return fr.in.freshSeq(s, fr, at, tag, seq, typ)
}
