package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Fact is an atom known to be true or false on a path.
type Fact struct {
	atom *Term
	val  bool
}

// Event is something a path does that is visible outside: a call that is not looked into.
type Event struct {
	op     string
	args   []*Term // snapshots taken when the event happens
	raw    []*Term // the argument values themselves
	term   *Term   // identity of the call (KEv) or its pure form (KApp)
	pos    token.Pos
	fn     *ssa.Function
	ctx    int
	nfacts int // how many facts were known when it happened
	loop   *LoopRec
	// for loops: the sweep that is complete when the loop is left here
	sweep *Sweep
}

// Write is a change made to memory which the analysed function did not allocate.
type Write struct {
	root *Term
	how  string
	val  *Term
	pos  token.Pos
	fn   *ssa.Function
}

// LoopVar is a value carried around a loop.
type LoopVar struct {
	name  string
	phi   *ssa.Phi
	root  *Term
	path  []int
	typ   types.Type
	term  *Term // KLoop
	box   *Term // the object boxing a slice/pointer, or nil
	kind  string
	entry *Term // entry value (content when boxed)
}

// Back is one way to go around a loop once.
type Back struct {
	facts  []Fact
	events []*Event
	next   map[*LoopVar]*Term
	st     *State
}

// LoopRec describes a loop that was summarised.
type LoopRec struct {
	ctx   int
	fn    *ssa.Function
	pos   token.Pos
	vars  []*LoopVar
	backs []*Back
}

// Sweep says that a loop visits every element of some sequences, or every key of a map.
type Sweep struct {
	m     *Term // the map
	key   *Term
	full  bool // closed forms may be used
	sized bool // lo <= hi is certain
	desc  bool // from the last element to the first
	ivar  *LoopVar
	lo    *Term // ivar takes every value from lo up to hi-1
	hi    *Term
	end   *Term // value of the loop variable after the sweep
	ctx   int
	// the sequences swept, and the element of each that an iteration visits
	parts []sweepPart
}

type sweepPart struct{ seq, elt *Term }

// over is the sequence that the element k runs through, or nil.
func (sw *Sweep) over(k *Term) *Term {
	for _, p := range sw.parts {
		if p.elt == k {
			return p.seq
		}
	}
	if sw.ivar == nil || sw.lo == nil || k.k != KElem {
		return nil
	}
	off := tSub(k.args[1], sw.ivar.term)
	if mentionsLoop(off, sw.ctx) || mentionsLoop(k.args[0], sw.ctx) {
		return nil
	}
	return mkSub(k.args[0], tAdd(sw.lo, off), tAdd(sw.hi, off))
}

// at is the element of seq an iteration visits, when the loop visits all of it.
func (sw *Sweep) at(seq *Term) *Term {
	for _, p := range sw.parts {
		if p.seq == seq {
			return p.elt
		}
	}
	if sw.ivar == nil || sw.lo == nil || seq == nil || tSub(sw.hi, sw.lo) != mkLen(seq) {
		return nil
	}
	return mkElem(seq, tSub(sw.ivar.term, sw.lo), nil)
}

func mentionsLoop(t *Term, ctx int) bool {
	return anyTerm(t, func(y *Term) bool { return y.k == KLoop && y.n == ctx })
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
}

// State is what is known at a point of a path.
type State struct {
	env    map[ssa.Value]*Term
	heap   map[*Term]*Term
	shared map[*Term][]*Term
	facts  []Fact
	events []*Event
	logs   []*Event
	writes []Write
	defers []deferred
	pre    map[*Term]bool // objects that existed before the analysed call (never changed)
	fails  []Fallible
}

// Fallible is an operation that answered with an error value.
type Fallible struct {
	err  *Term
	op   string
	ev   *Event // the operation's event, if it has one
	pos  token.Pos
	fn   *ssa.Function
	loop []Fact // what was known at the end of the iteration, when it belongs to an earlier iteration of a loop
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, shared: map[*Term][]*Term{}}
}

func (s *State) clone() *State {
	n := &State{
		env:    make(map[ssa.Value]*Term, len(s.env)),
		heap:   make(map[*Term]*Term, len(s.heap)),
		shared: make(map[*Term][]*Term, len(s.shared)),
		facts:  s.facts[:len(s.facts):len(s.facts)],
		events: s.events[:len(s.events):len(s.events)],
		logs:   s.logs[:len(s.logs):len(s.logs)],
		writes: s.writes[:len(s.writes):len(s.writes)],
		defers: s.defers[:len(s.defers):len(s.defers)],
		pre:    s.pre,
		fails:  s.fails[:len(s.fails):len(s.fails)],
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.shared {
		n.shared[k] = v
	}
	return n
}

// ---------------------------------------------------------------- deciding atoms

func (s *State) lookupFact(t *Term) (bool, bool) {
	for i := len(s.facts) - 1; i >= 0; i-- {
		if s.facts[i].atom == t {
			return s.facts[i].val, true
		}
	}
	return false, false
}

// eval decides a boolean term under the facts: 1, 0 or -1.
func (s *State) eval(t *Term) int { return s.evalD(t, 4) }

func (s *State) evalD(t *Term, d int) int {
	if t == tTrue {
		return 1
	}
	if t == tFalse {
		return 0
	}
	if t.k == KUn && t.op == "!" {
		r := s.evalD(t.args[0], d)
		if r < 0 {
			return r
		}
		return 1 - r
	}
	if v, ok := s.lookupFact(t); ok {
		if v {
			return 1
		}
		return 0
	}
	if d == 0 {
		return -1
	}
	switch {
	case t.k == KUn && t.op == "<0":
		return s.evalLt(t.args[0])
	case t.k == KBin && t.op == "==" && t.args[1].k == KConst && intLike(t.args[0]) && intLike(t.args[1]):
		return s.evalIntEq(t.args[0], d)
	case t.k == KBin && t.op == "==":
		return s.evalEq(t.args[0], t.args[1], d)
	case t.k == KApp && t.op == "errors.Is":
		x, y := t.args[0], t.args[1]
		if s.evalD(mkEq(x, tNil), d-1) == 1 {
			return 0
		}
		for _, f := range s.facts {
			if f.val && f.atom.k == KBin && f.atom.op == "==" {
				var o *Term
				if f.atom.args[0] == x {
					o = f.atom.args[1]
				} else if f.atom.args[1] == x {
					o = f.atom.args[0]
				}
				if o != nil && isSentinel(o) {
					if o == y {
						return 1
					}
					return 0
				}
			}
		}
	case t.k == KLookupOk:
		m, k := t.args[0], t.args[1]
		switch m.k {
		case KMSet, KMDel:
			switch s.evalD(mkEq(m.args[1], k), d-1) {
			case 1:
				if m.k == KMSet {
					return 1
				}
				return 0
			case 0:
				return s.evalD(mkLookupOk(m.args[0], k, constEq), d-1)
			default:
				if m.k == KMSet && s.evalD(mkLookupOk(m.args[0], k, constEq), d-1) == 1 {
					return 1
				}
				if m.k == KMDel && s.evalD(mkLookupOk(m.args[0], k, constEq), d-1) == 0 {
					return 0
				}
			}
		case KMSetAll:
			if k.k == KElem && k.args[0] == m.args[1] {
				return 1
			}
			r := s.evalD(mkLookupOk(m.args[0], k, constEq), d-1)
			if r == 1 {
				return 1
			}
			if seq := m.args[1]; seq.k == KApp && seq.op == "keys" {
				x := s.evalD(mkLookupOk(seq.args[0], k, constEq), d-1)
				if x == 1 || x == 0 && r == 0 {
					return x
				}
			}
		}
		// k known equal to another key with a known answer
		for _, f := range s.facts {
			if f.atom.k == KLookupOk && f.atom.args[0] == m && f.atom.args[1] != k {
				if v, ok := s.lookupFact(mkEq(f.atom.args[1], k)); ok && v {
					if f.val {
						return 1
					}
					return 0
				}
			}
		}
	}
	return -1
}

func (s *State) evalLt(d *Term) int {
	l := linOf(d)
	for _, f := range s.facts {
		var fd *Term
		isEq := false
		if f.atom.k == KUn && f.atom.op == "<0" {
			fd = f.atom.args[0]
		} else if f.atom.k == KBin && f.atom.op == "==" && f.val && intLike(f.atom.args[0]) && intLike(f.atom.args[1]) {
			fd = f.atom.args[0]
			isEq = true
		} else {
			continue
		}
		_ = l
		if isEq {
			// fd == 0: d = d - fd (or + fd)
			for _, sgn := range []int64{1, -1} {
				x := linAdd(d, fd, sgn)
				if v, ok := x.intVal(); ok {
					if v < 0 {
						return 1
					}
					return 0
				}
				if mo, m, _, _ := boundsOf(x); mo && m >= 0 {
					return 0
				}
				if _, _, xo, mx := boundsOf(x); xo && mx < 0 {
					return 1
				}
			}
			continue
		}
		if f.val {
			// fd < 0, i.e. fd <= -1.  d = fd + r ; r <= 0 => d < 0
			r := tSub(d, fd)
			if _, _, xo, x := boundsOf(r); xo && x <= 0 {
				return 1
			}
			// d = -fd + r, -fd >= 1: r >= -1 => d >= 0
			r2 := tAdd(d, fd)
			if mo, m, _, _ := boundsOf(r2); mo && m >= -1 {
				return 0
			}
		} else {
			// fd >= 0. d = fd + r; r >= 0 => d >= 0
			r := tSub(d, fd)
			if mo, m, _, _ := boundsOf(r); mo && m >= 0 {
				return 0
			}
			// d = -fd + r ; r < 0 => d < 0
			r2 := tAdd(d, fd)
			if _, _, xo, x := boundsOf(r2); xo && x < 0 {
				return 1
			}
		}
	}
	return -1
}

func (s *State) evalIntEq(d *Term, depth int) int {
	neg := linMul(d, -1)
	a := s.evalLt(d)
	b := s.evalLt(neg)
	if a == 1 || b == 1 {
		return 0
	}
	if a == 0 && b == 0 {
		return 1
	}
	// another equality fixes it
	for _, f := range s.facts {
		if f.val && f.atom.k == KBin && f.atom.op == "==" && intLike(f.atom.args[0]) && intLike(f.atom.args[1]) {
			for _, sgn := range []int64{1, -1} {
				if v, ok := linAdd(d, f.atom.args[0], sgn).intVal(); ok {
					if v == 0 {
						return 1
					}
					return 0
				}
			}
		}
	}
	return -1
}

func (s *State) evalEq(a, b *Term, d int) int {
	if b.k == KNil {
		for _, f := range s.facts {
			if f.val && f.atom.k == KApp && f.atom.op == "errors.Is" && f.atom.args[0] == a {
				return 0
			}
			if f.val && f.atom.k == KBin && f.atom.op == "==" && f.atom.args[1].k != KNil {
				if f.atom.args[0] == a && nonNil(f.atom.args[1]) || f.atom.args[1] == a && nonNil(f.atom.args[0]) {
					return 0
				}
			}
		}
		return -1
	}
	// both sides
	for i := 0; i < 2; i++ {
		if repoSentinel(b) && elsewhere(a, b) {
			return 0
		}
		if nonNil(b) && s.evalD(mkEq(a, tNil), d-1) == 1 {
			return 0
		}
		if isSentinel(b) {
			if v, ok := s.lookupFact(app("errors.Is", types.Typ[types.Bool], a, b)); ok && !v {
				return 0
			}
		}
		for _, f := range s.facts {
			if !f.val || f.atom.k != KBin || f.atom.op != "==" {
				continue
			}
			var o *Term
			if f.atom.args[0] == a {
				o = f.atom.args[1]
			} else if f.atom.args[1] == a {
				o = f.atom.args[0]
			}
			if o == nil || o == b {
				continue
			}
			switch constEq(o, b) {
			case 1:
				return 1
			case 0:
				return 0
			}
			if v, ok := s.lookupFact(mkEq(o, b)); ok {
				if v {
					return 1
				}
				return 0
			}
		}
		a, b = b, a
	}
	return -1
}

// assume adds a fact; false when it contradicts what is known.
func (s *State) assume(t *Term, v bool) bool {
	for t.k == KUn && t.op == "!" {
		t, v = t.args[0], !v
	}
	switch s.eval(t) {
	case 1:
		return v
	case 0:
		return !v
	}
	s.facts = append(s.facts, Fact{t, v})
	return true
}

// plain says the variable holds what its term says, not memory.
func (v *LoopVar) plain() bool { return v.kind == "plain" || v.kind == "lo" || v.kind == "hi" }
