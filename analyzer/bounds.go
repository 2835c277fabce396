package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- operations that may crash

// BoundCheck is an operation that crashes unless every goal is at least zero. What it needs is kept with
// what was known there, and decided once the loops around it have been summarised.
type BoundCheck struct {
	fn    *ssa.Function
	pos   token.Pos
	goals []*Term
	facts []Fact
	loops []*LoopRec // loops that had been left, or that it is inside of
	never bool       // certain to crash
	// for a type assertion: the value and the type
	asserted *Term
	typ      types.Type
	msg      string
}

func (fr *frame) check(s *State, pos token.Pos, msg string, goals ...*Term) *BoundCheck {
	if !fr.in.hookIdx {
		return &BoundCheck{}
	}
	k := BoundCheck{fn: fr.fn, pos: pos, msg: msg, facts: s.facts[:len(s.facts):len(s.facts)]}
	for _, g := range goals {
		if v, ok := g.intVal(); ok && v >= 0 {
			continue
		}
		k.goals = append(k.goals, g)
	}
	if len(k.goals) > 0 {
		for _, e := range s.events {
			if e.loop != nil {
				k.loops = append(k.loops, e.loop)
			}
		}
	}
	fr.in.checks = append(fr.in.checks, k)
	return &fr.in.checks[len(fr.in.checks)-1]
}

// ---------------------------------------------------------------- linear bounds

// bounds decides linear inequalities from a path's facts by eliminating one quantity at a time.
type bounds struct {
	hyps []lin // each is at least zero
	seen map[*Term]bool
	diff []*Term // none of these is zero
}

func (b *bounds) add(t *Term) {
	l := linOf(t)
	if len(l.coefs) == 0 {
		return
	}
	b.hyps = append(b.hyps, l)
	for a := range l.coefs {
		b.atom(a)
	}
}

// equal says that t is zero.
func (b *bounds) equal(t *Term) {
	b.add(t)
	b.add(linMul(t, -1))
}

// atom adds what is known of a quantity from what it is.
func (b *bounds) atom(a *Term) {
	if b.seen[a] {
		return
	}
	b.seen[a] = true
	lower := func(n int64) { b.add(tAdd(a, mkInt(-n))) }
	upper := func(n int64) { b.add(linAdd(mkInt(n), a, -1)) }
	switch a.k {
	case KLen:
		lower(0)
		if r := a.args[0]; r.k == KRes && r.n == 0 && r.args[0].k == KApp && strings.HasSuffix(r.args[0].op, ".DecodeString") {
			d := r.args[0] // a text does not decode to more than its length allows
			b.add(tSub(app(strings.TrimSuffix(d.op, "DecodeString")+"DecodedLen", types.Typ[types.Int], append(append([]*Term{}, d.args[:len(d.args)-1]...), mkLen(d.args[len(d.args)-1]))...), a))
		}
		return
	case KConv:
		if len(a.args) > 0 && a.args[0].typ != nil && unsignedType(a.args[0].typ) && intSize(a.args[0].typ) < 64 {
			lower(0)
			upper(1<<uint(intSize(a.args[0].typ)) - 1)
		}
	case KApp:
		if strings.HasSuffix(a.op, ".EncodedLen") || strings.HasSuffix(a.op, ".DecodedLen") {
			lower(0)
		}
		if a.op == "uvarintLen" {
			lower(1)
			upper(10)
		}
		if a.op == "bits.Len" {
			x := a.args[0]
			if x.k == KBin && x.op == "|" && (nonZero(x.args[0]) || nonZero(x.args[1])) {
				lower(1)
			} else {
				lower(0)
			}
			w := int64(64)
			if x.typ != nil && isIntType(x.typ) {
				w = int64(intSize(x.typ))
			}
			upper(w)
		}
	case KBin:
		x := a.args[0]
		c, ok := a.args[1].intVal()
		if ok && c > 0 {
			for _, y := range sortedAtoms(linOf(x)) {
				b.atom(y)
			}
			switch a.op {
			case "%":
				upper(c - 1)
				if b.provesD(x, 3) {
					lower(0)
				} else {
					lower(1 - c)
				}
				b.equal(tSub(tSub(x, a), linMul(app("quotient", types.Typ[types.Int], x, a.args[1]), c)))
			case "/":
				if b.provesD(x, 3) {
					lower(0)
					b.add(tSub(x, linMul(a, c)))
					b.add(tSub(tAdd(linMul(a, c), mkInt(c-1)), x))
				}
			case "&":
				lower(0)
				upper(c)
			case ">>":
				if b.provesD(x, 3) {
					lower(0)
					b.add(tSub(x, a))
				}
			}
		} else if m := a.args[1]; a.op == "%" && !ok {
			for _, y := range sortedAtoms(linOf(tAdd(x, m))) {
				b.atom(y)
			}
			if b.provesD(x, 3) && b.provesD(tAdd(m, mkInt(-1)), 3) {
				lower(0)
				b.add(tSub(tSub(m, a), mkInt(1)))
			}
		}
	}
	if a.typ != nil && isIntType(a.typ) && unsignedType(a.typ) {
		lower(0)
		if sz := intSize(a.typ); sz < 64 {
			upper(1<<uint(sz) - 1)
		}
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (b *bounds) fact(f Fact) {
	switch {
	case f.atom.k == KUn && f.atom.op == "<0":
		d := f.atom.args[0]
		if f.val {
			b.add(linAdd(mkInt(-1), d, -1))
		} else {
			b.add(d)
		}
	case f.val && f.atom.k == KBin && f.atom.op == "==" && intLike(f.atom.args[0]) && intLike(f.atom.args[1]):
		b.equal(tSub(f.atom.args[0], f.atom.args[1]))
	case !f.val && f.atom.k == KBin && f.atom.op == "==" && intLike(f.atom.args[0]) && intLike(f.atom.args[1]):
		b.diff = append(b.diff, tSub(f.atom.args[0], f.atom.args[1]))
	}
}

// apart turns what is not zero, and not on one side of zero, into a bound on the other side.
func (b *bounds) apart() {
	rest := b.diff
	b.diff = nil
	for again := true; again; {
		again = false
		var open []*Term
		for _, d := range rest {
			for _, a := range sortedAtoms(linOf(d)) {
				b.atom(a)
			}
			switch {
			case b.provesD(d, 3):
				b.add(tSub(d, mkInt(1)))
				again = true
			case b.provesD(linMul(d, -1), 3):
				b.add(linAdd(mkInt(-1), d, -1))
				again = true
			default:
				open = append(open, d)
			}
		}
		rest = open
	}
	b.diff = rest
}

// loop adds the bounds of quantities that a loop only ever increases, or only ever decreases.
func (b *bounds) loop(rec *LoopRec) {
	for _, v := range rec.vars {
		cur, size := v.term, func(t *Term) *Term { return t }
		if v.kind == "slice" && v.entry != nil {
			cur, size = mkLen(v.term), mkLen
		} else if !v.plain() || v.typ == nil || !isIntType(v.typ) || v.entry == nil {
			continue
		}
		up, down := true, true
		var by int64
		for _, bk := range rec.backs {
			n := bk.next[v]
			if n == nil {
				up, down = false, false
				break
			}
			d, ok := diffConst(size(n), cur)
			if !ok {
				step := tSub(size(n), cur)
				up = up && !contains(step, cur) && (&bounds{seen: map[*Term]bool{}}).alone(step)
				down, by = false, 1
				continue
			}
			up, down = up && d >= 0, down && d <= 0
			by = gcd64(by, abs64(d))
		}
		from := size(v.entry)
		if up {
			b.add(tSub(cur, from))
		}
		if down {
			b.add(tSub(from, cur))
		}
		if (up || down) && by > 1 {
			// it changes by whole steps
			b.equal(tSub(tSub(cur, from), linMul(app("steps", types.Typ[types.Int], cur), by)))
		}
	}
}

// evalLoop decides a condition, also from the bounds that finished loops give their counters.
func (s *State) evalLoop(c *Term) int {
	if v := s.eval(c); v >= 0 {
		return v
	}
	t, no := c, false
	for t.k == KUn && t.op == "!" {
		t, no = t.args[0], !no
	}
	var d *Term
	lt := t.k == KUn && t.op == "<0"
	switch {
	case lt:
		d = t.args[0]
	case t.k == KBin && t.op == "==" && intLike(t.args[0]) && intLike(t.args[1]):
		d = tSub(t.args[0], t.args[1])
	default:
		return -1
	}
	counter := false
	for a := range linOf(d).coefs {
		counter = counter || a.k == KLoop
	}
	if !counter {
		return -1
	}
	b := &bounds{seen: map[*Term]bool{}}
	for _, e := range s.events {
		if e.loop != nil {
			b.loop(e.loop)
		}
	}
	if len(b.hyps) == 0 {
		return -1
	}
	for _, f := range s.facts {
		b.fact(f)
	}
	r := -1
	switch below := tSub(mkInt(-1), d); {
	case lt && b.proves(d):
		r = 0
	case lt && b.proves(below):
		r = 1
	case !lt && (b.proves(tSub(d, mkInt(1))) || b.proves(below)):
		r = 0
	}
	if r >= 0 && no {
		r = 1 - r
	}
	return r
}

// alone says that a sum of quantities is never negative, whatever they are.
func (b *bounds) alone(t *Term) bool {
	b.add(t)
	b.hyps = b.hyps[1:]
	return len(b.hyps) > 0 && b.provesD(t, 2)
}

// proves says that t is certainly at least zero.
func (b *bounds) proves(t *Term) bool {
	if b.provesD(t, 5) {
		return true
	}
	if len(b.diff) == 0 {
		return false
	}
	n := len(b.hyps)
	b.apart()
	return len(b.hyps) > n && b.provesD(t, 5)
}

func (b *bounds) provesD(t *Term, depth int) bool {
	l := linOf(t)
	if l.coefs == nil {
		return l.c >= 0
	}
	if depth >= 5 {
		for _, a := range sortedAtoms(l) {
			b.atom(a)
		}
	}
	budget := 4000
	return b.elim(l, depth, &budget)
}

func sortedAtoms(l lin) []*Term {
	var out []*Term
	for a, c := range l.coefs {
		if c != 0 {
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (b *bounds) elim(l lin, depth int, budget *int) bool {
	*budget--
	at := sortedAtoms(l)
	if len(at) == 0 {
		return l.c >= 0
	}
	if depth == 0 || *budget < 0 {
		return false
	}
	// subtract a positive multiple of something that is at least zero
	for _, a := range at {
		c := l.coefs[a]
		for _, h := range b.hyps {
			k := h.coefs[a]
			if k == 0 || (k > 0) != (c > 0) {
				continue
			}
			m, n := abs64(k), abs64(c)
			g := gcd64(m, n)
			m, n = m/g, n/g
			if m > 1<<20 || n > 1<<20 {
				continue
			}
			// all are whole numbers: m*l > -m is enough for l >= 0
			r := lin{c: m*l.c - n*h.c + m - 1, coefs: map[*Term]int64{}}
			for x, v := range l.coefs {
				r.coefs[x] += m * v
			}
			for x, v := range h.coefs {
				r.coefs[x] -= n * v
			}
			r.tighten()
			if b.elim(r, depth-1, budget) {
				return true
			}
		}
	}
	return false
}

// tighten divides by what the coefficients have in common: whole numbers that are at least zero stay so.
func (l *lin) tighten() {
	var g int64
	for _, c := range l.coefs {
		g = gcd64(g, abs64(c))
	}
	if g <= 1 {
		return
	}
	for a, c := range l.coefs {
		l.coefs[a] = c / g
	}
	n := l.c / g
	if l.c < 0 && l.c%g != 0 {
		n--
	}
	l.c = n
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func gcd64(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// unmet is a goal that is not certain to be met, or nil.
func (k *BoundCheck) unmet() *Term {
	if len(k.goals) == 0 {
		return nil
	}
	b := &bounds{seen: map[*Term]bool{}}
	for _, f := range k.facts {
		b.fact(f)
	}
	for _, r := range k.loops {
		b.loop(r)
	}
	for _, g := range k.goals {
		if !b.proves(g) && !b.deeper(g) {
			return g
		}
	}
	return nil
}

// deeper first uses up the equalities, so that what is known of remainders and whole steps sharpens the inequalities.
func (b *bounds) deeper(t *Term) bool {
	goal := linOf(t)
	hyps := append([]lin{}, b.hyps...)
	for round := 0; round < 40; round++ {
		e, at := b.unitEquality(hyps)
		if at == nil {
			break
		}
		subst := func(l lin) lin {
			// l + k*e has no at
			k := -l.coefs[at] * e.coefs[at]
			if k == 0 {
				return l
			}
			r := lin{c: l.c + k*e.c, coefs: map[*Term]int64{}}
			for x, v := range l.coefs {
				r.coefs[x] += v
			}
			for x, v := range e.coefs {
				r.coefs[x] += k * v
			}
			delete(r.coefs, at)
			return r
		}
		goal = subst(goal)
		var next []lin
		seen := map[string]bool{}
		for _, h := range hyps {
			h = subst(h)
			n := lin{c: h.c, coefs: map[*Term]int64{}}
			for x, v := range h.coefs {
				if v != 0 {
					n.coefs[x] = v
				}
			}
			if len(n.coefs) == 0 {
				continue
			}
			n.tighten()
			if k := n.term().key(); !seen[k] {
				seen[k] = true
				next = append(next, n)
			}
		}
		hyps = next
	}
	goal.tighten()
	d := &bounds{hyps: hyps, seen: b.seen}
	budget := 30000
	return d.elim(goal, 6, &budget)
}

// unitEquality finds an equality among the inequalities that can be solved for one quantity.
func (b *bounds) unitEquality(hyps []lin) (lin, *Term) {
	have := map[string]bool{}
	for _, h := range hyps {
		if len(h.coefs) > 0 {
			have[h.term().key()] = true
		}
	}
	for _, h := range hyps {
		if len(sortedAtoms(h)) == 0 || !have[linMul(h.term(), -1).key()] {
			continue
		}
		for _, a := range sortedAtoms(h) {
			if c := h.coefs[a]; c == 1 || c == -1 {
				return h, a
			}
		}
	}
	return lin{}, nil
}

// key tells terms apart.
func (t *Term) key() string { return strconv.Itoa(t.id) }

func nonZero(t *Term) bool {
	v, ok := t.intVal()
	return ok && v != 0
}
