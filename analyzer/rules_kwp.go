package main

import (
	"go/types"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- key wrapping

// evalArith evaluates an integer expression whose atoms have known values.
func evalArith(t *Term, env map[*Term]int64) (int64, bool) {
	if v, ok := env[t]; ok {
		return v, true
	}
	switch t.k {
	case KConst:
		return t.intVal()
	case KConv:
		v, ok := evalArith(t.args[0], env)
		if !ok || t.typ == nil {
			return 0, false
		}
		b, isB := t.typ.Underlying().(*types.Basic)
		if !isB {
			return 0, false
		}
		switch b.Kind() {
		case types.Uint8:
			v = int64(uint8(v))
		case types.Uint16:
			v = int64(uint16(v))
		case types.Uint32:
			v = int64(uint32(v))
		case types.Int32:
			v = int64(int32(v))
		case types.Int16:
			v = int64(int16(v))
		case types.Int8:
			v = int64(int8(v))
		}
		return v, true
	case KLin:
		r := int64(t.n)
		for i, s := range strings.Split(t.op, ",") {
			c, _ := strconv.ParseInt(s, 10, 64)
			a, ok := evalArith(t.args[i], env)
			if !ok {
				return 0, false
			}
			r += c * a
		}
		return r, true
	case KUn:
		if t.op == "-" {
			a, ok := evalArith(t.args[0], env)
			return -a, ok
		}
		if t.op == "^" {
			a, ok := evalArith(t.args[0], env)
			return ^a, ok
		}
	case KBin:
		a, ok1 := evalArith(t.args[0], env)
		b, ok2 := evalArith(t.args[1], env)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.op {
		case "%":
			if b == 0 {
				return 0, false
			}
			return a % b, true
		case "/":
			if b == 0 {
				return 0, false
			}
			return a / b, true
		case "&":
			return a & b, true
		case "|":
			return a | b, true
		case "^":
			return a ^ b, true
		case "&^":
			return a &^ b, true
		case "<<":
			return a << uint(b), true
		case ">>":
			return a >> uint(b), true
		case "*":
			return a * b, true
		}
	}
	return 0, false
}

func evalCond(t *Term, env map[*Term]int64) (bool, bool) {
	switch {
	case t == tTrue:
		return true, true
	case t == tFalse:
		return false, true
	case t.k == KUn && t.op == "!":
		v, ok := evalCond(t.args[0], env)
		return !v, ok
	case t.k == KUn && t.op == "<0":
		v, ok := evalArith(t.args[0], env)
		return v < 0, ok
	case t.k == KBin && t.op == "==":
		a, ok1 := evalArith(t.args[0], env)
		b, ok2 := evalArith(t.args[1], env)
		return a == b, ok1 && ok2
	}
	return false, false
}

// allowed says the arithmetic facts admit the values.
func allowed(facts []Fact, env map[*Term]int64) bool {
	for _, f := range facts {
		if v, ok := evalCond(f.atom, env); ok && v != f.val {
			return false
		}
	}
	return true
}

// decidable keeps the facts that only depend on the given atoms.
func decidable(facts []Fact, env map[*Term]int64) []Fact {
	var out []Fact
	for _, f := range facts {
		if _, ok := evalCond(f.atom, env); ok && f.atom != tTrue && f.atom != tFalse {
			out = append(out, f)
		}
	}
	return out
}

// ivPrefixKnown says the facts fix the first four bytes of the sequence to the constant prefix of the standard.
func ivPrefixFact(facts []Fact, u *Term) (yes, no bool) {
	head := mkSub(u, mkInt(0), mkInt(4))
	eq := mkEq(app("frombe32", types.Typ[types.Uint32], head), mkInt(0xA65959A6))
	if holds(facts, eq, true) {
		return true, false
	}
	if holds(facts, eq, false) {
		return false, true
	}
	n := 0
	for i, b := range []int64{0xA6, 0x59, 0x59, 0xA6} {
		e := mkEq(mkElem(u, mkInt(int64(i)), types.Typ[types.Byte]), mkInt(b))
		if holds(facts, e, true) {
			n++
		}
		if holds(facts, e, false) {
			return false, true
		}
	}
	if n == 4 {
		return true, false
	}
	lit := mkLit(mkInt(0xA6), mkInt(0x59), mkInt(0x59), mkInt(0xA6))
	for _, f := range facts {
		a, b, is := equalTo(f.atom, f.val)
		if a == nil {
			continue
		}
		if a == head && b == lit || b == head && a == lit {
			return is, !is
		}
	}
	return false, false
}

// zeroElem says the atom with the value states that the element of u at idx is zero.
func zeroElem(f Fact, u *Term) (idx *Term, zero bool) {
	a := f.atom
	if a.k != KBin || a.op != "==" {
		return nil, false
	}
	for i := 0; i < 2; i++ {
		x, y := a.args[i], a.args[1-i]
		if v, ok := y.intVal(); ok && v == 0 && x.k == KElem && x.args[0] == u {
			return x.args[1], f.val
		}
	}
	return nil, false
}

func isZeroInt(t *Term) bool {
	v, ok := t.intVal()
	return ok && v == 0
}

// orZero says the atom with the value states that the bytes of a sequence or-ed together are (not) zero.
func orZero(f Fact) (seq *Term, zero bool) {
	a := f.atom
	if a.k != KBin || a.op != "==" {
		return nil, false
	}
	for i := 0; i < 2; i++ {
		x, y := a.args[i], a.args[1-i]
		if isZeroInt(y) && x.k == KApp && x.op == "orAll" && isZeroInt(x.args[0]) {
			return x.args[1], f.val
		}
	}
	return nil, false
}

var gUnwrap = &ruleGroup{name: "unwrap-checks-integrity", min: 7,
	what: "Unwrap succeeds only when the inverted blocks start with the standard's constant, the length they carry is the one the wrapped size allows, and every padding byte is zero; it then returns exactly the bytes of that length; it refuses only when one of these or the documented size limits fails; Wrap accepts exactly 16 to 8192 bytes",
	f: func(c *Ctx, g *ruleGroup) {
		lo, hi := c.a.cint("crypto", "MinWrapSize"), c.a.cint("crypto", "MaxWrapSize")
		c.must(lo == 16 && hi == 8192, g, "size limits", c.a.fn("crypto", "NewKWP").Pos(), "the documented size limits 16 and 8192 are changed")
		size := func(n int64) int64 { return (n+7)/8*8 + 8 }
		c.each(g, profNone, "crypto", "KWP.Wrap", "NewKWP", func(r *Run, o *Outcome) {
			if o.panic {
				c.bad(g, r.name+" panics", o.pos, "%s panics", r.name)
				return
			}
			l := mkLen(r.param(0))
			var bad []int64
			for n := int64(0); n <= hi+64; n++ {
				legit := n >= lo && n <= hi
				if legit != o.ok && allowed(o.st.facts, map[*Term]int64{l: n}) && !(legit && failureKnown(o.st.facts)) {
					bad = append(bad, n)
				}
			}
			what := "accepts"
			if !o.ok {
				what = "refuses"
			}
			c.must(len(bad) == 0, g, r.name+" "+what, o.pos, "%s %s data of %v bytes", r.name, what, first(bad))
			if o.ok {
				// the length of the result
				v := mkLen(o.res[0])
				good := true
				for n := lo; n <= hi; n++ {
					x, ok := evalArith(v, map[*Term]int64{l: n})
					good = good && ok && x == size(n)
				}
				c.must(good, g, r.name+" result size", o.pos, "%s does not return 8 bytes more than the padded data", r.name)
			}
		})
		c.each(g, profNone, "crypto", "KWP.Unwrap", "NewKWP", func(r *Run, o *Outcome) {
			if o.panic {
				c.bad(g, r.name+" panics", o.pos, "%s panics", r.name)
				return
			}
			data := r.param(0)
			l := mkLen(data)
			u, n := c.unwrapped(o, data)
			if o.ok {
				if !c.must(u != nil, g, r.name+" result", o.pos, "%s does not return the bytes after the first eight, as many as the unwrapped length says", r.name) {
					return
				}
				c.must(dependsOnDecryption(o, u, data), g, r.name+" decrypts", o.pos, "%s does not return the decryption of the whole wrapped key", r.name)
				yes, _ := ivPrefixFact(o.st.facts, u)
				c.must(yes, g, r.name+" constant", o.pos, "%s succeeds without the standard's constant having been checked", r.name)
				fs := decidable(o.st.facts, map[*Term]int64{l: 40, n: 32})
				var bad []int64
				for L := int64(0); L <= size(hi)+32; L++ {
					env := map[*Term]int64{l: L}
					try := func(k int64) {
						env[n] = k
						if allowed(fs, env) && !(L%8 == 0 && L >= size(lo) && L <= size(hi) && size(k) == L) {
							bad = append(bad, L, k)
						}
					}
					for k := L - 24; k <= L+8; k++ {
						if k >= 0 {
							try(k)
						}
					}
					for _, k := range []int64{0, 1, 1 << 15, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
						try(k)
					}
				}
				c.must(len(bad) == 0, g, r.name+" length", o.pos, "%s accepts lengths that do not belong together: %v", r.name, first(bad))
				c.must(c.paddingZero(o, u, n, l), g, r.name+" padding", o.pos, "%s succeeds without every padding byte having been checked", r.name)
				return
			}
			c.must(len(o.res) == 0 || o.res[0].k == KNil || isEmptySeq(o.res[0]), g, r.name+" failure returns nothing", o.pos, "%s returns data although it failed", r.name)
			if failureKnown(o.st.facts) {
				return
			}
			// a refusal needs a cause: no well-formed lengths, another constant, or a padding byte that is not zero
			cause := false
			for _, f := range o.st.facts {
				if seq, zero := orZero(f); seq != nil && !zero && seq.k == KSub {
					x := seq.args[0]
					nn := app("frombe32", types.Typ[types.Uint32], mkSub(x, mkInt(4), mkInt(8)))
					if sameLen(seq.args[1], tAdd(nn, mkInt(8))) {
						cause = true
					}
				}
			}
			for _, x := range sequences(o) {
				if _, no := ivPrefixFact(o.st.facts, x); no {
					cause = true
				}
				for _, f := range o.st.facts {
					if i, zero := zeroElem(f, x); i != nil && !zero {
						nn := app("frombe32", types.Typ[types.Uint32], mkSub(x, mkInt(4), mkInt(8)))
						from, below := c.padIndex(o, i, nn, l)
						if from && below {
							cause = true
						}
					}
				}
			}
			if !cause {
				cause = true
				var ns []*Term
				for _, f := range o.st.facts {
					walk(f.atom, func(t *Term) bool {
						if t.k == KApp && t.op == "frombe32" {
							ns = append(ns, t)
						}
						return true
					})
				}
				for L := size(lo); L <= size(hi) && cause; L += 8 {
					for k := L - 15; k <= L-8; k++ {
						env := map[*Term]int64{l: L}
						for _, x := range ns {
							env[x] = k
						}
						if k >= lo && allowed(o.st.facts, env) {
							cause = false
						}
					}
				}
			}
			c.must(cause, g, r.name+" refusal", o.pos, "%s refuses although the constant, the length and the padding may be right", r.name)
		})
	}}

func first(xs []int64) []int64 {
	if len(xs) > 4 {
		return xs[:4]
	}
	return xs
}

// sequences are the byte sequences the facts speak about.
func sequences(o *Outcome) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, f := range o.st.facts {
		walk(f.atom, func(t *Term) bool {
			if t.k == KElem {
				add(t.args[0])
			}
			if t.k == KSub {
				add(t.args[0])
			}
			return true
		})
	}
	return out
}

// unwrapped finds the decrypted blocks and the length they carry from what is returned.
func (c *Ctx) unwrapped(o *Outcome, data *Term) (u, n *Term) {
	v := o.res[0]
	if v.k != KSub || v.args[1] != mkInt(8) {
		return nil, nil
	}
	u = v.args[0]
	n = app("frombe32", types.Typ[types.Uint32], mkSub(u, mkInt(4), mkInt(8)))
	end := v.args[2]
	ok := false
	walk(end, func(t *Term) bool {
		if t.k == KApp && t.op == "frombe32" && t.args[0] == n.args[0] {
			n = t
			ok = true
		}
		return true
	})
	if !ok {
		return nil, nil
	}
	for _, k := range []int64{0, 1, 16, 17, 4096, 8192} {
		x, good := evalArith(end, map[*Term]int64{n: k})
		if !good || x != k+8 {
			return nil, nil
		}
	}
	return u, n
}

// dependsOnDecryption says every round works on what the previous one left, starting with the data.
func dependsOnDecryption(o *Outcome, u, data *Term) bool {
	seen := map[*Term]bool{}
	dec, all := false, false
	var visit func(t *Term)
	entry := map[*Term]*LoopVar{}
	next := map[*Term][]*Term{}
	var collect func(evs []*Event)
	collect = func(evs []*Event) {
		for _, e := range evs {
			if e.loop == nil {
				continue
			}
			for _, v := range e.loop.vars {
				entry[v.term] = v
				for _, b := range e.loop.backs {
					next[v.term] = append(next[v.term], b.next[v])
				}
			}
			for _, b := range e.loop.backs {
				collect(b.events)
			}
		}
	}
	collect(o.st.events)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t == data {
			all = true
		}
		if t.k == KApp && t.op == "block.Decrypt" {
			dec = true
		}
		if v := entry[t]; v != nil {
			visit(v.entry)
			for _, x := range next[t] {
				visit(x)
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(u)
	return dec && all
}

// padIndex says whether an index used in a check is at or after the end of the key, and below the length.
func (c *Ctx) padIndex(o *Outcome, i, n, l *Term) (from, below bool) {
	start := tAdd(n, mkInt(8))
	for _, e := range o.st.events {
		if e.loop == nil {
			continue
		}
		for _, v := range e.loop.vars {
			if !contains(i, v.term) {
				continue
			}
			up := true
			for _, b := range e.loop.backs {
				d, ok := diffConst(b.next[v], v.term)
				up = up && ok && d >= 1
			}
			x := newSubst(func(t *Term) *Term {
				if t == v.term {
					return v.entry
				}
				return nil
			}).do(i)
			if up && sameLen(x, start) {
				from = true
			}
		}
	}
	below = holds(o.st.facts, mkLt(i, l), true)
	for _, e := range o.st.events {
		if e.sweep != nil && e.sweep.ivar != nil && contains(i, e.sweep.ivar.term) {
			below = true
		}
	}
	if d, ok := diffConst(i, start); ok && d >= 0 {
		from = true
	}
	return from, below || from
}

// sameLen compares expressions up to the conversion of the 32-bit length to an int.
func sameLen(a, b *Term) bool {
	strip := func(t *Term) *Term {
		return newSubst(func(x *Term) *Term {
			if x.k == KConv && x.args[0].k == KApp && x.args[0].op == "frombe32" {
				return x.args[0]
			}
			return nil
		}).do(t)
	}
	return a == b || strip(a) == strip(b)
}

// paddingZero says a loop or comparison covered every byte from the end of the key to the end of the blocks.
func (c *Ctx) paddingZero(o *Outcome, u, n, l *Term) bool {
	start := tAdd(n, mkInt(8))
	rest := mkSub(u, start, mkLen(u))
	for _, f := range o.st.facts {
		a, b, is := equalTo(f.atom, f.val)
		if a == nil || !is {
			continue
		}
		for i := 0; i < 2; i++ {
			if b.k == KZeros && a.k == KSub && a.args[0] == u && sameLen(a.args[1], start) && sameLen(a.args[2], mkLen(u)) {
				return true
			}
			a, b = b, a
		}
	}
	region := func(seq *Term) bool {
		return seq.k == KSub && seq.args[0] == u && sameLen(seq.args[1], start) && sameLen(seq.args[2], mkLen(u)) || seq == rest
	}
	for _, f := range o.st.facts {
		// all bytes or-ed together are zero
		if seq, zero := orZero(f); seq != nil && zero && region(seq) {
			return true
		}
	}
	for _, e := range o.st.events {
		if e.loop == nil || e.sweep == nil || len(e.loop.backs) == 0 {
			continue
		}
		for _, p := range e.sweep.parts {
			if !region(p.seq) {
				continue
			}
			all := true
			for _, b := range e.loop.backs {
				found := false
				for _, f := range b.facts {
					if f.val && (f.atom == mkEq(p.elt, mkInt(0)) || f.atom.k == KBin && f.atom.op == "==" && f.atom.args[0] == p.elt && isZeroInt(f.atom.args[1])) {
						found = true
					}
				}
				all = all && found
			}
			if all {
				return true
			}
		}
	}
	for _, e := range o.st.events {
		if e.loop == nil || len(e.loop.backs) == 0 {
			continue
		}
		for _, v := range e.loop.vars {
			// every round checks one element and moves by one
			up, down := true, true
			var idx *Term
			good := true
			for _, b := range e.loop.backs {
				d, ok := diffConst(b.next[v], v.term)
				up = up && ok && d == 1
				down = down && ok && d == -1
				found := false
				for _, f := range b.facts {
					for _, seq := range []*Term{u, rest} {
						i, zero := zeroElem(f, seq)
						if i == nil || !zero || !contains(i, v.term) {
							continue
						}
						if seq == rest && rest != u {
							i = tAdd(i, start)
						}
						if idx == nil || idx == i {
							idx = i
							found = true
						}
					}
				}
				good = good && found
			}
			if !good || idx == nil || !up && !down {
				continue
			}
			if d, ok := diffConst(idx, v.term); !ok && !sameLen(tSub(idx, v.term), start) {
				_ = d
				continue
			}
			at := func(x *Term) *Term {
				return newSubst(func(t *Term) *Term {
					if t == v.term {
						return x
					}
					return nil
				}).do(idx)
			}
			// facts when the loop is left
			if up {
				if !sameLen(at(v.entry), start) {
					continue
				}
				if e.sweep != nil && e.sweep.ivar == v && e.sweep.end != nil && sameLen(at(e.sweep.end), mkLen(u)) {
					return true
				}
				if holds(o.st.facts, mkLt(idx, l), false) || holds(o.st.facts, mkLt(idx, mkLen(u)), false) {
					return true
				}
			} else {
				if !sameLen(at(v.entry), tSub(mkLen(u), mkInt(1))) {
					continue
				}
				if holds(o.st.facts, mkLt(idx, start), true) || e.sweep != nil && e.sweep.ivar == v && e.sweep.end != nil && sameLen(at(e.sweep.end), tSub(start, mkInt(1))) {
					return true
				}
			}
		}
	}
	return false
}
