package main

import (
	"go/types"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- bit reasoning about scopes

// eval64 evaluates a bitwise expression over x when x has the value v.
func eval64(t, x *Term, v uint64) (uint64, bool) {
	if t == x {
		return v, true
	}
	switch t.k {
	case KConst:
		if i, ok := t.intVal(); ok {
			return uint64(i), true
		}
	case KConv:
		return eval64(t.args[0], x, v)
	case KBin:
		a, ok := eval64(t.args[0], x, v)
		if !ok {
			return 0, false
		}
		b, ok := eval64(t.args[1], x, v)
		if !ok {
			return 0, false
		}
		switch t.op {
		case "&":
			return a & b, true
		case "|":
			return a | b, true
		case "^":
			return a ^ b, true
		case "&^":
			return a &^ b, true
		case "<<":
			return a << b, true
		case ">>":
			return a >> b, true
		}
	case KUn:
		if t.op == "^" {
			a, ok := eval64(t.args[0], x, v)
			return ^a, ok
		}
	case KLin:
		r := uint64(int64(t.n))
		for i, s := range strings.Split(t.op, ",") {
			c, _ := strconv.ParseInt(s, 10, 64)
			a, ok := eval64(t.args[i], x, v)
			if !ok {
				return 0, false
			}
			r += uint64(c) * a
		}
		return r, true
	}
	return 0, false
}

// evalBool evaluates a boolean expression over x.
func evalBool(t, x *Term, v uint64) (bool, bool) {
	switch {
	case t == tTrue:
		return true, true
	case t == tFalse:
		return false, true
	case t.k == KUn && t.op == "!":
		b, ok := evalBool(t.args[0], x, v)
		return !b, ok
	case t.k == KBin && t.op == "==":
		a, ok := eval64(t.args[0], x, v)
		if !ok {
			return false, false
		}
		b, ok := eval64(t.args[1], x, v)
		return a == b, ok
	case t.k == KUn && t.op == "<0":
		// x < y on unsigned values is kept as x-y<0: decide the common forms
		l := linOf(t.args[0])
		var pos, neg uint64
		if l.c > 0 {
			pos = uint64(l.c)
		} else {
			neg = uint64(-l.c)
		}
		for a, c := range l.coefs {
			y, ok := eval64(a, x, v)
			if !ok {
				return false, false
			}
			if c > 0 {
				pos += uint64(c) * y
			} else {
				neg += uint64(-c) * y
			}
		}
		return pos < neg, true
	}
	return false, false
}

func bitsOf(t *Term, m *uint64) {
	walk(t, func(y *Term) bool {
		if i, ok := y.intVal(); ok && i > 0 {
			*m |= uint64(i)
		}
		return true
	})
}

// scopeFacts decides what the facts say about the scopes value x and the scope S:
// must is true when every value allowed by the facts contains S; can when some allowed value does.
func scopeFacts(facts []Fact, x *Term, S int64) (must, can bool) {
	if v, ok := x.intVal(); ok {
		has := uint64(v)&uint64(S) == uint64(S)
		return has, has
	}
	mask := uint64(S)
	var use []Fact
	for _, f := range facts {
		if !contains(f.atom, x) {
			continue
		}
		if _, ok := evalBool(f.atom, x, 0); ok {
			use = append(use, f)
			bitsOf(f.atom, &mask)
		}
	}
	mask |= 1 << 40
	var bits []uint64
	for i := 0; i < 64; i++ {
		if mask>>uint(i)&1 == 1 {
			bits = append(bits, 1<<uint(i))
		}
	}
	if len(bits) > 14 {
		return false, true
	}
	must, can = true, false
	any := false
	for n := 0; n < 1<<uint(len(bits)); n++ {
		var v uint64
		for i, b := range bits {
			if n>>uint(i)&1 == 1 {
				v |= b
			}
		}
		ok := true
		for _, f := range use {
			if r, _ := evalBool(f.atom, x, v); r != f.val {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		any = true
		if v&uint64(S) == uint64(S) {
			can = true
		} else {
			must = false
		}
	}
	if !any {
		must = true
	}
	return must, can
}

// ---------------------------------------------------------------- sets of map keys

// keyset is a set of keys described by single keys, sequences of keys, and maps whose keys it has.
type keyset struct {
	one  map[*Term]bool // single keys
	seqs map[*Term]bool // every element of the sequence
	maps map[*Term]bool // every key of the map
	// removed afterwards
	del  map[*Term]bool
	dels map[*Term]bool
	ok   bool
}

func keysOf(m *Term) keyset {
	k := keyset{one: map[*Term]bool{}, seqs: map[*Term]bool{}, maps: map[*Term]bool{}, del: map[*Term]bool{}, dels: map[*Term]bool{}, ok: true}
	var add func(m *Term)
	addSeq := func(s *Term) {
		if s.k == KApp && s.op == "keys" {
			add(s.args[0])
			return
		}
		k.seqs[s] = true
	}
	add = func(m *Term) {
		switch m.k {
		case KMEmpty, KNil:
		case KMSet:
			add(m.args[0])
			if len(k.del) > 0 || len(k.dels) > 0 {
				if k.del[m.args[1]] {
					delete(k.del, m.args[1])
				} else {
					k.ok = k.ok && len(k.dels) == 0
				}
			}
			k.one[m.args[1]] = true
		case KMSetAll:
			add(m.args[0])
			if len(k.del) > 0 || len(k.dels) > 0 {
				k.ok = false
			}
			addSeq(m.args[1])
		case KMDel:
			add(m.args[0])
			if k.one[m.args[1]] {
				delete(k.one, m.args[1])
			}
			k.del[m.args[1]] = true
		case KMDelAll:
			add(m.args[0])
			k.dels[m.args[1]] = true
		default:
			k.maps[m] = true
		}
	}
	add(m)
	return k
}

func sameSet(a, b map[*Term]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for x := range a {
		if !b[x] {
			return false
		}
	}
	return true
}

func setOf(ts ...*Term) map[*Term]bool {
	m := map[*Term]bool{}
	for _, t := range ts {
		m[t] = true
	}
	return m
}

// sameKeys says two maps have the same keys by construction.
func sameKeys(a, b *Term) bool {
	if a == b {
		return true
	}
	x, y := keysOf(a), keysOf(b)
	return x.ok && y.ok && sameSet(x.one, y.one) && sameSet(x.seqs, y.seqs) && sameSet(x.maps, y.maps) && sameSet(x.del, y.del) && sameSet(x.dels, y.dels)
}

// keyIs says m's keys are exactly those of the parts given.
func keysExactly(m *Term, one, seqs, maps []*Term) bool {
	k := keysOf(m)
	// a single key that is also covered by nothing else must be listed
	return k.ok && len(k.del) == 0 && len(k.dels) == 0 && sameSet(k.one, setOf(one...)) && sameSet(k.seqs, setOf(seqs...)) && sameSet(k.maps, setOf(maps...))
}

// inMap says the facts imply that k is a key of m.
func inMap(facts []Fact, k, m *Term) bool {
	if holds(facts, mkLookupOk(m, k, constEq), true) {
		return true
	}
	for _, f := range facts {
		if !f.val {
			continue
		}
		switch {
		case f.atom.k == KLookupOk && f.atom.args[1] == k && subKeys(f.atom.args[0], m):
			return true
		case f.atom.k == KRangeOk && k.k == KRangeKey && k.n == f.atom.n && k.op == f.atom.op && len(k.args) > 0 && k.args[0] == f.atom.args[0] && subKeys(f.atom.args[0], m):
			return true
		}
	}
	return false
}

// notInMap says the facts imply that k is not a key of m.
func notInMap(facts []Fact, k, m *Term) bool {
	if holds(facts, mkLookupOk(m, k, constEq), false) {
		return true
	}
	for _, f := range facts {
		if !f.val && f.atom.k == KLookupOk && f.atom.args[1] == k && subKeys(m, f.atom.args[0]) {
			return true
		}
	}
	return false
}

// subKeys says every key of a is a key of b.
func subKeys(a, b *Term) bool {
	if a == b {
		return true
	}
	x, y := keysOf(a), keysOf(b)
	if !x.ok || !y.ok || len(y.del) > 0 || len(y.dels) > 0 {
		return false
	}
	for t := range x.one {
		if !y.one[t] {
			return false
		}
	}
	for t := range x.seqs {
		if !y.seqs[t] {
			return false
		}
	}
	for t := range x.maps {
		if !y.maps[t] {
			return false
		}
	}
	return true
}

// knownEq says two terms are equal under the facts.
func knownEq(facts []Fact, a, b *Term) bool {
	return a == b || holds(facts, mkEq(a, b), true)
}

// ---------------------------------------------------------------- recognising operations

func isEv(t *Term, op string) bool { return t.k == KEv && t.op == op }

// resOf gives the call a term is the n-th result of.
func resOf(t *Term, n int) *Term {
	if t.k == KRes && t.n == n {
		return t.args[0]
	}
	return nil
}

// deref strips pointer snapshots and interface wrapping.
func deref(t *Term) *Term {
	for {
		switch t.k {
		case KPtrTo, KIface:
			t = t.args[0]
		default:
			return t
		}
	}
}

func errType() types.Type { return types.Universe.Lookup("error").Type() }

// errOf is the error result of an operation, or nil.
func errOf(e *Event) *Term {
	switch e.op {
	case "io.Put", "io.Update", "io.Delete", "bolt.Put", "bolt.Delete", "bolt.Commit":
		return res(0, errType(), e.term)
	case "crypto.Decrypt":
		return e.term.args[0]
	case "io.Get", "id.GetIdentity", "key.GetKeys", "crypto.Tag", "crypto.Wrap", "crypto.Unwrap", "crypto.GetBytes",
		"aead.Encrypt", "aead.Decrypt", "crypto.NewAESCryptor", "crypto.NewKMAC256Tagger", "crypto.NewKWP", "uuid.NewV4", "uuid.NewV1", "uuid.NewV6", "uuid.NewV7", "bolt.Open",
		"crypto/rand.Read", "io.ReadFull":
		return res(1, errType(), e.term)
	case "crypto.Encrypt", "crypto.GeneratePassword":
		return res(2, errType(), e.term)
	}
	return nil
}

// decryptedBy is the content an authenticated decryption yields.
func decryptedBy(e *Event, t types.Type) *Term {
	return app("decrypted", t, e.args[0], e.args[2], e.args[3], e.args[4])
}

// targetType is the type a decryption decodes into.
func targetType(e *Event) types.Type {
	x := e.args[1]
	for {
		switch x.k {
		case KIface:
			if pt := pointee(x.typ); pt != nil {
				return pt
			}
			x = x.args[0]
			continue
		}
		break
	}
	return nil
}

// plainOf is the value handed to an encryption, without interface and pointer.
func plainOf(e *Event) *Term { return deref(e.args[1]) }

// aadOf is the associated data of an encryption or decryption, without the interface.
func aadOf(e *Event) *Term {
	x := e.args[2]
	if x.k == KIface {
		return x.args[0]
	}
	return x
}

// storedField recognises a field of a record read from storage: the Get event's term, and the field's name.
func storedField(t *Term) (get *Term, name string) {
	if t.k != KField {
		return nil, ""
	}
	d := t.args[0]
	if d.k != KApp || d.op != "json.Decode" || d.typ == nil {
		return nil, ""
	}
	g := resOf(d.args[0], 0)
	if g == nil || !isEv(g, "io.Get") {
		return nil, ""
	}
	st := structOf(d.typ)
	if st == nil || t.n >= st.NumFields() {
		return nil, ""
	}
	return g, st.Field(t.n).Name()
}
