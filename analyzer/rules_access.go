package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// d1op describes an operation of the main API that takes a token.
type d1op struct {
	name  string
	scope string
	obj   bool // acts on an existing object (the object ID follows the token)
}

var d1ops = []d1op{
	{"D1.Encrypt", "ScopeEncrypt", false},
	{"D1.Decrypt", "ScopeDecrypt", true},
	{"D1.Update", "ScopeUpdate", true},
	{"D1.Delete", "ScopeDelete", true},
	{"D1.GetAccessGroups", "ScopeGetAccessGroups", true},
	{"D1.AuthorizeIdentity", "ScopeGetAccessGroups", true},
	{"D1.AddGroupsToAccess", "ScopeModifyAccessGroups", true},
	{"D1.RemoveGroupsFromAccess", "ScopeModifyAccessGroups", true},
}

// protectedOp says an operation touches stored or encrypted data.
func protectedOp(e *Event) bool {
	switch e.op {
	case "io.Put", "io.Get", "io.Update", "io.Delete", "crypto.Encrypt", "crypto.Decrypt", "crypto.Tag", "crypto.Compare", "crypto.GeneratePassword",
		"bolt.Put", "bolt.Get", "bolt.Delete", "dyncall":
		return true
	}
	return strings.HasPrefix(e.op, "ext:") || strings.HasPrefix(e.op, "invoke:")
}

func isIoOp(e *Event) bool { return strings.HasPrefix(e.op, "io.") && e.op != "io.ReadFull" }
func isIoWrite(e *Event) bool {
	return e.op == "io.Put" || e.op == "io.Update" || e.op == "io.Delete"
}

// authenticated finds the identities the facts show to be established from the token.
func authenticated(facts []Fact, tok *Term) []*Term {
	var out []*Term
	for _, f := range facts {
		a := f.atom
		if a.k != KBin || a.op != "==" || !f.val || a.args[1].k != KNil {
			continue
		}
		g := resOf(a.args[0], 1)
		if g == nil || !isEv(g, "id.GetIdentity") || len(g.args) < 3 || g.args[2] != tok {
			continue
		}
		if g.args[0].k != KParam {
			continue
		}
		out = append(out, g)
	}
	return out
}

// identityOf is the identity a GetIdentity call returns.
func (a *Analysis) identityOf(g *Term) *Term {
	t := a.typ("id", "Identity")
	return res(0, t, g)
}

func (a *Analysis) idField(g *Term, name string) *Term {
	return field(a.identityOf(g), a.typ("id", "Identity"), name)
}

// groupScopes are the scopes of a group of the identity.
func (a *Analysis) groupScopes(g, k *Term) *Term {
	at := a.typ("id", "AccessGroup")
	return field(mkLookup(a.idField(g, "Groups"), k, at, constEq), at, "Scopes")
}

// gate says the facts show that the token's identity holds the scope.
func (a *Analysis) gate(facts []Fact, tok *Term, S int64) bool {
	for _, g := range authenticated(facts, tok) {
		if must, _ := scopeFacts(facts, a.idField(g, "Scopes"), S); must {
			return true
		}
	}
	return false
}

// opKey names an operation on a path, independent of where it stands.
func (c *Ctx) opKey(r *Run, e *Event) string {
	k := r.name + " " + e.op
	if isIoOp(e) {
		k += " " + c.dataTypeName(e)
	}
	if e.op == "crypto.Decrypt" {
		k += " " + shortType(targetType(e))
	}
	return k
}

func (c *Ctx) dataTypeName(e *Event) string {
	if len(e.args) < 4 {
		return "?"
	}
	v, ok := e.args[3].intVal()
	if !ok {
		return "?"
	}
	for _, n := range []string{"DataTypeSealedObject", "DataTypeSealedAccess", "DataTypeSealedNode"} {
		if c.a.cint("io", n) == v {
			return strings.TrimPrefix(n, "DataTypeSealed")
		}
	}
	for _, n := range []string{"DataTypeSealedUser", "DataTypeSealedGroup"} {
		if c.a.cint("id", n) == v {
			return strings.TrimPrefix(n, "DataTypeSealed")
		}
	}
	return fmt.Sprint(v)
}

// param is the i-th parameter after the receiver.
func (r *Run) param(i int) *Term {
	n := i
	if r.fn.Signature.Recv() != nil {
		n++
	}
	if n >= len(r.par) {
		fail("%s has too few parameters", r.name)
	}
	return r.par[n]
}

// ---------------------------------------------------------------- authentication and scopes

var gAuthScope = &ruleGroup{name: "authenticated-with-scope", min: 30,
	what: "every storage or cryptographic operation, and every successful return, of an operation that takes a token lies behind a successful GetIdentity of that token and a test that the identity's own scopes contain the scope the operation requires",
	f: func(c *Ctx, g *ruleGroup) {
		for _, op := range d1ops {
			S := c.a.cint("id", op.scope)
			c.gated(g, "", op.name, "New", S)
		}
	}}

func (c *Ctx) gated(g *ruleGroup, pkg, name, ctor string, S int64) {
	c.each(g, profCrypto, pkg, name, ctor, func(r *Run, o *Outcome) {
		tok := r.param(1)
		for _, s := range o.sites() {
			if !protectedOp(s.Event) {
				continue
			}
			c.must(c.a.gate(s.facts, tok, S), g, c.opKey(r, s.Event), s.pos,
				"%s reaches %s on a path on which the caller's token is not shown to be authenticated with the required scope", r.name, s.op)
		}
		if o.ok {
			c.must(c.a.gate(o.st.facts, tok, S), g, r.name+" success", o.pos,
				"%s returns successfully on a path on which the caller's token is not shown to be authenticated with the required scope", r.name)
		}
	})
}

// every exported method of the type that takes a token and is not in the table must at least authenticate
var gAuthOther = &ruleGroup{name: "token-operations-known", min: 8,
	what: "every exported method that takes a token is one of the operations whose scope is listed",
	f: func(c *Ctx, g *ruleGroup) {
		known := map[string]bool{}
		for _, op := range d1ops {
			known[op.name] = true
		}
		for _, f := range c.a.exportedMethods("", "D1") {
			if !takesToken(f) {
				continue
			}
			n := "D1." + f.Name()
			if known[n] {
				c.ok(g, n)
				continue
			}
			// a new operation: require authentication
			c.each(g, profCrypto, "", n, "New", func(r *Run, o *Outcome) {
				for _, s := range o.sites() {
					if protectedOp(s.Event) {
						c.must(len(authenticated(s.facts, r.param(1))) > 0, g, c.opKey(r, s.Event), s.pos, "%s reaches %s without authenticating its token", r.name, s.op)
					}
				}
			})
		}
	}}

func takesToken(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() >= 2 && s.Params().At(0).Type().String() == "context.Context" && isString(s.Params().At(1).Type())
}

// exportedMethods are the declared exported methods of a type (both receivers).
func (a *Analysis) exportedMethods(pkg, typ string) []*ssa.Function {
	t := a.typ(pkg, typ)
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if m.Exported() {
			if f := a.p.prog.FuncValue(m); f != nil && len(f.Blocks) > 0 {
				out = append(out, f)
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- object access lists

// acl is an access list known to be authentic on a path.
type acl struct {
	dec    *Event
	get    *Term
	groups *Term
	dek    *Term
	access *Term
}

// acls finds the access lists decrypted successfully for the object under the facts.
func (c *Ctx) acls(o *Outcome, facts []Fact, oid *Term) []acl {
	at := c.a.typ("data", "Access")
	var out []acl
	for _, s := range o.sites() {
		if s.op != "crypto.Decrypt" || s.loops != nil {
			continue
		}
		tt := targetType(s.Event)
		if tt == nil || !types.Identical(tt, at) {
			continue
		}
		if !holds(facts, mkEq(errOf(s.Event), tNil), true) {
			continue
		}
		g1, f1 := storedField(s.args[3])
		g2, f2 := storedField(s.args[4])
		if g1 == nil || g1 != g2 || f1 != "WrappedKey" || f2 != "Ciphertext" {
			continue
		}
		if len(g1.args) < 4 || !isOID(g1.args[2], oid) || g1.args[3] != mkInt(c.a.cint("io", "DataTypeSealedAccess")) {
			continue
		}
		if !contains(aadOf(s.Event), oid) {
			continue
		}
		acc := decryptedBy(s.Event, at)
		out = append(out, acl{s.Event, g1, field(acc, at, "Groups"), field(acc, at, "WrappedDEK"), acc})
	}
	return out
}

// isOID says a byte sequence is the object ID.
func isOID(seq, oid *Term) bool { return seq == oid }

// aclKeys are the keys known to be in the access list.
func aclKeys(facts []Fact, groups *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(k *Term) {
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	for _, f := range facts {
		if !f.val {
			continue
		}
		switch f.atom.k {
		case KLookupOk:
			if subKeys(f.atom.args[0], groups) {
				add(f.atom.args[1])
			}
		case KRangeOk:
			if len(f.atom.args) > 0 && subKeys(f.atom.args[0], groups) {
				add(mk(KRangeKey, f.atom.op, f.atom.n, nil, nil, nil, f.atom.args...))
			}
		}
	}
	// range keys mentioned anywhere
	for _, f := range facts {
		walk(f.atom, func(t *Term) bool {
			if t.k == KRangeKey && inMap(facts, t, groups) {
				add(t)
			}
			return true
		})
	}
	return out
}

// entitled says the facts show the identity to be on the access list with the scope.
func (c *Ctx) entitled(o *Outcome, facts []Fact, tok, oid *Term, S int64) bool {
	for _, g := range authenticated(facts, tok) {
		id := c.a.idField(g, "ID")
		scopes := c.a.idField(g, "Scopes")
		for _, l := range c.acls(o, facts, oid) {
			keys := aclKeys(facts, l.groups)
			if inMap(facts, id, l.groups) {
				keys = append(keys, id)
			}
			for _, k := range keys {
				if knownEq(facts, k, id) {
					if must, _ := scopeFacts(facts, scopes, S); must {
						return true
					}
				}
				if must, _ := scopeFacts(facts, c.a.groupScopes(g, k), S); must {
					return true
				}
				// the group's scopes taken from a range over the groups
				for _, x := range c.groupScopeTerms(facts, g, k) {
					if must, _ := scopeFacts(facts, x, S); must {
						return true
					}
				}
			}
		}
	}
	return false
}

// groupScopeTerms finds other keys known to be equal to k.
func (c *Ctx) groupScopeTerms(facts []Fact, g, k *Term) []*Term {
	var out []*Term
	for _, f := range facts {
		if !f.val || f.atom.k != KBin || f.atom.op != "==" {
			continue
		}
		a, b := f.atom.args[0], f.atom.args[1]
		if a == k {
			out = append(out, c.a.groupScopes(g, b))
		} else if b == k {
			out = append(out, c.a.groupScopes(g, a))
		}
	}
	return out
}

var gObjectACL = &ruleGroup{name: "on-access-list-with-scope", min: 12,
	what: "in operations on an existing object, reading or decrypting the object, any change of storage, and every successful return lie behind: the object's access list was read under its ID and authenticated, and a key of that list is the identity's ID or one of its groups, whose own scopes contain the required scope",
	f: func(c *Ctx, g *ruleGroup) {
		for _, op := range d1ops {
			if !op.obj {
				continue
			}
			op := op
			S := c.a.cint("id", op.scope)
			c.each(g, profCrypto, "", op.name, "New", func(r *Run, o *Outcome) {
				tok, oid := r.param(1), r.param(2)
				for _, s := range o.sites() {
					if !c.needsACL(s.Event) {
						continue
					}
					c.must(c.entitled(o, s.facts, tok, oid, S), g, c.opKey(r, s.Event), s.pos,
						"%s reaches %s on a path on which the caller is not shown to be on the object's access list through an ID or group holding the required scope", r.name, s.op)
				}
				if o.ok {
					if op.name == "D1.Delete" && c.accessMissing(o, oid) {
						return
					}
					c.must(c.entitled(o, o.st.facts, tok, oid, S), g, r.name+" success", o.pos,
						"%s returns successfully on a path on which the caller is not shown to be on the object's access list through an ID or group holding the required scope", r.name)
				}
			})
		}
	}}

// needsACL says an operation discloses or changes a particular object.
func (c *Ctx) needsACL(e *Event) bool {
	if isIoWrite(e) {
		return true
	}
	if e.op == "io.Get" {
		return c.dataTypeName(e) != "Access"
	}
	if e.op == "crypto.Decrypt" {
		t := targetType(e)
		return t == nil || !types.Identical(t, c.a.typ("data", "Access"))
	}
	if e.op == "crypto.Encrypt" {
		return false
	}
	return protectedOp(e) && !isIoOp(e)
}

// accessMissing says the path found no access list for the object and changed nothing.
func (c *Ctx) accessMissing(o *Outcome, oid *Term) bool {
	nf := c.a.sent("io", "ErrNotFound")
	d1nf := c.a.sent("", "ErrAccessNotFound")
	found := false
	for _, s := range o.sites() {
		if isIoWrite(s.Event) {
			return false
		}
		if s.op == "io.Get" && c.dataTypeName(s.Event) == "Access" && isOID(s.args[2], oid) {
			err := errOf(s.Event)
			if errKnown(o.st.facts, err, nf) || errKnown(o.st.facts, err, d1nf) {
				found = true
			}
		}
	}
	return found
}

// errKnown says the facts show err to be (or wrap) the sentinel.
func errKnown(facts []Fact, err, s *Term) bool {
	return holds(facts, mkEq(err, s), true) || holds(facts, app("errors.Is", types.Typ[types.Bool], err, s), true)
}

// ---------------------------------------------------------------- refusals

// isErr says the returned error is the sentinel or wraps it.
func isErr(err, s *Term) bool {
	if err == s {
		return true
	}
	if err.k == KApp && err.op == "fmt.Errorf" && wraps(err) {
		for _, a := range err.args[1:] {
			if contains(a, s) {
				return true
			}
		}
	}
	return false
}

// witness is a way in which the caller could be entitled.
type witness struct {
	key   *Term
	facts []Fact
	xs    []*Term // scopes that contain S
	in    []*Term // lists that hold the key
}

// refutes says the path's facts and completed sweeps leave no room for the witness.
func refutes(facts []Fact, events []*Event, w witness, S int64, depth int) bool {
	if contradict(facts, w, S) {
		return true
	}
	if depth > 3 {
		return false
	}
	for _, e := range events {
		if e.loop == nil || e.sweep == nil || !e.sweep.full {
			continue
		}
		sw := e.sweep
		var from []*Term
		if sw.m != nil {
			st := stateOf(append(append([]Fact{}, w.facts...), facts...))
			if st.eval(mkLookupOk(sw.m, w.key, constEq)) != 1 && !inMap(w.facts, w.key, sw.m) {
				continue
			}
			from = append(from, sw.key)
		}
		for _, p := range sw.parts {
			if seqHolds(p.seq, w) {
				from = append(from, p.elt)
			}
		}
		for _, from := range from {
			all := true
			for _, b := range e.loop.backs {
				if impossibleBack(facts, e, b) {
					continue
				}
				sub := newSubst(func(t *Term) *Term {
					if t == from {
						return w.key
					}
					return nil
				})
				var fs []Fact
				for _, f := range b.st.facts {
					fs = append(fs, Fact{sub.do(f.atom), f.val})
				}
				if !refutes(fs, substEvents(b.events, sub), w, S, depth+1) && !refutesCollected(facts, events, e, b, from, w, S, depth) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// refutesCollected says the iteration puts the witness's key into a list, and what is done with that list leaves no room for it.
func refutesCollected(facts []Fact, events []*Event, e *Event, b *Back, from *Term, w witness, S int64, depth int) bool {
	for _, v := range e.loop.vars {
		if _, ok := collects(v, e.loop); !ok || appended(v, b) != from {
			continue
		}
		w2 := w
		w2.in = append(append([]*Term{}, w.in...), v.term)
		if refutes(facts, events, w2, S, depth+1) {
			return true
		}
	}
	return false
}

// seqHolds says the witness's key is an element of the sequence.
func seqHolds(seq *Term, w witness) bool {
	for _, x := range w.in {
		if x == seq {
			return true
		}
	}
	switch seq.k {
	case KLit:
		for _, a := range seq.args {
			if a == w.key {
				return true
			}
		}
	case KConcat:
		for _, a := range seq.args {
			if seqHolds(a, w) {
				return true
			}
		}
	case KApp:
		if seq.op == "keys" {
			return stateOf(w.facts).eval(mkLookupOk(seq.args[0], w.key, constEq)) == 1 || inMap(w.facts, w.key, seq.args[0])
		}
		if seq.op == "sorted" {
			return seqHolds(seq.args[0], w)
		}
	}
	return false
}

func substEvents(evs []*Event, sub *substituter) []*Event {
	var out []*Event
	for _, e := range evs {
		if e.loop == nil {
			continue
		}
		n := *e
		if e.sweep != nil {
			sw := *e.sweep
			if sw.m != nil {
				sw.m = sub.do(sw.m)
			}
			sw.parts = nil
			for _, p := range e.sweep.parts {
				sw.parts = append(sw.parts, sweepPart{sub.do(p.seq), sub.do(p.elt)})
			}
			if sw.key != nil {
				sw.key = sub.do(sw.key)
			}
			n.sweep = &sw
		}
		l := *e.loop
		l.backs = nil
		for _, b := range e.loop.backs {
			nb := *b
			st := *b.st
			st.facts = nil
			for _, f := range b.st.facts {
				st.facts = append(st.facts, Fact{sub.do(f.atom), f.val})
			}
			nb.st = &st
			nb.events = substEvents(b.events, sub)
			l.backs = append(l.backs, &nb)
		}
		n.loop = &l
		out = append(out, &n)
	}
	return out
}

// impossibleBack recognises flags: a loop variable that is false at the end and only ever becomes true.
func impossibleBack(facts []Fact, e *Event, b *Back) bool {
	for v, n := range b.next {
		var final, set *Term
		if holds(facts, v.term, false) {
			final, set = tFalse, tTrue
		} else if v.entry == tTrue && holds(facts, v.term, true) {
			final, set = tTrue, tFalse
		} else {
			continue
		}
		_ = final
		if n != set {
			continue
		}
		mono := true
		for _, x := range e.loop.backs {
			if y := x.next[v]; y != nil && y != v.term && y != set {
				mono = false
			}
		}
		if mono {
			return true
		}
	}
	return false
}

// contradict says the facts cannot all hold together with the witness.
func contradict(facts []Fact, w witness, S int64) bool {
	for _, x := range w.xs {
		if _, can := scopeFacts(facts, x, S); !can {
			return true
		}
	}
	a := newState()
	for _, f := range w.facts {
		a.facts = append(a.facts, f)
	}
	for _, f := range facts {
		if f.atom == tTrue || f.atom == tFalse {
			if (f.atom == tTrue) != f.val {
				return true
			}
			continue
		}
		if !a.assume(f.atom, f.val) {
			return true
		}
	}
	// what is known about membership is looked at again once everything is known
	for _, f := range a.facts {
		if f.atom.k == KLookupOk {
			in := mkLookupOk(f.atom.args[0], f.atom.args[1], func(x, y *Term) int { return a.eval(mkEq(x, y)) })
			if in == tTrue && !f.val || in == tFalse && f.val {
				return true
			}
		}
	}
	b := newState()
	b.facts = append(b.facts, facts...)
	for _, f := range w.facts {
		if !b.assume(f.atom, f.val) {
			return true
		}
	}
	return false
}

var gRefusals = &ruleGroup{name: "refused-only-when-unentitled", min: 16,
	what: "ErrNotAuthenticated is returned exactly when GetIdentity failed; ErrNotAuthorized only when the identity lacks the scope, or neither its ID nor any of its groups can be on the access list with that scope (judged by what the path's tests and completed loops exclude)",
	f: func(c *Ctx, g *ruleGroup) {
		na, nz := c.a.sent("", "ErrNotAuthenticated"), c.a.sent("", "ErrNotAuthorized")
		for _, op := range d1ops {
			op := op
			S := c.a.cint("id", op.scope)
			c.each(g, profCrypto, "", op.name, "New", func(r *Run, o *Outcome) {
				if o.ok || o.panic {
					return
				}
				tok := r.param(1)
				failed := c.identityFailed(o, tok)
				if failed {
					c.must(isErr(o.err, na), g, r.name+" unauthenticated", o.pos, "%s does not return ErrNotAuthenticated when the token's identity cannot be established", r.name)
					return
				}
				if isErr(o.err, na) {
					c.bad(g, r.name+" ErrNotAuthenticated", o.pos, "%s returns ErrNotAuthenticated although the identity was established", r.name)
				}
				if !isErr(o.err, nz) {
					// the scope or the list is missing, yet another error is returned?
					for _, a := range authenticated(o.st.facts, tok) {
						if _, can := scopeFacts(o.st.facts, c.a.idField(a, "Scopes"), S); !can {
							c.bad(g, r.name+" scope missing", o.pos, "%s does not return ErrNotAuthorized to an identity without the required scope", r.name)
						}
					}
					return
				}
				why := ""
				for _, a := range authenticated(o.st.facts, tok) {
					if _, can := scopeFacts(o.st.facts, c.a.idField(a, "Scopes"), S); !can {
						c.ok(g, r.name+" scope missing")
						return
					}
					if !op.obj {
						why = "the scope is present"
						continue
					}
					oid := r.param(2)
					ls := c.acls(o, o.st.facts, oid)
					if len(ls) == 0 {
						why = "the access list was not read and authenticated"
						continue
					}
					why = c.unrefuted(o, a, ls[0], S)
					if why == "" {
						c.ok(g, r.name+" not on the list")
						return
					}
				}
				c.bad(g, r.name+" refused", o.pos, "%s returns ErrNotAuthorized although the caller may be entitled: %s", r.name, why)
			})
		}
	}}

func (c *Ctx) identityFailed(o *Outcome, tok *Term) bool {
	for _, s := range o.sites() {
		if s.op == "id.GetIdentity" && s.args[2] == tok && holds(o.st.facts, mkEq(errOf(s.Event), tNil), false) {
			return true
		}
	}
	return false
}

// unrefuted explains which entitlement the path leaves possible, or returns "".
func (c *Ctx) unrefuted(o *Outcome, g *Term, l acl, S int64) string {
	id, scopes, groups := c.a.idField(g, "ID"), c.a.idField(g, "Scopes"), c.a.idField(g, "Groups")
	has := func(x *Term) Fact {
		return Fact{mkEq(mkBinRaw("&", x.typ, mkInt(S), x), mkInt(S)), true}
	}
	w1 := witness{key: id, xs: []*Term{scopes}, facts: []Fact{
		{mkLookupOk(l.groups, id, constEq), true}, has(scopes)}}
	if !refutes(o.st.facts, o.st.events, w1, S, 0) {
		return "its own ID may be on the list"
	}
	k := mk(KNew, "someGroup", 0, types.Typ[types.String], nil, nil)
	gs := c.a.groupScopes(g, k)
	w2 := witness{key: k, xs: []*Term{gs, scopes}, facts: []Fact{
		{mkLookupOk(l.groups, k, constEq), true}, {mkLookupOk(groups, k, constEq), true}, has(scopes), has(gs)}}
	if !refutes(o.st.facts, o.st.events, w2, S, 0) {
		return "one of its groups may be on the list with the scope"
	}
	return ""
}

// ---------------------------------------------------------------- what the operations do

// storedValue is the value whose serialisation is handed to storage.
func storedValue(e *Event) *Term {
	if e.op != "io.Put" && e.op != "io.Update" {
		return nil
	}
	d := e.args[4]
	if m := resOf(d, 0); m != nil && m.k == KApp && m.op == "json.Marshal" {
		return deref(m.args[0])
	}
	return nil
}

// encryptionOf finds the Encrypt event on the path that a term is a result of.
func encryptionOf(o *Outcome, t *Term, n int) *Event {
	ev := resOf(t, n)
	if ev == nil || !isEv(ev, "crypto.Encrypt") {
		return nil
	}
	for _, s := range o.sites() {
		if s.term == ev {
			return s.Event
		}
	}
	return nil
}

func (c *Ctx) writes(o *Outcome) []Site {
	var out []Site
	for _, s := range o.sites() {
		if isIoWrite(s.Event) {
			out = append(out, s)
		}
	}
	return out
}

func derefParam(p *Term, t types.Type) *Term {
	return mk(KDeref, "", 0, t, nil, nil, p)
}

// sealedObjectOK checks a stored object: ciphertext of the given object's plaintext under its ID and associated data.
// It returns the encryption.
func (c *Ctx) sealedObjectOK(g *ruleGroup, r *Run, o *Outcome, s Site, oid, obj *Term) *Event {
	key := c.opKey(r, s.Event)
	so := c.a.typ("data", "SealedObject")
	ot := c.a.typ("data", "Object")
	v := storedValue(s.Event)
	if v == nil || v.typ == nil || !types.Identical(v.typ, so) {
		c.bad(g, key+" value", s.pos, "%s stores something other than a serialised sealed object", r.name)
		return nil
	}
	in := derefParam(obj, ot)
	enc := encryptionOf(o, field(v, so, "Ciphertext"), 1)
	if !c.must(enc != nil, g, key+" ciphertext", s.pos, "%s stores an object whose ciphertext does not come from this call's encryption", r.name) {
		return nil
	}
	c.must(plainOf(enc) == field(in, ot, "Plaintext"), g, key+" plaintext", enc.pos, "%s encrypts something other than the object's plaintext", r.name)
	ad := field(in, ot, "AssociatedData")
	c.must(bindsBoth(aadOf(enc), oid, ad), g, key+" authenticated data", enc.pos, "%s does not authenticate the object ID and the associated data together with the object", r.name)
	c.must(field(v, so, "AssociatedData") == ad, g, key+" associated data", s.pos, "%s stores other associated data than the caller gave", r.name)
	c.must(s.args[2] == oid, g, key+" id", s.pos, "%s stores the object under another ID", r.name)
	return enc
}

// bindsBoth says the associated data determines both the fixed-length ID and the data.
func bindsBoth(aad, oid, ad *Term) bool {
	if aad.k != KConcat {
		return false
	}
	n := 0
	sawID := false
	for _, p := range aad.args {
		switch {
		case p == oid && !sawID:
			sawID = true
		case p == ad:
			n++
		case p.isConst() || knownLen(p) != nil:
		default:
			return false
		}
	}
	return sawID && n == 1
}

// sealedAccessOK checks a stored access list and returns the access value sealed in it.
func (c *Ctx) sealedAccessOK(g *ruleGroup, r *Run, o *Outcome, s Site, oid *Term) *Term {
	key := c.opKey(r, s.Event)
	sa := c.a.typ("data", "SealedAccess")
	v := storedValue(s.Event)
	if v == nil || v.typ == nil || !types.Identical(v.typ, sa) {
		c.bad(g, key+" value", s.pos, "%s stores something other than a serialised sealed access list", r.name)
		return nil
	}
	enc := encryptionOf(o, field(v, sa, "Ciphertext"), 1)
	if !c.must(enc != nil, g, key+" ciphertext", s.pos, "%s stores an access list whose ciphertext does not come from this call's encryption", r.name) {
		return nil
	}
	c.must(encryptionOf(o, field(v, sa, "WrappedKey"), 0) == enc, g, key+" key", s.pos, "%s stores an access list whose wrapped key belongs to another encryption", r.name)
	c.must(contains(aadOf(enc), oid), g, key+" authenticated data", enc.pos, "%s does not bind the access list to the object ID", r.name)
	c.must(s.args[2] == oid, g, key+" id", s.pos, "%s stores the access list under another ID", r.name)
	p := plainOf(enc)
	at := c.a.typ("data", "Access")
	if p.typ == nil || !types.Identical(p.typ, at) {
		// a projection of a decrypted value keeps its type
		if p.k != KStruct && !(p.k == KApp && p.typ != nil && types.Identical(p.typ, at)) {
			c.bad(g, key+" access", enc.pos, "%s seals something other than an access list", r.name)
			return nil
		}
	}
	return p
}

var gEncryptOp = &ruleGroup{name: "encrypt-stores-object-and-access", min: 10,
	what: "a successful Encrypt stores, under the fresh random ID it returns, the object's encrypted plaintext and an access list holding exactly the given groups and the caller's ID together with the key of that same encryption; nothing else, and only new records",
	f: func(c *Ctx, g *ruleGroup) {
		c.each(g, profCrypto, "", "D1.Encrypt", "New", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			tok, obj, groups := r.param(1), r.param(2), r.param(3)
			oid := o.res[0]
			ev := resOf(oid, 0)
			c.must(ev != nil && isEv(ev, "uuid.NewV4") && holds(o.st.facts, mkEq(res(1, errType(), ev), tNil), true), g, r.name+" fresh ID", o.pos, "%s does not return a fresh random object ID", r.name)
			c.noLoops(g, r, o)
			var objW, accW []Site
			for _, s := range c.writes(o) {
				ok := s.op == "io.Put"
				switch c.dataTypeName(s.Event) {
				case "Object":
					objW = append(objW, s)
				case "Access":
					accW = append(accW, s)
				default:
					ok = false
				}
				c.must(ok, g, c.opKey(r, s.Event), s.pos, "%s changes storage other than by adding the new object and its access list", r.name)
				c.must(holds(o.st.facts, mkEq(errOf(s.Event), tNil), true), g, c.opKey(r, s.Event)+" succeeded", s.pos, "%s succeeds although %s may have failed", r.name, s.op)
			}
			if !c.must(len(objW) == 1 && len(accW) == 1, g, r.name+" writes", o.pos, "%s stores %d objects and %d access lists instead of one each", r.name, len(objW), len(accW)) {
				return
			}
			enc := c.sealedObjectOK(g, r, o, objW[0], oid, obj)
			acc := c.sealedAccessOK(g, r, o, accW[0], oid)
			if acc == nil || enc == nil {
				return
			}
			at := c.a.typ("data", "Access")
			ids := authenticated(o.st.facts, tok)
			if len(ids) == 0 {
				c.bad(g, r.name+" caller", o.pos, "%s succeeds without an identity", r.name)
				return
			}
			gr := field(acc, at, "Groups")
			c.must(keysExactly(gr, []*Term{c.a.idField(ids[0], "ID")}, []*Term{groups}, nil), g, r.name+" access groups", accW[0].pos, "%s seals an access list with other groups than those given and the caller's ID", r.name)
			c.must(encryptionOf(o, field(acc, at, "WrappedDEK"), 0) == enc, g, r.name+" object key", accW[0].pos, "%s seals an access list with a key other than that of the object", r.name)
		})
	}}

// noLoops requires the storage changes of a path to happen outside loops.
func (c *Ctx) noLoops(g *ruleGroup, r *Run, o *Outcome) {
	for _, s := range c.writes(o) {
		if len(s.loops) > 0 {
			c.bad(g, c.opKey(r, s.Event)+" in a loop", s.pos, "%s changes storage an unknown number of times", r.name)
		}
	}
}

var gUpdateOp = &ruleGroup{name: "update-keeps-access-groups", min: 10,
	what: "a successful Update replaces the stored object by the new plaintext's encryption under the same ID and reseals the access list with its groups unchanged and the new encryption's key; existing records only",
	f: func(c *Ctx, g *ruleGroup) {
		c.each(g, profCrypto, "", "D1.Update", "New", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			oid, obj := r.param(2), r.param(3)
			c.noLoops(g, r, o)
			var objW, accW []Site
			for _, s := range c.writes(o) {
				ok := s.op == "io.Update"
				switch c.dataTypeName(s.Event) {
				case "Object":
					objW = append(objW, s)
				case "Access":
					accW = append(accW, s)
				default:
					ok = false
				}
				c.must(ok, g, c.opKey(r, s.Event), s.pos, "%s changes storage other than by updating the object and its access list", r.name)
				c.must(holds(o.st.facts, mkEq(errOf(s.Event), tNil), true), g, c.opKey(r, s.Event)+" succeeded", s.pos, "%s succeeds although %s may have failed", r.name, s.op)
			}
			if !c.must(len(objW) == 1 && len(accW) == 1, g, r.name+" writes", o.pos, "%s writes %d objects and %d access lists instead of one each", r.name, len(objW), len(accW)) {
				return
			}
			enc := c.sealedObjectOK(g, r, o, objW[0], oid, obj)
			acc := c.sealedAccessOK(g, r, o, accW[0], oid)
			ls := c.acls(o, o.st.facts, oid)
			if acc == nil || enc == nil || len(ls) == 0 {
				return
			}
			at := c.a.typ("data", "Access")
			c.must(sameKeys(field(acc, at, "Groups"), ls[0].groups), g, r.name+" access groups", accW[0].pos, "%s changes which groups are on the access list", r.name)
			c.must(encryptionOf(o, field(acc, at, "WrappedDEK"), 0) == enc, g, r.name+" object key", accW[0].pos, "%s does not store the key of the new object", r.name)
		})
	}}

var gDecryptOp = &ruleGroup{name: "decrypt-returns-stored-object", min: 5,
	what: "a successful Decrypt returns the authenticated decryption of the record stored under the requested ID, with the key from that object's access list, and exactly the associated data that was authenticated; it changes nothing",
	f: func(c *Ctx, g *ruleGroup) {
		c.each(g, profCrypto, "", "D1.Decrypt", "New", func(r *Run, o *Outcome) {
			for _, s := range c.writes(o) {
				c.bad(g, c.opKey(r, s.Event), s.pos, "%s changes storage", r.name)
			}
			if !o.ok {
				return
			}
			oid := r.param(2)
			ot := c.a.typ("data", "Object")
			pt := field(o.res[0], ot, "Plaintext")
			ad := field(o.res[0], ot, "AssociatedData")
			ls := c.acls(o, o.st.facts, oid)
			found := false
			for _, s := range o.top() {
				if s.op != "crypto.Decrypt" || !holds(o.st.facts, mkEq(errOf(s.Event), tNil), true) {
					continue
				}
				if decryptedBy(s.Event, pt.typ) != pt {
					continue
				}
				found = true
				gt, f := storedField(s.args[4])
				c.must(gt != nil && f == "Ciphertext" && gt.args[2] == oid && gt.args[3] == mkInt(c.a.cint("io", "DataTypeSealedObject")), g, r.name+" ciphertext", s.pos, "%s decrypts something other than the object stored under the requested ID", r.name)
				c.must(len(ls) > 0 && s.args[3] == ls[0].dek, g, r.name+" key", s.pos, "%s decrypts with a key that is not the one in the object's access list", r.name)
				g2, f2 := storedField(ad)
				c.must(g2 != nil && g2 == gt && f2 == "AssociatedData", g, r.name+" associated data", o.pos, "%s returns associated data other than that stored with the object", r.name)
				c.must(bindsBoth(aadOf(s.Event), oid, ad), g, r.name+" authenticated data", s.pos, "%s does not authenticate the requested ID and the returned associated data", r.name)
			}
			c.must(found, g, r.name+" plaintext", o.pos, "%s returns a plaintext that is not the result of an authenticated decryption", r.name)
		})
	}}

var gGetGroups = &ruleGroup{name: "access-group-reads", min: 2,
	what: "GetAccessGroups returns exactly the groups of the authenticated access list of the object, and neither it nor AuthorizeIdentity changes anything",
	f: func(c *Ctx, g *ruleGroup) {
		for _, n := range []string{"D1.GetAccessGroups", "D1.AuthorizeIdentity"} {
			n := n
			c.each(g, profCrypto, "", n, "New", func(r *Run, o *Outcome) {
				for _, s := range c.writes(o) {
					c.bad(g, c.opKey(r, s.Event), s.pos, "%s changes storage", r.name)
				}
				if !o.ok {
					return
				}
				if n == "D1.AuthorizeIdentity" {
					c.ok(g, r.name)
					return
				}
				ls := c.acls(o, o.st.facts, r.param(2))
				c.must(len(ls) > 0 && sameKeys(derefMap(o.res[0]), ls[0].groups), g, r.name+" result", o.pos, "%s returns other groups than those on the object's access list", r.name)
			})
		}
	}}

func derefMap(t *Term) *Term {
	if t.k == KPtrTo {
		return t.args[0]
	}
	return t
}

var gModifyGroups = &ruleGroup{name: "access-group-changes", min: 10,
	what: "AddGroupsToAccess and RemoveGroupsFromAccess reseal the access list with exactly the given groups added or removed and the object key kept, by one update of the existing record, and touch nothing else",
	f: func(c *Ctx, g *ruleGroup) {
		for _, n := range []string{"D1.AddGroupsToAccess", "D1.RemoveGroupsFromAccess"} {
			n := n
			c.each(g, profCrypto, "", n, "New", func(r *Run, o *Outcome) {
				if !o.ok {
					return
				}
				oid, groups := r.param(2), r.param(3)
				c.noLoops(g, r, o)
				ws := c.writes(o)
				good := len(ws) == 1 && ws[0].op == "io.Update" && c.dataTypeName(ws[0].Event) == "Access"
				if len(ws) == 0 && holds(o.st.facts, mkEq(mkLen(groups), mkInt(0)), true) {
					return // nothing to change
				}
				if !c.must(good, g, r.name+" writes", o.pos, "%s does not make exactly one update of the access list", r.name) {
					return
				}
				c.must(holds(o.st.facts, mkEq(errOf(ws[0].Event), tNil), true), g, r.name+" succeeded", ws[0].pos, "%s succeeds although the update may have failed", r.name)
				acc := c.sealedAccessOK(g, r, o, ws[0], oid)
				ls := c.acls(o, o.st.facts, oid)
				if acc == nil || len(ls) == 0 {
					return
				}
				at := c.a.typ("data", "Access")
				gr := field(acc, at, "Groups")
				c.must(field(acc, at, "WrappedDEK") == ls[0].dek, g, r.name+" object key", ws[0].pos, "%s does not keep the object's key", r.name)
				if n == "D1.AddGroupsToAccess" {
					c.must(keysExactly(gr, nil, []*Term{groups}, []*Term{ls[0].groups}), g, r.name+" groups", ws[0].pos, "%s seals other groups than the existing ones and those given", r.name)
				} else {
					k := keysOf(gr)
					c.must(k.ok && len(k.one) == 0 && len(k.seqs) == 0 && sameSet(k.maps, setOf(ls[0].groups)) && len(k.del) == 0 && sameSet(k.dels, setOf(groups)), g, r.name+" groups", ws[0].pos, "%s seals other groups than the existing ones without those given", r.name)
				}
			})
		}
	}}

var gDeleteOp = &ruleGroup{name: "delete-object-before-access", min: 5,
	what: "Delete removes the access list only after the object was removed successfully, reports success only when both were removed or no access list existed, and changes nothing else",
	f: func(c *Ctx, g *ruleGroup) {
		c.each(g, profCrypto, "", "D1.Delete", "New", func(r *Run, o *Outcome) {
			oid := r.param(2)
			var objD, accD *Site
			for _, s := range c.writes(o) {
				s := s
				dt := c.dataTypeName(s.Event)
				if !c.must(s.op == "io.Delete" && s.args[2] == oid && len(s.loops) == 0 && (dt == "Object" || dt == "Access"), g, c.opKey(r, s.Event), s.pos, "%s changes storage other than by deleting the object and its access list", r.name) {
					continue
				}
				if dt == "Object" {
					objD = &s
				} else {
					accD = &s
					c.must(objD != nil && deleted(s.facts, objD.Event, c), g, r.name+" order", s.pos, "%s deletes the access list on a path on which the object's deletion has not succeeded", r.name)
				}
			}
			if !o.ok {
				return
			}
			if objD == nil && accD == nil {
				c.must(c.accessMissing(o, oid), g, r.name+" nothing to delete", o.pos, "%s reports success without deleting anything although the access list exists", r.name)
				return
			}
			c.must(objD != nil && accD != nil && deleted(o.st.facts, objD.Event, c) && deleted(o.st.facts, accD.Event, c), g, r.name+" complete", o.pos, "%s reports success although the object or its access list may remain", r.name)
		})
		// a repeated delete succeeds: no path fails because the access list is missing
		c.each(g, profCrypto, "", "D1.Delete", "New", func(r *Run, o *Outcome) {
			if o.ok || o.panic {
				return
			}
			if c.accessMissing(o, r.param(2)) {
				c.bad(g, r.name+" repeated", o.pos, "%s fails when the access list does not exist", r.name)
			} else {
				c.ok(g, r.name+" repeated")
			}
		})
	}}

// deleted says a deletion succeeded, or found nothing to delete.
func deleted(facts []Fact, e *Event, c *Ctx) bool {
	err := errOf(e)
	return holds(facts, mkEq(err, tNil), true) || errKnown(facts, err, c.a.sent("io", "ErrNotFound"))
}

var _ = token.NoPos
