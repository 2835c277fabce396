package main

import (
	"go/token"
	"strings"
)

// law is what a composition must come to.
type law struct {
	name string
	prof profile
	what string
	want map[string]func(r *Run, o *Outcome, t *Term) bool
	// late says that the result is about a token, whose hour may have passed
	late bool
}

func isParam(name string) func(r *Run, o *Outcome, t *Term) bool {
	return func(r *Run, o *Outcome, t *Term) bool {
		for i, p := range r.fn.Params {
			if p.Name() == name {
				return sameValue(o.st, t, r.par[i], 0)
			}
		}
		return false
	}
}

func isTrue(r *Run, o *Outcome, t *Term) bool  { return o.st.eval(t) == 1 }
func isFalse(r *Run, o *Outcome, t *Term) bool { return o.st.eval(t) == 0 }
func isNil(r *Run, o *Outcome, t *Term) bool   { return o.st.eval(mkEq(t, tNil)) == 1 }

// isError says that the error is, or wraps, one of the repository's error values.
func isError(names ...string) func(r *Run, o *Outcome, t *Term) bool {
	return func(r *Run, o *Outcome, t *Term) bool {
		for _, n := range names {
			pkg, v := "", n
			if i := strings.IndexByte(n, '.'); i > 0 {
				pkg, v = n[:i], n[i+1:]
			}
			if y := r.a.p.sentinel(pkg, v); y != nil && o.st.eval(errorsIs(t, y)) == 1 {
				return true
			}
		}
		return false
	}
}

type wants = map[string]func(r *Run, o *Outcome, t *Term) bool

// sameValue says that two values are the same, as far as a caller can see.
func sameValue(s *State, x, y *Term, depth int) bool {
	if x == y || s.eval(mkEq(x, y)) == 1 {
		return true
	}
	if depth > 4 {
		return false
	}
	t := y.typ
	if t == nil {
		t = x.typ
	}
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if !sameValue(s, mkField(x, i, ft), mkField(y, i, ft), depth+1) {
				return false
			}
		}
		return st.NumFields() > 0
	}
	return s.eval(mkEq(mkLen(x), mkInt(0))) == 1 && s.eval(mkEq(mkLen(y), mkInt(0))) == 1
}

// broke says that something outside of the composition failed on this path: randomness, an encryption, an encoding.
func (o *Outcome) broke() bool {
	failed := func(t *Term) bool { return t != nil && o.st.eval(mkEq(t, tNil)) == 0 }
	for _, s := range o.top() {
		switch s.op {
		case "crypto.Encrypt", "crypto.GeneratePassword", "crypto.Tag", "crypto.Wrap", "crypto.GetBytes", "aead.Encrypt", "crypto.NewAESCryptor", "crypto.NewKMAC256Tagger", "crypto.NewKWP",
			"uuid.NewV4", "uuid.NewV1", "uuid.NewV6", "uuid.NewV7", "crypto/rand.Read", "io.ReadFull":
			if failed(errOf(s.Event)) {
				return true
			}
		}
	}
	for _, f := range o.st.facts {
		if f.val || f.atom.k != KBin || f.atom.op != "==" {
			continue
		}
		for i, x := range f.atom.args {
			if f.atom.args[1-i] != tNil || x.k != KRes {
				continue
			}
			switch m := x.args[0]; m.op {
			case "json.Marshal":
				return true
			}
		}
	}
	return false
}

// expired says that a comparison with the time went the other way than on the path given.
func (o *Outcome) expired(than *Outcome) bool {
	for _, f := range o.st.facts {
		if !anyTerm(f.atom, func(t *Term) bool { return t.op == "time.Now" }) {
			continue
		}
		if v, known := than.st.lookupFact(f.atom); known && v != f.val {
			return true
		}
	}
	return false
}

// lawful checks a composition.
func (c *Ctx) lawful(g *ruleGroup, l law) {
	r := c.a.compose(l.prof, l.name)
	c.use(g, []*Run{r})
	var good []*Outcome
	holdsOn := func(o *Outcome) string {
		for n, w := range l.want {
			if t := r.result(o, n); t == nil || !w(r, o, t) {
				return n
			}
		}
		return ""
	}
	key := "composition " + l.name
	pos := r.fn.Pos()
	for _, o := range r.outcomes() {
		if d := r.result(o, "done"); o.panic || d == tFalse {
			continue
		}
		if holdsOn(o) == "" {
			good = append(good, o)
		}
	}
	c.must(len(good) > 0, g, key+" can succeed", pos, "there is no way in which %s", l.what)
outcomes:
	for _, o := range r.outcomes() {
		if d := r.result(o, "done"); o.panic || d == tFalse || o.broke() {
			continue
		}
		n := holdsOn(o)
		if n == "" {
			c.ok(g, key)
			continue
		}
		if l.late {
			for _, x := range good {
				if o.expired(x) {
					continue outcomes
				}
			}
		}
		where := pos
		if ts := o.top(); len(ts) > 0 {
			where = ts[len(ts)-1].pos
		}
		got := r.result(o, n)
		s := "nothing"
		if got != nil {
			s = got.str(4)
		}
		c.bad(g, key, where, "it does not always hold that %s: %s comes to %s", l.what, n, s)
	}
}

var gRoundTrip = &ruleGroup{name: "round-trip", min: 12,
	what: "sealing composed with opening is the identity: for every object, access list, index node, token and byte string, every key and every associated data, what was sealed opens without an error to exactly what was put in (the operations below the analysed level cancel: Decrypt after Encrypt, Unwrap after Wrap and Open after Seal with the same key and data, decoding after encoding a type whose encoding loses nothing)",
	f: func(c *Ctx, g *ruleGroup) {
		for _, prof := range []profile{profCrypto, profParts} {
			at := ""
			if prof.name == profParts.name {
				at = ", down to the key wrapping and the cipher,"
			}
			for _, l := range []law{
				{name: "Object", what: "a sealed object" + at + " opens to the object", want: wants{"got": isParam("o"), "err": isNil}},
				{name: "Access", what: "a sealed access list" + at + " opens to the access list", want: wants{"got": isParam("a"), "err": isNil}},
				{name: "Node", what: "a sealed index node" + at + " opens to the node", want: wants{"got": isParam("n"), "err": isNil}},
				{name: "Token", late: true, what: "a sealed token" + at + " opens, before it expires, to the token", want: wants{"got": isParam("t"), "err": isNil}},
				{name: "Bytes", what: "encrypted bytes" + at + " decrypt to the bytes", want: wants{"got": isParam("plain"), "err": isNil}},
			} {
				l.prof = prof
				c.lawful(g, l)
			}
		}
		c.lawful(g, law{name: "Blocks", prof: profNone, what: "what the cipher seals it opens to the plaintext", want: wants{"got": isParam("plain"), "err": isNil}})
	}}

var gObjectLife = &ruleGroup{name: "object-life", min: 38,
	what: "operations composed on a storage that keeps its contract, for every object, identity, group and key: what was encrypted or last updated is what decryption gives; operations on one object leave another alone; the access list has the creator, the groups given and the groups added, without those removed; a member of a listed group can decrypt, others are refused by every operation; after deletion nothing is found; a token opens to its contents",
	f: func(c *Ctx, g *ruleGroup) {
		no, gone := isError("ErrNotAuthorized"), isError("ErrAccessNotFound", "ErrObjectNotFound")
		for _, l := range []law{
			{name: "Encrypted", what: "the creator of an object decrypts it to what was encrypted", want: wants{"got": isParam("o"), "err": isNil}},
			{name: "Updated", what: "an updated object decrypts to what it was updated to", want: wants{"got": isParam("p"), "err": isNil}},
			{name: "Twice", what: "an object decrypts to what was encrypted after another object was created, changed and deleted", want: wants{"got": isParam("o"), "err": isNil}},
			{name: "Listed", what: "the access list of a new object has the groups given and its creator, and nobody else", want: wants{"has": isTrue, "all": isTrue, "none": isTrue, "err": isNil}},
			{name: "Regrouped", what: "the access list has the group that was added and not the one that was removed, and still its creator", want: wants{"in": isTrue, "out": isFalse, "self": isTrue, "err": isNil}},
			{name: "Shared", what: "a member of a group that was added to the access list can decrypt", want: wants{"got": isParam("o"), "err": isNil}},
			{name: "Unshared", what: "a member of a group that was removed from the access list is refused", want: wants{"err": no}},
			{name: "StrangerDecrypt", what: "decrypting an object is refused to a caller who is not on its access list, and the object stays as it is", want: wants{"op": no, "got": isParam("o"), "err": isNil}},
			{name: "StrangerUpdate", what: "updating an object is refused to a caller who is not on its access list, and the object stays as it is", want: wants{"op": no, "got": isParam("o"), "err": isNil}},
			{name: "StrangerDelete", what: "deleting an object is refused to a caller who is not on its access list, and the object stays as it is", want: wants{"op": no, "got": isParam("o"), "err": isNil}},
			{name: "StrangerRead", what: "reading the access list of an object is refused to a caller who is not on its access list, and the object stays as it is", want: wants{"op": no, "got": isParam("o"), "err": isNil}},
			{name: "StrangerAdd", what: "adding a group to the access list of an object is refused to a caller who is not on its access list, and the object stays as it is", want: wants{"op": no, "got": isParam("o"), "err": isNil}},
			{name: "StrangerRemove", what: "removing a group from the access list of an object is refused to a caller who is not on its access list, and the object stays as it is", want: wants{"op": no, "got": isParam("o"), "err": isNil}},
			{name: "StrangerAuthorize", what: "authorization for an object is refused to a caller who is not on its access list, and the object stays as it is", want: wants{"op": no, "got": isParam("o"), "err": isNil}},
			{name: "Deleted", what: "a deleted object is not found, and deleting it again succeeds", want: wants{"dec": gone, "get": gone, "upd": gone, "again": isNil}},
			{name: "Handed", what: "the creator decrypts what a member of a group that was added to the list wrote", want: wants{"got": isParam("p"), "err": isNil}},
			{name: "Kept", what: "an update leaves the access list as it is", want: wants{"has": isTrue, "self": isTrue, "none": isTrue, "err": isNil}},
			{name: "Abandoned", what: "a creator who left the access list is refused, and a member of a group on it decrypts", want: wants{"op": no, "got": isParam("o"), "err": isNil}},
			{name: "Contents", late: true, what: "a token opens, before it expires, to its contents", want: wants{"got": isParam("plain"), "err": isNil}},
		} {
			l.prof = profCrypto
			c.lawful(g, l)
		}
	}}

var gAccountLife = &ruleGroup{name: "account-life", min: 18,
	what: "operations composed on a storage that keeps its contract, for all scopes and keys: a new user logs in with the password given and is that user, with the scopes given; after a change of password the new one works and the old one does not; a user who makes a group is a member of it, with its scopes; a user added to a group is a member until removed; a deleted user can neither log in nor use a token, and other users are not affected",
	f: func(c *Ctx, g *ruleGroup) {
		unknown := isError("id.ErrNotAuthenticated", "id.ErrUserNotFound")
		for _, l := range []law{
			{name: "LoggedIn", what: "a new user logs in with the password given, is that user, and has the scopes given and no groups", want: wants{"name": isTrue, "scopes": isUnion("a", "b"), "groups": isZero, "err": isNil}},
			{name: "Changed", what: "after a change of password the new one works, the old one does not, and the memberships stay", want: wants{"name": isTrue, "in": isTrue, "scopes": isParam("a"), "old": isError("id.ErrNotAuthenticated"), "err": isNil}},
			{name: "Member", what: "a user who makes a group is a member of it, with the scopes given to the group, and keeps their own scopes", want: wants{"in": isTrue, "group": isGroup("gid", "b"), "scopes": isParam("a"), "err": isNil}},
			{name: "Invited", what: "a user who is added to a group is a member, with the group's scopes, until removed", want: wants{"before": isTrue, "after": isFalse, "scopes": isParam("c"), "err": isNil}},
			{name: "Stays", what: "the user who made a group is still a member of it, with everything, after another one was removed", want: wants{"name": isTrue, "in": isTrue, "scopes": isParam("a"), "err": isNil}},
			{name: "Heir", what: "a deleted user who was in a group can neither log in nor use a token, and the others in the group keep it", want: wants{"login": unknown, "token": unknown, "name": isTrue, "in": isTrue, "scopes": isParam("c"), "err": isNil}},
			{name: "Chosen", what: "a user who leaves one of two groups stays in the other", want: wants{"in": isTrue, "out": isFalse, "scopes": isParam("a"), "err": isNil}},
			{name: "Uninvited", what: "a user cannot add themselves to a group they are not in, and the attempt changes nothing", want: wants{"op": isError("id.ErrNotAuthorized"), "in": isFalse, "scopes": isParam("c"), "err": isNil}},
			{name: "Removed", what: "a deleted user can neither log in nor use a token, and another user can", want: wants{"login": unknown, "token": unknown, "name": isTrue, "scopes": isParam("c"), "err": isNil}},
		} {
			l.prof, l.late = profCrypto, true
			c.lawful(g, l)
		}
	}}

func isZero(r *Run, o *Outcome, t *Term) bool { return o.st.eval(mkEq(t, mkInt(0))) == 1 }

// isUnion says that a scope is made of two others.
func isUnion(a, b string) func(r *Run, o *Outcome, t *Term) bool {
	return func(r *Run, o *Outcome, t *Term) bool {
		var x, y *Term
		for i, p := range r.fn.Params {
			switch p.Name() {
			case a:
				x = r.par[i]
			case b:
				y = r.par[i]
			}
		}
		return sameValue(o.st, t, mkBin(token.OR, x, y, x.typ), 0) || sameValue(o.st, t, mkBin(token.OR, y, x, x.typ), 0)
	}
}

// isGroup says that a group has the identifier and the scopes.
func isGroup(gid, scope string) func(r *Run, o *Outcome, t *Term) bool {
	return func(r *Run, o *Outcome, t *Term) bool {
		st := structOf(r.fn.Signature.Results().At(resultIndex(r, "group")).Type())
		for i := 0; i < st.NumFields(); i++ {
			f := mkField(t, i, st.Field(i).Type())
			switch st.Field(i).Name() {
			case "ID":
				if !sameValue(o.st, f, r.result(o, gid), 0) {
					return false
				}
			case "Scopes":
				if !isParam(scope)(r, o, f) {
					return false
				}
			}
		}
		return true
	}
}

func resultIndex(r *Run, name string) int {
	for i := 0; i < r.fn.Signature.Results().Len(); i++ {
		if r.fn.Signature.Results().At(i).Name() == name {
			return i
		}
	}
	return -1
}
