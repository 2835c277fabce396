package main

import (
	"go/constant"
	"go/types"
	"strings"
)

// ---------------------------------------------------------------- time

// timeVal gives a time or duration expression's value in nanoseconds when every reading of the clock is 0 and exp is d.
func timeVal(t, exp *Term, d int64, now map[*Term]bool) (int64, bool) {
	if t == exp {
		return d, true
	}
	if r := resOf(t, 0); r != nil && isEv(r, "time.Now") && now[r] {
		return 0, true
	}
	if v, ok := t.intVal(); ok {
		return v, true
	}
	if t.k == KConv {
		return timeVal(t.args[0], exp, d, now)
	}
	if t.k == KLin {
		l := linOf(t)
		r := l.c
		for a, c := range l.coefs {
			v, ok := timeVal(a, exp, d, now)
			if !ok {
				return 0, false
			}
			r += c * v
		}
		return r, true
	}
	if t.k != KApp || len(t.args) == 0 {
		return 0, false
	}
	a, ok := timeVal(t.args[0], exp, d, now)
	if !ok {
		return 0, false
	}
	switch t.op {
	case "time.Time.UTC", "time.Time.Local", "time.Time.UnixNano", "time.Duration.Nanoseconds", "time.Time.In":
		return a, true
	case "time.Time.Round":
		if v, ok := t.args[1].intVal(); ok && v == 0 {
			return a, true
		}
		return 0, false
	case "time.Time.Add", "time.Time.Sub", "time.Time.Compare":
		b, ok := timeVal(t.args[1], exp, d, now)
		if !ok {
			return 0, false
		}
		switch t.op {
		case "time.Time.Add":
			return a + b, true
		case "time.Time.Sub":
			return a - b, true
		}
		switch {
		case a < b:
			return -1, true
		case a > b:
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

// timeFact decides a comparison of times under the same assumptions.
func timeFact(t, exp *Term, d int64, now map[*Term]bool) (bool, bool) {
	switch {
	case t.k == KUn && t.op == "!":
		v, ok := timeFact(t.args[0], exp, d, now)
		return !v, ok
	case t.k == KUn && t.op == "<0":
		v, ok := timeVal(t.args[0], exp, d, now)
		return v < 0, ok
	case t.k == KBin && t.op == "==":
		a, ok := timeVal(t.args[0], exp, d, now)
		if !ok {
			return false, false
		}
		b, ok := timeVal(t.args[1], exp, d, now)
		return a == b, ok
	case t.k == KApp && (t.op == "time.Time.Before" || t.op == "time.Time.Equal") && len(t.args) == 2:
		a, ok := timeVal(t.args[0], exp, d, now)
		if !ok {
			return false, false
		}
		b, ok := timeVal(t.args[1], exp, d, now)
		if t.op == "time.Time.Equal" {
			return a == b, ok
		}
		return a < b, ok
	}
	return false, false
}

func clockReads(o *Outcome) map[*Term]bool {
	m := map[*Term]bool{}
	for _, s := range o.sites() {
		if s.op == "time.Now" {
			m[s.term] = true
		}
	}
	return m
}

// timeAllows says the facts are consistent with the expiry time lying d nanoseconds after now.
func timeAllows(o *Outcome, facts []Fact, exp *Term, d int64) bool {
	now := clockReads(o)
	for _, f := range facts {
		if v, ok := timeFact(f.atom, exp, d, now); ok && v != f.val {
			return false
		}
	}
	return true
}

// unexpired says the facts exclude that the expiry time has passed, however long ago.
func unexpired(o *Outcome, facts []Fact, exp *Term) bool {
	for _, d := range []int64{1, 1e3, 1e6, 1e9, 60e9, 3600e9, 1e18} {
		if timeAllows(o, facts, exp, -d) {
			return false
		}
	}
	return true
}

// failureKnown says the facts show some operation to have failed, or some authentication to be negative.
func failureKnown(facts []Fact) bool {
	for _, f := range facts {
		a := f.atom
		switch {
		case a.k == KBin && a.op == "==" && a.args[1].k == KNil && !f.val && a.args[0].typ != nil && isErrorType(a.args[0].typ):
			return true
		case a.k == KApp && a.op == "errors.Is" && f.val:
			return true
		case a.k == KBin && a.op == "==" && f.val && (isSentinel(a.args[0]) || isSentinel(a.args[1])):
			return true
		}
	}
	return false
}

// openedToken describes a sealed token that was decrypted.
type openedToken struct {
	plain, exp, cryptor *Term
}

// openToken takes a plaintext apart: the decryption of a sealed token's own fields.
func (c *Ctx) openToken(plain *Term, from func(sealed *Term) bool) *openedToken {
	st := c.a.typ("data", "SealedToken")
	p := plain
	if p.k == KApp && p.op == "decrypted" && len(p.args) == 4 {
		exp := p.args[1]
		if exp.k == KIface {
			exp = exp.args[0]
		}
		wk, ct := p.args[2], p.args[3]
		if wk.k != KField || ct.k != KField || exp.k != KField || wk.args[0] != ct.args[0] || exp.args[0] != ct.args[0] {
			return nil
		}
		s := ct.args[0]
		if field(s, st, "Ciphertext") != ct || field(s, st, "WrappedKey") != wk || field(s, st, "ExpiryTime") != exp || !from(s) {
			return nil
		}
		return &openedToken{p, exp, p.args[0]}
	}
	return nil
}

func decErr(p *Term) *Term {
	return app("decryptErr", errType(), p.args...)
}

// tokenTextDecoded says the sealed token was decoded from the token string.
func tokenTextDecoded(tok *Term) func(*Term) bool {
	return func(s *Term) bool {
		return s.k == KApp && s.op == "json.Decode" && contains(s.args[0], tok)
	}
}

// tokenIdentity finds the user ID a standalone provider's path has established from the token.
func (c *Ctx) tokenIdentity(o *Outcome, facts []Fact, tok *Term) *Term {
	for _, s := range o.top() {
		if s.op != "crypto.Decrypt" {
			continue
		}
		bt := targetType(s.Event)
		if bt == nil {
			continue
		}
		p := decryptedBy(s.Event, bt)
		t := c.openToken(p, tokenTextDecoded(tok))
		if t == nil || !holds(facts, mkEq(decErr(p), tNil), true) || !unexpired(o, facts, t.exp) {
			continue
		}
		return p
	}
	return nil
}

var gTokenOpen = &ruleGroup{name: "token-contents-authentic-and-unexpired", min: 7,
	what: "every successful return of an operation that opens a token lies behind the successful authenticated decryption of that very token, with its expiry time as associated data, and a comparison with the clock that excludes every expiry time in the past; a token that decrypts and has not expired is not refused",
	f: func(c *Ctx, g *ruleGroup) {
		tokenT := c.a.typ("data", "SealedToken")
		for _, e := range []struct{ pkg, name, ctor string }{{"", "D1.GetTokenContents", "New"}, {"data", "SealedToken.Unseal", ""}, {"id", "Standalone.GetIdentity", "NewStandalone"}} {
			e := e
			c.each(g, profCrypto, e.pkg, e.name, e.ctor, func(r *Run, o *Outcome) {
				var from func(*Term) bool
				var plain func() *Term
				switch e.name {
				case "D1.GetTokenContents":
					tok := derefParam(r.param(1), tokenT)
					from = func(s *Term) bool { return s == tok }
					plain = func() *Term { return o.res[0] }
				case "SealedToken.Unseal":
					tok := r.par[0]
					if pointee(tok.typ) != nil {
						tok = derefParam(tok, tokenT)
					}
					from = func(s *Term) bool { return s == tok }
					plain = func() *Term { return field(o.res[0], c.a.typ("data", "Token"), "Plaintext") }
				default:
					from = tokenTextDecoded(r.param(1))
					plain = func() *Term { return field(o.res[0], c.a.typ("id", "Identity"), "ID") }
				}
				if o.ok {
					t := c.openToken(plain(), from)
					if !c.must(t != nil, g, r.name+" contents", o.pos, "%s returns contents that are not the authenticated decryption of the given token with its own expiry time as associated data", r.name) {
						return
					}
					c.must(holds(o.st.facts, mkEq(decErr(t.plain), tNil), true), g, r.name+" decryption succeeded", o.pos, "%s succeeds although the token's decryption may have failed", r.name)
					c.must(unexpired(o, o.st.facts, t.exp), g, r.name+" expiry", o.pos, "%s accepts a token whose expiry time has passed", r.name)
					if e.name == "SealedToken.Unseal" {
						c.must(field(o.res[0], c.a.typ("data", "Token"), "ExpiryTime") == t.exp, g, r.name+" expiry returned", o.pos, "%s returns another expiry time than the one authenticated", r.name)
					}
					return
				}
				if o.panic {
					return
				}
				// refused although valid?
				cause := failureKnown(o.st.facts)
				if !cause {
					for _, x := range c.expiryTerms(o, from) {
						if !timeAllows(o, o.st.facts, x, 1e18) && !timeAllows(o, o.st.facts, x, 36e12) && !timeAllows(o, o.st.facts, x, 1e9) {
							cause = true
						}
					}
				}
				c.must(cause, g, r.name+" refusal", o.pos, "%s fails on a path on which neither an operation failed nor the token is shown to have expired", r.name)
			})
		}
	}}

// expiryTerms are the expiry fields of the sealed tokens mentioned in the facts.
func (c *Ctx) expiryTerms(o *Outcome, from func(*Term) bool) []*Term {
	st := c.a.typ("data", "SealedToken")
	seen := map[*Term]bool{}
	var out []*Term
	i := fieldIdx(st, "ExpiryTime")
	for _, f := range o.st.facts {
		walk(f.atom, func(t *Term) bool {
			if t.k == KField && t.n == i && from(t.args[0]) && !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
			return true
		})
	}
	return out
}

// sealedTokenOK checks an issued token.
func (c *Ctx) sealedTokenOK(g *ruleGroup, r *Run, o *Outcome, v, plain *Term) {
	st := c.a.typ("data", "SealedToken")
	enc := encryptionOf(o, field(v, st, "Ciphertext"), 1)
	if !c.must(enc != nil && encryptionOf(o, field(v, st, "WrappedKey"), 0) == enc, g, r.name+" sealed", o.pos, "%s issues a token that is not made of one encryption", r.name) {
		return
	}
	exp := field(v, st, "ExpiryTime")
	c.must(aadOf(enc) == exp, g, r.name+" expiry authenticated", enc.pos, "%s does not authenticate the token's expiry time", r.name)
	c.must(plainOf(enc) == plain, g, r.name+" contents", enc.pos, "%s seals other contents than those given", r.name)
	validity := c.a.cint("data", "TokenValidity")
	d, ok := timeVal(exp, nil, 0, clockReads(o))
	c.must(ok && d == validity, g, r.name+" validity", o.pos, "%s issues a token whose expiry time is not the documented period after now", r.name)
}

var gTokenIssue = &ruleGroup{name: "token-issued-with-validity", min: 8,
	what: "a token issued by CreateToken or LoginUser seals exactly the given contents (the user ID for a login), carries an expiry time the documented period after the clock reading of the call, and authenticates it; encoding and decoding of its text form use the same codec",
	f: func(c *Ctx, g *ruleGroup) {
		c.each(g, profCrypto, "", "D1.CreateToken", "New", func(r *Run, o *Outcome) {
			if o.ok {
				c.sealedTokenOK(g, r, o, o.res[0], r.param(1))
			}
		})
		st := c.a.typ("data", "SealedToken")
		c.each(g, profCrypto, "id", "Standalone.LoginUser", "NewStandalone", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			var v *Term
			walk(o.res[0], func(t *Term) bool {
				if t.k == KApp && t.op == "json.Marshal" && v == nil {
					if x := deref(t.args[0]); x.typ != nil && types.Identical(x.typ, st) {
						v = x
					}
				}
				return v == nil
			})
			if !c.must(v != nil, g, r.name+" token text", o.pos, "%s does not return the text form of a sealed token", r.name) {
				return
			}
			c.sealedTokenOK(g, r, o, v, r.param(1))
			exp := field(v, st, "ExpiryTime")
			c.must(o.res[1].k == KApp && o.res[1].op == "time.Time.Unix" && o.res[1].args[0] == exp, g, r.name+" expiry returned", o.pos, "%s returns another expiry time than the token's", r.name)
		})
		// text form
		var enc, dec []*Term
		c.each(g, profCrypto, "data", "SealedToken.String", "", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			t := o.res[0]
			v := derefParam(r.par[0], st)
			if pointee(r.par[0].typ) == nil {
				v = r.par[0]
			}
			ok := t.k == KApp && strings.HasSuffix(t.op, "EncodeToString") && t.args[len(t.args)-1].k == KRes && t.args[len(t.args)-1].args[0].op == "json.Marshal"
			if ok {
				ok = deref(t.args[len(t.args)-1].args[0].args[0]) == v
			}
			c.must(ok, g, r.name, o.pos, "%s does not encode the whole sealed token", r.name)
			enc = append(enc, t)
		})
		c.each(g, profCrypto, "data", "TokenFromString", "", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			t := o.res[0]
			ok := t.k == KApp && t.op == "json.Decode" && t.args[0].k == KRes && strings.HasSuffix(t.args[0].args[0].op, "DecodeString")
			if ok {
				a := t.args[0].args[0].args
				ok = a[len(a)-1] == r.param(0)
				dec = append(dec, t.args[0].args[0])
			}
			c.must(ok, g, r.name, o.pos, "%s does not decode the whole token text", r.name)
		})
		for _, e := range enc {
			for _, d := range dec {
				same := strings.TrimSuffix(e.op, "EncodeToString") == strings.TrimSuffix(d.op, "DecodeString") && len(e.args) == len(d.args) && (len(e.args) < 2 || e.args[0] == d.args[0])
				c.must(same, g, "same codec", c.a.fn("data", "TokenFromString").Pos(), "tokens are encoded and decoded with different codecs")
			}
		}
	}}

// ---------------------------------------------------------------- user and group records

// record recognises the decryption of the record stored under some ID, authenticated against that ID.
func (c *Ctx) record(facts []Fact, p *Term, dt int64) *Term {
	id := c.recordShape(p, dt)
	if id == nil || !holds(facts, mkEq(decErr(p), tNil), true) {
		return nil
	}
	return id
}

func (c *Ctx) recordShape(p *Term, dt int64) *Term {
	if p.k != KApp || p.op != "decrypted" || len(p.args) != 4 {
		return nil
	}
	g1, f1 := storedField(p.args[2])
	g2, f2 := storedField(p.args[3])
	if g1 == nil || g1 != g2 || f1 != "WrappedKey" || f2 != "Ciphertext" || g1.args[3] != mkInt(dt) {
		return nil
	}
	aad := p.args[1]
	if aad.k == KIface {
		aad = aad.args[0]
	}
	if aad != g1.args[2] {
		return nil
	}
	return g1.args[2]
}

// users finds the user records decrypted successfully for the ID.
func (c *Ctx) users(o *Outcome, facts []Fact, uid *Term) []*Term {
	ut := c.a.typ("id", "User")
	dt := c.a.cint("id", "DataTypeSealedUser")
	var out []*Term
	for _, s := range o.top() {
		if s.op != "crypto.Decrypt" {
			continue
		}
		if tt := targetType(s.Event); tt == nil || !types.Identical(tt, ut) {
			continue
		}
		p := decryptedBy(s.Event, ut)
		if c.record(facts, p, dt) == uid {
			out = append(out, p)
		}
	}
	return out
}

// inLoopFact says that wherever a loop of the path carries a value containing t around, the atom is known.
func inLoopFact(o *Outcome, t, atom *Term) bool {
	n, ok := 0, true
	var rec func(evs []*Event)
	rec = func(evs []*Event) {
		for _, e := range evs {
			if e.loop == nil {
				continue
			}
			for _, b := range e.loop.backs {
				for _, x := range b.next {
					if contains(x, t) {
						n++
						if !holds(b.st.facts, atom, true) {
							ok = false
						}
						break
					}
				}
				rec(b.events)
			}
		}
	}
	rec(o.st.events)
	return ok && n > 0
}

// alternatives lists the values a set-all may store.
func alternatives(v *Term) []*Term {
	if v.k == KApp && v.op == "anyOf" {
		var out []*Term
		for _, a := range v.args {
			out = append(out, alternatives(a)...)
		}
		return out
	}
	if v.k == KApp && v.op == "valueOf" {
		return []*Term{v.args[0]}
	}
	return []*Term{v}
}

var gIdentity = &ruleGroup{name: "identity-from-authenticated-records", min: 6,
	what: "a successful GetIdentity returns the user ID sealed in the token, the scopes of the user record stored under and authenticated against that ID, and exactly the user's groups, each with its own ID and the scopes of the group record stored under and authenticated against that ID",
	f: func(c *Ctx, g *ruleGroup) {
		it, at, ut, gt := c.a.typ("id", "Identity"), c.a.typ("id", "AccessGroup"), c.a.typ("id", "User"), c.a.typ("id", "Group")
		gdt := c.a.cint("id", "DataTypeSealedGroup")
		c.each(g, profCrypto, "id", "Standalone.GetIdentity", "NewStandalone", func(r *Run, o *Outcome) {
			for _, s := range c.writes(o) {
				c.bad(g, c.opKey(r, s.Event), s.pos, "%s changes storage", r.name)
			}
			if !o.ok {
				return
			}
			uid := c.tokenIdentity(o, o.st.facts, r.param(1))
			if !c.must(uid != nil, g, r.name+" token", o.pos, "%s succeeds without having opened the token", r.name) {
				return
			}
			c.must(field(o.res[0], it, "ID") == uid, g, r.name+" ID", o.pos, "%s returns another ID than the one in the token", r.name)
			us := c.users(o, o.st.facts, uid)
			if !c.must(len(us) > 0, g, r.name+" user record", o.pos, "%s succeeds without the authenticated record of the token's user", r.name) {
				return
			}
			u := us[0]
			c.must(field(o.res[0], it, "Scopes") == field(u, ut, "Scopes"), g, r.name+" scopes", o.pos, "%s returns other scopes than those of the user's record", r.name)
			m := field(o.res[0], it, "Groups")
			ug := field(u, ut, "Groups")
			c.must(keysExactly(m, nil, nil, []*Term{ug}) || m.k == KMEmpty && holds(o.st.facts, mkEq(mkLen(ug), mkInt(0)), true), g, r.name+" groups", o.pos, "%s returns other groups than those of the user's record", r.name)
			var sets func(m *Term)
			sets = func(m *Term) {
				if m.k != KMSetAll {
					if m.k != KMEmpty {
						c.bad(g, r.name+" group entries", o.pos, "%s returns group entries of unknown origin", r.name)
					}
					return
				}
				sets(m.args[0])
				for _, v := range alternatives(m.args[2]) {
					gid := field(v, at, "ID")
					sc := field(v, at, "Scopes")
					elem := gid.k == KRangeKey || gid.k == KElem
					okRec := false
					if sc.k == KField {
						p := sc.args[0]
						if c.recordShape(p, gdt) == gid && field(p, gt, "Scopes") == sc {
							okRec = inLoopFact(o, p, mkEq(decErr(p), tNil))
						}
					}
					c.must(elem && okRec, g, r.name+" group scopes", o.pos, "%s gives a group scopes that do not come from the authenticated record of that group", r.name)
				}
			}
			sets(m)
		})
	}}

// passwordChecked says the facts show the password to match the user's stored hash.
func (c *Ctx) passwordChecked(o *Outcome, facts []Fact, u, pwd *Term) bool {
	h := field(u, c.a.typ("id", "User"), "SaltAndHash")
	for _, f := range facts {
		if f.val && f.atom.k == KApp && f.atom.op == "crypto.Compare" && f.atom.args[1] == pwd && f.atom.args[2] == h {
			return true
		}
	}
	return false
}

// passwordRefused says the facts show a negative comparison.
func passwordRefused(facts []Fact) bool {
	for _, f := range facts {
		if !f.val && f.atom.k == KApp && f.atom.op == "crypto.Compare" {
			return true
		}
	}
	return false
}

var gLogin = &ruleGroup{name: "password-before-token-or-change", min: 10,
	what: "LoginUser issues a token, and ChangeUserPassword stores anything, only after the given password was compared positively with the salted hash in the stored record authenticated against the requested user ID; every authentication failure is ErrNotAuthenticated, and a matching password is not refused",
	f: func(c *Ctx, g *ruleGroup) {
		na := c.a.sent("id", "ErrNotAuthenticated")
		for _, n := range []string{"Standalone.LoginUser", "Standalone.ChangeUserPassword"} {
			n := n
			c.each(g, profCrypto, "id", n, "NewStandalone", func(r *Run, o *Outcome) {
				uid, pwd := r.param(1), r.param(2)
				checked := func(facts []Fact) bool {
					for _, u := range c.users(o, facts, uid) {
						if c.passwordChecked(o, facts, u, pwd) {
							return true
						}
					}
					return false
				}
				for _, s := range o.sites() {
					if isIoWrite(s.Event) || s.op == "crypto.Encrypt" || s.op == "dyncall" || strings.HasPrefix(s.op, "ext:") || strings.HasPrefix(s.op, "invoke:") {
						c.must(checked(s.facts), g, c.opKey(r, s.Event), s.pos, "%s reaches %s on a path on which the password has not been verified against the authenticated record of the user", r.name, s.op)
					}
				}
				if o.ok {
					c.must(checked(o.st.facts), g, r.name+" success", o.pos, "%s succeeds on a path on which the password has not been verified against the authenticated record of the user", r.name)
					return
				}
				if o.panic {
					return
				}
				if !checked(o.st.facts) {
					c.must(isErr(o.err, na), g, r.name+" refusal", o.pos, "%s lets the caller distinguish why authentication failed", r.name)
				}
				c.must(failureKnown(o.st.facts) || passwordRefused(o.st.facts), g, r.name+" refused only with cause", o.pos, "%s fails although every operation succeeded and the password matched", r.name)
			})
		}
		// what a password change stores
		ut := c.a.typ("id", "User")
		c.each(g, profCrypto, "id", "Standalone.ChangeUserPassword", "NewStandalone", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			uid := r.param(1)
			ws := c.writes(o)
			if !c.must(len(ws) == 1 && ws[0].op == "io.Update" && len(ws[0].loops) == 0, g, r.name+" writes", o.pos, "%s does not make exactly one update", r.name) {
				return
			}
			p := c.sealedRecordOK(g, r, o, ws[0], uid, "SealedUser", "DataTypeSealedUser")
			us := c.users(o, o.st.facts, uid)
			if p == nil || len(us) == 0 {
				return
			}
			gp := resOf(field(p, ut, "SaltAndHash"), 1)
			c.must(gp != nil && isEv(gp, "crypto.GeneratePassword") && holds(o.st.facts, mkEq(res(2, errType(), gp), tNil), true), g, r.name+" new hash", ws[0].pos, "%s does not store the hash of a newly generated password", r.name)
			c.must(gp != nil && resOf(o.res[0], 0) == gp, g, r.name+" new password", o.pos, "%s returns another password than the one whose hash it stores", r.name)
			c.must(field(p, ut, "Scopes") == field(us[0], ut, "Scopes") && sameKeys(field(p, ut, "Groups"), field(us[0], ut, "Groups")), g, r.name+" rest unchanged", ws[0].pos, "%s changes the user's scopes or groups", r.name)
		})
	}}

// sealedRecordOK checks a stored user or group and returns what is sealed in it.
func (c *Ctx) sealedRecordOK(g *ruleGroup, r *Run, o *Outcome, s Site, id *Term, typ, dt string) *Term {
	key := c.opKey(r, s.Event)
	st := c.a.typ("id", typ)
	v := storedValue(s.Event)
	if v == nil || v.typ == nil || !types.Identical(v.typ, st) {
		c.bad(g, key+" value", s.pos, "%s stores something other than a serialised %s", r.name, typ)
		return nil
	}
	c.must(s.args[3] == mkInt(c.a.cint("id", dt)), g, key+" data type", s.pos, "%s stores the record under another data type", r.name)
	c.must(s.args[2] == id, g, key+" id", s.pos, "%s stores the record under another ID", r.name)
	c.must(holds(o.st.facts, mkEq(errOf(s.Event), tNil), true) || !o.ok, g, key+" succeeded", s.pos, "%s succeeds although %s may have failed", r.name, s.op)
	enc := encryptionOf(o, field(v, st, "Ciphertext"), 1)
	if !c.must(enc != nil && encryptionOf(o, field(v, st, "WrappedKey"), 0) == enc, g, key+" sealed", s.pos, "%s stores a record that is not made of one encryption of this call", r.name) {
		return nil
	}
	c.must(aadOf(enc) == id, g, key+" authenticated data", enc.pos, "%s does not bind the record to its ID", r.name)
	return plainOf(enc)
}

// memberOfAll says the path has established that every element of gids is a group of the user with the ID.
func (c *Ctx) memberOfAll(o *Outcome, s Site, uid, gids *Term) bool {
	ut := c.a.typ("id", "User")
	var maps []*Term
	for _, u := range c.users(o, s.facts, uid) {
		maps = append(maps, field(u, ut, "Groups"))
	}
	for i, e := range o.st.events {
		if i >= s.idx || e.loop == nil || e.sweep == nil {
			continue
		}
		el := e.sweep.at(gids)
		if el == nil {
			continue
		}
		all := true
		for _, b := range e.loop.backs {
			if impossibleBack(s.facts, e, b) {
				continue
			}
			in := false
			for _, m := range maps {
				if memberKnown(b.st.facts, el, m) {
					in = true
				}
			}
			if !in {
				all = false
			}
		}
		if all {
			return true
		}
	}
	// nothing to change
	return holds(s.facts, mkEq(mkLen(gids), mkInt(0)), true)
}

// memberKnown says the facts show k to be in a map with the same keys as m.
func memberKnown(facts []Fact, k, m *Term) bool {
	for _, f := range facts {
		if f.val && f.atom.k == KLookupOk && f.atom.args[1] == k && subKeys(f.atom.args[0], m) {
			return true
		}
	}
	return inMap(facts, k, m)
}

func memberDenied(facts []Fact, gids, m *Term) bool {
	for _, f := range facts {
		if !f.val && f.atom.k == KLookupOk && subKeys(m, f.atom.args[0]) {
			k := f.atom.args[1]
			if k.k == KElem && k.args[0] == gids || seqElem(gids, k) {
				return true
			}
		}
	}
	return false
}

func seqElem(seq, k *Term) bool {
	if seq.k == KLit {
		for _, a := range seq.args {
			if a == k {
				return true
			}
		}
	}
	return false
}

var gMembership = &ruleGroup{name: "membership-before-group-changes", min: 12,
	what: "AddUserToGroups and RemoveUserFromGroups change storage only after the caller's token was opened and a complete pass over the given groups has shown each to be a group of the caller; they then update the named user's record with exactly those groups added or removed, and refuse with ErrNotAuthorized only when some group is not the caller's",
	f: func(c *Ctx, g *ruleGroup) {
		ut := c.a.typ("id", "User")
		nz := c.a.sent("id", "ErrNotAuthorized")
		for _, n := range []string{"Standalone.AddUserToGroups", "Standalone.RemoveUserFromGroups"} {
			n := n
			c.each(g, profCrypto, "id", n, "NewStandalone", func(r *Run, o *Outcome) {
				tok, uid, gids := r.param(1), r.param(2), r.param(3)
				ws := c.writes(o)
				for _, s := range ws {
					caller := c.tokenIdentity(o, s.facts, tok)
					if !c.must(caller != nil, g, c.opKey(r, s.Event)+" authenticated", s.pos, "%s changes storage without having opened the caller's token", r.name) {
						continue
					}
					c.must(c.memberOfAll(o, s, caller, gids), g, c.opKey(r, s.Event)+" membership", s.pos, "%s changes storage on a path on which the caller is not shown to be a member of every given group", r.name)
				}
				if !o.ok {
					if !o.panic && isErr(o.err, nz) {
						caller := c.tokenIdentity(o, o.st.facts, tok)
						denied := false
						if caller != nil {
							for _, u := range c.users(o, o.st.facts, caller) {
								denied = denied || c.deniedSomewhere(o, gids, field(u, ut, "Groups"))
							}
						}
						c.must(denied, g, r.name+" refusal", o.pos, "%s returns ErrNotAuthorized although no given group is shown not to be the caller's", r.name)
					}
					return
				}
				if len(ws) == 0 && holds(o.st.facts, mkEq(mkLen(gids), mkInt(0)), true) {
					return
				}
				if !c.must(len(ws) == 1 && ws[0].op == "io.Update" && len(ws[0].loops) == 0, g, r.name+" writes", o.pos, "%s does not make exactly one update", r.name) {
					return
				}
				p := c.sealedRecordOK(g, r, o, ws[0], uid, "SealedUser", "DataTypeSealedUser")
				us := c.users(o, o.st.facts, uid)
				if !c.must(len(us) > 0, g, r.name+" user record", o.pos, "%s succeeds without the authenticated record of the user", r.name) || p == nil {
					return
				}
				u := us[len(us)-1]
				ug := field(u, ut, "Groups")
				pg := field(p, ut, "Groups")
				k := keysOf(pg)
				if n == "Standalone.AddUserToGroups" {
					c.must(keysExactly(pg, nil, []*Term{gids}, []*Term{ug}) || pg == ug && holds(o.st.facts, mkEq(mkLen(gids), mkInt(0)), true), g, r.name+" groups", ws[0].pos, "%s stores other groups than the user's and those given", r.name)
				} else {
					c.must(k.ok && len(k.one) == 0 && len(k.seqs) == 0 && len(k.del) == 0 && sameSet(k.maps, setOf(ug)) && sameSet(k.dels, setOf(gids)) || pg == ug && holds(o.st.facts, mkEq(mkLen(gids), mkInt(0)), true), g, r.name+" groups", ws[0].pos, "%s stores other groups than the user's without those given", r.name)
				}
				c.must(field(p, ut, "SaltAndHash") == field(u, ut, "SaltAndHash") && field(p, ut, "Scopes") == field(u, ut, "Scopes"), g, r.name+" rest unchanged", ws[0].pos, "%s changes the user's password or scopes", r.name)
			})
		}
	}}

// deniedSomewhere says the path or one of its loops has found a given group outside the map.
func (c *Ctx) deniedSomewhere(o *Outcome, gids, m *Term) bool {
	if memberDenied(o.st.facts, gids, m) {
		return true
	}
	for _, e := range o.loopEvents() {
		for _, b := range e.loop.backs {
			if memberDenied(b.st.facts, gids, m) {
				return true
			}
		}
	}
	return false
}

// unionOf says the value is the union of the scopes in the sequence.
func unionOf(t, scopes *Term) bool {
	for t.k == KConv {
		t = t.args[0]
	}
	return t.k == KApp && t.op == "orAll" && t.args[1] == scopes && t.args[0] == mkInt(0)
}

// freshUUID says the string is the text of a random UUID made on this path.
func freshUUID(o *Outcome, t *Term) bool {
	ok := false
	walk(t, func(x *Term) bool {
		if ev := resOf(x, 0); ev != nil && isEv(ev, "uuid.NewV4") && holds(o.st.facts, mkEq(res(1, errType(), ev), tNil), true) {
			ok = true
		}
		return !ok
	})
	return ok && t.k == KApp && t.op == "uuid.UUID.String"
}

var gNewUser = &ruleGroup{name: "new-users-and-groups", min: 14,
	what: "NewUser stores, under a fresh random ID, one new user record with the hash of the returned random password, the union of the given scopes and no groups; NewGroup does so for a group and adds it to the authenticated caller's own record only after the group was stored; DeleteUser deletes only the named user's record and only for an authenticated caller",
	f: func(c *Ctx, g *ruleGroup) {
		ut, gt := c.a.typ("id", "User"), c.a.typ("id", "Group")
		c.each(g, profCrypto, "id", "Standalone.NewUser", "NewStandalone", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			scopes := r.param(1)
			ws := c.writes(o)
			if !c.must(len(ws) == 1 && ws[0].op == "io.Put" && len(ws[0].loops) == 0, g, r.name+" writes", o.pos, "%s does not store exactly one new record", r.name) {
				return
			}
			uid := o.res[0]
			c.must(freshUUID(o, uid), g, r.name+" fresh ID", o.pos, "%s does not return a fresh random user ID", r.name)
			p := c.sealedRecordOK(g, r, o, ws[0], uid, "SealedUser", "DataTypeSealedUser")
			if p == nil {
				return
			}
			gp := resOf(field(p, ut, "SaltAndHash"), 1)
			c.must(gp != nil && isEv(gp, "crypto.GeneratePassword") && resOf(o.res[1], 0) == gp && holds(o.st.facts, mkEq(res(2, errType(), gp), tNil), true), g, r.name+" password", o.pos, "%s does not store the hash of the password it returns", r.name)
			c.must(unionOf(field(p, ut, "Scopes"), scopes), g, r.name+" scopes", ws[0].pos, "%s stores other scopes than the union of those given", r.name)
			c.must(field(p, ut, "Groups").k == KMEmpty, g, r.name+" groups", ws[0].pos, "%s does not start the user with an empty set of groups", r.name)
		})
		c.each(g, profCrypto, "id", "Standalone.NewGroup", "NewStandalone", func(r *Run, o *Outcome) {
			tok, scopes := r.param(1), r.param(2)
			var put *Site
			for _, s := range c.writes(o) {
				s := s
				c.must(c.tokenIdentity(o, s.facts, tok) != nil, g, c.opKey(r, s.Event)+" authenticated", s.pos, "%s changes storage without having opened the caller's token", r.name)
				if s.op == "io.Put" {
					put = &s
				} else {
					c.must(put != nil && holds(s.facts, mkEq(errOf(put.Event), tNil), true), g, c.opKey(r, s.Event)+" after the group", s.pos, "%s changes the caller's record before the group is stored", r.name)
				}
			}
			if !o.ok {
				return
			}
			ws := c.writes(o)
			if !c.must(len(ws) == 2 && ws[0].op == "io.Put" && ws[1].op == "io.Update" && len(ws[0].loops) == 0 && len(ws[1].loops) == 0, g, r.name+" writes", o.pos, "%s does not store one new group and update one user", r.name) {
				return
			}
			gid := o.res[0]
			c.must(freshUUID(o, gid), g, r.name+" fresh ID", o.pos, "%s does not return a fresh random group ID", r.name)
			if p := c.sealedRecordOK(g, r, o, ws[0], gid, "SealedGroup", "DataTypeSealedGroup"); p != nil {
				c.must(unionOf(field(p, gt, "Scopes"), scopes), g, r.name+" scopes", ws[0].pos, "%s stores other scopes than the union of those given", r.name)
			}
			caller := c.tokenIdentity(o, o.st.facts, tok)
			if caller == nil {
				return
			}
			p := c.sealedRecordOK(g, r, o, ws[1], caller, "SealedUser", "DataTypeSealedUser")
			if p == nil {
				return
			}
			good := false
			for _, u := range c.users(o, o.st.facts, caller) {
				if keysExactly(field(p, ut, "Groups"), []*Term{gid}, nil, []*Term{field(u, ut, "Groups")}) && field(p, ut, "SaltAndHash") == field(u, ut, "SaltAndHash") && field(p, ut, "Scopes") == field(u, ut, "Scopes") {
					good = true
				}
			}
			c.must(good, g, r.name+" caller's record", ws[1].pos, "%s does not add exactly the new group to the caller's record", r.name)
		})
		c.each(g, profCrypto, "id", "Standalone.DeleteUser", "NewStandalone", func(r *Run, o *Outcome) {
			tok, uid := r.param(1), r.param(2)
			ws := c.writes(o)
			for _, s := range ws {
				c.must(c.tokenIdentity(o, s.facts, tok) != nil, g, c.opKey(r, s.Event)+" authenticated", s.pos, "%s changes storage without having opened the caller's token", r.name)
				c.must(s.op == "io.Delete" && s.args[2] == uid && s.args[3] == mkInt(c.a.cint("id", "DataTypeSealedUser")) && len(s.loops) == 0, g, c.opKey(r, s.Event)+" record", s.pos, "%s changes storage other than by deleting the named user's record", r.name)
			}
			if o.ok {
				c.must(len(ws) == 1 && holds(o.st.facts, mkEq(errOf(ws[0].Event), tNil), true), g, r.name+" success", o.pos, "%s succeeds although the user may remain", r.name)
			}
		})
	}}

// ---------------------------------------------------------------- scope algebra

var gScopes = &ruleGroup{name: "scope-algebra", min: 8,
	what: "Contains is true exactly when every bit of its argument is present; ScopeUnion is the bitwise union of its arguments; the scope constants are distinct single bits, all within ScopeAll; GetIDs is the identity's own ID and its groups' IDs; GetIDScope is the identity's scopes for its own ID, the group's for a group, and none otherwise",
	f: func(c *Ctx, g *ruleGroup) {
		c.each(g, profNone, "id", "Scope.Contains", "", func(r *Run, o *Outcome) {
			s, x := r.par[0], r.par[1]
			for _, d := range []uint64{0, 1, 2, 3, 5, 1 << 8, 1<<9 - 1, 1 << 62, 1<<62 | 5} {
				for _, e := range []uint64{0, 1, 2, 3, 4, 6, 1 << 8, 1<<9 - 1, 1 << 62, 1<<62 | 5} {
					sub := func(t *Term) *Term {
						switch t {
						case s:
							return mkU64(d)
						case x:
							return mkU64(e)
						}
						return nil
					}
					feasible := true
					for _, f := range o.st.facts {
						if v, ok := evalU(subst(f.atom, sub)); ok && v != f.val {
							feasible = false
						}
					}
					if !feasible {
						continue
					}
					v, ok := evalU(subst(o.res[0], sub))
					c.must(ok && v == (d&e == e), g, r.name, o.pos, "%s is not the inclusion of scopes (wrong for %d and %d)", r.name, d, e)
				}
			}
		})
		c.each(g, profNone, "id", "ScopeUnion", "", func(r *Run, o *Outcome) {
			c.must(unionOf(o.res[0], r.par[0]) || unionOfList(o.res[0], r.par[0], o.st.facts), g, r.name, o.pos, "%s is not the bitwise union of its arguments", r.name)
		})
		it, at := c.a.typ("id", "Identity"), c.a.typ("id", "AccessGroup")
		recv := func(r *Run) *Term {
			if pointee(r.par[0].typ) != nil {
				return derefParam(r.par[0], it)
			}
			return r.par[0]
		}
		c.each(g, profNone, "id", "Identity.GetIDs", "", func(r *Run, o *Outcome) {
			i := recv(r)
			c.must(keysExactly(o.res[0], []*Term{field(i, it, "ID")}, nil, []*Term{field(i, it, "Groups")}), g, r.name, o.pos, "%s is not the identity's ID and the IDs of its groups", r.name)
		})
		c.each(g, profNone, "id", "Identity.GetIDScope", "", func(r *Run, o *Outcome) {
			i, id := recv(r), r.par[1]
			own, groups := field(i, it, "ID"), field(i, it, "Groups")
			isOwn, notOwn := knownEq(o.st.facts, id, own), holds(o.st.facts, mkEq(id, own), false)
			in, out := holds(o.st.facts, mkLookupOk(groups, id, constEq), true), holds(o.st.facts, mkLookupOk(groups, id, constEq), false)
			gs := field(mkLookup(groups, id, at, constEq), at, "Scopes")
			v := o.res[0]
			good := false
			switch {
			case v == field(i, it, "Scopes"):
				good = isOwn
			case v == gs:
				good = notOwn // the zero value when absent
				_ = in
			case v == mkInt(0):
				good = notOwn && out
			}
			c.must(good, g, r.name, o.pos, "%s does not give the scopes held by the ID", r.name)
		})
		// constants
		names := []string{"ScopeEncrypt", "ScopeDecrypt", "ScopeUpdate", "ScopeDelete", "ScopeCreateToken", "ScopeGetTokenContents", "ScopeGetAccessGroups", "ScopeModifyAccessGroups", "ScopeIndex"}
		all := c.a.cint("id", "ScopeAll")
		seen := map[int64]string{}
		pos := c.a.fn("id", "ScopeUnion").Pos()
		for _, n := range names {
			v := c.a.cint("id", n)
			ok := v > 0 && v&(v-1) == 0 && seen[v] == "" && all&v == v
			c.must(ok, g, n, pos, "%s is not a bit of its own contained in ScopeAll", n)
			seen[v] = n
		}
		c.must(c.a.cint("id", "ScopeNone") == 0, g, "ScopeNone", pos, "ScopeNone is not empty")
	}}

func mkU64(v uint64) *Term {
	return mk(KConst, "", 0, types.Typ[types.Uint64], constant.MakeUint64(v), nil)
}

// evalU evaluates a closed boolean expression over 64-bit values.
func evalU(t *Term) (bool, bool) {
	if t == tTrue {
		return true, true
	}
	if t == tFalse {
		return false, true
	}
	return evalBool(t, nil, 0)
}
