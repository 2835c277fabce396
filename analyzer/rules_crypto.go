package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- which key, which ID

// api are the exported methods of a type analysed on what its constructor returns.
type api struct{ pkg, typ, ctor string }

var apis = []api{{"", "D1", "New"}, {"id", "Standalone", "NewStandalone"}, {"index", "SecureIndex", "NewSecureIndex"}}

// eachAPI visits the outcomes of every exported method of the three services.
func (c *Ctx) eachAPI(g *ruleGroup, f func(a api, r *Run, o *Outcome)) {
	for _, a := range apis {
		for _, m := range c.a.exportedMethods(a.pkg, a.typ) {
			a := a
			c.each(g, profCrypto, a.pkg, a.typ+"."+m.Name(), a.ctor, func(r *Run, o *Outcome) { f(a, r, o) })
		}
	}
}

// keyOf is the key a cryptor or tagger was made from.
func keyOf(cryptor *Term, ctor string) *Term {
	t := deref(cryptor)
	if t.k == KDeref {
		t = t.args[0]
	}
	if t.k == KRes && t.n == 0 && t.args[0].k == KApp && t.args[0].op == ctor {
		return t.args[0].args[0]
	}
	return nil
}

// keyName names a key: the field of the key provider's answer or configuration, or the purpose it was derived for.
func keyName(k *Term) string {
	if k == nil {
		return "?"
	}
	if k.k == KField && k.args[0].typ != nil {
		if st := structOf(k.args[0].typ); st != nil && k.n < st.NumFields() {
			return st.Field(k.n).Name()
		}
	}
	if k.k == KApp && k.op == "crypto.KMACKDF" && len(k.args) == 4 {
		n := k.args[2]
		l, ok := n.strVal()
		if !ok {
			l = n.String()
		}
		return keyName(k.args[1]) + "/" + l
	}
	return "?"
}

// derivation takes a derived key apart: the base key, the label and the contexts.
func derivation(k *Term) (base, label *Term, ctx []*Term) {
	if k == nil || k.k != KApp || k.op != "crypto.KMACKDF" || len(k.args) != 4 {
		return nil, nil, nil
	}
	c := k.args[3]
	if c.k == KLit {
		ctx = c.args
	}
	return k.args[1], k.args[2], ctx
}

// kind names what a stored data type is.
func (c *Ctx) kindOf(dt *Term) string {
	for _, k := range []struct{ pkg, name, kind string }{{"io", "DataTypeSealedObject", "object"}, {"io", "DataTypeSealedAccess", "access"}, {"io", "DataTypeSealedNode", "node"}, {"id", "DataTypeSealedUser", "user"}, {"id", "DataTypeSealedGroup", "group"}} {
		if dt == mkInt(c.a.cint(k.pkg, k.name)) {
			return k.kind
		}
	}
	return ""
}

// kindKey says whether the cryptor is made from the key meant for the kind of record.
func kindKey(kind string, cryptor *Term, kw func() *Term) bool {
	k := keyOf(cryptor, "crypto.NewAESCryptor")
	switch kind {
	case "object":
		return keyName(k) == "KEK"
	case "access":
		return keyName(k) == "AEK"
	case "user":
		return keyName(k) == "UEK"
	case "group":
		return keyName(k) == "GEK"
	case "token":
		return keyName(k) == "TEK"
	case "node":
		base, label, ctx := derivation(k)
		l, ok := labelText(label)
		return base != nil && keyName(base) == "IEK" && ok && l == "id" && len(ctx) == 1 && ctx[0] == kw()
	}
	return false
}

func labelText(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	if s, ok := t.strVal(); ok {
		return s, true
	}
	if t.k == KLit {
		var b []byte
		for _, x := range t.args {
			v, ok := x.intVal()
			if !ok {
				return "", false
			}
			b = append(b, byte(v))
		}
		return string(b), true
	}
	return "", false
}

// bindsID says the associated data is the ID, possibly with constants around it.
func bindsID(aad, id *Term) bool {
	if aad == id {
		return true
	}
	if aad.k != KConcat {
		return false
	}
	n := 0
	for _, p := range aad.args {
		if p == id {
			n++
		} else if !p.isConst() && p.k != KLit && p.k != KZeros {
			return false
		}
	}
	return n == 1
}

// aadShape abstracts the ID and the data away, to compare what is authenticated when sealing and when opening.
func aadShape(aad, id, ad *Term) string {
	one := func(p *Term) string {
		switch {
		case p == id:
			return "ID"
		case ad != nil && p == ad:
			return "DATA"
		}
		return p.String()
	}
	if aad == id {
		return "ID"
	}
	if aad.k == KConcat {
		var s []string
		for _, p := range aad.args {
			s = append(s, one(p))
		}
		return strings.Join(s, "+")
	}
	return one(aad)
}

// keywordOf is the keyword parameter of an index operation.
func keywordOf(r *Run) func() *Term {
	return func() *Term {
		for i, p := range r.fn.Params {
			if p.Name() == "keyword" {
				return r.par[i]
			}
		}
		if len(r.par) > 3 {
			return r.par[3]
		}
		return nil
	}
}

// sealing describes one encryption or decryption of a record on a path.
type sealing struct {
	kind    string
	id, aad *Term
	ad      *Term // the object's associated data
	cryptor *Term
	site    Site
	open    bool
	flaw    string
}

// openings describes the decryptions on a path.
func (c *Ctx) sealings(r *Run, o *Outcome) []sealing {
	var out []sealing
	tokT := c.a.typ("data", "SealedToken")
	for _, s := range o.sites() {
		if s.op != "crypto.Decrypt" {
			continue
		}
		x := sealing{site: s, cryptor: s.args[0], aad: aadOf(s.Event), open: true}
		wk, ct := s.args[3], s.args[4]
		get, f := storedField(ct)
		switch {
		case get != nil:
			x.kind = c.kindOf(get.args[3])
			x.id = get.args[2]
			if f != "Ciphertext" {
				x.flaw = "what it decrypts is not the ciphertext of the record it read"
			}
			if x.kind == "object" {
				d := ct.args[0]
				x.ad = field(d, d.typ, "AssociatedData")
				// the key comes from the access list of the same object
				if !(wk.k == KField && wk.args[0].k == KApp && wk.args[0].op == "decrypted") {
					x.flaw = "the object's key does not come from its access list"
				} else if g2, f2 := storedField(wk.args[0].args[3]); g2 == nil || f2 != "Ciphertext" || g2.args[2] != x.id {
					x.flaw = "the object's key comes from the access list of another object"
				}
			} else if g2, f2 := storedField(wk); g2 != get || f2 != "WrappedKey" {
				x.flaw = "the wrapped key does not belong to the record it read"
			}
		case ct.k == KField && ct.args[0].typ != nil && types.Identical(ct.args[0].typ, tokT):
			x.kind = "token"
			x.id = field(ct.args[0], tokT, "ExpiryTime")
			if wk != field(ct.args[0], tokT, "WrappedKey") || ct != field(ct.args[0], tokT, "Ciphertext") {
				x.flaw = "the wrapped key does not belong to the token"
			}
		default:
			x.flaw = "the ciphertext is neither that of a stored record nor that of a token"
		}
		out = append(out, x)
	}
	done := map[*Event]bool{}
	so := c.a.typ("data", "SealedObject")
	for _, s := range o.sites() {
		v := storedValue(s.Event)
		if v == nil {
			continue
		}
		kind := c.kindOf(s.args[3])
		x := sealing{kind: kind, id: s.args[2], site: s}
		if v.typ == nil || structOf(v.typ) == nil {
			x.flaw = "it stores something that is not a sealed record"
			out = append(out, x)
			continue
		}
		ct := field(v, v.typ, "Ciphertext")
		ev := resOf(ct, 1)
		if ev == nil || !isEv(ev, "crypto.Encrypt") {
			x.flaw = "it stores a record that this call did not encrypt"
			out = append(out, x)
			continue
		}
		x.cryptor = ev.args[0]
		x.aad = ev.args[2]
		if x.aad.k == KIface {
			x.aad = x.aad.args[0]
		}
		if kind == "object" && types.Identical(v.typ, so) {
			x.ad = field(v, so, "AssociatedData")
		}
		for _, s2 := range o.sites() {
			if s2.term == ev {
				done[s2.Event] = true
			}
		}
		out = append(out, x)
	}
	for _, s := range o.sites() {
		if s.op != "crypto.Encrypt" || done[s.Event] {
			continue
		}
		// encrypted, but not stored by this path: it may have failed, or the result is a token
		x := sealing{site: s, cryptor: s.args[0], aad: aadOf(s.Event)}
		if x.aad.typ != nil && shortType(x.aad.typ) == "time.Time" {
			x.kind = "token"
			x.id = x.aad
			out = append(out, x)
		}
	}
	return out
}

var gBinding = &ruleGroup{name: "record-bound-to-id", min: 20,
	what: "every decryption of a stored record authenticates the ID the record was requested under (for objects together with the associated data it returns, with the key taken from the same object's access list), every encryption of a record that is stored authenticates the ID it is stored under, and both use the same form",
	f: func(c *Ctx, g *ruleGroup) {
		shapes := map[string]map[string]Site{}
		c.eachAPI(g, func(a api, r *Run, o *Outcome) {
			for _, x := range c.sealings(r, o) {
				what := "encryption"
				if x.open {
					what = "decryption"
				}
				key := r.name + " " + what + " of " + x.kind
				if x.flaw != "" {
					c.bad(g, key, x.site.pos, "%s: %s", r.name, x.flaw)
					continue
				}
				if x.kind == "token" {
					c.must(x.aad == x.id, g, key, x.site.pos, "%s does not authenticate the token's expiry time", r.name)
					continue
				}
				ok := bindsID(x.aad, x.id)
				if x.kind == "object" {
					ok = bindsBoth(x.aad, x.id, x.ad)
				}
				c.must(ok, g, key, x.site.pos, "%s does not authenticate the ID of the %s it handles", r.name, x.kind)
				sh := aadShape(x.aad, x.id, x.ad)
				if shapes[x.kind] == nil {
					shapes[x.kind] = map[string]Site{}
				}
				shapes[x.kind][sh] = x.site
			}
		})
		var kinds []string
		for k := range shapes {
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		for _, k := range kinds {
			var list []string
			var pos token.Pos
			for s, st := range shapes[k] {
				list = append(list, s)
				pos = st.pos
			}
			sort.Strings(list)
			c.must(len(list) == 1, g, "form for "+k, pos, "the associated data of %s records has different forms: %s", k, strings.Join(list, " / "))
		}
	}}

var gKeyUse = &ruleGroup{name: "one-key-per-purpose", min: 20,
	what: "objects, access lists, users, groups and tokens are encrypted and decrypted only with the key meant for them; index entries with a key derived from the index key, the purpose and the keyword; labels with a tag key derived for the other purpose",
	f: func(c *Ctx, g *ruleGroup) {
		c.eachAPI(g, func(a api, r *Run, o *Outcome) {
			for _, x := range c.sealings(r, o) {
				if x.flaw != "" || x.cryptor == nil {
					continue
				}
				c.must(kindKey(x.kind, x.cryptor, keywordOf(r)), g, r.name+" key for "+x.kind, x.site.pos, "%s handles the %s with a key that is not the one meant for it", r.name, x.kind)
			}
			for _, s := range o.sites() {
				if s.op != "crypto.Tag" {
					continue
				}
				k := keyOf(s.args[0], "crypto.NewKMAC256Tagger")
				base, label, ctx := derivation(k)
				l, ok := labelText(label)
				c.must(base != nil && keyName(base) == "IEK" && ok && l == "label" && len(ctx) == 1 && ctx[0] == keywordOf(r)(), g, r.name+" key for labels", s.pos, "%s computes labels with a key that is not derived from the index key for labels of the keyword", r.name)
			}
		})
	}}

var gKeyLength = &ruleGroup{name: "keys-are-32-bytes", min: 8,
	what: "a service, cryptor or tagger is only constructed when each of its keys is exactly 32 bytes long, and is not refused keys of that length",
	f: func(c *Ctx, g *ruleGroup) {
		lens := func(o *Outcome, k *Term) bool { return holds(o.st.facts, mkEq(mkLen(k), mkInt(32)), true) }
		check := func(pkg, name string, keys func(r *Run, o *Outcome) map[string]*Term) {
			c.each(g, profNone, pkg, name, "", func(r *Run, o *Outcome) {
				ks := keys(r, o)
				var names []string
				for n := range ks {
					names = append(names, n)
				}
				sort.Strings(names)
				if o.ok {
					for _, n := range names {
						c.must(lens(o, ks[n]), g, r.name+" "+n, o.pos, "%s accepts a %s that is not 32 bytes long", r.name, n)
					}
					return
				}
				cause := failureKnown(o.st.facts)
				for _, n := range names {
					cause = cause || holds(o.st.facts, mkEq(mkLen(ks[n]), mkInt(32)), false)
				}
				if !c.must(cause, g, r.name+" refusal", o.pos, "%s refuses although the keys have the right length and nothing failed", r.name) || failureKnown(o.st.facts) {
					return
				}
				want := [2]string{"crypto", "ErrInvalidKeyLength"}
				if pkg == "index" {
					want = [2]string{"index", "ErrInvalidMasterKeyLength"}
				}
				c.must(isErr(o.err, c.a.sent(want[0], want[1])), g, r.name+" answer", o.pos, "%s does not answer a key of the wrong length with %s", r.name, want[1])
			})
		}
		first := func(r *Run, o *Outcome) map[string]*Term { return map[string]*Term{"key": r.par[0]} }
		check("crypto", "NewAESCryptor", first)
		check("crypto", "NewKMAC256Tagger", first)
		provided := func(names ...string) func(r *Run, o *Outcome) map[string]*Term {
			return func(r *Run, o *Outcome) map[string]*Term {
				kt := c.a.typ("key", "Keys")
				m := map[string]*Term{}
				for _, s := range o.top() {
					if s.op == "key.GetKeys" {
						for _, n := range names {
							m[n] = field(res(0, kt, s.term), kt, n)
						}
					}
				}
				if len(m) == 0 && o.ok {
					c.bad(g, r.name+" keys", o.pos, "%s succeeds without asking the key provider", r.name)
				}
				return m
			}
		}
		check("", "New", provided("KEK", "AEK", "TEK"))
		check("index", "NewSecureIndex", provided("IEK"))
		check("id", "NewStandalone", func(r *Run, o *Outcome) map[string]*Term {
			t := r.par[0].typ
			m := map[string]*Term{}
			for _, n := range []string{"UEK", "GEK", "TEK"} {
				m[n] = field(r.par[0], t, n)
			}
			return m
		})
	}}

var gStaticKeys = &ruleGroup{name: "static-keys-are-the-given-keys", min: 4,
	what: "the static key provider answers every request with exactly the keys it was made with, each for its own purpose, and without an error",
	f: func(c *Ctx, g *ruleGroup) {
		kt := c.a.typ("key", "Keys")
		c.each(g, profNone, "key", "Static.GetKeys", "NewStatic", func(r *Run, o *Outcome) {
			if !c.must(o.ok, g, r.name+" answers", o.pos, "%s can fail", r.name) {
				return
			}
			given := c.ctorParam("key", "NewStatic")
			for _, n := range []string{"KEK", "AEK", "TEK", "IEK"} {
				got, want := field(o.res[0], kt, n), field(given, kt, n)
				c.must(got == want || got == r.in.snap(o.st, want), g, r.name+" "+n, o.pos, "%s answers another %s than the one it was made with", r.name, n)
			}
		})
	}}

// ---------------------------------------------------------------- what reaches storage

// leaks finds a part of a value handed to storage that is neither encrypted nor public.
func (c *Ctx) leaks(t *Term, public func(*Term) bool) *Term {
	if public(t) {
		return nil
	}
	if e := t; e.k == KRes && (isEv(e.args[0], "crypto.Encrypt") && e.n < 2 || e.args[0].k == KApp && e.args[0].op == "crypto.Tag" && e.n == 0) {
		return nil
	}
	switch t.k {
	case KConst, KNil, KZeros, KMEmpty:
		return nil
	case KRes:
		if t.args[0].k == KApp && t.args[0].op == "json.Marshal" {
			return c.leaks(t.args[0].args[0], public)
		}
	case KStruct, KConcat, KLit, KConv, KSub, KIface, KPtrTo, KUpd:
		for _, a := range t.args {
			if x := c.leaks(a, public); x != nil {
				return x
			}
		}
		return nil
	case KApp:
		if t.op == "json.Marshal" {
			return c.leaks(t.args[0], public)
		}
	}
	return t
}

var gSealedOnly = &ruleGroup{name: "storage-sees-only-sealed-data", min: 11,
	what: "what an operation hands to storage consists, after cutting at authenticated encryption and keyed tags, only of the record's own ID, the associated data of an object, and constants; index labels are keyed tags of the operation's keyword key",
	f: func(c *Ctx, g *ruleGroup) {
		ot := c.a.typ("data", "Object")
		c.eachAPI(g, func(a api, r *Run, o *Outcome) {
			for _, s := range o.sites() {
				if !isIoOp(s.Event) {
					continue
				}
				kind := c.kindOf(s.args[3])
				key := c.opKey(r, s.Event)
				id := s.args[2]
				if kind == "node" {
					c.must(resOf(id, 0) != nil && resOf(id, 0).op == "crypto.Tag", g, key+" label", s.pos, "%s gives storage an index label that is not a keyed tag", r.name)
				} else {
					x := c.leaks(id, func(t *Term) bool {
						if t.k == KParam {
							return true
						}
						if isEv(t, "uuid.NewV4") || t.k == KRes && isEv(t.args[0], "uuid.NewV4") || t.k == KApp && strings.HasPrefix(t.op, "uuid.") {
							return true
						}
						if kind == "user" && t.k == KApp && t.op == "decrypted" && keyName(keyOf(t.args[0], "crypto.NewAESCryptor")) == "TEK" {
							return true // the caller's own ID, which is where their record is stored anyway
						}
						return s.op == "io.Get" // IDs read from authenticated records
					})
					c.must(x == nil, g, key+" id", s.pos, "%s gives storage an ID made from private data", r.name)
				}
				if !isIoWrite(s.Event) || s.op == "io.Delete" {
					continue
				}
				x := c.leaks(s.args[4], func(t *Term) bool {
					if t == id {
						return true
					}
					if kind == "object" && t.k == KField && t.args[0].typ != nil && types.Identical(t.args[0].typ, ot) && t.n == fieldIdx(ot, "AssociatedData") && (t.args[0].k == KDeref || t.args[0].k == KParam) {
						return true
					}
					return false
				})
				what := ""
				if x != nil {
					what = x.String()
				}
				c.must(x == nil, g, key+" data", s.pos, "%s hands storage something that is neither encrypted nor public: %s", r.name, what)
			}
		})
	}}

// ---------------------------------------------------------------- fresh keys and nonces

// wholeRandom recognises the n bytes one read of the system's random source filled.
func wholeRandom(t *Term, o *Outcome, n int64) *Term {
	x := t
	if x.k == KSub {
		if x.args[1] != mkInt(0) || mkLen(x) != mkInt(n) {
			return nil
		}
		x = x.args[0]
	}
	if x.k != KApp || x.op != "filled" || mkLen(t) != mkInt(n) && x.args[1] != mkInt(n) {
		return nil
	}
	ev := x.args[0]
	if !isEv(ev, "crypto/rand.Read") && !(isEv(ev, "io.ReadFull") && strings.Contains(ev.args[0].String(), "crypto/rand.Reader")) {
		return nil
	}
	for _, s := range o.top() {
		if s.term == ev && holds(o.st.facts, mkEq(res(1, errType(), ev), tNil), true) {
			return ev
		}
	}
	return nil
}

func gcmKey(t *Term) *Term {
	if t.k == KRes && t.n == 0 && t.args[0].k == KApp && t.args[0].op == "cipher.NewGCM" {
		b := t.args[0].args[0]
		if b.k == KIface {
			b = b.args[0]
		}
		if b.k == KRes && b.n == 0 && b.args[0].k == KApp && b.args[0].op == "aes.NewCipher" {
			return b.args[0].args[0]
		}
	}
	return nil
}

var gFresh = &ruleGroup{name: "fresh-key-and-nonce", min: 5,
	what: "each call of the cryptor's Encrypt draws, during that call and from the system's cryptographic random source, a new 32-byte data key and a separate new 12-byte nonce, uses them for that one encryption, and returns that very key wrapped; the random source helper returns exactly the bytes it read",
	f: func(c *Ctx, g *ruleGroup) {
		c.each(g, profNone, "crypto", "Cryptor.Encrypt", "NewAESCryptor", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			var seals []Site
			for _, s := range o.sites() {
				if s.op == "gcm.Seal" {
					seals = append(seals, s)
				}
			}
			if !c.must(len(seals) == 1 && len(seals[0].loops) == 0, g, r.name+" one encryption", o.pos, "%s does not encrypt exactly once", r.name) {
				return
			}
			s := seals[0]
			k := gcmKey(s.args[0])
			var ke, ne *Term
			if k != nil {
				ke = wholeRandom(k, o, 32)
			}
			ne = wholeRandom(s.args[2], o, 12)
			c.must(ke != nil, g, r.name+" key", s.pos, "%s encrypts with a key that is not 32 fresh random bytes of this call", r.name)
			c.must(ne != nil, g, r.name+" nonce", s.pos, "%s encrypts with a nonce that is not 12 fresh random bytes of this call", r.name)
			c.must(ke != nil && ke != ne, g, r.name+" independent", s.pos, "%s derives key and nonce from the same random bytes", r.name)
		})
		c.each(g, profParts, "crypto", "Cryptor.Encrypt", "NewAESCryptor", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			var enc, wrap *Event
			for _, s := range o.top() {
				switch s.op {
				case "aead.Encrypt":
					enc = s.Event
				case "crypto.Wrap":
					wrap = s.Event
				}
			}
			if !c.must(enc != nil && wrap != nil, g, r.name+" wraps", o.pos, "%s does not encrypt and wrap a key", r.name) {
				return
			}
			c.must(enc.args[3] == wrap.args[1], g, r.name+" wraps its key", wrap.pos, "%s wraps another key than the one it encrypts with", r.name)
			c.must(resOf(o.res[0], 0) == wrap.term && resOf(o.res[1], 0) == enc.term, g, r.name+" returns", o.pos, "%s does not return the wrapped key and the ciphertext of this encryption", r.name)
			c.must(enc.args[1] == res0App("json.Marshal", r.param(0)) && enc.args[2] == res0App("json.Marshal", r.param(1)), g, r.name+" inputs", enc.pos, "%s does not encrypt the whole plaintext and authenticate the whole associated data", r.name)
			c.must(holds(o.st.facts, mkEq(errOf(enc), tNil), true) && holds(o.st.facts, mkEq(errOf(wrap), tNil), true), g, r.name+" succeeded", o.pos, "%s succeeds although an operation may have failed", r.name)
			k := keyOfKWP(wrap.args[0])
			c.must(k != nil && k == r.in.snap(o.st, c.ctorParam("crypto", "NewAESCryptor")), g, r.name+" wrapping key", wrap.pos, "%s wraps with another key than the one the cryptor was made with", r.name)
		})
		c.each(g, profNone, "crypto", "NativeRandom.GetBytes", "", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			n := r.param(0)
			x := o.res[0]
			if x.k == KSub && x.args[1] == mkInt(0) && mkLen(x) == n {
				x = x.args[0]
			}
			good := x.k == KApp && x.op == "filled" && x.args[1] == n && isEv(x.args[0], "crypto/rand.Read")
			if x.k == KApp && x.op == "filled" && x.args[1] == n && isEv(x.args[0], "io.ReadFull") && strings.Contains(x.args[0].args[0].String(), "crypto/rand.Reader") {
				good = true
			}
			c.must(good && holds(o.st.facts, mkEq(res(1, errType(), x.args[0]), tNil), true), g, r.name, o.pos, "%s returns something other than the requested number of bytes from the system's random source", r.name)
		})
	}}

func res0App(op string, arg *Term) *Term {
	return res(0, types.NewSlice(types.Typ[types.Byte]), app(op, nil, arg))
}

// ctorParam is the first parameter of a constructor, as it appears in what it constructs.
func (c *Ctx) ctorParam(pkg, name string) *Term { return paramTerms(c.a.fn(pkg, name))[0] }

func keyOfKWP(t *Term) *Term {
	t = deref(t)
	if t.k == KDeref {
		t = t.args[0]
	}
	if t.k == KRes && t.n == 0 && t.args[0].k == KApp && t.args[0].op == "crypto.NewKWP" {
		return t.args[0].args[0]
	}
	return nil
}

// ---------------------------------------------------------------- authenticated decryption

var gOpenFailsClosed = &ruleGroup{name: "decryption-fails-closed", min: 8,
	what: "Decrypt succeeds, and writes its target, only after the wrapped key was unwrapped and the whole ciphertext was authenticated together with the whole associated data; AES-GCM opens all of the ciphertext with its own nonce, returns only what the authentication released, and lays ciphertexts out the way it reads them",
	f: func(c *Ctx, g *ruleGroup) {
		c.each(g, profParts, "crypto", "Cryptor.Decrypt", "NewAESCryptor", func(r *Run, o *Outcome) {
			var un, dec *Event
			for _, s := range o.top() {
				switch s.op {
				case "crypto.Unwrap":
					un = s.Event
				case "aead.Decrypt":
					dec = s.Event
				}
			}
			target := r.par[1]
			authentic := func(facts []Fact) bool {
				return un != nil && dec != nil && un.args[1] == r.param(2) && dec.args[1] == r.param(3) &&
					dec.args[2] == res0App("json.Marshal", r.param(1)) && resOf(dec.args[3], 0) == un.term &&
					holds(facts, mkEq(errOf(un), tNil), true) && holds(facts, mkEq(errOf(dec), tNil), true)
			}
			for _, w := range o.st.writes {
				if w.root == target || contains(w.root, target) {
					good := w.how == "json.Unmarshal" && authentic(o.st.facts) && dec != nil && contains(w.val, dec.term)
					c.must(good, g, r.name+" writes target", w.pos, "%s writes the caller's target with something that was not authenticated", r.name)
				}
			}
			if o.ok {
				c.must(authentic(o.st.facts), g, r.name+" success", o.pos, "%s succeeds without the key having been unwrapped and the ciphertext and associated data authenticated", r.name)
				wrote := false
				for _, w := range o.st.writes {
					wrote = wrote || w.root == target
				}
				c.must(wrote, g, r.name+" delivers", o.pos, "%s succeeds without decoding into the target", r.name)
				k := (*Term)(nil)
				if un != nil {
					k = keyOfKWP(un.args[0])
				}
				c.must(k != nil && k == c.ctorParam("crypto", "NewAESCryptor"), g, r.name+" wrapping key", o.pos, "%s unwraps with another key than the one the cryptor was made with", r.name)
			} else if !o.panic {
				c.must(failureKnown(o.st.facts), g, r.name+" refusal", o.pos, "%s fails although nothing failed", r.name)
			}
		})
		// layout
		var layout string
		var encPos token.Pos
		c.each(g, profNone, "crypto", "Cryptor.Encrypt", "NewAESCryptor", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			for _, s := range o.top() {
				if s.op != "gcm.Seal" {
					continue
				}
				encPos = s.pos
				ct := o.res[1]
				if ct.k == KSub && ct.args[1] == mkInt(0) && mkLen(ct) == mkLen(ct.args[0]) {
					ct = ct.args[0]
				}
				c.must(s.args[3] == res0App("json.Marshal", r.param(0)), g, r.name+" plaintext", s.pos, "%s does not encrypt the whole serialised plaintext", r.name)
				c.must(s.args[4] == res0App("json.Marshal", r.param(1)), g, r.name+" associated data", s.pos, "%s does not authenticate the whole serialised associated data", r.name)
				l := "?"
				if ct.k == KConcat && len(ct.args) == 2 {
					isSeal := func(t *Term) bool {
						return t.k == KApp && t.op == "sized" && t.args[0].k == KApp && t.args[0].op == "gcm.Seal" && contains(t.args[0], s.args[3])
					}
					switch {
					case isSeal(ct.args[0]) && ct.args[1] == s.args[2]:
						l = "ciphertext+nonce"
					case isSeal(ct.args[1]) && ct.args[0] == s.args[2]:
						l = "nonce+ciphertext"
					}
				}
				c.must(l != "?", g, r.name+" layout", o.pos, "%s does not return the ciphertext together with its nonce", r.name)
				layout = l
			}
		})
		c.each(g, profNone, "crypto", "AES256GCM.Decrypt", "", func(r *Run, o *Outcome) {
			ct, aad, key := r.param(0), r.param(1), r.param(2)
			var open *Event
			for _, s := range o.top() {
				if s.op == "gcm.Open" {
					open = s.Event
				}
			}
			if o.ok {
				if !c.must(open != nil, g, r.name+" opens", o.pos, "%s succeeds without authenticating", r.name) {
					return
				}
				c.must(gcmKey(open.args[0]) == key, g, r.name+" key", open.pos, "%s uses another key than the one given", r.name)
				n := mkLen(ct)
				var l string
				switch {
				case open.args[2] == mkSub(ct, tSub(n, mkInt(12)), n) && open.args[3] == mkSub(ct, mkInt(0), tSub(n, mkInt(12))):
					l = "ciphertext+nonce"
				case open.args[2] == mkSub(ct, mkInt(0), mkInt(12)) && open.args[3] == mkSub(ct, mkInt(12), n):
					l = "nonce+ciphertext"
				}
				c.must(l != "", g, r.name+" authenticates everything", open.pos, "%s does not authenticate the whole ciphertext with its nonce", r.name)
				c.must(l == layout, g, r.name+" layout", encPos, "%s reads another layout than Encrypt writes", r.name)
				c.must(open.args[4] == aad, g, r.name+" associated data", open.pos, "%s does not authenticate the whole associated data", r.name)
				c.must(holds(o.st.facts, mkEq(app("gcm.OpenErr", errType(), open.args[0], open.args[2], open.args[3], open.args[4]), tNil), true), g, r.name+" authentication succeeded", o.pos, "%s succeeds although the authentication may have failed", r.name)
				v := o.res[0]
				if v.k == KSub && v.args[1] == mkInt(0) && mkLen(v) == mkLen(v.args[0]) {
					v = v.args[0]
				}
				c.must(v.k == KApp && v.op == "sized" && v.args[0].k == KApp && v.args[0].op == "gcm.Open", g, r.name+" result", o.pos, "%s returns something other than the authenticated plaintext", r.name)
				return
			}
			if !o.panic {
				c.must(len(o.res) == 0 || o.res[0].k == KNil || isEmptySeq(o.res[0]), g, r.name+" failure returns nothing", o.pos, "%s returns data although it failed", r.name)
			}
		})
	}}

var gUnseal = &ruleGroup{name: "unseal-only-authentic", min: 12,
	what: "each Unseal succeeds only with the authenticated decryption of the receiver's own ciphertext under its own wrapped key and the associated data it is bound to, returns exactly that, and otherwise returns an error and nothing else; each Seal returns the encryption of exactly the receiver's contents bound the same way",
	f: func(c *Ctx, g *ruleGroup) {
		for _, e := range []struct {
			typ, sealed string
			aad         func(r *Run, sealed *Term, st types.Type, open bool) func(*Term) bool
			key         func(r *Run, sealed *Term, st types.Type) *Term
			crypt       int
		}{
			{"Object", "SealedObject", func(r *Run, s *Term, st types.Type, open bool) func(*Term) bool {
				oid := r.param(0)
				if open {
					oid = field(s, st, "OID")
				}
				return func(t *Term) bool { return bindsBoth(t, oid, field(s, st, "AssociatedData")) }
			}, func(r *Run, s *Term, st types.Type) *Term { return r.param(0) }, 1},
			{"Access", "SealedAccess", func(r *Run, s *Term, st types.Type, open bool) func(*Term) bool {
				oid := r.param(0)
				if open {
					oid = field(s, st, "OID")
				}
				return func(t *Term) bool { return bindsID(t, oid) }
			}, nil, 0},
			{"Node", "SealedNode", func(r *Run, s *Term, st types.Type, open bool) func(*Term) bool {
				return func(t *Term) bool { return bindsID(t, r.param(0)) }
			}, nil, 1},
			{"Token", "SealedToken", func(r *Run, s *Term, st types.Type, open bool) func(*Term) bool {
				return func(t *Term) bool { return t == field(s, st, "ExpiryTime") }
			}, nil, 0},
		} {
			e := e
			pt, st := c.a.typ("data", e.typ), c.a.typ("data", e.sealed)
			content := func(p *Term, in *Term) bool {
				switch e.typ {
				case "Object", "Token":
					return p == field(in, pt, "Plaintext")
				}
				return p == in
			}
			recvOf := func(r *Run, t types.Type) *Term {
				if pointee(r.par[0].typ) != nil {
					return derefParam(r.par[0], t)
				}
				return r.par[0]
			}
			c.each(g, profCrypto, "data", e.sealed+".Unseal", "", func(r *Run, o *Outcome) {
				s := recvOf(r, st)
				if !o.ok {
					if !o.panic {
						c.must(o.res[0] == zeroOf(pt), g, r.name+" failure returns nothing", o.pos, "%s returns data although it failed", r.name)
					}
					return
				}
				var dec *Event
				for _, x := range o.top() {
					if x.op == "crypto.Decrypt" && holds(o.st.facts, mkEq(errOf(x.Event), tNil), true) {
						dec = x.Event
					}
				}
				if !c.must(dec != nil, g, r.name+" decrypts", o.pos, "%s succeeds without a successful decryption", r.name) {
					return
				}
				wk := (*Term)(nil)
				if e.key != nil {
					wk = e.key(r, s, st)
				} else {
					wk = field(s, st, "WrappedKey")
				}
				c.must(dec.args[4] == field(s, st, "Ciphertext") && dec.args[3] == wk, g, r.name+" ciphertext", dec.pos, "%s decrypts something other than its own ciphertext with its own key", r.name)
				c.must(e.aad(r, s, st, true)(aadOf(dec)), g, r.name+" binding", dec.pos, "%s does not authenticate what the record is bound to", r.name)
				val := app("decrypted", nil, dec.args[0], dec.args[2], dec.args[3], dec.args[4])
				same := func(t *Term) bool { return t.k == KApp && t.op == "decrypted" && reflect.DeepEqual(t.args, val.args) }
				switch e.typ {
				case "Object":
					c.must(same(field(o.res[0], pt, "Plaintext")) && field(o.res[0], pt, "AssociatedData") == field(s, st, "AssociatedData"), g, r.name+" result", o.pos, "%s returns something other than the authenticated plaintext and associated data", r.name)
				case "Token":
					c.must(same(field(o.res[0], pt, "Plaintext")) && field(o.res[0], pt, "ExpiryTime") == field(s, st, "ExpiryTime"), g, r.name+" result", o.pos, "%s returns something other than the authenticated contents", r.name)
				default:
					c.must(same(o.res[0]), g, r.name+" result", o.pos, "%s returns something other than the authenticated contents", r.name)
				}
			})
			c.each(g, profCrypto, "data", e.typ+".Seal", "", func(r *Run, o *Outcome) {
				if !o.ok {
					return
				}
				in := recvOf(r, pt)
				v := o.res[len(o.res)-2]
				enc := encryptionOf(o, field(v, st, "Ciphertext"), 1)
				if !c.must(enc != nil, g, r.name+" encrypts", o.pos, "%s does not return an encryption made by this call", r.name) {
					return
				}
				wk := (*Term)(nil)
				if e.key != nil {
					wk = o.res[0]
				} else {
					wk = field(v, st, "WrappedKey")
				}
				c.must(encryptionOf(o, wk, 0) == enc, g, r.name+" key", o.pos, "%s returns a key that does not belong to the ciphertext", r.name)
				c.must(content(plainOf(enc), in), g, r.name+" contents", enc.pos, "%s encrypts something other than the receiver's contents", r.name)
				c.must(e.aad(r, v, st, false)(aadOf(enc)), g, r.name+" binding", enc.pos, "%s does not bind the record to its ID", r.name)
				c.must(holds(o.st.facts, mkEq(errOf(enc), tNil), true), g, r.name+" succeeded", o.pos, "%s succeeds although the encryption may have failed", r.name)
				switch e.typ {
				case "Object":
					c.must(field(v, st, "AssociatedData") == field(in, pt, "AssociatedData") && field(v, st, "OID") == r.param(0), g, r.name+" public parts", o.pos, "%s does not keep the associated data and the ID with the ciphertext", r.name)
				case "Access":
					c.must(field(v, st, "OID") == r.param(0), g, r.name+" public parts", o.pos, "%s does not keep the ID with the ciphertext", r.name)
				case "Token":
					c.must(field(v, st, "ExpiryTime") == field(in, pt, "ExpiryTime"), g, r.name+" public parts", o.pos, "%s does not keep the expiry time with the ciphertext", r.name)
				}
			})
		}
	}}

// ---------------------------------------------------------------- passwords

// hashing takes a password hash computation apart.
type hashing struct {
	pwd, salt, fn *Term
	iter, n       int64
}

func hashingOf(t *Term) *hashing {
	if t.k != KApp || t.op != "pbkdf2.Key" || len(t.args) != 5 {
		return nil
	}
	it, ok1 := t.args[2].intVal()
	n, ok2 := t.args[3].intVal()
	if !ok1 || !ok2 {
		return nil
	}
	return &hashing{t.args[0], t.args[1], t.args[4], it, n}
}

// equalTo recognises a comparison of two byte strings that is true exactly when they are equal.
func equalTo(t *Term, val bool) (a, b *Term, ok bool) {
	for t.k == KUn && t.op == "!" {
		t, val = t.args[0], !val
	}
	if t.k == KBin && t.op == "==" {
		x, y := t.args[0], t.args[1]
		if y.k == KApp && y.op == "subtle.ConstantTimeCompare" {
			x, y = y, x
		}
		if x.k == KLin || x.k == KApp {
			// normalised to (f(x) + c == 0)
			for _, cst := range []int64{1, 0} {
				var f *Term
				walk(x, func(z *Term) bool {
					if z.k == KApp && z.op == "subtle.ConstantTimeCompare" {
						f = z
					}
					return f == nil
				})
				if f != nil && (t == mkEq(f, mkInt(cst)) || t == mkEq(mkInt(cst), f)) {
					a, b = withoutPrefix(f.args[0], f.args[1])
					return a, b, val == (cst == 1)
				}
			}
		}
		return nil, nil, false
	}
	if t.k == KApp && (t.op == "hmac.Equal" || t.op == "bytes.Equal") {
		a, b = withoutPrefix(t.args[0], t.args[1])
		return a, b, val
	}
	return nil, nil, false
}

// withoutPrefix takes from two byte strings that are compared what one was given of the other's start: x[:n]+y is x exactly when y is x[n:].
func withoutPrefix(a, b *Term) (*Term, *Term) {
	for i := 0; i < 2; i++ {
		if a.k == KConcat && a.args[0].k == KSub && a.args[0].args[0] == b && a.args[0].args[1] == mkInt(0) {
			return mkConcat(a.args[1:]...), mkSub(b, a.args[0].args[2], mkLen(b))
		}
		a, b = b, a
	}
	return a, b
}

var gPassword = &ruleGroup{name: "password-hashing", min: 5,
	what: "a generated password encodes 32 fresh random bytes and its hash is made with a separate fresh salt by PBKDF2 with at least 10000 rounds; Compare is true exactly when that same function of the given password and the stored salt equals the whole stored hash",
	f: func(c *Ctx, g *ruleGroup) {
		var gen *hashing
		var saltLen int64
		c.each(g, profNone, "crypto", "PasswordHasher.GeneratePassword", "NewPasswordHasher", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			pwd, h := o.res[0], o.res[1]
			var pe *Term
			if pwd.k == KApp && (strings.HasSuffix(pwd.op, "EncodeToString")) {
				pe = wholeRandom(pwd.args[len(pwd.args)-1], o, 32)
			}
			c.must(pe != nil, g, r.name+" password", o.pos, "%s does not return an encoding of 32 fresh random bytes", r.name)
			var salt *Term
			var hs *hashing
			if h.k == KConcat && len(h.args) == 2 {
				salt = h.args[0]
				hs = hashingOf(h.args[1])
			}
			if !c.must(hs != nil && hs.salt == salt && hs.pwd == pwd, g, r.name+" hash", o.pos, "%s does not return the salt followed by the hash of the password it returns with that salt", r.name) {
				return
			}
			n, ok := mkLen(salt).intVal()
			se := wholeRandom(salt, o, n)
			c.must(ok && n >= 8 && se != nil && se != pe, g, r.name+" salt", o.pos, "%s does not use a separate fresh random salt of at least 8 bytes", r.name)
			c.must(hs.iter >= 10000 && hs.n >= 32, g, r.name+" cost", o.pos, "%s weakens the password hash", r.name)
			gen, saltLen = hs, n
		})
		c.each(g, profNone, "crypto", "PasswordHasher.Compare", "NewPasswordHasher", func(r *Run, o *Outcome) {
			if o.panic {
				c.bad(g, r.name+" panics", o.pos, "%s panics", r.name)
				return
			}
			pwd, h := r.param(0), r.param(1)
			v := o.res[0]
			short := mkLt(mkLen(h), mkInt(saltLen))
			good := func(a, b *Term) bool {
				for i := 0; i < 2; i++ {
					x := hashingOf(a)
					if x != nil && gen != nil && x.pwd == pwd && x.salt == mkSub(h, mkInt(0), mkInt(saltLen)) && b == mkSub(h, mkInt(saltLen), mkLen(h)) &&
						x.iter == gen.iter && x.n == gen.n && x.fn == gen.fn {
						return true
					}
					a, b = b, a
				}
				return false
			}
			switch v {
			case tTrue, tFalse:
				ok := false
				if v == tFalse && holds(o.st.facts, short, true) {
					ok = true
				}
				for _, f := range o.st.facts {
					a, b, is := equalTo(f.atom, f.val)
					if a != nil && good(a, b) && is == (v == tTrue) {
						ok = true
					}
				}
				if v == tFalse && !ok {
					// a hash of another length can never be equal
					ok = gen != nil && holds(o.st.facts, mkEq(mkLen(h), mkInt(saltLen+gen.n)), false)
				}
				c.must(ok, g, r.name, o.pos, "%s answers %s without comparing the password's hash with the whole stored hash", r.name, v)
			default:
				a, b, is := equalTo(v, true)
				c.must(a != nil && is && good(a, b), g, r.name, o.pos, "%s is not the comparison of the password's hash, computed as GeneratePassword does, with the whole stored hash", r.name)
			}
		})
	}}

// ---------------------------------------------------------------- keyed hash and key derivation

// kmacOK checks that a result is KMAC256 of the parts.
func (c *Ctx) kmacOK(g *ruleGroup, r *Run, o *Outcome, key, label, size *Term, data func(mid []*Term) bool) {
	var sponge *Term
	for _, e := range o.st.events {
		if strings.HasPrefix(e.op, "invoke:io.Write") && sponge == nil {
			sponge = deref(e.args[0])
		}
	}
	ok := sponge != nil && sponge.k == KApp && sponge.op == "sha3.NewCShake256" && len(sponge.args) == 2
	if ok {
		n, isN := labelText(sponge.args[0])
		ok = isN && n == "KMAC" && sponge.args[1] == label
	}
	if !c.must(ok, g, r.name+" function", o.pos, "%s is not computed with cSHAKE256 customised for KMAC and the whole label", r.name) {
		return
	}
	// results of Clone carry their type
	alias := map[*Term]bool{sponge: true}
	for _, e := range o.st.events {
		if e.op == "invoke:sha3.Clone" && alias[deref(e.args[0])] {
			walkEvents(o.st.events, func(x *Event) {
				if len(x.args) > 0 {
					if y := deref(x.args[0]); y.k == KRes && y.n == 0 && y.args[0] == e.term {
						alias[y] = true
					}
				}
			})
		}
	}
	parts, out, good := c.feed(o, alias)
	if !c.must(good && len(parts) >= 2 && out != nil, g, r.name+" input", o.pos, "%s does not absorb key, data and length in a way the analysis can follow", r.name) {
		return
	}
	c.must(keyPad(parts[0], key, 136, o.st.facts), g, r.name+" key", o.pos, "%s does not start with the padded, length-encoded whole key", r.name)
	last := parts[len(parts)-1]
	c.must(lengthSuffix(last, size, o.st.facts), g, r.name+" length", o.pos, "%s does not end with the output length", r.name)
	c.must(data(parts[1:len(parts)-1]), g, r.name+" data", o.pos, "%s does not absorb exactly the data it is given", r.name)
	v := o.res[0]
	if v.k == KSub && v.args[1] == mkInt(0) && mkLen(v) == size {
		v = v.args[0]
	}
	c.must(v.k == KApp && v.op == "havoc" && v.args[0] == out.term && mkLen(out.args[1]) == size, g, r.name+" output", o.pos, "%s does not return exactly the requested number of output bytes", r.name)
}

func walkEvents(evs []*Event, f func(*Event)) {
	for _, e := range evs {
		if e.loop != nil {
			for _, b := range e.loop.backs {
				walkEvents(b.events, f)
			}
			continue
		}
		f(e)
	}
}

// feed lists what is fed to a sponge, in order; a sweep over a sequence of byte strings counts as one part.
func (c *Ctx) feed(o *Outcome, alias map[*Term]bool) (parts []*Term, out *Event, ok bool) {
	for _, e := range o.st.events {
		if e.loop != nil {
			feeds := false
			for _, b := range e.loop.backs {
				walkEvents(b.events, func(x *Event) {
					if len(x.args) > 0 && alias[deref(x.args[0])] {
						feeds = true
					}
				})
			}
			if !feeds {
				continue
			}
			sw := e.sweep
			if sw == nil || sw.desc {
				return nil, nil, false
			}
			var each *Term
			for _, b := range e.loop.backs {
				n := 0
				for _, x := range b.events {
					if len(x.args) > 0 && alias[deref(x.args[0])] {
						o := sw.over(x.args[1])
						if x.op != "invoke:io.Write" || o == nil || each != nil && each != o {
							return nil, nil, false
						}
						each = o
						n++
					}
				}
				if n != 1 {
					return nil, nil, false
				}
			}
			parts = append(parts, app("each", nil, each))
			continue
		}
		if len(e.args) == 0 || !alias[deref(e.args[0])] {
			continue
		}
		switch e.op {
		case "invoke:io.Write":
			if out != nil {
				return nil, nil, false
			}
			if x := e.args[1]; x.k == KApp && x.op == "flat" {
				parts = append(parts, app("each", nil, x.args[0]))
				continue
			}
			parts = append(parts, e.args[1])
		case "invoke:io.Read":
			if out != nil {
				return nil, nil, false
			}
			out = e
		case "invoke:sha3.Clone", "invoke:hash.BlockSize", "invoke:hash.Size":
		default:
			return nil, nil, false
		}
	}
	return parts, out, true
}

// cases splits a term and the facts it stands under by the values of the bit lengths they mention.
func bitLenCases(t *Term, facts []Fact, f func(t *Term, facts []Fact) bool) bool {
	var atom *Term
	walk(t, func(x *Term) bool {
		if x.k == KApp && x.op == "bits.Len" {
			atom = x
		}
		return atom == nil
	})
	if atom == nil {
		return f(t, facts)
	}
	for b := int64(0); b <= 64; b++ {
		to := func(x *Term) *Term {
			if x == atom {
				return mkInt(b)
			}
			return nil
		}
		var nf []Fact
		possible := true
		for _, y := range facts {
			a := subst(y.atom, to)
			if v, ok := evalCond(a, nil); ok {
				possible = possible && v == y.val
				continue
			}
			nf = append(nf, Fact{atom: a, val: y.val})
		}
		// what the bit length says about its argument; x|1 is never zero and has the bit length of x otherwise
		x := atom.args[0]
		if x.k == KBin && x.op == "|" && (x.args[0] == mkInt(1) || x.args[1] == mkInt(1)) {
			if b == 0 {
				continue
			}
			y := x.args[0]
			if y == mkInt(1) {
				y = x.args[1]
			}
			if b > 1 {
				nf = append(nf, bitLenFacts(y, b)...)
			} else {
				nf = append(nf, Fact{atom: mkLt(y, mkInt(2)), val: true})
			}
		} else {
			nf = append(nf, bitLenFacts(x, b)...)
		}
		if possible && !bitLenCases(subst(t, to), nf, f) {
			return false
		}
	}
	return true
}

func bitLenFacts(x *Term, b int64) []Fact {
	var out []Fact
	if b < 63 {
		out = append(out, Fact{atom: mkLt(x, mkInt(1<<uint(b))), val: true})
	}
	if b > 0 {
		if b == 64 {
			b--
		}
		out = append(out, Fact{atom: mkLt(x, mkInt(1<<uint(b-1))), val: false})
	}
	return out
}

// evalByte is the value of a fact about v when v has the given value: comparisons of v shifted right with constants, and of
// its bytes with zero.
func evalFact(t, v *Term, n int64) (bool, bool) {
	env := map[*Term]int64{v: n}
	if v.k == KLin && len(v.args) == 1 && v.n == 0 {
		c, _ := strconv.ParseInt(v.op, 10, 64)
		env[v.args[0]] = n / c
	}
	if t.k == KBin && t.op == "==" {
		for i, e := range t.args {
			if j, ok := byteOf(e, v); ok {
				if w, isN := t.args[1-i].intVal(); isN && w == 0 {
					return n>>(8*uint(7-j))&255 == 0, true
				}
			}
		}
	}
	return evalCond(t, env)
}

// byteOf recognises byte j of the big-endian form of v.
func byteOf(t, v *Term) (j int64, ok bool) {
	if t.k == KElem && t.args[0].k == KApp && t.args[0].op == "be64" && t.args[0].args[0] == v {
		return t.args[1].intVal()
	}
	if t.k == KConv && t.typ != nil && isByteType(t.typ) {
		x := t.args[0]
		for x.k == KConv {
			if b, is := x.typ.Underlying().(*types.Basic); !is || b.Kind() != types.Uint64 && b.Kind() != types.Int && b.Kind() != types.Uint && b.Kind() != types.Int64 {
				return 0, false
			}
			x = x.args[0]
		}
		if x == v {
			return 7, true
		}
		if x.k == KBin && x.op == ">>" && x.args[0] == v {
			n, isN := x.args[1].intVal()
			return 7 - n/8, isN && n%8 == 0 && n >= 0 && n < 64
		}
	}
	return 0, false
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// threshold says that a fact about v changes its truth at most once as v grows.
func threshold(t, v *Term) bool {
	side := func(x *Term) bool {
		for x.k == KConv {
			x = x.args[0]
		}
		l := linOf(x)
		for a := range l.coefs {
			if a == v || v.k == KLin && len(v.args) == 1 && a == v.args[0] {
				continue
			}
			for a.k == KConv {
				a = a.args[0]
			}
			if a == v || a.k == KBin && a.op == ">>" && a.args[0] == v && a.args[1].k == KConst {
				continue
			}
			return false
		}
		return len(l.coefs) <= 1
	}
	switch {
	case t.k == KUn && t.op == "<0":
		return side(t.args[0])
	case t.k == KBin && t.op == "==":
		for i, e := range t.args {
			if n, ok := t.args[1-i].intVal(); ok && n == 0 && side(e) {
				return true
			}
		}
	}
	return false
}

// encodes says that the bytes are the shortest big-endian form, of at least one byte, of the non-negative v.
func encodes(bytes, v *Term, facts []Fact) bool {
	k, ok := mkLen(bytes).intVal()
	if !ok || k < 1 || k > 8 {
		return false
	}
	at := func(i int64) *Term { return mkElem(bytes, mkInt(i), types.Typ[types.Byte]) }
	if n, isN := v.intVal(); isN {
		var x int64
		for i := int64(0); i < k; i++ {
			b, isB := at(i).intVal()
			if !isB {
				return false
			}
			x = x<<8 | b
		}
		return x == n && (k == 1 || n>>(8*uint(k-1)) != 0)
	}
	for i := int64(0); i < k; i++ {
		if j, is := byteOf(at(i), v); !is || j != 8-k+i {
			return false
		}
	}
	// the facts exclude all values that take another number of bytes
	for m := int64(1); m <= 8; m++ {
		if m == k {
			continue
		}
		lo, hi := int64(0), int64(1)<<(8*uint(m))-8
		if m > 1 {
			lo = int64(1) << (8 * uint(m-1))
		}
		if m == 8 {
			hi = 1<<63 - 8
		}
		excluded := false
		for _, f := range facts {
			if f.atom.k == KBin && f.atom.op == "==" {
				// a leading byte: uniformly zero above the length and non-zero at it
				for i, e := range f.atom.args {
					j, is := byteOf(e, v)
					w, isN := f.atom.args[1-i].intVal()
					if is && isN && w == 0 && (j < 8-m && !f.val || j == 8-m && m > 1 && f.val) {
						excluded = true
					}
				}
			}
			if threshold(f.atom, v) {
				a, ok1 := evalFact(f.atom, v, lo)
				b, ok2 := evalFact(f.atom, v, hi)
				if ok1 && ok2 && a != f.val && b != f.val {
					excluded = true
				}
			}
		}
		if !excluded {
			return false
		}
	}
	return true
}

// periodic says that an integer expression is a sum of multiples of x and of quotients and remainders by m, so that it
// advances by the same amount whenever x advances by m.
func periodic(t, x *Term, m int64) bool {
	for a := range linOf(t).coefs {
		switch {
		case a == x:
		case a.k == KBin && (a.op == "%" || a.op == "/"):
			if n, ok := a.args[1].intVal(); !ok || n != m || !periodic(a.args[0], x, m) {
				return false
			}
			for b := range linOf(a.args[0]).coefs {
				if b != x {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// keyPad recognises bytepad(encode_string(key), rate).
func keyPad(t, key *Term, rate int64, facts []Fact) bool {
	return bitLenCases(t, facts, func(t *Term, facts []Fact) bool { return keyPad1(t, key, rate, facts) })
}

func keyPad1(t, key *Term, rate int64, facts []Fact) bool {
	if t.k != KConcat {
		return false
	}
	i := 0
	for i < len(t.args) && t.args[i] != key {
		i++
	}
	if i == len(t.args) {
		return false
	}
	head := mkConcat(t.args[:i]...)
	h, ok := mkLen(head).intVal()
	if !ok || h < 4 {
		return false
	}
	// the rate, then the key length in bits
	for i, want := range []int64{1, rate, h - 3} {
		if v, ok := mkElem(head, mkInt(int64(i)), types.Typ[types.Byte]).intVal(); !ok || v != want {
			return false
		}
	}
	if !encodes(mkSub(head, mkInt(3), mkInt(h)), linMul(mkLen(key), 8), facts) {
		return false
	}
	// zeros up to the next multiple of the rate
	pad := mkInt(0)
	if rest := t.args[i+1:]; len(rest) > 1 || len(rest) == 1 && rest[0].k != KZeros {
		return false
	} else if len(rest) == 1 {
		pad = mkLen(rest[0])
	}
	l := mkLen(key)
	if n, isN := l.intVal(); isN {
		p, isP := pad.intVal()
		return isP && p >= 0 && p < rate && (h+n+p)%rate == 0
	}
	if !periodic(pad, l, rate) {
		return false
	}
	var use []Fact
	for _, f := range facts {
		a := f.atom
		switch {
		case a.k == KUn && a.op == "<0" && periodic(a.args[0], l, rate):
			// a comparison of remainders only
			if linOf(a.args[0]).coefs[l] == 0 && !anyTerm(a.args[0], func(x *Term) bool { return x.k == KBin && x.op == "/" }) {
				use = append(use, f)
			}
		case a.k == KBin && a.op == "==" && intLike(a.args[0]) && intLike(a.args[1]):
			d := tSub(a.args[0], a.args[1])
			if periodic(d, l, rate) && linOf(d).coefs[l] == 0 && !anyTerm(d, func(x *Term) bool { return x.k == KBin && x.op == "/" }) {
				use = append(use, f)
			}
		}
	}
	for n := rate; n < 3*rate; n++ {
		env := map[*Term]int64{l: n}
		if !allowed(use, env) {
			continue
		}
		p, isP := evalArith(pad, env)
		if !isP || p < 0 || p >= rate || (h+n+p)%rate != 0 {
			return false
		}
	}
	return true
}

// lengthSuffix recognises right_encode(8*size).
func lengthSuffix(t, size *Term, facts []Fact) bool {
	return bitLenCases(t, facts, func(t *Term, facts []Fact) bool {
		n, ok := mkLen(t).intVal()
		if !ok || n < 2 {
			return false
		}
		k, ok := mkElem(t, mkInt(n-1), types.Typ[types.Byte]).intVal()
		return ok && k == n-1 && encodes(mkSub(t, mkInt(0), mkInt(n-1)), linMul(size, 8), facts)
	})
}

var gKMAC = &ruleGroup{name: "keyed-hash-separates-its-inputs", min: 9,
	what: "KMACKDF is KMAC256 with the whole base key, the label as customisation, every context and the requested length; Tag is KMAC256 with the whole tag key over the serialisation of its argument, 32 bytes; keys shorter than 32 bytes are never used",
	f: func(c *Ctx, g *ruleGroup) {
		c.each(g, profNone, "crypto", "KMACKDF", "", func(r *Run, o *Outcome) {
			size, kik, label, ctx := r.par[0], r.par[1], r.par[2], r.par[3]
			if o.panic {
				c.must(holds(o.st.facts, mkLt(mkLen(kik), mkInt(32)), true) || holds(o.st.facts, mkLt(size, mkInt(8)), true), g, r.name+" panics", o.pos, "%s panics although key and size are long enough", r.name)
				return
			}
			c.must(holds(o.st.facts, mkLt(mkLen(kik), mkInt(32)), false), g, r.name+" key length", o.pos, "%s uses keys shorter than 32 bytes", r.name)
			c.kmacOK(g, r, o, kik, label, size, func(mid []*Term) bool {
				return len(mid) == 1 && mid[0] == app("each", nil, ctx) || len(mid) == 0 && holds(o.st.facts, mkEq(mkLen(ctx), mkInt(0)), true)
			})
		})
		c.each(g, profNone, "crypto", "Tagger.Tag", "NewKMAC256Tagger", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			key := c.ctorParam("crypto", "NewKMAC256Tagger")
			d := res0App("json.Marshal", r.param(0))
			c.must(holds(o.st.facts, mkEq(res(1, errType(), d.args[0]), tNil), true), g, r.name+" serialised", o.pos, "%s succeeds although its argument could not be serialised", r.name)
			c.kmacOK(g, r, o, key, d, mkInt(32), func(mid []*Term) bool { return len(mid) == 0 })
		})
	}}

// ---------------------------------------------------------------- serialisation

// lossy describes how a type loses information when it is serialised, with the path to the part.
func lossy(t types.Type, path string, seen map[types.Type]bool, out *[]string, leaves *int) {
	if seen[t] {
		return
	}
	seen[t] = true
	defer delete(seen, t)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "time.Time", "github.com/gofrs/uuid.UUID":
			*leaves++
			return
		}
		ms := types.NewMethodSet(types.NewPointer(t))
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
			if ms.Lookup(n.Obj().Pkg(), m) != nil {
				*out = append(*out, path+" has its own "+m)
				return
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		lossy(u.Elem(), path, seen, out, leaves)
	case *types.Basic:
		*leaves++
		switch {
		case u.Info()&types.IsString != 0:
			*out = append(*out, path+" is a string: invalid UTF-8 is replaced")
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			*out = append(*out, path+" is a floating-point number")
		case u.Kind() == types.UnsafePointer:
			*out = append(*out, path+" cannot be serialised")
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			*leaves++
			return
		}
		lossy(u.Elem(), path+"[]", seen, out, leaves)
	case *types.Array:
		lossy(u.Elem(), path+"[]", seen, out, leaves)
	case *types.Map:
		lossy(u.Key(), path+" key", seen, out, leaves)
		lossy(u.Elem(), path+" value", seen, out, leaves)
	case *types.Struct:
		names := map[string]bool{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			p := path + "." + f.Name()
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			name := strings.Split(tag, ",")[0]
			if tag == "-" {
				*out = append(*out, p+" is left out")
				continue
			}
			if !f.Exported() {
				*out = append(*out, p+" is unexported and left out")
				continue
			}
			if strings.Contains(tag, ",omitempty") || strings.Contains(tag, ",omitzero") {
				switch f.Type().Underlying().(type) {
				case *types.Map, *types.Struct, *types.Array:
					*out = append(*out, p+" is left out when empty")
				}
			}
			if name == "" {
				name = f.Name()
			}
			if l := strings.ToLower(name); names[l] {
				*out = append(*out, p+" shares its name "+name+" with another field")
			} else {
				names[l] = true
			}
			lossy(f.Type(), p, seen, out, leaves)
		}
	case *types.Interface, *types.Signature, *types.Chan:
		*out = append(*out, path+" cannot be read back")
	}
}

var gLossless = &ruleGroup{name: "sealed-types-survive-serialisation", min: 10,
	what: "every type that is sealed or stored is decoded into the type it was encoded from, and each of its parts survives the serialisation: no part is left out, renamed onto another, or of a type whose text form is not exact",
	f: func(c *Ctx, g *ruleGroup) {
		enc, dec := map[string]types.Type{}, map[string]types.Type{}
		pos := map[string]token.Pos{}
		note := func(m map[string]types.Type, k string, t types.Type, p token.Pos, what string) {
			if t == nil {
				return
			}
			for {
				pt, ok := t.Underlying().(*types.Pointer)
				if !ok {
					break
				}
				t = pt.Elem()
			}
			if o := m[k]; o != nil && !types.Identical(o, t) {
				c.bad(g, k+" "+what+" type", p, "%s is %s from different types, %s and %s", k, what, shortType(o), shortType(t))
			}
			m[k] = t
			pos[k] = p
		}
		read := map[string]bool{} // fields of decoded records that are used
		c.eachAPI(g, func(a api, r *Run, o *Outcome) {
			for _, s := range o.sites() {
				for _, t := range s.args {
					walk(t, func(x *Term) bool {
						if x.k == KField && x.args[0].k == KApp && x.args[0].op == "json.Decode" && x.args[0].typ != nil {
							if st := structOf(x.args[0].typ); st != nil {
								read[shortType(x.args[0].typ)+"."+st.Field(x.n).Name()] = true
							}
						}
						return true
					})
				}
			}
			for _, x := range c.sealings(r, o) {
				if x.flaw != "" || x.kind == "" {
					continue
				}
				if x.open {
					note(dec, "sealed "+x.kind, targetType(x.site.Event), x.site.pos, "decoded")
				}
			}
			for _, s := range o.sites() {
				if s.op == "crypto.Encrypt" {
					k := ""
					for _, x := range c.sealings(r, o) {
						if !x.open && x.cryptor == s.args[0] {
							k = x.kind
						}
					}
					if k != "" {
						t := s.args[1].typ
						if s.args[1].k == KIface && s.args[1].typ != nil {
							t = s.args[1].typ
						}
						note(enc, "sealed "+k, t, s.pos, "encoded")
					}
				}
				if v := storedValue(s.Event); v != nil {
					note(enc, "stored "+c.kindOf(s.args[3]), v.typ, s.pos, "encoded")
				}
				if s.op == "json.Unmarshal" && s.term != nil && s.term.k == KApp && len(s.term.args) > 0 {
					if get := resOf(s.term.args[0], 0); get != nil && isEv(get, "io.Get") {
						note(dec, "stored "+c.kindOf(get.args[3]), s.term.typ, s.pos, "decoded")
					}
				}
			}
		})
		var ks []string
		for k := range enc {
			ks = append(ks, k)
		}
		for k := range dec {
			if enc[k] == nil {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			e, d := enc[k], dec[k]
			if e != nil && d != nil {
				c.must(types.Identical(e, d), g, k+" same type", pos[k], "%s is encoded from %s but decoded into %s", k, shortType(e), shortType(d))
			}
			t := e
			if t == nil {
				t = d
			}
			var out []string
			leaves := 0
			lossy(t, shortType(t), map[types.Type]bool{}, &out, &leaves)
			for _, x := range out {
				if f := strings.Fields(x)[0]; strings.HasPrefix(k, "stored ") && strings.Contains(x, "is a string") && strings.Count(f, ".") == 2 && !read[f] {
					c.ok(g, k+": "+f+" is not read back")
					continue
				}
				if k == "sealed user" && strings.Contains(x, "Groups key is a string") {
					c.ok(g, k+": group IDs are generated UUIDs") // which groups are added is decided by the identity rules
					continue
				}
				c.bad(g, k+": "+x, pos[k], "%s does not survive serialisation: %s", k, x)
			}
			if len(out) == 0 {
				c.ok(g, fmt.Sprintf("%s survives (%d parts)", k, leaves))
			}
		}
	}}

var gHash = &ruleGroup{name: "keyed-hash-object-behaves-as-hash", min: 28,
	what: "NewKMAC128 and NewKMAC256 refuse short keys and tags and nothing else, and start a cSHAKE sponge with exactly the padded, length-encoded key; Write feeds the sponge exactly its argument; Sum works on a clone, which it feeds the encoded tag length, and appends exactly the tag to its argument; Reset resets the sponge and feeds it the same block as the constructor; Size and BlockSize are the tag size and the rate",
	f: func(c *Ctx, g *ruleGroup) {
		for _, v := range []struct {
			ctor, sponge string
			key, rate    int64
		}{{"NewKMAC128", "sha3.NewCShake128", 16, 168}, {"NewKMAC256", "sha3.NewCShake256", 32, 136}} {
			v := v
			c.each(g, profNone, "crypto", v.ctor, "", func(r *Run, o *Outcome) {
				key, size, custom := r.par[0], r.par[1], r.par[2]
				short := []*Term{mkLt(mkLen(key), mkInt(v.key)), mkLt(size, mkInt(8))}
				if o.panic {
					c.must(holds(o.st.facts, short[0], true) || holds(o.st.facts, short[1], true), g, r.name+" panics", o.pos, "%s panics although key and tag are long enough", r.name)
					return
				}
				c.must(holds(o.st.facts, short[0], false) && holds(o.st.facts, short[1], false), g, r.name+" accepts", o.pos, "%s accepts a key below %d bytes or a tag below 8", r.name, v.key)
				sponge := c.spongeOf(o)
				if c.must(sponge != nil && c.spongeIs(sponge, v.sponge, custom), g, r.name+" sponge", o.pos, "%s is not computed with %s customised for KMAC and the given string", r.name, v.sponge) {
					parts, out, ok := c.feed(o, map[*Term]bool{sponge: true})
					c.must(ok && out == nil && len(parts) == 1 && keyPad(parts[0], key, v.rate, o.st.facts), g, r.name+" starts", o.pos, "%s does not start with exactly the padded, length-encoded key", r.name)
				}
			})
			method := func(name string, f func(r *Run, o *Outcome, key, size, custom *Term)) {
				par := paramTerms(c.a.fn("crypto", v.ctor))
				for _, r := range c.use(g, c.a.methodRuns(profNone, "crypto", v.ctor, name)) {
					for _, o := range r.outcomes() {
						c.must(!o.panic, g, r.name+" panics", o.pos, "%s can panic", r.name)
						if !o.panic {
							f(r, o, par[0], par[1], par[2])
						}
						for _, w := range o.st.writes {
							arg := len(r.par) > 1 && w.root == r.par[1] && w.how == "append"
							c.must(arg, g, r.name+" changes", w.pos, "%s changes the hash itself (%s)", r.name, w.how)
						}
					}
				}
			}
			method("Write", func(r *Run, o *Outcome, key, size, custom *Term) {
				var evs []*Event
				for _, e := range o.st.events {
					if e.loop != nil || strings.HasPrefix(e.op, "invoke:") && len(e.args) > 0 && c.spongeIs(deref(e.args[0]), v.sponge, custom) {
						evs = append(evs, e)
					}
				}
				ok := len(evs) == 1 && evs[0].op == "invoke:io.Write" && evs[0].args[1] == r.par[1]
				c.must(ok, g, r.name+" input", o.pos, "%s does not feed the sponge exactly the bytes it is given", r.name)
			})
			method("Sum", func(r *Run, o *Outcome, key, size, custom *Term) {
				// the receiver's own sponge is only cloned
				var clone *Term
				for _, s := range o.sites() {
					if len(s.args) == 0 || !c.spongeIs(deref(s.args[0]), v.sponge, custom) {
						continue
					}
					if !c.must(s.op == "invoke:sha3.Clone" && len(s.loops) == 0, g, r.name+" state", s.pos, "%s works on the hash itself instead of on a copy", r.name) {
						return
					}
					clone = s.term
				}
				alias := map[*Term]bool{}
				walkEvents(o.st.events, func(x *Event) {
					if len(x.args) > 0 && clone != nil {
						if y := deref(x.args[0]); y.k == KRes && y.n == 0 && y.args[0] == clone {
							alias[y] = true
						}
					}
				})
				parts, out, ok := c.feed(o, alias)
				if !c.must(ok && len(alias) == 1 && len(parts) == 1 && out != nil && lengthSuffix(parts[0], size, o.st.facts), g, r.name+" length", o.pos, "%s does not end the input with exactly the encoded tag length", r.name) {
					return
				}
				tag := app("havoc", nil)
				ps := []*Term{o.res[0]}
				if o.res[0].k == KConcat {
					ps = o.res[0].args
				}
				if len(ps) > 0 && ps[0] == r.par[1] {
					ps = ps[1:]
				} else if !holds(o.st.facts, mkEq(mkLen(r.par[1]), mkInt(0)), true) && !holds(o.st.facts, mkEq(r.par[1], tNil), true) {
					ps = nil
				}
				ok = len(ps) == 1
				if ok {
					tag = ps[0]
					if tag.k == KSub && tag.args[1] == mkInt(0) && mkLen(tag) == size {
						tag = tag.args[0]
					}
					ok = tag.k == KApp && tag.op == "havoc" && tag.args[0] == out.term && mkLen(out.args[1]) == size
				}
				c.must(ok, g, r.name+" result", o.pos, "%s does not append exactly the tag to its argument", r.name)
			})
			method("Reset", func(r *Run, o *Outcome, key, size, custom *Term) {
				var evs []*Event
				for _, s := range o.st.events {
					if s.loop != nil || len(s.args) > 0 && c.spongeIs(deref(s.args[0]), v.sponge, custom) {
						evs = append(evs, s)
					}
				}
				ok := len(evs) == 2 && evs[0].op == "invoke:sha3.Reset" && evs[1].op == "invoke:io.Write" && keyPad(evs[1].args[1], key, v.rate, o.st.facts)
				c.must(ok, g, r.name+" restarts", o.pos, "%s does not reset the sponge and start again with the padded key", r.name)
			})
			method("Size", func(r *Run, o *Outcome, key, size, custom *Term) {
				c.must(o.res[0] == size, g, r.name+" is", o.pos, "%s is not the tag size", r.name)
			})
			method("BlockSize", func(r *Run, o *Outcome, key, size, custom *Term) {
				n, ok := o.res[0].intVal()
				c.must(ok && n == v.rate, g, r.name+" is", o.pos, "%s is not the rate of the sponge", r.name)
			})
		}
	}}

// spongeOf is the sponge a path first writes to.
func (c *Ctx) spongeOf(o *Outcome) *Term {
	for _, e := range o.st.events {
		if e.loop == nil && e.op == "invoke:io.Write" {
			return deref(e.args[0])
		}
	}
	return nil
}

func (c *Ctx) spongeIs(t *Term, ctor string, custom *Term) bool {
	if t == nil || t.k != KApp || t.op != ctor || len(t.args) != 2 || t.args[1] != custom {
		return false
	}
	n, ok := labelText(t.args[0])
	return ok && n == "KMAC"
}
