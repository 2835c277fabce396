package main

import (
	"go/types"
)

// ---------------------------------------------------------------- the secure index

var indexOps = []string{"SecureIndex.Add", "SecureIndex.Search", "SecureIndex.Delete"}

var gIndexScope = &ruleGroup{name: "index-scope", min: 15,
	what: "every storage or keyed operation, and every successful return, of an index operation lies behind a successful GetIdentity of the caller's token and a test that the identity's own scopes contain the index scope; every exported index method that takes a token is listed",
	f: func(c *Ctx, g *ruleGroup) {
		S := c.a.cint("id", "ScopeIndex")
		known := map[string]bool{}
		for _, n := range indexOps {
			known[n] = true
			c.gated(g, "index", n, "NewSecureIndex", S)
		}
		for _, f := range c.a.exportedMethods("index", "SecureIndex") {
			if n := "SecureIndex." + f.Name(); takesToken(f) && !known[n] {
				c.gated(g, "index", n, "NewSecureIndex", S)
			}
		}
	}}

var gIndexRefusals = &ruleGroup{name: "index-refusals", min: 6,
	what: "an index operation answers ErrNotAuthenticated exactly when the identity provider failed, ErrNotAuthorized only when the identity's scopes lack the index scope, and refuses nobody who is authenticated and holds the scope for another reason than a failed operation",
	f: func(c *Ctx, g *ruleGroup) {
		S := c.a.cint("id", "ScopeIndex")
		nauth, nz := c.a.sent("index", "ErrNotAuthenticated"), c.a.sent("index", "ErrNotAuthorized")
		for _, n := range indexOps {
			c.each(g, profCrypto, "index", n, "NewSecureIndex", func(r *Run, o *Outcome) {
				if o.ok || o.panic {
					if o.panic {
						c.bad(g, r.name+" panics", o.pos, "%s panics", r.name)
					}
					return
				}
				tok := r.param(1)
				failed := c.identityFailed(o, tok)
				lacks := false
				for _, a := range authenticated(o.st.facts, tok) {
					if _, can := scopeFacts(o.st.facts, c.a.idField(a, "Scopes"), S); !can {
						lacks = true
					}
				}
				switch {
				case isErr(o.err, nauth):
					c.must(failed, g, r.name+" not authenticated", o.pos, "%s answers that the caller is not authenticated although the identity provider accepted the token", r.name)
				case isErr(o.err, nz):
					c.must(lacks && !failed, g, r.name+" not authorized", o.pos, "%s answers that the caller is not authorized although they may hold the scope", r.name)
				default:
					c.must(!failed && !lacks, g, r.name+" refusal error", o.pos, "%s refuses a caller with another error than the documented one", r.name)
					c.must(failureKnown(o.st.facts), g, r.name+" refusal", o.pos, "%s fails although the caller is authorized and nothing failed", r.name)
				}
			})
		}
	}}

// labelCounter finds the counter an index label stands for: a keyed tag over an injective encoding of it.
func labelCounter(t *Term) *Term {
	ev := resOf(t, 0)
	if ev == nil || ev.op != "crypto.Tag" || len(ev.args) < 2 {
		return nil
	}
	x := ev.args[1]
	for x.k == KIface {
		x = x.args[0]
	}
	if x.k == KSub && x.args[0].k == KApp && x.args[0].op == "uvarintBuf" && x.args[1] == mkInt(0) && x.args[2].k == KApp && x.args[2].op == "uvarintLen" && x.args[2].args[0] == x.args[0].args[0] {
		return x.args[0].args[0]
	}
	if x.k == KApp && (x.op == "be64" || x.op == "le64" || x.op == "uvarint") && len(x.args) == 1 {
		return x.args[0]
	}
	return nil
}

func (c *Ctx) ioNotFound(facts []Fact, e *Event) bool {
	return holds(facts, errorsIs(res(1, errType(), e.term), c.a.sent("io", "ErrNotFound")), true)
}

// hop is one step along a keyword's chain of entries.
type hop struct {
	get  *Event
	x    *Term // the counter of the label
	node *Term // what the entry holds, when it was read and authenticated
	gone bool  // there is no entry with that label
}

// hopsIn finds the steps among operations.
func (c *Ctx) hopsIn(evs []*Event, facts []Fact) []hop {
	nt := c.a.typ("data", "Node")
	var out []hop
	for _, e := range evs {
		if e.loop != nil || e.op != "io.Get" || c.kindOf(e.args[3]) != "node" {
			continue
		}
		h := hop{get: e, x: labelCounter(e.args[2]), gone: c.ioNotFound(facts, e)}
		for _, d := range evs {
			if d.loop != nil || d.op != "crypto.Decrypt" {
				continue
			}
			if g, f := storedField(d.args[4]); g == e.term && f == "Ciphertext" && holds(facts, mkEq(errOf(d), tNil), true) {
				if tt := targetType(d); tt != nil && types.Identical(tt, nt) {
					h.node = decryptedBy(d, nt)
				}
			}
		}
		out = append(out, h)
	}
	return out
}

// chain is a walk along a keyword's entries from the first: some steps one by one, then a loop (if any), then the last step.
type chain struct {
	ev    *Event // the loop, or nil
	first []hop  // the steps before the loop
	last  hop    // the step after the loop
	x     *Term
}

func (v *chain) backs() []*Back {
	if v.ev == nil {
		return nil
	}
	return v.ev.loop.backs
}

func (v *chain) entry(t *Term) *Term {
	if v.ev == nil {
		return t
	}
	return newSubst(func(x *Term) *Term {
		for _, lv := range v.ev.loop.vars {
			if lv.term == x {
				return lv.entry
			}
		}
		return nil
	}).do(t)
}

func (v *chain) next(b *Back, t *Term) *Term {
	return newSubst(func(x *Term) *Term {
		for _, lv := range v.ev.loop.vars {
			if lv.term == x {
				return b.next[lv]
			}
		}
		return nil
	}).do(t)
}

// follow finds the walk of a path and checks that it starts at the first entry and leaves none out.
func (c *Ctx) follow(g *ruleGroup, r *Run, o *Outcome) *chain {
	nt := c.a.typ("data", "Node")
	// prefix takes the steps made one by one; next is the counter of the step that follows them
	prefix := func(hs []hop) (first []hop, next *Term) {
		next = mkInt(0)
		for _, h := range hs {
			if h.x != next || h.node == nil {
				break
			}
			first = append(first, h)
			next = field(h.node, nt, "NextCounter")
		}
		return first, next
	}
	for i, e := range o.st.events {
		if e.loop == nil {
			continue
		}
		first, next := prefix(c.hopsIn(o.st.events[:i], o.st.facts))
		for _, h := range c.hopsIn(o.st.events[i+1:], o.st.facts) {
			if h.x == nil {
				continue
			}
			v := &chain{ev: e, first: first, last: h, x: h.x}
			if v.entry(h.x) == h.x {
				continue
			}
			c.must(v.entry(h.x) == next, g, r.name+" starts at the first entry", h.get.pos, "%s does not start with the keyword's first entry", r.name)
			return v
		}
	}
	hs := c.hopsIn(o.st.events, o.st.facts)
	first, next := prefix(hs)
	if len(hs) > len(first) && hs[len(first)].x == next {
		c.ok(g, r.name+" starts at the first entry")
		return &chain{first: first, last: hs[len(first)], x: next}
	}
	c.bad(g, r.name+" follows the chain", o.pos, "%s does not follow the keyword's entries in a way the analysis recognises", r.name)
	return nil
}

// steps checks that each round of a chain loop reads the entry at the current label and moves to the label it names.
func (c *Ctx) steps(g *ruleGroup, r *Run, v *chain, b *Back, moves bool) (hop, bool) {
	nt := c.a.typ("data", "Node")
	hs := c.hopsIn(b.events, b.st.facts)
	if len(hs) == 0 || hs[0].x != v.x {
		c.bad(g, r.name+" reads the current entry", v.ev.pos, "%s goes on without reading the keyword's current entry", r.name)
		return hop{}, false
	}
	h := hs[0]
	if !c.must(h.node != nil && !h.gone, g, r.name+" authenticates entries", h.get.pos, "%s goes on without the entry having been read and authenticated", r.name) {
		return h, false
	}
	if moves {
		c.must(v.next(b, v.x) == field(h.node, nt, "NextCounter"), g, r.name+" next entry", h.get.pos, "%s does not continue with the entry that the current one names", r.name)
	}
	return h, true
}

var gIndexSearch = &ruleGroup{name: "search-is-complete", min: 6,
	what: "Search reads the keyword's entries from the first, each time the one the previous entry names, stops successfully only when storage says that there is no such entry, and returns the identifier of every entry read, in order, and nothing else; it never writes",
	f: func(c *Ctx, g *ruleGroup) {
		nt := c.a.typ("data", "Node")
		c.each(g, profCrypto, "index", "SecureIndex.Search", "NewSecureIndex", func(r *Run, o *Outcome) {
			for _, s := range o.sites() {
				if isIoWrite(s.Event) {
					c.bad(g, r.name+" writes", s.pos, "%s writes to storage", r.name)
				}
			}
			if !o.ok {
				return
			}
			v := c.follow(g, r, o)
			if v == nil {
				return
			}
			c.must(v.last.gone, g, r.name+" end", o.pos, "%s stops although storage did not say that there are no more entries", r.name)
			res := o.res[0]
			var ids []*Term
			for _, h := range v.first {
				ids = append(ids, field(h.node, nt, "Identifier"))
			}
			start := v.entry(res)
			c.must(len(ids) == 0 && isEmptySeq(start) || start == mkLit(ids...), g, r.name+" starts empty", o.pos, "%s returns more or less than the identifiers of the entries", r.name)
			for _, b := range v.backs() {
				h, ok := c.steps(g, r, v, b, true)
				if !ok {
					continue
				}
				c.must(v.next(b, res) == mkConcat(res, mkLit(field(h.node, nt, "Identifier"))), g, r.name+" collects", h.get.pos, "%s does not add the identifier of each entry to its result", r.name)
			}
			c.must(v.ev == nil || len(v.backs()) > 0, g, r.name+" continues", o.pos, "%s never reads a second entry", r.name)
		})
	}}

var gIndexAdd = &ruleGroup{name: "add-appends-one-entry", min: 7,
	what: "Add follows the keyword's entries to the first label without one and creates there, and writes nowhere else, an entry that holds exactly the given identifier and names the following label",
	f: func(c *Ctx, g *ruleGroup) {
		nt := c.a.typ("data", "Node")
		c.each(g, profCrypto, "index", "SecureIndex.Add", "NewSecureIndex", func(r *Run, o *Outcome) {
			ident := r.param(3)
			var put []Site
			for _, s := range o.sites() {
				if isIoWrite(s.Event) {
					put = append(put, s)
				}
			}
			if o.ok {
				c.must(len(put) == 1 && holds(o.st.facts, mkEq(errOf(put[0].Event), tNil), true), g, r.name+" success", o.pos, "%s succeeds without having created one entry", r.name)
			}
			if len(put) == 0 {
				return
			}
			s := put[0]
			if !c.must(len(put) == 1 && s.op == "io.Put" && len(s.loops) == 0 && c.kindOf(s.args[3]) == "node", g, r.name+" writes", s.pos, "%s writes something other than one new entry", r.name) {
				return
			}
			v := c.follow(g, r, o)
			if v == nil {
				return
			}
			c.must(v.last.gone, g, r.name+" end", s.pos, "%s writes although storage did not say that the label is free", r.name)
			for _, b := range v.backs() {
				c.steps(g, r, v, b, true)
			}
			c.must(labelCounter(s.args[2]) == v.x && s.args[2] == v.last.get.args[2], g, r.name+" label", s.pos, "%s stores the entry under another label than the first free one", r.name)
			val := storedValue(s.Event)
			var enc *Event
			if val != nil && val.typ != nil && structOf(val.typ) != nil {
				enc = encryptionOf(o, field(val, val.typ, "Ciphertext"), 1)
			}
			if !c.must(enc != nil && encryptionOf(o, field(val, val.typ, "WrappedKey"), 0) == enc, g, r.name+" sealed", s.pos, "%s stores something other than an entry it encrypted", r.name) {
				return
			}
			n := plainOf(enc)
			c.must(field(n, nt, "Identifier") == ident, g, r.name+" identifier", s.pos, "%s stores another identifier than the given one", r.name)
			c.must(field(n, nt, "NextCounter") == tAdd(v.x, mkInt(1)), g, r.name+" next label", s.pos, "%s stores an entry that does not name the following label", r.name)
		})
	}}

var gIndexDelete = &ruleGroup{name: "delete-removes-every-match", min: 10,
	what: "Delete visits all of the keyword's entries; an entry is only overwritten or removed when its identifier equals the given one; a match that is the last entry is removed, any other match is first overwritten with the following entry, whole, and then that one is removed; entries that do not match are passed over by the label they name; it ends successfully only at a label without entry",
	f: func(c *Ctx, g *ruleGroup) {
		nt := c.a.typ("data", "Node")
		check := func(r *Run, evs []*Event, facts []Fact, ident *Term, x *Term, o *Outcome, complete bool) (changed, ok bool) {
			hs := c.hopsIn(evs, facts)
			var cur, nxt *hop
			for i := range hs {
				if hs[i].x == x && cur == nil {
					cur = &hs[i]
				}
			}
			if cur != nil && cur.node != nil {
				for i := range hs {
					if hs[i].x == field(cur.node, nt, "NextCounter") {
						nxt = &hs[i]
					}
				}
			}
			var upd *Event
			removed := false
			for _, e := range evs {
				if e.loop != nil || !isIoWrite(e) {
					continue
				}
				changed = true
				f := facts
				if e.nfacts < len(f) {
					f = f[:e.nfacts]
				}
				if !c.must(cur != nil && cur.node != nil && c.kindOf(e.args[3]) == "node" && holds(f, mkEq(field(cur.node, nt, "Identifier"), ident), true), g, r.name+" "+e.op+" only matches", e.pos, "%s changes an entry whose identifier is not shown to equal the given one", r.name) {
					return changed, false
				}
				lab := labelCounter(e.args[2])
				switch e.op {
				case "io.Update":
					var enc *Event
					if val := storedValue(e); val != nil && val.typ != nil && structOf(val.typ) != nil {
						enc = encryptionOf(o, field(val, val.typ, "Ciphertext"), 1)
						if enc != nil && encryptionOf(o, field(val, val.typ, "WrappedKey"), 0) != enc {
							enc = nil
						}
					}
					c.must(lab == x && nxt != nil && nxt.node != nil && enc != nil && plainOf(enc) == nxt.node, g, r.name+" overwrites", e.pos, "%s does not overwrite the match with the whole following entry", r.name)
					upd = e
				case "io.Delete":
					switch {
					case lab != nil && lab == x:
						c.must(nxt != nil && nxt.gone && upd == nil, g, r.name+" removes the last", e.pos, "%s removes an entry that is not shown to be the last", r.name)
						removed = true
					case cur != nil && lab != nil && lab == field(cur.node, nt, "NextCounter"):
						c.must(upd != nil && holds(f, mkEq(errOf(upd), tNil), true), g, r.name+" removes the following", e.pos, "%s removes the following entry before its copy is stored", r.name)
						removed = true
					default:
						c.bad(g, r.name+" removes another", e.pos, "%s removes an entry that is neither the match nor the one moved into its place", r.name)
					}
					if complete {
						c.must(holds(facts, mkEq(errOf(e), tNil), true), g, r.name+" removed", e.pos, "%s goes on although removing may have failed", r.name)
					}
				default:
					c.bad(g, r.name+" creates", e.pos, "%s creates an entry", r.name)
				}
			}
			if complete && upd != nil {
				c.must(removed, g, r.name+" completes", upd.pos, "%s leaves the following entry twice", r.name)
			}
			return changed, true
		}
		c.each(g, profCrypto, "index", "SecureIndex.Delete", "NewSecureIndex", func(r *Run, o *Outcome) {
			ident := r.param(3)
			writes := false
			for _, s := range o.top() {
				writes = writes || isIoWrite(s.Event)
			}
			if !o.ok && !writes {
				return // what earlier rounds wrote is checked on the paths that end well
			}
			v := c.follow(g, r, o)
			if v == nil {
				return
			}
			if len(v.first) > 0 {
				c.bad(g, r.name+" follows the chain", o.pos, "%s does not visit the keyword's entries in a way the analysis recognises", r.name)
				return
			}
			var rest []*Event
			if v.ev == nil {
				rest = o.st.events
			}
			for i, e := range o.st.events {
				if v.ev != nil && e == v.ev {
					rest = o.st.events[i+1:]
				}
			}
			if o.ok {
				c.must(v.last.gone, g, r.name+" end", o.pos, "%s stops although storage did not say that there are no more entries", r.name)
				for _, e := range rest {
					if e.loop == nil && isIoWrite(e) {
						c.bad(g, r.name+" writes at the end", e.pos, "%s writes after the last entry", r.name)
					}
				}
			} else {
				check(r, rest, o.st.facts, ident, v.x, o, false)
			}
			kinds := map[bool]bool{}
			for _, b := range v.backs() {
				h, ok := c.steps(g, r, v, b, false)
				if !ok {
					continue
				}
				changed, ok := check(r, b.events, b.st.facts, ident, v.x, o, true)
				if !ok {
					continue
				}
				kinds[changed] = true
				if changed {
					c.must(v.next(b, v.x) == v.x, g, r.name+" looks again", h.get.pos, "%s does not look at the same label again after the entry there changed", r.name)
				} else {
					c.must(v.next(b, v.x) == field(h.node, nt, "NextCounter"), g, r.name+" next entry", h.get.pos, "%s does not continue with the entry that the current one names", r.name)
					c.must(holds(b.st.facts, mkEq(field(h.node, nt, "Identifier"), ident), false), g, r.name+" passes over", h.get.pos, "%s passes over an entry whose identifier may equal the given one", r.name)
				}
			}
			c.must(v.ev == nil || kinds[true] && kinds[false], g, r.name+" both kinds", o.pos, "%s does not both remove matches and pass over others", r.name)
		})
	}}
