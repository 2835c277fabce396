package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- every operation of the library

// operation is an exported function or method of the repository.
type operation struct {
	pkg, name, ctor string
	prof            profile
	fn              *ssa.Function
}

// operations lists the exported functions and methods of the repository's packages.
func (a *Analysis) operations() []operation {
	var out []operation
	for _, pk := range a.p.prog.AllPackages() {
		path := pk.Pkg.Path()
		if path != modPath && !strings.HasPrefix(path, modPath+"/") || pk.Pkg.Name() == "main" {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		if strings.HasPrefix(rel, "log") {
			continue
		}
		prof := profCrypto
		if rel == "crypto" || rel == "io" {
			prof = profNone
		}
		sc := pk.Pkg.Scope()
		for _, n := range sc.Names() {
			if !token_exported(n) {
				continue
			}
			switch o := sc.Lookup(n).(type) {
			case *types.Func:
				f := a.p.prog.FuncValue(o)
				if f != nil && len(f.Blocks) > 0 && f.Signature.TypeParams().Len() == 0 {
					out = append(out, operation{rel, n, "", prof, f})
				}
			case *types.TypeName:
				nt, ok := o.Type().(*types.Named)
				if !ok || o.IsAlias() || types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
					continue
				}
				ctor := a.constructorOf(sc, nt)
				for i := 0; i < nt.NumMethods(); i++ {
					m := nt.Method(i)
					f := a.p.prog.FuncValue(m)
					if m.Exported() && f != nil && len(f.Blocks) > 0 {
						out = append(out, operation{rel, n + "." + m.Name(), ctor, prof, f})
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].pkg+"."+out[i].name < out[j].pkg+"."+out[j].name })
	return out
}

func token_exported(n string) bool { return n[0] >= 'A' && n[0] <= 'Z' }

// constructorOf is the exported function that makes values of a struct type with private fields only.
func (a *Analysis) constructorOf(sc *types.Scope, t *types.Named) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			return ""
		}
	}
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Results().Len() == 0 || sig.TypeParams().Len() > 0 {
			continue
		}
		r := sig.Results().At(0).Type()
		if p := pointee(r); p != nil {
			r = p
		}
		if types.Identical(r, t) {
			return n
		}
	}
	return ""
}

// eachOperation visits the outcomes of the operations selected.
func (c *Ctx) eachOperation(g *ruleGroup, sel func(operation) bool, f func(op operation, r *Run, o *Outcome)) {
	for _, op := range c.a.operations() {
		op := op
		if sel(op) {
			c.each(g, op.prof, op.pkg, op.name, op.ctor, func(r *Run, o *Outcome) { f(op, r, o) })
		}
	}
}

func canFail(op operation) bool {
	res := op.fn.Signature.Results()
	return res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
}

// ---------------------------------------------------------------- failures are reported

// errors that say nothing about the work that was asked for
func incidental(f Fallible) bool {
	op := f.op
	if op == "invoke:io.Read" && f.ev != nil && anyTerm(f.ev.args[0], func(t *Term) bool { return t.k == KApp && strings.HasPrefix(t.op, "sha3.") }) {
		return true // the sponge's output never fails
	}
	for _, p := range []string{"log:", "errors.", "fmt.", "context.", "invoke:context.", "bytes.Buffer.", "strings.Builder.", "invoke:hash."} {
		if strings.HasPrefix(op, p) {
			return true
		}
	}
	return strings.HasSuffix(op, ".Close") || strings.HasSuffix(op, ".Rollback") || strings.HasSuffix(op, ".Write") && strings.HasPrefix(op, "invoke:")
}

var gFailures = failuresOf("failed-step-fails-operation", 60, "", func(op operation) bool { return true })

// failuresIn is that rule for some operations.
func failuresIn(pkg string, names ...string) *ruleGroup {
	return failuresOf("failed-step-fails-operation:"+strings.Join(names, ","), len(names), " ("+strings.Join(names, ", ")+")", func(op operation) bool {
		if op.pkg != pkg {
			return false
		}
		for _, n := range names {
			if op.name == n {
				return true
			}
		}
		return false
	})
}

func failuresOf(name string, min int, which string, sel func(op operation) bool) *ruleGroup {
	return &ruleGroup{name: name, min: min,
		what: "on every path on which an exported operation that can fail" + which + " reports success, every fallible step it took (storage, identity and key providers, encryption, decryption, key wrapping, random numbers, encoding, decoding, database) is known to have succeeded; the only failure an operation may go on after is that no record was found",
		f: func(c *Ctx, g *ruleGroup) {
			nf := c.a.sent("io", "ErrNotFound")
			c.eachOperation(g, func(op operation) bool { return canFail(op) && sel(op) }, func(op operation, r *Run, o *Outcome) {
				if !o.ok {
					return
				}
				c.ok(g, r.name+" success")
				for _, f := range o.st.fails {
					if incidental(f) {
						continue
					}
					facts := o.st.facts
					if f.loop != nil {
						facts = f.loop
					}
					good := holds(facts, mkEq(f.err, tNil), true)
					if !good && f.op == "io.Get" && f.ev != nil && len(f.ev.args) > 3 {
						k := c.dataTypeName(f.ev)
						if op.name == "D1.Delete" && k == "Access" || k == "Node" {
							good = holds(facts, app("errors.Is", types.Typ[types.Bool], f.err, nf), true)
						}
					}
					c.must(good, g, r.name+" "+f.op, f.pos, "%s can report success although %s failed", r.name, f.op)
				}
			})
		}}
}

// ---------------------------------------------------------------- failures tell their cause

// storageNames are the error values an operation's package has for the outcomes of storage, by kind of record.
var storageNames = []struct{ pkg, kind, missing, exists string }{
	{"", "Object", "ErrObjectNotFound", "ErrObjectAlreadyExists"},
	{"", "Access", "ErrAccessNotFound", "ErrAccessAlreadyExists"},
	{"id", "User", "ErrUserNotFound", "ErrUserAlreadyExists"},
	{"id", "Group", "ErrGroupNotFound", "ErrGroupAlreadyExists"},
	{"index", "Node", "ErrNodeNotFound", "ErrNodeAlreadyExists"},
}

// wrapped lists the errors an error value says it is.
func wrappedErrs(e *Term) []*Term {
	out := []*Term{e}
	if e.k == KApp && e.op == "fmt.Errorf" && len(e.args) > 1 && e.args[1].k == KLit {
		if f, ok := e.args[0].strVal(); ok && strings.Contains(f, "%w") {
			for _, a := range e.args[1].args {
				out = append(out, wrappedErrs(deref(a))...)
			}
		}
	}
	if e.k == KApp && e.op == "errors.Join" {
		for _, a := range e.args {
			if a.k == KLit {
				for _, x := range a.args {
					out = append(out, wrappedErrs(x)...)
				}
			}
		}
	}
	return out
}

var gCauses = &ruleGroup{name: "errors-tell-their-cause", min: 60,
	what: "when an operation of a service fails because a step failed, the error it returns is that step's error (possibly wrapped), ErrNotAuthenticated for an identity that was rejected, or, exactly when storage answered that a record is missing or exists already, the service's own error value for that kind of record",
	f: func(c *Ctx, g *ruleGroup) {
		nf, ae := c.a.sent("io", "ErrNotFound"), c.a.sent("io", "ErrAlreadyExists")
		is := func(facts []Fact, e, s *Term) bool {
			return holds(facts, app("errors.Is", types.Typ[types.Bool], e, s), true)
		}
		isnt := func(facts []Fact, e, s *Term) bool {
			return holds(facts, app("errors.Is", types.Typ[types.Bool], e, s), false)
		}
		c.eachAPI(g, func(a api, r *Run, o *Outcome) {
			if o.err == nil || o.ok || o.panic {
				return
			}
			noAuth := c.a.sent(a.pkg, "ErrNotAuthenticated")
			facts := o.st.facts
			says := map[*Term]bool{}
			for _, e := range wrappedErrs(o.err) {
				says[e] = true
			}
			// the steps that failed
			var failed []Fallible
			for _, f := range o.st.fails {
				if f.loop == nil && !incidental(f) && holds(facts, mkEq(f.err, tNil), false) {
					failed = append(failed, f)
				}
			}
			if says[noAuth] {
				// an identity is rejected by the identity provider, by login, or for its token
				rejected := a.pkg == "id"
				for _, f := range failed {
					switch {
					case strings.HasPrefix(f.op, "id.GetIdentity"):
						rejected = true
					case a.pkg != "id" || r.fn.Name() == "LoginUser":
					case f.op == "io.Put" || f.op == "io.Update" || f.op == "io.Delete" || f.op == "uuid.NewV4",
						r.fn.Name() != "ChangeUserPassword" && (f.op == "io.Get" || f.op == "crypto.Encrypt"):
						c.bad(g, r.name+" "+f.op+" not authenticated", f.pos, "%s blames the caller's identity when %s failed", r.name, f.op)
						return
					}
				}
				c.must(rejected, g, r.name+" not authenticated", o.pos, "%s answers ErrNotAuthenticated although the caller's identity was not rejected", r.name)
				return
			}
			kindOf := func(f Fallible) (missing, exists *Term, kind string) {
				if f.ev == nil || !isIoOp(f.ev) {
					return nil, nil, ""
				}
				kind = c.dataTypeName(f.ev)
				for _, n := range storageNames {
					if n.pkg == a.pkg && n.kind == kind {
						return c.a.sent(n.pkg, n.missing), c.a.sent(n.pkg, n.exists), kind
					}
				}
				return nil, nil, kind
			}
			explained := false
			for i, f := range failed {
				missing, exists, kind := kindOf(f)
				if f.op == "io.Get" && kind == "Node" && i < len(failed)-1 && is(facts, f.err, nf) {
					continue // the end of the list: the operation goes on after it
				}
				key := r.name + " " + f.op
				if kind != "" {
					key += " " + kind
				}
				switch {
				case says[f.err]:
					explained = true
					if missing != nil && (f.op == "io.Get" || f.op == "io.Update") {
						c.must(says[missing] || isnt(facts, f.err, nf), g, key+" missing", o.pos, "%s can answer the storage's ErrNotFound instead of its own error value when the %s record is missing", r.name, strings.ToLower(kind))
					} else if exists != nil && f.op == "io.Put" {
						c.must(says[exists] || isnt(facts, f.err, ae), g, key+" exists", o.pos, "%s can answer the storage's ErrAlreadyExists instead of its own error value when the %s record exists", r.name, strings.ToLower(kind))
					} else {
						c.ok(g, key)
					}
				case missing != nil && is(facts, f.err, nf) && says[missing]:
					explained = true
					c.ok(g, key+" missing")
				case exists != nil && is(facts, f.err, ae) && says[exists]:
					explained = true
					c.ok(g, key+" exists")
				}
			}
			if explained {
				return
			}
			// which steps failed that the operation does not go on after
			for _, f := range failed {
				_, _, kind := kindOf(f)
				if f.op == "io.Get" && is(facts, f.err, nf) && (kind == "Node" || kind == "Access" && r.fn.Name() == "Delete") {
					continue
				}
				c.bad(g, r.name+" "+f.op+" "+kind+" hidden", f.pos, "%s answers an error that does not tell that %s failed", r.name, f.op)
				return
			}
			// nothing failed: then no error value that says so may be used
			for _, n := range storageNames {
				if n.pkg != a.pkg {
					continue
				}
				for _, s := range []string{n.missing, n.exists} {
					if says[c.a.sent(n.pkg, s)] {
						c.bad(g, r.name+" "+s+" without cause", o.pos, "%s answers %s although storage did not say so", r.name, s)
					}
				}
			}
			c.ok(g, r.name+" refusal")
		})
	}}

// ---------------------------------------------------------------- failures return nothing else

var gZeroOnError = &ruleGroup{name: "failure-returns-nothing", min: 25,
	what: "whenever an exported operation returns an error, all its other results are zero values",
	f: func(c *Ctx, g *ruleGroup) {
		c.eachOperation(g, func(op operation) bool { return canFail(op) && op.fn.Signature.Results().Len() > 1 }, func(op operation, r *Run, o *Outcome) {
			if o.ok || o.panic {
				return
			}
			for i, x := range o.res[:len(o.res)-1] {
				t := r.fn.Signature.Results().At(i).Type()
				z := x == zeroOf(t) || x.k == KNil || x.k == KZeros
				if !z {
					// the failing call's own result: libraries return nothing with an error
					if g := x; g.k == KRes && o.err.k == KRes && g.args[0] == o.err.args[0] {
						z = true
					}
				}
				c.must(z, g, r.name+" result "+t.String(), o.pos, "%s returns data together with an error", r.name)
			}
		})
	}}

// ---------------------------------------------------------------- nothing is shared between calls

var serviceTypes = map[string]bool{".D1": true, "id.Standalone": true, "index.SecureIndex": true, "crypto.Cryptor": true, "crypto.Tagger": true,
	"crypto.KWP": true, "crypto.AES256GCM": true, "crypto.PasswordHasher": true, "crypto.NativeRandom": true, "key.Static": true, "io.Proxy": true}

func (op operation) recvType() string {
	if i := strings.Index(op.name, "."); i > 0 {
		return op.pkg + "." + op.name[:i]
	}
	return ""
}

var gNoSharedState = &ruleGroup{name: "calls-share-no-state", min: 30,
	what: "no method of a service, cryptor, tagger, key wrapper or password hasher writes to its receiver, to package variables, or to memory that existed before the call and that other calls can reach",
	f: func(c *Ctx, g *ruleGroup) {
		c.eachOperation(g, func(op operation) bool { return serviceTypes[op.recvType()] }, func(op operation, r *Run, o *Outcome) {
			c.ok(g, r.name)
			for _, w := range o.st.writes {
				shared := ""
				switch {
				case w.root.k == KGlobal:
					shared = "a package variable"
				case o.st.pre[w.root]:
					shared = "memory made when the receiver was constructed"
				case w.root == r.par[0] || w.root.k == KField && contains(w.root, r.par[0]):
					shared = "its receiver"
				case r.recv != nil && contains(r.recv, w.root) && !isParamOf(w.root, r):
					shared = "memory its receiver refers to"
				}
				if shared != "" {
					c.bad(g, r.name+" writes "+w.root.String(), w.pos, "%s writes to %s (%s), which concurrent calls use", r.name, shared, w.how)
				}
			}
			for _, s := range o.sites() {
				if s.op == "sync.Pool.Put" && len(s.raw) == 2 {
					back := reachable(o.st, s.raw[1])
					for x := range back {
						for _, p := range r.par {
							if p != r.par[0] && ownerOf(x) == p {
								c.bad(g, r.name+" pool", s.pos, "%s puts memory of its caller into a pool that concurrent calls take from", r.name)
							}
						}
					}
					for _, v := range o.raw {
						for x := range reachable(o.st, v) {
							if back[x] {
								c.bad(g, r.name+" pool", s.pos, "%s returns memory that it puts back into a pool for other calls to use", r.name)
							}
						}
					}
				}
				if s.op == "map.Set" || s.op == "map.Delete" {
					c.bad(g, r.name+" "+s.op, s.pos, "%s changes a map that concurrent calls use", r.name)
				}
			}
		})
	}}

// reachable is the memory that can be reached from a value.
func reachable(st *State, v *Term) map[*Term]bool {
	out := map[*Term]bool{}
	var rec func(v *Term, d int)
	rec = func(v *Term, d int) {
		if v == nil || d == 0 {
			return
		}
		switch v.k {
		case KIface, KStruct, KTuple, KClosure, KConv:
			for _, a := range v.args {
				rec(a, d-1)
			}
			return
		case KSlice, KFieldAddr, KElemAddr:
			v = rootOf(v)
		}
		if out[v] || v.k == KConst || v.k == KNil {
			return
		}
		if v.k == KObj || v.typ != nil && (isSliceOrMap(v.typ) || pointee(v.typ) != nil) {
			out[v] = true
			for _, s := range st.shared[v] {
				rec(s, d-1)
			}
		}
		if v.k == KObj {
			rec(st.heap[v], d-1)
		}
	}
	rec(v, 8)
	return out
}

func isParamOf(t *Term, r *Run) bool {
	for _, p := range r.par[1:] {
		if t == p {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- what callers and providers own

// documented to change the argument
func mutates(op operation, i int) bool {
	switch op.pkg + "." + op.name {
	case "crypto.Cryptor.Decrypt":
		return i == 0 // the destination
	case "crypto.AES256GCM.Encrypt", "crypto.AES256GCM.Decrypt":
		return i == 0 // in place, as documented
	}
	return false
}

var gArguments = &ruleGroup{name: "arguments-left-alone", min: 40,
	what: "no exported operation writes to memory its arguments refer to, or to memory it got from a provider, except where the documentation says so (the destination of Decrypt, in-place encryption of the plaintext or ciphertext given to AES256GCM)",
	f: func(c *Ctx, g *ruleGroup) {
		c.eachOperation(g, func(op operation) bool { return true }, func(op operation, r *Run, o *Outcome) {
			c.ok(g, r.name)
			n := 0
			if r.fn.Signature.Recv() != nil {
				n = 1
			}
			for _, w := range o.st.writes {
				for i, p := range r.par[n:] {
					if ownerOf(w.root) != p || mutates(op, i) {
						continue
					}
					c.bad(g, r.name+" argument", w.pos, "%s writes to memory of the caller's argument %s (%s)", r.name, w.root, w.how)
				}
				if provided(w.root) {
					c.bad(g, r.name+" provider", w.pos, "%s writes to memory it got from a provider (%s)", r.name, w.how)
				}
			}
		})
	}}

// ownerOf is the value through which a piece of memory is reached.
func ownerOf(t *Term) *Term {
	for {
		switch t.k {
		case KField, KDeref, KElem, KFieldAddr, KElemAddr, KSub, KSlice, KIface:
			t = t.args[0]
		default:
			return t
		}
	}
}

// provided says the memory came out of a provider's answer.
func provided(t *Term) bool {
	t = ownerOf(t)
	if t.k != KRes {
		return false
	}
	x := t.args[0]
	return isEv(x, "io.Get") || isEv(x, "id.GetIdentity") || isEv(x, "key.GetKeys")
}

// ---------------------------------------------------------------- the caller's context

// ctxRoot follows a context back to the one it was derived from, keeping cancellation.
func ctxRoot(t *Term) *Term {
	for {
		switch {
		case t.k == KApp && strings.HasSuffix(t.op, "zerolog.Logger.WithContext") && len(t.args) == 2:
			t = t.args[1]
		case t.k == KIface:
			t = t.args[0]
		case t.k == KApp && t.op == "context.WithValue" && len(t.args) > 0:
			t = t.args[0]
		case t.k == KRes && t.n == 0 && t.args[0].k == KApp && strings.HasPrefix(t.args[0].op, "context.With") && !strings.Contains(t.args[0].op, "Without") && len(t.args[0].args) > 0:
			t = t.args[0].args[0]
		default:
			return t
		}
	}
}

var gContext = &ruleGroup{name: "caller-context-reaches-providers", min: 30,
	what: "every call of a storage, identity or key provider is given the context of the operation's caller, possibly with values or a logger added, so that cancellation, deadlines and values reach it",
	f: func(c *Ctx, g *ruleGroup) {
		look := func(r *Run, o *Outcome) {
			var ctx *Term
			for _, p := range r.par {
				if p.typ != nil && p.typ.String() == "context.Context" {
					ctx = p
				}
			}
			if ctx == nil {
				return
			}
			for _, s := range o.sites() {
				switch s.op {
				case "io.Put", "io.Get", "io.Update", "io.Delete", "id.GetIdentity", "key.GetKeys":
					c.must(ctxRoot(s.args[1]) == ctx, g, r.name+" "+s.op, s.pos, "%s calls %s with a context that is not derived from its caller's", r.name, s.op)
				}
			}
		}
		c.eachAPI(g, func(a api, r *Run, o *Outcome) { look(r, o) })
		for _, op := range c.a.operations() {
			if op.name == "New" || op.name == "NewSecureIndex" || strings.HasPrefix(op.name, "Proxy.") {
				c.each(g, op.prof, op.pkg, op.name, op.ctor, func(r *Run, o *Outcome) { look(r, o) })
			}
		}
	}}

// ---------------------------------------------------------------- the caller's logger

// freshLogger says a logger was copied, with its own buffer, during the call.
func freshLogger(t *Term) bool {
	for {
		switch {
		case t.k == KPtrTo || t.k == KIface:
			t = t.args[0]
		case t.k == KApp && strings.HasSuffix(t.op, "zerolog.Context.Logger"):
			x := t.args[0]
			for x.k == KApp && strings.HasPrefix(x.op, "log:zerolog.Context.") && len(x.args) > 0 {
				x = x.args[0]
			}
			return x.k == KApp && strings.HasSuffix(x.op, "zerolog.Logger.With")
		case t.k == KApp && (strings.HasSuffix(t.op, "zerolog.Logger.Level") || strings.HasSuffix(t.op, "zerolog.Logger.Hook") || strings.HasSuffix(t.op, "zerolog.Logger.Sample")) && len(t.args) > 0:
			t = t.args[0]
		default:
			return false
		}
	}
}

// contextLogger is the logger put into a context, if that can be seen.
func contextLogger(t *Term) *Term {
	for t != nil {
		switch {
		case t.k == KApp && strings.HasSuffix(t.op, "zerolog.Logger.WithContext") && len(t.args) == 2:
			return t.args[0]
		case t.k == KIface:
			t = t.args[0]
		case t.k == KApp && t.op == "context.WithValue" && len(t.args) > 0:
			t = t.args[0]
		case t.k == KRes && t.args[0].k == KApp && strings.HasPrefix(t.args[0].op, "context.With") && len(t.args[0].args) > 0:
			t = t.args[0].args[0]
		default:
			return nil
		}
	}
	return nil
}

var gLogger = &ruleGroup{name: "caller-logger-untouched", min: 15,
	what: "an operation adds fields only to a logger that it copied, with a buffer of its own, from the one in the caller's context, and changes no global setting of the logging library; so the caller's logger is as it was and concurrent calls do not write to one buffer",
	f: func(c *Ctx, g *ruleGroup) {
		c.eachAPI(g, func(a api, r *Run, o *Outcome) {
			c.ok(g, r.name)
			for _, e := range o.st.logs {
				switch {
				case strings.HasSuffix(e.op, "zerolog.Logger.UpdateContext"):
					l := e.args[0]
					if l.k == KApp && strings.HasSuffix(l.op, "zerolog.Ctx") && len(l.args) == 1 {
						l = contextLogger(l.args[0])
					}
					c.must(l != nil && freshLogger(l), g, r.name+" adds fields", e.pos, "%s adds log fields to a logger it did not copy", r.name)
				case strings.HasPrefix(e.op, "log:zerolog.SetGlobal") || strings.HasPrefix(e.op, "log:zerolog.Disable"):
					c.bad(g, r.name+" "+e.op, e.pos, "%s changes the logging library's global state", r.name)
				}
			}
		})
	}}

// ---------------------------------------------------------------- secrets and logs

// secretIn finds a secret in the clear in a value that is written to a log.
func (c *Ctx) secretIn(r *Run, o *Outcome, t *Term, secret func(*Term) string) string {
	seen := map[*Term]bool{}
	type carried struct {
		v *LoopVar
		l *LoopRec
	}
	var vars map[string]carried // values carried around loops, by name
	var collect func(es []*Event)
	collect = func(es []*Event) {
		for _, e := range es {
			if e.loop == nil {
				continue
			}
			for _, v := range e.loop.vars {
				vars[v.term.op] = carried{v, e.loop}
			}
			for _, b := range e.loop.backs {
				collect(b.events)
			}
		}
	}
	var rec func(t *Term) string
	rec = func(t *Term) string {
		if t == nil || seen[t] {
			return ""
		}
		seen[t] = true
		if s := secret(t); s != "" {
			return s
		}
		switch t.k {
		case KLoop:
			if vars == nil {
				vars = map[string]carried{}
				collect(o.st.events)
			}
			if x, ok := vars[strings.TrimRight(t.op, "'")]; ok {
				if s := rec(x.v.entry); s != "" {
					return s
				}
				for _, b := range x.l.backs {
					if s := rec(b.next[x.v]); s != "" {
						return s
					}
				}
			}
		case KStruct, KConcat, KLit, KConv, KSub, KIface, KPtrTo, KUpd, KDeref, KMSet, KMSetAll:
			for _, a := range t.args {
				if s := rec(a); s != "" {
					return s
				}
			}
		case KField:
			if t.typ != nil && t.typ.String() == "time.Time" {
				return ""
			}
			// a part of a secret
			for b := t.args[0]; ; {
				if s := secret(b); s != "" {
					return s
				}
				if b.k != KField && b.k != KDeref {
					break
				}
				b = b.args[0]
			}
		case KElem:
			return rec(t.args[0])
		case KSlice:
			return rec(t.args[0])
		case KRes:
			if t.args[0].k == KApp && !strings.HasPrefix(t.args[0].op, "crypto.") {
				return rec(t.args[0])
			}
		case KApp:
			switch {
			case t.op == "decrypted" || t.op == "decryptedInto":
				if t.typ != nil {
					return holdsSecret(t.typ) // the record as a whole; its parts are decided by field
				}
				return ""
			case strings.HasPrefix(t.op, "log:"), strings.HasPrefix(t.op, "crypto."), strings.HasSuffix(t.op, "Err"), t.op == "decrypted", t.op == "len", t.op == "errors.New":
				return ""
			case t.typ != nil && (isBool(t.typ) || intLike(t)):
				return ""
			}
			for _, a := range t.args {
				if s := rec(a); s != "" {
					return s
				}
			}
		}
		return ""
	}
	return rec(t)
}

var gLogs = &ruleGroup{name: "no-secrets-in-logs", min: 20,
	what: "no operation logs a token, password, password hash, key, plaintext, or the contents of a decrypted record other than IDs, groups and scopes",
	f: func(c *Ctx, g *ruleGroup) {
		eachRun := func(r *Run, o *Outcome) {
			params := map[*Term]string{}
			n := 0
			if r.fn.Signature.Recv() != nil {
				n = 1
			}
			for i, p := range r.par[n:] {
				switch {
				case p.typ.String() == "context.Context":
				case isString(p.typ) && strings.Contains(strings.ToLower(paramName(r, n+i)), "token"):
					params[p] = "a token"
				case isString(p.typ) && i == 2 && (r.fn.Name() == "LoginUser" || r.fn.Name() == "ChangeUserPassword"):
					params[p] = "a password"
				case isString(p.typ) && i == 1 && takesToken(r.fn) && r.fn.Name() != "LoginUser" && r.fn.Name() != "ChangeUserPassword":
					params[p] = "a token"
				case isString(p.typ) && r.fn.Pkg != nil && strings.HasSuffix(r.fn.Pkg.Pkg.Path(), "/index") && i >= 2:
					params[p] = "a keyword or identifier"
				case p.typ.String() == "[]byte":
					params[p] = "a plaintext"
				case strings.HasSuffix(p.typ.String(), "id.StandaloneConfig"):
					params[p] = "a key"
				}
			}
			ot, nt := c.a.typ("data", "Object"), c.a.typ("data", "Node")
			secret := func(t *Term) string {
				if s := params[t]; s != "" {
					return s
				}
				if t.typ != nil {
					switch ts := t.typ.String(); {
					case strings.HasSuffix(ts, "d1-lib/v2/key.Keys"), strings.HasSuffix(ts, "id.StandaloneConfig"):
						return "a key"
					case strings.HasSuffix(ts, "data.SealedToken") && (t.k == KParam || t.k == KDeref):
						return "a token"
					}
				}
				switch t.k {
				case KParam, KDeref:
					if t.typ != nil {
						x := t.typ
						if p := pointee(x); p != nil {
							x = p
						}
						if types.Identical(x, ot) {
							return "a plaintext"
						}
					}
				case KField:
					b := t.args[0]
					if b.typ == nil {
						return ""
					}
					st := structOf(b.typ)
					if st == nil || t.n >= st.NumFields() {
						return ""
					}
					switch nm := st.Field(t.n).Name(); {
					case types.Identical(b.typ, ot) && nm == "Plaintext":
						return "a plaintext"
					case nm == "WrappedDEK" || nm == "WrappedKey":
						return "a key"
					case nm == "Identifier" && types.Identical(b.typ, nt):
						return "an index identifier"
					case nm == "SaltAndHash":
						return "a password hash"
					case nm == "indexKey" || nm == "IEK" || nm == "KEK" || nm == "AEK" || nm == "TEK" || nm == "UEK" || nm == "GEK":
						return "a key"
					}
				case KRes:
					e := t.args[0]
					switch {
					case isEv(e, "crypto.GeneratePassword") && t.n == 0:
						return "a password"
					case isEv(e, "crypto.GeneratePassword") && t.n == 1:
						return "a password hash"
					case isEv(e, "key.GetKeys") && t.n == 0:
						return "a key"
					case isEv(e, "crypto.Encrypt") && t.n == 0:
						return "a key"
					case isEv(e, "crypto.Encrypt") && t.n == 1 && keyName(keyOf(e.args[0], "crypto.NewAESCryptor")) == "TEK":
						return "a token"
					}
				case KApp:
					switch {
					case t.op == "crypto.KMACKDF":
						return "a key"
					case t.op == "decrypted" || t.op == "decryptedInto":
						if keyName(keyOf(t.args[0], "crypto.NewAESCryptor")) != "TEK" || r.fn.Name() == "GetTokenContents" {
							if t.typ != nil && t.typ.String() == "[]byte" {
								return "a plaintext"
							}
						}
					}
				}
				return ""
			}
			c.ok(g, r.name)
			for _, e := range o.st.logs {
				for _, x := range e.args {
					if s := c.secretIn(r, o, x, secret); s != "" {
						c.bad(g, r.name+" logs "+s, e.pos, "%s writes %s to the log", r.name, s)
					}
				}
			}
		}
		c.eachAPI(g, func(a api, r *Run, o *Outcome) { eachRun(r, o) })
		for _, op := range c.a.operations() {
			if op.ctor == "" && strings.HasPrefix(op.name, "New") && (op.pkg == "" || op.pkg == "id" || op.pkg == "index") {
				c.each(g, op.prof, op.pkg, op.name, "", func(r *Run, o *Outcome) { eachRun(r, o) })
			}
		}
	}}

// holdsSecret names what a record of a type may not be logged whole for.
func holdsSecret(t types.Type) string {
	st := structOf(t)
	if st == nil {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "SaltAndHash":
			return "a password hash"
		case "Plaintext", "WrappedDEK", "WrappedKey":
			return "a plaintext or key"
		case "Identifier":
			if strings.HasSuffix(t.String(), "data.Node") {
				return "an index identifier"
			}
		}
	}
	return ""
}

func paramName(r *Run, i int) string {
	if i < len(r.fn.Params) {
		return r.fn.Params[i].Name()
	}
	return ""
}

// loadedAs says that a type assertion is on what was found in a concurrent map of the library's own, and that
// the package never stores values of another type in such a map.
func (a *Analysis) loadedAs(k *BoundCheck) bool {
	v := k.asserted
	if v == nil || v.k != KRes || v.n != 0 || len(v.args) != 1 || v.args[0].k != KEv || !strings.HasPrefix(v.args[0].op, "sync.Map.Load") {
		return false
	}
	found := false
	for _, f := range k.facts {
		if f.val && f.atom.k == KRes && f.atom.n == 1 && f.atom.args[0] == v.args[0] {
			found = true
		}
	}
	if !found {
		return false
	}
	for _, fn := range a.p.funcs {
		if fn.Pkg != k.fn.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := call.Common().StaticCallee()
				if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != "sync" {
					continue
				}
				var stored []ssa.Value
				args := call.Common().Args
				switch callee.Name() {
				case "Store", "LoadOrStore", "Swap":
					if len(args) == 3 {
						stored = args[2:]
					}
				case "CompareAndSwap":
					stored = args[3:]
				}
				for _, v := range stored {
					m, ok := v.(*ssa.MakeInterface)
					if !ok || !types.Identical(m.X.Type(), k.typ) {
						return false
					}
				}
			}
		}
	}
	return true
}

// precondition says that a path that panics on purpose is taken only when the caller's key or size is too short.
func precondition(op operation, o *Outcome) bool {
	if op.pkg != "crypto" {
		return false
	}
	for _, f := range o.st.facts {
		if !f.val || f.atom.k != KUn || f.atom.op != "<0" {
			continue
		}
		l := linOf(f.atom.args[0])
		if len(l.coefs) != 1 {
			continue
		}
		for a, c := range l.coefs {
			if c != 1 {
				continue
			}
			if a.k == KLen && l.c >= -32 {
				a = a.args[0]
			} else if l.c < -16 {
				continue
			}
			if rootIsInput(a) {
				return true
			}
		}
	}
	return false
}

func rootIsInput(t *Term) bool {
	for {
		switch t.k {
		case KParam:
			return true
		case KField, KDeref, KSlice, KSub:
			t = t.args[0]
			continue
		}
		return false
	}
}

var gNoPanic = &ruleGroup{name: "no-crash-on-any-input", min: 100,
	what: "no exported operation can crash whatever bytes it is given (ciphertexts, tokens, packets, wrapped keys, stored records): on every path every index and slice lies within bounds, every fixed-size integer is read from or written to enough bytes, nonces and cipher blocks have the length the cipher demands, no type assertion can fail, nothing nil is written to or read through, no division is by zero, no slice is made of negative length, and no path panics except for a caller's key or tag size below the documented minimum",
	f: func(c *Ctx, g *ruleGroup) {
		for _, op := range c.a.operations() {
			for _, r := range c.use(g, c.a.run(op.prof, op.pkg, op.name, op.ctor)) {
				c.ok(g, r.name)
				for i := range r.in.checks {
					k := &r.in.checks[i]
					bad := k.never && !c.a.loadedAs(k) || k.unmet() != nil
					c.must(!bad, g, r.name+" "+c.a.p.fnName(k.fn), k.pos, "%s may crash: %s", r.name, k.msg)
				}
				for _, o := range r.outcomes() {
					if o.panic && !precondition(op, o) {
						c.bad(g, r.name+" panics", o.pos, "%s can panic", r.name)
					}
				}
			}
		}
	}}

// ---------------------------------------------------------------- nothing is refused without a cause

// excluded says that a length is certainly not n.
func excluded(facts []Fact, l *Term, n int64) bool {
	if holds(facts, mkEq(l, mkInt(n)), false) {
		return true
	}
	b := &bounds{seen: map[*Term]bool{}}
	for _, f := range facts {
		b.fact(f)
	}
	return b.proves(linAdd(mkInt(n-1), l, -1)) || b.proves(tSub(l, mkInt(n+1)))
}

// ownStep says that a fallible step is one that the library's documentation lets an operation depend on.
func ownStep(f Fallible) bool {
	for _, p := range []string{"io.", "id.", "key.", "crypto.", "aead.", "aes.", "cipher.", "json.", "base64.", "rand.", "bolt.", "uuid.NewV4", "uuid.Must",
		"gcm.", "dyncall", "decryptErr", "invoke:", "bbolt.", "gob.", "bytes.", "strings.", "fmt.", "sha3.", "hex.", "binary.", "sync."} {
		if strings.HasPrefix(f.op, p) {
			return true
		}
	}
	return false
}

var gNoRefusal = &ruleGroup{name: "refusals-have-a-cause", min: 60,
	what: "an exported operation returns an error only on paths on which a step it depends on (providers, database, random numbers, encryption, key wrapping, encoding, decoding) failed, the caller's context had ended, or the documented reason for a refusal holds: a key of the wrong length, a ciphertext too short to hold a nonce and tag, an expired token, a wrong password, a missing or existing record; refusals for lack of rights and those of key wrapping are decided by the rules on them",
	f: func(c *Ctx, g *ruleGroup) {
		nf, ae := c.a.sent("io", "ErrNotFound"), c.a.sent("io", "ErrAlreadyExists")
		c.eachFallible(g, func(op operation, r *Run, o *Outcome) {
			if o.err == nil || o.ok || o.panic {
				return
			}
			facts := o.st.facts
			key := r.name
			for _, f := range o.st.fails {
				if holds(facts, mkEq(f.err, tNil), false) && (!incidental(f) && ownStep(f) || strings.HasSuffix(f.op, "context.Err")) {
					c.ok(g, key+" "+f.op)
					return
				}
			}
			param := func(i int) *Term {
				if op.fn.Signature.Recv() != nil {
					i++
				}
				if i < len(r.par) {
					return mkLen(r.par[i])
				}
				return nil
			}
			says := func(pkg, name string) bool {
				s := c.a.sent(pkg, name)
				for _, e := range wrappedErrs(o.err) {
					if e == s {
						return true
					}
				}
				return false
			}
			good := false
			switch op.pkg {
			case "crypto":
				switch op.name {
				case "AES256GCM.Encrypt":
					good = excluded(facts, param(2), 32)
				case "AES256GCM.Decrypt":
					b := &bounds{seen: map[*Term]bool{}}
					for _, f := range facts {
						b.fact(f)
					}
					good = excluded(facts, param(2), 32) || b.proves(linAdd(mkInt(27), param(0), -1))
				case "NewAESCryptor", "NewKMAC256Tagger":
					good = excluded(facts, param(0), 32)
				case "NewKWP":
					good = excluded(facts, param(0), 16) && excluded(facts, param(0), 32)
				case "KWP.Wrap", "KWP.Unwrap", "MockRandom.GetBytes":
					return
				}
			case "io":
				for _, e := range wrappedErrs(o.err) {
					if e == nf || e == ae {
						return // decided with the storages
					}
				}
			case "index":
				if strings.HasPrefix(op.name, "SecureIndex.") && says("index", "ErrNotAuthorized") {
					return
				}
				if op.name == "NewSecureIndex" {
					for _, e := range o.st.events {
						if isEv(e.term, "key.GetKeys") && excluded(facts, mkLen(c.keyField(res(0, nil, e.term), "IEK")), 32) {
							good = true
						}
					}
				}
			case "":
				if strings.HasPrefix(op.name, "D1.") && says("", "ErrNotAuthorized") {
					return
				}
			case "id":
				if strings.HasPrefix(op.name, "Standalone.") && says("id", "ErrNotAuthorized") {
					return
				}
			}
			for _, f := range facts {
				a := f.atom
				switch {
				case f.val && a.k == KApp && a.op == "time.Time.Before" && len(a.args) == 2 && nowIn(a.args[1]) && (a.args[0].k == KField || a.args[0].k == KDeref):
					good = true
				case !f.val && a.k == KApp && a.op == "crypto.Compare" || !f.val && a.k == KRes && isEv(a.args[0], "crypto.Compare"):
					good = true
				}
			}
			c.must(good, g, key+" refusal", o.pos, "%s can return an error although every step succeeded and no documented reason for refusing holds", r.name)
		})
	}}

// eachFallible visits the outcomes of every exported operation that can fail; the cryptor over its parts.
func (c *Ctx) eachFallible(g *ruleGroup, f func(op operation, r *Run, o *Outcome)) {
	for _, op := range c.a.operations() {
		op := op
		if !canFail(op) {
			continue
		}
		if op.pkg == "crypto" && strings.HasPrefix(op.name, "Cryptor.") {
			op.prof = profParts
		}
		c.each(g, op.prof, op.pkg, op.name, op.ctor, func(r *Run, o *Outcome) { f(op, r, o) })
	}
}

func nowIn(t *Term) bool {
	return anyTerm(t, func(x *Term) bool { return x.k == KEv && x.op == "time.Now" })
}

func (c *Ctx) keyField(keys *Term, name string) *Term {
	kt := c.a.typ("key", "Keys")
	st := structOf(kt)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkField(keys, i, st.Field(i).Type())
		}
	}
	return tNil
}

// ---------------------------------------------------------------- every call ends

// progresses says that going around a loop this way brings its end nearer: a map or sequence has one element less to go,
// a counter with a limit has moved on, or what the next round works on is made from what this one worked on.
func progresses(b *Back) bool {
	for _, f := range b.facts {
		if f.val && f.atom.k == KRangeOk {
			return true
		}
	}
	var moved []*Term
	for v, n := range b.next {
		if n == nil || v.term == nil || n == v.term {
			continue
		}
		if !contains(n, v.term) {
			continue
		}
		if v.typ != nil && isIntType(v.typ) && v.plain() {
			if _, ok := diffConst(n, v.term); ok {
				limited := false
				for _, f := range b.facts {
					limited = limited || contains(f.atom, v.term)
				}
				if !limited {
					continue
				}
			}
			return true
		}
		if _, isSlice := n.typ.(*types.Slice); n.k == KConcat || isSlice && geq(mkLen(n), mkLen(v.term)) {
			continue // it only collects
		}
		return true
	}
	// something was stored or removed
	for _, e := range b.events {
		if isIoOp(e) && e.op != "io.Get" {
			if holds(b.facts, mkEq(res(0, errType(), e.term), tNil), true) {
				return true
			}
		}
	}
	// the next round continues from what this one found
	for v, n := range b.next {
		if n == nil || n == v.term {
			continue
		}
		for _, e := range b.events {
			for _, a := range e.args {
				if contains(a, v.term) {
					moved = append(moved, v.term)
				}
			}
		}
	}
	return len(moved) > 0
}

// inVain is a step that failed in this round of a loop, or an attempt that may always fail.
func inVain(b *Back) (string, bool) {
	for _, f := range b.facts {
		a := f.atom
		switch {
		case !f.val && a.k == KBin && a.op == "==" && (a.args[1] == tNil && isErrTerm(a.args[0]) || a.args[0] == tNil && isErrTerm(a.args[1])):
			return "a step that failed", true
		case f.val && a.k == KApp && (a.op == "errors.Is" || a.op == "errors.As"):
			return "a step that failed", true
		}
	}
	work := false
	for _, e := range b.events {
		if e.op == "sync.TryLock" || strings.HasSuffix(e.op, "CompareAndSwap") {
			return "an attempt to take a lock", true
		}
		work = work || e.op != "time.Now"
	}
	if !work {
		return "a check of something that it does not change", true
	}
	return "", false
}

func isErrTerm(t *Term) bool {
	return t.typ != nil && isErrorType(t.typ)
}

func walkLoops(evs []*Event, f func(*LoopRec)) {
	for _, e := range evs {
		if e.loop != nil {
			f(e.loop)
			for _, b := range e.loop.backs {
				walkLoops(b.events, f)
			}
		}
	}
}

var gEnds = &ruleGroup{name: "calls-end", min: 60,
	what: "no loop goes around again after a failed step, a failed attempt to take a lock, or nothing at all, unless a counter with a limit or the thing worked on has moved on; no storage operation begins a transaction inside another or takes a lock it holds; the database is opened with a limited wait",
	f: func(c *Ctx, g *ruleGroup) {
		seen := map[*LoopRec]bool{}
		c.eachOperation(g, func(op operation) bool { return true }, func(op operation, r *Run, o *Outcome) {
			c.ok(g, r.name)
			walkLoops(o.st.events, func(l *LoopRec) {
				if seen[l] {
					return
				}
				seen[l] = true
				for _, b := range l.backs {
					what, vain := inVain(b)
					c.must(!vain || progresses(b), g, r.name+" loop", l.pos, "%s repeats %s without limit", r.name, what)
				}
			})
			if op.pkg != "io" {
				return
			}
			open, held := map[*Term]bool{}, map[string]int{}
			for _, s := range o.top() {
				switch s.op {
				case "bolt.Begin":
					kind, _ := s.args[1].strVal()
					for x := range open {
						c.must(!open[x] || kind == "View", g, r.name+" nested transaction", s.pos, "%s begins a transaction while another is open, which can wait for itself", r.name)
					}
					open[s.term] = !holds(o.st.facts, mkEq(res(1, errType(), s.term), tNil), false)
				case "bolt.Commit", "bolt.Rollback", "bolt.EndView":
					if len(s.args) > 0 {
						open[s.args[0]] = false
					}
				case "sync.Lock", "sync.RLock":
					l := byPlace(s.raw[0]).String()
					c.must(held[l] == 0, g, r.name+" lock", s.pos, "%s takes a lock it already holds", r.name)
					held[l]++
				case "sync.Unlock", "sync.RUnlock":
					held[byPlace(s.raw[0]).String()] = 0
				}
			}
			for _, n := range held {
				c.must(n == 0, g, r.name+" releases", o.pos, "%s ends with a lock still held: the next call waits for ever", r.name)
			}
			for _, n := range open {
				c.must(!n, g, r.name+" ends its transaction", o.pos, "%s ends with a transaction still open: the next call waits for ever", r.name)
			}
		})
		c.each(g, profNone, "io", "NewBolt", "", func(r *Run, o *Outcome) {
			for _, s := range o.sites() {
				if s.op != "bolt.Open" {
					continue
				}
				n, ok := boltOption(s, "Timeout").intVal()
				c.must(ok && n > 0, g, "NewBolt waits", s.pos, "NewBolt waits without limit for a database that another process has open")
			}
		})
	}}

// boltOption is an option the database is opened with.
func boltOption(s Site, name string) *Term {
	opt := deref(s.args[2])
	if opt.k == KStruct {
		st := structOf(opt.typ)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return opt.args[i]
			}
		}
	}
	return tNil
}

var gPrivateFile = &ruleGroup{name: "database-file-is-private", min: 1,
	what: "the database file is created without any right for other accounts than its owner's, and its mode is not changed later",
	f: func(c *Ctx, g *ruleGroup) {
		look := func(r *Run, o *Outcome) {
			for _, s := range o.sites() {
				switch {
				case s.op == "bolt.Open":
					m, ok := s.args[1].intVal()
					c.must(ok && m&077 == 0, g, "NewBolt mode", s.pos, "NewBolt creates the database file with rights for other accounts than its owner's")
					c.must(boltOption(s, "OpenFile") == tNil, g, "NewBolt opens", s.pos, "NewBolt opens the file with a function the rules do not describe")
				case strings.HasPrefix(s.op, "ext:os.") || strings.HasPrefix(s.op, "ext:syscall."):
					switch {
					case strings.Contains(s.op, "hmod") || strings.HasSuffix(s.op, "OpenFile") || strings.HasSuffix(s.op, "WriteFile") || strings.HasSuffix(s.op, "syscall.Open"):
						n, ok := s.args[len(s.args)-1].intVal()
						c.must(ok && n&077 == 0, g, r.name+" mode", s.pos, "%s gives other accounts rights to a file", r.name)
					case strings.HasSuffix(s.op, "os.Create"):
						c.bad(g, r.name+" mode", s.pos, "%s creates a file for every account", r.name)
					}
				}
			}
		}
		c.each(g, profNone, "io", "NewBolt", "", look)
		for _, m := range []string{"Put", "Get", "Update", "Delete"} {
			c.each(g, profNone, "io", "Bolt."+m, "NewBolt", look)
		}
	}}
