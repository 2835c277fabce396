package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kvAccess is one access of a storage implementation to what it stores.
type kvAccess struct {
	Site
	kind   string // "read", "write", "delete" or "create" (stores unless present, in one step)
	key    *Term
	val    *Term // what is stored, or what a read yields
	raw    *Term // the stored value itself
	exists *Term // an atom that is true when the record was present, with the value `when`
	when   bool
	where  *Term // the bucket or map
}

type store struct{ typ, ctor string }

var stores = []store{{"Mem", "NewMem"}, {"Bolt", "NewBolt"}}

// accesses lists a path's accesses to the stored records; others are operations on them that are not understood.
func (c *Ctx) accesses(o *Outcome) (out []kvAccess, others []Site) {
	bt := types.Typ[types.Bool]
	for _, s := range o.sites() {
		e := s.Event
		switch e.op {
		case "sync.Map.Load":
			out = append(out, kvAccess{Site: s, kind: "read", key: e.args[0], val: res(0, nil, e.term), exists: res(1, bt, e.term), when: true, where: e.raw[0]})
		case "sync.Map.Store", "sync.Map.Swap":
			out = append(out, kvAccess{Site: s, kind: "write", key: e.args[0], val: e.args[1], raw: e.raw[2], where: e.raw[0]})
		case "sync.Map.LoadOrStore":
			out = append(out, kvAccess{Site: s, kind: "create", key: e.args[0], val: e.args[1], raw: e.raw[2], exists: res(1, bt, e.term), when: true, where: e.raw[0]})
		case "sync.Map.Delete", "sync.Map.LoadAndDelete":
			out = append(out, kvAccess{Site: s, kind: "delete", key: e.args[0], where: e.raw[0]})
		case "map.Get":
			out = append(out, kvAccess{Site: s, kind: "read", key: e.args[1], val: res(0, nil, e.term), exists: res(1, bt, e.term), when: true, where: e.raw[0]})
		case "map.Set":
			out = append(out, kvAccess{Site: s, kind: "write", key: e.args[1], val: e.args[2], raw: e.raw[2], where: e.raw[0]})
		case "map.Delete":
			out = append(out, kvAccess{Site: s, kind: "delete", key: e.args[1], where: e.raw[0]})
		case "bolt.Get":
			out = append(out, kvAccess{Site: s, kind: "read", key: e.args[1], val: res(0, nil, e.term), exists: mkEq(res(0, types.NewSlice(types.Typ[types.Byte]), e.term), tNil), when: false, where: e.args[0]})
		case "bolt.Put":
			out = append(out, kvAccess{Site: s, kind: "write", key: e.args[1], val: e.args[2], raw: e.raw[2], where: e.args[0]})
		case "bolt.Delete":
			out = append(out, kvAccess{Site: s, kind: "delete", key: e.args[1], where: e.args[0]})
		case "bolt.Begin", "bolt.Commit", "bolt.Rollback", "bolt.EndView":
		default:
			if strings.HasPrefix(e.op, "sync.Map.") || strings.HasPrefix(e.op, "bolt.") || strings.HasPrefix(e.op, "ext:") || strings.HasPrefix(e.op, "invoke:") || e.op == "dyncall" {
				others = append(others, s)
			}
		}
	}
	return out, others
}

// present is 1 when the facts show the record was there, 0 when they show it was not.
func (k kvAccess) present(facts []Fact) int {
	if k.exists == nil {
		return -1
	}
	if holds(facts, k.exists, k.when) {
		return 1
	}
	if holds(facts, k.exists, !k.when) {
		return 0
	}
	return -1
}

// storageErr says an error comes from the database itself, for one of the path's operations.
func storageErr(o *Outcome) bool {
	x := o.err
	for x != nil && x.k == KApp && x.op == "fmt.Errorf" && len(x.args) > 1 && x.args[1].k == KLit && len(x.args[1].args) == 1 {
		x = deref(x.args[1].args[0])
	}
	return x != nil && x.k == KRes && x.args[0].k == KEv && strings.HasPrefix(x.args[0].op, "bolt.")
}

// bytesOf is the value behind an interface, and the type it is stored as.
func bytesOf(t *Term) (*Term, types.Type) {
	if t != nil && t.k == KIface {
		return t.args[0], t.typ
	}
	return t, nil
}

// readValue says v is what the access read, whatever type it is stored as.
func (k kvAccess) readValue(v *Term, storedAs types.Type) bool {
	v = deref(v)
	for v.k == KApp && strings.HasPrefix(v.op, "as:") && len(v.args) == 1 {
		if storedAs != nil && v.op != "as:"+shortType(storedAs) {
			return false
		}
		v = v.args[0]
	}
	return v == k.val || v.k == KRes && v.args[0] == k.Event.term && v.n == 0
}

var gStoreContract = &ruleGroup{name: "storage-contract", min: 26,
	what: "in every provided storage, Put stores exactly the given data and only when no record was there, answering ErrAlreadyExists exactly when one was; Update does so only when one was there, answering ErrNotFound exactly when not; Get returns exactly what is stored and ErrNotFound exactly when nothing is; Delete removes the record and is no error when there is none; success is only reported when the operation took effect",
	f: func(c *Ctx, g *ruleGroup) {
		notFound, exists := c.a.sent("io", "ErrNotFound"), c.a.sent("io", "ErrAlreadyExists")
		for _, st := range stores {
			st := st
			var storedAs types.Type
			for _, m := range []string{"Put", "Update", "Delete", "Get"} {
				m := m
				n := st.typ + "." + m
				c.each(g, profNone, "io", n, st.ctor, func(r *Run, o *Outcome) {
					if o.panic {
						c.bad(g, n+" panics", o.pos, "%s can panic", n)
						return
					}
					acc, others := c.accesses(o)
					for _, s := range others {
						c.bad(g, n+" "+s.op, s.pos, "%s uses %s, which the rules do not describe", n, s.op)
					}
					var reads, changes []kvAccess
					for _, k := range acc {
						if len(k.loops) > 0 {
							c.bad(g, n+" loop", k.pos, "%s accesses the stored data in a loop", n)
						}
						if k.kind == "read" || k.kind == "create" {
							reads = append(reads, k)
						}
						if k.kind != "read" {
							changes = append(changes, k)
						}
					}
					there := -1
					for _, k := range reads {
						if p := k.present(o.st.facts); p >= 0 {
							there = p
						}
					}
					commit := true
					for _, s := range o.top() {
						if s.op == "bolt.Rollback" {
							commit = false
						}
						if s.op == "bolt.Commit" && !holds(o.st.facts, mkEq(res(0, errType(), s.term), tNil), true) {
							commit = false
						}
					}
					stored := func(want *Term, kinds ...string) {
						done := 0
						for _, k := range changes {
							good := false
							for _, w := range kinds {
								good = good || k.kind == w
							}
							if !c.must(good, g, n+" stores", k.pos, "%s changes the stored data by %s", n, k.op) {
								continue
							}
							if k.kind == "create" && k.present(o.st.facts) != 0 {
								continue
							}
							v, t := bytesOf(k.val)
							if storedAs == nil {
								storedAs = t
							}
							c.must(v == want && (t == nil || types.Identical(t, storedAs)), g, n+" stores the given data", k.pos, "%s stores something other than the data it was given", n)
							e := errOf(k.Event)
							c.must(e == nil || holds(o.st.facts, mkEq(e, tNil), true), g, n+" success", k.pos, "%s reports success although storing failed", n)
							done++
						}
						c.must(done == 1 && commit, g, n+" success", o.pos, "%s reports success without having stored the data", n)
					}
					switch m {
					case "Put":
						switch {
						case o.ok:
							c.must(there == 0, g, n+" only new records", o.pos, "%s succeeds without having seen that there is no record", n)
							stored(o.run.param(3), "write", "create")
						case o.err == exists:
							c.must(there == 1, g, n+" refusal", o.pos, "%s answers ErrAlreadyExists although no record was found", n)
							for _, k := range changes {
								c.must(k.kind == "create", g, n+" refusal changes nothing", k.pos, "%s answers ErrAlreadyExists after a change", n)
							}
						default:
							c.must(storageErr(o) && there == 0, g, n+" failure", o.pos, "%s fails with an error that is neither ErrAlreadyExists nor the storage's own, or not ErrAlreadyExists when a record is there", n)
						}
					case "Update":
						switch {
						case o.ok:
							c.must(there == 1, g, n+" only existing records", o.pos, "%s succeeds without having seen that there is a record", n)
							stored(o.run.param(3), "write")
						case o.err == notFound:
							c.must(there == 0, g, n+" refusal", o.pos, "%s answers ErrNotFound although a record was found", n)
							c.must(len(changes) == 0, g, n+" refusal changes nothing", o.pos, "%s answers ErrNotFound after a change", n)
						default:
							c.must(storageErr(o) && there == 1, g, n+" failure", o.pos, "%s fails with an error that is neither ErrNotFound nor the storage's own, or not ErrNotFound when no record is there", n)
						}
					case "Delete":
						if o.ok {
							done := there == 0 && len(changes) == 0
							for _, k := range changes {
								if c.must(k.kind == "delete", g, n+" deletes", k.pos, "%s changes the stored data by %s", n, k.op) {
									e := errOf(k.Event)
									done = commit && (e == nil || holds(o.st.facts, mkEq(e, tNil), true))
								}
							}
							c.must(done, g, n+" success", o.pos, "%s reports success without having removed the record", n)
						} else {
							c.must(storageErr(o), g, n+" failure", o.pos, "%s fails although the storage did not", n)
						}
					case "Get":
						c.must(len(changes) == 0, g, n+" reads only", o.pos, "%s changes the stored data", n)
						switch {
						case o.ok:
							good := false
							for _, k := range reads {
								good = good || k.present(o.st.facts) == 1 && k.readValue(o.res[0], storedAs)
							}
							c.must(good, g, n+" result", o.pos, "%s returns something other than what is stored", n)
						case o.err == notFound:
							c.must(there == 0, g, n+" refusal", o.pos, "%s answers ErrNotFound although the record was found", n)
						default:
							c.must(storageErr(o), g, n+" failure", o.pos, "%s fails with an error that is neither ErrNotFound nor the storage's own", n)
						}
					}
				})
			}
		}
	}}

var gProxy = &ruleGroup{name: "proxy-forwards", min: 8,
	what: "each method of the forwarding storage makes exactly one call, to the replaceable function of its own name, with its own arguments, and returns exactly what that returns; as constructed, that function is the method of that name of the given implementation",
	f: func(c *Ctx, g *ruleGroup) {
		for _, m := range []string{"Put", "Get", "Update", "Delete"} {
			m := m
			n := "Proxy." + m
			check := func(r *Run, o *Outcome, want string, first func(*Term) bool) {
				var calls []*Event
				for _, s := range o.sites() {
					if s.op == want || s.op == "dyncall" || isIoOp(s.Event) {
						calls = append(calls, s.Event)
					}
				}
				ok := len(calls) == 1 && calls[0].op == want && len(calls[0].args) == len(r.par) && first(calls[0].args[0])
				if ok {
					for i := 1; i < len(r.par); i++ {
						ok = ok && calls[0].args[i] == r.par[i]
					}
					for i, x := range o.raw {
						ok = ok && (x.k == KRes && x.n == i && x.args[0] == calls[0].term || i == len(o.raw)-1 && x.k == KNil && o.ok)
					}
				}
				c.must(ok && !o.panic, g, n+" "+want, o.pos, "%s does not forward its call unchanged", n)
			}
			c.each(g, profNone, "io", n, "NewProxy", func(r *Run, o *Outcome) {
				impl := r.recv.args[fieldIdx(c.a.typ("io", "Proxy"), "Implementation")]
				check(r, o, "io."+m, func(x *Term) bool { return x == impl })
			})
			c.each(g, profNone, "io", n, "", func(r *Run, o *Outcome) {
				f := field(mk(KDeref, "", 0, c.a.typ("io", "Proxy"), nil, nil, r.par[0]), c.a.typ("io", "Proxy"), m+"Func")
				check(r, o, "dyncall", func(x *Term) bool { return x == f || x.String() == f.String() })
			})
		}
	}}

// ---------------------------------------------------------------- keys

// piece is a part of a storage key.
type piece struct {
	lit   string
	v     string // "id" or "type" when it is the encoding of one of them
	chars string // the characters the encoding can consist of, "" for all
	fixed bool   // the encoding always has the same length
	via   bool   // the encoding is made by the String method of the data type
}

const hexChars, decChars = "0123456789abcdef", "-0123456789"

// keyPieces splits a storage key into encodings of the ID and the data type; what = "" when it is understood.
func keyPieces(t, id, dt *Term) (out []piece, what string) {
	t = deref(t)
	switch {
	case t == id:
		return []piece{{v: "id"}}, ""
	case t == dt:
		return []piece{{v: "type", fixed: true}}, ""
	case t.k == KConv && t.args[0] == dt:
		return nil, "the data type is shortened"
	case t.k == KLit && !constBytes(t):
		// single bytes: all of the data type's must be there
		got := map[int64]bool{}
		for _, a := range t.args {
			if _, ok := a.intVal(); ok {
				continue
			}
			if a.k != KConv || intSize(a.typ) != 8 {
				return nil, "a part of the key is not understood: " + a.String()
			}
			x, sh := a.args[0], int64(0)
			if x.k == KBin && x.op == ">>" {
				v, ok := x.args[1].intVal()
				if !ok {
					return nil, "a part of the key is not understood: " + a.String()
				}
				x, sh = x.args[0], v
			}
			if x.k == KConv && unsignedType(x.typ) && intSize(x.typ) >= 16 {
				x = x.args[0]
			}
			if x != dt {
				return nil, "a part of the key is not understood: " + a.String()
			}
			got[sh] = true
		}
		for sh := int64(0); sh < int64(intSize(dt.typ)); sh += 8 {
			if !got[sh] {
				return nil, "the data type is shortened"
			}
		}
		return []piece{{v: "type", fixed: true}}, ""
	case t.k == KZeros || t.k == KLit:
		if n, ok := mkLen(t).intVal(); ok && constBytes(t) {
			return []piece{{lit: strings.Repeat("\x00", int(n))}}, ""
		}
	case t.k == KConst:
		if s, ok := t.strVal(); ok {
			return []piece{{lit: s}}, ""
		}
	case t.k == KConcat:
		for _, a := range t.args {
			p, w := keyPieces(a, id, dt)
			if w != "" {
				return nil, w
			}
			out = append(out, p...)
		}
		return out, ""
	case t.k == KStruct:
		// fields are compared one by one
		for _, a := range t.args {
			p, w := keyPieces(a, id, dt)
			if w != "" {
				return nil, w
			}
			for i := range p {
				p[i].fixed = true
			}
			out = append(out, p...)
		}
		return out, ""
	case t.k == KApp:
		switch t.op {
		case "le16", "be16", "le32", "be32", "le64", "be64":
			if t.args[0] == dt {
				return []piece{{v: "type", fixed: true}}, ""
			}
		case "hex.EncodeToString":
			if deref(t.args[0]) == id {
				return []piece{{v: "id", chars: hexChars}}, ""
			}
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
			if deref(t.args[0]) == dt {
				if len(t.args) > 1 {
					if b, ok := t.args[1].intVal(); !ok || b != 10 && b != 16 {
						break
					}
				}
				return []piece{{v: "type", chars: decChars + "abcdef"}}, ""
			}
		case "base64.Encoding.EncodeToString":
			if deref(t.args[len(t.args)-1]) == id {
				return []piece{{v: "id", chars: "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/-_="}}, ""
			}
		case "fmt.Sprintf", "fmt.Sprint":
			if t.op == "fmt.Sprint" {
				break
			}
			f, ok := t.args[0].strVal()
			if !ok || len(t.args) < 2 || t.args[1].k != KLit {
				break
			}
			return formatPieces(f, t.args[1].args, id, dt)
		}
	}
	return nil, "a part of the key is not understood: " + t.String()
}

func constBytes(t *Term) bool {
	if t.k == KZeros {
		return true
	}
	for _, a := range t.args {
		if _, ok := a.intVal(); !ok {
			return false
		}
	}
	return true
}

func formatPieces(f string, args []*Term, id, dt *Term) (out []piece, what string) {
	lit := ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil, "incomplete format"
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if lit != "" {
			out = append(out, piece{lit: lit})
			lit = ""
		}
		if n >= len(args) {
			return nil, "missing argument"
		}
		a := deref(args[n])
		n++
		switch verb := f[i]; {
		case a == id && (verb == 'x' || verb == 'X'):
			out = append(out, piece{v: "id", chars: hexChars + "ABCDEF"})
		case a == id && verb == 's':
			out = append(out, piece{v: "id"})
		case a == dt && (verb == 'd' || verb == 'x'):
			out = append(out, piece{v: "type", chars: decChars + "abcdef"})
		case a == dt && (verb == 'v' || verb == 's'):
			out = append(out, piece{v: "type", chars: decChars + "abcdef", via: true})
		case verb == 's' || verb == 'v':
			p, w := keyPieces(a, id, dt)
			if w != "" {
				return nil, w
			}
			out = append(out, p...)
		default:
			return nil, "the format %" + string(verb) + " of " + a.String()
		}
	}
	if lit != "" {
		out = append(out, piece{lit: lit})
	}
	return out, ""
}

// decodable says the ID and the data type can both be read off the key.
func decodable(ps []piece) string {
	have := map[string]bool{}
	var open []int
	for i, p := range ps {
		if p.v == "" {
			continue
		}
		have[p.v] = true
		if !p.fixed {
			open = append(open, i)
		}
	}
	if !have["id"] {
		return "the key does not contain the ID"
	}
	if !have["type"] {
		return "the key does not contain the data type"
	}
	ends := func(i, j int) bool { // the part i ends where the literal next to it begins
		if j < 0 || j >= len(ps) || ps[j].lit == "" || ps[i].chars == "" {
			return false
		}
		ch := ps[j].lit[0]
		if j < i {
			ch = ps[j].lit[len(ps[j].lit)-1]
		}
		return !strings.ContainsRune(ps[i].chars, rune(ch))
	}
	for len(open) > 1 {
		switch {
		case ends(open[0], open[0]+1):
			open = open[1:]
		case ends(open[len(open)-1], open[len(open)-1]-1):
			open = open[:len(open)-1]
		default:
			return "different IDs and data types can give the same key"
		}
	}
	return ""
}

var gStoreKeys = &ruleGroup{name: "storage-keys-distinct", min: 13,
	what: "in every provided storage the key of a record is the same function of ID and data type in all operations, both can be read off it, and it is looked up in the same place; the data types of the library are pairwise different",
	f: func(c *Ctx, g *ruleGroup) {
		for _, st := range stores {
			st := st
			form := map[string]bool{}
			place := map[string]bool{}
			for _, m := range []string{"Put", "Get", "Update", "Delete"} {
				m := m
				n := st.typ + "." + m
				c.each(g, profNone, "io", n, st.ctor, func(r *Run, o *Outcome) {
					acc, _ := c.accesses(o)
					for _, k := range acc {
						ps, w := keyPieces(k.key, r.param(1), r.param(2))
						if w == "" {
							w = decodable(ps)
						}
						c.must(w == "", g, n+" key", k.pos, "%s does not tell all records apart: %s", n, w)
						for _, x := range ps {
							if x.via {
								c.each(g, profNone, "io", "DataType.String", "", func(r *Run, o *Outcome) {
									out, w := keyPieces(o.res[0], mkStr("no ID"), r.par[0])
									c.must(w == "" && len(out) == 1 && out[0].v == "type" && !out[0].via, g, "DataType.String", o.pos, "the text of a data type does not tell data types apart")
								})
							}
						}
						form[byPlace(k.key).str(20)] = true
						p := k.where
						if strings.HasPrefix(k.op, "map.") {
							place[byPlace(p).str(20)] = true
						} else if p.k == KApp || p.k == KPtrTo {
							place[bucketName(p)] = true
						} else {
							place[addrName(o.st, p)] = true
						}
					}
				})
			}
			pos := c.a.fn("io", st.ctor).Pos()
			c.must(len(form) == 1, g, st.typ+" same key", pos, "the operations of %s use %d different forms of key for the same record", st.typ, len(form))
			c.must(len(place) == 1, g, st.typ+" same place", pos, "the operations of %s keep records in %d different places", st.typ, len(place))
		}
		vals := map[int64]string{}
		for _, k := range [][2]string{{"io", "DataTypeSealedObject"}, {"io", "DataTypeSealedAccess"}, {"io", "DataTypeSealedNode"}, {"id", "DataTypeSealedUser"}, {"id", "DataTypeSealedGroup"}} {
			v := c.a.cint(k[0], k[1])
			other, dup := vals[v]
			c.must(!dup && v >= 0 && v < 1<<16, g, k[1], token.NoPos, "the data types %s and %s have the same value", k[1], other)
			vals[v] = k[1]
		}
	}}

// handle strips the snapshot around a handle (a transaction, a bucket).
func handle(t *Term) *Term {
	for t.k == KPtrTo || t.k == KIface || t.k == KDeref {
		t = t.args[0]
	}
	return t
}

// bucketName is a bucket without the transaction it was opened in.
func bucketName(t *Term) string {
	t = handle(byPlace(t))
	if t.k == KApp && t.op == "bolt.Bucket" {
		tx := handle(t.args[0])
		db := ""
		if tx.k == KApp && tx.op == "bolt.tx" && tx.args[0].k == KEv {
			db = tx.args[0].args[0].str(20)
		}
		return "bucket " + t.args[1].str(20) + " of " + db
	}
	return t.str(20)
}

// addrName names an address by its path from the receiver.
func addrName(st *State, t *Term) string {
	t = byPlace(t)
	outlives, own := false, false
	walk(t, func(u *Term) bool {
		made := u.k == KObj && st.pre[u] // by the constructor
		if u.k == KObj && !made || u.k == KEv || u == placeOf(4) {
			own = true
		}
		outlives = outlives || made || u.k == KGlobal || u == placeOf(0)
		return true
	})
	if own || !outlives {
		return "memory that does not outlive the call"
	}
	return t.String()
}

// placeOf stands for the i-th parameter, whatever its name and method.
func placeOf(i int) *Term { return app("parameter"+string(rune(48+i)), nil) }

// byPlace replaces the parameters of a method by their places.
func byPlace(t *Term) *Term {
	return subst(t, func(u *Term) *Term {
		q, ok := u.obj.(*ssa.Parameter)
		if u.k != KParam || !ok {
			return nil
		}
		for i, x := range q.Parent().Params {
			if x == q {
				return placeOf(i)
			}
		}
		return nil
	})
}

// lockUse is a path that writes, with the locks it holds.
type lockUse struct {
	locks []string
	facts []Fact // about the arguments
	plain bool   // the data is not itself safe for several goroutines
}

// excludes says the two are never at work on one record at the same time.
func (a *lockUse) excludes(b *lockUse) bool {
	plain := a.plain || b.plain
	for _, l := range a.locks {
		if strings.Contains(l, "parameter1") || plain && (strings.Contains(l, "parameter2") || strings.Contains(l, "parameter3")) {
			continue // one of several locks over one table
		}
		for _, m := range b.locks {
			if l == m {
				return true
			}
		}
	}
	if plain {
		return false
	}
	for _, f := range a.facts {
		if holds(b.facts, f.atom, !f.val) {
			return true // never about the same record
		}
	}
	return false
}

// argFacts is what a path has decided about its arguments alone.
func argFacts(s *State) (out []Fact) {
	for _, f := range s.facts {
		a, some, other := byPlace(f.atom), false, false
		walk(a, func(u *Term) bool {
			other = other || u.k == KEv || u.k == KObj || u == placeOf(0) || u == placeOf(1) || u == placeOf(4)
			some = some || u == placeOf(2) || u == placeOf(3)
			return true
		})
		if some && !other {
			out = append(out, Fact{atom: a, val: f.val})
		}
	}
	return out
}

// ---------------------------------------------------------------- atomicity

var gStoreAtomic = &ruleGroup{name: "check-and-write-in-one-step", min: 15,
	what: "in every provided storage, looking whether a record is there and writing it happen in one step: within one write transaction of the database, or with the same lock, held by everything that writes, over both; every lock is released on every way out",
	f: func(c *Ctx, g *ruleGroup) {
		for _, st := range stores {
			st := st
			var uses []*lockUse
			for _, m := range []string{"Put", "Update", "Delete", "Get"} {
				m := m
				n := st.typ + "." + m
				c.each(g, profNone, "io", n, st.ctor, func(r *Run, o *Outcome) {
					if o.panic {
						return
					}
					held := map[string]int{}  // lock -> epoch since when it is held exclusively
					rheld := map[string]int{} // read locks
					heldAt := map[*Event]map[string]int{}
					someAt := map[*Event][]string{} // held in any way
					epoch := 0
					bad := false
					for _, s := range o.top() {
						var lk string
						if strings.HasPrefix(s.op, "sync.") && !strings.HasPrefix(s.op, "sync.Map.") && len(s.raw) > 0 {
							lk = addrName(o.st, s.raw[0])
						}
						switch s.op {
						case "sync.Lock":
							epoch++
							if held[lk] > 0 || rheld[lk] > 0 {
								c.bad(g, n+" lock order", s.pos, "%s takes a lock it already holds", n)
								bad = true
							}
							held[lk] = epoch
						case "sync.Unlock":
							if held[lk] == 0 {
								c.bad(g, n+" lock order", s.pos, "%s releases a lock it does not hold", n)
								bad = true
							}
							delete(held, lk)
						case "sync.RLock":
							epoch++
							rheld[lk] = epoch
						case "sync.RUnlock":
							delete(rheld, lk)
						case "sync.TryLock":
							c.bad(g, n+" lock", s.pos, "%s uses TryLock, which the rules do not describe", n)
						}
						h := map[string]int{}
						for k, v := range held {
							h[k] = v
						}
						heldAt[s.Event] = h
						for k := range held {
							someAt[s.Event] = append(someAt[s.Event], k)
						}
						for k := range rheld {
							someAt[s.Event] = append(someAt[s.Event], k)
						}
					}
					c.must(!bad && len(held) == 0 && len(rheld) == 0, g, n+" releases", o.pos, "%s ends with a lock still held", n)
					open := map[*Term]bool{}
					for _, s := range o.sites() {
						switch s.op {
						case "bolt.Begin":
							failed := holds(o.st.facts, mkEq(res(1, errType(), s.term), tNil), false)
							open[s.term] = !failed
						case "bolt.Commit", "bolt.Rollback", "bolt.EndView":
							open[s.args[0]] = false
						}
					}
					for _, x := range open {
						c.must(!x, g, n+" ends its transaction", o.pos, "%s returns with a transaction still open", n)
					}
					acc, _ := c.accesses(o)
					for _, k := range acc {
						if k.kind == "read" && strings.HasPrefix(k.op, "map.") {
							uses = append(uses, &lockUse{locks: someAt[k.Event], plain: true})
							c.must(len(someAt[k.Event]) == 1, g, n+" reads locked", k.pos, "%s reads a map without holding its lock", n)
						}
						if k.kind == "read" {
							continue
						}
						if strings.HasPrefix(k.op, "bolt.") {
							tx := txOf(k.where)
							if !c.must(tx != nil && len(tx.args) > 1, g, n+" transaction", k.pos, "%s changes the stored data outside a transaction", n) {
								continue
							}
							kind, _ := tx.args[1].strVal()
							c.must(kind == "Update" || kind == "Batch", g, n+" transaction", k.pos, "%s writes in a transaction that is not for writing", n)
							for _, x := range acc {
								if x.kind == "read" {
									c.must(txOf(x.where) == tx, g, n+" one step", x.pos, "%s looks for the record in another transaction than the one it writes in", n)
								}
							}
							continue
						}
						// everything that writes holds the lock
						h := heldAt[k.Event]
						var names []string
						for l := range h {
							if !strings.HasPrefix(l, "memory that") {
								names = append(names, l)
							}
						}
						if len(names) == 0 {
							c.must(m == "Put" && k.kind == "create", g, n+" locked", k.pos, "%s writes without holding a lock", n)
							continue
						}
						c.ok(g, n+" locked")
						uses = append(uses, &lockUse{locks: names, facts: argFacts(o.st), plain: strings.HasPrefix(k.op, "map.")})
						for _, x := range acc {
							if x.kind != "read" {
								continue
							}
							same := false
							for _, l := range names {
								same = same || heldAt[x.Event][l] == h[l] && h[l] > 0
							}
							c.must(same, g, n+" one step", x.pos, "%s looks for the record and writes it without holding a lock in between", n)
						}
					}
				})
			}
			same := true
			for i, a := range uses {
				for _, b := range uses[:i+1] {
					same = same && a.excludes(b)
				}
			}
			c.must(same, g, st.typ+" same lock", c.a.fn("io", st.ctor).Pos(), "the operations of %s write under different locks", st.typ)
		}
	}}

// txOf is the beginning of the transaction a bucket was opened in.
func txOf(bucket *Term) *Term {
	t := handle(bucket)
	if t.k != KApp || t.op != "bolt.Bucket" {
		return nil
	}
	tx := handle(t.args[0])
	if tx.k != KApp || tx.op != "bolt.tx" || tx.args[0].k != KEv {
		return nil
	}
	return tx.args[0]
}

// ---------------------------------------------------------------- isolation

// copied says a slice lies in memory made during the call that nothing else refers to.
func copied(st *State, raw *Term) bool {
	for raw.k == KIface {
		raw = raw.args[0]
	}
	if raw.k == KNil || isString(raw.typ) {
		return true
	}
	if raw.k != KSlice {
		return false
	}
	seen := map[*Term]bool{}
	work := []*Term{rootOf(raw)}
	for len(work) > 0 {
		r := work[0]
		work = work[1:]
		if seen[r] {
			continue
		}
		seen[r] = true
		if r.k != KObj || r.op == "loop" {
			return false
		}
		work = append(work, st.shared[r]...)
	}
	return true
}

var gStoreIsolated = &ruleGroup{name: "stored-data-isolated", min: 9,
	what: "the provided storages keep and hand out copies: what is stored lies in memory made by the call (or is copied by the database), and what is returned lies in memory made by the call, so that neither the caller nor the database can change the other's data later",
	f: func(c *Ctx, g *ruleGroup) {
		for _, st := range stores {
			st := st
			for _, m := range []string{"Put", "Update", "Get", "Delete"} {
				m := m
				n := st.typ + "." + m
				c.each(g, profNone, "io", n, st.ctor, func(r *Run, o *Outcome) {
					acc, _ := c.accesses(o)
					for _, k := range acc {
						if k.raw != nil && (strings.HasPrefix(k.op, "sync.") || strings.HasPrefix(k.op, "map.")) {
							c.must(copied(o.st, k.raw), g, n+" stores a copy", k.pos, "%s stores the caller's own slice, so that later changes by the caller alter the stored data", n)
						}
					}
					for _, w := range o.st.writes {
						if w.root.k == KParam && w.root != r.par[0] {
							c.bad(g, n+" writes to its arguments", w.pos, "%s writes to memory of its caller", n)
						}
					}
					c.ok(g, n+" writes to its arguments")
					if m == "Get" && o.ok {
						c.must(copied(o.st, o.raw[0]), g, n+" returns a copy", o.pos, "%s returns memory that belongs to the storage", n)
					}
				})
			}
		}
	}}

// ---------------------------------------------------------------- durability

var gDurable = &ruleGroup{name: "acknowledged-after-commit", min: 5,
	what: "the database-backed storage is opened for writing with synchronisation on, creates its bucket without removing what is there, and a Put, Update or Delete reports success only after its change (for Delete: if there is a record) was made in a transaction that was committed without error",
	f: func(c *Ctx, g *ruleGroup) {
		c.each(g, profNone, "io", "NewBolt", "", func(r *Run, o *Outcome) {
			if !o.ok {
				return
			}
			created := false
			for _, s := range o.sites() {
				switch s.op {
				case "bolt.Open":
					c.must(s.args[0] == r.param(0), g, "NewBolt path", s.pos, "NewBolt opens another file than the given one")
					opt := deref(s.args[2])
					sync := opt.k == KNil
					if opt.k == KStruct {
						st := structOf(opt.typ)
						sync = true
						for i := 0; i < st.NumFields(); i++ {
							switch st.Field(i).Name() {
							case "NoSync", "ReadOnly", "NoGrowSync":
								sync = sync && opt.args[i] == tFalse
							}
						}
					}
					c.must(sync, g, "NewBolt synchronises", s.pos, "the database is opened read-only or without synchronising writes to disk")
				case "bolt.Tx.CreateBucketIfNotExists":
					created = true
				case "bolt.Begin", "bolt.Commit", "bolt.EndView", "bolt.Rollback":
				default:
					if strings.HasPrefix(s.op, "bolt.") && s.op != "bolt.Tx.CreateBucket" {
						c.bad(g, "NewBolt "+s.op, s.pos, "NewBolt uses %s, which may remove what is stored", s.op)
					}
				}
			}
			c.must(created, g, "NewBolt bucket", o.pos, "NewBolt succeeds without having created the bucket")
			for _, w := range o.st.writes {
				if w.root.k != KObj && w.root.k != KParam {
					c.bad(g, "NewBolt settings", w.pos, "NewBolt changes the settings of the opened database")
				}
			}
		})
		for _, m := range []string{"Put", "Update", "Delete"} {
			n := "Bolt." + m
			c.each(g, profNone, "io", n, "NewBolt", func(r *Run, o *Outcome) {
				if !o.ok {
					return
				}
				acc, _ := c.accesses(o)
				changes, absent := 0, false
				for _, k := range acc {
					if k.kind == "read" {
						absent = absent || k.present(o.st.facts) == 0
						continue
					}
					changes++
					tx := txOf(k.where)
					done := false
					for _, s := range o.top() {
						if s.op == "bolt.Commit" && len(s.args) > 0 && s.args[0] == tx {
							done = holds(o.st.facts, mkEq(res(0, errType(), s.term), tNil), true)
						}
					}
					c.must(done, g, n+" committed", o.pos, "%s reports success although its transaction may not have been committed", n)
				}
				c.must(changes > 0 || m == "Delete" && absent, g, n+" written", o.pos, "%s reports success without having written anything", n)
			})
		}
		// nothing switches synchronisation off later
		for _, f := range c.a.p.funcs {
			for _, i := range fieldStores(f) {
				if i.typ == "go.etcd.io/bbolt.DB" && (i.field == "NoSync" || i.field == "NoGrowSync") {
					c.bad(g, "database settings", i.pos, "%s changes %s of the database", c.a.p.fnName(f), i.field)
				}
			}
		}
		c.ok(g, "database settings")
	}}

type fieldStore struct {
	typ, field string
	pos        token.Pos
}

// fieldStores lists the assignments to fields in a function.
func fieldStores(f *ssa.Function) (out []fieldStore) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			pt, ok := fa.X.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			s, ok := pt.Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			out = append(out, fieldStore{types.TypeString(pt.Elem(), nil), s.Field(fa.Field).Name(), st.Pos()})
		}
	}
	return out
}
