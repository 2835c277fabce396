package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call executes a call instruction; the exits are the states after it.
func (fr *frame) call(s *State, x *ssa.Call) []Exit {
	var args []*Term
	for _, a := range x.Call.Args {
		args = append(args, fr.val(s, a))
	}
	ex := fr.dispatch(s, x, &x.Call, fr.val(s, x.Call.Value), args)
	if fr.in.laws && fr.in.p.wit != nil && fr.fn.Pkg == fr.in.p.wit {
		ex = prune(ex)
	}
	return ex
}

func one(st *State, res ...*Term) []Exit { return []Exit{{st: st, res: res}} }

func (fr *frame) dispatch(s *State, at ssa.Instruction, c *ssa.CallCommon, fv *Term, args []*Term) []Exit {
	in := fr.in
	in.calls++
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(s, at, b, c, args)
	}
	if c.IsInvoke() {
		return fr.invoke(s, at, c, fv, args)
	}
	return fr.callValue(s, at, c.Signature(), fv, args)
}

// callValue calls a function value.
func (fr *frame) callValue(s *State, at ssa.Instruction, sig *types.Signature, fv *Term, args []*Term) []Exit {
	switch fv.k {
	case KFunc:
		return fr.callFn(s, at, fv.obj.(*ssa.Function), args, nil)
	case KClosure:
		return fr.callFn(s, at, fv.obj.(*ssa.Function), args, fv.args)
	}
	// an unknown function value
	e := fr.event(s, at, "dyncall", append([]*Term{fv}, args...))
	fr.havoc(s, e, args)
	return fr.mayFail(s, at, "dyncall", sig, one(s, fr.results(e.term, sig)...))
}

// mayFail notes the error an operation answers with.
func (fr *frame) mayFail(before *State, at ssa.Instruction, op string, sig *types.Signature, exits []Exit) []Exit {
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return exits
	}
	for _, x := range exits {
		if len(x.res) != n || x.panic {
			continue
		}
		e := x.res[n-1]
		if e.k == KNil {
			continue
		}
		var ev *Event
		if k := len(x.st.events); k > 0 && x.st.events[k-1].pos == at.Pos() {
			ev = x.st.events[k-1]
		}
		x.st.fails = append(x.st.fails, Fallible{err: e, op: op, ev: ev, pos: at.Pos(), fn: fr.fn})
	}
	return exits
}

func (fr *frame) results(call *Term, sig *types.Signature) []*Term {
	var out []*Term
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		out = append(out, res(i, sig.Results().At(i).Type(), call))
	}
	return out
}

// callFn calls a known function: a boundary operation, a modelled one, or one to look into.
func (fr *frame) callFn(s *State, at ssa.Instruction, fn *ssa.Function, args, bindings []*Term) []Exit {
	in := fr.in
	if op := in.boundary(fn); op != "" {
		if op == "log" {
			op = "log:" + in.p.fnName(fn)
		}
		return fr.mayFail(s, at, op, fn.Signature, fr.boundaryCall(s, at, op, fn.Signature, args))
	}
	if strings.HasSuffix(fn.Name(), "$bound") && fn.Object() != nil && len(bindings) == 1 {
		// a method value of an interface
		if f, ok := fn.Object().(*types.Func); ok {
			if _, isI := f.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface); isI {
				return fr.invokeMethod(s, at, f, bindings[0], args)
			}
		}
	}
	if r := fn.Signature.Recv(); r != nil && fn.Pkg != nil && !in.p.inlinable(fn) && len(args) > 0 && args[0].k == KNil && pointee(r.Type()) != nil && !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/zerolog") {
		fr.check(s, at.Pos(), "method "+in.p.fnName(fn)+" called on a nil pointer").never = true
	}
	if r, ok := fr.model(s, at, fn, args); ok {
		return fr.mayFail(s, at, in.p.fnName(fn), fn.Signature, r)
	}
	if len(fn.Blocks) > 0 && in.p.inlinable(fn) {
		n := 0
		for _, f := range in.stack {
			if f == fn {
				n++
			}
		}
		if n > 0 || in.recursionOf(fn).union {
			if v := fr.recursiveValue(s, fn, args); v != nil {
				return one(s, v)
			}
		}
		if n > 1 {
			in.note(fr.fn, at.Pos(), "recursive call of %s", fn.Name())
			e := fr.event(s, at, "call:"+in.p.fnName(fn), args)
			return one(s, fr.results(e.term, fn.Signature)...)
		}
		env, defers := s.env, s.defers
		exits := in.run(fn, args, bindings, s, ctxOf(fr.ctx, at, "call"))
		for i := range exits {
			e := make(map[ssa.Value]*Term, len(env))
			for k, v := range env {
				e[k] = v
			}
			exits[i].st.env = e
			exits[i].st.defers = defers[:len(defers):len(defers)]
		}
		return exits
	}
	return fr.mayFail(s, at, in.p.fnName(fn), fn.Signature, fr.external(s, at, in.p.fnName(fn), fn.Signature, args))
}

// event records an impure operation.
func (fr *frame) event(s *State, at ssa.Instruction, op string, args []*Term) *Event {
	snap := make([]*Term, len(args))
	for i, a := range args {
		snap[i] = fr.in.snap(s, a)
	}
	ctx := ctxOf(fr.ctx, at, "ev")
	t := mk(KEv, op, ctx, nil, nil, nil, snap...)
	// the same call can be made twice on a path only through distinct contexts; number the rest
	n := 0
	for _, e := range s.events {
		if e.term != nil && e.ctx == ctx && e.op == op {
			n++
		}
	}
	if n > 0 {
		t = mk(KEv, fmt.Sprintf("%s", op), ctxOf(ctx, at, fmt.Sprintf("n%d", n)), nil, nil, nil, snap...)
	}
	e := &Event{op: op, args: snap, raw: args, term: t, pos: at.Pos(), fn: fr.fn, ctx: ctx, nfacts: len(s.facts)}
	s.events = append(s.events, e)
	return e
}

// poolGet takes a value from a pool: one as New makes it, but with whatever its last user left in it.
func (fr *frame) poolGet(s *State, at ssa.Instruction, pool *Term) ([]Exit, bool) {
	in := fr.in
	v := in.load(s, pool)
	st := structOf(contentType(pool))
	if st == nil {
		return nil, false
	}
	var mkNew *Term
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "New" {
			mkNew = mkField(v, i, st.Field(i).Type())
		}
	}
	if root := rootOf(pool); pool == root && root.k == KGlobal && (mkNew == nil || mkNew.k != KFunc && mkNew.k != KClosure) {
		mkNew = in.p.poolNew(root.obj.(*ssa.Global))
	}
	if mkNew == nil || mkNew.k != KFunc && mkNew.k != KClosure {
		return nil, false
	}
	sig := mkNew.typ.Underlying().(*types.Signature)
	exits := fr.callValue(s, at, sig, mkNew, nil)
	for _, x := range exits {
		if x.panic || len(x.res) != 1 || x.res[0].k != KIface {
			continue
		}
		e := fr.event(x.st, at, "sync.Pool.Get", []*Term{pool})
		e.raw = []*Term{pool, x.res[0]}
		used := func(t types.Type) *Term { return app("pooled", t, e.term) }
		seq := func(sl *Term) *Term {
			o := rootOf(sl)
			if o.k != KObj {
				o = mk(KObj, "", ctxOf(fr.ctx, at, "pooled"), sl.typ, nil, at)
				x.st.shared[o] = nil
			}
			c := used(contentType(o))
			x.st.heap[o] = c
			return mk(KSlice, "", 0, sl.typ, nil, nil, o, mkInt(0), mkLen(c))
		}
		switch b := x.res[0].args[0]; {
		case b.k == KSlice:
			x.res[0] = mk(KIface, "", 0, x.res[0].typ, nil, nil, seq(b))
			e.raw[1] = x.res[0]
		case b.k == KObj:
			c := x.st.heap[b]
			if _, isSlice := contentType(b).Underlying().(*types.Slice); isSlice && c != nil {
				if c.k != KSlice {
					c = mk(KSlice, "", 0, contentType(b), nil, nil, mk(KObj, "", ctxOf(fr.ctx, at, "pooled"), contentType(b), nil, at), mkInt(0), mkInt(0))
				}
				x.st.heap[b] = seq(c)
			} else {
				x.st.heap[b] = used(contentType(b))
			}
		}
	}
	return exits, true
}

// poolNew is the only function that a package-level pool is ever given to make its values.
func (p *Program) poolNew(g *ssa.Global) *Term { return p.poolNews[g] }

// findPoolNew looks for it in what initialisation leaves behind.
func (p *Program) findPoolNew(g *ssa.Global, v *Term) {
	st := structOf(pointee(g.Type()))
	if st == nil || types.TypeString(pointee(g.Type()), nil) != "sync.Pool" || len(p.stores[g]) > 1 {
		return
	}
	for _, i := range p.escapes[g] {
		if _, isCall := i.(ssa.CallInstruction); !isCall {
			return
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "New" {
			if f := mkField(v, i, st.Field(i).Type()); f.k == KFunc || f.k == KClosure {
				p.poolNews[g] = f
			}
		}
	}
}

// pureEvent records an operation whose result depends on its arguments alone.
func (fr *frame) pureEvent(s *State, at ssa.Instruction, op string, args []*Term) *Event {
	e := fr.event(s, at, op, args)
	e.term = app(op, nil, e.args...)
	return e
}

// havoc forgets the memory an unknown call may write.
func (fr *frame) havoc(s *State, e *Event, args []*Term) {
	for i, a := range args {
		fr.havocValue(s, e.term, i, a, e.pos, 0)
	}
}

func (fr *frame) havocValue(s *State, by *Term, i int, a *Term, pos interface{}, d int) {
	if d > 3 {
		return
	}
	switch a.k {
	case KIface:
		fr.havocValue(s, by, i, a.args[0], pos, d+1)
	case KSlice:
		r := rootOf(a)
		fr.in.recordWrite(s, fr, r, "passed to unknown code", nil, by2pos(pos))
		s.heap[r] = app("havoc", contentType(r), by, mkInt(int64(i)))
	case KObj, KFieldAddr, KElemAddr:
		if ct := contentType(a); ct != nil {
			fr.in.recordWrite(s, fr, rootOf(a), "passed to unknown code", nil, by2pos(pos))
			fr.in.storeRaw(s, a, app("havoc", ct, by, mkInt(int64(i))))
		}
	case KStruct, KTuple, KClosure:
		for j, x := range a.args {
			fr.havocValue(s, by, i*100+j, x, pos, d+1)
		}
	}
}

// pure applies a side-effect free external function.
func (fr *frame) pure(s *State, at ssa.Instruction, op string, sig *types.Signature, args []*Term) []*Term {
	snap := make([]*Term, len(args))
	for i, a := range args {
		snap[i] = fr.in.snap(s, a)
	}
	n := sig.Results().Len()
	t := app(op, nil, snap...)
	var out []*Term
	if fr.in.laws && n == 2 {
		if v := fr.in.undone(s, op, snap); v != nil {
			return []*Term{fr.freshOpaque(s, at, op, 0, v, sig.Results().At(0).Type()), tNil}
		}
	}
	for i := 0; i < n; i++ {
		rt := sig.Results().At(i).Type()
		var r *Term
		if n == 1 {
			r = app(op, rt, snap...)
		} else {
			r = res(i, rt, t)
		}
		if _, ok := rt.Underlying().(*types.Slice); ok {
			r = fr.freshOpaque(s, at, op, i, r, rt)
		}
		out = append(out, r)
	}
	return out
}

// freshOpaque is new memory with opaque contents.
func (fr *frame) freshOpaque(s *State, at ssa.Instruction, op string, i int, content *Term, rt types.Type) *Term {
	return fr.in.freshSeq(s, fr, at, fmt.Sprintf("%s.%d", op, i), content, rt)
}

// ---------------------------------------------------------------- interfaces

// canonical operations of the repository's interfaces, by method name and signature
type ifaceOp struct {
	method string
	sig    string
	op     string
}

const modPath = "github.com/cybercryptio/d1-lib/v2"

func sigString(sig *types.Signature) string {
	var ps, rs []string
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, strings.ReplaceAll(types.TypeString(sig.Params().At(i).Type(), nil), modPath, "~"))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, strings.ReplaceAll(types.TypeString(sig.Results().At(i).Type(), nil), modPath, "~"))
	}
	s := "(" + strings.Join(ps, ",") + ")(" + strings.Join(rs, ",") + ")"
	return strings.ReplaceAll(s, "interface{}", "any")
}

var ifaceOps = []ifaceOp{
	{"Put", "(context.Context,[]byte,~/io.DataType,[]byte)(error)", "io.Put"},
	{"Get", "(context.Context,[]byte,~/io.DataType)([]byte,error)", "io.Get"},
	{"Update", "(context.Context,[]byte,~/io.DataType,[]byte)(error)", "io.Update"},
	{"Delete", "(context.Context,[]byte,~/io.DataType)(error)", "io.Delete"},
	{"GetIdentity", "(context.Context,string)(~/id.Identity,error)", "id.GetIdentity"},
	{"GetKeys", "(context.Context)(~/key.Keys,error)", "key.GetKeys"},
	{"Encrypt", "(any,any)([]byte,[]byte,error)", "crypto.Encrypt"},
	{"Decrypt", "(any,any,[]byte,[]byte)(error)", "crypto.Decrypt"},
	{"Tag", "(any)([]byte,error)", "crypto.Tag"},
	{"Wrap", "([]byte)([]byte,error)", "crypto.Wrap"},
	{"Unwrap", "([]byte)([]byte,error)", "crypto.Unwrap"},
	{"Encrypt", "([]byte,[]byte,[]byte)([]byte,error)", "aead.Encrypt"},
	{"Decrypt", "([]byte,[]byte,[]byte)([]byte,error)", "aead.Decrypt"},
	{"GetBytes", "(uint)([]byte,error)", "crypto.GetBytes"},
	{"Encrypt", "([]byte,[]byte)()", "block.Encrypt"},
	{"Decrypt", "([]byte,[]byte)()", "block.Decrypt"},
	{"Seal", "([]byte,[]byte,[]byte,[]byte)([]byte)", "gcm.Seal"},
	{"Open", "([]byte,[]byte,[]byte,[]byte)([]byte,error)", "gcm.Open"},
}

func opFor(name string, sig *types.Signature) string {
	ss := sigString(sig)
	for _, o := range ifaceOps {
		if o.method == name && o.sig == ss {
			return o.op
		}
	}
	return ""
}

func (fr *frame) invoke(s *State, at ssa.Instruction, c *ssa.CallCommon, recv *Term, args []*Term) []Exit {
	return fr.invokeMethod(s, at, c.Method, recv, args)
}

func (fr *frame) invokeMethod(s *State, at ssa.Instruction, m *types.Func, recv *Term, args []*Term) []Exit {
	in := fr.in
	sig := m.Type().(*types.Signature)
	if recv.k == KIface {
		if fn := in.p.prog.LookupMethod(recv.typ, m.Pkg(), m.Name()); fn != nil {
			return fr.callFn(s, at, fn, append([]*Term{recv.args[0]}, args...), nil)
		}
	}
	if op := opFor(m.Name(), sig); op != "" {
		return fr.mayFail(s, at, op, sig, fr.boundaryCall(s, at, op, sig, append([]*Term{recv}, args...)))
	}
	if m.Name() == "Error" && sig.Params().Len() == 0 {
		return one(s, app("Error", types.Typ[types.String], recv))
	}
	if m.Name() == "String" && sig.Params().Len() == 0 {
		return one(s, app("String", types.Typ[types.String], recv))
	}
	if m.Pkg() != nil {
		switch m.Pkg().Path() {
		case "context":
			return one(s, fr.pure(s, at, "context."+m.Name(), sig, append([]*Term{recv}, args...))...)
		}
	}
	name := m.Name()
	if m.Pkg() != nil {
		name = m.Pkg().Name() + "." + m.Name()
	}
	e := fr.event(s, at, "invoke:"+name, append([]*Term{recv}, args...))
	if name != "io.Write" { // an io.Writer must not modify what it is given
		fr.havoc(s, e, args)
	}
	return fr.mayFail(s, at, "invoke:"+name, sig, one(s, fr.results(e.term, sig)...))
}

// ---------------------------------------------------------------- boundary operations

// boundaryCall performs an operation that is described rather than looked into.
// args[0] is the receiver for methods.
func (fr *frame) boundaryCall(s *State, at ssa.Instruction, op string, sig *types.Signature, args []*Term) []Exit {
	in := fr.in
	errT := types.Universe.Lookup("error").Type()
	if strings.HasPrefix(op, "log:") {
		e := fr.event(s, at, op, args)
		s.events = s.events[:len(s.events)-1]
		s.logs = append(s.logs, e)
		var out []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			out = append(out, mk(KApp, op, i, sig.Results().At(i).Type(), nil, nil, e.args...))
		}
		if strings.HasSuffix(op, "Logger.UpdateContext") && len(args) == 2 {
			// the change is described by a function, which says what is added
			fsig := args[1].typ.Underlying().(*types.Signature)
			lc := mk(KApp, "log:fields", 0, fsig.Params().At(0).Type(), nil, nil, e.args[0])
			var exits []Exit
			for _, x := range fr.callValue(s, at, fsig, args[1], []*Term{lc}) {
				x.res = out
				exits = append(exits, x)
			}
			return exits
		}
		return one(s, out...)
	}
	switch op {
	case "crypto.Encrypt":
		e := fr.event(s, at, op, args)
		return one(s, fr.results(e.term, sig)...)
	case "crypto.Decrypt":
		e := fr.pureEvent(s, at, op, args)
		target := args[1]
		if target.k == KIface {
			target = target.args[0]
		}
		var prior *Term
		ct := contentType(target)
		if target.k == KObj || target.k == KFieldAddr || target.k == KElemAddr {
			prior = in.snap(s, in.load(s, target))
			zero := ct != nil && prior == zeroOf(ct) || isEmptySeq(prior)
			if in.laws && zero {
				if v := opened(s, e, ct); v != nil {
					in.storeRaw(s, target, in.materialise(s, fr, at, "opened", v, ct))
					return one(s, tNil)
				}
			}
			val := app("decrypted", ct, e.args[0], e.args[2], e.args[3], e.args[4])
			if !zero {
				val = app("decryptedInto", ct, e.args[0], e.args[2], e.args[3], e.args[4], prior)
			}
			in.storeRaw(s, target, val)
		} else {
			val := app("decrypted", ct, e.args[0], e.args[2], e.args[3], e.args[4])
			in.recordWrite(s, fr, rootOf(target), "decrypted into", val, at.Pos())
			if ct != nil {
				in.storeRaw(s, target, val)
			}
		}
		// the error does not depend on the destination
		errv := app("decryptErr", errT, e.args[0], e.args[2], e.args[3], e.args[4])
		e.term = mk(KTuple, "", 0, nil, nil, nil, errv)
		return one(s, errv)
	case "crypto.Tag":
		e := fr.pureEvent(s, at, op, args)
		r := fr.results(e.term, sig)
		r[0] = fr.freshOpaque(s, at, op, 0, r[0], sig.Results().At(0).Type())
		return one(s, r...)
	case "aead.Encrypt":
		e := fr.event(s, at, op, args)
		// may modify the backing array of the plaintext
		fr.havocValue(s, e.term, 1, args[1], at.Pos(), 0)
		if args[1].k != KSlice {
			in.recordWrite(s, fr, args[1], "encrypted in place", nil, at.Pos())
		}
		return one(s, fr.results(e.term, sig)...)
	case "aead.Decrypt":
		e := fr.pureEvent(s, at, op, args)
		fr.havocValue(s, e.term, 1, args[1], at.Pos(), 0)
		if args[1].k != KSlice {
			in.recordWrite(s, fr, args[1], "decrypted in place", nil, at.Pos())
		}
		if v := in.undone(s, op, e.args); v != nil {
			return one(s, fr.freshOpaque(s, at, op, 0, v, sig.Results().At(0).Type()), tNil)
		}
		r := fr.results(e.term, sig)
		return one(s, r...)
	case "crypto.Wrap", "crypto.Unwrap":
		e := fr.pureEvent(s, at, op, args)
		if v := in.undone(s, op, e.args); v != nil {
			return one(s, fr.freshOpaque(s, at, op, 0, v, sig.Results().At(0).Type()), tNil)
		}
		r := fr.results(e.term, sig)
		r[0] = fr.freshOpaque(s, at, op, 0, r[0], sig.Results().At(0).Type())
		return one(s, r...)
	case "crypto.NewAESCryptor", "crypto.NewKMAC256Tagger", "crypto.NewKWP":
		e := fr.pureEvent(s, at, op, args)
		return one(s, fr.results(e.term, sig)...)
	case "crypto.KMACKDF":
		if len(args) > 1 {
			n := in.lenOf(s, args[1], types.NewSlice(types.Typ[types.Byte]))
			fr.check(s, at.Pos(), "key derived from a key of fewer than 32 bytes", tSub(n, mkInt(32)))
		}
		r := fr.pure(s, at, op, sig, args)
		e := fr.event(s, at, op, args)
		e.term = app(op, nil, e.args...)
		return one(s, r...)
	case "crypto.Compare":
		e := fr.pureEvent(s, at, op, args)
		if in.laws && len(e.args) == 3 {
			if v := compared(s, e.args[1], e.args[2]); v != nil {
				return one(s, v)
			}
		}
		return one(s, app("crypto.Compare", types.Typ[types.Bool], e.args...))
	case "crypto.GeneratePassword":
		e := fr.event(s, at, op, args)
		return one(s, fr.results(e.term, sig)...)
	case "crypto.GetBytes":
		e := fr.event(s, at, op, args)
		return one(s, fr.results(e.term, sig)...)
	case "crypto.NewPasswordHasher":
		return one(s, app(op, sig.Results().At(0).Type()))
	case "io.Put", "io.Get", "io.Update", "io.Delete", "id.GetIdentity", "key.GetKeys":
		e := fr.event(s, at, op, args)
		return one(s, fr.results(e.term, sig)...)
	case "block.Encrypt", "block.Decrypt":
		e := fr.pureEvent(s, at, op, args)
		bt := types.NewSlice(types.Typ[types.Byte])
		fr.check(s, at.Pos(), "cipher block shorter than 16 bytes", tSub(in.lenOf(s, args[1], bt), mkInt(16)), tSub(in.lenOf(s, args[2], bt), mkInt(16)))
		e.term = app(op, nil, e.args[0], e.args[2])
		if args[1].k == KSlice {
			n := tSub(args[1].args[2], args[1].args[1])
			val := app(op, args[1].typ, e.args[0], e.args[2])
			r := rootOf(args[1])
			in.recordWrite(s, fr, r, "block cipher output", val, at.Pos())
			if v, ok := n.intVal(); ok && v == 16 {
				cur := in.load(s, args[1].args[0])
				if sp := splice(cur, args[1].args[1], mkSub(app("blk16", types.NewArray(types.Typ[types.Byte], 16), val), mkInt(0), mkInt(16))); sp != nil {
					in.storeRaw(s, args[1].args[0], sp)
					return one(s)
				}
			}
			in.storeRaw(s, args[1].args[0], app("havoc", contentType(r), val, in.load(s, args[1].args[0])))
			return one(s)
		}
		in.recordWrite(s, fr, rootOf(args[1]), "block cipher output", nil, at.Pos())
		return one(s)
	case "gcm.Seal", "gcm.Open":
		// dst is args[1]; the output is appended to dst (in place when it shares memory with the input)
		e := fr.pureEvent(s, at, op, args)
		out := app(op, types.NewSlice(types.Typ[types.Byte]), e.args[0], e.args[2], e.args[3], e.args[4])
		back := in.undone(s, op, e.args)
		if back != nil {
			out = back
		}
		n := mkLen(e.args[3])
		if anyTerm(e.args[0], func(t *Term) bool { return t.op == "cipher.NewGCM" }) {
			nl := mkLen(e.args[2])
			fr.check(s, at.Pos(), "nonce "+e.args[2].String()+" of a length other than 12", tSub(nl, mkInt(12)), tSub(mkInt(12), nl))
		}
		var outLen *Term
		if op == "gcm.Seal" {
			outLen = tAdd(n, mkInt(16))
		} else {
			outLen = tSub(n, mkInt(16))
		}
		outSeq := app("sized", out.typ, out, outLen)
		if back != nil && mkLen(back) == outLen {
			outSeq = back
		}
		dst := args[1]
		errv := app("gcm.OpenErr", errT, e.args[0], e.args[2], e.args[3], e.args[4])
		if back != nil {
			errv = tNil
		}
		var ret *Term
		if dst.k == KSlice {
			r := rootOf(dst)
			in.recordWrite(s, fr, r, "cipher output", out, at.Pos())
			cur := in.load(s, dst.args[0])
			if d, ok := diffConst(dst.args[2], dst.args[1]); ok && d == 0 && dst.op != "x" {
				if geq(mkLen(cur), tAdd(dst.args[1], outLen)) {
					if sp := spliceN(cur, dst.args[1], outSeq, outLen); sp != nil {
						in.storeRaw(s, dst.args[0], sp)
						ret = mk(KSlice, "", 0, dst.typ, nil, nil, dst.args[0], dst.args[1], tAdd(dst.args[1], outLen))
					}
				}
			}
			if ret == nil && !(r.k == KObj && isEmptySeq(cur)) {
				in.storeRaw(s, dst.args[0], app("havoc", contentType(r), out, cur))
			}
		} else if dst.k != KNil {
			in.recordWrite(s, fr, rootOf(dst), "cipher output", out, at.Pos())
		}
		if ret == nil {
			ret = fr.freshOpaque(s, at, op, 0, mkConcat(in.seqOf(s, dst), outSeq), types.NewSlice(types.Typ[types.Byte]))
		}
		if op == "gcm.Seal" {
			return one(s, ret)
		}
		// nothing is returned when authentication fails
		var outs []Exit
		bad := s.clone()
		if bad.assume(mkEq(errv, tNil), false) {
			outs = append(outs, Exit{st: bad, res: []*Term{tNil, errv}})
		}
		if s.assume(mkEq(errv, tNil), true) {
			outs = append(outs, Exit{st: s, res: []*Term{ret, tNil}})
		}
		return outs
	}
	e := fr.event(s, at, op, args)
	return one(s, fr.results(e.term, sig)...)
}

func spliceN(s, off, src, srcLen *Term) *Term {
	n := mkLen(s)
	end := tAdd(off, srcLen)
	if !geq(n, end) {
		return nil
	}
	return mkConcat(mkSub(s, mkInt(0), off), src, mkSub(s, end, n))
}

// ---------------------------------------------------------------- builtins

func (fr *frame) builtin(s *State, at ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []*Term) []Exit {
	in := fr.in
	switch b.Name() {
	case "len":
		if _, isMap := c.Args[0].Type().Underlying().(*types.Map); isMap && in.laws {
			if ks, known := exactKeys(s, in.mapOf(s, args[0])); known {
				return one(s, mkInt(int64(len(ks))))
			}
		}
		return one(s, in.lenOf(s, args[0], c.Args[0].Type()))
	case "cap":
		if args[0].k == KSlice && args[0].op == "x" {
			return one(s, tSub(args[0].args[2], args[0].args[1]))
		}
		return one(s, app("cap", types.Typ[types.Int], args[0]))
	case "append":
		return one(s, fr.appendTo(s, at, args[0], args[1], c.Args[0].Type(), c.Args[1].Type()))
	case "copy":
		return one(s, fr.copyTo(s, at, args[0], args[1], c.Args[1].Type()))
	case "delete":
		m := args[0]
		in.recordWrite(s, fr, m, "map delete", args[1], at.Pos())
		if outside(s, m) {
			fr.event(s, at, "map.Delete", args)
			return one(s)
		}
		if m.k != KNil {
			s.heap[m] = mkMDel(in.mapOf(s, m), args[1])
		}
		return one(s)
	case "clear":
		m := args[0]
		in.recordWrite(s, fr, rootOf(m), "clear", nil, at.Pos())
		if m.k == KSlice {
			cur := in.load(s, m.args[0])
			n := tSub(m.args[2], m.args[1])
			if sp := splice(cur, m.args[1], mkZeros(n)); sp != nil {
				in.storeRaw(s, m.args[0], sp)
			} else {
				in.storeRaw(s, m.args[0], app("havoc", nil, cur))
			}
		} else if m.k != KNil {
			s.heap[m] = tMNew
		}
		return one(s)
	case "recover":
		return one(s, tNil)
	case "panic":
		return []Exit{{st: s, panic: true, pos: at.Pos()}}
	case "print", "println":
		e := fr.event(s, at, "log:print", args)
		s.events = s.events[:len(s.events)-1]
		s.logs = append(s.logs, e)
		return one(s)
	case "min", "max":
		if len(args) == 2 {
			lt := mkLt(args[0], args[1])
			switch s.eval(lt) {
			case 1:
				if b.Name() == "min" {
					return one(s, args[0])
				}
				return one(s, args[1])
			case 0:
				if b.Name() == "min" {
					return one(s, args[1])
				}
				return one(s, args[0])
			}
		}
		return one(s, app(b.Name(), args[0].typ, args...))
	}
	if strings.HasPrefix(b.Name(), "ssa:") {
		// ssa:wrapnilchk and friends
		return one(s, args[0])
	}
	in.note(fr.fn, at.Pos(), "builtin %s is not modelled", b.Name())
	return one(s, mk(KNew, b.Name(), ctxOf(fr.ctx, at, ""), nil, nil, nil))
}

func (fr *frame) appendTo(s *State, at ssa.Instruction, dst, src *Term, dt, srcT types.Type) *Term {
	in := fr.in
	var add *Term
	if isString(srcT) {
		add = src
	} else {
		add = in.seqOf(s, src)
	}
	base := in.seqOf(s, dst)
	if isEmptySeq(add) {
		return dst
	}
	r := fr.freshSeq(s, fr, at, "append", mkConcat(base, add), dt)
	if dst.k == KNil {
		if lo, m, _, _ := boundsOf(mkLen(add)); !lo || m <= 0 {
			r = mk(KSlice, "n", 0, r.typ, nil, nil, r.args...)
		}
		return r
	}
	exact := dst.k == KSlice && dst.op == "x"
	if !exact {
		root := rootOf(dst)
		// what lies behind dst's end may be overwritten in place
		in.recordWrite(s, fr, root, "append", add, at.Pos())
		for _, o := range s.shared[root] {
			if o.k == KObj && o.op != "loop" && !isEmptySeq(in.loadRoot(s, o)) {
				// an earlier append to the same slice may lose its tail
				if ch := in.loadRoot(s, o); prefixOf(base, ch) {
					s.heap[o] = forgotten(o, ch, at.Pos())
				}
			}
		}
		// only the tail can be shared when dst is empty
		if !(dst.k == KSlice && isEmptySeq(base) && root.k == KObj && isEmptySeq(in.loadRoot(s, root)) && false) {
			link(s, r.args[0], root)
		}
	}
	return r
}

// prefixOf says base is a proper prefix of s, so s was made by appending to the same slice.
func prefixOf(base, s *Term) bool {
	if s.k != KConcat {
		return isEmptySeq(base)
	}
	if isEmptySeq(base) {
		return true
	}
	if base.k == KConcat {
		if len(base.args) >= len(s.args) {
			return false
		}
		for i := range base.args {
			if base.args[i] != s.args[i] {
				return false
			}
		}
		return true
	}
	return s.args[0] == base
}

func (fr *frame) copyTo(s *State, at ssa.Instruction, dst, src *Term, srcT types.Type) *Term {
	in := fr.in
	var from *Term
	if isString(srcT) {
		from = src
	} else {
		from = in.seqOf(s, src)
	}
	var dl *Term
	if dst.k == KSlice {
		dl = tSub(dst.args[2], dst.args[1])
	} else {
		dl = mkLen(in.seqOf(s, dst))
	}
	sl := mkLen(from)
	n := sl
	if s.eval(mkLt(dl, sl)) == 1 {
		n = dl
		from = mkSub(from, mkInt(0), dl)
	} else if !geq(dl, sl) && s.eval(mkLt(dl, sl)) != 0 {
		// unknown which is shorter
		n = app("min", types.Typ[types.Int], dl, sl)
		if l, ok := diffConst(dl, sl); !ok || l < 0 {
			root := rootOf(dst)
			in.recordWrite(s, fr, root, "copy", from, at.Pos())
			in.clobber(s, root, at.Pos())
			if dst.k == KSlice {
				in.storeRaw(s, dst.args[0], app("copied", contentType(dst.args[0]), in.load(s, dst.args[0]), dst.args[1], from))
			} else if dst.k != KNil {
				s.heap[dst] = app("copied", dst.typ, in.seqOf(s, dst), mkInt(0), from)
			}
			return n
		}
	}
	root := rootOf(dst)
	if dst.k == KNil || isEmptySeq(from) {
		return n
	}
	in.recordWrite(s, fr, root, "copy", from, at.Pos())
	if len(s.shared[root]) > 0 {
		in.clobber(s, root, at.Pos())
	}
	var cur, off *Term
	if dst.k == KSlice {
		cur, off = in.load(s, dst.args[0]), dst.args[1]
	} else {
		cur, off = in.seqOf(s, dst), mkInt(0)
	}
	var nw *Term
	if geq(mkLen(cur), tAdd(off, n)) || s.eval(mkLt(mkLen(cur), tAdd(off, n))) == 0 {
		nw = mkConcat(mkSub(cur, mkInt(0), off), from, mkSub(cur, tAdd(off, n), mkLen(cur)))
	} else {
		nw = app("copied", contentType(root), cur, off, from)
	}
	if dst.k == KSlice {
		in.storeRaw(s, dst.args[0], nw)
	} else {
		s.heap[dst] = nw
	}
	return n
}

// ---------------------------------------------------------------- models of library functions

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "bytes": true, "encoding/hex": true, "encoding/base64": true,
	"encoding/base32": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "path": true, "path/filepath": true,
	"crypto/subtle": true, "reflect": true, "crypto/hmac": true, "golang.org/x/crypto/pbkdf2": true,
	"golang.org/x/crypto/sha3": true, "crypto/sha256": true, "crypto/sha512": true, "crypto/aes": true, "crypto/cipher": true,
	"context": true, "github.com/gofrs/uuid": true, "encoding": true, "cmp": true, "hash": true, "go.etcd.io/bbolt/errors": true,
}

func (fr *frame) model(s *State, at ssa.Instruction, fn *ssa.Function, args []*Term) ([]Exit, bool) {
	in := fr.in
	if fn.Pkg == nil && fn.Object() == nil {
		return nil, false
	}
	name := in.p.fnName(fn)
	sig := fn.Signature
	errT := types.Universe.Lookup("error").Type()
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 && fn.Synthetic != "" {
		return one(s), true
	}
	switch name {
	case "errors.New":
		return one(s, mk(KApp, "errors.New", ctxOf(fr.ctx, at, ""), errT, nil, nil, args...)), true
	case "fmt.Errorf":
		return one(s, mk(KApp, "fmt.Errorf", ctxOf(fr.ctx, at, ""), errT, nil, nil, fr.snapAll(s, args)...)), true
	case "errors.Is":
		return one(s, fr.errorsIs(s, args[0], args[1])), true
	case "errors.As", "errors.Unwrap", "errors.Join":
		return one(s, fr.pure(s, at, name, sig, args)...), true
	case "json.Marshal", "json.MarshalToString", "json.MarshalIndent":
		return one(s, fr.pure(s, at, "json.Marshal", sig, args)...), true
	case "json.Unmarshal", "json.UnmarshalFromString":
		in2 := in.snap(s, args[0])
		target := args[1]
		if target.k == KIface {
			target = target.args[0]
		}
		ct := contentType(target)
		owned := target.k == KObj || target.k == KFieldAddr || target.k == KElemAddr
		val := app("json.Decode", ct, in2)
		if owned {
			prior := in.snap(s, in.load(s, target))
			if zero := ct != nil && prior == zeroOf(ct) || isEmptySeq(prior); zero && in.laws {
				if m := resOf(in2, 0); m != nil && m.k == KApp && m.op == "json.Marshal" {
					if v := sameContent(m.args[0], ct); v != nil {
						in.storeRaw(s, target, in.materialise(s, fr, at, "decoded", v, ct))
						return one(s, tNil), true
					}
				}
			} else if !zero {
				val = app("json.DecodeInto", ct, in2, prior)
			}
			in.storeRaw(s, target, val)
		} else {
			in.recordWrite(s, fr, rootOf(target), "json.Unmarshal", val, at.Pos())
			if ct != nil {
				in.storeRaw(s, target, val)
			}
		}
		e := fr.pureEvent(s, at, "json.Unmarshal", args)
		e.term = val
		return one(s, app("json.UnmarshalErr", errT, in2, typeTerm(ct))), true
	case "uuid.NewV4", "uuid.NewV1", "uuid.NewV6", "uuid.NewV7":
		e := fr.event(s, at, name, args)
		return one(s, fr.results(e.term, sig)...), true
	case "uuid.NewV3", "uuid.NewV5", "uuid.FromBytes", "uuid.FromString", "uuid.FromBytesOrNil", "uuid.FromStringOrNil":
		return one(s, fr.pure(s, at, name, sig, args)...), true
	case "base64.Encoding.Encode", "base32.Encoding.Encode", "hex.Encode", "base64.Encoding.AppendEncode", "base32.Encoding.AppendEncode", "hex.AppendEncode":
		op := name[:strings.LastIndex(name, ".")]
		by := args[:len(args)-2]
		dst, src := args[len(args)-2], in.snap(s, args[len(args)-1])
		text := app(op+".EncodeToString", types.Typ[types.String], append(fr.snapAll(s, by), src)...)
		if strings.HasSuffix(name, "AppendEncode") {
			return one(s, fr.appendTo(s, at, dst, text, sig.Results().At(0).Type(), types.Typ[types.String])), true
		}
		fr.check(s, at.Pos(), "room for the encoded text", tSub(in.lenOf(s, dst, sig.Params().At(0).Type()), mkLen(text)))
		n := fr.copyTo(s, at, dst, text, types.Typ[types.String])
		if sig.Results().Len() == 0 {
			return one(s), true
		}
		return one(s, n), true
	case "base64.Encoding.Decode", "base32.Encoding.Decode", "hex.Decode":
		op := name + "String"
		by := args[:len(args)-2]
		dst, src := args[len(args)-2], in.snap(s, args[len(args)-1])
		all := append(fr.snapAll(s, by), src)
		d := app(op, nil, all...)
		val, err := res(0, sig.Params().At(0).Type(), d), res(1, errT, d)
		if in.laws {
			if v := in.undone(s, op, all); v != nil {
				val, err = v, tNil
			}
		}
		fr.check(s, at.Pos(), "room for the decoded data", tSub(in.lenOf(s, dst, sig.Params().At(0).Type()), app(name[:strings.LastIndex(name, ".")]+".DecodedLen", types.Typ[types.Int], append(fr.snapAll(s, by), mkLen(src))...)))
		if dst.k == KSlice {
			in.recordWrite(s, fr, rootOf(dst), name, val, at.Pos())
			cur, off := in.load(s, dst.args[0]), dst.args[1]
			in.storeRaw(s, dst.args[0], mkConcat(mkSub(cur, mkInt(0), off), val, mkSub(cur, tAdd(off, mkLen(val)), mkLen(cur))))
		} else if dst.k != KNil {
			in.recordWrite(s, fr, rootOf(dst), name, val, at.Pos())
			cur := in.seqOf(s, dst)
			s.heap[dst] = mkConcat(val, mkSub(cur, mkLen(val), mkLen(cur)))
		}
		return one(s, mkLen(val), err), true
	case "uuid.UUID.Bytes":
		return one(s, in.freshSeq(s, fr, at, "uuid", args[0], sig.Results().At(0).Type())), true
	case "bits.Len", "bits.Len8", "bits.Len16", "bits.Len32", "bits.Len64":
		if v, ok := args[0].intVal(); ok && v >= 0 {
			return one(s, mkInt(int64(bits.Len64(uint64(v))))), true
		}
		return one(s, app("bits.Len", types.Typ[types.Int], args[0])), true
	case "bits.LeadingZeros64", "bits.LeadingZeros32", "bits.LeadingZeros16", "bits.LeadingZeros8", "bits.LeadingZeros":
		w := int64(64)
		if n, err := strconv.Atoi(strings.TrimPrefix(name, "bits.LeadingZeros")); err == nil {
			w = int64(n)
		}
		if v, ok := args[0].intVal(); ok && v >= 0 {
			return one(s, mkInt(w-int64(bits.Len64(uint64(v))))), true
		}
		return one(s, tSub(mkInt(w), app("bits.Len", types.Typ[types.Int], args[0]))), true
	case "time.Now":
		e := fr.event(s, at, "time.Now", nil)
		return one(s, res(0, sig.Results().At(0).Type(), e.term)), true
	case "time.Since", "time.Until":
		e := fr.event(s, at, "time.Now", nil)
		now := res(0, args[0].typ, e.term)
		if name == "time.Since" {
			return one(s, app("time.Time.Sub", sig.Results().At(0).Type(), now, args[0])), true
		}
		return one(s, app("time.Time.Sub", sig.Results().At(0).Type(), args[0], now)), true
	case "time.Time.After":
		return one(s, app("time.Time.Before", types.Typ[types.Bool], args[1], args[0])), true
	case "rand.Read", "io.ReadFull":
		// crypto/rand.Read or io.ReadFull(rand.Reader, b)
		dst := args[len(args)-1]
		e := fr.event(s, at, pkgOf(fn)+"."+fn.Name(), args)
		n := in.lenOf(s, dst, types.NewSlice(types.Typ[types.Byte]))
		val := app("filled", types.NewSlice(types.Typ[types.Byte]), e.term, n)
		if dst.k == KSlice {
			r := rootOf(dst)
			in.recordWrite(s, fr, r, "read", val, at.Pos())
			cur := in.load(s, dst.args[0])
			if sp := spliceN(cur, dst.args[1], val, n); sp != nil {
				in.storeRaw(s, dst.args[0], sp)
			} else {
				in.storeRaw(s, dst.args[0], app("havoc", contentType(r), val, cur))
			}
		} else {
			in.recordWrite(s, fr, rootOf(dst), "read", val, at.Pos())
		}
		return one(s, fr.results(e.term, sig)...), true
	case "sort.Strings", "sort.Ints", "sort.Sort", "sort.Slice", "sort.SliceStable", "sort.Stable":
		v := args[0]
		for v.k == KIface {
			v = v.args[0]
		}
		r := rootOf(v)
		in.recordWrite(s, fr, r, "sort", nil, at.Pos())
		if v.k == KSlice {
			cur := in.seqOf(s, v)
			if sp := splice(in.load(s, v.args[0]), v.args[1], cur); sp != nil && sp == in.load(s, v.args[0]) {
				in.storeRaw(s, v.args[0], app("sorted", contentType(r), cur))
				if cur.k == KLit || cur.k == KConcat || cur.k == KApp && cur.op == "keys" {
					// order is not modelled: keep the elements
					in.storeRaw(s, v.args[0], cur)
				}
			}
		}
		return one(s), true
	case "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock", "sync.Mutex.TryLock":
		e := fr.event(s, at, "sync."+fn.Name(), nil)
		e.raw = args
		return one(s, fr.results(e.term, sig)...), true
	case "sync.Pool.Get":
		if exits, ok := fr.poolGet(s, at, args[0]); ok {
			return exits, true
		}
	case "sync.Pool.Put":
		e := fr.event(s, at, "sync.Pool.Put", args[:1])
		e.raw = args
		return one(s), true
	case "sync.Once.Do":
		e := fr.event(s, at, "sync.Once", nil)
		e.raw = args[:1]
		return fr.callValue(s, at, args[1].typ.Underlying().(*types.Signature), args[1], nil), true
	case "sync.Map.Load", "sync.Map.Store", "sync.Map.Delete", "sync.Map.LoadOrStore", "sync.Map.LoadAndDelete", "sync.Map.Swap", "sync.Map.CompareAndSwap", "sync.Map.CompareAndDelete", "sync.Map.Range":
		snap := fr.snapAll(s, args[1:])
		e := fr.event(s, at, "sync.Map."+fn.Name(), snap)
		e.raw = args
		return one(s, fr.results(e.term, sig)...), true
	case "pbkdf2.Key", "subtle.ConstantTimeCompare", "hmac.Equal", "bytes.Equal":
		return one(s, fr.pure(s, at, name, sig, args)...), true
	}
	if r, ok := fr.binaryModel(s, at, name, sig, args); ok {
		return r, true
	}
	if r, ok := fr.bytesModel(s, at, name, sig, args); ok {
		return r, true
	}
	if r, ok := fr.bufferModel(s, at, fn, name, sig, args); ok {
		return r, true
	}
	if r, ok := fr.boltModel(s, at, name, sig, args); ok {
		return r, true
	}
	switch pkgOf(fn) {
	case "fmt":
		if strings.HasPrefix(fn.Name(), "S") {
			return one(s, fr.pure(s, at, name, sig, args)...), true
		}
		if strings.HasPrefix(fn.Name(), "Fprint") && !contains(args[0], fr.stdStream("Stdout")) && !contains(args[0], fr.stdStream("Stderr")) {
			return fr.external(s, at, name, sig, args), true
		}
		if strings.HasPrefix(fn.Name(), "Print") || strings.HasPrefix(fn.Name(), "Fprint") {
			e := fr.event(s, at, "log:"+name, args)
			s.events = s.events[:len(s.events)-1]
			s.logs = append(s.logs, e)
			return one(s, fr.results(e.term, sig)...), true
		}
	case "log", "log/slog", "github.com/rs/zerolog", "github.com/rs/zerolog/log":
		return fr.boundaryCall(s, at, "log:"+name, sig, args), true
	case "time":
		return one(s, fr.pure(s, at, name, sig, args)...), true
	}
	if purePkgs[pkgOf(fn)] {
		return one(s, fr.pure(s, at, name, sig, args)...), true
	}
	return nil, false
}

func typeTerm(t types.Type) *Term {
	if t == nil {
		return mkStr("?")
	}
	return mkStr(types.TypeString(t, nil))
}

func (fr *frame) snapAll(s *State, args []*Term) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = fr.in.snap(s, a)
	}
	return out
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return pkgOf(fn.Origin())
	}
	return ""
}

func (fr *frame) errorsIs(s *State, x, y *Term) *Term {
	return errorsIs(x, y)
}

// elsewhere says the error comes from a package that does not know the error value: the crypto package imports none of
// the others, and storage providers answer with the errors of their own interface.
func elsewhere(x, y *Term) bool {
	if !repoSentinel(y) {
		return false
	}
	pkg := y.obj.(*ssa.Global).Pkg.Pkg.Path()
	if x.k == KApp && x.op == "decryptErr" {
		return !strings.HasSuffix(pkg, "/crypto")
	}
	if x.k == KRes && (x.args[0].k == KApp || x.args[0].k == KEv) {
		switch op := x.args[0].op; {
		case strings.HasPrefix(op, "crypto."):
			return !strings.HasSuffix(pkg, "/crypto")
		case op == "io.Put" || op == "io.Get" || op == "io.Update" || op == "io.Delete":
			return !strings.HasSuffix(pkg, "/io")
		}
	}
	return false
}

func errorsIs(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.k == KNil {
		return tFalse
	}
	if isSentinel(x) && isSentinel(y) || foreignErr(x) && repoSentinel(y) || elsewhere(x, y) {
		return tFalse
	}
	if x.k == KApp && x.op == "errors.New" {
		return tFalse
	}
	if x.k == KApp && x.op == "fmt.Errorf" {
		f, ok := x.args[0].strVal()
		if ok && !strings.Contains(f, "%w") {
			return tFalse
		}
		if ok && len(x.args) > 1 && x.args[1].k == KLit {
			// find the wrapped argument
			var ws []*Term
			for _, a := range x.args[1].args {
				if a.typ != nil && types.Implements(a.typ, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
					ws = append(ws, a)
				}
			}
			if len(ws) == 1 {
				return errorsIs(ws[0], y)
			}
		}
	}
	return app("errors.Is", types.Typ[types.Bool], x, y)
}

// external is a call of a function without a model.
func (fr *frame) external(s *State, at ssa.Instruction, name string, sig *types.Signature, args []*Term) []Exit {
	e := fr.event(s, at, "ext:"+name, args)
	fr.havoc(s, e, args)
	return one(s, fr.results(e.term, sig)...)
}

func (fr *frame) binaryModel(s *State, at ssa.Instruction, name string, sig *types.Signature, args []*Term) ([]Exit, bool) {
	in := fr.in
	if !strings.HasPrefix(name, "binary.") {
		return nil, false
	}
	rest := strings.TrimPrefix(name, "binary.")
	end := ""
	switch {
	case strings.HasPrefix(rest, "littleEndian."):
		end = "le"
	case strings.HasPrefix(rest, "bigEndian."):
		end = "be"
	}
	m := rest[strings.LastIndex(rest, ".")+1:]
	if end != "" {
		args = args[1:]
		for _, w := range []int{16, 32, 64} {
			sw := fmt.Sprint(w)
			bt := types.NewSlice(types.Typ[types.Byte])
			switch m {
			case "PutUint" + sw:
				dst := args[0]
				val := mkBytesOf(end, w, args[1])
				n := mkInt(int64(w / 8))
				r := rootOf(dst)
				fr.check(s, at.Pos(), "write of "+sw+" bits to "+dst.String(), tSub(in.lenOf(s, dst, bt), n))
				in.recordWrite(s, fr, r, "binary.Put", val, at.Pos())
				if len(s.shared[r]) > 0 {
					in.clobber(s, r, at.Pos())
				}
				if dst.k == KSlice {
					cur := in.load(s, dst.args[0])
					end := tAdd(dst.args[1], n)
					if sp := spliceN(cur, dst.args[1], val, n); sp != nil {
						in.storeRaw(s, dst.args[0], sp)
					} else if s.eval(mkLt(mkLen(cur), end)) == 0 {
						in.storeRaw(s, dst.args[0], mkConcat(mkSub(cur, mkInt(0), dst.args[1]), val, mkSub(cur, end, mkLen(cur))))
					} else {
						in.storeRaw(s, dst.args[0], app("havoc", contentType(r), val, cur))
					}
				}
				return one(s), true
			case "Uint" + sw:
				seq := in.seqOf(s, args[0])
				fr.check(s, at.Pos(), "read of "+sw+" bits from "+seq.String(), tSub(mkLen(seq), mkInt(int64(w/8))))
				sub := mkSub(seq, mkInt(0), mkInt(int64(w/8)))
				if sub.k == KApp && sub.op == end+sw {
					return one(s, sub.args[0]), true
				}
				if v := constOfBytes(end, w, sub); v != nil {
					return one(s, v), true
				}
				return one(s, app("from"+end+sw, sig.Results().At(0).Type(), sub)), true
			case "AppendUint" + sw:
				val := mkBytesOf(end, w, args[1])
				src := fr.freshSeq(s, fr, at, "au", val, bt)
				return one(s, fr.appendTo(s, at, args[0], src, bt, bt)), true
			}
		}
		return nil, false
	}
	switch m {
	case "PutUvarint", "PutVarint":
		dst := args[0]
		n := app("uvarintLen", types.Typ[types.Int], args[1])
		val := app("uvarint", types.NewSlice(types.Typ[types.Byte]), args[1])
		r := rootOf(dst)
		fr.check(s, at.Pos(), "variable-length integer written to "+dst.String(), tSub(in.lenOf(s, dst, val.typ), n))
		in.recordWrite(s, fr, r, "binary.Put", val, at.Pos())
		if dst.k == KSlice {
			cur := in.load(s, dst.args[0])
			// fits by contract when the buffer has the maximal length
			if v, ok := mkLen(cur).intVal(); ok && v >= 10 {
				if o, ok := dst.args[1].intVal(); ok && o == 0 {
					in.storeRaw(s, dst.args[0], app("uvarintBuf", contentType(r), args[1]))
				}
			}
		}
		_ = n
		_ = val
		return one(s, n), true
	case "AppendUvarint":
		bt := types.NewSlice(types.Typ[types.Byte])
		val := mkSub(app("uvarintBuf", bt, args[1]), mkInt(0), app("uvarintLen", types.Typ[types.Int], args[1]))
		src := fr.freshSeq(s, fr, at, "au", val, bt)
		return one(s, fr.appendTo(s, at, args[0], src, bt, bt)), true
	}
	return nil, false
}

func (fr *frame) bytesModel(s *State, at ssa.Instruction, name string, sig *types.Signature, args []*Term) ([]Exit, bool) {
	in := fr.in
	switch name {
	case "bytes.Clone", "slices.Clone", "strings.Clone":
		if name == "strings.Clone" {
			return one(s, args[0]), true
		}
		copied := func(s *State) Exit {
			return Exit{st: s, res: []*Term{in.freshSeq(s, fr, at, "clone", in.seqOf(s, args[0]), sig.Results().At(0).Type())}}
		}
		isNil := mkEq(args[0], tNil)
		switch s.eval(isNil) {
		case 1:
			return one(s, tNil), true
		case 0:
			return []Exit{copied(s)}, true
		}
		a := s.clone()
		if !a.assume(isNil, true) {
			return []Exit{copied(s)}, true
		}
		out := one(a, tNil)
		if s.assume(isNil, false) {
			out = append(out, copied(s))
		}
		return out, true
	case "bytes.Join":
		// known parts only
		parts := in.seqOf(s, args[0])
		sep := in.seqOf(s, args[1])
		if parts.k == KLit {
			var out []*Term
			for i, p := range parts.args {
				if i > 0 {
					out = append(out, sep)
				}
				out = append(out, in.seqOf(s, p))
			}
			return one(s, in.freshSeq(s, fr, at, "join", mkConcat(out...), sig.Results().At(0).Type())), true
		}
		if isEmptySeq(sep) {
			return one(s, in.freshSeq(s, fr, at, "join", app("flat", nil, parts), sig.Results().At(0).Type())), true
		}
	case "strings.Join":
		parts := in.seqOf(s, args[0])
		if parts.k == KLit {
			var out []*Term
			for i, p := range parts.args {
				if i > 0 {
					out = append(out, args[1])
				}
				out = append(out, p)
			}
			return one(s, mkConcat(out...)), true
		}
	case "bytes.Equal":
		a, b := in.seqOf(s, args[0]), in.seqOf(s, args[1])
		if a == b {
			return one(s, tTrue), true
		}
	}
	return nil, false
}

// bufferModel describes bytes.Buffer and strings.Builder.
func (fr *frame) bufferModel(s *State, at ssa.Instruction, fn *ssa.Function, name string, sig *types.Signature, args []*Term) ([]Exit, bool) {
	in := fr.in
	switch name {
	case "bytes.NewBuffer", "bytes.NewBufferString":
		bt := pointee(sig.Results().At(0).Type())
		o := mk(KObj, "", ctxOf(fr.ctx, at, "alloc"), bt, nil, at)
		s.heap[o] = app("buffer", bt, in.seqOf(s, args[0]))
		s.shared[o] = nil
		if args[0].k != KNil && name == "bytes.NewBuffer" {
			// writes may go to the memory behind the slice
			in.recordWrite(s, fr, rootOf(args[0]), "buffer", nil, at.Pos())
		}
		return one(s, o), true
	}
	recv := sig.Recv()
	if recv == nil || pointee(recv.Type()) == nil || !bufferType(pointee(recv.Type())) {
		return nil, false
	}
	bt := pointee(recv.Type())
	p := args[0]
	if p.k != KObj && p.k != KFieldAddr && p.k != KElemAddr {
		return fr.external(s, at, name, sig, args), true
	}
	cur := bufSeq(in.load(s, p))
	set := func(seq *Term) {
		in.recordWrite(s, fr, rootOf(p), "buffer", seq, at.Pos())
		in.storeRaw(s, p, app("buffer", bt, seq))
	}
	switch fn.Name() {
	case "Write", "WriteString":
		b := in.seqOf(s, args[1])
		set(mkConcat(cur, b))
		return one(s, mkLen(b), tNil), true
	case "WriteByte":
		set(mkConcat(cur, mkLit(args[1])))
		return one(s, tNil), true
	case "Bytes":
		return one(s, in.freshSeq(s, fr, at, "buf", cur, sig.Results().At(0).Type())), true
	case "String":
		return one(s, cur), true
	case "Len":
		return one(s, mkLen(cur)), true
	case "Reset":
		set(tEmpty)
		return one(s), true
	case "Truncate":
		set(mkSub(cur, mkInt(0), args[1]))
		return one(s), true
	case "Grow":
		return one(s), true
	}
	return fr.external(s, at, name, sig, args), true
}

// stdStream is the variable os.Stdout or os.Stderr.
func (fr *frame) stdStream(name string) *Term {
	if p := fr.in.p.prog.ImportedPackage("os"); p != nil {
		if g := p.Var(name); g != nil {
			return fr.in.load(newState(), mk(KGlobal, "", 0, g.Type(), nil, g))
		}
	}
	return tNil
}

// boltModel describes the bbolt database.
func (fr *frame) boltModel(s *State, at ssa.Instruction, name string, sig *types.Signature, args []*Term) ([]Exit, bool) {
	if !strings.HasPrefix(name, "bbolt.") {
		return nil, false
	}
	errT := types.Universe.Lookup("error").Type()
	switch name {
	case "bbolt.DB.Update", "bbolt.DB.View", "bbolt.DB.Batch":
		kind := strings.TrimPrefix(name, "bbolt.DB.")
		e := fr.event(s, at, "bolt.Begin", []*Term{args[0], mkStr(kind)})
		tx := app("bolt.tx", sig.Params().At(0).Type().Underlying().(*types.Signature).Params().At(0).Type(), e.term)
		var out []Exit
		for _, x := range fr.callValue(s, at, args[1].typ.Underlying().(*types.Signature), args[1], []*Term{tx}) {
			if x.panic {
				out = append(out, x)
				continue
			}
			err := x.res[0]
			// an error from the closure rolls back and is returned
			a := x.st.clone()
			if a.assume(mkEq(err, tNil), false) {
				fr.eventNoArgs(a, at, "bolt.Rollback", e.term)
				out = append(out, Exit{st: a, res: []*Term{err}})
			}
			b := x.st
			if b.assume(mkEq(err, tNil), true) {
				ce := fr.eventNoArgs(b, at, "bolt.Commit", e.term)
				if kind == "View" {
					ce.op = "bolt.EndView"
				}
				out = append(out, Exit{st: b, res: []*Term{res(0, errT, ce.term)}})
			}
		}
		return out, true
	case "bbolt.DB.Begin":
		kind := "unknown"
		switch args[1] {
		case tTrue:
			kind = "Update"
		case tFalse:
			kind = "View"
		}
		e := fr.event(s, at, "bolt.Begin", []*Term{args[0], mkStr(kind)})
		err := res(1, errT, e.term)
		var out []Exit
		if a := s.clone(); a.assume(mkEq(err, tNil), false) {
			out = append(out, Exit{st: a, res: []*Term{tNil, err}})
		}
		if s.assume(mkEq(err, tNil), true) {
			out = append(out, Exit{st: s, res: []*Term{app("bolt.tx", sig.Results().At(0).Type(), e.term), tNil}})
		}
		return out, true
	case "bbolt.Tx.Commit", "bbolt.Tx.Rollback":
		tx := handle(args[0])
		if tx.k != KApp || tx.op != "bolt.tx" {
			break
		}
		begin := tx.args[0]
		kind, _ := begin.args[1].strVal()
		if name == "bbolt.Tx.Commit" {
			e := fr.eventNoArgs(s, at, "bolt.Commit", begin)
			return one(s, res(0, errT, e.term)), true
		}
		for _, e := range s.events {
			if e.op == "bolt.Commit" && len(e.args) > 0 && e.args[0] == begin {
				// the transaction has ended, however the commit went
				return one(s, app("bolt.closed", errT, begin)), true
			}
		}
		e := fr.eventNoArgs(s, at, "bolt.Rollback", begin)
		if kind == "View" {
			e.op = "bolt.EndView"
		}
		return one(s, res(0, errT, e.term)), true
	case "bbolt.Tx.Bucket":
		return one(s, app("bolt.Bucket", sig.Results().At(0).Type(), fr.snapAll(s, args)...)), true
	case "bbolt.Bucket.Get":
		e := fr.event(s, at, "bolt.Get", args)
		return one(s, res(0, sig.Results().At(0).Type(), e.term)), true
	case "bbolt.Bucket.Put":
		e := fr.event(s, at, "bolt.Put", args)
		return one(s, res(0, errT, e.term)), true
	case "bbolt.Bucket.Delete":
		e := fr.event(s, at, "bolt.Delete", args)
		return one(s, res(0, errT, e.term)), true
	case "bbolt.Open":
		e := fr.event(s, at, "bolt.Open", args)
		return one(s, fr.results(e.term, sig)...), true
	}
	e := fr.event(s, at, "bolt."+strings.TrimPrefix(name, "bbolt."), args)
	return one(s, fr.results(e.term, sig)...), true
}

func (fr *frame) eventNoArgs(s *State, at ssa.Instruction, op string, t *Term) *Event {
	return fr.event(s, at, op, []*Term{t})
}

var _ = constant.MakeBool

// mkBytesOf is the fixed-width encoding of an integer.
func mkBytesOf(end string, w int, v *Term) *Term {
	if c, ok := v.intVal(); ok {
		n := w / 8
		out := make([]*Term, n)
		for i := 0; i < n; i++ {
			sh := uint(8 * i)
			if end == "be" {
				sh = uint(8 * (n - 1 - i))
			}
			out[i] = mkInt(int64(byte(uint64(c) >> sh)))
		}
		return mkLit(out...)
	}
	return app(end+fmt.Sprint(w), types.NewSlice(types.Typ[types.Byte]), v)
}

func constOfBytes(end string, w int, s *Term) *Term {
	n := w / 8
	if s.k != KLit || len(s.args) != n {
		return nil
	}
	var v uint64
	for i := 0; i < n; i++ {
		b, ok := s.args[i].intVal()
		if !ok || b < 0 || b > 255 {
			return nil
		}
		sh := uint(8 * i)
		if end == "be" {
			sh = uint(8 * (n - 1 - i))
		}
		v |= uint64(b) << sh
	}
	if v > 1<<62 {
		return nil
	}
	return mkInt(int64(v))
}
