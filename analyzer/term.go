package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind is the constructor of a term.
type Kind uint8

const (
	KConst     Kind = iota // c
	KNil                   // nil of any type
	KParam                 // obj=*ssa.Parameter
	KGlobal                // address of a package-level variable, obj=*ssa.Global
	KApp                   // pure application op(args)
	KRes                   // n-th result of args[0] (KApp or KEv)
	KEv                    // an impure call: op, ctx n, args
	KField                 // n-th field of args[0]
	KElem                  // args[0][args[1]]
	KLookup                // map lookup
	KLookupOk              // map membership
	KBin                   // op(args[0],args[1])
	KUn                    // op(args[0])
	KLin                   // linear integer form: n + sum coef*atom (coefs in op)
	KStruct                // struct value
	KIface                 // interface holding args[0] of type typ
	KPtrTo                 // snapshot of a pointer: what it points to
	KObj                   // an abstract memory object (address)
	KFieldAddr             // address of n-th field of args[0]
	KElemAddr              // address of element args[1] of array/slice root args[0]
	KSlice                 // slice header: args[0]=array root, args[1]=lo, args[2]=hi; op=="x": capacity ends at hi; op=="n": nil when empty
	KZeros                 // n zero elements
	KConcat                // concatenation of sequences
	KSub                   // args[0][args[1]:args[2]]
	KLit                   // literal sequence
	KUpd                   // sequence args[0] with element args[1] := args[2]
	KMEmpty                // empty map
	KMSet                  // map args[0] with args[1]:=args[2]
	KMDel                  // map args[0] without args[1]
	KMSetAll               // map args[0] with every element of sequence args[1] set to args[2]
	KMDelAll               // map args[0] without the elements of sequence args[1]
	KClosure               // obj=*ssa.Function, args bindings
	KFunc                  // obj=*ssa.Function
	KLoop                  // loop-carried value: obj=*LoopRec name op
	KRangeKey              // generic key of a range over a map/string; n=ctx
	KRangeOk
	KDeref // content of an opaque pointer
	KLen   // length of an opaque sequence/map
	KTuple
	KConv // narrowing conversion
	KNew  // opaque fresh content, n unique
)

// Term is an interned abstract value.
type Term struct {
	id   int
	k    Kind
	op   string
	n    int
	typ  types.Type
	args []*Term
	c    constant.Value
	obj  interface{}
}

var (
	internTab = map[string]*Term{}
	objIDs    = map[interface{}]int{}
	typIDs    = map[string]int{}
	typTab    []types.Type
)

func objID(o interface{}) int {
	if o == nil {
		return 0
	}
	if v, ok := objIDs[o]; ok {
		return v
	}
	v := len(objIDs) + 1
	objIDs[o] = v
	return v
}

func typID(t types.Type) int {
	if t == nil {
		return 0
	}
	s := types.TypeString(t, nil)
	if v, ok := typIDs[s]; ok {
		return v
	}
	v := len(typIDs) + 1
	typIDs[s] = v
	return v
}

// keyTyped says whether the type is part of the term's identity.
func keyTyped(k Kind) bool {
	switch k {
	case KStruct, KIface, KConv:
		return true
	}
	return false
}

func mk(k Kind, op string, n int, typ types.Type, c constant.Value, obj interface{}, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(k) + 33)
	sb.WriteString(op)
	sb.WriteByte('#')
	sb.WriteString(strconv.Itoa(n))
	if keyTyped(k) {
		sb.WriteByte('T')
		sb.WriteString(strconv.Itoa(typID(typ)))
	}
	if c != nil {
		sb.WriteByte('c')
		sb.WriteString(c.Kind().String())
		sb.WriteString(c.ExactString())
	}
	if obj != nil {
		sb.WriteByte('o')
		sb.WriteString(strconv.Itoa(objID(obj)))
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if t, ok := internTab[key]; ok {
		return t
	}
	t := &Term{id: len(internTab) + 1, k: k, op: op, n: n, typ: typ, c: c, obj: obj, args: append([]*Term(nil), args...)}
	internTab[key] = t
	return t
}

var tNil, tTrue, tFalse, tEmpty, tMNew *Term

func init() { resetTerms() }

// resetTerms forgets every term; it is called before a program is loaded.
func resetTerms() {
	internTab = map[string]*Term{}
	objIDs = map[interface{}]int{}
	typIDs = map[string]int{}
	ctxTab = map[string]int{}
	tNil = mk(KNil, "", 0, nil, nil, nil)
	tTrue = mk(KConst, "", 0, types.Typ[types.Bool], constant.MakeBool(true), nil)
	tFalse = mk(KConst, "", 0, types.Typ[types.Bool], constant.MakeBool(false), nil)
	tEmpty = mk(KConcat, "", 0, nil, nil, nil)
	tMNew = mk(KMEmpty, "", 0, nil, nil, nil)
}

func mkInt(n int64) *Term {
	return mk(KConst, "", 0, types.Typ[types.Int], constant.MakeInt64(n), nil)
}
func mkStr(s string) *Term {
	return mk(KConst, "", 0, types.Typ[types.String], constant.MakeString(s), nil)
}
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func app(op string, typ types.Type, args ...*Term) *Term {
	return mk(KApp, op, 0, typ, nil, nil, args...)
}

func res(i int, typ types.Type, call *Term) *Term {
	if call.k == KTuple {
		return call.args[i]
	}
	return mk(KRes, "", i, typ, nil, nil, call)
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	v := c.Value
	if isInt(c.Type()) {
		v = constant.ToInt(v)
	}
	return mk(KConst, "", 0, c.Type(), v, nil)
}

// bufferType says values of the type collect bytes: their content is one sequence.
func bufferType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "strings.Builder":
		return true
	}
	return false
}

// bufSeq is what a buffer holds.
func bufSeq(b *Term) *Term {
	if b.k == KApp && b.op == "buffer" {
		return b.args[0]
	}
	return app("bufcontent", nil, b)
}

// zeroOf is the zero value of a type.
func zeroOf(t types.Type) *Term {
	if bufferType(t) {
		return app("buffer", t, tEmpty)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return mk(KConst, "", 0, t, constant.MakeFloat64(0), nil)
		}
		return tNil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mk(KStruct, "", 0, t, nil, nil, args...)
	case *types.Array:
		return mkZeros(mkInt(u.Len()))
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = zeroOf(u.At(i).Type())
		}
		return mk(KTuple, "", 0, nil, nil, nil, args...)
	}
	return tNil
}

func (t *Term) isConst() bool { return t.k == KConst }

func (t *Term) intVal() (int64, bool) {
	if t.k == KConst && t.c.Kind() == constant.Int {
		v, ok := constant.Int64Val(t.c)
		return v, ok
	}
	return 0, false
}

func (t *Term) strVal() (string, bool) {
	if t.k == KConst && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}

// ---------------------------------------------------------------- linear ints

type lin struct {
	c     int64
	coefs map[*Term]int64
}

func linOf(t *Term) lin {
	if v, ok := t.intVal(); ok {
		return lin{c: v}
	}
	if t.k == KLin {
		l := lin{c: int64(t.n), coefs: map[*Term]int64{}}
		for i, s := range strings.Split(t.op, ",") {
			v, _ := strconv.ParseInt(s, 10, 64)
			l.coefs[t.args[i]] = v
		}
		return l
	}
	return lin{coefs: map[*Term]int64{t: 1}}
}

func (l lin) term() *Term {
	var at []*Term
	for a, c := range l.coefs {
		if c != 0 {
			at = append(at, a)
		}
	}
	if len(at) == 0 {
		return mkInt(l.c)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
	if len(at) == 1 && l.c == 0 && l.coefs[at[0]] == 1 {
		return at[0]
	}
	cs := make([]string, len(at))
	for i, a := range at {
		cs[i] = strconv.FormatInt(l.coefs[a], 10)
	}
	return mk(KLin, strings.Join(cs, ","), int(l.c), types.Typ[types.Int], nil, nil, at...)
}

func linAdd(a, b *Term, sign int64) *Term {
	x, y := linOf(a), linOf(b)
	r := lin{c: x.c + sign*y.c, coefs: map[*Term]int64{}}
	for k, v := range x.coefs {
		r.coefs[k] += v
	}
	for k, v := range y.coefs {
		r.coefs[k] += sign * v
	}
	return r.term()
}

func linMul(a *Term, c int64) *Term {
	x := linOf(a)
	r := lin{c: x.c * c, coefs: map[*Term]int64{}}
	for k, v := range x.coefs {
		r.coefs[k] += v * c
	}
	return r.term()
}

func tAdd(a, b *Term) *Term { return linAdd(a, b, 1) }
func tSub(a, b *Term) *Term { return linAdd(a, b, -1) }

// diffConst returns a-b when that is a constant.
func diffConst(a, b *Term) (int64, bool) { return tSub(a, b).intVal() }

// nonNegAtom says that an integer atom cannot be negative.
func nonNegAtom(t *Term) bool {
	if t.k == KLen {
		return true
	}
	return false
}

// signOf decides the sign of a linear form: lo/hi bounds known? returns (min known, min, max known, max).
func boundsOf(t *Term) (minOK bool, min int64, maxOK bool, max int64) {
	l := linOf(t)
	minOK, maxOK = true, true
	for a, c := range l.coefs {
		if c == 0 {
			continue
		}
		if nonNegAtom(a) {
			if c > 0 {
				maxOK = false
			} else {
				minOK = false
			}
		} else {
			minOK, maxOK = false, false
		}
	}
	return minOK, l.c, maxOK, l.c
}

// ---------------------------------------------------------------- sequences

func mkZeros(n *Term) *Term {
	if v, ok := n.intVal(); ok && v == 0 {
		return tEmpty
	}
	return mk(KZeros, "", 0, nil, nil, nil, n)
}

func isEmptySeq(t *Term) bool {
	if t.k == KNil || (t.k == KConcat && len(t.args) == 0) || (t.k == KLit && len(t.args) == 0) {
		return true
	}
	if s, ok := t.strVal(); ok && s == "" {
		return true
	}
	if t.k == KZeros {
		v, ok := t.args[0].intVal()
		return ok && v == 0
	}
	return false
}

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if isEmptySeq(p) {
			return
		}
		if p.k == KConcat {
			for _, a := range p.args {
				add(a)
			}
			return
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if ls, ok := l.strVal(); ok {
				if ps, ok := p.strVal(); ok {
					out[len(out)-1] = mkStr(ls + ps)
					return
				}
			}
			if l.k == KZeros && p.k == KZeros {
				out[len(out)-1] = mkZeros(tAdd(l.args[0], p.args[0]))
				return
			}
			if l.k == KLit && p.k == KLit {
				out[len(out)-1] = mk(KLit, "", 0, nil, nil, nil, append(append([]*Term{}, l.args...), p.args...)...)
				return
			}
			// x[a:b] ++ x[b:c] = x[a:c]
			if l.k == KSub && p.k == KSub && l.args[0] == p.args[0] && l.args[2] == p.args[1] {
				out[len(out)-1] = mkSub(l.args[0], l.args[1], p.args[2])
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(KConcat, "", 0, nil, nil, nil, out...)
}

func mkLit(elems ...*Term) *Term {
	if len(elems) == 0 {
		return tEmpty
	}
	return mk(KLit, "", 0, nil, nil, nil, elems...)
}

// knownLen gives the length of values whose producer fixes it.
func knownLen(t *Term) *Term {
	if t.k == KApp {
		switch t.op {
		case "le16", "be16":
			return mkInt(2)
		case "le32", "be32":
			return mkInt(4)
		case "le64", "be64":
			return mkInt(8)
		case "sized", "filled":
			return t.args[1]
		case "rewritten":
			return mkLen(t.args[0])
		case "copied":
			if len(t.args) == 3 {
				return mkLen(t.args[0])
			}
		case "crypto.KMACKDF":
			return t.args[0]
		case "base64.Encoding.EncodeToString", "base32.Encoding.EncodeToString":
			return app(strings.Replace(t.op, "EncodeToString", "EncodedLen", 1), types.Typ[types.Int], t.args[0], mkLen(t.args[1]))
		case "hex.EncodeToString":
			return app("hex.EncodedLen", types.Typ[types.Int], mkLen(t.args[0]))
		case "pbkdf2.Key":
			if len(t.args) > 3 {
				return t.args[3]
			}
		}
	}
	if t.k == KLoop && len(t.args) == 1 {
		return t.args[0]
	}
	if t.typ != nil {
		if a, ok := t.typ.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	}
	if t.k == KRes && t.n == 0 && t.args[0].k == KEv && t.args[0].op == "crypto.GetBytes" {
		return t.args[0].args[1]
	}
	return nil
}

func mkLen(t *Term) *Term {
	switch t.k {
	case KNil, KMEmpty:
		return mkInt(0)
	case KZeros:
		return t.args[0]
	case KConcat:
		r := mkInt(0)
		for _, a := range t.args {
			r = tAdd(r, mkLen(a))
		}
		return r
	case KLit:
		return mkInt(int64(len(t.args)))
	case KSub:
		return tSub(t.args[2], t.args[1])
	case KUpd:
		return mkLen(t.args[0])
	case KConst:
		if s, ok := t.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	}
	if l := knownLen(t); l != nil {
		return l
	}
	return mk(KLen, "", 0, types.Typ[types.Int], nil, nil, t)
}

// geq says a >= b is certain without facts.
func geq(a, b *Term) bool {
	d := tSub(a, b)
	if ok, m, _, _ := boundsOf(d); ok && m >= 0 {
		return true
	}
	for x := range linOf(d).coefs {
		if x.k == KBin && (x.op == "/" || x.op == "%") {
			if r, ok := geqMemo[d]; ok {
				return r
			}
			geqMemo[d] = false
			r := (&bounds{seen: map[*Term]bool{}}).proves(d)
			geqMemo[d] = r
			return r
		}
	}
	return false
}

var geqMemo = map[*Term]bool{}

func mkSub(s, lo, hi *Term) *Term {
	if l, ok := diffConst(hi, lo); ok && l == 0 {
		return tEmpty
	}
	n := mkLen(s)
	if lv, ok := lo.intVal(); ok && lv == 0 && hi == n {
		return s
	}
	if str, ok := s.strVal(); ok {
		if a, ok := lo.intVal(); ok {
			if b, ok := hi.intVal(); ok && 0 <= a && a <= b && b <= int64(len(str)) {
				return mkStr(str[a:b])
			}
		}
	}
	switch s.k {
	case KZeros:
		return mkZeros(tSub(hi, lo))
	case KSub:
		return mkSub(s.args[0], tAdd(s.args[1], lo), tAdd(s.args[1], hi))
	case KLit:
		if a, ok := lo.intVal(); ok {
			if b, ok := hi.intVal(); ok && 0 <= a && a <= b && b <= int64(len(s.args)) {
				return mkLit(s.args[a:b]...)
			}
		}
	case KConcat:
		// Locate lo and hi among the part boundaries.
		var out []*Term
		pos := mkInt(0)
		state := 0 // 0: before lo, 1: inside, 2: done
		good := true
		for _, p := range s.args {
			end := tAdd(pos, mkLen(p))
			if state == 0 {
				if geq(lo, end) {
					pos = end
					continue
				}
				if !geq(lo, pos) {
					good = false
					break
				}
				// lo lies in this part (pos <= lo < end) -- need lo <= end known
				if lo != pos && !geq(end, lo) {
					good = false
					break
				}
				plo := tSub(lo, pos)
				if geq(end, hi) {
					out = append(out, mkSub(p, plo, tSub(hi, pos)))
					state = 2
					break
				}
				if !geq(hi, end) {
					good = false
					break
				}
				out = append(out, mkSub(p, plo, mkLen(p)))
				state = 1
				pos = end
				continue
			}
			if state == 1 {
				if geq(hi, end) {
					out = append(out, p)
					pos = end
					if hi == end {
						state = 2
						break
					}
					continue
				}
				if geq(end, hi) && geq(hi, pos) {
					out = append(out, mkSub(p, mkInt(0), tSub(hi, pos)))
					state = 2
					break
				}
				good = false
				break
			}
		}
		if good && (state == 2 || (state == 1 && hi == pos)) {
			return mkConcat(out...)
		}
	}
	return mk(KSub, "", 0, s.typ, nil, nil, s, lo, hi)
}

// splice overwrites s[off:off+len(src)] with src; nil when it cannot be shown to fit.
func splice(s, off, src *Term) *Term {
	n := mkLen(s)
	end := tAdd(off, mkLen(src))
	if !geq(n, end) {
		return nil
	}
	return mkConcat(mkSub(s, mkInt(0), off), src, mkSub(s, end, n))
}

func mkElem(s, i *Term, typ types.Type) *Term {
	switch s.k {
	case KLit:
		if v, ok := i.intVal(); ok && v >= 0 && v < int64(len(s.args)) {
			return s.args[v]
		}
	case KZeros:
		if typ != nil {
			return zeroOf(typ)
		}
	case KUpd:
		if s.args[1] == i {
			return s.args[2]
		}
		if d, ok := diffConst(s.args[1], i); ok && d != 0 {
			return mkElem(s.args[0], i, typ)
		}
	case KSub:
		return mkElem(s.args[0], tAdd(s.args[1], i), typ)
	case KConcat:
		pos := mkInt(0)
		for _, p := range s.args {
			end := tAdd(pos, mkLen(p))
			if geq(i, pos) && geq(tSub(end, mkInt(1)), i) {
				return mkElem(p, tSub(i, pos), typ)
			}
			if !geq(i, end) {
				break
			}
			pos = end
		}
	}
	if str, ok := s.strVal(); ok {
		if v, ok := i.intVal(); ok && v >= 0 && v < int64(len(str)) {
			return mkInt(int64(str[v]))
		}
	}
	return mk(KElem, "", 0, typ, nil, nil, s, i)
}

func mkUpd(s, i, v *Term) *Term {
	if s.k == KLit {
		if n, ok := i.intVal(); ok && n >= 0 && n < int64(len(s.args)) {
			a := append([]*Term{}, s.args...)
			a[n] = v
			return mk(KLit, "", 0, nil, nil, nil, a...)
		}
	}
	if s.k == KZeros {
		if n, ok := s.args[0].intVal(); ok && n <= 64 {
			if j, ok := i.intVal(); ok && j >= 0 && j < n {
				// leave the other elements as explicit zero markers
				a := make([]*Term, n)
				for x := range a {
					a[x] = mkZeroElem(v)
				}
				a[j] = v
				return mk(KLit, "", 0, nil, nil, nil, a...)
			}
		}
	}
	if s.k == KConcat {
		pos := mkInt(0)
		for x, p := range s.args {
			end := tAdd(pos, mkLen(p))
			if geq(i, pos) && geq(tSub(end, mkInt(1)), i) {
				a := append([]*Term{}, s.args...)
				a[x] = mkUpd(p, tSub(i, pos), v)
				return mkConcat(a...)
			}
			if !geq(i, end) {
				break
			}
			pos = end
		}
	}
	if s.k == KUpd && s.args[1] == i {
		return mkUpd(s.args[0], i, v)
	}
	return mk(KUpd, "", 0, s.typ, nil, nil, s, i, v)
}

func mkZeroElem(like *Term) *Term {
	if like.typ != nil {
		return zeroOf(like.typ)
	}
	switch like.k {
	case KIface, KNil:
		return tNil
	}
	return mkInt(0)
}

// ---------------------------------------------------------------- structs

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func mkField(x *Term, i int, t types.Type) *Term {
	if x.k == KStruct {
		return x.args[i]
	}
	return mk(KField, "", i, t, nil, nil, x)
}

func mkStruct(t types.Type, fields ...*Term) *Term {
	// Struct(T, f0(b), f1(b), ...) is b.
	if len(fields) > 0 && fields[0].k == KField && fields[0].n == 0 {
		b := fields[0].args[0]
		same := b.typ != nil && types.Identical(b.typ, t)
		for i, f := range fields {
			if f.k != KField || f.n != i || f.args[0] != b {
				same = false
				break
			}
		}
		if same {
			return b
		}
	}
	return mk(KStruct, "", 0, t, nil, nil, fields...)
}

func withField(x *Term, t types.Type, i int, v *Term) *Term {
	st := structOf(t)
	if st == nil {
		return mk(KApp, "withField", i, t, nil, nil, x, v)
	}
	f := make([]*Term, st.NumFields())
	for j := range f {
		f[j] = mkField(x, j, st.Field(j).Type())
	}
	f[i] = v
	return mkStruct(t, f...)
}

// ---------------------------------------------------------------- booleans

func isSentinel(t *Term) bool { return t.k == KApp && t.op == "sentinel" }

// repoSentinel says the term is an error value declared in the repository.
func repoSentinel(t *Term) bool {
	g, ok := t.obj.(*ssa.Global)
	return isSentinel(t) && ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path()+"/", modPath+"/")
}

// foreignErr says the term is an error made by a library, which cannot be one of the repository's error values.
func foreignErr(t *Term) bool {
	if t.k == KApp {
		switch t.op {
		case "json.UnmarshalErr", "gcm.OpenErr", "errors.New":
			return true
		}
	}
	if t.k == KRes {
		switch c := t.args[0]; c.op {
		case "json.Marshal", "uuid.NewV4", "uuid.FromString":
			return c.k == KApp || c.k == KEv
		}
	}
	return false
}

// nonNil says the term certainly is not nil.
func nonNil(t *Term) bool {
	switch t.k {
	case KIface, KObj, KFieldAddr, KElemAddr, KGlobal, KClosure, KFunc, KPtrTo:
		if t.k == KObj && t.op == "loop" {
			return false
		}
		return true
	case KSlice:
		if t.args[0].k == KObj && t.args[0].op != "loop" && t.op != "n" {
			return true
		}
	case KApp:
		switch t.op {
		case "sentinel", "errors.New", "fmt.Errorf":
			return true
		}
	}
	return false
}

func mkNot(t *Term) *Term {
	if t == tTrue {
		return tFalse
	}
	if t == tFalse {
		return tTrue
	}
	if t.k == KUn && t.op == "!" {
		return t.args[0]
	}
	return mk(KUn, "!", 0, types.Typ[types.Bool], nil, nil, t)
}

func mkBinRaw(op string, typ types.Type, a, b *Term) *Term {
	return mk(KBin, op, 0, typ, nil, nil, a, b)
}

func intLike(t *Term) bool {
	if t.k == KLin || t.k == KLen {
		return true
	}
	if t.k == KConst {
		return t.c.Kind() == constant.Int
	}
	return t.typ != nil && isInt(t.typ)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if intLike(a) && intLike(b) {
		d := tSub(a, b)
		if v, ok := d.intVal(); ok {
			return mkBool(v == 0)
		}
		if mo, m, _, _ := boundsOf(d); mo && m > 0 {
			return tFalse
		}
		if _, _, xo, x := boundsOf(d); xo && x < 0 {
			return tFalse
		}
		// canonical sign: first coefficient positive
		if g := content(d); g > 1 {
			if int64(d.n)%g != 0 {
				return tFalse
			}
			d = reduced(d)
		}
		l := linOf(d)
		dt := d
		if dt.k == KLin {
			first := l.coefs[dt.args[0]]
			if first < 0 {
				dt = linMul(d, -1)
			}
		}
		return mkBinRaw("==", types.Typ[types.Bool], dt, mkInt(0))
	}
	if a.k == KConst && b.k == KConst {
		if a.c.Kind() == b.c.Kind() {
			return mkBool(constant.Compare(a.c, token.EQL, b.c))
		}
	}
	if a.k == KNil {
		a, b = b, a
	}
	if b.k == KNil {
		if nonNil(a) {
			return tFalse
		}
		if a.k == KSlice && a.op == "n" {
			return mkEq(tSub(a.args[2], a.args[1]), mkInt(0))
		}
		return mkBinRaw("==", types.Typ[types.Bool], a, b)
	}
	// bool == const
	if b == tTrue || b == tFalse {
		a, b = b, a
	}
	if a == tTrue {
		return b
	}
	if a == tFalse {
		return mkNot(b)
	}
	// string == "" is len == 0
	if sv, ok := b.strVal(); ok && sv == "" {
		return mkEq(mkLen(a), mkInt(0))
	}
	if sv, ok := a.strVal(); ok && sv == "" {
		return mkEq(mkLen(b), mkInt(0))
	}
	if isSentinel(a) && isSentinel(b) || foreignErr(a) && repoSentinel(b) || foreignErr(b) && repoSentinel(a) {
		return tFalse
	}
	if a.k == KIface && b.k == KIface {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.k == KStruct && b.k == KStruct && len(a.args) == len(b.args) && len(a.args) > 0 {
		var open []*Term
		for i := range a.args {
			switch e := mkEq(a.args[i], b.args[i]); e {
			case tTrue:
			case tFalse:
				return tFalse
			default:
				open = append(open, e)
			}
		}
		switch len(open) {
		case 0:
			return tTrue
		case 1:
			return open[0]
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkBinRaw("==", types.Typ[types.Bool], a, b)
}

// content is the greatest common divisor of the coefficients.
func content(d *Term) int64 {
	if d.k != KLin {
		return 1
	}
	var g int64
	for _, c := range linOf(d).coefs {
		g = gcd64(g, abs64(c))
	}
	return g
}

// reduced divides a sum by what its coefficients have in common; the result is negative exactly when the sum is, and zero
// when the sum is zero.
func reduced(d *Term) *Term {
	g := content(d)
	if g <= 1 {
		return d
	}
	l := linOf(d)
	n := l.c / g
	if l.c < 0 && l.c%g != 0 {
		n--
	}
	r := lin{c: n, coefs: map[*Term]int64{}}
	for a, c := range l.coefs {
		r.coefs[a] = c / g
	}
	return r.term()
}

// isTimeSub says a term is x.Sub(y) or x.Compare(y) of two times.
func isTimeSub(t *Term) bool {
	return t.k == KApp && len(t.args) == 2 && (t.op == "time.Time.Sub" || t.op == "time.Time.Compare")
}

// mkLt is a < b.
func mkLt(a, b *Term) *Term {
	// a difference of two times compared with zero
	if z, ok := a.intVal(); ok && z == 0 && isTimeSub(b) {
		return app("time.Time.Before", types.Typ[types.Bool], b.args[1], b.args[0])
	}
	if z, ok := b.intVal(); ok && z == 0 && isTimeSub(a) {
		return app("time.Time.Before", types.Typ[types.Bool], a.args[0], a.args[1])
	}
	if intLike(a) && intLike(b) {
		d := tSub(a, b)
		if v, ok := d.intVal(); ok {
			return mkBool(v < 0)
		}
		if mo, m, _, _ := boundsOf(d); mo && m >= 0 {
			return tFalse
		}
		if _, _, xo, x := boundsOf(d); xo && x < 0 {
			return tTrue
		}
		d = reduced(d)
		return mk(KUn, "<0", 0, types.Typ[types.Bool], nil, nil, d)
	}
	return mkBinRaw("<", types.Typ[types.Bool], a, b)
}

func unsignedType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func mkBin(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	}
	if a.k == KConst && b.k == KConst {
		switch op {
		case token.ADD:
			if isString(typ) {
				return mkConcat(a, b)
			}
			return mk(KConst, "", 0, typ, constant.BinaryOp(a.c, op, b.c), nil)
		case token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			r := constant.BinaryOp(a.c, op, b.c)
			if unsignedType(typ) && constant.Sign(r) < 0 {
				break
			}
			return mk(KConst, "", 0, typ, r, nil)
		case token.QUO:
			if isInt(typ) && constant.Sign(b.c) != 0 {
				return mk(KConst, "", 0, typ, constant.BinaryOp(a.c, token.QUO_ASSIGN, b.c), nil)
			}
		case token.REM:
			if constant.Sign(b.c) != 0 {
				return mk(KConst, "", 0, typ, constant.BinaryOp(a.c, op, b.c), nil)
			}
		case token.SHL, token.SHR:
			if n, ok := b.intVal(); ok && n >= 0 && n < 64 {
				return mk(KConst, "", 0, typ, constant.Shift(a.c, op, uint(n)), nil)
			}
		}
	}
	switch op {
	case token.SHR:
		if n, ok := b.intVal(); ok && n > 0 {
			if r := decoded(a, n, 64); r != nil {
				return r
			}
		}
	case token.ADD:
		if isString(typ) {
			return mkConcat(a, b)
		}
		if isInt(typ) {
			return tAdd(a, b)
		}
	case token.SUB:
		if isInt(typ) {
			return tSub(a, b)
		}
	case token.MUL:
		if isInt(typ) {
			if v, ok := a.intVal(); ok {
				return linMul(b, v)
			}
			if v, ok := b.intVal(); ok {
				return linMul(a, v)
			}
		}
	case token.AND, token.OR, token.XOR:
		// the first element and the union of the rest
		for i := 0; op == token.OR && i < 2; i++ {
			if b.k == KApp && b.op == "orAll" && isZeroInt(b.args[0]) && b.args[1].k == KSub && b.args[1].args[1] == mkInt(1) {
				if xs := b.args[1].args[0]; b.args[1].args[2] == mkLen(xs) && a == mkElem(xs, mkInt(0), a.typ) {
					return app("orAll", b.typ, b.args[0], xs)
				}
			}
			a, b = b, a
		}
		if op == token.OR && a == b || op == token.AND && a == b {
			return a
		}
		if v, ok := b.intVal(); ok && v == 0 {
			if op == token.AND {
				return b
			}
			return a
		}
		if v, ok := a.intVal(); ok && v == 0 {
			if op == token.AND {
				return a
			}
			return b
		}
		if op == token.AND {
			for i, m := range []*Term{a, b} {
				if v, ok := m.intVal(); ok && v > 0 && v&(v+1) == 0 {
					if r := decoded([]*Term{b, a}[i], 0, int64(bits.Len64(uint64(v)))); r != nil {
						return r
					}
				}
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mk(KBin, op.String(), 0, typ, nil, nil, a, b)
}

// decoded is n bits from the given one on of an integer that was read from bytes, as one read from fewer of them.
func decoded(v *Term, from, n int64) *Term {
	if v.k != KApp || len(v.args) != 1 || !strings.HasPrefix(v.op, "frombe") && !strings.HasPrefix(v.op, "fromle") {
		return nil
	}
	w, err := strconv.ParseInt(v.op[6:], 10, 64)
	if err != nil || from < 0 {
		return nil
	}
	if n > w-from {
		n = w - from
	}
	if n == w {
		return v
	}
	if from%8 != 0 || n <= 0 {
		return nil
	}
	lo := from / 8
	if v.op[4] == 'b' {
		lo = (w - from - n) / 8
	}
	switch n {
	case 8:
		return mkElem(v.args[0], mkInt(lo), types.Typ[types.Byte])
	case 16:
		return app(v.op[:6]+"16", types.Typ[types.Uint16], mkSub(v.args[0], mkInt(lo), mkInt(lo+2)))
	case 32:
		return app(v.op[:6]+"32", types.Typ[types.Uint32], mkSub(v.args[0], mkInt(lo), mkInt(lo+4)))
	}
	return nil
}

// ---------------------------------------------------------------- maps

func mkMSet(m, k, v *Term) *Term {
	if m.k == KMSet && m.args[1] == k {
		m = m.args[0]
	}
	return mk(KMSet, "", 0, nil, nil, nil, m, k, v)
}

func mkMSetAll(m, seq, v *Term) *Term {
	if isEmptySeq(seq) {
		return m
	}
	if seq.k == KLit {
		for _, e := range seq.args {
			m = mkMSet(m, e, v)
		}
		return m
	}
	if seq.k == KConcat {
		for _, e := range seq.args {
			m = mkMSetAll(m, e, v)
		}
		return m
	}
	if seq.k == KApp && seq.op == "keys" {
		// the keys of a map made by setting a few of them
		var ks []*Term
		x := seq.args[0]
		for x.k == KMSet {
			ks, x = append(ks, x.args[1]), x.args[0]
		}
		if x.k == KMEmpty || x.k == KNil {
			for i := len(ks) - 1; i >= 0; i-- {
				m = mkMSet(m, ks[i], v)
			}
			return m
		}
	}
	return mk(KMSetAll, "", 0, nil, nil, nil, m, seq, v)
}

func mkMDel(m, k *Term) *Term { return mk(KMDel, "", 0, nil, nil, nil, m, k) }

func mkMDelAll(m, seq *Term) *Term {
	if isEmptySeq(seq) {
		return m
	}
	if seq.k == KLit {
		for _, e := range seq.args {
			m = mkMDel(m, e)
		}
		return m
	}
	if seq.k == KConcat {
		for _, e := range seq.args {
			m = mkMDelAll(m, e)
		}
		return m
	}
	return mk(KMDelAll, "", 0, nil, nil, nil, m, seq)
}

// mkLookup is m[k]; eq decides equality of keys when it can.
func mkLookup(m, k *Term, typ types.Type, eq func(a, b *Term) int) *Term {
	switch m.k {
	case KNil, KMEmpty:
		return zeroOf(typ)
	case KMSet:
		switch eq(m.args[1], k) {
		case 1:
			return m.args[2]
		case 0:
			return mkLookup(m.args[0], k, typ, eq)
		}
	case KMDel:
		switch eq(m.args[1], k) {
		case 1:
			return zeroOf(typ)
		case 0:
			return mkLookup(m.args[0], k, typ, eq)
		}
	}
	return mk(KLookup, "", 0, typ, nil, nil, m, k)
}

func mkLookupOk(m, k *Term, eq func(a, b *Term) int) *Term {
	switch m.k {
	case KNil, KMEmpty:
		return tFalse
	case KMSet:
		switch eq(m.args[1], k) {
		case 1:
			return tTrue
		case 0:
			return mkLookupOk(m.args[0], k, eq)
		default:
			if mkLookupOk(m.args[0], k, eq) == tTrue {
				return tTrue
			}
		}
	case KMDel:
		switch eq(m.args[1], k) {
		case 1:
			return tFalse
		case 0:
			return mkLookupOk(m.args[0], k, eq)
		default:
			if mkLookupOk(m.args[0], k, eq) == tFalse {
				return tFalse
			}
		}
	}
	return mk(KLookupOk, "", 0, types.Typ[types.Bool], nil, nil, m, k)
}

// ---------------------------------------------------------------- traversal

// walk visits t and its subterms once each; it stops descending when f returns false.
func walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

func contains(t, sub *Term) bool {
	found := false
	walk(t, func(x *Term) bool {
		if x == sub {
			found = true
		}
		return !found
	})
	return found
}

func anyTerm(t *Term, p func(*Term) bool) bool {
	found := false
	walk(t, func(x *Term) bool {
		if p(x) {
			found = true
		}
		return !found
	})
	return found
}

var arithTok = map[string]token.Token{"*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR, "&^": token.AND_NOT}

// rebuild re-creates a term with new arguments through the simplifying constructors.
func rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.args[i] {
			same = false
		}
	}
	if same {
		return t
	}
	eq := func(a, b *Term) int { return constEq(a, b) }
	switch t.k {
	case KField:
		return mkField(args[0], t.n, t.typ)
	case KElem:
		return mkElem(args[0], args[1], t.typ)
	case KLookup:
		return mkLookup(args[0], args[1], t.typ, eq)
	case KLookupOk:
		return mkLookupOk(args[0], args[1], eq)
	case KBin:
		switch t.op {
		case "==":
			return mkEq(args[0], args[1])
		case "<":
			return mkLt(args[0], args[1])
		}
		if tok, ok := arithTok[t.op]; ok {
			return mkBin(tok, args[0], args[1], t.typ)
		}
	case KConv:
		if args[0].k == KConst {
			if v, ok := evalArith(mk(t.k, t.op, t.n, t.typ, t.c, t.obj, args...), nil); ok {
				return mkInt(v)
			}
		}
	case KUn:
		switch t.op {
		case "!":
			return mkNot(args[0])
		case "<0":
			return mkLt(args[0], mkInt(0))
		}
	case KLin:
		r := mkInt(int64(t.n))
		for i, s := range strings.Split(t.op, ",") {
			v, _ := strconv.ParseInt(s, 10, 64)
			r = tAdd(r, linMul(args[i], v))
		}
		return r
	case KStruct:
		return mkStruct(t.typ, args...)
	case KZeros:
		return mkZeros(args[0])
	case KConcat:
		return mkConcat(args...)
	case KSub:
		return mkSub(args[0], args[1], args[2])
	case KLit:
		return mkLit(args...)
	case KUpd:
		return mkUpd(args[0], args[1], args[2])
	case KMSet:
		return mkMSet(args[0], args[1], args[2])
	case KMSetAll:
		return mkMSetAll(args[0], args[1], args[2])
	case KMDelAll:
		return mkMDelAll(args[0], args[1])
	case KLen:
		return mkLen(args[0])
	case KRes:
		return res(t.n, t.typ, args[0])
	}
	return mk(t.k, t.op, t.n, t.typ, t.c, t.obj, args...)
}

// subst replaces subterms bottom-up; f returns nil to keep the (rebuilt) term.
func subst(t *Term, f func(*Term) *Term) *Term {
	return newSubst(f).do(t)
}

type substituter struct {
	memo map[*Term]*Term
	f    func(*Term) *Term
}

func newSubst(f func(*Term) *Term) *substituter {
	return &substituter{memo: map[*Term]*Term{}, f: f}
}

func (s *substituter) do(t *Term) *Term {
	if r, ok := s.memo[t]; ok {
		return r
	}
	if r := s.f(t); r != nil {
		s.memo[t] = r
		return r
	}
	r := t
	if len(t.args) > 0 {
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = s.do(a)
		}
		r = rebuild(t, args)
	}
	s.memo[t] = r
	return r
}

// constEq: 1 equal, 0 different, -1 unknown.
func constEq(a, b *Term) int {
	e := mkEq(a, b)
	if e == tTrue {
		return 1
	}
	if e == tFalse {
		return 0
	}
	return -1
}

// ---------------------------------------------------------------- printing

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if d <= 0 {
		return "…"
	}
	list := func(ts []*Term) string {
		var s []string
		for _, a := range ts {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.k {
	case KConst:
		return t.c.String()
	case KNil:
		return "nil"
	case KParam:
		return t.obj.(*ssa.Parameter).Name()
	case KGlobal:
		return "&" + t.obj.(*ssa.Global).Name()
	case KApp:
		if t.op == "sentinel" {
			return t.obj.(*ssa.Global).Pkg.Pkg.Name() + "." + t.obj.(*ssa.Global).Name()
		}
		return t.op + "(" + list(t.args) + ")"
	case KRes:
		return t.args[0].str(d) + fmt.Sprintf(".%d", t.n)
	case KEv:
		return fmt.Sprintf("%s@%d(%s)", t.op, t.n, list(t.args))
	case KField:
		if st := structOf(t.args[0].typ); st != nil && t.n < st.NumFields() {
			return t.args[0].str(d) + "." + st.Field(t.n).Name()
		}
		return t.args[0].str(d) + fmt.Sprintf(".f%d", t.n)
	case KElem:
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case KLookup:
		return t.args[0].str(d-1) + "{" + t.args[1].str(d-1) + "}"
	case KLookupOk:
		return "(" + t.args[1].str(d-1) + " in " + t.args[0].str(d-1) + ")"
	case KBin:
		return "(" + t.args[0].str(d-1) + " " + t.op + " " + t.args[1].str(d-1) + ")"
	case KUn:
		return "(" + t.op + " " + t.args[0].str(d-1) + ")"
	case KLin:
		cs := strings.Split(t.op, ",")
		s := ""
		for i, a := range t.args {
			if i > 0 {
				s += "+"
			}
			if cs[i] != "1" {
				s += cs[i] + "*"
			}
			s += a.str(d - 1)
		}
		if t.n != 0 {
			s += fmt.Sprintf("%+d", t.n)
		}
		return "(" + s + ")"
	case KStruct:
		return shortType(t.typ) + "{" + list(t.args) + "}"
	case KIface:
		return "iface(" + shortType(t.typ) + " " + t.args[0].str(d-1) + ")"
	case KPtrTo:
		return "&" + t.args[0].str(d-1)
	case KObj:
		return fmt.Sprintf("obj%d", t.id)
	case KFieldAddr:
		return fmt.Sprintf("&%s.f%d", t.args[0].str(d-1), t.n)
	case KElemAddr:
		return "&" + t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case KSlice:
		return "slice(" + list(t.args) + ")"
	case KZeros:
		return "zeros(" + list(t.args) + ")"
	case KConcat:
		return "<" + list(t.args) + ">"
	case KSub:
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + ":" + t.args[2].str(d-1) + "]"
	case KLit:
		return "[" + list(t.args) + "]"
	case KUpd:
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + ":=" + t.args[2].str(d-1) + "]"
	case KMEmpty:
		return "map{}"
	case KMSet:
		return t.args[0].str(d) + "+{" + t.args[1].str(d-1) + "}"
	case KMDel:
		return t.args[0].str(d) + "-{" + t.args[1].str(d-1) + "}"
	case KMSetAll:
		return t.args[0].str(d) + "+all{" + t.args[1].str(d-1) + "}"
	case KMDelAll:
		return t.args[0].str(d) + "-all{" + t.args[1].str(d-1) + "}"
	case KClosure, KFunc:
		return t.obj.(*ssa.Function).Name()
	case KLoop:
		return fmt.Sprintf("loop%d.%s", t.n, t.op)
	case KRangeKey:
		return fmt.Sprintf("key%d", t.n) + t.op
	case KRangeOk:
		return fmt.Sprintf("more%d", t.n) + t.op
	case KDeref:
		return "*" + t.args[0].str(d)
	case KLen:
		return "len(" + t.args[0].str(d-1) + ")"
	case KTuple:
		return "(" + list(t.args) + ")"
	case KConv:
		return shortType(t.typ) + "(" + t.args[0].str(d-1) + ")"
	case KNew:
		return fmt.Sprintf("new%d", t.n) + t.op
	}
	return "?"
}
