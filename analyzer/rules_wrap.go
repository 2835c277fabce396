package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
	"sync"
)

// ---------------------------------------------------------------- the wrapping permutation, byte by byte

// sbyte is a byte of the dataflow: the exclusive or of a constant and of bytes that are not looked into.
type sbyte struct {
	c uint8
	n uint8
	a [4]uint32 // sorted; source<<16 | position
}

const sbyteBad = 255

func constByte(c uint8) sbyte { return sbyte{c: c} }
func atomByte(src uint32, pos int64) sbyte {
	if pos < 0 || pos > 65535 {
		return sbyte{n: sbyteBad}
	}
	return sbyte{n: 1, a: [4]uint32{src<<16 | uint32(pos)}}
}

func (x sbyte) bad() bool { return x.n == sbyteBad }

func (x sbyte) xor(y sbyte) sbyte {
	if x.bad() || y.bad() {
		return sbyte{n: sbyteBad}
	}
	r := sbyte{c: x.c ^ y.c}
	i, j := uint8(0), uint8(0)
	for i < x.n || j < y.n {
		var v uint32
		switch {
		case j == y.n || i < x.n && x.a[i] < y.a[j]:
			v = x.a[i]
			i++
		case i == x.n || y.a[j] < x.a[i]:
			v = y.a[j]
			j++
		default:
			i++
			j++
			continue
		}
		if r.n == 4 {
			return sbyte{n: sbyteBad}
		}
		r.a[r.n] = v
		r.n++
	}
	return r
}

// atom is the one byte x stands for, when nothing is mixed in.
func (x sbyte) atom() (src uint32, pos int64, ok bool) {
	if x.n != 1 || x.c != 0 {
		return 0, 0, false
	}
	return x.a[0] >> 16, int64(x.a[0] & 65535), true
}

type intFn func(env []int64) (int64, bool)
type byteFn func(env []int64, i int64) sbyte
type cutFn func(env []int64, shift int64, add func(int64))

// layout turns terms into functions from the values of the counters to bytes.
type layout struct {
	slots map[*Term]int    // counters and lengths
	src   map[*Term]uint32 // sequences and block outputs that are not looked into
	ints  map[*Term]intFn
	seqs  map[*Term]byteFn
	ibs   map[*Term]byteFn
	cuts_ map[*Term]cutFn
}

func newLayout() *layout {
	return &layout{slots: map[*Term]int{}, src: map[*Term]uint32{}, ints: map[*Term]intFn{}, seqs: map[*Term]byteFn{}, ibs: map[*Term]byteFn{}, cuts_: map[*Term]cutFn{}}
}

func (l *layout) slot(t *Term) int {
	if s, ok := l.slots[t]; ok {
		return s
	}
	l.slots[t] = len(l.slots)
	return len(l.slots) - 1
}

func (l *layout) source(t *Term) uint32 {
	if s, ok := l.src[t]; ok {
		return s
	}
	l.src[t] = uint32(len(l.src) + 1)
	return l.src[t]
}

// width is the size in bytes of an integer type, and whether it is unsigned.
func width(t types.Type) (int64, bool) {
	if t == nil {
		return 8, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 8, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 1, true
	case types.Uint16:
		return 2, true
	case types.Uint32:
		return 4, true
	case types.Int8:
		return 1, false
	case types.Int16:
		return 2, false
	case types.Int32:
		return 4, false
	}
	return 8, b.Info()&types.IsUnsigned != 0
}

// int compiles an integer that only depends on counters and lengths; nil for any other.
func (l *layout) int(t *Term) intFn {
	if f, ok := l.ints[t]; ok {
		return f
	}
	l.ints[t] = nil
	f := l.int1(t)
	l.ints[t] = f
	return f
}

func (l *layout) int1(t *Term) intFn {
	if i, ok := l.slots[t]; ok {
		return func(env []int64) (int64, bool) { return env[i], true }
	}
	switch t.k {
	case KConst:
		v, ok := t.intVal()
		if !ok && t.c.Kind() == constant.Int {
			// beyond the signed integers
			var u uint64
			u, ok = constant.Uint64Val(t.c)
			v = int64(u)
		}
		if !ok {
			return nil
		}
		return func([]int64) (int64, bool) { return v, true }
	case KConv:
		f := l.int(t.args[0])
		if f == nil {
			return nil
		}
		w, uns := width(t.typ)
		if w == 8 {
			return f
		}
		return func(env []int64) (int64, bool) {
			v, ok := f(env)
			sh := uint(64 - 8*w)
			if uns {
				return int64(uint64(v) << sh >> sh), ok
			}
			return v << sh >> sh, ok
		}
	case KLin:
		var fs []intFn
		var cs []int64
		for i, s := range strings.Split(t.op, ",") {
			c, _ := strconv.ParseInt(s, 10, 64)
			f := l.int(t.args[i])
			if f == nil {
				return nil
			}
			fs, cs = append(fs, f), append(cs, c)
		}
		n := int64(t.n)
		return func(env []int64) (int64, bool) {
			r, ok := n, true
			for i, f := range fs {
				v, o := f(env)
				r += cs[i] * v
				ok = ok && o
			}
			return r, ok
		}
	case KUn:
		f := l.int(t.args[0])
		if f == nil {
			return nil
		}
		switch t.op {
		case "-":
			return func(env []int64) (int64, bool) { v, ok := f(env); return -v, ok }
		case "^":
			return func(env []int64) (int64, bool) { v, ok := f(env); return ^v, ok }
		}
		return nil
	case KApp:
		if t.op == "min" && len(t.args) == 2 {
			f, g := l.int(t.args[0]), l.int(t.args[1])
			if f == nil || g == nil {
				return nil
			}
			return func(env []int64) (int64, bool) {
				a, o := f(env)
				b, p := g(env)
				if b < a {
					a = b
				}
				return a, o && p
			}
		}
		return nil
	case KBin:
		f, g := l.int(t.args[0]), l.int(t.args[1])
		if f == nil || g == nil {
			return nil
		}
		op := t.op
		return func(env []int64) (int64, bool) {
			a, o := f(env)
			b, p := g(env)
			if !o || !p {
				return 0, false
			}
			switch op {
			case "%":
				if b != 0 {
					return a % b, true
				}
			case "/":
				if b != 0 {
					return a / b, true
				}
			case "&":
				return a & b, true
			case "|":
				return a | b, true
			case "^":
				return a ^ b, true
			case "&^":
				return a &^ b, true
			case "<<":
				return a << uint(b), true
			case ">>":
				return a >> uint(b), true
			case "*":
				return a * b, true
			}
			return 0, false
		}
	}
	return nil
}

// cond compiles a condition on counters and lengths; nil for any other.
func (l *layout) cond(t *Term) func(env []int64) (bool, bool) {
	switch {
	case t == tTrue, t == tFalse:
		return func([]int64) (bool, bool) { return t == tTrue, true }
	case t.k == KUn && t.op == "!":
		f := l.cond(t.args[0])
		if f == nil {
			return nil
		}
		return func(env []int64) (bool, bool) { v, ok := f(env); return !v, ok }
	case t.k == KUn && t.op == "<0":
		f := l.int(t.args[0])
		if f == nil {
			return nil
		}
		return func(env []int64) (bool, bool) { v, ok := f(env); return v < 0, ok }
	case t.k == KBin && t.op == "==":
		f, g := l.int(t.args[0]), l.int(t.args[1])
		if f == nil || g == nil {
			return nil
		}
		return func(env []int64) (bool, bool) {
			a, o := f(env)
			b, p := g(env)
			return a == b, o && p
		}
	}
	return nil
}

// ib compiles an integer to its bytes, the least significant one first; nil when that is not possible.
func (l *layout) ib(t *Term) byteFn {
	if f, ok := l.ibs[t]; ok {
		return f
	}
	l.ibs[t] = nil
	f := l.ib1(t)
	l.ibs[t] = f
	return f
}

func (l *layout) ib1(t *Term) byteFn {
	if f := l.int(t); f != nil {
		return func(env []int64, i int64) sbyte {
			v, ok := f(env)
			if !ok {
				return sbyte{n: sbyteBad}
			}
			if i > 7 {
				i = 7
				if v >= 0 {
					return sbyte{}
				}
			}
			return constByte(uint8(v >> uint(8*i)))
		}
	}
	if s, ok := l.src[t]; ok {
		return func(env []int64, i int64) sbyte {
			if i > 7 {
				return sbyte{}
			}
			return atomByte(s, 7-i)
		}
	}
	switch t.k {
	case KElem:
		s, x := l.seq(t.args[0]), l.int(t.args[1])
		if s == nil || x == nil {
			return nil
		}
		return func(env []int64, i int64) sbyte {
			if i > 0 {
				return sbyte{}
			}
			v, ok := x(env)
			if !ok {
				return sbyte{n: sbyteBad}
			}
			return s(env, v)
		}
	case KConv:
		f := l.ib(t.args[0])
		if f == nil {
			return nil
		}
		w, uns := width(t.typ)
		if w < 8 && !uns {
			return nil
		}
		return func(env []int64, i int64) sbyte {
			if i >= w {
				return sbyte{}
			}
			return f(env, i)
		}
	case KApp:
		n := map[string]int64{"frombe16": 2, "frombe32": 4, "frombe64": 8, "fromle16": 2, "fromle32": 4, "fromle64": 8}[t.op]
		if n == 0 {
			return nil
		}
		s := l.seq(t.args[0])
		if s == nil {
			return nil
		}
		be := strings.HasPrefix(t.op, "frombe")
		return func(env []int64, i int64) sbyte {
			if i >= n {
				return sbyte{}
			}
			if be {
				return s(env, n-1-i)
			}
			return s(env, i)
		}
	case KBin:
		switch t.op {
		case ">>", "<<":
			f := l.ib(t.args[0])
			by := l.int(t.args[1])
			if f == nil || by == nil {
				return nil
			}
			right := t.op == ">>"
			w, _ := width(t.typ)
			return func(env []int64, i int64) sbyte {
				c, ok := by(env)
				if !ok || c%8 != 0 || c < 0 {
					return sbyte{n: sbyteBad}
				}
				if right {
					i += c / 8
				} else {
					if i >= w {
						return sbyte{}
					}
					i -= c / 8
				}
				if i < 0 || i > 7 {
					return sbyte{}
				}
				return f(env, i)
			}
		case "^", "|", "&", "&^":
			f, g := l.ib(t.args[0]), l.ib(t.args[1])
			if f == nil || g == nil {
				return nil
			}
			op := t.op
			return func(env []int64, i int64) sbyte {
				a, b := f(env, i), g(env, i)
				if a.bad() || b.bad() {
					return sbyte{n: sbyteBad}
				}
				if op == "^" {
					return a.xor(b)
				}
				if a.n == 0 && b.n == 0 {
					switch op {
					case "|":
						return constByte(a.c | b.c)
					case "&":
						return constByte(a.c & b.c)
					}
					return constByte(a.c &^ b.c)
				}
				if op == "&^" {
					if b.n != 0 {
						return sbyte{n: sbyteBad}
					}
					b.c = ^b.c
				}
				if b.n != 0 && a.n == 0 {
					a, b = b, a
				}
				if b.n != 0 {
					return sbyte{n: sbyteBad}
				}
				switch {
				case op == "|" && b.c == 0, op != "|" && b.c == 255:
					return a
				case op != "|" && b.c == 0:
					return sbyte{}
				}
				return sbyte{n: sbyteBad}
			}
		}
	case KLin:
		// parts that do not overlap may as well be added; only a plain copy is followed
		return nil
	}
	return nil
}

// seq compiles a byte sequence; nil when some part of it is not followed.
func (l *layout) seq(t *Term) byteFn {
	if f, ok := l.seqs[t]; ok {
		return f
	}
	l.seqs[t] = nil
	f := l.seq1(t)
	l.seqs[t] = f
	return f
}

func (l *layout) seq1(t *Term) byteFn {
	if s, ok := l.src[t]; ok {
		return func(env []int64, i int64) sbyte { return atomByte(s, i) }
	}
	if s, ok := t.strVal(); ok {
		return func(env []int64, i int64) sbyte {
			if i < 0 || i >= int64(len(s)) {
				return sbyte{n: sbyteBad}
			}
			return constByte(s[i])
		}
	}
	switch t.k {
	case KZeros:
		return func([]int64, int64) sbyte { return sbyte{} }
	case KConcat:
		var fs []byteFn
		var ns []intFn
		for _, p := range t.args {
			f, n := l.seq(p), l.int(mkLen(p))
			if f == nil || n == nil {
				return nil
			}
			fs, ns = append(fs, f), append(ns, n)
		}
		return func(env []int64, i int64) sbyte {
			for j, f := range fs {
				n, ok := ns[j](env)
				if !ok || i < 0 {
					break
				}
				if i < n {
					return f(env, i)
				}
				i -= n
			}
			return sbyte{n: sbyteBad}
		}
	case KSub:
		f, lo := l.seq(t.args[0]), l.int(t.args[1])
		if f == nil || lo == nil {
			return nil
		}
		return func(env []int64, i int64) sbyte {
			v, ok := lo(env)
			if !ok {
				return sbyte{n: sbyteBad}
			}
			return f(env, v+i)
		}
	case KLit:
		var fs []byteFn
		for _, p := range t.args {
			f := l.ib(p)
			if f == nil {
				return nil
			}
			fs = append(fs, f)
		}
		return func(env []int64, i int64) sbyte {
			if i < 0 || i >= int64(len(fs)) {
				return sbyte{n: sbyteBad}
			}
			return fs[i](env, 0)
		}
	case KUpd:
		f, x, v := l.seq(t.args[0]), l.int(t.args[1]), l.ib(t.args[2])
		if f == nil || x == nil || v == nil {
			return nil
		}
		return func(env []int64, i int64) sbyte {
			at, ok := x(env)
			if !ok {
				return sbyte{n: sbyteBad}
			}
			if at == i {
				return v(env, 0)
			}
			return f(env, i)
		}
	case KApp:
		switch t.op {
		case "pooled": // nobody knows what it holds
			return func([]int64, int64) sbyte { return sbyte{n: sbyteBad} }
		case "blk16":
			if s, ok := l.src[t.args[0]]; ok {
				return func(env []int64, i int64) sbyte {
					if i > 15 {
						return sbyte{n: sbyteBad}
					}
					return atomByte(s, i)
				}
			}
		case "copied":
			if len(t.args) != 3 {
				return nil
			}
			d, off, s := l.seq(t.args[0]), l.int(t.args[1]), l.seq(t.args[2])
			dn, sn := l.int(mkLen(t.args[0])), l.int(mkLen(t.args[2]))
			if d == nil || off == nil || s == nil || dn == nil || sn == nil {
				return nil
			}
			return func(env []int64, i int64) sbyte {
				o, k1 := off(env)
				n, k2 := sn(env)
				m, k3 := dn(env)
				if !k1 || !k2 || !k3 {
					return sbyte{n: sbyteBad}
				}
				if o <= i && i < o+n && i < m {
					return s(env, i-o)
				}
				return d(env, i)
			}
		case "be16", "be32", "be64", "le16", "le32", "le64":
			bits, _ := strconv.ParseInt(t.op[2:], 10, 64)
			n := bits / 8
			f := l.ib(t.args[0])
			if f == nil {
				return nil
			}
			be := t.op[0] == 'b'
			return func(env []int64, i int64) sbyte {
				if i < 0 || i >= n {
					return sbyte{n: sbyteBad}
				}
				if be {
					i = n - 1 - i
				}
				return f(env, i)
			}
		}
	}
	return nil
}

// cuts compiles where the pieces of a sequence begin: between two cuts it is one stretch of a source, or zeros.
func (l *layout) cuts(t *Term) cutFn {
	if f, ok := l.cuts_[t]; ok {
		return f
	}
	none := func([]int64, int64, func(int64)) {}
	l.cuts_[t] = none
	f := none
	switch {
	case l.src[t] != 0:
	case t.k == KConcat:
		var fs []cutFn
		var ns []intFn
		for _, p := range t.args {
			fs, ns = append(fs, l.cuts(p)), append(ns, l.int(mkLen(p)))
		}
		f = func(env []int64, shift int64, add func(int64)) {
			for i, f := range fs {
				add(shift)
				f(env, shift, add)
				if ns[i] == nil {
					return
				}
				n, _ := ns[i](env)
				shift += n
				add(shift)
			}
		}
	case t.k == KSub:
		in, lo := l.cuts(t.args[0]), l.int(t.args[1])
		if lo != nil {
			f = func(env []int64, shift int64, add func(int64)) {
				v, _ := lo(env)
				in(env, shift-v, add)
			}
		}
	case t.k == KUpd:
		in, x := l.cuts(t.args[0]), l.int(t.args[1])
		if x != nil {
			f = func(env []int64, shift int64, add func(int64)) {
				v, _ := x(env)
				add(shift + v)
				add(shift + v + 1)
				in(env, shift, add)
			}
		}
	case t.k == KApp && t.op == "copied" && len(t.args) == 3:
		d, off, s := l.cuts(t.args[0]), l.int(t.args[1]), l.cuts(t.args[2])
		sn := l.int(mkLen(t.args[2]))
		if off != nil && sn != nil {
			f = func(env []int64, shift int64, add func(int64)) {
				o, _ := off(env)
				n, _ := sn(env)
				add(shift + o)
				add(shift + o + n)
				d(env, shift, add)
				s(env, shift+o, add)
			}
		}
	case t.k == KLit, t.k == KApp && (strings.HasPrefix(t.op, "be") || strings.HasPrefix(t.op, "le")):
		n := l.int(mkLen(t))
		if n != nil {
			f = func(env []int64, shift int64, add func(int64)) {
				v, _ := n(env)
				for i := int64(0); i <= v; i++ {
					add(shift + i)
				}
			}
		}
	}
	l.cuts_[t] = f
	return f
}

// same says that from lo to hi the sequence t is, byte by byte, what want gives; more are places where want changes its form.
func (l *layout) same(t *Term, env []int64, lo, hi int64, want func(i int64) sbyte, more ...int64) (int64, bool) {
	s := l.seq(t)
	if s == nil {
		return lo, false
	}
	var room [24]int64
	at := append(room[:0], lo)
	add := func(i int64) {
		if lo < i && i < hi {
			at = append(at, i)
			for j := len(at) - 1; at[j] < at[j-1]; j-- {
				at[j], at[j-1] = at[j-1], at[j]
			}
		}
	}
	l.cuts(t)(env, 0, add)
	for _, m := range more {
		add(m)
	}
	for j, i := range at {
		end := hi
		if j+1 < len(at) {
			end = at[j+1]
		}
		if i >= end {
			continue
		}
		// the first and the last byte of the piece
		for _, x := range []int64{i, end - 1} {
			got := s(env, x)
			if got.bad() || got != want(x) {
				return x, false
			}
		}
	}
	return 0, true
}

// place is where the permutation keeps its two halves: eight bytes of va from a, and the blocks in vd from b.
type place struct {
	va, vd uint32
	a, b   int64
}

func (p place) left(k int64) sbyte  { return atomByte(p.va, p.a+k) }
func (p place) right(k int64) sbyte { return atomByte(p.vd, p.b+k) }

// wrapLoop is a loop whose rounds run the block cipher once.
type wrapLoop struct {
	ev    *Event
	ints  []int // index of the counters in vars
	slot  []int
	entry []intFn
	src   map[uint32]*LoopVar
	isInt map[uint32]bool
	backs []*wrapBack
}

type wrapBack struct {
	conds []func(env []int64) (bool, bool)
	vals  []bool
	next  []intFn
	b     *Back
	ev    *Event
	in    byteFn
	out   uint32
	bad   string
}

type wrapRule struct {
	l     *layout
	dec   bool // unwrapping
	loops []*wrapLoop
	seed  *Term // data
}

func blockEvents(evs []*Event) (direct []*Event, nested bool) {
	for _, e := range evs {
		if e.op == "block.Encrypt" || e.op == "block.Decrypt" {
			direct = append(direct, e)
		}
		if e.loop != nil {
			for _, b := range e.loop.backs {
				if d, n := blockEvents(b.events); len(d) > 0 || n {
					nested = true
				}
			}
		}
	}
	return direct, nested
}

// rounds prepares the loops of one outcome; the string says why that is not possible.
func (w *wrapRule) rounds(evs []*Event) string {
	l := w.l
	for _, e := range evs {
		if e.op == "block.Encrypt" || e.op == "block.Decrypt" {
			return "runs the block cipher outside the rounds"
		}
		if e.loop == nil {
			continue
		}
		run := false
		for _, b := range e.loop.backs {
			d, n := blockEvents(b.events)
			if n {
				return "has rounds that are not one loop over the blocks"
			}
			run = run || len(d) > 0
		}
		if !run {
			continue
		}
		lp := &wrapLoop{ev: e, src: map[uint32]*LoopVar{}, isInt: map[uint32]bool{}}
		// which integer variables are counters: those that only depend on counters
		cand := map[*LoopVar]bool{}
		for _, v := range e.loop.vars {
			if v.typ != nil && isInt(v.typ) {
				cand[v] = true
			}
		}
		for v := range cand {
			l.slot(v.term)
		}
		for again := true; again; {
			again = false
			for v := range cand {
				ok := l.int(v.entry) != nil
				for _, b := range e.loop.backs {
					ok = ok && b.next[v] != nil && l.int(b.next[v]) != nil
				}
				if !ok {
					delete(cand, v)
					// forget what was compiled with it
					sl := l.slots
					*l = layout{slots: sl, src: l.src, ints: map[*Term]intFn{}, seqs: map[*Term]byteFn{}, ibs: map[*Term]byteFn{}, cuts_: map[*Term]cutFn{}}
					delete(sl, v.term)
					l.slots[mk(KNew, "unused", len(sl)+1, nil, nil, nil, v.term)] = len(sl)
					again = true
				}
			}
		}
		for i, v := range e.loop.vars {
			if cand[v] {
				lp.ints = append(lp.ints, i)
				lp.slot = append(lp.slot, l.slots[v.term])
				lp.entry = append(lp.entry, l.int(v.entry))
				continue
			}
			s := l.source(v.term)
			lp.src[s] = v
			lp.isInt[s] = v.typ != nil && isInt(v.typ)
		}
		for _, b := range e.loop.backs {
			d, _ := blockEvents(b.events)
			wb := &wrapBack{b: b}
			op := "block.Encrypt"
			if w.dec {
				op = "block.Decrypt"
			}
			switch {
			case len(d) != 1:
				wb.bad = "has rounds that do not run the block cipher exactly once"
			case d[0].op != op:
				wb.bad = "runs the block cipher in the wrong direction"
			case !wrappingCipher(d[0].args[0]):
				wb.bad = "uses another cipher than AES with the wrapping key"
			default:
				wb.ev = d[0]
				wb.out = l.source(d[0].term)
				wb.in = l.seq(d[0].args[2])
				if wb.in == nil {
					wb.bad = "has rounds whose cipher input is not followed"
				}
			}
			for _, f := range b.facts {
				cf := l.cond(f.atom)
				if cf == nil {
					if anyTerm(f.atom, func(t *Term) bool { return t.k == KLoop || t.k == KElem }) {
						wb.bad = "has rounds that depend on the data"
					}
					continue
				}
				wb.conds = append(wb.conds, cf)
				wb.vals = append(wb.vals, f.val)
			}
			for _, i := range lp.ints {
				wb.next = append(wb.next, l.int(b.next[e.loop.vars[i]]))
			}
			lp.backs = append(lp.backs, wb)
		}
		w.loops = append(w.loops, lp)
	}
	if len(w.loops) == 0 {
		return "does not run the block cipher"
	}
	return ""
}

func wrappingCipher(t *Term) bool {
	return t.k == KRes && t.n == 0 && t.args[0].op == "aes.NewCipher" && t.args[0].args[0].k == KParam
}

// enter says whether the loop starts with what the previous one left.
func (w *wrapRule) holdsAt(t *Term, isInt bool, env []int64, lo, hi int64, want func(int64) sbyte, more ...int64) bool {
	if isInt {
		f := w.l.ib(t)
		if f == nil {
			return false
		}
		for i := lo; i < hi; i++ {
			if g := f(env, 7-i); g.bad() || g != want(i) {
				return false
			}
		}
		return true
	}
	_, ok := w.l.same(t, env, lo, hi, want, more...)
	return ok
}

// check follows the rounds for n blocks, whatever the halves are at the start; it returns where they are at the start and at the end.
func (w *wrapRule) check(env []int64, n int64) (start, pl place, why string) {
	step := int64(0)
	begun := false
	var left, right func(int64) sbyte
	for _, lp := range w.loops {
		for i, f := range lp.entry {
			v, ok := f(env)
			if !ok {
				return start, pl, "has counters that are not followed"
			}
			env[lp.slot[i]] = v
		}
		first := true
		next := make([]int64, len(lp.slot))
		for {
			var wb *wrapBack
			for _, b := range lp.backs {
				good := true
				for i, c := range b.conds {
					if v, ok := c(env); !ok || v != b.vals[i] {
						good = false
						break
					}
				}
				if good {
					if wb != nil {
						return start, pl, "has rounds that depend on more than their number"
					}
					wb = b
				}
			}
			if wb == nil {
				break
			}
			if wb.bad != "" {
				return start, pl, wb.bad
			}
			if step == 6*n {
				return start, pl, fmt.Sprintf("runs more than 6 times %d rounds", n)
			}
			t := step + 1
			if w.dec {
				t = 6*n - step
			}
			p := (t-1)%n + 1
			rc := func(k int64) sbyte { return constByte(uint8(t >> uint(8*(7-k)))) }
			none := func(int64) sbyte { return sbyte{} }
			mixIn, mixOut := none, rc
			if w.dec {
				mixIn, mixOut = rc, none
			}
			// what goes into the cipher
			x := wb.in(env, 0).xor(mixIn(0))
			va, a, ok1 := x.atom()
			vd, d, ok2 := wb.in(env, 8).atom()
			here := place{va, vd, a, d - 8*(p-1)}
			if !ok1 || !ok2 || lp.src[va] == nil || lp.src[vd] == nil {
				return start, pl, fmt.Sprintf("puts the wrong bytes into the cipher in round %d of %d", t, 6*n)
			}
			for k := int64(0); k < 8; k++ {
				if wb.in(env, k).xor(mixIn(k)) != here.left(k) {
					return start, pl, fmt.Sprintf("puts the wrong left half into the cipher in round %d of %d (byte %d)", t, 6*n, k)
				}
				if wb.in(env, 8+k) != here.right(8*(p-1)+k) {
					return start, pl, fmt.Sprintf("puts the wrong block into the cipher in round %d of %d (byte %d)", t, 6*n, k)
				}
			}
			A, D := lp.src[va], lp.src[vd]
			if first {
				first = false
				if here.b < 0 || va == vd && here.a < here.b+8*n && here.b < here.a+8 || lp.isInt[vd] || lp.isInt[va] && here.a != 0 {
					return start, pl, "keeps the two halves in the same place"
				}
				off := func(f func(int64) sbyte, by int64) func(int64) sbyte {
					return func(i int64) sbyte { return f(i - by) }
				}
				if !begun {
					start = here
				} else if !w.holdsAt(A.entry, lp.isInt[va], env, here.a, here.a+8, off(left, here.a)) {
					return start, pl, fmt.Sprintf("starts round %d of %d with the wrong left half", t, 6*n)
				} else if !w.holdsAt(D.entry, false, env, here.b, here.b+8*n, off(right, here.b)) {
					return start, pl, fmt.Sprintf("starts round %d of %d with the wrong blocks", t, 6*n)
				}
				pl, begun = here, true
			} else if pl != here {
				return start, pl, fmt.Sprintf("takes another block than it should in round %d of %d", t, 6*n)
			}
			// what comes out
			ok := w.holdsAt(wb.b.next[A], lp.isInt[va], env, here.a, here.a+8, func(i int64) sbyte { return atomByte(wb.out, i-here.a).xor(mixOut(i - here.a)) })
			if !ok {
				return start, pl, fmt.Sprintf("leaves the wrong left half after round %d of %d", t, 6*n)
			}
			lo := here.b + 8*(p-1)
			ok = w.holdsAt(wb.b.next[D], false, env, here.b, here.b+8*n, func(i int64) sbyte {
				if lo <= i && i < lo+8 {
					return atomByte(wb.out, 8+i-lo)
				}
				return atomByte(vd, i)
			}, lo, lo+8)
			if !ok {
				return start, pl, fmt.Sprintf("leaves the wrong blocks after round %d of %d", t, 6*n)
			}
			for i, f := range wb.next {
				v, ok := f(env)
				if !ok {
					return start, pl, "has counters that are not followed"
				}
				next[i] = v
			}
			for i, s := range lp.slot {
				env[s] = next[i]
			}
			step++
		}
		if !first {
			q := pl
			left, right = q.left, q.right
		}
	}
	if step != 6*n {
		return start, pl, fmt.Sprintf("runs %d instead of 6 times %d rounds", step, n)
	}
	return start, pl, ""
}

// begins says whether the first rounds start with the two halves.
func (w *wrapRule) begins(env []int64, p place, n int64, left, right func(int64) sbyte, more int64) string {
	for _, lp := range w.loops {
		A, D := lp.src[p.va], lp.src[p.vd]
		if A == nil || D == nil {
			continue
		}
		if !w.holdsAt(A.entry, lp.isInt[p.va], env, p.a, p.a+8, func(i int64) sbyte { return left(i - p.a) }) {
			return "starts with the wrong left half"
		}
		if !w.holdsAt(D.entry, false, env, p.b, p.b+8*n, func(i int64) sbyte { return right(i - p.b) }, more+p.b) {
			return "starts with the wrong blocks"
		}
		return ""
	}
	return "does not start"
}

// fixed are the integers the rounds use that do not change while they run.
func (w *wrapRule) fixed() []intFn {
	var out []intFn
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || t.k == KConst {
			return
		}
		seen[t] = true
		if t == w.seed {
			visit(mkLen(t))
		}
		if f := w.l.int(t); f != nil && !anyTerm(t, func(x *Term) bool { return x.k == KLoop }) {
			out = append(out, f)
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for i, lp := range w.loops {
		for j, v := range lp.ev.loop.vars {
			counter := false
			for _, x := range lp.ints {
				counter = counter || x == j
			}
			for _, a := range v.term.args {
				visit(a)
			}
			if i > 0 || counter {
				visit(v.entry)
			}
			for _, b := range lp.ev.loop.backs {
				if b.next[v] != nil {
					visit(b.next[v])
				}
			}
		}
		for _, b := range lp.ev.loop.backs {
			for _, f := range b.facts {
				visit(f.atom)
			}
			d, _ := blockEvents(b.events)
			for _, e := range d {
				for _, a := range e.args {
					visit(a)
				}
			}
		}
	}
	return out
}

var gWrapRounds = &ruleGroup{name: "wrapping-permutation", min: 2,
	what: "the rounds of Wrap and Unwrap keep the invariant of the permutation W of SP 800-38F, byte by byte and for every number of blocks the size limits allow: 6n rounds, round t takes block (t-1) mod n + 1 together with the left half, runs AES with the wrapping key, and mixes the 64-bit number t into the left half; they start with the constant, the length and the zero-padded key, and the result is what the last round left; unwrapping runs the inverse rounds in the opposite order",
	f: func(c *Ctx, g *ruleGroup) {
		lo, hi := c.a.cint("crypto", "MinWrapSize"), c.a.cint("crypto", "MaxWrapSize")
		seen := map[string]string{}
		for _, dec := range []bool{false, true} {
			name := "KWP.Wrap"
			if dec {
				name = "KWP.Unwrap"
			}
			c.each(g, profNone, "crypto", name, "NewKWP", func(r *Run, o *Outcome) {
				if o.panic || !o.ok {
					return
				}
				data := r.param(0)
				v := o.res[0]
				if dec {
					if v, _ = c.unwrapped(o, data); v == nil {
						c.bad(g, r.name+" result", o.pos, "%s does not return a part of the unwrapped blocks", r.name)
						return
					}
				}
				l := newLayout()
				ln := l.slot(mkLen(data))
				seed := l.source(data)
				w := &wrapRule{l: l, dec: dec, seed: data}
				if why := w.rounds(o.st.events); why != "" {
					c.bad(g, r.name+" rounds", o.pos, "%s %s", r.name, why)
					return
				}
				var conds []func([]int64) (bool, bool)
				var vals []bool
				var atoms []*Term
				var early []int
				for _, f := range o.st.facts {
					if cf := l.cond(f.atom); cf != nil {
						if !anyTerm(f.atom, func(t *Term) bool { return t.k == KLoop || t.k == KParam && t != data }) {
							early = append(early, len(conds))
						}
						conds, vals = append(conds, cf), append(vals, f.val)
						atoms = append(atoms, f.atom)
					}
				}
				// paths that only differ in what the rounds do not depend on
				var id strings.Builder
				put := func(ts ...*Term) {
					for _, t := range ts {
						if t != nil {
							id.WriteString(t.key())
						}
						id.WriteByte(' ')
					}
				}
				put(v)
				for _, j := range early {
					put(atoms[j])
					fmt.Fprint(&id, vals[j])
				}
				for _, lp := range w.loops {
					for _, x := range lp.ev.loop.vars {
						put(x.term, x.entry)
					}
					for _, b := range lp.ev.loop.backs {
						for _, x := range lp.ev.loop.vars {
							put(b.next[x])
						}
						for _, f := range b.facts {
							put(f.atom)
							fmt.Fprint(&id, f.val)
						}
						for _, e := range b.events {
							put(e.args...)
						}
					}
				}
				if why, ok := seen[id.String()]; ok {
					c.must(why == "", g, r.name+" rounds", o.pos, "%s %s", r.name, why)
					return
				}
				done := func(why string) {
					seen[id.String()] = why
					c.must(why == "", g, r.name+" rounds", o.pos, "%s %s", r.name, why)
				}
				// compile what is used below before the work is shared
				for _, lp := range w.loops {
					for _, x := range lp.ev.loop.vars {
						if isInt(typOrInt(x)) {
							l.ib(x.entry)
						} else {
							l.seq(x.entry)
							l.cuts(x.entry)
						}
						for _, b := range lp.ev.loop.backs {
							if b.next[x] == nil {
								continue
							}
							if isInt(typOrInt(x)) {
								l.ib(b.next[x])
							} else {
								l.seq(b.next[x])
								l.cuts(b.next[x])
							}
						}
					}
				}
				l.seq(v)
				l.cuts(v)
				slots := 0
				for _, s := range l.slots {
					if s >= slots {
						slots = s + 1
					}
				}
				var Ls []int64
				if dec {
					for L := (lo+7)/8*8 + 8; L <= (hi+7)/8*8+8; L += 8 {
						Ls = append(Ls, L)
					}
				} else {
					for L := lo; L <= hi; L++ {
						Ls = append(Ls, L)
					}
				}
				// the rounds are looked at once for all lengths they cannot tell apart
				type class struct {
					L          int64
					env        []int64
					start, end place
					why        string
				}
				fixed := w.fixed()
				classes := map[string]*class{}
				var order []*class
				of := make([]*class, len(Ls))
				blocks := func(L int64) int64 {
					if dec {
						return L/8 - 1
					}
					return (L + 7) / 8
				}
			lengths:
				for i, L := range Ls {
					env := make([]int64, slots)
					env[ln] = L
					for _, j := range early {
						if x, ok := conds[j](env); ok && x != vals[j] {
							continue lengths
						}
					}
					sig := []byte(strconv.FormatInt(blocks(L), 10))
					for _, f := range fixed {
						x, _ := f(env)
						sig = strconv.AppendInt(append(sig, ' '), x, 10)
					}
					cl := classes[string(sig)]
					if cl == nil {
						cl = &class{L: L, env: env}
						classes[string(sig)] = cl
						order = append(order, cl)
					}
					of[i] = cl
				}
				var wg sync.WaitGroup
				next := make(chan *class, len(order))
				for _, cl := range order {
					next <- cl
				}
				close(next)
				for k := 0; k < 8; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for cl := range next {
							cl.start, cl.end, cl.why = w.check(cl.env, blocks(cl.L))
						}
					}()
				}
				wg.Wait()
				for i, L := range Ls {
					cl := of[i]
					if cl == nil {
						continue
					}
					why := cl.why
					if why == "" {
						n := blocks(L)
						env := append([]int64{}, cl.env...)
						env[ln] = L
						iv := []byte{0xA6, 0x59, 0x59, 0xA6, byte(L >> 24), byte(L >> 16), byte(L >> 8), byte(L)}
						left := func(k int64) sbyte { return constByte(iv[k]) }
						right := func(k int64) sbyte {
							if k < L {
								return atomByte(seed, k)
							}
							return sbyte{}
						}
						if dec {
							left = func(k int64) sbyte { return atomByte(seed, k) }
							right = func(k int64) sbyte { return atomByte(seed, k+8) }
						}
						why = w.begins(env, cl.start, n, left, right, L)
						if why == "" && (!w.holdsAt(v, false, env, 0, 8, cl.end.left) || !w.holdsAt(v, false, env, 8, 8+8*n, func(k int64) sbyte { return cl.end.right(k - 8) })) {
							why = "does not continue with what the last round left"
						}
					}
					if why != "" {
						done(fmt.Sprintf("%s (%d bytes)", why, L))
						return
					}
				}
				done("")
			})
		}
	}}

func typOrInt(v *LoopVar) types.Type {
	if v.typ != nil {
		return v.typ
	}
	return types.NewSlice(types.Typ[types.Byte])
}
