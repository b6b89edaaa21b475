package main

import (
	"unsafe"

	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var tokOp = map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OAnd, token.OR: OOr, token.XOR: OXor}

func (x *Exec) binop(fr *frame, in *cinstr, a, b Value) Value {
	switch in.tok {
	case token.EQL:
		return tv(x.eq(fr, in, a, b))
	case token.NEQ:
		return tv(x.tb.Not(x.eq(fr, in, a, b)))
	}
	switch in.kind {
	case kInt:
		return x.intop(fr, in, a, b)
	case kString:
		return x.strop(in.tok, a, b)
	case kFloat64, kFloat32:
		return floatop(x, in, a, b)
	case kBool:
		switch in.tok {
		case token.AND, token.LAND:
			return tv(x.tb.And(x.term(a, 0), x.term(b, 0)))
		case token.OR, token.LOR:
			return tv(x.tb.Or(x.term(a, 0), x.term(b, 0)))
		}
	}
	x.unsupported("binop %s kind %d", in.tok, in.kind)
	return Value{}
}

func (x *Exec) intop(fr *frame, in *cinstr, a, b Value) Value {
	w := in.w
	if a.p == nil && b.p == nil {
		switch in.tok {
		case token.ADD:
			return Value{u: (a.u + b.u) & mask(w)}
		case token.SUB:
			return Value{u: (a.u - b.u) & mask(w)}
		case token.MUL:
			return Value{u: (a.u * b.u) & mask(w)}
		case token.AND:
			return Value{u: a.u & b.u}
		case token.OR:
			return Value{u: a.u | b.u}
		case token.XOR:
			return Value{u: a.u ^ b.u}
		case token.AND_NOT:
			return Value{u: a.u &^ b.u}
		case token.LSS:
			if in.sg {
				return boolV(sx(a.u, w) < sx(b.u, w))
			}
			return boolV(a.u < b.u)
		case token.LEQ:
			if in.sg {
				return boolV(sx(a.u, w) <= sx(b.u, w))
			}
			return boolV(a.u <= b.u)
		case token.GTR:
			if in.sg {
				return boolV(sx(a.u, w) > sx(b.u, w))
			}
			return boolV(a.u > b.u)
		case token.GEQ:
			if in.sg {
				return boolV(sx(a.u, w) >= sx(b.u, w))
			}
			return boolV(a.u >= b.u)
		case token.SHL, token.SHR:
			if in.sg2 && sx(b.u, in.w2) < 0 {
				fr.pos = in.pos
				x.throwRuntime("negative shift amount")
			}
			if in.tok == token.SHL {
				if b.u >= uint64(w) {
					return Value{}
				}
				return Value{u: a.u << b.u & mask(w)}
			}
			if in.sg {
				s := b.u
				if s > 63 {
					s = 63
				}
				return Value{u: uint64(sx(a.u, w)>>s) & mask(w)}
			}
			if b.u >= uint64(w) {
				return Value{}
			}
			return Value{u: a.u >> b.u}
		case token.QUO, token.REM:
			if b.u == 0 {
				fr.pos = in.pos
				x.throwRuntime("integer divide by zero")
			}
			if in.sg {
				p, q := sx(a.u, w), sx(b.u, w)
				if q == -1 {
					if in.tok == token.QUO {
						return Value{u: uint64(-p) & mask(w)}
					}
					return Value{}
				}
				if in.tok == token.QUO {
					return Value{u: uint64(p/q) & mask(w)}
				}
				return Value{u: uint64(p%q) & mask(w)}
			}
			if in.tok == token.QUO {
				return Value{u: a.u / b.u}
			}
			return Value{u: a.u % b.u}
		}
	}
	if in.tok == token.SHL || in.tok == token.SHR {
		s := x.term(a, w)
		var c *Term
		if b.p == nil {
			if in.sg2 && sx(b.u, in.w2) < 0 {
				fr.pos = in.pos
				x.throwRuntime("negative shift amount")
			}
			k := b.u
			if k > 63 {
				k = 63
			}
			if b.u >= uint64(w) {
				k = uint64(w)
				if in.tok == token.SHL || !in.sg {
					return Value{}
				}
				k = uint64(w) - 1
			}
			c = x.tb.Const(w, k)
		} else {
			c = b.p.(*Term)
			if in.sg2 {
				ok := x.tb.Sle(x.tb.Const(in.w2, 0), c)
				if ok != x.tb.tt {
					if x.spec > 0 {
						panic(specFail)
					}
					fr.pos = in.pos
					if !x.branch(ok) {
						x.throwRuntime("negative shift amount")
					}
				}
			}
			if c.w < w {
				c = x.tb.Zext(c, w)
			} else if c.w > w {
				// saturate
				big := x.tb.Ule(x.tb.Const(c.w, uint64(w)), c)
				lowc := x.tb.Extract(c, w-1, 0)
				c = x.tb.Ite(big, x.tb.Const(w, uint64(w)), lowc)
			}
		}
		switch {
		case in.tok == token.SHL:
			return tv(x.tb.Shl(s, c))
		case in.sg:
			return tv(x.tb.Ashr(s, c))
		}
		return tv(x.tb.Lshr(s, c))
	}
	s, t := x.term(a, w), x.term(b, w)
	switch in.tok {
	case token.ADD:
		return tv(x.tb.Add(s, t))
	case token.SUB:
		return tv(x.tb.Sub(s, t))
	case token.MUL:
		return tv(x.tb.Mul(s, t))
	case token.AND:
		return tv(x.tb.AndB(s, t))
	case token.OR:
		return tv(x.tb.OrB(s, t))
	case token.XOR:
		return tv(x.tb.XorB(s, t))
	case token.AND_NOT:
		return tv(x.tb.AndB(s, x.tb.NotB(t)))
	case token.LSS:
		if in.sg {
			return tv(x.tb.Slt(s, t))
		}
		return tv(x.tb.Ult(s, t))
	case token.LEQ:
		if in.sg {
			return tv(x.tb.Sle(s, t))
		}
		return tv(x.tb.Ule(s, t))
	case token.GTR:
		if in.sg {
			return tv(x.tb.Slt(t, s))
		}
		return tv(x.tb.Ult(t, s))
	case token.GEQ:
		if in.sg {
			return tv(x.tb.Sle(t, s))
		}
		return tv(x.tb.Ule(t, s))
	case token.QUO, token.REM:
		nz := x.tb.Not(x.tb.Eq(t, x.tb.Const(w, 0)))
		if nz != x.tb.tt {
			if x.spec > 0 {
				panic(specFail)
			}
			fr.pos = in.pos
			if !x.branch(nz) {
				x.throwRuntime("integer divide by zero")
			}
		}
		op := OUDiv
		switch {
		case in.tok == token.QUO && in.sg:
			op = OSDiv
		case in.tok == token.REM && in.sg:
			op = OSRem
		case in.tok == token.REM:
			op = OURem
		}
		return tv(x.tb.Div(op, s, t))
	}
	x.unsupported("int op %s", in.tok)
	return Value{}
}

func floatop(x *Exec, in *cinstr, a, b Value) Value {
	if a.p != nil || b.p != nil {
		x.unsupported("symbolic float")
	}
	var p, q float64
	f32 := in.kind == kFloat32
	if f32 {
		p, q = float64(math.Float32frombits(uint32(a.u))), float64(math.Float32frombits(uint32(b.u)))
	} else {
		p, q = math.Float64frombits(a.u), math.Float64frombits(b.u)
	}
	var r float64
	switch in.tok {
	case token.ADD:
		r = p + q
	case token.SUB:
		r = p - q
	case token.MUL:
		r = p * q
	case token.QUO:
		r = p / q
	case token.LSS:
		return boolV(p < q)
	case token.LEQ:
		return boolV(p <= q)
	case token.GTR:
		return boolV(p > q)
	case token.GEQ:
		return boolV(p >= q)
	}
	if f32 {
		return Value{u: uint64(math.Float32bits(float32(r)))}
	}
	return fbits(r)
}

func (x *Exec) strop(tok token.Token, a, b Value) Value {
	if tok == token.ADD {
		return strConcat(a, b)
	}
	s, ok1 := goStr(a)
	t, ok2 := goStr(b)
	if ok1 && ok2 {
		switch tok {
		case token.LSS:
			return boolV(s < t)
		case token.LEQ:
			return boolV(s <= t)
		case token.GTR:
			return boolV(s > t)
		case token.GEQ:
			return boolV(s >= t)
		}
	}
	lt := x.bytesLess(strBytes(a), strBytes(b))
	gt := x.bytesLess(strBytes(b), strBytes(a))
	switch tok {
	case token.LSS:
		return tv(lt)
	case token.LEQ:
		return tv(x.tb.Not(gt))
	case token.GTR:
		return tv(gt)
	case token.GEQ:
		return tv(x.tb.Not(lt))
	}
	x.unsupported("string op %s", tok)
	return Value{}
}

// bytesLess is the lexicographic a < b.
func (x *Exec) bytesLess(a, b []Value) *Term {
	n := min(len(a), len(b))
	r := x.tb.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		p, q := x.term(a[i], 8), x.term(b[i], 8)
		r = x.tb.Or(x.tb.Ult(p, q), x.tb.And(x.tb.Eq(p, q), r))
	}
	return r
}

func (x *Exec) bytesEq(a, b []Value) *Term {
	if len(a) != len(b) {
		return x.tb.ff
	}
	r := x.tb.tt
	for i := range a {
		if a[i].p == nil && b[i].p == nil {
			if a[i].u != b[i].u {
				return x.tb.ff
			}
			continue
		}
		r = x.tb.And(r, x.tb.Eq(x.term(a[i], 8), x.term(b[i], 8)))
	}
	return r
}

func (x *Exec) eq(fr *frame, in *cinstr, a, b Value) *Term {
	switch in.kind {
	case kInt, kBool:
		if a.p == nil && b.p == nil {
			return x.tb.Bool(a.u == b.u)
		}
		return x.tb.Eq(x.term(a, in.w), x.term(b, in.w))
	}
	fr.pos = in.pos
	// comparisons between an interface and a concrete value are made homogeneous by ssa
	return x.equal(in.t, a, b)
}

func ptrKey(p any) any {
	switch q := p.(type) {
	case *ElemPtr:
		return ptrTo(&q.a.e[q.i]).p
	case *Agg:
		return (*AggP)(q)
	}
	return p
}

// equal is the == of type t.
func (x *Exec) equal(t types.Type, a, b Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if s, ok := goStr(a); ok {
				if r, ok := goStr(b); ok {
					return x.tb.Bool(s == r)
				}
			}
			return x.bytesEq(strBytes(a), strBytes(b))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return x.tb.Bool(ptrKey(a.p) == ptrKey(b.p))
		}
		if w, _, ok := bitsOf(t); ok {
			if a.p == nil && b.p == nil {
				return x.tb.Bool(a.u == b.u)
			}
			return x.tb.Eq(x.term(a, w), x.term(b, w))
		}
		if fw, ok := isFloat(t); ok && a.p == nil && b.p == nil {
			if fw == 32 {
				return x.tb.Bool(math.Float32frombits(uint32(a.u)) == math.Float32frombits(uint32(b.u)))
			}
			return x.tb.Bool(math.Float64frombits(a.u) == math.Float64frombits(b.u))
		}
	case *types.Pointer, *types.Chan:
		return x.tb.Bool(ptrKey(a.p) == ptrKey(b.p))
	case *types.Signature, *types.Slice, *types.Map:
		// only comparable with nil
		return x.tb.Bool((a.p == nil) == (b.p == nil) && (a.p == nil || b.p == nil))
	case *types.Interface:
		if a.p == nil || b.p == nil {
			return x.tb.Bool(a.p == nil && b.p == nil)
		}
		p, q := a.p.(*Iface), b.p.(*Iface)
		if p.t != q.t {
			return x.tb.ff
		}
		if !types.Comparable(p.t.t) {
			x.throwRuntime("comparing uncomparable type " + p.t.String())
		}
		return x.equal(p.t.t, p.v, q.v)
	case *types.Struct:
		r := x.tb.tt
		p, q := a.p.(*Agg), b.p.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			r = x.tb.And(r, x.equal(u.Field(i).Type(), p.e[i], q.e[i]))
		}
		return r
	case *types.Array:
		r := x.tb.tt
		p, q := a.p.(*Agg), b.p.(*Agg)
		for i := range p.e {
			r = x.tb.And(r, x.equal(u.Elem(), p.e[i], q.e[i]))
		}
		return r
	}
	x.unsupported("equality on %s", t)
	return nil
}

// ---------------------------------------------------------------- conversions

func (x *Exec) convert(v Value, from, to types.Type) Value {
	if wf, sf, ok := bitsOf(from); ok && wf > 0 {
		if wt, _, ok := bitsOf(to); ok && wt > 0 {
			if v.p == nil {
				u := v.u
				if sf {
					u = uint64(sx(u, wf))
				}
				return Value{u: u & mask(wt)}
			}
			t, ok := v.p.(*Term)
			if !ok {
				x.unsupported("integer from %T", v.p)
			}
			switch {
			case wt == wf:
				return v
			case wt < wf:
				return tv(x.tb.Extract(t, wt-1, 0))
			case sf:
				return tv(x.tb.Sext(t, wt))
			}
			return tv(x.tb.Zext(t, wt))
		}
		if fw, ok := isFloat(to); ok {
			if v.p != nil {
				x.unsupported("symbolic int to float")
			}
			var f float64
			if sf {
				f = float64(sx(v.u, wf))
			} else {
				f = float64(v.u)
			}
			if fw == 32 {
				return Value{u: uint64(math.Float32bits(float32(f)))}
			}
			return fbits(f)
		}
		if isString(to) {
			if v.p == nil {
				r := rune(-1)
				if s := sx(v.u, wf); s >= 0 && s <= utf8.MaxRune {
					r = rune(s)
				}
				return strV(string(r))
			}
			return x.encodeRune(x.runeTerm(v, wf, sf))
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if v.p == nil && v.u == 0 {
				return Value{}
			}
			x.unsupported("uintptr to pointer")
		}
	}
	if fw, ok := isFloat(from); ok {
		var f float64
		if fw == 32 {
			f = float64(math.Float32frombits(uint32(v.u)))
		} else {
			f = math.Float64frombits(v.u)
		}
		if wt, st, ok := bitsOf(to); ok {
			if st {
				return Value{u: uint64(int64(f)) & mask(wt)}
			}
			return Value{u: uint64(f) & mask(wt)}
		}
		if tw, ok := isFloat(to); ok {
			if tw == 32 {
				return Value{u: uint64(math.Float32bits(float32(f)))}
			}
			return fbits(f)
		}
	}
	if isString(from) {
		if isString(to) {
			return v
		}
		if s, ok := to.Underlying().(*types.Slice); ok {
			if w, _, _ := bitsOf(s.Elem()); w == 8 {
				return x.newSlice(append([]Value(nil), strBytes(v)...))
			}
			var rs []Value
			it := &strIter{s: v}
			for {
				t := x.next(Value{p: it}, nil).p.(Tuple)
				if t[0].u == 0 {
					break
				}
				rs = append(rs, t[2])
			}
			return x.newSlice(rs)
		}
	}
	if s, ok := from.Underlying().(*types.Slice); ok && isString(to) {
		es := sliceElems(v)
		if w, _, _ := bitsOf(s.Elem()); w == 8 {
			return mkStr(append([]Value(nil), es...))
		}
		r := Value{}
		for _, e := range es {
			if e.p == nil {
				r = strConcat(r, strV(string(rune(int32(e.u)))))
			} else {
				r = strConcat(r, x.encodeRune(e.p.(*Term)))
			}
		}
		return r
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if _, ok := to.Underlying().(*types.Pointer); ok {
			return x.unsafeCast(v, to)
		}
		if w, _, ok := bitsOf(to); ok && w == 64 {
			if v.p == nil {
				return Value{}
			}
			x.unsupported("pointer to uintptr")
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	x.unsupported("convert %s to %s", from, to)
	return Value{}
}

func (x *Exec) unsafeCast(v Value, to types.Type) Value {
	return v
}

func (x *Exec) runeTerm(v Value, w uint8, sg bool) *Term {
	t := v.p.(*Term)
	if w == 32 {
		return t
	}
	if w < 32 {
		if sg {
			return x.tb.Sext(t, 32)
		}
		return x.tb.Zext(t, 32)
	}
	// out of range values become U+FFFD
	big := x.tb.Ult(x.tb.Const(w, utf8.MaxRune), t)
	return x.tb.Ite(big, x.tb.Const(32, utf8.RuneError), x.tb.Extract(t, 31, 0))
}

// encodeRune forks on the encoded length.
func (x *Exec) encodeRune(r *Term) Value {
	tb := x.tb
	c32 := func(v uint64) *Term { return tb.Const(32, v) }
	if r.isC() {
		return strV(string(rune(int32(r.val))))
	}
	lo8 := func(t *Term) *Term { return tb.Extract(t, 7, 0) }
	cont := func(sh uint64) Value {
		return tv(tb.OrB(tb.Const(8, 0x80), tb.AndB(lo8(tb.Lshr(r, c32(sh))), tb.Const(8, 0x3f))))
	}
	if x.branch(tb.Ult(r, c32(0x80))) {
		return mkStr([]Value{tv(lo8(r))})
	}
	if x.branch(tb.Ult(r, c32(0x800))) {
		return mkStr([]Value{tv(tb.OrB(tb.Const(8, 0xc0), lo8(tb.Lshr(r, c32(6))))), cont(0)})
	}
	bad := tb.Or(tb.Ult(c32(utf8.MaxRune), r), tb.And(tb.Ule(c32(0xd800), r), tb.Ule(r, c32(0xdfff))))
	if x.branch(bad) {
		return strV("\uFFFD")
	}
	if x.branch(tb.Ult(r, c32(0x10000))) {
		return mkStr([]Value{tv(tb.OrB(tb.Const(8, 0xe0), lo8(tb.Lshr(r, c32(12))))), cont(6), cont(0)})
	}
	return mkStr([]Value{tv(tb.OrB(tb.Const(8, 0xf0), lo8(tb.Lshr(r, c32(18))))), cont(12), cont(6), cont(0)})
}

// ---------------------------------------------------------------- maps

type ifaceKey struct {
	t *rtype
	k any
}

// keyOf makes a host-comparable key for a concrete value.
func (x *Exec) keyOf(t types.Type, v Value) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := goStr(v)
			return s, ok
		}
		if v.p != nil {
			if _, ok := v.p.(*Term); ok {
				return nil, false
			}
			return ptrKey(v.p), true
		}
		return v.u, true
	case *types.Pointer, *types.Chan:
		return ptrKey(v.p), true
	case *types.Interface:
		if v.p == nil {
			return nil, true
		}
		i := v.p.(*Iface)
		if !types.Comparable(i.t.t) {
			x.throwRuntime("hash of unhashable type " + i.t.String())
		}
		k, ok := x.keyOf(i.t.t, i.v)
		return ifaceKey{i.t, k}, ok
	case *types.Struct:
		s := ""
		for i, e := range v.p.(*Agg).e {
			k, ok := x.keyOf(u.Field(i).Type(), e)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("|%T:%v", k, k)
		}
		return s, true
	case *types.Array:
		s := ""
		for _, e := range v.p.(*Agg).e {
			k, ok := x.keyOf(u.Elem(), e)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("|%T:%v", k, k)
		}
		return s, true
	}
	x.unsupported("map key %s", t)
	return nil, false
}

// find locates the entry of key k (forking on symbolic comparisons).
func (x *Exec) mapFind(m *MapV, kt types.Type, k Value) *mapEnt {
	ck, ok := x.keyOf(kt, k)
	if ok {
		if i, hit := m.idx[ck]; hit {
			return m.ents[i]
		}
		if m.nsym == 0 {
			return nil
		}
	}
	if x.spec > 0 {
		panic(specFail)
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		c := x.equal(kt, e.key, k)
		if c == x.tb.ff {
			continue
		}
		if x.branch(c) {
			return e
		}
	}
	return nil
}

func (x *Exec) mapLookup(v, k Value, in *cinstr) Value {
	mt := in.t.Underlying().(*types.Map)
	var e *mapEnt
	if v.p != nil {
		if x.race != nil {
			x.race.access(x, v, false)
		}
		e = x.mapFind(v.p.(*MapV), mt.Key(), k)
	} else {
		x.keyOf(mt.Key(), k) // unhashable panics
	}
	var r Value
	if e != nil {
		r = e.val
	} else {
		r = x.zero(mt.Elem())
	}
	if in.cm {
		return Value{p: Tuple{r, boolV(e != nil)}}
	}
	return r
}

func (x *Exec) mapUpdate(m, k, v Value, kt types.Type) {
	if m.p == nil {
		x.throwRuntime("assignment to entry in nil map")
	}
	if x.race != nil {
		x.race.access(x, m, true)
	}
	mv := m.p.(*MapV)
	if e := x.mapFind(mv, kt, k); e != nil {
		x.set(&e.val, x.cp(v))
		return
	}
	ck, ok := x.keyOf(kt, k)
	e := &mapEnt{key: x.cp(k), val: x.cp(v)}
	mv.ents = append(mv.ents, e)
	n := len(mv.ents)
	if ok {
		mv.idx[ck] = n - 1
	} else {
		mv.nsym++
	}
	mv.count++
	x.undo(func() {
		mv.ents = mv.ents[:n-1]
		if ok {
			delete(mv.idx, ck)
		} else {
			mv.nsym--
		}
		mv.count--
	})
}

func (x *Exec) mapDelete(m, k Value, kt types.Type) {
	if m.p == nil {
		return
	}
	if x.race != nil {
		x.race.access(x, m, true)
	}
	mv := m.p.(*MapV)
	e := x.mapFind(mv, kt, k)
	if e == nil {
		return
	}
	ck, ok := x.keyOf(kt, e.key)
	e.dead = true
	mv.count--
	var old int
	if ok {
		old = mv.idx[ck]
		delete(mv.idx, ck)
	} else {
		mv.nsym--
	}
	x.undo(func() {
		e.dead = false
		mv.count++
		if ok {
			mv.idx[ck] = old
		} else {
			mv.nsym++
		}
	})
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(fr *frame, c *ccall, args []Value) Value {
	name := c.builtin.Name()
	switch name {
	case "len", "cap":
		switch q := args[0].p.(type) {
		case nil:
			if a, ok := c.argT[0].Underlying().(*types.Pointer); ok {
				return intV(int(a.Elem().Underlying().(*types.Array).Len()))
			}
			return Value{}
		case *Slice:
			if name == "cap" {
				return intV(q.cap)
			}
			return intV(q.len)
		case string, *SymStr:
			return intV(strLen(args[0]))
		case *MapV:
			return intV(q.count)
		case *ChanV:
			if name == "cap" {
				return intV(q.cap)
			}
			return intV(len(q.buf))
		case *AggP:
			return intV(len(q.e))
		case *Agg:
			return intV(len(q.e))
		}
	case "append":
		if x.spec > 0 {
			panic(specFail)
		}
		var es []Value
		if isString(c.argT[1]) {
			es = strBytes(args[1])
		} else {
			es = sliceElems(args[1])
		}
		if x.race != nil && len(es) > 0 {
			if q, ok := args[1].p.(*Slice); ok {
				x.race.elems(x, q, 0, len(es), false)
			}
			if q, ok := args[0].p.(*Slice); ok && q.cap-q.len >= len(es) {
				x.race.elems(x, q, q.len, len(es), true)
			}
		}
		return x.appendV(args[0], es, c.argT[0])
	case "copy":
		if x.spec > 0 {
			panic(specFail)
		}
		if args[0].p == nil {
			return Value{}
		}
		var es []Value
		if isString(c.argT[1]) {
			es = strBytes(args[1])
		} else if q, ok := args[1].p.(*Slice); ok {
			es = q.a.e[q.off : q.off+min(q.len, args[0].p.(*Slice).len)]
		} else {
			es = sliceElems(args[1])
		}
		d := args[0].p.(*Slice)
		n := min(len(es), d.len)
		if x.race != nil && n > 0 {
			if q, ok := args[1].p.(*Slice); ok {
				x.race.elems(x, q, 0, n, false)
			}
			x.race.elems(x, d, 0, n, true)
		}
		x.copyElems(d.a, d.off, es[:n])
		return intV(n)
	case "delete":
		x.mapDelete(args[0], args[1], c.argT[0].Underlying().(*types.Map).Key())
		return Value{}
	case "clear":
		switch q := args[0].p.(type) {
		case *MapV:
			for _, e := range append([]*mapEnt(nil), q.ents...) {
				if !e.dead {
					x.mapDelete(args[0], e.key, c.argT[0].Underlying().(*types.Map).Key())
				}
			}
		case *Slice:
			et := c.argT[0].Underlying().(*types.Slice).Elem()
			for i := 0; i < q.len; i++ {
				if isAgg(et) {
					x.copyInto(q.a.e[q.off+i].p.(*Agg), x.zero(et).p.(*Agg))
				} else {
					x.setA(q.a, q.off+i, Value{})
				}
			}
		}
		return Value{}
	case "panic":
		panic(&goPanic{v: args[0], where: x.where()})
	case "recover":
		if fr.ps != nil && !fr.ps.recovered {
			fr.ps.recovered = true
			return fr.ps.p.v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		k, w, sg := kindOf(c.argT[0])
		r := args[0]
		for _, a := range args[1:] {
			switch k {
			case kInt:
				p, q := x.term(r, w), x.term(a, w)
				var lt *Term
				if sg {
					lt = x.tb.Slt(q, p)
				} else {
					lt = x.tb.Ult(q, p)
				}
				if name == "max" {
					if sg {
						lt = x.tb.Slt(p, q)
					} else {
						lt = x.tb.Ult(p, q)
					}
				}
				r = tv(x.tb.Ite(lt, q, p))
			default:
				x.unsupported("min/max")
			}
		}
		return r
	case "close":
		x.chanClose(args[0])
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			x.throwRuntime("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return Value{p: fr}
	case "String": // unsafe.String
		n := int(x.toInt(args[1], 64, true))
		if n == 0 {
			return Value{}
		}
		ep, ok := args[0].p.(*ElemPtr)
		if vp, isv := args[0].p.(*Value); isv {
			// the address of the first of n adjacent slots
			return mkStr(append([]Value(nil), unsafe.Slice(vp, n)...))
		}
		if !ok {
			x.unsupported("unsafe.String of %T", args[0].p)
		}
		return mkStr(append([]Value(nil), ep.a.e[ep.i:ep.i+n]...))
	case "StringData":
		if args[0].p == nil {
			return Value{}
		}
		return Value{p: &ElemPtr{a: &Agg{e: strBytes(args[0]), path: true}}}
	case "SliceData":
		if args[0].p == nil {
			return Value{}
		}
		s := args[0].p.(*Slice)
		return Value{p: &ElemPtr{a: s.a, i: s.off}}
	case "Slice": // unsafe.Slice
		n := int(x.toInt(args[1], 64, true))
		ep, ok := args[0].p.(*ElemPtr)
		if !ok {
			if n == 0 {
				return Value{}
			}
			x.unsupported("unsafe.Slice of %T", args[0].p)
		}
		return Value{p: &Slice{a: ep.a, off: ep.i, len: n, cap: n}}
	}
	x.unsupported("builtin %s", name)
	return Value{}
}

func (x *Exec) copyElems(dst *Agg, off int, es []Value) {
	if len(es) == 0 {
		return
	}
	if _, ok := es[0].p.(*Agg); ok {
		tmp := make([]Value, len(es))
		for i := range es {
			tmp[i] = x.cp(es[i])
		}
		for i := range tmp {
			x.copyInto(dst.e[off+i].p.(*Agg), tmp[i].p.(*Agg))
		}
		return
	}
	if !dst.path && !x.initMode {
		for i := range es {
			s := &dst.e[off+i]
			x.trail = append(x.trail, trailEnt{s: s, old: *s})
		}
	}
	copy(dst.e[off:off+len(es)], es)
}

func (x *Exec) appendV(s Value, es []Value, t types.Type) Value {
	if len(es) == 0 {
		return s
	}
	et := t.Underlying().(*types.Slice).Elem()
	agg := isAgg(et)
	var off, ln, cp int
	var a *Agg
	if s.p != nil {
		q := s.p.(*Slice)
		a, off, ln, cp = q.a, q.off, q.len, q.cap
	}
	if ln+len(es) <= cp {
		x.copyElems(a, off+ln, es)
		return Value{p: &Slice{a: a, off: off, len: ln + len(es), cap: cp}}
	}
	nc := growCap(ln+len(es), cp, int(x.p.sizes.Sizeof(et)))
	x.accountAlloc(int64(nc) * x.p.sizes.Sizeof(et))
	na := &Agg{e: make([]Value, nc), path: !x.initMode}
	for i := 0; i < ln; i++ {
		na.e[i] = x.cpElem(a.e[off+i], agg)
	}
	for i := range es {
		na.e[ln+i] = x.cpElem(es[i], agg)
	}
	if agg {
		for i := ln + len(es); i < nc; i++ {
			na.e[i] = x.zero(et)
		}
	}
	return Value{p: &Slice{a: na, len: ln + len(es), cap: nc}}
}

func (x *Exec) cpElem(v Value, agg bool) Value {
	if agg {
		return x.cp(v)
	}
	return v
}

// growCap mirrors runtime.nextslicecap with the malloc size classes for the
// common small sizes.
func growCap(n, old, size int) int {
	nc := old
	if n > 2*old {
		nc = n
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < n {
			nc += (nc + 3*256) / 4
		}
	}
	if size == 0 {
		return nc
	}
	b := nc * size
	for _, c := range sizeClasses {
		if b <= c {
			return c / size
		}
	}
	return (b + 8191) / 8192 * 8192 / size
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var _ ssa.Value
