package main

import (
	"crypto/aes"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(x *Exec, fr *frame, c *ccall, a []Value) Value

var intrinsics map[string]intrinsic

const ndPkg = modPath + "/internal/zzverif/nd"
const mdPkg = modPath + "/internal/zzverif/models"

// callPkg calls an interpreted function by package and name.
func (x *Exec) callPkg(pkg, name string, args ...Value) Value {
	p := x.p.pkgs[pkg]
	if p == nil || p.Func(name) == nil {
		x.unsupported("model %s.%s missing", pkg, name)
	}
	return x.callFn(x.p.fn(p.Func(name)), args, nil, nil)
}

func (x *Exec) namedType(pkg, name string) types.Type {
	p := x.p.pkgs[pkg]
	if p == nil {
		x.unsupported("package %s not loaded", pkg)
	}
	m := p.Type(name)
	if m == nil {
		x.unsupported("type %s.%s missing", pkg, name)
	}
	return m.Type()
}

// callMethod calls method name on an interface value if its dynamic type has it.
func (x *Exec) callMethod(v Value, name string, args ...Value) (Value, bool) {
	if v.p == nil {
		return Value{}, false
	}
	ifc := v.p.(*Iface)
	f := x.lookupMethod(ifc.t.t, name)
	if f == nil {
		return Value{}, false
	}
	return x.callFn(f, append([]Value{ifc.v}, args...), nil, nil), true
}

func (x *Exec) lookupMethod(t types.Type, name string) *cfn {
	x.p.msMu.Lock()
	defer x.p.msMu.Unlock()
	sel := x.p.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f := x.p.prog.MethodValue(sel)
	if f == nil {
		return nil
	}
	return x.p.fn(f)
}

func md(name string) intrinsic {
	return func(x *Exec, fr *frame, c *ccall, a []Value) Value { return x.callPkg(mdPkg, name, a...) }
}

func nop(x *Exec, fr *frame, c *ccall, a []Value) Value { return Value{} }
func ret0(x *Exec, fr *frame, c *ccall, a []Value) Value {
	return Value{}
}
func arg0(x *Exec, fr *frame, c *ccall, a []Value) Value { return a[0] }

type mutexState struct {
	locked  bool
	readers int
	vc      []int
	rvc     []int
}

func (x *Exec) mutex(v Value) *mutexState {
	if v.p == nil {
		x.throwRuntime("invalid memory address or nil pointer dereference")
	}
	k := ptrKey(v.p)
	if m, ok := x.side[k]; ok {
		return m.(*mutexState)
	}
	m := &mutexState{}
	x.side[k] = m
	return m
}

func (x *Exec) fatal(msg string) {
	panic(&goPanic{v: Value{p: &Iface{t: x.p.runtimeErr, v: strV("fatal error: " + msg)}}, where: x.where(), fatal: true})
}

func (x *Exec) lock(v Value) {
	if x.initMode {
		return
	}
	m := x.mutex(v)
	x.yield()
	x.blockOn("mutex", func() bool { return !m.locked && m.readers == 0 })
	m.locked = true
	x.acquire(&m.vc)
	x.acquire(&m.rvc)
}

func (x *Exec) unlock(v Value) {
	if x.initMode {
		return
	}
	m := x.mutex(v)
	if !m.locked {
		x.fatal("sync: unlock of unlocked mutex")
	}
	// no switch here: what follows up to the next acquisition is local, so a
	// switch before that acquisition reaches the same behaviours
	x.release(&m.vc)
	m.locked = false
}

type poolState struct {
	items []Value
	vc    []int
}

type atomState struct{ vc []int }

// atomSync orders atomic operations on one location.
func (x *Exec) atomSync(p Value) {
	if x.sched == nil || x.initMode {
		return
	}
	x.yield()
	x.atomOrder(p)
}

func (x *Exec) atomOrder(p Value) {
	if x.sched == nil || x.initMode {
		return
	}
	k := [2]any{"atomic", ptrKey(p.p)}
	s, _ := x.side[k].(*atomState)
	if s == nil {
		s = &atomState{}
		x.side[k] = s
	}
	x.acquire(&s.vc)
	x.release(&s.vc)
}

func atomicLoad(x *Exec, fr *frame, c *ccall, a []Value) Value {
	x.atomSync(a[0])
	return x.loadPtr(a[0], nil2())
}

func nil2() types.Type { return types.Typ[types.Uint64] }

func atomicStore(x *Exec, fr *frame, c *ccall, a []Value) Value {
	x.atomSync(a[0])
	x.storePtr(a[0], a[1], nil2())
	return Value{}
}

func atomicAdd(w uint8) intrinsic {
	return func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.atomSync(a[0])
		o := x.loadPtr(a[0], nil2())
		n := tv(x.tb.Add(x.term(o, w), x.term(a[1], w)))
		x.storePtr(a[0], n, nil2())
		return n
	}
}

func atomicBit(w uint8, or bool) intrinsic {
	return func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.atomSync(a[0])
		o := x.loadPtr(a[0], nil2())
		var n Value
		if or {
			n = tv(x.tb.OrB(x.term(o, w), x.term(a[1], w)))
		} else {
			n = tv(x.tb.AndB(x.term(o, w), x.term(a[1], w)))
		}
		x.storePtr(a[0], n, nil2())
		return o
	}
}

func atomicSwap(x *Exec, fr *frame, c *ccall, a []Value) Value {
	x.atomSync(a[0])
	o := x.loadPtr(a[0], nil2())
	x.storePtr(a[0], a[1], nil2())
	return o
}

func atomicCAS(w uint8) intrinsic {
	return func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.atomSync(a[0])
		o := x.loadPtr(a[0], nil2())
		var eq bool
		if w == 0 {
			eq = ptrKey(o.p) == ptrKey(a[1].p)
		} else {
			eq = x.branch(x.tb.Eq(x.term(o, w), x.term(a[1], w)))
		}
		if eq {
			x.storePtr(a[0], a[2], nil2())
		}
		return boolV(eq)
	}
}

// persistent per-object maps for sync.Map (undo-logged, so they survive init)
func (x *Exec) syncMap(p Value) *MapV {
	if x.initMode || x.syncMaps == nil {
		if x.syncMaps == nil {
			x.syncMaps = map[any]*MapV{}
		}
	}
	m := x.syncMaps[p.p]
	if m == nil {
		m = &MapV{idx: map[any]int{}}
		x.syncMaps[p.p] = m
	}
	return m
}

var anyT = types.NewInterfaceType(nil, nil).Complete()

// crcTab are the images of the single-bit indices (the table is linear).
var crcTab [8]uint32

func init() {
	for i := range crcTab {
		c := uint32(1) << i
		for k := 0; k < 8; k++ {
			if c&1 == 1 {
				c = c>>1 ^ 0xedb88320
			} else {
				c >>= 1
			}
		}
		crcTab[i] = c
	}
}

func crcByte(crc uint32, b byte) uint32 {
	i := byte(crc) ^ b
	r := crc >> 8
	for k := 0; k < 8; k++ {
		if i>>k&1 == 1 {
			r ^= crcTab[k]
		}
	}
	return r
}

// linear is a 32-bit value as an exclusive or of a constant and of masks
// selected by boolean terms.  Checksums are kept in this form: it is canonical
// however the data was split, and each output bit is one parity.
type linear struct {
	c     uint32
	atoms map[*Term]uint32
}

// flip adds m for every input in which the boolean t holds.
func (l *linear) flip(t *Term, m uint32) {
	if t.op == OConst {
		if t.val != 0 {
			l.c ^= m
		}
		return
	}
	if t.op == OBNot {
		l.c ^= m
		l.flip(t.a, m)
		return
	}
	if n := l.atoms[t] ^ m; n != 0 {
		l.atoms[t] = n
	} else {
		delete(l.atoms, t)
	}
}

// add adds the bits of t, selected by sel, at the given position.
func (x *Exec) linAdd(l *linear, t *Term, shift uint8) {
	switch {
	case t.isC():
		l.c ^= uint32(t.val) << shift
	case t.op == OXor:
		x.linAdd(l, t.a, shift)
		x.linAdd(l, t.b, shift)
	case t.op == ONot:
		l.c ^= uint32(mask(t.w)) << shift
		x.linAdd(l, t.a, shift)
	default:
		tb := x.tb
		for k := uint8(0); k < t.w; k++ {
			l.flip(tb.Eq(tb.Extract(t, k, k), tb.Const(1, 1)), 1<<(shift+k))
		}
	}
}

func (x *Exec) linTerm(l *linear) *Term {
	var as []*Term
	for t := range l.atoms {
		as = append(as, t)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].h < as[j].h })
	tb := x.tb
	r := tb.Const(32, 0)
	for _, t := range as {
		r = tb.XorB(r, tb.Ite(t, tb.Const(32, uint64(l.atoms[t])), tb.Const(32, 0)))
	}
	return tb.XorB(r, tb.Const(32, uint64(l.c)))
}

func (x *Exec) crcUpdate(crc Value, p []Value) Value {
	sym := crc.p != nil
	for _, b := range p {
		sym = sym || b.p != nil
	}
	if !sym {
		c := ^uint32(crc.u)
		for _, b := range p {
			c = crcByte(c, byte(b.u))
		}
		return Value{u: uint64(^c)}
	}
	l := &linear{atoms: map[*Term]uint32{}}
	if t, ok := crc.p.(*Term); ok {
		if o := x.tb.lin[t]; o != nil {
			l.c = o.c
			for k, v := range o.atoms {
				l.atoms[k] = v
			}
		} else {
			x.linAdd(l, t, 0)
		}
	} else {
		l.c = uint32(crc.u)
	}
	l.c = ^l.c
	for _, b := range p {
		if b.p == nil {
			l.c ^= uint32(byte(b.u))
		} else {
			x.linAdd(l, x.term(b, 8), 0)
		}
		l.c = crcByte(l.c, 0)
		for k, v := range l.atoms {
			l.atoms[k] = crcByte(v, 0)
		}
	}
	l.c = ^l.c
	t := x.linTerm(l)
	if t.isC() {
		return Value{u: t.val}
	}
	if x.tb.lin == nil {
		x.tb.lin = map[*Term]*linear{}
	}
	x.tb.lin[t] = l
	return tv(t)
}

// uf is an uninterpreted function of bytes, memoised per path.
func (x *Exec) uf(name string, n int, in []Value) []Value {
	var sb strings.Builder
	sb.WriteString(name)
	for _, v := range in {
		if t, ok := v.p.(*Term); ok {
			fmt.Fprintf(&sb, ",t%d", t.id)
		} else {
			fmt.Fprintf(&sb, ",%d", v.u)
		}
	}
	k := sb.String()
	if r, ok := x.side[k]; ok {
		return r.([]Value)
	}
	r := make([]Value, n)
	for i := range r {
		x.hidden[len(x.widths)] = true
		r[i] = x.newVar(8)
	}
	x.side[k] = r
	x.ufRecord(name, in, r)
	return r
}

type ufApp struct {
	in, out []Value
	conc    bool
}

// ufRecord adds an application of an uninterpreted function and the
// congruence with all earlier ones; concrete applications have the results of
// the real function.
func (x *Exec) ufRecord(name string, in, out []Value) {
	k := ufKey{name, len(in)}
	apps, _ := x.side[k].([]ufApp)
	_, c := concBytes(in)
	in = append([]Value(nil), in...)
	out = append([]Value(nil), out...)
	x.side[k] = append(apps[:len(apps):len(apps)], ufApp{in, out, c})
	for _, a := range apps {
		if a.conc && c {
			continue
		}
		e := x.bytesEq(a.in, in)
		if e.isC() && e.val == 0 {
			continue
		}
		x.assume(x.tb.Or(x.tb.Not(e), x.bytesEq(a.out, out)))
	}
}

type ufKey struct {
	name string
	n    int
}

func (x *Exec) isComparable(t types.Type) bool { return types.Comparable(t) }

func (x *Exec) errorsIs(err, target Value) bool {
	for {
		if err.p == nil || target.p == nil {
			return err.p == nil && target.p == nil
		}
		e, t := err.p.(*Iface), target.p.(*Iface)
		if e.t == t.t && types.Comparable(e.t.t) {
			if x.branch(x.equal(e.t.t, e.v, t.v)) {
				return true
			}
		}
		if f := x.lookupMethod(e.t.t, "Is"); f != nil && f.fn.Signature.Params().Len() == 1 && f.fn.Signature.Results().Len() == 1 {
			r := x.callFn(f, []Value{e.v, target}, nil, nil)
			if x.branch(x.term(r, 0)) {
				return true
			}
		}
		u, ok := x.callMethod(err, "Unwrap")
		if !ok {
			return false
		}
		if s, ok := u.p.(*Slice); ok {
			for _, q := range sliceElems(Value{p: s}) {
				if x.errorsIs(q, target) {
					return true
				}
			}
			return false
		}
		if u.p == nil {
			return false
		}
		err = u
	}
}

func (x *Exec) errorsAs(err, target Value) bool {
	if err.p == nil {
		return false
	}
	ti := target.p.(*Iface)
	et := ti.t.t.Underlying().(*types.Pointer).Elem()
	_, isI := et.Underlying().(*types.Interface)
	for {
		if err.p == nil {
			return false
		}
		e := err.p.(*Iface)
		if isI {
			if x.p.implements(e.t, x.p.rtype(et)) {
				x.storePtr(ti.v, err, et)
				return true
			}
		} else if e.t == x.p.rtype(et) {
			x.storePtr(ti.v, e.v, et)
			return true
		}
		if f := x.lookupMethod(e.t.t, "As"); f != nil && f.fn.Signature.Params().Len() == 1 {
			r := x.callFn(f, []Value{e.v, target}, nil, nil)
			if x.branch(x.term(r, 0)) {
				return true
			}
		}
		u, ok := x.callMethod(err, "Unwrap")
		if !ok {
			return false
		}
		if s, ok := u.p.(*Slice); ok {
			for _, q := range sliceElems(Value{p: s}) {
				if x.errorsAs(q, target) {
					return true
				}
			}
			return false
		}
		err = u
	}
}

// ---------------------------------------------------------------- fmt

func (x *Exec) fmtArg(verb byte, flags string, v Value) Value {
	if v.p == nil {
		if verb == 'd' {
			return strV("%!d(<nil>)")
		}
		return strV("<nil>")
	}
	i := v.p.(*Iface)
	switch verb {
	case 'v', 's', 'q', 'w':
		if x.lookupMethod(i.t.t, "Error") != nil {
			r, _ := x.callMethod(v, "Error")
			return r
		}
		if x.lookupMethod(i.t.t, "String") != nil {
			r, _ := x.callMethod(v, "String")
			return r
		}
	case 'T':
		return strV(i.t.String())
	}
	if isString(i.t.t) {
		if s, ok := goStr(i.v); ok {
			return strV(fmt.Sprintf("%"+flags+string(verb), s))
		}
		return i.v
	}
	if w, sg, ok := bitsOf(i.t.t); ok {
		if i.v.p != nil {
			return strV("?")
		}
		switch {
		case w == 0:
			return strV(fmt.Sprintf("%"+flags+string(verb), i.v.u != 0))
		case sg:
			return strV(fmt.Sprintf("%"+flags+string(verb), sx(i.v.u, w)))
		}
		return strV(fmt.Sprintf("%"+flags+string(verb), i.v.u))
	}
	if s, ok := i.v.p.(*Slice); ok {
		if b, ok := concBytes(sliceElems(Value{p: s})); ok {
			if st, ok := i.t.t.Underlying().(*types.Slice); ok {
				if w, _, _ := bitsOf(st.Elem()); w == 8 {
					return strV(fmt.Sprintf("%"+flags+string(verb), b))
				}
			}
		}
	}
	return strV("{" + i.t.String() + "}")
}

func (x *Exec) sprintf(f string, args []Value) (Value, []Value) {
	r := Value{}
	var wraps []Value
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = strConcat(r, strV(f[i:]))
			break
		}
		r = strConcat(r, strV(f[i:i+j]))
		i += j + 1
		k := i
		for k < len(f) && strings.IndexByte("0123456789.+-# ", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			break
		}
		verb := f[k]
		flags := f[i:k]
		i = k + 1
		if verb == '%' {
			r = strConcat(r, strV("%"))
			continue
		}
		if n >= len(args) {
			r = strConcat(r, strV("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			wraps = append(wraps, a)
			verb = 'v'
		}
		r = strConcat(r, x.fmtArg(verb, flags, a))
	}
	return r, wraps
}

func (x *Exec) errorf(a []Value) Value {
	f, _ := goStr(a[0])
	s, wraps := x.sprintf(f, sliceElems(a[1]))
	if len(wraps) == 0 {
		return x.callPkg("errors", "New", s)
	}
	name := "wrapError"
	inner := wraps[0]
	if len(wraps) > 1 {
		name = "wrapErrors"
		inner = x.newSlice(wraps)
	}
	t := x.namedType("fmt", name)
	o := x.zero(t).p.(*Agg)
	o.e[0], o.e[1] = s, inner
	return Value{p: &Iface{t: x.p.rtype(types.NewPointer(t)), v: Value{p: (*AggP)(o)}}}
}

// ---------------------------------------------------------------- encoding/binary

func (x *Exec) binSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, _, ok := bitsOf(t)
		if ok && w == 0 {
			return 1
		}
		if ok && u.Kind() != types.Int && u.Kind() != types.Uint && u.Kind() != types.Uintptr {
			return int(w) / 8
		}
	case *types.Array:
		n := x.binSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * int(u.Len())
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := x.binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func (x *Exec) binDecode(p Value, t types.Type, b []Value, big bool) []Value {
	switch u := t.Underlying().(type) {
	case *types.Array:
		a := p.p.(*AggP)
		for i := range a.e {
			b = x.binDecode(ptrTo(&a.e[i]), u.Elem(), b, big)
		}
		return b
	case *types.Struct:
		a := p.p.(*AggP)
		for i := range a.e {
			if u.Field(i).Name() == "_" {
				b = b[x.binSize(u.Field(i).Type()):]
				continue
			}
			b = x.binDecode(ptrTo(&a.e[i]), u.Field(i).Type(), b, big)
		}
		return b
	}
	w, _, _ := bitsOf(t)
	if w == 0 {
		x.storePtr(p, tv(x.tb.Not(x.tb.Eq(x.term(b[0], 8), x.tb.Const(8, 0)))), t)
		return b[1:]
	}
	n := int(w) / 8
	var r *Term
	for i := 0; i < n; i++ {
		k := n - 1 - i
		if big {
			k = i
		}
		q := x.term(b[k], 8)
		if r == nil {
			r = q
		} else {
			r = x.tb.Concat(r, q)
		}
	}
	x.storePtr(p, tv(r), t)
	return b[n:]
}

func (x *Exec) binEncode(v Value, t types.Type, big bool) []Value {
	switch u := t.Underlying().(type) {
	case *types.Array:
		var r []Value
		for _, e := range v.p.(*Agg).e {
			r = append(r, x.binEncode(e, u.Elem(), big)...)
		}
		return r
	case *types.Struct:
		var r []Value
		for i, e := range v.p.(*Agg).e {
			r = append(r, x.binEncode(e, u.Field(i).Type(), big)...)
		}
		return r
	}
	w, _, _ := bitsOf(t)
	if w == 0 {
		return []Value{tv(x.tb.Ite(x.term(v, 0), x.tb.Const(8, 1), x.tb.Const(8, 0)))}
	}
	n := int(w) / 8
	r := make([]Value, n)
	q := x.term(v, w)
	for i := 0; i < n; i++ {
		k := i
		if big {
			k = n - 1 - i
		}
		r[k] = tv(x.tb.Extract(q, uint8(8*i+7), uint8(8*i)))
	}
	return r
}

func isBig(order Value) bool {
	return strings.Contains(order.p.(*Iface).t.String(), "bigEndian")
}

func (x *Exec) binaryRead(a []Value) Value {
	r, order, data := a[0], a[1], a[2]
	if data.p == nil {
		x.unsupported("binary.Read nil")
	}
	di := data.p.(*Iface)
	var sz int
	var et types.Type
	var sl *Slice
	switch u := di.t.t.Underlying().(type) {
	case *types.Pointer:
		et = u.Elem()
		if _, ok := et.Underlying().(*types.Slice); ok {
			x.unsupported("binary.Read into *slice")
		}
		sz = x.binSize(et)
	case *types.Slice:
		et = u.Elem()
		if di.v.p == nil {
			return Value{}
		}
		sl = di.v.p.(*Slice)
		sz = x.binSize(et) * sl.len
	default:
		x.unsupported("binary.Read into %s", di.t)
	}
	if sz < 0 {
		return x.callPkg("errors", "New", strV("binary.Read: invalid type "+di.t.String()))
	}
	x.accountAlloc(int64(sz))
	buf := x.newSlice(make([]Value, sz))
	rv := x.callPkg("io", "ReadFull", r, buf).p.(Tuple)
	if rv[1].p != nil {
		return rv[1]
	}
	b := sliceElems(buf)
	if sl == nil {
		x.binDecode(di.v, et, b, isBig(order))
		return Value{}
	}
	for i := 0; i < sl.len; i++ {
		b = x.binDecode(ptrTo(&sl.a.e[sl.off+i]), et, b, isBig(order))
	}
	return Value{}
}

func (x *Exec) binaryWrite(a []Value) Value {
	w, order, data := a[0], a[1], a[2]
	di := data.p.(*Iface)
	var bs []Value
	switch u := di.t.t.Underlying().(type) {
	case *types.Pointer:
		bs = x.binEncode(x.loadPtr(di.v, u.Elem()), u.Elem(), isBig(order))
	case *types.Slice:
		for _, e := range sliceElems(di.v) {
			bs = append(bs, x.binEncode(e, u.Elem(), isBig(order))...)
		}
	default:
		bs = x.binEncode(di.v, di.t.t, isBig(order))
	}
	rv, _ := x.callMethod(w, "Write", x.newSlice(bs))
	return rv.p.(Tuple)[1]
}

// ---------------------------------------------------------------- table

func (x *Exec) indexByte(es []Value, c Value) Value {
	r := x.tb.Const(64, ^uint64(0))
	ct := x.term(c, 8)
	for i := len(es) - 1; i >= 0; i-- {
		r = x.tb.Ite(x.tb.Eq(x.term(es[i], 8), ct), x.tb.Const(64, uint64(i)), r)
	}
	return tv(r)
}

func (x *Exec) indexSeq(a, b []Value) Value {
	r := x.tb.Const(64, ^uint64(0))
	for i := len(a) - len(b); i >= 0; i-- {
		r = x.tb.Ite(x.bytesEq(a[i:i+len(b)], b), x.tb.Const(64, uint64(i)), r)
	}
	return tv(r)
}

func (x *Exec) countByte(es []Value, c Value) Value {
	r := x.tb.Const(64, 0)
	for i := range es {
		r = x.tb.Add(r, x.tb.Ite(x.tb.Eq(x.term(es[i], 8), x.term(c, 8)), x.tb.Const(64, 1), x.tb.Const(64, 0)))
	}
	return tv(r)
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I

	// --- nd
	for n, w := range map[string]uint8{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "Bool": 0, "I64": 64, "Int": 64} {
		w := w
		I[ndPkg+"."+n] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return x.newVar(w) }
	}
	I[ndPkg+".Bytes"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		n := int(x.toInt(a[0], 64, true))
		es := make([]Value, n)
		for i := range es {
			es[i] = x.newVar(8)
		}
		return x.newSlice(es)
	}
	I[ndPkg+".Choose"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		n := int(x.toInt(a[0], 64, true))
		if n <= 1 {
			return Value{}
		}
		return intV(x.choose(n))
	}
	I[ndPkg+".Assume"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.assume(x.term(a[0], 0))
		return Value{}
	}
	I[ndPkg+".Assert"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		msg, _ := goStr(a[1])
		x.assert(x.term(a[0], 0), msg)
		return Value{}
	}
	I[ndPkg+".Fail"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		msg, _ := goStr(a[0])
		x.asserts++
		x.violate("assert", msg, x.model)
		panic(&abort{"stop", ""})
	}
	I[ndPkg+".Cover"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		s, _ := goStr(a[0])
		if x.covers[s] == 0 {
			x.coverVals[s] = x.natVals(x.model)
		}
		x.covers[s]++
		return Value{}
	}
	I[ndPkg+".Symbolic"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return Value{u: 1} }
	I[ndPkg+".Tier"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return intV(x.run.tier) }
	I[ndPkg+".Log"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		s, _ := goStr(a[0])
		x.log = append(x.log, s)
		return Value{}
	}
	I[ndPkg+".Concrete"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		if t, ok := a[0].p.(*Term); ok {
			return Value{u: x.concretize(t)}
		}
		return a[0]
	}
	I[ndPkg+".AllocBudget"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.allocBudget = int64(a[0].u)
		x.allocLimit = x.allocBudget
		x.allocated = 0
		return Value{}
	}
	I[ndPkg+".MaxCount"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.maxCount = int64(a[0].u)
		return Value{}
	}
	I[ndPkg+".AllocLimit"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.allocLimit = int64(a[0].u)
		return Value{}
	}
	I[ndPkg+".StepLimit"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.stepLimit = x.steps + int64(a[0].u)
		return Value{}
	}
	I[ndPkg+".Stop"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { panic(&abort{"done", ""}) }
	I[ndPkg+".Go"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { x.start(a[0], nil, nil, nil); return Value{} }
	I[ndPkg+".Join"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { x.join(); return Value{} }
	I[ndPkg+".Sched"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.startSched(int(a[0].u))
		return Value{}
	}
	I[ndPkg+".SetNumCPU"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.side["numcpu"] = a[0]
		return Value{}
	}
	I[ndPkg+".SameArray"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		p, ok1 := a[0].p.(*Slice)
		q, ok2 := a[1].p.(*Slice)
		return boolV(ok1 && ok2 && p.a == q.a)
	}
	I[ndPkg+".And"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		return tv(x.tb.And(x.term(a[0], 0), x.term(a[1], 0)))
	}
	I[ndPkg+".Or"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		return tv(x.tb.Or(x.term(a[0], 0), x.term(a[1], 0)))
	}
	I[mdPkg+".sha256sum"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		es := sliceElems(a[0])
		if b, ok := concBytes(es); ok {
			h := sha256.Sum256(b)
			r := x.bytesV(h[:])
			x.ufRecord("sha256", es, sliceElems(r))
			return r
		}
		return x.newSlice(append([]Value(nil), x.uf("sha256", 32, es)...))
	}
	I[mdPkg+".aesEncrypt"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		k, ok1 := concBytes(sliceElems(a[0]))
		b, ok2 := concBytes(sliceElems(a[1]))
		blk, err := aes.NewCipher(k)
		if !ok1 || !ok2 || err != nil {
			x.unsupported("encryption of arbitrary bytes")
		}
		o := make([]byte, 16)
		blk.Encrypt(o, b)
		return x.bytesV(o)
	}
	I[mdPkg+".aesDecrypt"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		ks, bs := sliceElems(a[0]), sliceElems(a[1])
		k, ok1 := concBytes(ks)
		b, ok2 := concBytes(bs)
		if ok1 && ok2 {
			blk, err := aes.NewCipher(k)
			if err != nil {
				x.unsupported("aes key")
			}
			o := make([]byte, 16)
			blk.Decrypt(o, b)
			r := x.bytesV(o)
			x.ufRecord(fmt.Sprintf("aesdec%d", len(ks)), append(append([]Value(nil), ks...), bs...), sliceElems(r))
			return r
		}
		return x.newSlice(append([]Value(nil), x.uf(fmt.Sprintf("aesdec%d", len(ks)), 16, append(append([]Value(nil), ks...), bs...))...))
	}
	I["crypto/sha256.New"] = md("NewSHA256")
	I["crypto/sha256.Sum256"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		r := I[mdPkg+".sha256sum"](x, fr, c, a)
		return Value{p: &Agg{e: append([]Value(nil), sliceElems(r)...), path: true}}
	}
	I["(*io.LimitedReader).Read"] = md("LimitedRead")
	I[mdPkg+".isSym"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		_, ok := a[0].p.(*Term)
		return boolV(ok)
	}
	I["crypto/aes.NewCipher"] = md("NewCipher")
	I["crypto/cipher.NewCBCDecrypter"] = md("NewCBCDecrypter")

	// --- runtime
	I["runtime.NumCPU"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		if v, ok := x.side["numcpu"]; ok {
			return v.(Value)
		}
		return Value{u: 4}
	}
	I["time.runtimeNow"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		// one fixed instant
		return Value{p: Tuple{{u: 1700000000}, {}, {u: 1}}}
	}
	I["runtime.GOMAXPROCS"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		if v, ok := x.side["numcpu"]; ok {
			return v.(Value)
		}
		return Value{u: 4}
	}
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors", "hash/crc32.ieeeInit", "internal/godebug.registerMetric", "(*internal/godebug.Setting).IncNonDefault"} {
		I[n] = nop
	}
	I["runtime.Gosched"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { x.yield(); return Value{} }
	I["internal/abi.NoEscape"] = arg0
	I["internal/abi.Escape"] = arg0
	I["strings.noescape"] = arg0
	I["(*internal/godebug.Setting).Value"] = nop
	I["internal/godebug.New"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		return Value{p: (*AggP)(x.zero(x.namedType("internal/godebug", "Setting")).p.(*Agg))}
	}

	// --- sync
	I["(*sync.Mutex).Lock"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { x.lock(a[0]); return Value{} }
	I["(*sync.Mutex).Unlock"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { x.unlock(a[0]); return Value{} }
	I["(*sync.Mutex).TryLock"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		m := x.mutex(a[0])
		x.yield()
		if m.locked {
			return Value{}
		}
		m.locked = true
		x.acquire(&m.vc)
		return Value{u: 1}
	}
	I["(*internal/sync.Mutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*internal/sync.Mutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		if x.initMode {
			return Value{}
		}
		m := x.mutex(a[0])
		x.yield()
		x.blockOn("rwmutex", func() bool { return !m.locked })
		m.readers++
		x.acquire(&m.vc)
		return Value{}
	}
	I["(*sync.RWMutex).RUnlock"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		if x.initMode {
			return Value{}
		}
		m := x.mutex(a[0])
		if m.readers == 0 {
			x.fatal("sync: RUnlock of unlocked RWMutex")
		}
		x.release(&m.rvc)
		m.readers--
		return Value{}
	}
	type wgState struct {
		n  int64
		vc []int
	}
	wg := func(x *Exec, v Value) *wgState {
		k := ptrKey(v.p)
		if s, ok := x.side[k]; ok {
			return s.(*wgState)
		}
		s := &wgState{}
		x.side[k] = s
		return s
	}
	wgAdd := func(x *Exec, v Value, d int64) {
		s := wg(x, v)
		x.release(&s.vc)
		s.n += d
		if s.n < 0 {
			x.throwRuntime("sync: negative WaitGroup counter")
		}
		x.yield()
	}
	I["(*sync.WaitGroup).Add"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		wgAdd(x, a[0], int64(a[1].u))
		return Value{}
	}
	I["(*sync.WaitGroup).Done"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { wgAdd(x, a[0], -1); return Value{} }
	I["(*sync.WaitGroup).Wait"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		s := wg(x, a[0])
		x.yield()
		x.blockOn("WaitGroup", func() bool { return s.n == 0 })
		x.acquire(&s.vc)
		return Value{}
	}
	I["(*sync.Pool).Get"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		k := ptrKey(a[0].p)
		if !x.initMode {
			x.yield()
			if s, ok := x.side[k].(*poolState); ok && len(s.items) > 0 {
				v := s.items[len(s.items)-1]
				s.items = s.items[:len(s.items)-1]
				x.acquire(&s.vc)
				return v
			}
		}
		p := a[0].p.(*AggP)
		nf := p.e[len(p.e)-1] // New
		if nf.p == nil {
			return Value{}
		}
		return x.callVal(nf, nil, nil)
	}
	I["(*sync.Pool).Put"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		if x.initMode || a[1].p == nil {
			return Value{}
		}
		k := ptrKey(a[0].p)
		s, _ := x.side[k].(*poolState)
		if s == nil {
			s = &poolState{}
			x.side[k] = s
		}
		x.release(&s.vc)
		s.items = append(s.items, a[1])
		return Value{}
	}
	// Reading a sync.Map that no goroutine writes is no switch point; once a
	// write is met the exploration starts over with reads as switch points.
	smSync := func(x *Exec, v Value) {
		if x.run.mapStores.Load() {
			x.yield()
		}
		x.atomOrder(v)
	}
	smWrite := func(x *Exec, v Value) {
		if x.sched != nil && !x.initMode && !x.run.mapStores.Swap(true) {
			x.run.stop(restart)
		}
		x.atomSync(v)
	}
	I["(*sync.Map).Load"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		smSync(x, a[0])
		if e := x.mapFind(x.syncMap(a[0]), anyT, a[1]); e != nil {
			return Value{p: Tuple{e.val, {u: 1}}}
		}
		return Value{p: Tuple{{}, {}}}
	}
	smStore := func(x *Exec, p, k, v Value) {
		r := x.race
		x.race = nil
		x.mapUpdate(Value{p: x.syncMap(p)}, k, v, anyT)
		x.race = r
	}
	smDelete := func(x *Exec, p, k Value) {
		r := x.race
		x.race = nil
		x.mapDelete(Value{p: x.syncMap(p)}, k, anyT)
		x.race = r
	}
	I["(*sync.Map).Store"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		smWrite(x, a[0])
		smStore(x, a[0], a[1], a[2])
		return Value{}
	}
	I["(*sync.Map).LoadOrStore"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		smWrite(x, a[0])
		if e := x.mapFind(x.syncMap(a[0]), anyT, a[1]); e != nil {
			return Value{p: Tuple{e.val, {u: 1}}}
		}
		smStore(x, a[0], a[1], a[2])
		return Value{p: Tuple{a[2], {}}}
	}
	I["(*sync.Map).Swap"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		smWrite(x, a[0])
		r := Value{p: Tuple{{}, {}}}
		if e := x.mapFind(x.syncMap(a[0]), anyT, a[1]); e != nil {
			r = Value{p: Tuple{e.val, {u: 1}}}
		}
		smStore(x, a[0], a[1], a[2])
		return r
	}
	I["(*sync.Map).LoadAndDelete"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		smWrite(x, a[0])
		if e := x.mapFind(x.syncMap(a[0]), anyT, a[1]); e != nil {
			v := e.val
			smDelete(x, a[0], a[1])
			return Value{p: Tuple{v, {u: 1}}}
		}
		return Value{p: Tuple{{}, {}}}
	}
	I["(*sync.Map).Delete"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		smWrite(x, a[0])
		smDelete(x, a[0], a[1])
		return Value{}
	}
	I["(*sync.Map).CompareAndSwap"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		smWrite(x, a[0])
		if e := x.mapFind(x.syncMap(a[0]), anyT, a[1]); e != nil && x.branch(x.equal(anyT, e.val, a[2])) {
			smStore(x, a[0], a[1], a[3])
			return Value{u: 1}
		}
		return Value{}
	}
	I["(*sync.Map).Range"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		smSync(x, a[0])
		for _, e := range append([]*mapEnt(nil), x.syncMap(a[0]).ents...) {
			if e.dead {
				continue
			}
			if !x.branch(x.term(x.callVal(a[1], []Value{e.key, e.val}, nil), 0)) {
				break
			}
		}
		return Value{}
	}

	// --- sync/atomic
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		I["sync/atomic.Load"+t.n] = atomicLoad
		I["sync/atomic.Store"+t.n] = atomicStore
		I["sync/atomic.Swap"+t.n] = atomicSwap
		I["sync/atomic.CompareAndSwap"+t.n] = atomicCAS(t.w)
		if t.w > 0 {
			I["sync/atomic.Add"+t.n] = atomicAdd(t.w)
			I["sync/atomic.Or"+t.n] = atomicBit(t.w, true)
			I["sync/atomic.And"+t.n] = atomicBit(t.w, false)
		}
	}
	I["(*sync/atomic.Value).Load"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.atomSync(a[0])
		return a[0].p.(*AggP).e[0]
	}
	I["(*sync/atomic.Value).Store"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.atomSync(a[0])
		x.set(&a[0].p.(*AggP).e[0], a[1])
		return Value{}
	}
	I["(*sync/atomic.Value).Swap"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		x.atomSync(a[0])
		o := a[0].p.(*AggP).e[0]
		x.set(&a[0].p.(*AggP).e[0], a[1])
		return o
	}

	// --- errors, fmt
	I["errors.Is"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return boolV(x.errorsIs(a[0], a[1])) }
	I["errors.As"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return boolV(x.errorsAs(a[0], a[1])) }
	I["fmt.Errorf"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return x.errorf(a) }
	I["fmt.Sprintf"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		f, ok := goStr(a[0])
		if !ok {
			x.unsupported("symbolic format")
		}
		s, _ := x.sprintf(f, sliceElems(a[1]))
		return s
	}
	I["fmt.Sprint"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		r := Value{}
		for _, v := range sliceElems(a[0]) {
			r = strConcat(r, x.fmtArg('v', "", v))
		}
		return r
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "log.Printf", "log.Println", "log.Print"} {
		I[n] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
			if c != nil && c.sig != nil && c.sig.Results().Len() == 2 {
				return Value{p: Tuple{{}, {}}}
			}
			return Value{}
		}
	}

	// --- encoding/binary
	I["encoding/binary.Read"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return x.binaryRead(a) }
	I["encoding/binary.Write"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return x.binaryWrite(a) }
	I["encoding/binary.Size"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		i := a[0].p.(*Iface)
		t := i.t.t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			return intV(x.binSize(s.Elem()) * sliceLen(i.v))
		}
		return Value{u: uint64(int64(x.binSize(t)))}
	}

	// --- bytealg
	const ba = "internal/bytealg."
	I[ba+"IndexByte"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return x.indexByte(sliceElems(a[0]), a[1]) }
	I[ba+"IndexByteString"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return x.indexByte(strBytes(a[0]), a[1]) }
	I["strings.IndexByte"] = I[ba+"IndexByteString"]
	I["bytes.IndexByte"] = I[ba+"IndexByte"]
	I[ba+"Index"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		return x.indexSeq(sliceElems(a[0]), sliceElems(a[1]))
	}
	I[ba+"IndexString"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		return x.indexSeq(strBytes(a[0]), strBytes(a[1]))
	}
	I["bytes.Index"] = I[ba+"Index"]
	I["strings.Index"] = I[ba+"IndexString"]
	I["bytes.Contains"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		return tv(x.tb.Not(x.tb.Eq(x.term(x.indexSeq(sliceElems(a[0]), sliceElems(a[1])), 64), x.tb.Const(64, ^uint64(0)))))
	}
	I[ba+"Count"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return x.countByte(sliceElems(a[0]), a[1]) }
	I[ba+"CountString"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return x.countByte(strBytes(a[0]), a[1]) }
	I[ba+"Equal"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		return tv(x.bytesEq(sliceElems(a[0]), sliceElems(a[1])))
	}
	I["bytes.Equal"] = I[ba+"Equal"]
	cmp := func(x *Exec, p, q []Value) Value {
		lt, gt := x.bytesLess(p, q), x.bytesLess(q, p)
		tb := x.tb
		return tv(tb.Ite(lt, tb.Const(64, ^uint64(0)), tb.Ite(gt, tb.Const(64, 1), tb.Const(64, 0))))
	}
	I[ba+"Compare"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return cmp(x, sliceElems(a[0]), sliceElems(a[1])) }
	I["bytes.Compare"] = I[ba+"Compare"]
	I[ba+"CompareString"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value { return cmp(x, strBytes(a[0]), strBytes(a[1])) }
	I["strings.Compare"] = I[ba+"CompareString"]
	I["internal/stringslite.Index"] = I[ba+"IndexString"]
	I["internal/stringslite.IndexByte"] = I[ba+"IndexByteString"]
	I[ba+"MakeNoZero"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		n := x.toInt(a[0], 64, true)
		if n < 0 || n > x.allocLimit {
			x.allocExceeded(fmt.Sprintf("allocation of %d bytes", n))
		}
		x.accountAlloc(n)
		return x.newSlice(make([]Value, n))
	}
	I["strings.Clone"] = arg0
	I["internal/stringslite.Clone"] = arg0

	// --- math/bits
	one := func(f func(uint64) int, w uint8) intrinsic {
		return func(x *Exec, fr *frame, c *ccall, a []Value) Value {
			if t, ok := a[0].p.(*Term); ok {
				return Value{u: uint64(f(x.concretize(t)))}
			}
			return intV(f(a[0].u))
		}
	}
	// Len and LeadingZeros as ite chains
	blen := func(w uint8) intrinsic {
		return func(x *Exec, fr *frame, c *ccall, a []Value) Value {
			if a[0].p == nil {
				return intV(bits.Len64(a[0].u))
			}
			t := a[0].p.(*Term)
			if w == 8 && x.spec == 0 && !x.initMode {
				// used for variable-length numbers: a path per length keeps
				// the decoded value simple
				for i := int(w) - 1; i >= 0; i-- {
					if x.branch(x.tb.Eq(x.tb.Extract(t, uint8(i), uint8(i)), x.tb.Const(1, 1))) {
						return intV(i + 1)
					}
				}
				return intV(0)
			}
			r := x.tb.Const(64, 0)
			for i := uint8(0); i < w; i++ {
				r = x.tb.Ite(x.tb.Eq(x.tb.Extract(t, i, i), x.tb.Const(1, 1)), x.tb.Const(64, uint64(i)+1), r)
			}
			return tv(r)
		}
	}
	ones := func(w uint8) intrinsic {
		return func(x *Exec, fr *frame, c *ccall, a []Value) Value {
			if a[0].p == nil {
				return intV(bits.OnesCount64(a[0].u))
			}
			t := a[0].p.(*Term)
			r := x.tb.Const(64, 0)
			for i := uint8(0); i < w; i++ {
				r = x.tb.Add(r, x.tb.Zext(x.tb.Extract(t, i, i), 64))
			}
			return tv(r)
		}
	}
	tz := func(w uint8) intrinsic {
		return func(x *Exec, fr *frame, c *ccall, a []Value) Value {
			t := x.term(a[0], w)
			r := x.tb.Const(64, uint64(w))
			for i := int(w) - 1; i >= 0; i-- {
				r = x.tb.Ite(x.tb.Eq(x.tb.Extract(t, uint8(i), uint8(i)), x.tb.Const(1, 1)), x.tb.Const(64, uint64(i)), r)
			}
			return tv(r)
		}
	}
	_ = one
	for n, w := range map[string]uint8{"8": 8, "16": 16, "32": 32, "64": 64, "": 64} {
		w := w
		I["math/bits.Len"+n] = blen(w)
		I["math/bits.OnesCount"+n] = ones(w)
		I["math/bits.TrailingZeros"+n] = tz(w)
		bl := blen(w)
		I["math/bits.LeadingZeros"+n] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
			return tv(x.tb.Sub(x.tb.Const(64, uint64(w)), x.term(bl(x, fr, c, a), 64)))
		}
	}

	// --- hash/crc32
	I["hash/crc32.update"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		ieee := x.globalPtr(x.globalByName("hash/crc32", "IEEETable"))
		if x.loadPtr(ieee, nil2()).p != a[1].p {
			x.unsupported("crc32 table")
		}
		return x.crcUpdate(a[0], sliceElems(a[2]))
	}
	I["hash/crc32.slicingMakeTable"] = ret0
	I["hash/crc32.updateIEEE"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		return x.crcUpdate(a[0], sliceElems(a[1]))
	}
	I["hash/crc32.ChecksumIEEE"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		return x.crcUpdate(Value{}, sliceElems(a[0]))
	}

	// --- sort
	I["sort.Slice"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		i := a[0].p.(*Iface)
		n := sliceLen(i.v)
		if n < 2 {
			return Value{}
		}
		s := i.v.p.(*Slice)
		et := i.t.t.Underlying().(*types.Slice).Elem()
		swap := Value{p: &Closure{name: "swap", native: func(x *Exec, b []Value) Value {
			p, q := int(x.toInt(b[0], 64, true)), int(x.toInt(b[1], 64, true))
			if p == q {
				return Value{}
			}
			u, v := x.cp(s.a.e[s.off+p]), x.cp(s.a.e[s.off+q])
			if isAgg(et) {
				x.copyInto(s.a.e[s.off+p].p.(*Agg), v.p.(*Agg))
				x.copyInto(s.a.e[s.off+q].p.(*Agg), u.p.(*Agg))
			} else {
				x.setA(s.a, s.off+p, v)
				x.setA(s.a, s.off+q, u)
			}
			return Value{}
		}}}
		ls := x.zero(x.namedType("sort", "lessSwap"))
		ls.p.(*Agg).e[0], ls.p.(*Agg).e[1] = a[1], swap
		x.callPkg("sort", "pdqsort_func", ls, intV(0), intV(n), intV(bits.Len(uint(n))))
		return Value{}
	}
	I["sort.SliceStable"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		i := a[0].p.(*Iface)
		n := sliceLen(i.v)
		if n < 2 {
			return Value{}
		}
		s := i.v.p.(*Slice)
		et := i.t.t.Underlying().(*types.Slice).Elem()
		for k := 1; k < n; k++ {
			for j := k; j > 0 && x.branch(x.term(x.callVal(a[1], []Value{intV(j), intV(j - 1)}, nil), 0)); j-- {
				u, v := x.cp(s.a.e[s.off+j]), x.cp(s.a.e[s.off+j-1])
				if isAgg(et) {
					x.copyInto(s.a.e[s.off+j].p.(*Agg), v.p.(*Agg))
					x.copyInto(s.a.e[s.off+j-1].p.(*Agg), u.p.(*Agg))
				} else {
					x.setA(s.a, s.off+j, v)
					x.setA(s.a, s.off+j-1, u)
				}
			}
		}
		return Value{}
	}

	// --- crypto aliasing checks
	I["crypto/internal/fips140/alias.AnyOverlap"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		p, ok1 := a[0].p.(*Slice)
		q, ok2 := a[1].p.(*Slice)
		return boolV(ok1 && ok2 && p.a == q.a && p.len > 0 && q.len > 0 && p.off < q.off+q.len && q.off < p.off+p.len)
	}
	I["crypto/subtle.XORBytes"] = func(x *Exec, fr *frame, c *ccall, a []Value) Value {
		p, q := sliceElems(a[1]), sliceElems(a[2])
		n := min(len(p), len(q))
		if sliceLen(a[0]) < n {
			x.throwRuntime("subtle.XORBytes: dst too short")
		}
		r := make([]Value, n)
		for i := range r {
			r[i] = tv(x.tb.XorB(x.term(p[i], 8), x.term(q[i], 8)))
		}
		if n > 0 {
			d := a[0].p.(*Slice)
			x.copyElems(d.a, d.off, r)
		}
		return intV(n)
	}

	// pure enough to run inside merged regions
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.Equal", "internal/bytealg.Equal", "hash/crc32.ChecksumIEEE", "hash/crc32.update"} {
		pureIntrinsics[n] = true
	}
	for n := range I {
		if strings.HasPrefix(n, "math/bits.") {
			pureIntrinsics[n] = true
		}
	}
}

func (x *Exec) globalByName(pkg, name string) int {
	p := x.p.pkgs[pkg]
	if p == nil || p.Var(name) == nil {
		x.unsupported("global %s.%s", pkg, name)
	}
	x.p.mu.Lock()
	defer x.p.mu.Unlock()
	return x.p.globalIdx(p.Var(name))
}

var _ ssa.Value
