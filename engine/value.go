package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

// Value is one interpreter value.  Scalars are stored in u (concrete) or as a
// *Term in p (symbolic).  All other kinds are stored in p; the zero Value is
// the zero of every non-aggregate type.
type Value struct {
	u uint64
	p any
}

// Agg is the storage of a struct or an array.
type Agg struct {
	e    []Value
	path bool // allocated during the current path (writes need no undo log)
}

// AggP is a pointer to an aggregate: the same storage under another dynamic
// type, so that pointers and aggregate values cannot be confused.
type AggP Agg

// Slice is a non-nil slice value.
type Slice struct {
	a             *Agg
	off, len, cap int
}

// SymStr is a string with at least one symbolic byte.
type SymStr struct{ b []Value }

// Iface is a non-nil interface value.
type Iface struct {
	t *rtype
	v Value
}

// ElemPtr is a pointer that remembers its backing array.
type ElemPtr struct {
	a *Agg
	i int
}

// SymPtr is a pointer to an array element at a symbolic index.
type SymPtr struct {
	a    *Agg
	off  int
	n    int
	idx  *Term // < n is implied by the path condition
	elem types.Type
}

// Closure is a function value.
type Closure struct {
	fn     *cfn
	env    []Value
	native func(x *Exec, args []Value) Value
	name   string
}

// Tuple is a multiple result.
type Tuple []Value

// BoundMethod etc. are synthesised by ssa as closures.

// MapV is a map.
type mapEnt struct {
	key, val Value
	dead     bool
}

type MapV struct {
	ents  []*mapEnt
	idx   map[any]int // concrete keys
	nsym  int         // live entries with symbolic keys
	count int
}

type mapIter struct {
	m *MapV
	i int
}

type strIter struct {
	s Value
	i int
}

// rtype is a canonical type.
type rtype struct {
	t  types.Type
	id int
}

func (r *rtype) String() string { return r.t.String() }

func bitsOf(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (w int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false
	}
	switch b.Kind() {
	case types.Float32:
		return 32, true
	case types.Float64, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// zero returns the zero value of t.
func (x *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{e: make([]Value, u.NumFields()), path: !x.initMode}
		for i := range a.e {
			if ft := u.Field(i).Type(); isAgg(ft) {
				a.e[i] = x.zero(ft)
			}
		}
		return Value{p: a}
	case *types.Array:
		return Value{p: x.newArray(u.Elem(), int(u.Len()))}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = x.zero(u.At(i).Type())
		}
		return Value{p: tp}
	}
	return Value{}
}

// hugeArray is the length from which only the first partArray elements of an
// array are modelled; a path that touches the others is out of bounds.
const (
	hugeArray = 1 << 25
	partArray = 1 << 12
)

func (x *Exec) newArray(et types.Type, n int) *Agg {
	if n > hugeArray && !isAgg(et) {
		n = partArray
		x.partial = true
	}
	a := &Agg{e: make([]Value, n), path: !x.initMode}
	if isAgg(et) {
		for i := range a.e {
			a.e[i] = x.zero(et)
		}
	}
	return a
}

// cp copies a value (deeply for aggregates).
func (x *Exec) cp(v Value) Value {
	if a, ok := v.p.(*Agg); ok {
		n := &Agg{e: make([]Value, len(a.e)), path: !x.initMode}
		for i := range a.e {
			if _, ok := a.e[i].p.(*Agg); ok {
				n.e[i] = x.cp(a.e[i])
			} else {
				n.e[i] = a.e[i]
			}
		}
		return Value{p: n}
	}
	return v
}

type trailEnt struct {
	s   *Value
	old Value
	f   func()
}

// set stores v in slot s (non-aggregate v), with undo logging.
func (x *Exec) set(s *Value, v Value) {
	if !x.initMode {
		x.trail = append(x.trail, trailEnt{s: s, old: *s})
	}
	*s = v
}

// store performs *s = v for any type.
func (x *Exec) store(s *Value, v Value) {
	if src, ok := v.p.(*Agg); ok {
		if dst, ok := s.p.(*Agg); ok {
			x.copyInto(dst, src)
			return
		}
		x.set(s, x.cp(v))
		return
	}
	x.set(s, v)
}

func (x *Exec) copyInto(dst, src *Agg) {
	if dst == src {
		return
	}
	for i := range src.e {
		if sa, ok := src.e[i].p.(*Agg); ok {
			if da, ok := dst.e[i].p.(*Agg); ok {
				x.copyInto(da, sa)
				continue
			}
			x.setA(dst, i, x.cp(src.e[i]))
			continue
		}
		x.setA(dst, i, src.e[i])
	}
}

func (x *Exec) setA(a *Agg, i int, v Value) {
	if !a.path && !x.initMode {
		x.trail = append(x.trail, trailEnt{s: &a.e[i], old: a.e[i]})
	}
	a.e[i] = v
}

func (x *Exec) undo(f func()) {
	if !x.initMode {
		x.trail = append(x.trail, trailEnt{f: f})
	}
}

func (x *Exec) rewind() {
	for i := len(x.trail) - 1; i >= 0; i-- {
		e := &x.trail[i]
		if e.f != nil {
			e.f()
		} else {
			*e.s = e.old
		}
		*e = trailEnt{}
	}
	x.trail = x.trail[:0]
}

// ---- scalars ----

func (x *Exec) term(v Value, w uint8) *Term {
	if t, ok := v.p.(*Term); ok {
		if t.w != w {
			panic(fmt.Sprintf("term width %d, want %d", t.w, w))
		}
		return t
	}
	if w == 0 {
		return x.tb.Bool(v.u != 0)
	}
	return x.tb.Const(w, v.u)
}

func tv(t *Term) Value {
	if t.op == OConst {
		return Value{u: t.val}
	}
	return Value{p: t}
}

func isSym(v Value) bool {
	_, ok := v.p.(*Term)
	return ok
}

func boolV(b bool) Value {
	if b {
		return Value{u: 1}
	}
	return Value{}
}

func intV(i int) Value { return Value{u: uint64(i)} }

func fbits(f float64) Value { return Value{u: math.Float64bits(f)} }

// ---- strings ----

func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.p))
}

func strAt(v Value, i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{u: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].u = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

// mkStr builds a string value from bytes (the slice is not retained unless symbolic; caller passes a private copy).
func mkStr(b []Value) Value {
	for _, v := range b {
		if v.p != nil {
			return Value{p: &SymStr{b}}
		}
	}
	if len(b) == 0 {
		return Value{}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, v := range b {
		sb.WriteByte(byte(v.u))
	}
	return Value{p: sb.String()}
}

func strSlice(v Value, i, j int) Value {
	switch s := v.p.(type) {
	case nil:
		return v
	case string:
		return strV(s[i:j])
	case *SymStr:
		return mkStr(s.b[i:j:j])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	if s, ok := a.p.(string); ok {
		if t, ok := b.p.(string); ok {
			return Value{p: s + t}
		}
	}
	r := append(append([]Value(nil), strBytes(a)...), strBytes(b)...)
	return mkStr(r)
}

// concrete Go string, if fully concrete
func goStr(v Value) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

// ---- slices ----

func sliceLen(v Value) int {
	if v.p == nil {
		return 0
	}
	return v.p.(*Slice).len
}

func sliceElems(v Value) []Value {
	if v.p == nil {
		return nil
	}
	s := v.p.(*Slice)
	return s.a.e[s.off : s.off+s.len]
}

func (x *Exec) newSlice(elems []Value) Value {
	return Value{p: &Slice{a: &Agg{e: elems, path: !x.initMode}, len: len(elems), cap: len(elems)}}
}

func concBytes(es []Value) ([]byte, bool) {
	r := make([]byte, len(es))
	for i, v := range es {
		if v.p != nil {
			return nil, false
		}
		r[i] = byte(v.u)
	}
	return r, true
}

// bytesV makes an interpreter []byte from Go bytes.
func (x *Exec) bytesV(b []byte) Value {
	e := make([]Value, len(b))
	for i, c := range b {
		e[i].u = uint64(c)
	}
	return x.newSlice(e)
}
