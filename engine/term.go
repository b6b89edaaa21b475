package main

// Hash-consed bit-vector / boolean terms with a local simplifier and a
// concrete evaluator.  Width 0 is the Bool sort.

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

var opNames = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "concat", "extract", "zext", "sext", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "and", "or", "not"}

type Term struct {
	op      Op
	w       uint8
	hi, lo  uint8 // extract bounds
	a, b, c *Term
	val     uint64 // const value, or variable index
	id      int32
	h       uint64   // structural hash, independent of the table
	um      uint64   // upper bound of the unsigned value
	kz      uint64   // bits known to be zero
	vs      []uint64 // variables occurring in the term (bit set), computed on demand
	vsDone  bool
	// evaluation memo
	ep  uint32
	mem uint64
}

type tkey struct {
	op, w, hi, lo uint8
	a, b, c       int32
	val           uint64
}

type TB struct {
	tab    map[tkey]*Term
	nextID int32
	tt, ff *Term
	epoch  uint32
	small  [65][257]*Term
	lin    map[*Term]*linear // checksum values in linear form
}

func newTB() *TB {
	b := &TB{tab: make(map[tkey]*Term, 1<<16)}
	b.nextID = 1
	b.ff = b.mk(OConst, 0, 0, 0, nil, nil, nil, 0)
	b.tt = b.mk(OConst, 0, 0, 0, nil, nil, nil, 1)
	return b
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (b *TB) mk(op Op, w, hi, lo uint8, x, y, z *Term, val uint64) *Term {
	k := tkey{uint8(op), w, hi, lo, tid(x), tid(y), tid(z), val}
	if t, ok := b.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, hi: hi, lo: lo, a: x, b: y, c: z, val: val, id: b.nextID}
	b.nextID++
	b.tab[k] = t
	h := uint64(op)*0x9E3779B97F4A7C15 + uint64(w)<<8 + uint64(hi)<<16 + uint64(lo)<<24 + val*0xD6E8FEB86659FD93 + 1
	for _, c := range [3]*Term{x, y, z} {
		h = (h ^ h>>29) * 0xBF58476D1CE4E5B9
		if c != nil {
			h += c.h
		}
	}
	t.h = (h ^ h>>32) * 0x94D049BB133111EB
	t.bounds()
	return t
}

// bounds computes um and kz from the operands' bounds.
func (t *Term) bounds() {
	m := mask(t.w)
	um, kz := m, uint64(0)
	switch t.op {
	case OConst:
		um, kz = t.val, ^t.val&m
	case OZext:
		um, kz = t.a.um, m&^mask(t.a.w)|t.a.kz
	case OAnd:
		um = min(t.a.um, t.b.um)
		kz = t.a.kz | t.b.kz
	case OOr, OXor:
		kz = t.a.kz & t.b.kz
	case OIte:
		um = max(t.b.um, t.c.um)
		kz = t.b.kz & t.c.kz
	case OLshr:
		um = t.a.um
	case OConcat:
		um = t.a.um<<t.b.w | t.b.um
		kz = t.a.kz<<t.b.w | t.b.kz
	case OExtract:
		if t.a.um>>t.lo <= m {
			um = t.a.um >> t.lo
		}
		kz = t.a.kz >> t.lo & m
	case OURem:
		if t.b.isC() && t.b.val > 0 {
			um = t.b.val - 1
		}
	case OUDiv:
		if t.b.isC() && t.b.val > 0 {
			um = t.a.um / t.b.val
		}
	case OAdd:
		if s := t.a.um + t.b.um; s >= t.a.um && s <= m {
			um = s
		}
	}
	if z := m &^ kz; z < um {
		um = z
	}
	t.um, t.kz = um, kz
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (b *TB) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 0 {
		panic("Const w=0")
	}
	if v <= 256 {
		if t := b.small[w][v]; t != nil {
			return t
		}
		t := b.mk(OConst, w, 0, 0, nil, nil, nil, v)
		b.small[w][v] = t
		return t
	}
	return b.mk(OConst, w, 0, 0, nil, nil, nil, v)
}

func (b *TB) Bool(v bool) *Term {
	if v {
		return b.tt
	}
	return b.ff
}

func (b *TB) Var(w uint8, idx int) *Term { return b.mk(OVar, w, 0, 0, nil, nil, nil, uint64(idx)) }

func (t *Term) isC() bool { return t.op == OConst }

func (b *TB) Not(x *Term) *Term { // boolean not
	switch x.op {
	case OConst:
		return b.Bool(x.val == 0)
	case OBNot:
		return x.a
	case OUlt:
		return b.mk(OUle, 0, 0, 0, x.b, x.a, nil, 0)
	case OUle:
		return b.mk(OUlt, 0, 0, 0, x.b, x.a, nil, 0)
	case OSlt:
		return b.mk(OSle, 0, 0, 0, x.b, x.a, nil, 0)
	case OSle:
		return b.mk(OSlt, 0, 0, 0, x.b, x.a, nil, 0)
	}
	return b.mk(OBNot, 0, 0, 0, x, nil, nil, 0)
}

func (b *TB) And(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isC() {
		if x.val == 0 {
			return b.ff
		}
		return y
	}
	if y.isC() {
		if y.val == 0 {
			return b.ff
		}
		return x
	}
	if b.Not(x) == y {
		return b.ff
	}
	if x.h > y.h {
		x, y = y, x
	}
	return b.mk(OBAnd, 0, 0, 0, x, y, nil, 0)
}

func (b *TB) Or(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isC() {
		if x.val != 0 {
			return b.tt
		}
		return y
	}
	if y.isC() {
		if y.val != 0 {
			return b.tt
		}
		return x
	}
	if b.Not(x) == y {
		return b.tt
	}
	if x.h > y.h {
		x, y = y, x
	}
	return b.mk(OBOr, 0, 0, 0, x, y, nil, 0)
}

func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isC() {
		if c.val != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if c.op == OBNot {
		return b.Ite(c.a, y, x)
	}
	if x.w == 0 {
		if x.isC() {
			if x.val != 0 {
				return b.Or(c, y)
			}
			return b.And(b.Not(c), y)
		}
		if y.isC() {
			if y.val != 0 {
				return b.Or(b.Not(c), x)
			}
			return b.And(c, x)
		}
	}
	if x.op == OIte && x.a == c {
		return b.Ite(c, x.b, y)
	}
	if y.op == OIte && y.a == c {
		return b.Ite(c, x, y.c)
	}
	if y.op == OIte && y.b == x {
		return b.Ite(b.Or(c, y.a), x, y.c)
	}
	// pull a common extension / concat structure out
	if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
		return b.Zext(b.Ite(c, x.a, y.a), x.w)
	}
	return b.mk(OIte, x.w, 0, 0, c, x, y, 0)
}

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.tt
	}
	if x.w != y.w {
		panic("Eq width mismatch")
	}
	if x.isC() && y.isC() {
		return b.Bool(x.val == y.val)
	}
	if x.isC() {
		x, y = y, x
	}
	if x.w == 0 {
		if y.isC() {
			if y.val != 0 {
				return x
			}
			return b.Not(x)
		}
		if b.Not(x) == y {
			return b.ff
		}
	}
	if y.isC() {
		switch x.op {
		case OZext:
			if y.val > mask(x.a.w) {
				return b.ff
			}
			return b.Eq(x.a, b.Const(x.a.w, y.val))
		case OSext:
			lo := y.val & mask(x.a.w)
			if uint64(sx(lo, x.a.w))&mask(x.w) != y.val {
				return b.ff
			}
			return b.Eq(x.a, b.Const(x.a.w, lo))
		case OConcat:
			return b.And(b.Eq(x.a, b.Const(x.a.w, y.val>>x.b.w)), b.Eq(x.b, b.Const(x.b.w, y.val)))
		case OIte:
			if x.b.isC() && x.c.isC() {
				p, q := x.b.val == y.val, x.c.val == y.val
				switch {
				case p && q:
					return b.tt
				case p:
					return x.a
				case q:
					return b.Not(x.a)
				default:
					return b.ff
				}
			}
			if x.b.isC() {
				if x.b.val == y.val {
					return b.Or(x.a, b.Eq(x.c, y))
				}
				return b.And(b.Not(x.a), b.Eq(x.c, y))
			}
			if x.c.isC() {
				if x.c.val == y.val {
					return b.Or(b.Not(x.a), b.Eq(x.b, y))
				}
				return b.And(x.a, b.Eq(x.b, y))
			}
		case OAdd:
			if x.b.isC() {
				return b.Eq(x.a, b.Const(x.w, y.val-x.b.val))
			}
		case OSub:
			if x.a.isC() {
				return b.Eq(x.b, b.Const(x.w, x.a.val-y.val))
			}
		case OXor:
			if x.b.isC() {
				return b.Eq(x.a, b.Const(x.w, y.val^x.b.val))
			}
		case ONot:
			return b.Eq(x.a, b.Const(x.w, ^y.val))
		case OAnd:
			if x.b.isC() && y.val&^x.b.val != 0 {
				return b.ff
			}
		case OOr:
			if x.b.isC() && x.b.val&^y.val != 0 {
				return b.ff
			}
		}
	} else {
		if x.op == OZext && y.op == OZext {
			if x.a.w == y.a.w {
				return b.Eq(x.a, y.a)
			}
			if x.a.w > y.a.w {
				return b.Eq(x.a, b.Zext(y.a, x.a.w))
			}
			return b.Eq(b.Zext(x.a, y.a.w), y.a)
		}
		if x.op == OConcat && y.op == OConcat && x.b.w == y.b.w {
			return b.And(b.Eq(x.a, y.a), b.Eq(x.b, y.b))
		}
		if x.op == OAdd && y.op == OAdd && x.b.isC() && y.b.isC() {
			return b.Eq(x.a, b.AddC(y.a, y.b.val-x.b.val))
		}
		if x.op == OAdd && x.b.isC() && x.a == y || y.op == OAdd && y.b.isC() && y.a == x {
			return b.ff // constants are non-zero by construction
		}
	}
	if !y.isC() && x.h > y.h {
		x, y = y, x
	}
	return b.mk(OEq, 0, 0, 0, x, y, nil, 0)
}

func (b *TB) umax(t *Term) uint64 { return t.um }

func (b *TB) Ult(x, y *Term) *Term {
	if x == y {
		return b.ff
	}
	if x.w == 64 && (x.op == OAdd || y.op == OAdd) && b.umax(x) < 1<<63 && b.umax(y) < 1<<63 {
		if u, v, ok := b.cancel(x, y); ok {
			return b.Ult(u, v)
		}
	}
	if x.isC() && y.isC() {
		return b.Bool(x.val < y.val)
	}
	if y.isC() {
		if y.val == 0 {
			return b.ff
		}
		if y.val == 1 {
			return b.Eq(x, b.Const(x.w, 0))
		}
		if b.umax(x) < y.val {
			return b.tt
		}
		if x.op == OZext {
			if y.val > mask(x.a.w) {
				return b.tt
			}
			return b.Ult(x.a, b.Const(x.a.w, y.val))
		}
	}
	if x.isC() {
		if x.val == mask(x.w) {
			return b.ff
		}
		if b.umax(y) <= x.val {
			return b.ff
		}
		if y.op == OZext {
			return b.Ult(b.Const(y.a.w, x.val), y.a)
		}
	}
	if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
		return b.Ult(x.a, y.a)
	}
	return b.mk(OUlt, 0, 0, 0, x, y, nil, 0)
}

func (b *TB) Ule(x, y *Term) *Term { return b.Not(b.Ult(y, x)) }

func (b *TB) Slt(x, y *Term) *Term {
	if x == y {
		return b.ff
	}
	if x.isC() && y.isC() {
		return b.Bool(sx(x.val, x.w) < sx(y.val, y.w))
	}
	half := uint64(1) << (x.w - 1)
	if x.w == 64 && !y.isC() && x.op == OSub && x.a.isC() && x.a.val < half && b.umax(x.b) <= x.a.val && b.umax(y) < half && b.umax(x.b)+b.umax(y) < half {
		return b.Ult(x.a, b.Add(x.b, y)) // C - a < y
	}
	if b.umax(x) < half && b.umax(y) < half {
		return b.Ult(x, y)
	}
	if y.isC() && y.val < half && b.umax(x) < half {
		return b.Ult(x, y)
	}
	if y.isC() && y.val >= half && b.umax(x) < half { // y negative, x non-negative
		return b.ff
	}
	if x.isC() && x.val >= half && b.umax(y) < half {
		return b.tt
	}
	if y.isC() && y.val == half {
		return b.ff
	}
	if x.isC() && x.val == half-1 {
		return b.ff
	}
	return b.mk(OSlt, 0, 0, 0, x, y, nil, 0)
}

func (b *TB) Sle(x, y *Term) *Term { return b.Not(b.Slt(y, x)) }

func (b *TB) AddC(x *Term, c uint64) *Term { return b.Add(x, b.Const(x.w, c)) }

func (b *TB) Add(x, y *Term) *Term {
	if x.isC() {
		x, y = y, x
	}
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, x.val+y.val)
		}
		if y.val == 0 {
			return x
		}
		if x.op == OAdd && x.b.isC() {
			return b.AddC(x.a, x.b.val+y.val)
		}
		if x.op == OSub && x.a.isC() {
			return b.Sub(b.Const(x.w, x.a.val+y.val), x.b)
		}
		if x.op == OIte && x.b.isC() && x.c.isC() {
			return b.Ite(x.a, b.Add(x.b, y), b.Add(x.c, y))
		}
	} else {
		if x.op == OAdd && x.b.isC() {
			return b.AddC(b.Add(x.a, y), x.b.val)
		}
		if y.op == OAdd && y.b.isC() {
			return b.AddC(b.Add(x, y.a), y.b.val)
		}
		if x.op == OSub && x.b == y {
			return x.a
		}
		if y.op == OSub && y.b == x {
			return y.a
		}
		if x.op == ONeg {
			return b.Sub(y, x.a)
		}
		if y.op == ONeg {
			return b.Sub(x, y.a)
		}
		if x.w == 64 {
			// canonical order of the summands of a short sum
			var buf [12]*Term
			if l, ok := leaves(x, buf[:0], 10); ok {
				if l, ok = leaves(y, l, 10); ok {
					return b.sum(l)
				}
			}
		}
		if x.h > y.h {
			x, y = y, x
		}
	}
	return b.mk(OAdd, x.w, 0, 0, x, y, nil, 0)
}

// leaves appends the summands of t, unless there are more than max.
func leaves(t *Term, l []*Term, max int) ([]*Term, bool) {
	if t.op == OAdd && !t.b.isC() {
		l, ok := leaves(t.a, l, max)
		if !ok {
			return l, false
		}
		return leaves(t.b, l, max)
	}
	if len(l) >= max {
		return l, false
	}
	return append(l, t), true
}

// cancel drops the summands that occur in both sums.
func (b *TB) cancel(x, y *Term) (*Term, *Term, bool) {
	cx, cy := uint64(0), uint64(0)
	if x.op == OAdd && x.b.isC() {
		x, cx = x.a, x.b.val
	}
	if y.op == OAdd && y.b.isC() {
		y, cy = y.a, y.b.val
	}
	if x.isC() || y.isC() {
		return nil, nil, false
	}
	var bx, by [12]*Term
	lx, ok := leaves(x, bx[:0], 10)
	if !ok {
		return nil, nil, false
	}
	ly, ok := leaves(y, by[:0], 10)
	if !ok {
		return nil, nil, false
	}
	n := len(lx)
	for i := 0; i < len(ly); i++ {
		for j := range lx {
			if lx[j] == ly[i] {
				lx = append(lx[:j], lx[j+1:]...)
				ly = append(ly[:i], ly[i+1:]...)
				i--
				break
			}
		}
	}
	if len(lx) == n {
		return nil, nil, false
	}
	u, v := b.Const(64, 0), b.Const(64, 0)
	if len(lx) > 0 {
		u = b.sum(lx)
	}
	if len(ly) > 0 {
		v = b.sum(ly)
	}
	return b.AddC(u, cx), b.AddC(v, cy), true
}

// sum adds non-constant summands in canonical order.
func (b *TB) sum(l []*Term) *Term {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j].h < l[j-1].h; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	t := l[0]
	for _, u := range l[1:] {
		t = b.mk(OAdd, 64, 0, 0, t, u, nil, 0)
	}
	return t
}

func (b *TB) Sub(x, y *Term) *Term {
	if x == y {
		return b.Const(x.w, 0)
	}
	if x.isC() && y.isC() {
		return b.Const(x.w, x.val-y.val)
	}
	if y.isC() {
		return b.AddC(x, -y.val)
	}
	if y.op == OAdd && y.b.isC() {
		return b.AddC(b.Sub(x, y.a), -y.b.val)
	}
	if x.op == OAdd && x.b.isC() && !x.a.isC() {
		return b.AddC(b.Sub(x.a, y), x.b.val)
	}
	if x.op == OAdd {
		if x.a == y {
			return x.b
		}
		if x.b == y {
			return x.a
		}
	}
	if y.op == OSub && y.a == x {
		return y.b
	}
	if x.w == 64 && x.op == OAdd && !x.b.isC() && !y.isC() {
		if u, v, ok := b.cancel(x, y); ok {
			return b.Sub(u, v)
		}
	}
	return b.mk(OSub, x.w, 0, 0, x, y, nil, 0)
}

func (b *TB) Mul(x, y *Term) *Term {
	if x.isC() {
		x, y = y, x
	}
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, x.val*y.val)
		}
		switch {
		case y.val == 0:
			return y
		case y.val == 1:
			return x
		case y.val&(y.val-1) == 0:
			n := uint64(0)
			for v := y.val; v > 1; v >>= 1 {
				n++
			}
			return b.Shl(x, b.Const(x.w, n))
		}
		if x.op == OMul && x.b.isC() {
			return b.Mul(x.a, b.Const(x.w, x.b.val*y.val))
		}
	} else if x.h > y.h {
		x, y = y, x
	}
	return b.mk(OMul, x.w, 0, 0, x, y, nil, 0)
}

// division: callers guarantee a non-zero divisor
func (b *TB) Div(op Op, x, y *Term) *Term {
	if x.isC() && y.isC() {
		return b.Const(x.w, evalBin(op, x.w, x.val, y.val))
	}
	if y.isC() {
		v := y.val
		half := uint64(1) << (x.w - 1)
		if op == OSDiv && v < half && b.umax(x) < half {
			op = OUDiv
		}
		if op == OSRem && v < half && b.umax(x) < half {
			op = OURem
		}
		if v == 1 {
			if op == OUDiv || op == OSDiv {
				return x
			}
			return b.Const(x.w, 0)
		}
		if v != 0 && v&(v-1) == 0 {
			n := uint8(0)
			for q := v; q > 1; q >>= 1 {
				n++
			}
			if op == OUDiv {
				return b.Lshr(x, b.Const(x.w, uint64(n)))
			}
			if op == OURem {
				return b.AndB(x, b.Const(x.w, v-1))
			}
		}
	}
	return b.mk(op, x.w, 0, 0, x, y, nil, 0)
}

func (b *TB) AndB(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isC() {
		x, y = y, x
	}
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, x.val&y.val)
		}
		if y.val == 0 {
			return y
		}
		if y.val == mask(x.w) {
			return x
		}
		if x.op == OAnd && x.b.isC() {
			return b.AndB(x.a, b.Const(x.w, x.b.val&y.val))
		}
		// low mask => zext(extract)
		v := y.val
		if v&(v+1) == 0 {
			n := uint8(0)
			for q := v; q > 0; q >>= 1 {
				n++
			}
			return b.Zext(b.Extract(x, n-1, 0), x.w)
		}
		// contiguous mask => concat(0, extract, 0)
		lo := uint8(0)
		for q := v; q&1 == 0; q >>= 1 {
			lo++
		}
		u := v >> lo
		if u&(u+1) == 0 {
			hi := lo
			for q := u; q > 1; q >>= 1 {
				hi++
			}
			e := b.Concat(b.Extract(x, hi, lo), b.Const(lo, 0))
			return b.Zext(e, x.w)
		}
		if x.op == OConcat {
			return b.Concat(b.AndB(x.a, b.Const(x.a.w, v>>x.b.w)), b.AndB(x.b, b.Const(x.b.w, v)))
		}
		if x.op == OZext {
			return b.Zext(b.AndB(x.a, b.Const(x.a.w, v)), x.w)
		}
		if x.op == OIte && x.b.isC() && x.c.isC() {
			return b.Ite(x.a, b.AndB(x.b, y), b.AndB(x.c, y))
		}
	} else {
		if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
			return b.Zext(b.AndB(x.a, y.a), x.w)
		}
		if x.op == ONot && x.a == y || y.op == ONot && y.a == x {
			return b.Const(x.w, 0)
		}
		if x.h > y.h {
			x, y = y, x
		}
	}
	return b.mk(OAnd, x.w, 0, 0, x, y, nil, 0)
}

func (b *TB) knownZero(t *Term) uint64 { return t.kz }

func (b *TB) OrB(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isC() {
		x, y = y, x
	}
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, x.val|y.val)
		}
		if y.val == 0 {
			return x
		}
		if y.val == mask(x.w) {
			return y
		}
		if x.op == OOr && x.b.isC() {
			return b.OrB(x.a, b.Const(x.w, x.b.val|y.val))
		}
		if x.op == OIte && x.b.isC() && x.c.isC() {
			return b.Ite(x.a, b.OrB(x.b, y), b.OrB(x.c, y))
		}
	}
	if t := b.splitOr(x, y, OOr); t != nil {
		return t
	}
	if !y.isC() && x.h > y.h {
		x, y = y, x
	}
	return b.mk(OOr, x.w, 0, 0, x, y, nil, 0)
}

// parts: decompose t as a concatenation boundary list
func (b *TB) boundary(t *Term) uint8 {
	switch t.op {
	case OConcat:
		return t.b.w
	case OZext:
		return t.a.w
	}
	return 0
}

// splitOr splits x|y (or x^y) at a concat/zext boundary when the pieces become simple.
func (b *TB) splitOr(x, y *Term, op Op) *Term {
	kx, ky := b.knownZero(x), b.knownZero(y)
	m := mask(x.w)
	if (kx|ky)&m != m {
		// not disjoint; still split on shared boundary when structurally equal
		if bx := b.boundary(x); bx != 0 && bx == b.boundary(y) {
			hi := b.bit(op, b.Extract(x, x.w-1, bx), b.Extract(y, x.w-1, bx))
			lo := b.bit(op, b.Extract(x, bx-1, 0), b.Extract(y, bx-1, 0))
			return b.Concat(hi, lo)
		}
		if y.isC() {
			if bx := b.boundary(x); bx != 0 {
				hi := b.bit(op, b.Extract(x, x.w-1, bx), b.Const(x.w-bx, y.val>>bx))
				lo := b.bit(op, b.Extract(x, bx-1, 0), b.Const(bx, y.val))
				return b.Concat(hi, lo)
			}
		}
		return nil
	}
	// disjoint bits: split where one becomes zero
	cut := uint8(0)
	for _, t := range []*Term{x, y} {
		if c := b.boundary(t); c != 0 && c < x.w {
			cut = c
			break
		}
	}
	if cut == 0 {
		return nil
	}
	hi := b.bit(op, b.Extract(x, x.w-1, cut), b.Extract(y, x.w-1, cut))
	lo := b.bit(op, b.Extract(x, cut-1, 0), b.Extract(y, cut-1, 0))
	return b.Concat(hi, lo)
}

func (b *TB) bit(op Op, x, y *Term) *Term {
	switch op {
	case OOr:
		return b.OrB(x, y)
	case OXor:
		return b.XorB(x, y)
	}
	return b.AndB(x, y)
}

func (b *TB) XorB(x, y *Term) *Term {
	if x == y {
		return b.Const(x.w, 0)
	}
	if x.isC() {
		x, y = y, x
	}
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, x.val^y.val)
		}
		if y.val == 0 {
			return x
		}
		if y.val == mask(x.w) {
			return b.NotB(x)
		}
		if x.op == OXor && x.b.isC() {
			return b.XorB(x.a, b.Const(x.w, x.b.val^y.val))
		}
		if x.op == OIte && x.b.isC() && x.c.isC() {
			return b.Ite(x.a, b.XorB(x.b, y), b.XorB(x.c, y))
		}
	} else {
		if x.op == OXor && (x.a == y || x.b == y) {
			if x.a == y {
				return x.b
			}
			return x.a
		}
		if y.op == OXor && (y.a == x || y.b == x) {
			if y.a == x {
				return y.b
			}
			return y.a
		}
		if x.h > y.h {
			x, y = y, x
		}
	}
	return b.mk(OXor, x.w, 0, 0, x, y, nil, 0)
}

func (b *TB) NotB(x *Term) *Term {
	if x.isC() {
		return b.Const(x.w, ^x.val)
	}
	if x.op == ONot {
		return x.a
	}
	return b.mk(ONot, x.w, 0, 0, x, nil, nil, 0)
}

func (b *TB) Neg(x *Term) *Term {
	if x.isC() {
		return b.Const(x.w, -x.val)
	}
	if x.op == ONeg {
		return x.a
	}
	if x.op == OSub {
		return b.Sub(x.b, x.a)
	}
	return b.mk(ONeg, x.w, 0, 0, x, nil, nil, 0)
}

// Shl: y already has the same width as x; shift >= w yields 0.
func (b *TB) Shl(x, y *Term) *Term {
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, evalBin(OShl, x.w, x.val, y.val))
		}
		if y.val == 0 {
			return x
		}
		if y.val >= uint64(x.w) {
			return b.Const(x.w, 0)
		}
		n := uint8(y.val)
		return b.Concat(b.Extract(x, x.w-1-n, 0), b.Const(n, 0))
	}
	if x.isC() && x.val == 0 {
		return x
	}
	return b.mk(OShl, x.w, 0, 0, x, y, nil, 0)
}

func (b *TB) Lshr(x, y *Term) *Term {
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, evalBin(OLshr, x.w, x.val, y.val))
		}
		if y.val == 0 {
			return x
		}
		if y.val >= uint64(x.w) {
			return b.Const(x.w, 0)
		}
		n := uint8(y.val)
		return b.Zext(b.Extract(x, x.w-1, n), x.w)
	}
	if x.isC() && x.val == 0 {
		return x
	}
	return b.mk(OLshr, x.w, 0, 0, x, y, nil, 0)
}

func (b *TB) Ashr(x, y *Term) *Term {
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, evalBin(OAshr, x.w, x.val, y.val))
		}
		if y.val == 0 {
			return x
		}
		n := y.val
		if n >= uint64(x.w) {
			n = uint64(x.w) - 1
		}
		if b.umax(x) < uint64(1)<<(x.w-1) {
			return b.Lshr(x, b.Const(x.w, n))
		}
		return b.Sext(b.Extract(x, x.w-1, uint8(n)), x.w)
	}
	if b.umax(x) < uint64(1)<<(x.w-1) {
		return b.Lshr(x, y)
	}
	return b.mk(OAshr, x.w, 0, 0, x, y, nil, 0)
}

func (b *TB) Concat(hi, lo *Term) *Term {
	if hi.isC() && lo.isC() {
		return b.Const(hi.w+lo.w, hi.val<<lo.w|lo.val)
	}
	if hi.isC() && hi.val == 0 {
		return b.Zext(lo, hi.w+lo.w)
	}
	if hi.op == OZext {
		return b.Zext(b.Concat(hi.a, lo), hi.w+lo.w)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.a == lo.a && hi.lo == lo.hi+1 {
		return b.Extract(hi.a, hi.hi, lo.lo)
	}
	// right-associate: concat(concat(a,b),c) => concat(a, concat(b,c)) to allow merging
	if hi.op == OConcat {
		return b.Concat(hi.a, b.Concat(hi.b, lo))
	}
	if lo.op == OConcat {
		// try merge hi with lo.a
		if hi.isC() && lo.a.isC() {
			return b.Concat(b.Const(hi.w+lo.a.w, hi.val<<lo.a.w|lo.a.val), lo.b)
		}
		if hi.op == OExtract && lo.a.op == OExtract && hi.a == lo.a.a && hi.lo == lo.a.hi+1 {
			return b.Concat(b.Extract(hi.a, hi.hi, lo.a.lo), lo.b)
		}
	}
	return b.mk(OConcat, hi.w+lo.w, 0, 0, hi, lo, nil, 0)
}

func (b *TB) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	switch x.op {
	case OConst:
		return b.Const(w, x.val>>lo)
	case OExtract:
		return b.Extract(x.a, x.lo+hi, x.lo+lo)
	case OConcat:
		lw := x.b.w
		if hi < lw {
			return b.Extract(x.b, hi, lo)
		}
		if lo >= lw {
			return b.Extract(x.a, hi-lw, lo-lw)
		}
		return b.Concat(b.Extract(x.a, hi-lw, 0), b.Extract(x.b, lw-1, lo))
	case OZext:
		aw := x.a.w
		if lo >= aw {
			return b.Const(w, 0)
		}
		if hi < aw {
			return b.Extract(x.a, hi, lo)
		}
		return b.Zext(b.Extract(x.a, aw-1, lo), w)
	case OSext:
		if hi < x.a.w {
			return b.Extract(x.a, hi, lo)
		}
		if lo == 0 {
			return b.Sext(x.a, w)
		}
	case OAnd:
		return b.AndB(b.Extract(x.a, hi, lo), b.Extract(x.b, hi, lo))
	case OOr:
		return b.OrB(b.Extract(x.a, hi, lo), b.Extract(x.b, hi, lo))
	case OXor:
		return b.XorB(b.Extract(x.a, hi, lo), b.Extract(x.b, hi, lo))
	case ONot:
		return b.NotB(b.Extract(x.a, hi, lo))
	case OIte:
		if x.b.isC() || x.c.isC() {
			return b.Ite(x.a, b.Extract(x.b, hi, lo), b.Extract(x.c, hi, lo))
		}
	case OAdd:
		if lo == 0 {
			return b.Add(b.Extract(x.a, hi, 0), b.Extract(x.b, hi, 0))
		}
	case OSub:
		if lo == 0 {
			return b.Sub(b.Extract(x.a, hi, 0), b.Extract(x.b, hi, 0))
		}
	case ONeg:
		if lo == 0 {
			return b.Neg(b.Extract(x.a, hi, 0))
		}
	case OMul:
		if lo == 0 {
			return b.Mul(b.Extract(x.a, hi, 0), b.Extract(x.b, hi, 0))
		}
	}
	return b.mk(OExtract, w, hi, lo, x, nil, nil, 0)
}

func (b *TB) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isC() {
		return b.Const(w, x.val)
	}
	if x.op == OZext {
		return b.Zext(x.a, w)
	}
	return b.mk(OZext, w, 0, 0, x, nil, nil, 0)
}

func (b *TB) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isC() {
		return b.Const(w, uint64(sx(x.val, x.w)))
	}
	if x.op == OZext {
		return b.Zext(x.a, w)
	}
	if x.op == OSext {
		return b.Sext(x.a, w)
	}
	return b.mk(OSext, w, 0, 0, x, nil, nil, 0)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, c := sx(x, w), sx(y, w)
		if c == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if c == -1 {
			return uint64(-a) & m
		}
		return uint64(a/c) & m
	case OSRem:
		a, c := sx(x, w), sx(y, w)
		if c == 0 {
			return x
		}
		if c == -1 {
			return 0
		}
		return uint64(a%c) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	}
	panic("evalBin")
}

// Model maps variable index to value.
type Model []uint64

func (m Model) get(i uint64) uint64 {
	if i < uint64(len(m)) {
		return m[i]
	}
	return 0
}

func (b *TB) newEpoch() { b.epoch++ }

// eval evaluates t under m; caller must call newEpoch when m changes.
func (b *TB) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.ep == b.epoch {
		return t.mem
	}
	var v uint64
	switch t.op {
	case OVar:
		v = m.get(t.val)
		if t.w == 0 {
			v &= 1
		} else {
			v &= mask(t.w)
		}
	case ONot:
		v = ^b.eval(t.a, m) & mask(t.w)
	case ONeg:
		v = -b.eval(t.a, m) & mask(t.w)
	case OConcat:
		v = b.eval(t.a, m)<<t.b.w | b.eval(t.b, m)
	case OExtract:
		v = b.eval(t.a, m) >> t.lo & mask(t.w)
	case OZext:
		v = b.eval(t.a, m)
	case OSext:
		v = uint64(sx(b.eval(t.a, m), t.a.w)) & mask(t.w)
	case OIte:
		if b.eval(t.a, m) != 0 {
			v = b.eval(t.b, m)
		} else {
			v = b.eval(t.c, m)
		}
	case OEq:
		v = b2u(b.eval(t.a, m) == b.eval(t.b, m))
	case OUlt:
		v = b2u(b.eval(t.a, m) < b.eval(t.b, m))
	case OUle:
		v = b2u(b.eval(t.a, m) <= b.eval(t.b, m))
	case OSlt:
		v = b2u(sx(b.eval(t.a, m), t.a.w) < sx(b.eval(t.b, m), t.b.w))
	case OSle:
		v = b2u(sx(b.eval(t.a, m), t.a.w) <= sx(b.eval(t.b, m), t.b.w))
	case OBAnd:
		v = b.eval(t.a, m)
		if v != 0 {
			v = b.eval(t.b, m)
		}
	case OBOr:
		v = b.eval(t.a, m)
		if v == 0 {
			v = b.eval(t.b, m)
		}
	case OBNot:
		v = 1 - b.eval(t.a, m)
	default:
		v = evalBin(t.op, t.w, b.eval(t.a, m), b.eval(t.b, m))
	}
	t.ep, t.mem = b.epoch, v
	return v
}

func b2u(c bool) uint64 {
	if c {
		return 1
	}
	return 0
}

// vars is the set of variables occurring in t.
func (t *Term) vars() []uint64 {
	if t.vsDone {
		return t.vs
	}
	switch t.op {
	case OConst:
	case OVar:
		t.vs = make([]uint64, t.val/64+1)
		t.vs[t.val/64] |= 1 << (t.val % 64)
	default:
		r := t.a.vars()
		if t.b != nil {
			r = union(r, t.b.vars())
		}
		if t.c != nil {
			r = union(r, t.c.vars())
		}
		t.vs = r
	}
	t.vsDone = true
	return t.vs
}

// union shares storage with an operand when it can.
func union(a, b []uint64) []uint64 {
	if len(a) < len(b) {
		a, b = b, a
	}
	sub := true
	for i, w := range b {
		if w&^a[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := append([]uint64(nil), a...)
	for i, w := range b {
		r[i] |= w
	}
	return r
}

func meets(a, b []uint64) bool {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}
