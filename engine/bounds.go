package main

// Interval view of the path condition: conjuncts comparing one term with a
// constant are kept as one lower and one upper bound per term, so that
// conditions they imply need no query and superseded conjuncts are dropped.

type bnd struct {
	lo, hi   uint64
	iLo, iHi int // conjuncts in pc, -1: none
}

// asRange reads c as lo <= t <= hi, or (ne) t != lo.
func asRange(c *Term) (t *Term, lo, hi uint64, ne, ok bool) {
	switch c.op {
	case OBNot:
		t, lo, _, ne, ok = asRange(c.a)
		if ok && !ne && c.a.op == OEq {
			return t, lo, lo, true, true
		}
		return nil, 0, 0, false, false
	case OEq:
		if c.a.w == 0 {
			return
		}
		if c.a.isC() {
			return c.b, c.a.val, c.a.val, false, true
		}
		if c.b.isC() {
			return c.a, c.b.val, c.b.val, false, true
		}
	case OUlt:
		if c.b.isC() && c.b.val > 0 {
			return c.a, 0, c.b.val - 1, false, true
		}
		if c.a.isC() && c.a.val < mask(c.a.w) {
			return c.b, c.a.val + 1, mask(c.b.w), false, true
		}
	case OUle:
		if c.b.isC() {
			return c.a, 0, c.b.val, false, true
		}
		if c.a.isC() {
			return c.b, c.a.val, mask(c.b.w), false, true
		}
	}
	return
}

// implied reports whether the known bounds decide c.
func (x *Exec) implied(c *Term) (val, known bool) {
	t, lo, hi, ne, ok := asRange(c)
	if !ok {
		return
	}
	blo, bhi := uint64(0), t.um
	if b := x.bnds[t]; b != nil {
		blo, bhi = b.lo, min(b.hi, bhi)
	}
	if ne {
		if lo < blo || lo > bhi {
			return true, true
		}
		if blo == bhi && blo == lo {
			return false, true
		}
		return
	}
	if blo >= lo && bhi <= hi {
		return true, true
	}
	if bhi < lo || blo > hi {
		return false, true
	}
	return
}

// addPC adds a conjunct.
func (x *Exec) addPC(c *Term) {
	t, lo, hi, ne, ok := asRange(c)
	if !ok {
		x.pc = append(x.pc, c)
		return
	}
	b := x.bnds[t]
	if b == nil {
		b = &bnd{0, t.um, -1, -1}
		x.bnds[t] = b
	}
	if ne {
		switch lo {
		case b.lo:
			lo, hi = b.lo+1, mask(t.w)
			c = x.tb.Ule(x.tb.Const(t.w, lo), t)
		case b.hi:
			lo, hi = 0, b.hi-1
			c = x.tb.Ule(t, x.tb.Const(t.w, hi))
		default:
			x.pc = append(x.pc, c)
			return
		}
		if c.isC() {
			return
		}
	}
	i := len(x.pc)
	x.pc = append(x.pc, c)
	if lo > b.lo {
		if b.iLo >= 0 && b.iLo != b.iHi {
			x.pc[b.iLo] = nil
		}
		b.lo, b.iLo = lo, i
	}
	if hi < b.hi {
		if b.iHi >= 0 && b.iHi != b.iLo {
			x.pc[b.iHi] = nil
		}
		b.hi, b.iHi = hi, i
	}
}
