package main

import (
	"math/rand"
	"testing"
)

// Differential test: simplified terms evaluate the same as unsimplified semantics.
func TestSimplify(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for iter := 0; iter < 1500; iter++ {
		b := newTB()
		m := Model{}
		for i := 0; i < 6; i++ {
			m = append(m, r.Uint64()>>(r.Intn(64)))
		}
		type pr struct {
			t *Term
			v uint64
		}
		var pool []pr
		ws := []uint8{8, 8, 16, 32, 64, 8}
		for i := range m {
			m[i] &= mask(ws[i])
			pool = append(pool, pr{b.Var(ws[i], i), m[i]})
		}
		var bools []pr
		bools = append(bools, pr{b.tt, 1})
		for k := 0; k < 40; k++ {
			x := pool[r.Intn(len(pool))]
			y := pool[r.Intn(len(pool))]
			if r.Intn(3) == 0 {
				c := r.Uint64() >> r.Intn(64)
				if r.Intn(2) == 0 {
					c = mask(uint8(r.Intn(10))) << r.Intn(64)
				}
				c &= mask(x.t.w)
				y = pr{b.Const(x.t.w, c), c}
			}
			if y.t.w != x.t.w {
				if y.t.w < x.t.w {
					y = pr{b.Zext(y.t, x.t.w), y.v}
				} else {
					y = pr{b.Extract(y.t, x.t.w-1, 0), y.v & mask(x.t.w)}
				}
			}
			w := x.t.w
			var n pr
			isB := false
			switch op := Op(r.Intn(28) + 2); op {
			case OAdd:
				n = pr{b.Add(x.t, y.t), evalBin(op, w, x.v, y.v)}
			case OSub:
				n = pr{b.Sub(x.t, y.t), evalBin(op, w, x.v, y.v)}
			case OMul:
				n = pr{b.Mul(x.t, y.t), evalBin(op, w, x.v, y.v)}
			case OUDiv, OURem, OSDiv, OSRem:
				n = pr{b.Div(op, x.t, y.t), evalBin(op, w, x.v, y.v)}
			case OAnd:
				n = pr{b.AndB(x.t, y.t), x.v & y.v}
			case OOr:
				n = pr{b.OrB(x.t, y.t), x.v | y.v}
			case OXor:
				n = pr{b.XorB(x.t, y.t), x.v ^ y.v}
			case ONot:
				n = pr{b.NotB(x.t), ^x.v & mask(w)}
			case ONeg:
				n = pr{b.Neg(x.t), -x.v & mask(w)}
			case OShl:
				n = pr{b.Shl(x.t, y.t), evalBin(op, w, x.v, y.v)}
			case OLshr:
				n = pr{b.Lshr(x.t, y.t), evalBin(op, w, x.v, y.v)}
			case OAshr:
				n = pr{b.Ashr(x.t, y.t), evalBin(op, w, x.v, y.v)}
			case OConcat:
				if w+y.t.w > 64 {
					continue
				}
				n = pr{b.Concat(x.t, y.t), x.v<<y.t.w | y.v}
			case OExtract:
				hi := uint8(r.Intn(int(w)))
				lo := uint8(r.Intn(int(hi) + 1))
				n = pr{b.Extract(x.t, hi, lo), x.v >> lo & mask(hi-lo+1)}
			case OZext:
				nw := w + uint8(r.Intn(int(65-w)))
				n = pr{b.Zext(x.t, nw), x.v}
			case OSext:
				nw := w + uint8(r.Intn(int(65-w)))
				n = pr{b.Sext(x.t, nw), uint64(sx(x.v, w)) & mask(nw)}
			case OIte:
				c := bools[r.Intn(len(bools))]
				v := y.v
				if c.v != 0 {
					v = x.v
				}
				n = pr{b.Ite(c.t, x.t, y.t), v}
			case OEq:
				isB = true
				n = pr{b.Eq(x.t, y.t), b2u(x.v == y.v)}
			case OUlt:
				isB = true
				n = pr{b.Ult(x.t, y.t), b2u(x.v < y.v)}
			case OUle:
				isB = true
				n = pr{b.Ule(x.t, y.t), b2u(x.v <= y.v)}
			case OSlt:
				isB = true
				n = pr{b.Slt(x.t, y.t), b2u(sx(x.v, w) < sx(y.v, w))}
			case OSle:
				isB = true
				n = pr{b.Sle(x.t, y.t), b2u(sx(x.v, w) <= sx(y.v, w))}
			case OBAnd, OBOr, OBNot:
				c, d := bools[r.Intn(len(bools))], bools[r.Intn(len(bools))]
				isB = true
				switch op {
				case OBAnd:
					n = pr{b.And(c.t, d.t), c.v & d.v}
				case OBOr:
					n = pr{b.Or(c.t, d.t), c.v | d.v}
				case OBNot:
					n = pr{b.Not(c.t), 1 - c.v}
				}
			default:
				continue
			}
			b.newEpoch()
			if got := b.eval(n.t, m); got != n.v {
				t.Fatalf("iter %d: op result %v: got %x want %x", iter, dump(n.t), got, n.v)
			}
			if isB {
				bools = append(bools, n)
			} else {
				pool = append(pool, n)
			}
		}
	}
}

func dump(t *Term) string {
	var s smt
	return s.inline(t)
}
