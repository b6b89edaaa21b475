package h

import (
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
	"github.com/bodgit/sevenzip/internal/zzverif/ref"
)

var idBCJ2 = []byte{3, 3, 1, 0x1b}

func bcj2Check(main, call, jump, rc []byte, size, from, rd, chunk int) {
	want, ok := ref.BCJ2(main, call, jump, rc, size)
	nd.Assume(ok)
	size = len(want)
	m := src(append([]byte(nil), main...))
	m.chunk = chunk
	c := src(append([]byte(nil), call...))
	c.chunk = chunk
	r := mustDecoder(idBCJ2, nil, uint64(size), m, c, src(append([]byte(nil), jump...)), src(append([]byte(nil), rc...)))
	got, err := drain(r, rd, size)
	nd.Assert(err == nil, "BCJ2 fails on valid streams")
	nd.Assert(len(got) == len(want), "BCJ2 output has the wrong length")
	eq(got[from:], want[from:], "BCJ2 output differs from the reference decoder")
}

//verif: prop=C09 budget=120
//bounds: main streams of 0..3 arbitrary bytes (thorough 5), 8 call and 4 jump bytes, range stream of zero plus 4..7 arbitrary bytes, every output size the reference accepts, reads of 1,3,64 bytes, chunked sources
func H_C09_any() {
	n := nd.Choose(nd.Pick(4, 6))
	main := nd.Bytes(n)
	call, jump := nd.Bytes(8), nd.Bytes(4)
	rc := append([]byte{0}, nd.Bytes(4+nd.Pick(2, 3))...)
	size := nd.Choose(n + 9)
	var rd, chunk int
	switch nd.Choose(3) {
	case 0:
		rd, chunk = 64, 0
	case 1:
		rd, chunk = 1, 0
	case 2:
		rd, chunk = 3, 1
	}
	bcj2Check(main, call, jump, rc, size, 0, rd, chunk)
	nd.Cover("checked")
}

//verif: prop=C09 budget=120
//bounds: branch-dense main streams of 4 opcodes from {e8,e9,0f 8x,00} (thorough 6), arbitrary call, jump and range-coder bytes, so that the adaptive probabilities of each context evolve
func H_C09_dense() {
	var main []byte
	for i := nd.Pick(4, 6); i > 0; i-- {
		switch nd.Choose(4) {
		case 0:
			main = append(main, 0xe8)
		case 1:
			main = append(main, 0xe9)
		case 2:
			main = append(main, 0x0f, 0x80|nd.U8()&0xf)
		case 3:
			main = append(main, 0)
		}
	}
	k := nd.Pick(4, 6)
	call, jump := nd.Bytes(4*k), nd.Bytes(4*k)
	rc := append([]byte{0}, nd.Bytes(4+nd.Pick(3, 4))...)
	// deliver everything the main stream defines
	bcj2Check(main, call, jump, rc, -1, 0, 64, 0)
	nd.Cover("checked")
}

//verif: prop=C09 budget=60 steps=80000000
//bounds: 2 arbitrary main bytes behind 65534..65537 inert ones (the decoder's internal buffer size), arbitrary call, jump and range-coder bytes
func H_C09_far() {
	pad := 65534 + nd.Choose(4)
	main := make([]byte, pad, pad+8)
	main = append(main, nd.Bytes(2)...)
	main = append(main, 0)
	call, jump := nd.Bytes(8), nd.Bytes(8)
	rc := append([]byte{0}, nd.Bytes(6)...)
	bcj2Check(main, call, jump, rc, -1, pad, []int{65536, 100000}[nd.Choose(2)], 0)
	nd.Cover("checked")
}

//verif: prop=C09 budget=100
//bounds: main streams of 7 or 8 opcodes that are not converted, in different contexts, then 3 (thorough 5) from {e8,e9,0f 8x} with a byte between them or not, so that the range is normalised in between; arbitrary remaining range-coder bytes, arbitrary call and jump bytes, range streams that end where the last decision needs no more of them
func H_C09_normalise() {
	var main []byte
	for i := 7 + nd.Choose(2); i > 0; i-- {
		main = append(main, byte(i), 0xe8)
	}
	k := nd.Pick(3, 5)
	for i := 0; i < k; i++ {
		if i == 0 || nd.Choose(2) == 1 {
			main = append(main, byte(0x20+i))
		}
		switch nd.Choose(3) {
		case 0:
			main = append(main, 0xe8)
		case 1:
			main = append(main, 0xe9)
		case 2:
			main = append(main, 0x0f, 0x85)
		}
	}
	call, jump := nd.Bytes(4*k+4), nd.Bytes(4*k)
	rc := append([]byte{0, 0}, nd.Bytes(4+nd.Choose(2))...)
	bcj2Check(main, call, jump, rc, -1, 0, 64, 0)
	nd.Cover("checked")
}
