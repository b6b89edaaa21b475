package h

import (
	"bytes"
	"io"

	"github.com/bodgit/sevenzip/internal/brotli"
	"github.com/bodgit/sevenzip/internal/lzma"
	"github.com/bodgit/sevenzip/internal/lzma2"
	"github.com/bodgit/sevenzip/internal/ppmd"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// decodes checks that a decoder delivers exactly want and then end of file.
func decodes(r io.ReadCloser, err error, want []byte) {
	if err != nil {
		nd.Fail("a valid stream is refused: " + err.Error())
	}
	got := make([]byte, len(want)+1)
	n, err := io.ReadFull(r, got)
	if n != len(want) || err != io.EOF && err != io.ErrUnexpectedEOF {
		nd.Fail("a valid stream is not decoded to its end")
	}
	nd.Assert(bytes.Equal(got[:n], want), "a valid stream is decoded wrongly")
	nd.Assert(r.Close() == nil, "Close failed")
	nd.Cover("decoded")
}

//verif: prop=C28 budget=60
//bounds: every value 0..255 of the dictionary property, one stored chunk of 0..3 arbitrary bytes
func H_C28_lzma2() {
	nd.AllocLimit(1 << 40)
	p := nd.U8()
	d := nd.Bytes(nd.Choose(4))
	s := []byte{0}
	if len(d) > 0 {
		s = storedLZMA2(d)
	}
	r, err := lzma2.NewReader([]byte{p}, uint64(len(d)), []io.ReadCloser{src(s)})
	if p > 40 {
		nd.Assert(err != nil, "an undefined dictionary property is accepted")
		nd.Cover("refused")
		return
	}
	decodes(r, err, d)
}

// rangeEncoder is the range encoder of the LZMA specification.
type rangeEncoder struct {
	low   uint64
	rng   uint32
	cache byte
	size  int
	out   []byte
}

func (e *rangeEncoder) shift() {
	if uint32(e.low) < 0xff000000 || e.low>>32 != 0 {
		for ; e.size > 0; e.size-- {
			e.out = append(e.out, e.cache+byte(e.low>>32))
			e.cache = 0xff
		}
		e.cache = byte(e.low >> 24)
	}
	e.size++
	e.low = uint64(uint32(e.low) << 8)
}

func (e *rangeEncoder) bit(p map[int]uint16, k int, b int) {
	v, ok := p[k]
	if !ok {
		v = 1024
	}
	bound := (e.rng >> 11) * uint32(v)
	if b == 0 {
		e.rng = bound
		v += (2048 - v) >> 5
	} else {
		e.low += uint64(bound)
		e.rng -= bound
		v -= v >> 5
	}
	p[k] = v
	for e.rng < 1<<24 {
		e.rng <<= 8
		e.shift()
	}
}

func (e *rangeEncoder) tree(p map[int]uint16, base, n, v int) {
	m := 1
	for i := n - 1; i >= 0; i-- {
		b := v >> i & 1
		e.bit(p, base+m, b)
		m = m<<1 | b
	}
}

// encLZMA encodes lit as literals followed by a match of length 2 and distance
// 1, and an end marker if eos.
func encLZMA(lit []byte, lc, lp, pb int, eos bool) []byte {
	e := &rangeEncoder{rng: 0xffffffff, size: 1}
	isMatch, isRep, length, slot, align, literal := map[int]uint16{}, map[int]uint16{}, map[int]uint16{}, map[int]uint16{}, map[int]uint16{}, map[int]uint16{}
	prev := 0
	for i, c := range lit {
		e.bit(isMatch, i&(1<<pb-1), 0)
		ctx := (i&(1<<lp-1))<<lc + prev>>(8-lc)
		e.tree(literal, ctx*0x300, 8, int(c))
		prev = int(c)
	}
	pos := len(lit) & (1<<pb - 1)
	e.bit(isMatch, pos, 1)
	e.bit(isRep, 0, 0)
	e.bit(length, 0, 0)
	e.tree(length, 16+pos*8, 3, 0)
	e.tree(slot, 0, 6, 0)
	if eos {
		pos = (len(lit) + 2) & (1<<pb - 1)
		e.bit(isMatch, 7<<4+pos, 1)
		e.bit(isRep, 7, 0)
		e.bit(length, 0, 0)
		e.tree(length, 16+pos*8, 3, 0)
		e.tree(slot, 0, 6, 63)
		for i := 0; i < 26; i++ { // direct bits
			e.rng >>= 1
			e.low += uint64(e.rng)
			for e.rng < 1<<24 {
				e.rng <<= 8
				e.shift()
			}
		}
		m := 1
		for i := 0; i < 4; i++ {
			e.bit(align, m, 1)
			m = m<<1 | 1
		}
	}
	for i := 0; i < 5; i++ {
		e.shift()
	}
	return e.out
}

//verif: prop=C28 budget=60 steps=100000000
//bounds: literal context bits 0..8, literal position bits 0..4, position bits 0..4 (thorough all combinations, quick those with one of them at its end and another arbitrary), three contents of up to five literals and a match, with and without end marker, every 32-bit dictionary size
func H_C28_lzma() {
	nd.AllocLimit(1 << 40)
	lc, lp, pb := nd.Choose(9), nd.Choose(5), nd.Choose(5)
	if nd.Pick(0, 1) == 0 && !(lc == 3 && lp == 0 || lp == 0 && pb == 2 || lc == 0 && pb == 0 || lc == 8 && lp == 4) {
		return
	}
	lit := [][]byte{{0xff}, {1, 0x81, 0xc1}, {'h', 'e', 'l', 'l', 0x80}}[nd.Choose(3)]
	s := encLZMA(lit, lc, lp, pb, nd.Choose(2) == 1)
	d := nd.Bytes(4)
	r, err := lzma.NewReader(cat([]byte{byte((pb*5+lp)*9 + lc)}, d), uint64(len(lit)+2), []io.ReadCloser{src(s)})
	decodes(r, err, cat(lit, lit[len(lit)-1:], lit[len(lit)-1:]))
}

//verif: prop=C28 budget=60
//bounds: every order 0..255, memory of 2048, 2049, 65536 and 1048576 bytes, and the first decoded byte of every stream of 4 arbitrary code bytes
func H_C28_ppmd() {
	o := nd.U8()
	m := []uint32{2048, 2049, 1 << 16, 1 << 20}[nd.Choose(4)]
	b := nd.Bytes(4)
	// the first symbol is one of 256 with a frequency of 1 of 257
	code := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	want := code / 0xff00ff
	nd.Assume(want < 256)
	r, err := ppmd.NewReader([]byte{o, byte(m), byte(m >> 8), byte(m >> 16), byte(m >> 24)}, 1, []io.ReadCloser{src(cat([]byte{0}, b, make([]byte, 8)))})
	if o < 2 || o > 64 {
		nd.Assert(err != nil, "an undefined order is accepted")
		nd.Cover("refused")
		return
	}
	decodes(r, err, []byte{byte(want)})
}

//verif: prop=C28 budget=60
//bounds: a stored stream of 0..14 arbitrary bytes with or without the frame header that 7-Zip writes, read from a source that delivers it in one or several pieces
func H_C28_brotli() {
	d := nd.Bytes([]int{0, 1, 3, 9, 12, 14}[nd.Choose(6)])
	s := []byte{6}
	if len(d) > 0 {
		s = storedBrotli(d)[16:]
	}
	if nd.Choose(2) == 1 {
		s = cat([]byte{0x50, 0x2a, 0x4d, 0x18, 8, 0, 0, 0, byte(len(s)), 0, 0, 0, 'B', 'R', 1, 0}, s)
	}
	r, err := brotli.NewReader(nil, uint64(len(d)), []io.ReadCloser{io.NopCloser(bytes.NewReader(s))})
	decodes(r, err, d)
}
