package h

import (
	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// utf8of is the UTF-8 form of a sequence of UTF-16 code units, unpaired
// surrogates replaced by U+FFFD.
func utf8of(u []uint16) []byte {
	var b []byte
	for i := 0; i < len(u); i++ {
		c := uint32(u[i])
		switch {
		case c < 0x80:
			b = append(b, byte(c))
			continue
		case c < 0x800:
			b = append(b, byte(0xc0|c>>6), byte(0x80|c&0x3f))
			continue
		case c >= 0xd800 && c < 0xdc00 && i+1 < len(u) && u[i+1] >= 0xdc00 && u[i+1] < 0xe000:
			c = 0x10000 + (c-0xd800)<<10 + (uint32(u[i+1]) - 0xdc00)
			i++
			b = append(b, byte(0xf0|c>>18), byte(0x80|c>>12&0x3f), byte(0x80|c>>6&0x3f), byte(0x80|c&0x3f))
			continue
		case c >= 0xd800 && c < 0xe000:
			c = 0xfffd
		}
		b = append(b, byte(0xe0|c>>12), byte(0x80|c>>6&0x3f), byte(0x80|c&0x3f))
	}
	return b
}

// listed opens an archive of n entries whose names property holds data; files
// are plain.
func listed(n int, data []byte) (*sevenzip.Reader, error) {
	e := make([]bool, n)
	for i := range e {
		e[i] = true
	}
	return open(archive(nil, header(nil, nil, encFiles(n, prop(kEmptyStream, bits(e)), prop(kNames, append([]byte{0}, data...))))))
}

func units(n int) []uint16 {
	u := make([]uint16, n)
	for i := range u {
		u[i] = nd.U16()
		nd.Assume(u[i] != 0)
	}
	return u
}

// lowPair reports whether two unpaired low surrogates follow each other.
func lowPair(u []uint16) bool {
	c := false
	for i := 1; i < len(u); i++ {
		l := nd.And(nd.And(u[i-1] >= 0xdc00, u[i-1] < 0xe000), nd.And(u[i] >= 0xdc00, u[i] < 0xe000))
		if i > 1 {
			l = nd.And(l, nd.Or(u[i-2] < 0xd800, u[i-2] >= 0xdc00))
		}
		c = nd.Or(c, l)
	}
	return c
}

// noLowPair leaves runs of unpaired low surrogates to H_C17_lowpair.
func noLowPair(u []uint16) { nd.Assume(!lowPair(u)) }

func le16s(u []uint16) []byte {
	var b []byte
	for _, c := range u {
		b = append(b, byte(c), byte(c>>8))
	}
	return b
}

//verif: prop=C17 budget=100
//bounds: two names of 0..2 and 0..1 (thorough 0..3 and 0..2) arbitrary non-zero code units each, except two unpaired low surrogates in a row
func H_C17_names() {
	a, b := units(nd.Choose(nd.Pick(3, 4))), units(nd.Choose(nd.Pick(2, 3)))
	noLowPair(a)
	noLowPair(b)
	d := append(append(le16s(a), 0, 0), append(le16s(b), 0, 0)...)
	r, err := listed(2, d)
	if err != nil {
		nd.Fail("well-formed names are refused: " + err.Error())
	}
	nd.Assert(len(r.File) == 2, "wrong number of files")
	eq([]byte(r.File[0].Name), utf8of(a), "the first name differs from the recorded one")
	eq([]byte(r.File[1].Name), utf8of(b), "the second name differs from the recorded one")
	nd.Cover("checked")
}

//verif: prop=C17 budget=100
//bounds: one to three files and 0..4 (thorough 0..5) arbitrary code units, zero, ASCII and high surrogate ones: accepted exactly when they form as many terminated names (an unterminated last name may be accepted or refused)
func H_C17_split() {
	n := 1 + nd.Choose(3)
	u := make([]uint16, nd.Choose(nd.Pick(5, 6)))
	var want [][]byte
	var cur []uint16
	open := false
	for i := range u {
		u[i] = nd.U16()
		nd.Assume(nd.Or(u[i] < 0x80, u[i] >= 0xd800 && u[i] < 0xd804))
		if u[i] == 0 {
			want = append(want, utf8of(cur))
			cur, open = nil, false
		} else {
			cur = append(cur, u[i])
			open = true
		}
	}
	r, err := listed(n, le16s(u))
	if open {
		if err == nil {
			nd.Assert(len(want)+1 == n, "a number of names different from the number of files is accepted")
			want = append(want, utf8of(cur))
		} else {
			nd.Cover("unterminated")
			return
		}
	}
	if err != nil {
		nd.Assert(len(want) != n, "well-formed names are refused")
		nd.Cover("refused")
		return
	}
	nd.Assert(len(want) == n, "a number of names different from the number of files is accepted")
	for i, f := range r.File {
		eq([]byte(f.Name), want[i], "a name differs from the recorded one")
	}
	nd.Cover("checked")
}

//verif: prop=C17 budget=100
//bounds: a name of 2045, 2047, 4093 or 4095 (thorough 2045..2050 and 4093..4098) units, around the buffer sizes in use, whose last two units are arbitrary, followed by a second name of one arbitrary ASCII unit
func H_C17_long() {
	n := []int{2045, 4093}[nd.Choose(2)] + 2*nd.Choose(nd.Pick(2, 3)) + nd.Choose(nd.Pick(1, 2))
	u := make([]uint16, n)
	for i := range u {
		u[i] = 'a' + uint16(i%26)
	}
	w := []uint16{'x', 0x7ff, 0xffff, 0xe000}[2*nd.Choose(2)+nd.Choose(nd.Pick(1, 2))]
	for i := 0; i < 8; i++ {
		u[i*(n/8)] = w
	}
	u[n-2], u[n-1] = nd.U16(), nd.U16()
	noLowPair(u[n-3:])
	b := nd.U16()
	nd.Assume(b < 0x80)
	nd.Assume(u[n-2] != 0 && u[n-1] != 0 && b != 0)
	d := append(append(le16s(u), 0, 0), append(le16s([]uint16{b}), 0, 0)...)
	r, err := listed(2, d)
	if err != nil {
		nd.Fail("well-formed names are refused: " + err.Error())
	}
	eq([]byte(r.File[0].Name), utf8of(u), "the first name differs from the recorded one")
	eq([]byte(r.File[1].Name), utf8of([]uint16{b}), "the second name differs from the recorded one")
	nd.Cover("checked")
}

//verif: prop=C17 budget=60
//bounds: a name of two arbitrary unpaired low surrogates between ASCII letters
func H_C17_lowpair() {
	u := []uint16{'a', nd.U16(), nd.U16(), 'b'}
	nd.Assume(lowPair(u))
	r, err := listed(1, append(le16s(u), 0, 0))
	if err != nil {
		nd.Fail("well-formed names are refused: " + err.Error())
	}
	nd.Cover("opened")
	eq([]byte(r.File[0].Name), utf8of(u), "two unpaired low surrogates in a row are not replaced one by one")
}

//verif: prop=C17 budget=60
//bounds: one name of 65530..65540 bytes and one of 98301 bytes (32767 units) whose last unit is arbitrary
func H_C17_huge() {
	n, w := 65530+nd.Choose(11), uint16('a')
	if nd.Choose(2) == 1 {
		n, w = 32767, 0x4e00
	}
	u := make([]uint16, n)
	for i := range u {
		u[i] = w
	}
	u[n-1] = nd.U16()
	nd.Assume(nd.And(u[n-1] > 0, u[n-1] < 0x80))
	r, err := listed(1, append(le16s(u), 0, 0))
	if err != nil {
		nd.Fail("well-formed names are refused: " + err.Error())
	}
	nd.Assert(r.File[0].Name == string(utf8of(u)), "the name differs from the recorded one")
	nd.Cover("checked")
}
