package h

import (
	"bytes"
	"hash/crc32"
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// payload is an archive of two members of p, with a plain header or an
// encoded one that is stored.
func payload(p []byte, enc bool) []byte {
	h := tiny()
	if !enc {
		return archive(p, h)
	}
	f := &afolder{coders: []acoder{one(0, uint64(len(h)))}, crc: crc(h)}
	e := append([]byte{kEncodedHeader}, encStreams(num(3), [][]byte{num(uint64(len(h)))}, []*afolder{f})...)
	return archive(append(append([]byte(nil), p...), h...), append(e, kEnd))
}

// checkPayload asserts that the archive lists and reads the two members.
func checkPayload(r *sevenzip.Reader, p []byte) {
	nd.Assert(len(r.File) == 2, "another number of members is listed")
	nd.Assert(r.File[0].Name == "a" && r.File[1].Name == "b", "other names are listed")
	eq(contents(r.File[0], 4), p[:1], "a member reads as other bytes")
	eq(contents(r.File[1], 4), p[1:], "a member reads as other bytes")
}

// eofAt is a ReaderAt that reports the end of file along with the last bytes.
type eofAt struct{ b []byte }

func (r eofAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.b)) {
		return 0, io.EOF
	}
	n := copy(p, r.b[off:])
	if off+int64(n) == int64(len(r.b)) {
		return n, io.EOF
	}
	return n, nil
}

func openAny(b []byte, eof bool) (*sevenzip.Reader, error) {
	if eof {
		return sevenzip.NewReader(eofAt{b}, int64(len(b)))
	}
	return open(b)
}

// noise is n arbitrary bytes that are no valid signature header when b follows.
func noise(n int) []byte { return nd.Bytes(n) }

// wellFormed reports whether a signature header with a matching checksum
// starts at b[i].
func wellFormed(b []byte, i int) bool {
	if i+32 > len(b) {
		return false
	}
	d := true
	for j, c := range sig {
		d = nd.And(d, b[i+j] == c)
	}
	if !d {
		return false
	}
	w := crc32.ChecksumIEEE(b[i+12 : i+32])
	h := b[i+8:]
	return uint32(h[0])|uint32(h[1])<<8|uint32(h[2])<<16|uint32(h[3])<<24 == w
}

//verif: prop=C24 budget=100
//bounds: 0..9 (thorough 14) arbitrary bytes that do not start with the signature before an archive with a plain or an encoded header and arbitrary contents, from a source that reports its end early or late
func H_C24_prefix() {
	n := nd.Choose(nd.Pick(10, 15))
	p := nd.Bytes(3)
	b := payload(p, nd.Choose(2) == 1)
	pre := noise(n)
	b = append(append([]byte(nil), pre...), b...)
	if n >= 6 {
		nd.Assume(!bytes.Equal(pre[:6], sig))
	}
	for i := 0; i < n; i++ {
		nd.Assume(!wellFormed(b, i))
	}
	r, err := openAny(b, nd.Choose(2) == 1)
	if err != nil {
		nd.Fail("an archive behind a prefix is refused: " + err.Error())
	}
	checkPayload(r, p)
	nd.Cover("checked")
}

//verif: prop=C24 budget=100
//bounds: prefixes that place the archive at -40..+40 bytes around multiples 1 and 2 (thorough also 255) of the 4096 byte chunks in which it is searched, with 0..2 false signatures at chosen places in the prefix followed by 26 bytes of which the checksum is arbitrary but wrong
func H_C24_chunks() {
	n := []int{4096, 8192, 255 * 4096}[nd.Choose(nd.Pick(2, 3))] + 8*nd.Choose(11) - 40
	n += nd.Choose(nd.Pick(1, 8))
	pre := make([]byte, n)
	for k := copy(pre, "7MzZ"); k < n; k *= 2 {
		copy(pre[k:], pre[:k])
	}
	var ats []int
	for k := nd.Choose(3); k > 0; k-- {
		at := []int{1, 4090, 4094, 4096, n - 32, n - 12, n - 6}[nd.Choose(7)]
		if at+6 > n {
			continue
		}
		copy(pre[at:], sig)
		ats = append(ats, at)
		if at+12 <= n {
			copy(pre[at+8:], nd.Bytes(4))
		}
	}
	p := []byte{nd.U8(), 2, 3}
	b := append(pre, payload(p, nd.Choose(2) == 1)...)
	for _, at := range ats {
		nd.Assume(!wellFormed(b, at))
	}
	r, err := openAny(b, false)
	if err != nil {
		nd.Fail("an archive behind a prefix is refused: " + err.Error())
	}
	checkPayload(r, p)
	nd.Cover("checked")
}

//verif: prop=C24 budget=100
//bounds: a complete different archive, or a signature alone, inside the members of an archive at offset zero (4 arbitrary bytes between), and archives at offset zero whose start header has any wrong checksum followed by a valid archive
func H_C24_first() {
	other := payload([]byte{9, 9, 9}, false)
	if nd.Choose(2) == 0 {
		in := append(nd.Bytes(4), other[:len(other)-nd.Choose(2)*(len(other)-6)]...)
		f := &afolder{coders: []acoder{one(0, uint64(len(in)))}}
		b := archive(in, header(encStreams(num(0), [][]byte{num(uint64(len(in)))}, []*afolder{f}), nil, encFiles(1, encNames([]string{"x"}))))
		b = append(b, other[:nd.Choose(2)*len(other)]...)
		r := mustOpen(b)
		nd.Assert(len(r.File) == 1 && r.File[0].Name == "x", "another archive than the one at the start is listed")
		eq(contents(r.File[0], len(in)), in, "a member reads as other bytes")
		nd.Cover("first")
		return
	}
	b := append(payload([]byte{1, 2, 3}, false), other...)
	v := nd.U32()
	nd.Assume(v != crc32.ChecksumIEEE(b[12:32]))
	copy(b[8:], le32(v))
	mustRefuse(b)
	nd.Cover("broken")
}

//verif: prop=C24 budget=60
//bounds: 0..40 arbitrary bytes without the signature, or with any one byte of the signature changed at offset 0, 1 or 7 of an archive; an archive more than 4096+6 bytes beyond the search limit; the last place that is searched for certain
func H_C24_none() {
	switch nd.Choose(4) {
	case 0:
		b := nd.Bytes(nd.Choose(41))
		for i := 0; i+6 <= len(b); i++ {
			nd.Assume(!bytes.Equal(b[i:i+6], sig))
		}
		mustRefuse(b)
		nd.Cover("short")
	case 1:
		b := append(make([]byte, []int{0, 1, 7}[nd.Choose(3)]), payload([]byte{1, 2, 3}, false)...)
		i := len(b) - len(payload([]byte{1, 2, 3}, false)) + nd.Choose(6)
		x := nd.U8()
		nd.Assume(x != 0)
		b[i] ^= x
		mustRefuse(b)
		nd.Cover("changed")
	case 2:
		mustRefuse(append(make([]byte, 1<<20+4096+7), payload([]byte{1, 2, 3}, false)...))
		nd.Cover("far")
	case 3:
		p := nd.Bytes(3)
		r := mustOpen(append(make([]byte, 1<<20-1), payload(p, false)...))
		checkPayload(r, p)
		nd.Cover("last")
	}
}

//verif: prop=C24,C20 budget=60
//bounds: a self-extracting archive (prefix of one arbitrary byte or of 4200 bytes) split into two volumes at any place
func H_C24_volumes() {
	p := []byte{1, nd.U8(), 3}
	pre := nd.Bytes(1)
	if nd.Choose(2) == 1 {
		pre = make([]byte, 4200)
	}
	b := append(append([]byte(nil), pre...), payload(p, false)...)
	for i := 0; i < len(pre); i++ {
		if len(pre) < 4200 {
			nd.Assume(!wellFormed(b, i))
		}
	}
	d := &disk{}
	at := nd.Choose(len(b) - 4200*(len(pre)/4200))
	if len(pre) == 4200 {
		if nd.Choose(2) == 1 {
			at += 4200
		} else {
			at += 4096 - 30
		}
	}
	d.split(b, at)
	rc, err := openDisk(d, volName(1))
	if err != nil {
		nd.Fail("a self-extracting archive in volumes does not open: " + err.Error())
	}
	checkPayload(&rc.Reader, p)
	nd.Assert(rc.Close() == nil, "closing fails")
	d.closedOnce()
	nd.Cover("checked")
}
