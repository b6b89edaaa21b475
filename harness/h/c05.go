package h

import (
	"hash/crc32"

	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// tiny is a header of two members in one stored folder.
func tiny() []byte {
	sub := []byte{kSubStreamsInfo, kNumUnpackStream, 2, kSize, 1, kEnd}
	return header(encStreams(num(0), [][]byte{num(3)}, []*afolder{{coders: []acoder{one(0, 3)}}}), sub, encFiles(2, encNames(names(2))))
}

// rewrap recomputes the checksum of the start header.
func rewrap(b []byte) { copy(b[8:], crc(b[12:32])) }

//verif: prop=C05 budget=60
//bounds: every stored start-header checksum and every stored header checksum (2^64 combinations) with arbitrary member names
func H_C05_stored() {
	h := tiny()
	nm := nd.U8()
	nd.Assume(nd.And(nm > 0, nm < 0x80))
	h[len(h)-10+1] = nm
	b := archive([]byte{1, 2, 3}, h)
	s, v := nd.U32(), nd.U32()
	copy(b[28:], le32(v))
	good := crc32.ChecksumIEEE(b[12:32])
	copy(b[8:], le32(s))
	r, err := open(b)
	ok := nd.And(s == good, v == crc32.ChecksumIEEE(h))
	if err != nil {
		nd.Assert(r == nil, "a reader is returned along with an error")
		nd.Assert(!ok, "an archive with matching checksums is refused")
		nd.Cover("refused")
		return
	}
	nd.Assert(ok, "an archive with a wrong checksum opens")
	nd.Cover("opened")
}

//verif: prop=C05 budget=60
//bounds: every recorded checksum of an encoded header, decoded in chunks of 1, 2 or all bytes, with 0..2 arbitrary bytes after the end of the header
func H_C05_encoded() {
	h := tiny()
	chunk := nd.Choose(3)
	h = append(h, nd.Bytes(nd.Choose(3))...)
	want := crc32.ChecksumIEEE(h)
	trail := len(h) > len(tiny())
	b := encoded(h, chunk, false, true)
	// replace the recorded digest: it precedes the two end bytes
	v := nd.U32()
	hb := append([]byte(nil), b[32:]...)
	copy(hb[len(hb)-6:], le32(v))
	r, err := open(archive(nil, hb))
	if err != nil {
		nd.Assert(r == nil, "a reader is returned along with an error")
		nd.Assert(trail || !nd.Or(v == want, v == 0), "a matching encoded header is refused")
		nd.Cover("refused")
		return
	}
	nd.Assert(nd.Or(v == 0, nd.And(v == want, !trail)), "an encoded header with a wrong checksum opens")
	nd.Cover("opened")
}

// mustRefuse asserts that the archive does not open.
func mustRefuse(b []byte) {
	r, err := open(b)
	nd.Assert(err != nil && r == nil, "a corrupted archive opens")
}

//verif: prop=C05 budget=100
//bounds: every non-zero change of one byte, at every position except the version numbers and the member data, of an archive with a plain header and of one with a stored (copied) encoded header
func H_C05_corrupt() {
	h := tiny()
	var b []byte
	if nd.Choose(2) == 0 {
		b = archive([]byte{1, 2, 3}, h)
	} else {
		f := &afolder{coders: []acoder{one(0, uint64(len(h)))}, crc: crc(h)}
		e := append([]byte{kEncodedHeader}, encStreams(num(3), [][]byte{num(uint64(len(h)))}, []*afolder{f})...)
		b = archive(append([]byte{1, 2, 3}, h...), append(e, kEnd))
	}
	if _, err := open(append([]byte(nil), b...)); err != nil {
		nd.Fail("a well-formed container was refused: " + err.Error())
	}
	i := nd.Choose(len(b))
	if i == 6 || i == 7 || i >= 32 && i < 35 {
		nd.Stop()
	}
	d := nd.U8()
	nd.Assume(d != 0)
	b[i] ^= d
	mustRefuse(b)
	nd.Cover("checked")
}

//verif: prop=C05 budget=100
//bounds: every change of two adjacent bytes at every position of the header and the start header's checksummed fields, plain header
func H_C05_burst() {
	h := tiny()
	b := archive([]byte{1, 2, 3}, h)
	i := nd.Choose(len(b) - 1)
	if i < 8 || i >= 31 && i < 35 {
		nd.Stop()
	}
	d := nd.U16()
	nd.Assume(d != 0)
	b[i] ^= byte(d)
	b[i+1] ^= byte(d >> 8)
	mustRefuse(b)
	nd.Cover("checked")
}

//verif: prop=C05 budget=60
//bounds: a header recorded 1..3 bytes longer than its content (arbitrary bytes) or any number of bytes shorter, with checksums recomputed
func H_C05_length() {
	h := tiny()
	if nd.Choose(2) == 0 {
		h = append(h, nd.Bytes(1+nd.Choose(3))...)
		nd.Cover("longer")
	} else {
		h = h[:nd.Choose(len(h))]
		nd.Cover("shorter")
	}
	b := archive([]byte{1, 2, 3}, h)
	mustRefuse(append(b, nd.Bytes(nd.Choose(3))...))
}

//verif: prop=C05 budget=60
//bounds: 1..40 arbitrary bytes after the end of a well-formed archive
func H_C05_trailing() {
	b := archive([]byte{1, 2, 3}, tiny())
	b = append(b, nd.Bytes(nd.Choose(41))...)
	r := mustOpen(b)
	nd.Assert(len(r.File) == 2, "wrong number of files")
	nd.Cover("checked")
}

//verif: prop=C05 budget=60
//bounds: an encoded header, or the header it decodes to (without a checksum of its own), recorded 1..3 bytes longer than its content (arbitrary bytes) or any number of bytes shorter, with the other checksums recomputed; with or without sub-streams information in the former
func H_C05_encodedLength() {
	h := tiny()
	change := func(b []byte) []byte {
		if nd.Choose(2) == 0 {
			nd.Cover("longer")
			return append(b, nd.Bytes(1+nd.Choose(3))...)
		}
		nd.Cover("shorter")
		return b[:nd.Choose(len(b))]
	}
	which := nd.Choose(2)
	if which == 0 {
		h = change(h)
	}
	f := &afolder{coders: []acoder{{id: []byte{0}, in: 1, out: 1, size: num(uint64(len(h)))}}}
	e := append([]byte{kEncodedHeader}, encStreams(num(0), [][]byte{num(uint64(len(h)))}, []*afolder{f})...)
	if nd.Choose(2) == 1 {
		e = append(e, kSubStreamsInfo, kEnd)
	}
	e = append(e, kEnd)
	if which == 1 {
		e = change(e)
	}
	mustRefuse(archive(h, e))
}
