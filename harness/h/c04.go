package h

import (
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// anyNum is an arbitrary value that fits the encoding with n extra bytes.
func anyNum(n int) uint64 {
	v := nd.U64()
	if n < 8 {
		nd.Assume(v < 1<<uint(7*n+7))
	}
	return v
}

//verif: prop=C04,C03 budget=60
//bounds: all 2^64 unpack sizes and all explicit sub-stream sizes not above it, in each of the nine encodings
func H_C04_value() {
	n, m := nd.Choose(9), nd.Choose(9)
	v, w := anyNum(n), anyNum(m)
	nd.Assume(w <= v)
	c := one(0, 0)
	c.size = numN(v, n)
	sub := append([]byte{kSubStreamsInfo, kNumUnpackStream, 2, kSize}, numN(w, m)...)
	sub = append(sub, kEnd)
	b := archive(nil, header(encStreams(num(0), [][]byte{num(0)}, []*afolder{{coders: []acoder{c}}}), sub, encFiles(2, encNames(names(2)))))
	r, err := open(b)
	if err != nil {
		nd.Fail("a well-formed container was refused: " + err.Error())
	}
	nd.Assert(len(r.File) == 2, "wrong number of files")
	nd.Assert(r.File[0].UncompressedSize == w, "the number read differs from the number encoded (explicit size)")
	nd.Assert(r.File[1].UncompressedSize == v-w, "the number read differs from the number encoded (remaining size)")
	nd.Cover("checked")
}

//verif: prop=C04 budget=60
//bounds: a folder size of each encoding cut after each of its bytes, arbitrary bytes
func H_C04_truncated() {
	n := nd.Choose(9)
	v := anyNum(n)
	c := one(0, 0)
	enc := numN(v, n)
	c.size = enc[:nd.Choose(n+1)]
	h := []byte{kHeader, kMainStreamsInfo}
	s := encStreams(num(0), [][]byte{num(0)}, []*afolder{{coders: []acoder{c}}})
	h = append(h, s[:len(s)-1]...)
	_, err := open(archive(nil, h))
	nd.Assert(err != nil, "a number cut short by the end of the header is accepted")
	nd.Cover("checked")
}

//verif: prop=C04 budget=60
//bounds: every count, size, index and property length of a two-folder header with a bind pair written with 0..8 extra bytes
func H_C04_counts() {
	numMin = nd.Choose(9)
	f0 := &afolder{coders: []acoder{one(0, 3)}}
	f1 := &afolder{coders: []acoder{one(0, 4), one(0, 4)}, binds: [][2]int{{1, 0}}}
	f1.coders[0].props = []byte{1, 2, 3}
	sub := append([]byte{kSubStreamsInfo, kNumUnpackStream}, num(1)...)
	sub = append(sub, num(2)...)
	sub = append(sub, kSize)
	sub = append(sub, num(1)...)
	sub = append(sub, kEnd)
	data := nd.Bytes(7)
	b := archive(data, header(encStreams(num(0), [][]byte{num(3), num(4)}, []*afolder{f0, f1}), sub, encFiles(3, encNames(names(3)))))
	r, err := open(b)
	if err != nil {
		nd.Fail("a well-formed container was refused: " + err.Error())
	}
	nd.Assert(len(r.File) == 3, "wrong number of files")
	for i, w := range [][]byte{data[:3], data[3:4], data[4:]} {
		rc, err := r.File[i].Open()
		if err != nil {
			nd.Fail("member refused: " + err.Error())
		}
		got, err := drain(rc, 16, 7)
		nd.Assert(err == nil, "reading fails")
		eq(got, w, "member content differs")
	}
	nd.Cover("checked")
}

//verif: prop=C04 budget=60
//bounds: pack position and first pack size arbitrary within the packed area of 12 bytes, written in each of the nine encodings
func H_C04_position() {
	n := nd.Choose(9)
	pos, size := nd.U64(), nd.U64()
	nd.Assume(pos <= 4)
	nd.Assume(size <= 4)
	data := nd.Bytes(12)
	p, q := int(pos), int(size)
	f0, f1 := &afolder{coders: []acoder{one(0, 0)}}, &afolder{coders: []acoder{one(0, 2)}}
	f0.coders[0].size = numN(size, n)
	sub := []byte{kSubStreamsInfo, kEnd}
	b := archive(data, header(encStreams(numN(pos, n), [][]byte{numN(size, n), num(2)}, []*afolder{f0, f1}), sub, encFiles(2, encNames(names(2)))))
	r, err := open(b)
	if err != nil {
		nd.Fail("a well-formed container was refused: " + err.Error())
	}
	p, q = nd.Concrete(p), nd.Concrete(q)
	for i, w := range [][]byte{data[p : p+q], data[p+q : p+q+2]} {
		rc, err := r.File[i].Open()
		if err != nil {
			nd.Fail("member refused: " + err.Error())
		}
		got, err := drain(rc, 16, 7)
		nd.Assert(err == nil, "reading fails")
		eq(got, w, "member content differs")
	}
	nd.Cover("checked")
}
