package h

import (
	"bytes"
	"errors"
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
	"github.com/bodgit/sevenzip/internal/zzverif/ref"
)

// call is what a registered decoder received.
type call struct {
	tag   byte
	props []byte
	size  uint64
	ins   [][]byte
}

// recorder registers a decoder that records its calls under a tag and
// delivers the tag.
func recorder(id []byte, tag byte, log *[]call) {
	sevenzip.RegisterDecompressor(id, func(p []byte, n uint64, rs []io.ReadCloser) (io.ReadCloser, error) {
		c := call{tag: tag, props: append([]byte(nil), p...), size: n}
		for _, r := range rs {
			if r == nil {
				nd.Fail("a decoder receives a missing input stream")
			}
			b, err := drain(r, 3, 64)
			nd.Assert(err == nil, "reading an input stream of a decoder fails")
			c.ins = append(c.ins, b)
		}
		*log = append(*log, c)
		return src([]byte{tag}), nil
	})
}

// oneCoder is an archive whose only folder has a single coder.
func oneCoder(c acoder, packed ...[]byte) []byte {
	f := &afolder{coders: []acoder{c}}
	var packs [][]byte
	var all []byte
	for i, p := range packed {
		packs = append(packs, num(uint64(len(p))))
		all = append(all, p...)
		f.packed = append(f.packed, i)
	}
	return archive(all, header(encStreams(num(0), packs, []*afolder{f}), nil, encFiles(1, encNames([]string{"f"}))))
}

// sameID compares ids, which have concrete lengths.
func sameID(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	d := byte(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

//verif: prop=C22 budget=60
//bounds: two decoders registered under arbitrary ids of 1..3 (thorough 4) bytes beginning with a byte above 0xdf, a third registration under an arbitrary id of such a length (replacing one of them or not), and a folder coder with an arbitrary id of 1..3 bytes (beginning above 0xdf) and 0..2 arbitrary property bytes, arbitrary 63-bit size, one input of 2 arbitrary bytes
func H_C22_dispatch() {
	var log []call
	max := nd.Pick(3, 4)
	anyID := func() []byte {
		id := nd.Bytes(1 + nd.Choose(max))
		nd.Assume(id[0] > 0xdf)
		return id
	}
	ids := [][]byte{anyID(), anyID(), anyID()}
	var buf []byte
	for i, id := range ids {
		// the caller may go on using its slice
		buf = append(buf[:0], id...)
		recorder(buf, byte(i+1), &log)
	}
	for i := range buf {
		buf[i] = 0
	}
	id := anyID()
	props := nd.Bytes(nd.Choose(3))
	size := nd.U64()
	nd.Assume(size < 1<<63 && size > 0)
	in := nd.Bytes(2)
	r := mustOpen(oneCoder(acoder{id: id, in: 1, out: 1, props: props, size: num9(size)}, in))
	rc, err := r.File[0].Open()
	want := byte(0)
	for i := range ids {
		if sameID(ids[i], id) {
			want = byte(i + 1)
		}
	}
	if want == 0 {
		nd.Assert(err != nil && rc == nil, "a coder id nothing is registered for is accepted")
		nd.Assert(len(log) == 0, "a decoder registered for another id is used")
		var re *sevenzip.ReadError
		nd.Assert(errors.As(err, &re) && !re.Encrypted, "an unknown coder id is not reported as a read error")
		nd.Cover("unknown")
		return
	}
	nd.Assert(err == nil, "a member with a registered coder does not open")
	nd.Assert(len(log) == 1, "the decoder is not built exactly once")
	c := log[0]
	nd.Assert(c.tag == want, "a coder id selects the decoder registered for another id or replaced since")
	eq(c.props, props, "the decoder receives other properties than recorded")
	nd.Assert(c.size == size, "the decoder receives another size than recorded")
	nd.Assert(len(c.ins) == 1, "the decoder receives a wrong number of inputs")
	eq(c.ins[0], in, "the decoder receives another input stream")
	b := make([]byte, 4)
	n, err := rc.Read(b)
	nd.Assert(n == 1 && b[0] == want && (err == nil || err == io.EOF), "the member is not the decoder's output")
	nd.Cover("selected")
}

// builtins are the coder ids of 7zFormat/Methods.txt that the library serves.
var builtins = [][]byte{
	{0x00}, {0x03}, {0x0a}, {0x21},
	{3, 1, 1}, {3, 4, 1}, {4, 1, 8}, {4, 2, 2},
	{3, 3, 1, 3}, {3, 3, 1, 0x1b}, {3, 3, 2, 5}, {3, 3, 5, 1}, {3, 3, 8, 5},
	{4, 0xf7, 0x11, 1}, {4, 0xf7, 0x11, 2}, {4, 0xf7, 0x11, 4}, {6, 0xf1, 7, 1},
}

//verif: prop=C22 budget=60
//bounds: every coder id of 0..5 (thorough 0..15) bytes other than the 17 built-in ones, with 0..1 property bytes and 1..2 inputs
func H_C22_unknown() {
	id := nd.Bytes(nd.Choose(nd.Pick(6, 16)))
	for _, b := range builtins {
		nd.Assume(!sameID(id, b))
	}
	n := 1 + nd.Choose(2)
	r := mustOpen(oneCoder(acoder{id: id, in: n, out: 1, props: nd.Bytes(nd.Choose(2)), size: num(1)}, [][]byte{{1}, {2}}[:n]...))
	rc, err := r.File[0].Open()
	nd.Assert(err != nil && rc == nil, "a coder id nothing is registered for is accepted")
	nd.Cover("refused")
}

//verif: prop=C22 budget=60
//bounds: one coder with 1..4 (thorough 5) inputs of 0..2 arbitrary bytes each fed from packed streams in every order, 0..3 arbitrary property bytes, arbitrary 63-bit size; the same member opened twice
func H_C22_inputs() {
	var log []call
	id := []byte{0xee, 0x21}
	recorder(id, 9, &log)
	n := 1 + nd.Choose(nd.Pick(4, 5))
	perm := permutation(n)
	f := &afolder{}
	props := nd.Bytes(nd.Choose(4))
	size := nd.U64()
	nd.Assume(size < 1<<63 && size > 0)
	f.coders = []acoder{{id: id, in: n, out: 1, props: props, size: num9(size)}}
	var packs [][]byte
	var all []byte
	ins := make([][]byte, n)
	for i := 0; i < n; i++ {
		p := nd.Bytes(nd.Choose(3))
		packs = append(packs, num(uint64(len(p))))
		all = append(all, p...)
		f.packed = append(f.packed, perm[i])
		ins[perm[i]] = p
	}
	r := mustOpen(archive(all, header(encStreams(num(0), packs, []*afolder{f}), nil, encFiles(1, encNames([]string{"f"})))))
	for k := 0; k < 2; k++ {
		_, err := r.File[0].Open()
		nd.Assert(err == nil, "a member with a registered coder does not open")
		nd.Assert(len(log) == k+1, "the decoder is not built exactly once per open")
		c := log[k]
		nd.Assert(c.size == size, "the decoder receives another size than recorded")
		eq(c.props, props, "the decoder receives other properties than recorded")
		nd.Assert(len(c.ins) == n, "the decoder receives a wrong number of inputs")
		for i := range ins {
			eq(c.ins[i], ins[i], "the decoder receives its input streams in another order or with other bytes")
		}
	}
	nd.Cover("checked")
}

// permutation is any permutation of 0..n-1.
func permutation(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := nd.Choose(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

//verif: prop=C22 budget=60
//bounds: a decoder registered under any one of the 17 built-in ids; the coders of all built-in filter ids and copy keep decoding as before except that one
func H_C22_replace() {
	var log []call
	k := nd.Choose(len(builtins))
	recorder(builtins[k], 7, &log)
	// distinguish the filters by what they do to two branch instructions
	in := []byte{0, 0, 0, 0xeb, 0x48, 0, 0, 1, 0, 0, 0, 0x94, 0x40, 0, 0, 1, 0xe8, 0, 0, 0, 0, 0, 0, 0}
	in[0], in[20] = nd.U8(), nd.U8()
	for _, id := range [][]byte{{0}, {3}, {10}, {3, 3, 1, 3}, {3, 3, 2, 5}, {3, 3, 5, 1}, {3, 3, 8, 5}} {
		var props []byte
		if len(id) == 1 && id[0] == 3 {
			props = []byte{0}
		}
		log = nil
		r := mustOpen(oneCoder(acoder{id: id, in: 1, out: 1, props: props, size: num(uint64(len(in)))}, in))
		rc, err := r.File[0].Open()
		nd.Assert(err == nil, "a built-in decoder is not selected")
		out, err := drain(rc, 64, 64)
		nd.Assert(err == nil, "reading fails")
		if bytes.Equal(id, builtins[k]) {
			nd.Assert(len(log) == 1, "the replaced built-in decoder is still used")
			continue
		}
		nd.Assert(len(log) == 0, "registering an id replaces another one")
		eq(out, refFilter(id, in), "a built-in id selects another decoder")
	}
	nd.Cover("checked")
}

// refFilter is the reference result of a filter id.
func refFilter(id, in []byte) []byte {
	in = append([]byte(nil), in...)
	switch string(id) {
	case "\x03":
		return ref.Delta(in, 1)
	case "\x0a":
		return ref.ARM64(in)
	case string(idBCJ):
		return ref.X86(in)
	case string(idPPC):
		return ref.PPC(in)
	case string(idARM):
		return ref.ARM(in)
	case string(idSPARC):
		return ref.SPARC(in)
	}
	return in
}

//verif: prop=C22 budget=60
//bounds: a coder with an id of 1, 8 or 15 bytes, registered next to the same id with its last byte removed or changed, and 0, 16, 63, 64, 127, 128, 511..513, 4096 or 5000 property bytes; the last byte of the id and the first, middle and last property bytes arbitrary; plain and encoded header
func H_C22_long() {
	var log []call
	n := []int{1, 8, 15}[nd.Choose(3)]
	id := make([]byte, n)
	for i := range id {
		id[i] = 0xe0 + byte(i)
	}
	id[n-1] = nd.U8() | 0xe0
	other := append([]byte(nil), id...)
	other[n-1] ^= 1
	recorder(other, 1, &log)
	recorder(id, 2, &log)
	if n > 1 {
		recorder(id[:n-1], 3, &log)
	}
	m := []int{0, 16, 63, 64, 127, 128, 511, 512, 513, 4096, 5000}[nd.Choose(11)]
	props := make([]byte, m)
	for i := range props {
		props[i] = byte(i)
	}
	if m > 0 {
		props[m-1], props[m/2], props[0] = nd.U8(), nd.U8(), nd.U8()
	}
	h := header(encStreams(num(0), [][]byte{num(0)}, []*afolder{{coders: []acoder{{id: id, in: 1, out: 1, props: props, size: num(1)}}}}), nil, encFiles(1, encNames([]string{"f"})))
	var r *sevenzip.Reader
	if nd.Choose(2) == 0 {
		r = mustOpen(archive(nil, h))
	} else {
		r = mustOpen(encoded(h, 100, true, false))
	}
	_, err := r.File[0].Open()
	nd.Assert(err == nil, "a member with a registered coder does not open")
	nd.Assert(len(log) == 1 && log[0].tag == 2, "a coder id selects the decoder registered for another id")
	eq(log[0].props, props, "the decoder receives other properties than recorded")
	nd.Cover("checked")
}
