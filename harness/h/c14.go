package h

import (
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

var srcID2 = []byte{0xee, 0x06}

// stream opens the folder stream of an archive whose only folder is decoded by
// a registered coder delivering s; the folder's recorded size is size.
func stream(s *source, size []byte) sevenzip.VerifStream {
	sevenzip.RegisterDecompressor(srcID2, func(_ []byte, _ uint64, _ []io.ReadCloser) (io.ReadCloser, error) { return s, nil })
	f := &afolder{coders: []acoder{{id: srcID2, in: 1, out: 1, size: size}}}
	r := mustOpen(archive(nil, header(encStreams(num(0), [][]byte{num(0)}, []*afolder{f}), nil, encFiles(1, encNames(names(1))))))
	rc, err := sevenzip.VerifFolder(r, 0)
	if err != nil {
		nd.Fail("the folder is refused: " + err.Error())
	}
	return rc
}

// reach is the absolute target of a seek, ok if it denotes a position from
// the current one to the end.
func reach(off int64, whence int, pos, size int64) (int64, bool) {
	var base int64
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = pos
	case io.SeekEnd:
		base = size
	default:
		return 0, false
	}
	// base is between 0 and size: the sum is a position iff off is within
	// [pos-base, size-base], neither of which overflows
	return base + off, nd.And(off >= pos-base, off <= size-base)
}

//verif: prop=C14 budget=100
//bounds: streams of 0..4 (thorough 0..6) arbitrary bytes delivered in chunks of 1, 3 or all bytes, histories of two (thorough three) operations, each a read of 0..3 bytes or a seek with any 64-bit offset and any origin, then reading to the end
func H_C14_history() {
	n := nd.Choose(nd.Pick(5, 7))
	data := nd.Bytes(n)
	s := src(append([]byte(nil), data...))
	s.chunk = []int{0, 1, 3}[nd.Choose(3)]
	s.eof = nd.Choose(2) == 1
	st := stream(s, num(uint64(n)))
	nd.Assert(st.Size() == int64(n), "the size differs from the recorded one")
	pos := 0
	for k := nd.Pick(2, 3); k > 0; k-- {
		if nd.Choose(2) == 0 {
			buf := make([]byte, nd.Choose(4))
			m, err := io.ReadFull(st, buf)
			want := len(buf)
			if want > n-pos {
				want = n - pos
				nd.Assert(err != nil, "reading past the end succeeds")
			}
			nd.Assert(m == want, "a read is short")
			eq(buf[:m], data[pos:pos+m], "a read delivers other bytes than those at the position")
			pos += m
			continue
		}
		off, wh := nd.I64(), nd.Int()
		got, err := st.Seek(off, wh)
		want, ok := reach(off, wh, int64(pos), int64(n))
		if err != nil {
			nd.Assert(!ok, "a seek forward within the stream fails")
			nd.Cover("refused")
			continue
		}
		nd.Assert(ok, "a seek backwards, out of the stream or from an unknown origin succeeds")
		nd.Assert(got == want, "a seek returns another position than the one asked for")
		pos = nd.Concrete(int(got))
		nd.Cover("moved")
	}
	rest, err := drain(st, 3, n)
	nd.Assert(err == nil, "reading to the end fails")
	eq(rest, data[pos:], "after a seek other bytes are read than those at the position")
	nd.Cover("checked")
}

//verif: prop=C14 budget=100
//bounds: every recorded size below 2^63 over a stream of 3 bytes: seeks with any 64-bit offset and any origin before and after reading one byte; a seek past the data that is there is an error
func H_C14_sizes() {
	size := nd.U64()
	nd.Assume(size < 1<<63)
	data := nd.Bytes(3)
	st := stream(src(append([]byte(nil), data...)), num9(size))
	nd.Assert(st.Size() == int64(size), "the size differs from the recorded one")
	pos := int64(0)
	if nd.Choose(2) == 1 {
		nd.Assume(size > 0)
		if m, _ := st.Read(make([]byte, 1)); m != 1 {
			nd.Fail("a read of one byte fails")
		}
		pos = 1
	}
	off, wh := nd.I64(), nd.Int()
	got, err := st.Seek(off, wh)
	want, ok := reach(off, wh, pos, int64(size))
	if err != nil {
		nd.Assert(nd.Or(!ok, want > 3), "a seek forward within the stream fails")
		nd.Cover("refused")
		return
	}
	nd.Assert(ok, "a seek backwards, out of the stream or from an unknown origin succeeds")
	nd.Assert(got == want, "a seek returns another position than the one asked for")
	nd.Assert(got <= 3, "a seek past the data that is there succeeds")
	if nd.And(got < 3, got < int64(size)) {
		p := nd.Concrete(int(got))
		var b [1]byte
		m, _ := st.Read(b[:])
		nd.Assert(m == 1 && b[0] == data[p], "after a seek another byte is read than the one at the position")
		nd.Cover("moved")
	}
}
