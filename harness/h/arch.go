package h

import (
	"bytes"
	"errors"
	"hash/crc32"
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// Reference encoder for the 7z container, written from the format
// description (7zFormat.txt) and sharing no code with the library.

const (
	kEnd = iota
	kHeader
	kArchiveProperties
	kAdditionalStreamsInfo
	kMainStreamsInfo
	kFilesInfo
	kPackInfo
	kUnpackInfo
	kSubStreamsInfo
	kSize
	kCRC
	kFolder
	kCodersUnpackSize
	kNumUnpackStream
	kEmptyStream
	kEmptyFile
	kAnti
	kNames
	kCTime
	kATime
	kMTime
	kWinAttributes
	kComment
	kEncodedHeader
	kStartPos
	kDummy
)

// numMin is the number of extra bytes num uses at least (any legal encoding of
// a number is to be accepted).
var numMin int

// numHook, when set, may choose another number to encode instead of v.
var numHook func(v uint64) []byte

// num is the shortest encoding of a concrete value.
func num(v uint64) []byte {
	if numHook != nil {
		if b := numHook(v); b != nil {
			return b
		}
	}
	n := numMin
	for n < 8 && v>>(8*uint(n)) >= 1<<(7-uint(n)) {
		n++
	}
	return numN(v, n)
}

// numN is the encoding of v with n extra bytes; v must fit.
func numN(v uint64, n int) []byte {
	var first byte
	for i := 0; i < n; i++ {
		first |= 0x80 >> uint(i)
	}
	if n < 7 {
		first |= byte(v >> (8 * uint(n)))
	}
	out := []byte{first}
	for i := 0; i < n; i++ {
		out = append(out, byte(v>>(8*uint(i))))
	}
	return out
}

// num9 encodes any value, symbolic ones included, in nine bytes.
func num9(v uint64) []byte { return numN(v, 8) }

type acoder struct {
	id    []byte
	in    int
	out   int
	props []byte
	size  []byte // encoded unpack size (one per output)
}

type afolder struct {
	coders []acoder
	binds  [][2]int
	packed []int // written when more than one packed stream
	sub    int   // number of sub-streams
	crc    []byte
}

// bits packs booleans most significant bit first.
func bits(v []bool) []byte {
	var out []byte
	for i := 0; i < len(v); i += 8 {
		var b byte
		for j := 0; j < 8 && i+j < len(v); j++ {
			if v[i+j] {
				b |= 0x80 >> uint(j)
			}
		}
		out = append(out, b)
	}
	return out
}

func encFolder(f *afolder) []byte {
	b := num(uint64(len(f.coders)))
	in, out := 0, 0
	for _, c := range f.coders {
		fl := byte(len(c.id))
		if c.in != 1 || c.out != 1 {
			fl |= 0x10
		}
		if len(c.props) > 0 {
			fl |= 0x20
		}
		b = append(b, fl)
		b = append(b, c.id...)
		if c.in != 1 || c.out != 1 {
			b = append(b, num(uint64(c.in))...)
			b = append(b, num(uint64(c.out))...)
		}
		if len(c.props) > 0 {
			b = append(b, num(uint64(len(c.props)))...)
			b = append(b, c.props...)
		}
		in += c.in
		out += c.out
	}
	for _, p := range f.binds {
		b = append(b, num(uint64(p[0]))...)
		b = append(b, num(uint64(p[1]))...)
	}
	if in-(out-1) > 1 {
		for _, p := range f.packed {
			b = append(b, num(uint64(p))...)
		}
	}
	return b
}

// encStreams encodes pack info and folders (streams info without kEnd).
func encStreams(pos []byte, packs [][]byte, fs []*afolder) []byte {
	var b []byte
	if len(packs) > 0 {
		b = append(b, kPackInfo)
		b = append(b, pos...)
		b = append(b, num(uint64(len(packs)))...)
		b = append(b, kSize)
		for _, p := range packs {
			b = append(b, p...)
		}
		b = append(b, kEnd)
	}
	b = append(b, kUnpackInfo, kFolder)
	b = append(b, num(uint64(len(fs)))...)
	b = append(b, 0)
	for _, f := range fs {
		b = append(b, encFolder(f)...)
	}
	b = append(b, kCodersUnpackSize)
	crc := false
	for _, f := range fs {
		for _, c := range f.coders {
			b = append(b, c.size...)
		}
		crc = crc || f.crc != nil
	}
	if crc {
		b = append(b, kCRC)
		var d []bool
		for _, f := range fs {
			d = append(d, f.crc != nil)
		}
		b = append(b, 0)
		b = append(b, bits(d)...)
		for _, f := range fs {
			b = append(b, f.crc...)
		}
	}
	return append(b, kEnd)
}

func utf16name(s string) []byte {
	var b []byte
	for _, r := range []byte(s) {
		b = append(b, r, 0)
	}
	return append(b, 0, 0)
}

func encNames(names []string) []byte {
	d := []byte{0}
	for _, n := range names {
		d = append(d, utf16name(n)...)
	}
	return prop(kNames, d)
}

func prop(id byte, data []byte) []byte {
	b := append([]byte{id}, num(uint64(len(data)))...)
	return append(b, data...)
}

// encFiles is the files-info section for n files.
func encFiles(n int, props ...[]byte) []byte {
	b := append([]byte{kFilesInfo}, num(uint64(n))...)
	for _, p := range props {
		b = append(b, p...)
	}
	return append(b, kEnd)
}

// simple is a header with one folder per entry of fs and one file per
// sub-stream, named a, b, c...
func names(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, string([]byte{'a' + byte(i)}))
	}
	return r
}

// header assembles streams, optional sub-streams and files.
func header(streams, sub, files []byte) []byte {
	b := []byte{kHeader}
	if streams != nil {
		b = append(b, kMainStreamsInfo)
		b = append(b, streams...)
		b = append(b, sub...)
		b = append(b, kEnd)
	}
	b = append(b, files...)
	return append(b, kEnd)
}

func one(id byte, size uint64) acoder {
	return acoder{id: []byte{id}, in: 1, out: 1, size: num(size)}
}

// ---------------------------------------------------------------- decoder access

var (
	srcID = []byte{0xee, 0x01}
	capID = []byte{0xee, 0x02}
)

// mkDecoder builds, through the public API only, the reader the library uses
// for coder id over the given sources: a folder in which every input of the
// coder comes from a registered source coder, followed by a registered coder
// that hands its input out.
func mkDecoder(id, props []byte, size uint64, srcs ...io.ReadCloser) (io.ReadCloser, error) {
	next := 0
	sevenzip.RegisterDecompressor(srcID, func(_ []byte, _ uint64, _ []io.ReadCloser) (io.ReadCloser, error) {
		next++
		return srcs[next-1], nil
	})
	var got io.ReadCloser
	sevenzip.RegisterDecompressor(capID, func(_ []byte, _ uint64, r []io.ReadCloser) (io.ReadCloser, error) {
		got = r[0]
		return io.NopCloser(bytes.NewReader(nil)), nil
	})
	n := len(srcs)
	f := &afolder{}
	var packs [][]byte
	for i := 0; i < n; i++ {
		f.coders = append(f.coders, acoder{id: srcID, in: 1, out: 1, size: num(1 << 20)})
		f.packed = append(f.packed, i)
		packs = append(packs, num(0))
		f.binds = append(f.binds, [2]int{n + i, i})
	}
	f.coders = append(f.coders, acoder{id: id, in: n, out: 1, props: props, size: num(size)})
	f.coders = append(f.coders, acoder{id: capID, in: 1, out: 1, size: num(1)})
	f.binds = append(f.binds, [2]int{2 * n, n})
	b := archive(nil, header(encStreams(num(0), packs, []*afolder{f}), nil, encFiles(1, encNames([]string{"f"}))))
	r, err := open(b)
	if err != nil {
		nd.Fail("a well-formed container was refused: " + err.Error())
	}
	rc, err := r.File[0].Open()
	if err != nil {
		return nil, err
	}
	_ = rc
	if got == nil {
		nd.Fail("the coder graph was not built")
	}
	return got, nil
}

// mustDecoder fails the check if the decoder is refused.
func mustDecoder(id, props []byte, size uint64, srcs ...io.ReadCloser) io.ReadCloser {
	rc, err := mkDecoder(id, props, size, srcs...)
	if err != nil {
		nd.Fail("decoder refused: " + err.Error())
	}
	return rc
}

var errFault = errors.New("injected fault")

// source is a stream with chosen short reads and an optional fault.
type source struct {
	b      []byte
	chunk  int // most bytes per read, 0: all
	eof    bool // deliver EOF together with the last bytes
	failAt int // fail once this many bytes were delivered, <0: never
	with   bool // deliver the failure together with the last bytes before it
	closed int
	reads  int
	cerr   error
}

func src(b []byte) *source { return &source{b: b, failAt: -1} }

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if s.closed > 0 {
		nd.Fail("a closed source is read")
	}
	if s.failAt == 0 {
		return 0, errFault
	}
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if n > len(s.b) {
		n = len(s.b)
	}
	if s.failAt > 0 && n > s.failAt {
		n = s.failAt
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	if s.failAt > 0 {
		s.failAt -= n
		if s.failAt == 0 && s.with {
			return n, errFault
		}
	}
	if s.eof && len(s.b) == 0 && s.failAt < 0 {
		return n, io.EOF
	}
	return n, nil
}

func (s *source) Close() error { s.closed++; return s.cerr }

// drain reads to the end through reads of the given size, checking the
// io.Reader contract and progress.
func drain(r io.Reader, size, limit int) ([]byte, error) {
	var out []byte
	idle := 0
	for {
		buf := make([]byte, size)
		n, err := r.Read(buf)
		nd.Assert(n >= 0 && n <= len(buf), "Read returned a count outside 0..len(p)")
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if n == 0 {
			idle++
			if idle > 8 {
				nd.Fail("reads deliver neither data nor an error for ever")
			}
		} else {
			idle = 0
		}
		if len(out) > limit {
			nd.Fail("more data delivered than the stream can hold")
		}
	}
}

// eq asserts that two byte strings are equal.
func eq(a, b []byte, msg string) {
	nd.Assert(len(a) == len(b), msg+" (length)")
	d := byte(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	nd.Assert(d == 0, msg)
}

func crc(b []byte) []byte { return le32(crc32.ChecksumIEEE(b)) }
