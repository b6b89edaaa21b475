package h

import (
	"errors"
	"io"

	"github.com/bodgit/sevenzip/internal/aes7z"
	"github.com/bodgit/sevenzip/internal/bcj2"
	"github.com/bodgit/sevenzip/internal/bra"
	"github.com/bodgit/sevenzip/internal/brotli"
	"github.com/bodgit/sevenzip/internal/bzip2"
	"github.com/bodgit/sevenzip/internal/deflate"
	"github.com/bodgit/sevenzip/internal/delta"
	"github.com/bodgit/sevenzip/internal/lz4"
	"github.com/bodgit/sevenzip/internal/lzma"
	"github.com/bodgit/sevenzip/internal/lzma2"
	"github.com/bodgit/sevenzip/internal/ppmd"
	"github.com/bodgit/sevenzip/internal/zstd"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// decoderKind is a built-in decoder: how to build it, the properties it is
// built with, the least number of property bytes it needs, and a stream for
// each of its inputs that carries the given plain bytes.
type decoderKind struct {
	name  string
	build func([]byte, uint64, []io.ReadCloser) (io.ReadCloser, error)
	props []byte
	least int
	in    int
	// stream is a valid input and what it decodes to
	stream func() ([][]byte, []byte)
	// stored encodes bytes without compressing them
	stored func([]byte) []byte
}

func same1(b ...byte) func() ([][]byte, []byte) {
	return func() ([][]byte, []byte) { return [][]byte{b}, b }
}

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func storedDeflate(d []byte) []byte {
	n := byte(len(d))
	return cat([]byte{1, n, 0, ^n, 0xff}, d)
}

func storedBrotli(d []byte) []byte {
	v := uint32(len(d)-1)<<4 | 1<<20
	s := cat([]byte{byte(v), byte(v >> 8), byte(v >> 16)}, d, []byte{3})
	return cat([]byte{0x50, 0x2a, 0x4d, 0x18, 8, 0, 0, 0, byte(len(s)), 0, 0, 0, 'B', 'R', 1, 0}, s)
}

func storedLZ4(d []byte) []byte {
	return cat([]byte{4, 0x22, 0x4d, 0x18, 0x60, 0x40, 0x82, byte(len(d)), 0, 0, 0x80}, d, []byte{0, 0, 0, 0})
}

func storedZstd(d []byte) []byte {
	return cat([]byte{0x28, 0xb5, 0x2f, 0xfd, 0x20, byte(len(d)), byte(len(d))<<3 | 1, 0, 0}, d)
}

func storedLZMA2(d []byte) []byte {
	return cat([]byte{1, 0, byte(len(d) - 1)}, d, []byte{0})
}

func stored(enc func([]byte) []byte) func() ([][]byte, []byte) {
	return func() ([][]byte, []byte) {
		d := []byte{1, 2, 3, 4}
		return [][]byte{enc(d)}, d
	}
}

var abc = []byte("abcabcabcabcabcd")

func decoderKinds() []decoderKind {
	// Zstandard decodes without goroutines if there is one CPU
	nd.SetNumCPU(1)
	return []decoderKind{
		{name: "delta", build: delta.NewReader, props: []byte{0}, least: 1, in: 1, stream: func() ([][]byte, []byte) { return [][]byte{{1, 2, 3}}, []byte{1, 3, 6} }},
		{name: "x86", build: bra.NewBCJReader, in: 1, stream: same1(1, 2, 3, 4, 5, 6)},
		{name: "arm", build: bra.NewARMReader, in: 1, stream: same1(1, 2, 3, 4)},
		{name: "arm64", build: bra.NewARM64Reader, in: 1, stream: same1(1, 2, 3, 4)},
		{name: "ppc", build: bra.NewPPCReader, in: 1, stream: same1(1, 2, 3, 4)},
		{name: "sparc", build: bra.NewSPARCReader, in: 1, stream: same1(1, 2, 3, 4)},
		{name: "bcj2", build: bcj2.NewReader, in: 4, stream: func() ([][]byte, []byte) {
			return [][]byte{{1, 2, 3, 4}, {}, {}, {0, 0, 0, 0, 0}}, []byte{1, 2, 3, 4}
		}},
		{name: "aes", build: aes7z.NewReader, props: []byte{0x7f, 0, 0}, least: 3, in: 1, stream: func() ([][]byte, []byte) {
			return [][]byte{make([]byte, 32)}, cbc(make([]byte, 32), nil, make([]byte, 32))
		}},
		{name: "lzma", build: lzma.NewReader, props: []byte{0x5d, 0, 0x10, 0, 0}, least: 5, in: 1, stream: func() ([][]byte, []byte) {
			return [][]byte{{0x00, 0x30, 0x98, 0x88, 0xa9, 0x1b, 0x92, 0x32, 0xe9, 0xf3, 0xff, 0xff, 0xda, 0xc0, 0, 0}}, abc
		}},
		{name: "lzma2", build: lzma2.NewReader, props: []byte{0}, least: 1, in: 1, stream: stored(storedLZMA2), stored: storedLZMA2},
		{name: "ppmd", build: ppmd.NewReader, props: []byte{2, 0, 8, 0, 0}, least: 5, in: 1, stream: func() ([][]byte, []byte) {
			return [][]byte{make([]byte, 8)}, nil
		}},
		{name: "bzip2", build: bzip2.NewReader, in: 1, stream: func() ([][]byte, []byte) {
			return [][]byte{{0x42, 0x5a, 0x68, 0x39, 0x31, 0x41, 0x59, 0x26, 0x53, 0x59, 0x64, 0x8c, 0xbb, 0x73, 0, 0, 0, 1, 0, 0x38, 0, 0x20, 0, 0x21, 0x98, 0x19, 0x84, 0x61, 0x77, 0x24, 0x53, 0x85, 0x09, 0x06, 0x48, 0xcb, 0xb7, 0x30}}, []byte("abc")
		}},
		{name: "deflate", build: deflate.NewReader, in: 1, stream: stored(storedDeflate), stored: storedDeflate},
		{name: "brotli", build: brotli.NewReader, in: 1, stream: stored(storedBrotli), stored: storedBrotli},
		{name: "lz4", build: lz4.NewReader, in: 1, stream: stored(storedLZ4), stored: storedLZ4},
		{name: "zstd", build: zstd.NewReader, in: 1, stream: stored(storedZstd), stored: storedZstd},
	}
}

// unlock sets the password of a decoder that needs one.
func unlock(r io.ReadCloser) {
	if c, ok := r.(interface{ Password(string) error }); ok {
		nd.Assert(c.Password("") == nil, "a password is refused")
	}
}

// life builds a decoder over counting sources of which one fails after some
// bytes, reads some of it, closes it twice and reads on.
func life(k decoderKind) {
	ins, want := k.stream()
	var ss []*source
	var rs []io.ReadCloser
	for _, b := range ins {
		s := src(b)
		s.chunk = []int{0, 1}[nd.Choose(2)]
		ss = append(ss, s)
		rs = append(rs, s)
	}
	bad := nd.Choose(len(ss)+1) - 1
	if bad >= 0 {
		ss[bad].failAt = nd.Choose(len(ss[bad].b) + 1)
		ss[bad].with = nd.Choose(2) == 1
	}
	r, err := k.build(k.props, uint64(len(want)), rs)
	if err != nil {
		nd.Assert(bad >= 0, "a decoder cannot be built")
		nd.Cover("not built")
		return
	}
	unlock(r)
	var out []byte
	p := make([]byte, []int{1, 4, 64}[nd.Choose(3)])
	for i := nd.Choose(4); i > 0; i-- {
		n, err := r.Read(p)
		nd.Assert(n >= 0 && n <= len(p), "Read returned a count outside 0..len(p)")
		out = append(out, p[:n]...)
		if err != nil && err != io.EOF {
			nd.Assert(bad >= 0, "reading a valid stream fails")
			nd.Assert(!errors.Is(err, io.EOF), "a failure is reported as end of file")
			nd.Cover("read failed")
			break
		}
	}
	if len(want) > 0 {
		nd.Assert(len(out) <= len(want), "more data delivered than the stream can hold")
		eq(out, want[:len(out)], "a decoder delivers other bytes")
	}
	err = r.Close()
	nd.Assert(err == nil || bad >= 0, "closing fails although the sources close")
	for _, s := range ss {
		nd.Assert(s.closed == 1, "closing does not close every source once")
	}
	n, err := r.Read(p)
	nd.Assert(n == 0 && err != nil && err != io.EOF, "a closed decoder can be read")
	nd.Assert(r.Close() != nil, "a second close succeeds")
	n, err = r.Read(p)
	nd.Assert(n == 0 && err != nil && err != io.EOF, "a closed decoder can be read")
	for _, s := range ss {
		nd.Assert(s.closed == 1, "a second close closes a source again")
	}
	nd.Cover("checked")
}

//verif: prop=C23,C21 budget=100
//bounds: each of the 16 built-in decoders over a fixed valid stream, sources that deliver everything or one byte at a time, none or one of them failing after any number of bytes (with or after the last of them), 0..3 reads of 1, 4 or 64 bytes before closing, reading, closing again and reading
func H_C23_life() {
	ks := decoderKinds()
	life(ks[nd.Choose(len(ks))])
}

//verif: prop=C23 budget=100
//bounds: each of the 16 built-in decoders built with 0..5 sources and with 0..8 property bytes, arbitrary ones if they are too few and for those beyond the ones it needs; sources that refuse to be read
func H_C23_build() {
	ks := decoderKinds()
	k := ks[nd.Choose(len(ks))]
	var rs []io.ReadCloser
	n := nd.Choose(6)
	for i := 0; i < n; i++ {
		rs = append(rs, src(make([]byte, 32)))
	}
	props := k.props
	if n == k.in {
		if m := nd.Choose(9); m != len(props) {
			props = nd.Bytes(m)
			if m > k.least {
				copy(props, k.props)
			}
		}
	}
	r, err := k.build(props, 4, rs)
	if n != k.in {
		nd.Assert(err != nil && r == nil, "a decoder is built with the wrong number of sources")
		nd.Cover("sources")
	} else if len(props) < k.least {
		nd.Assert(err != nil && r == nil, "a decoder is built with too few properties")
		nd.Cover("properties")
	} else if err == nil {
		nd.Cover("built")
	}
}

// twins reads from two or three decoders of a kind opened, read and closed in
// any order, each over its own content.
func twins(k decoderKind) {
	type user struct {
		r    io.ReadCloser
		s    *source
		want []byte
		at   int
		done bool
	}
	var us []*user
	step := func(u *user) {
		switch nd.Choose(2) {
		case 0:
			p := make([]byte, []int{1, 4}[nd.Choose(2)])
			n, err := u.r.Read(p)
			nd.Assert(n <= len(u.want)-u.at, "more data delivered than the stream can hold")
			eq(p[:n], u.want[u.at:u.at+n], "a decoder delivers other bytes than its own while another is open")
			u.at += n
			if err == io.EOF {
				nd.Assert(u.at == len(u.want), "a decoder ends early while another is open")
				nd.Cover("read to the end")
			} else {
				nd.Assert(err == nil, "a decoder fails while another is open")
			}
		case 1:
			nd.Assert(u.r.Close() == nil, "closing fails")
			nd.Assert(u.s.closed == 1, "closing does not close the source once")
			u.done = true
			nd.Cover("closed")
		}
	}
	for i := 0; i < nd.Pick(6, 7); i++ {
		c := nd.Choose(len(us) + 1)
		if c == len(us) {
			if len(us) == 3 {
				nd.Stop()
			}
			d := nd.Bytes(2)
			s := src(k.stored(d))
			r, err := k.build(k.props, 2, []io.ReadCloser{s})
			nd.Assert(err == nil, "a decoder cannot be built")
			us = append(us, &user{r: r, s: s, want: d})
			continue
		}
		u := us[c]
		if u.done {
			p := make([]byte, 1)
			n, err := u.r.Read(p)
			nd.Assert(n == 0 && err != nil && err != io.EOF, "a closed decoder can be read")
			nd.Assert(u.r.Close() != nil, "a second close succeeds")
			nd.Cover("after close")
			continue
		}
		step(u)
	}
	for _, u := range us {
		if !u.done {
			b, err := drain(u.r, 2, 4)
			nd.Assert(err == nil, "a decoder fails while another is open")
			eq(b, u.want[u.at:], "a decoder delivers other bytes than its own while another is open")
		}
	}
	nd.Cover("checked")
}

//verif: prop=C23,C26 budget=100
//bounds: histories of 6 (thorough 7) operations - build, read 1 or 4 bytes, close, use after close - on up to three Deflate decoders, each over 2 arbitrary stored bytes
func H_C23_deflate() { twins(kind("deflate")) }

//verif: prop=C23,C26 budget=100
//bounds: as for Deflate, for Brotli (an uncompressed meta-block)
func H_C23_brotli() { twins(kind("brotli")) }

//verif: prop=C23,C26 budget=100
//bounds: as for Deflate, for LZ4 (an uncompressed block)
func H_C23_lz4() { twins(kind("lz4")) }

//verif: prop=C23,C26 budget=100
//bounds: as for Deflate, for Zstandard (a raw block)
func H_C23_zstd() { twins(kind("zstd")) }

//verif: prop=C23,C26 budget=100
//bounds: as for Deflate, for LZMA2 (an uncompressed chunk)
func H_C23_lzma2() { twins(kind("lzma2")) }

func kind(name string) decoderKind {
	for _, k := range decoderKinds() {
		if k.name == name {
			return k
		}
	}
	panic(name)
}
