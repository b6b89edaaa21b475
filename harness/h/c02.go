package h

import (
	"bytes"
	"encoding/hex"
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

var joinID = []byte{0xee, 0x05}

// joiner reads its inputs one after another.
type joiner struct {
	rs []io.ReadCloser
	io.Reader
}

func (j *joiner) Close() error {
	for _, r := range j.rs {
		if err := r.Close(); err != nil {
			return err
		}
	}
	return nil
}

// registerJoin registers a coder that concatenates any number of inputs.
func registerJoin() {
	sevenzip.RegisterDecompressor(joinID, func(_ []byte, _ uint64, rs []io.ReadCloser) (io.ReadCloser, error) {
		var r []io.Reader
		for _, c := range rs {
			if c == nil {
				nd.Fail("a coder receives a missing input")
			}
			r = append(r, c)
		}
		return &joiner{rs, io.MultiReader(r...)}, nil
	})
}

//verif: prop=C02 budget=140
//bounds: folders of 1..3 (thorough 4) coders with 1..2 (thorough 3) inputs each and arbitrary bytes for every bind pair and packed stream index, 1..3 packed streams of sizes 0..3, arbitrary coder sizes below 8
func H_C02_graph() {
	registerJoin()
	nc := 1 + nd.Choose(nd.Pick(3, 4))
	fl := []byte{kHeader, kMainStreamsInfo, kPackInfo, 0}
	np := 1 + nd.Choose(3)
	fl = append(fl, byte(np), kSize)
	for i := 0; i < np; i++ {
		fl = append(fl, []byte{2, 0, 3}[i])
	}
	fl = append(fl, kEnd, kUnpackInfo, kFolder, 1, 0, byte(nc))
	in := 0
	for i := 0; i < nc; i++ {
		k := 1 + nd.Choose(nd.Pick(2, 3))
		fl = append(fl, 0x12, joinID[0], joinID[1], byte(k), 1)
		in += k
	}
	n := 2 * (nc - 1)
	if p := in - (nc - 1); p > 1 {
		n += p
	}
	b := nd.Bytes(n)
	for i := range b {
		nd.Assume(b[i] < 0x80)
	}
	fl = append(fl, b...)
	fl = append(fl, kCodersUnpackSize)
	s := nd.Bytes(nc)
	for i := range s {
		nd.Assume(s[i] < 8)
	}
	fl = append(fl, s...)
	fl = append(fl, kEnd, kEnd)
	fl = append(fl, encFiles(1)...)
	fl = append(fl, kEnd)
	if arbitrary(fl) {
		nd.Cover("opened")
	} else {
		nd.Cover("refused")
	}
}

var codecIDs = [][]byte{{0}, {3}, {3, 1, 1}, idBCJ, {3, 3, 1, 0x1b}, idPPC, idARM, idSPARC, {4, 1, 8}, {4, 2, 2}, idAES, idARM64, {0x21}, {3, 4, 1}, {4, 0xf7, 0x11, 1}, {4, 0xf7, 0x11, 2}, {4, 0xf7, 0x11, 4}}

//verif: prop=C02 budget=140
//bounds: every built-in coder, 0..5 arbitrary property bytes, 1, 2, 4 or 5 inputs, each of 0..6 bytes; AES cycle powers from 2 to 24 and working memory of more than 16 bytes is outside
func H_C02_codec() {
	id := codecIDs[nd.Choose(len(codecIDs))]
	nd.MaxCount(16)
	nd.SetNumCPU(1)
	k := []int{1, 2, 4, 5}[nd.Choose(4)]
	f := &afolder{}
	var packs [][]byte
	props := nd.Bytes(nd.Choose(6))
	if len(props) > 0 && bytes.Equal(id, idAES) {
		nd.Assume(nd.Or(props[0]&0x3f < 2, props[0]&0x3f > 24))
	}
	for i := 0; i < k; i++ {
		f.packed = append(f.packed, i)
		packs = append(packs, num(1))
	}
	packs[k-1] = num(uint64([]int{0, 1, 6}[nd.Choose(3)]))
	c := acoder{id: id, in: k, out: 1, props: props, size: num(3)}
	f.coders = []acoder{c}
	h := header(encStreams(num(0), packs, []*afolder{f}), nil, encFiles(1, encNames(names(1))))
	b := archive(make([]byte, 12), h)
	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(b), int64(len(b)), "p")
	if err != nil {
		nd.Fail("a well-formed container was refused: " + err.Error())
	}
	use(r)
	nd.Cover("used")
}

//verif: prop=C02 budget=50
//bounds: three members of one folder of 5 bytes with arbitrary sizes (all 2^64 explicit sizes the header accepts) over 0..5 bytes of packed data, arbitrary folder size, used in order twice
func H_C02_sizes() {
	c := one(0, 0)
	v := nd.U64()
	c.size = num9(v)
	sub := append([]byte{kSubStreamsInfo, kNumUnpackStream, 3, kSize}, num9(nd.U64())...)
	sub = append(sub, num9(nd.U64())...)
	sub = append(sub, kEnd)
	d := make([]byte, nd.Choose(6))
	b := archive(d, header(encStreams(num(0), [][]byte{num(uint64(len(d)))}, []*afolder{{coders: []acoder{c}}}), sub, encFiles(3, encNames(names(3)))))
	r, err := open(b)
	if err != nil {
		nd.Cover("refused")
		return
	}
	use(r)
	use(r)
	nd.Cover("used")
}

// corrupt builds decoder k over its valid stream cut after the first keep
// bytes and followed by 0..n arbitrary ones, reads it and closes it.
func corrupt(name string, keep, n, size int) {
	ins, _ := kind(name).stream()
	corrupted(name, cat(ins[0][:keep], nd.Bytes(nd.Choose(n+1))), size)
}

func corrupted(name string, b []byte, size int) {
	k := kind(name)
	nd.MaxCount(1 << 16)
	r, err := k.build(k.props, uint64(size), []io.ReadCloser{src(b)})
	if err != nil {
		nd.Cover("refused")
		return
	}
	p := make([]byte, 4)
	for i := 0; ; i++ {
		nd.Assert(i < size/4+8, "a decoder neither ends nor fails")
		m, err := r.Read(p)
		nd.Assert(m >= 0 && m <= len(p), "Read returned a count outside 0..len(p)")
		if err != nil {
			break
		}
		if i > 2 {
			break
		}
	}
	r.Close()
	nd.Cover("used")
}

//verif: prop=C02 budget=50
//bounds: the ppmd decoder over arbitrary bytes, 0..5 (thorough 6) of them, read up to four times 4 bytes and closed; tables of more than 64 KiB are outside
func H_C02_ppmd() { corrupt("ppmd", 0, nd.Pick(5, 6), nd.Pick(1, 2)) }

//verif: prop=C02 budget=50
//bounds: the lzma decoder over arbitrary bytes, 0..5 (thorough 6) of them, read up to four times 4 bytes and closed; tables of more than 64 KiB are outside
func H_C02_lzma() { corrupt("lzma", 0, nd.Pick(5, 6), 3) }

//verif: prop=C02 budget=50
//bounds: the lzma2 decoder over arbitrary bytes, 0..5 (thorough 7) of them, read up to four times 4 bytes and closed; tables of more than 64 KiB are outside
func H_C02_lzma2() { corrupt("lzma2", 0, nd.Pick(5, 7), 3) }

//verif: prop=C02 budget=50
//bounds: the bzip2 decoder over a valid stream cut after its block header and followed by arbitrary bytes, 0..2 (thorough 6) of them, read up to four times 4 bytes and closed; tables of more than 64 KiB are outside
func H_C02_bzip2() { corrupt("bzip2", 10, nd.Pick(2, 6), 3) }

//verif: prop=C02 budget=50
//bounds: the deflate decoder over arbitrary bytes, 0..3 (thorough 4) of them, read up to four times 4 bytes and closed; tables of more than 64 KiB are outside
func H_C02_deflate() { corrupt("deflate", 0, nd.Pick(3, 4), 3) }

//verif: prop=C02 budget=50
//bounds: the brotli decoder over a valid frame header followed by arbitrary bytes, 0..3 (thorough 4) of them, read up to four times 4 bytes and closed; tables of more than 64 KiB are outside
func H_C02_brotli() { corrupt("brotli", 16, nd.Pick(3, 4), 3) }

//verif: prop=C02 budget=50
//bounds: the lz4 decoder over a valid frame header and a block of 0..7 arbitrary bytes, packed or stored, of which 0..2 (thorough 4) are there, read up to four times 4 bytes and closed; tables of more than 64 KiB are outside
func H_C02_lz4() {
	ins, _ := kind("lz4").stream()
	n := nd.U8() & 7
	corrupted("lz4", cat(ins[0][:7], []byte{n, 0, 0, []byte{0, 0x80}[nd.Choose(2)]}, nd.Bytes(nd.Choose(nd.Pick(3, 5)))), 3)
}

//verif: prop=C02 budget=50
//bounds: the zstd decoder over a valid magic number followed by arbitrary bytes, 0..4 (thorough 5) of them, read up to four times 4 bytes and closed; tables of more than 64 KiB are outside
func H_C02_zstd() { corrupt("zstd", 4, nd.Pick(4, 5), 3) }

// A stream that leads the model into a state no compressor produces.
var ppmdDamaged = unhex("00646646f372ec173657291043a0684cc01ccd6fa5a8f86344f5ca798c0740944837f4244db06930ea076e8cc9179cb12f3b95b4d46d3d94f6b345b087c745cd143cf0bd4d65cdd276eb90bc64ef6fbc12da2e81a43d54593dd496f37aa54f4efb5eabbb58820896bb1664e774fe")

//verif: prop=C02 budget=50
//bounds: the ppmd decoder of order 53 and 2674 bytes of memory over one damaged stream of 110 bytes whose byte 107 is arbitrary (quick: the lower half of it), read to its end
func H_C02_ppmdDamaged() {
	b := cat(ppmdDamaged)
	i := len(b) - 3
	if nd.Pick(0, 1) == 0 {
		b[i] = b[i]&0xf0 | nd.U8()&0x0f
	} else {
		b[i] = nd.U8()
	}
	r, err := kind("ppmd").build([]byte{53, 0x72, 0x0a, 0, 0}, 1000, []io.ReadCloser{src(b)})
	if err != nil {
		nd.Fail("refused: " + err.Error())
	}
	p := make([]byte, 100)
	for i := 0; i < 20; i++ {
		if _, err := r.Read(p); err != nil {
			nd.Cover("failed")
			break
		}
	}
	r.Close()
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		nd.Fail("bad hex")
	}
	return b
}
