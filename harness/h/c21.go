package h

import (
	"bytes"
	"crypto/aes"
	"errors"
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// faulty is an archive file that fails: at call number at (counted from when
// it is armed), and from then on if it stays broken, after delivering some of
// the bytes asked for.
type faulty struct {
	b     []byte
	armed bool
	n, at int
	stay  bool
	hit   bool
}

func (f *faulty) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(f.b)) {
		return 0, io.EOF
	}
	n := len(p)
	if n > len(f.b)-int(off) {
		n = len(f.b) - int(off)
	}
	if f.armed {
		f.n++
		if f.n-1 == f.at || f.stay && f.n-1 > f.at {
			if !f.hit && n > 0 {
				n = nd.Choose(n)
			} else {
				n = 0
			}
			f.hit = true
			copy(p[:n], f.b[off:])
			return n, errFault
		}
	}
	copy(p[:n], f.b[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// failure asserts that err tells the cause, and whether encryption is
// involved.
func failure(err error, encrypted bool) {
	var re *sevenzip.ReadError
	nd.Assert(errors.As(err, &re), "a failure to decode is not a read error")
	nd.Assert(errors.Is(err, errFault), "a read error does not tell its cause")
	nd.Assert(!errors.Is(err, io.EOF), "a failure is reported as end of file")
	nd.Assert(re.Encrypted == encrypted, "a read error tells wrongly whether encryption is involved")
	nd.Cover("failed")
}

// attempt opens and reads a member with reads of the given size; it reports
// whether it failed.
func attempt(f *sevenzip.File, want []byte, size int, encrypted bool) bool {
	rc, err := f.Open()
	if err != nil {
		failure(err, encrypted)
		return true
	}
	failed := false
	b, err := drain(rc, size, len(want))
	nd.Assert(len(b) <= len(want), "a member delivers more bytes than it has")
	eq(b, want[:len(b)], "a member delivers other bytes before a failure")
	if err != nil {
		failure(err, encrypted)
		failed = true
	} else {
		nd.Assert(len(b) == len(want), "a member ends early although the source failed")
	}
	if err := rc.Close(); err != nil {
		nd.Assert(failed, "closing a member fails although reading it did not")
	}
	return failed
}

// chain is a folder, its packed streams, and whether a decryption step is part
// of it.
type chain struct {
	f    *afolder
	pack [][]byte
	aes  bool
}

var aesCoder = acoder{id: idAES, in: 1, out: 1, props: []byte{0x7f, 0, 0}, size: num(16)}

// someChain is one of the built-in chains over n arbitrary bytes.
func someChain(i, n int) chain {
	linear := func(cs ...acoder) *afolder {
		f := &afolder{coders: cs}
		for i := 1; i < len(cs); i++ {
			f.binds = append(f.binds, [2]int{i, i - 1})
		}
		return f
	}
	c := func(id []byte, props ...byte) acoder {
		return acoder{id: id, in: 1, out: 1, props: props, size: num(uint64(n))}
	}
	aes := aesCoder
	aes.size = num(uint64(n))
	ct := func() [][]byte { return [][]byte{nd.Bytes((n + 15) / 16 * 16)} }
	d := func() [][]byte { return [][]byte{nd.Bytes(n)} }
	x86 := []byte{3, 3, 1, 3}
	switch i {
	case 0:
		return chain{linear(c([]byte{0})), d(), false}
	case 1:
		return chain{linear(c([]byte{3}, 1)), d(), false}
	case 2:
		return chain{linear(c([]byte{3, 3, 8, 5})), d(), false}
	case 3:
		return chain{linear(aes), ct(), true}
	case 4:
		return chain{linear(aes, c([]byte{3}, 0)), ct(), true}
	case 5:
		return chain{linear(c([]byte{3}, 0), aes), [][]byte{nd.Bytes((n + 15) / 16 * 16)}, true}
	case 6:
		b := c([]byte{3, 3, 1, 0x1b})
		b.in = 4
		p := [][]byte{nd.Bytes(n), {}, {}, make([]byte, 5)}
		for _, x := range p[0] {
			nd.Assume(nd.And(x&0xfe != 0xe8, x != 0x0f))
		}
		return chain{&afolder{coders: []acoder{b}, packed: []int{0, 1, 2, 3}}, p, false}
	case 7:
		return chain{linear(c([]byte{0x21}, 0)), [][]byte{storedLZMA2(nd.Bytes(n))}, false}
	case 8:
		return chain{linear(c([]byte{4, 1, 8})), [][]byte{storedDeflate(nd.Bytes(n))}, false}
	case 9:
		return chain{linear(c([]byte{4, 0xf7, 0x11, 1})), [][]byte{storedZstd(nd.Bytes(n))}, false}
	case 10:
		return chain{linear(c([]byte{4, 0xf7, 0x11, 2})), [][]byte{storedBrotli(nd.Bytes(n))}, false}
	case 11:
		return chain{linear(c([]byte{4, 0xf7, 0x11, 4})), [][]byte{storedLZ4(nd.Bytes(n))}, false}
	case 12:
		return chain{linear(c(x86)), [][]byte{abc[:n]}, false}
	}
	return chain{}
}

const nChains = 13

// members is an archive of two members, the first of k bytes, behind a chain.
func members(ch chain, k int) []byte {
	var packs [][]byte
	var all []byte
	for _, p := range ch.pack {
		packs = append(packs, num(uint64(len(p))))
		all = append(all, p...)
	}
	if ch.aes && len(ch.f.coders) > 1 && ch.f.coders[0].id[0] == 3 {
		// the filter in front of the decryption keeps the padding
		ch.f.coders[0].size = packs[0]
	}
	sub := cat([]byte{kSubStreamsInfo, kNumUnpackStream, 2, kSize}, num(uint64(k)), []byte{kEnd})
	return archive(all, header(encStreams(num(0), packs, []*afolder{ch.f}), sub, encFiles(2, encNames(names(2)))))
}

//verif: prop=C21,C12 budget=100
//bounds: two members of 2 and 4 arbitrary bytes in one folder behind each of 13 chains of built-in coders (stored blocks for the compressors); the archive file fails at any call while the first or the second member is opened and read (reads of 1, 3 or 8 bytes) after delivering any part of the bytes asked for, once or for good; then both members are read again in either order from the repaired file
func H_C21_source() {
	nd.SetNumCPU(1)
	const n, k = 6, 2
	ch := someChain(nd.Choose(nChains), n)
	b, enc := members(ch, k), ch.aes
	// what the members hold
	var want [2][]byte
	r := mustOpen(b)
	for i, f := range r.File {
		rc, err := f.Open()
		nd.Assert(err == nil, "a member does not open")
		want[i], err = drain(rc, 8, n)
		nd.Assert(err == nil && len(want[i]) == []int{k, n - k}[i], "a member cannot be read")
		nd.Assert(rc.Close() == nil, "closing fails")
	}
	src := &faulty{b: b, at: nd.Choose(4), stay: nd.Choose(2) == 1}
	fr, err := sevenzip.NewReader(src, int64(len(b)))
	nd.Assert(err == nil, "a well-formed archive does not open")
	m := nd.Choose(2)
	src.armed = true
	failed := attempt(fr.File[m], want[m], []int{1, 3, 8}[nd.Choose(3)], enc)
	nd.Assert(!failed || src.hit, "reading fails although the source does not")
	src.armed = false
	o := nd.Choose(2)
	for i := 0; i < 2; i++ {
		j := (i + o) % 2
		if src.hit && !failed && attempt(fr.File[j], want[j], 4, enc) {
			// the failure was met reading ahead, and is reported once
			failed = true
		}
		nd.Assert(!attempt(fr.File[j], want[j], 4, enc), "a member cannot be read after the source was repaired")
	}
	if src.hit {
		nd.Cover("fault met")
	} else {
		nd.Cover("no fault met")
	}
}

//verif: prop=C21 budget=60
//bounds: each of the 16 built-in decoders over a fixed valid stream of which one input is cut short anywhere, in reads of 1 or 64 bytes
func H_C21_cut() {
	ks := decoderKinds()
	k := ks[nd.Choose(len(ks))]
	ins, want := k.stream()
	cut := nd.Choose(len(ins))
	ins[cut] = ins[cut][:nd.Choose(len(ins[cut])+1)]
	var rs []io.ReadCloser
	for _, b := range ins {
		rs = append(rs, src(b))
	}
	r, err := k.build(k.props, uint64(len(want)), rs)
	if err != nil {
		return
	}
	unlock(r)
	out, err := drain(&bounded{r, 64}, []int{1, 64}[nd.Choose(2)], 64)
	nd.Assert(err == nil || !errors.Is(err, io.EOF), "an end of file is wrapped in another error")
	if err != nil {
		nd.Cover("failed")
	} else {
		nd.Cover("ended")
	}
	if len(want) > 0 {
		nd.Assert(len(out) <= len(want), "more data delivered than the stream can hold")
		eq(out, want[:len(out)], "a decoder delivers other bytes")
	}
}

// bounded ends a stream after n bytes, as the library does.
type bounded struct {
	r io.Reader
	n int
}

func (b *bounded) Read(p []byte) (int, error) {
	if b.n == 0 {
		return 0, io.EOF
	}
	if len(p) > b.n {
		p = p[:b.n]
	}
	n, err := b.r.Read(p)
	b.n -= n
	return n, err
}

// step is what a registered coder of a chain does.
type stepKind struct {
	crypto bool
	refuse bool // the password
	broken bool // cannot be built
	failAt int  // fails after so many bytes, <0: never
	with   bool
	locked bool // no password so far
}

type stepper struct {
	stepKind
	in io.Reader
}

func (s *stepper) Read(p []byte) (int, error) {
	nd.Assert(!s.locked, "a decryption step is read before it has the password")
	if s.failAt == 0 {
		return 0, errFault
	}
	if s.failAt > 0 && len(p) > s.failAt {
		p = p[:s.failAt]
	}
	n, err := s.in.Read(p)
	if s.failAt > 0 && err == nil {
		s.failAt -= n
		if s.failAt == 0 && s.with {
			return n, errFault
		}
	}
	return n, err
}

func (s *stepper) Close() error { return nil }

type cryptoStepper struct{ stepper }

func (s *cryptoStepper) Password(p string) error {
	nd.Assert(p == "pw", "a decryption step gets another password")
	if s.refuse {
		return errFault
	}
	s.locked = false
	return nil
}

//verif: prop=C21 budget=100
//bounds: chains of 1..3 registered coders, each a plain or a decryption step that works, cannot be built, refuses the password or fails after 0..3 of 4 bytes (with or after the last of them), before which arbitrary bytes come through; the first or the second member (2 bytes each) is opened and read in reads of 1 or 4 bytes
func H_C21_hint() {
	n := 1 + nd.Choose(3)
	ks := make([]stepKind, n)
	for i := range ks {
		ks[i].failAt = -1
		ks[i].crypto = nd.Choose(2) == 1
		ks[i].locked = ks[i].crypto
		switch nd.Choose(4) {
		case 1:
			ks[i].broken = true
		case 2:
			if !ks[i].crypto {
				nd.Stop()
			}
			ks[i].refuse = true
		case 3:
			ks[i].failAt = nd.Choose(4)
			ks[i].with = ks[i].failAt > 0 && nd.Choose(2) == 1
		}
	}
	f := &afolder{}
	id := []byte{0xee, 0x21}
	for i := range ks {
		f.coders = append(f.coders, acoder{id: id, in: 1, out: 1, props: []byte{byte(i)}, size: num(4)})
		if i > 0 {
			f.binds = append(f.binds, [2]int{i, i - 1})
		}
	}
	sevenzip.RegisterDecompressor(id, func(p []byte, _ uint64, rs []io.ReadCloser) (io.ReadCloser, error) {
		k := ks[p[0]]
		if k.broken {
			return nil, errFault
		}
		s := stepper{k, rs[0]}
		if k.crypto {
			return &cryptoStepper{s}, nil
		}
		return &s, nil
	})
	d := nd.Bytes(4)
	sub := []byte{kSubStreamsInfo, kNumUnpackStream, 2, kSize, 2, kEnd}
	b := archive(d, header(encStreams(num(0), [][]byte{num(4)}, []*afolder{f}), sub, encFiles(2, encNames(names(2)))))
	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(b), int64(len(b)), "pw")
	nd.Assert(err == nil, "a well-formed archive does not open")

	// what is to happen
	enc, early := false, false
	least := 4
	for _, k := range ks {
		if k.broken {
			early = true
			break
		}
		enc = enc || k.crypto
		if k.refuse {
			early = true
			break
		}
		if k.failAt >= 0 && k.failAt < least {
			least = k.failAt
		}
	}
	m := nd.Choose(2)
	rc, err := r.File[m].Open()
	if early {
		nd.Assert(err != nil, "a member opens although a decoder cannot be built")
		failure(err, enc)
		nd.Cover("not built")
		return
	}
	if err != nil {
		nd.Assert(m == 1 && least <= 2, "a member does not open")
		failure(err, enc)
		nd.Cover("not reached")
		return
	}
	out, err := drain(rc, []int{1, 4}[nd.Choose(2)], 2)
	eq(out, d[2*m:2*m+len(out)], "a member delivers other bytes before a failure")
	if err != nil {
		nd.Assert(least <= 2*m+2, "a member fails although its decoders do not")
		failure(err, enc)
		nd.Cover("read failed")
	} else {
		nd.Assert(len(out) == 2, "a member ends early although a decoder failed")
		nd.Assert(least >= 2*m+2, "a member reads although a decoder failed")
		nd.Cover("read")
	}
	if enc {
		nd.Cover("encrypted")
	}
}

//verif: prop=C21,C05 budget=100
//bounds: an archive with a plain or an encoded header (stored, filtered, encrypted or both; with or without a checksum) of one empty member; the archive file fails at any of the first 10 calls made while it is opened, after delivering any part of the bytes asked for, once or for good
func H_C21_header() {
	h := header(nil, nil, encFiles(1, prop(kEmptyStream, []byte{0x80}), prop(kEmptyFile, []byte{0x80}), encNames([]string{"ab"})))
	var b []byte
	enc := false
	switch k := nd.Choose(4); k {
	case 0:
		b = archive(nil, h)
	default:
		pad := h
		for len(pad)%16 != 0 {
			pad = append(pad[:len(pad):len(pad)], 0)
		}
		n := num(uint64(len(h)))
		f := &afolder{coders: []acoder{{id: []byte{0}, in: 1, out: 1, size: n}}}
		packed := h
		if k > 1 {
			enc = true
			packed = encrypt(pad)
			f = &afolder{coders: []acoder{{id: idAES, in: 1, out: 1, props: []byte{0x7f, 0, 0}, size: n}}}
		}
		if k == 3 {
			f.coders = append(f.coders, acoder{id: []byte{0}, in: 1, out: 1, size: n})
			f.binds = [][2]int{{1, 0}}
		}
		if nd.Choose(2) == 1 {
			f.crc = crc(h)
		}
		st := append([]byte{kEncodedHeader}, encStreams(num(0), [][]byte{num(uint64(len(packed)))}, []*afolder{f})...)
		b = archive(packed, append(st, kEnd))
	}
	src := &faulty{b: b, at: nd.Choose(10), stay: nd.Choose(2) == 1, armed: true}
	r, err := sevenzip.NewReader(src, int64(len(b)))
	if err == nil {
		nd.Assert(len(r.File) == 1 && r.File[0].Name == "ab", "an archive opens with other members although its file failed")
		nd.Cover("opened")
		return
	}
	nd.Assert(src.hit, "a well-formed archive does not open")
	nd.Assert(errors.Is(err, errFault), "an error does not tell its cause")
	nd.Cover("failed")
	var re *sevenzip.ReadError
	if errors.As(err, &re) {
		nd.Assert(re.Encrypted == enc, "a read error tells wrongly whether encryption is involved")
		nd.Cover("read error")
	}
}

// encrypt is the ciphertext of whole blocks under the empty password in raw
// mode, which is an all-zero key, and a zero IV.
func encrypt(pt []byte) []byte {
	c, err := aes.NewCipher(make([]byte, 32))
	if err != nil {
		nd.Fail("harness: bad key")
	}
	out := make([]byte, len(pt))
	prev := make([]byte, 16)
	for i := 0; i < len(pt); i += 16 {
		for j := range prev {
			prev[j] ^= pt[i+j]
		}
		c.Encrypt(out[i:i+16], prev)
		copy(prev, out[i:i+16])
	}
	return out
}
