package h

import (
	"bytes"
	"crypto/aes"
	"crypto/sha256"
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

var idAES = []byte{6, 0xf1, 7, 1}

// aesProps is a property string with the given salt, IV and cycle power.
func aesProps(cycles byte, salt, iv []byte) []byte {
	p0, p1 := cycles, byte(0)
	if len(salt) > 0 {
		p0 |= 0x80
		p1 |= byte(len(salt)-1) << 4
	}
	if len(iv) > 0 {
		p0 |= 0x40
		p1 |= byte(len(iv) - 1)
	}
	p := append([]byte{p0, p1}, salt...)
	return append(p, iv...)
}

// kdf is the key derivation of the 7z format over an ASCII password.
func kdf(pw, salt []byte, cycles byte) []byte {
	var u []byte
	u = append(u, salt...)
	for _, c := range pw {
		u = append(u, c, 0)
	}
	if cycles == 0x3f {
		key := make([]byte, 32)
		copy(key, u)
		return key
	}
	h := sha256.New()
	for i := uint64(0); i < 1<<cycles; i++ {
		h.Write(u)
		h.Write(le64(i))
	}
	return h.Sum(nil)
}

// cbc decrypts whole blocks.
func cbc(key, iv, ct []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		nd.Fail("harness: bad key")
	}
	prev := make([]byte, 16)
	copy(prev, iv)
	out := make([]byte, len(ct))
	for i := 0; i+16 <= len(ct); i += 16 {
		b.Decrypt(out[i:i+16], ct[i:i+16])
		for j := 0; j < 16; j++ {
			out[i+j] ^= prev[j]
		}
		prev = ct[i : i+16]
	}
	return out
}

// aesArchive holds one member per (props, ciphertext) pair, each in a folder
// of its own with a single AES coder.
func aesArchive(props [][]byte, cts [][]byte, sizes []int) []byte {
	var packed []byte
	var packs [][]byte
	var fs []*afolder
	for i := range props {
		packed = append(packed, cts[i]...)
		packs = append(packs, num(uint64(len(cts[i]))))
		fs = append(fs, &afolder{coders: []acoder{{id: idAES, in: 1, out: 1, props: props[i], size: num(uint64(sizes[i]))}}})
	}
	return archive(packed, header(encStreams(num(0), packs, fs), nil, encFiles(len(props), encNames(names(len(props))))))
}

func openPw(b, pw []byte) *sevenzip.Reader {
	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(b), int64(len(b)), string(pw))
	if err != nil {
		nd.Fail("a well-formed container was refused: " + err.Error())
	}
	return r
}

// ascii is an arbitrary password of n ASCII characters.
func ascii(n int) []byte {
	b := nd.Bytes(n)
	ok := true
	for _, c := range b {
		ok = nd.And(ok, nd.And(c < 0x80, c > 0))
	}
	nd.Assume(ok)
	return b
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

//verif: prop=C10 budget=90
//bounds: raw keys of 4 arbitrary salt and 3 password characters, IVs of 0,1,8,15,16 arbitrary bytes, 0..3 arbitrary ciphertext blocks (thorough 5), reads of 1,5,15,16,17,100 bytes, twice through the same archive
func H_C10_stream() {
	iv := nd.Bytes([]int{0, 1, 8, 15, 16}[nd.Choose(5)])
	salt := nd.Bytes([]int{4, 0}[nd.Choose(2)])
	if len(salt) == 0 && len(iv) == 0 {
		nd.Stop()
	}
	pw := ascii(3)
	ct := nd.Bytes(16 * nd.Choose(nd.Pick(4, 6)))
	if len(ct) == 0 {
		nd.Stop()
	}
	want := cbc(kdf(pw, salt, 0x3f), iv, ct)
	r := openPw(aesArchive([][]byte{aesProps(0x3f, salt, iv)}, [][]byte{clone(ct)}, []int{len(ct)}), pw)
	rd := []int{100, 1, 5, 15, 16, 17}[nd.Choose(6)]
	for i := 0; i < 2; i++ {
		rc, err := r.File[0].Open()
		if err != nil {
			nd.Fail("encrypted member refused: " + err.Error())
		}
		got, err := drain(rc, rd, len(ct))
		nd.Assert(err == nil, "reading an encrypted member fails")
		eq(got, want, "decrypted bytes are not the CBC decryption")
		nd.Assert(rc.Close() == nil, "closing fails")
	}
	nd.Cover("checked")
}

//verif: prop=C10 budget=60
//bounds: every property string of 2..20 bytes whose first two bytes are arbitrary except for the raw cycle power
func H_C10_props() {
	n := 2 + nd.Choose(19)
	p := make([]byte, n)
	p[0] = nd.U8() | 0x3f
	p[1] = nd.U8()
	for i := 2; i < n; i++ {
		p[i] = byte(i)
	}
	salt := int(p[0]>>7&1) + int(p[1]>>4)
	iv := int(p[0]>>6&1) + int(p[1]&15)
	rc, err := mkDecoder(idAES, p, 16, src(make([]byte, 16)))
	if p[0]&0xc0 == 0 || n != 2+salt+iv {
		nd.Assert(err != nil, "a property string of the wrong length is accepted")
		nd.Cover("refused")
		return
	}
	nd.Assert(err == nil, "a consistent property string is refused")
	key := make([]byte, 32)
	copy(key, p[2:2+salt])
	got, err := drain(rc, 64, 16)
	nd.Assert(err == nil, "reading fails")
	eq(got, cbc(key, p[2+salt:], make([]byte, 16)), "salt and IV are not the recorded ones")
	nd.Cover("accepted")
}

//verif: prop=C10 budget=60
//bounds: 0..2 blocks and a partial one of 1,8,15 bytes, reads of 1,16,17,100 bytes, source chunks 1,7,all
func H_C10_partial() {
	full := 16 * nd.Choose(3)
	part := []int{1, 8, 15}[nd.Choose(3)]
	ct := nd.Bytes(full + part)
	s := src(clone(ct))
	s.chunk = []int{0, 1, 7}[nd.Choose(3)]
	rc := mustDecoder(idAES, aesProps(0x3f, nil, []byte{1, 2, 3}), uint64(full+16), s)
	want := cbc(make([]byte, 32), []byte{1, 2, 3}, ct[:full])
	got, err := drain(rc, []int{100, 1, 16, 17}[nd.Choose(4)], full)
	nd.Assert(err != nil && err != io.EOF, "a partial final block is not an error")
	eq(got, want[:len(got)], "bytes delivered before the error are not the CBC decryption")
	nd.Cover("checked")
}

//verif: prop=C10 budget=60
//bounds: a source failing after 0..33 bytes, reads of 1,16,100 bytes
func H_C10_fault() {
	ct := nd.Bytes(48)
	s := src(clone(ct))
	s.failAt = nd.Choose(34)
	rc := mustDecoder(idAES, aesProps(0x3f, nil, []byte{1, 2, 3}), 48, s)
	want := cbc(make([]byte, 32), []byte{1, 2, 3}, ct)
	got, err := drain(rc, []int{100, 1, 16}[nd.Choose(3)], 48)
	nd.Assert(isFault(err), "a failing source does not surface its error")
	eq(got, want[:len(got)], "bytes delivered before the error are not the CBC decryption")
	nd.Cover("checked")
}
