package h

import (
	"errors"

	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

func isFault(err error) bool { return errors.Is(err, errFault) }

// oneAES opens a one-member archive and checks its single block.
func checkAES(i int, pw, salt, iv []byte, cycles byte) {
	ct := make([]byte, 16)
	ct[0] = byte(i)
	r := openPw(aesArchive([][]byte{aesProps(cycles, salt, iv)}, [][]byte{ct}, []int{16}), pw)
	rc, err := r.File[0].Open()
	if err != nil {
		nd.Fail("encrypted member refused: " + err.Error())
	}
	got, err := drain(rc, 64, 16)
	nd.Assert(err == nil, "reading an encrypted member fails")
	eq(got, cbc(kdf(pw, salt, cycles), iv, ct), "the key is not the one derived from password, salt and cycles")
}

//verif: prop=C11 budget=90
//bounds: every ASCII password of 0..3 characters and salt of 0..3 bytes (thorough 5), cycle powers 0..2 (thorough 0..4) and raw
func H_C11_derive() {
	pw := ascii(nd.Choose(nd.Pick(4, 6)))
	salt := nd.Bytes(nd.Choose(nd.Pick(4, 6)))
	cyc := byte(nd.Choose(nd.Pick(4, 6)))
	if int(cyc) == nd.Pick(3, 5) {
		cyc = 0x3f
	}
	checkAES(1, pw, salt, []byte{9}, cyc)
	nd.Cover("checked")
}

//verif: prop=C11 budget=120
//bounds: every sequence of two derivations (thorough three) with independent ASCII passwords of 0..2 characters, salts of 0..2 bytes, cycle powers 0, 1 and raw
func H_C11_sequence() {
	for i := 0; i < nd.Pick(2, 3); i++ {
		pw := ascii(nd.Choose(3))
		salt := nd.Bytes(nd.Choose(3))
		cyc := []byte{0, 1, 0x3f}[nd.Choose(3)]
		checkAES(i, pw, salt, []byte{9}, cyc)
	}
	nd.Cover("checked")
}

//verif: prop=C11 budget=60
//bounds: 9..13 distinct derivations (around the number remembered) before deriving an arbitrary one of 1 password and 1 salt byte, then the first again
func H_C11_evict() {
	n := 9 + nd.Choose(5)
	for i := 0; i < n; i++ {
		checkAES(i, []byte{'a' + byte(i)}, []byte{byte(i)}, []byte{9}, 0)
	}
	checkAES(20, ascii(1), nd.Bytes(1), []byte{9}, 0)
	checkAES(21, []byte{'a'}, []byte{0}, []byte{9}, 0)
	nd.Cover("checked")
}

//verif: prop=C11 budget=60
//bounds: all cycle powers from 25 to 62, arbitrary salt and password byte
func H_C11_refuse() {
	c := nd.U8()
	nd.Assume(c > 24 && c < 63)
	_, err := mkDecoder(idAES, aesProps(c, nd.Bytes(1), []byte{1}), 16, src(make([]byte, 16)))
	nd.Assert(err != nil, "an excessive cycle power is accepted")
	nd.Cover("checked")
}

//verif: prop=C11,C10 budget=90
//bounds: two members sharing one archive, arbitrary salts of 0..2 bytes and IVs of 0..16 bytes, ASCII password of 0..4 characters, members opened in the orders 0,0 0,1,0 1,0,1
func H_C11_props_kept() {
	pw := ascii(nd.Choose(5))
	var props, cts, want [][]byte
	for i := 0; i < 2; i++ {
		salt := nd.Bytes(1 + nd.Choose(2))
		iv := nd.Bytes([]int{1, 16, 8}[nd.Choose(nd.Pick(2, 3))])
		ct := make([]byte, 16)
		props = append(props, aesProps(0, salt, iv))
		cts = append(cts, ct)
		want = append(want, cbc(kdf(pw, salt, 0), iv, ct))
	}
	r := openPw(aesArchive(props, cts, []int{16, 16}), pw)
	for _, i := range [][]int{{0, 0}, {0, 1, 0}, {1, 0, 1}}[nd.Choose(3)] {
		rc, err := r.File[i].Open()
		if err != nil {
			nd.Fail("encrypted member refused: " + err.Error())
		}
		got, err := drain(rc, 64, 16)
		nd.Assert(err == nil, "reading an encrypted member fails")
		eq(got, want[i], "an earlier derivation changed what a later reader decrypts")
	}
	nd.Cover("checked")
}

//verif: prop=C11 budget=60
//bounds: passwords of one arbitrary code point outside ASCII (2..4 byte UTF-8), salt of one byte, raw keys
func H_C11_unicode() {
	c := nd.U32()
	nd.Assume(c >= 0x80 && c < 0x110000 && (c < 0xd800 || c > 0xdfff))
	var pw, u []byte
	switch {
	case c < 0x800:
		pw = []byte{0xc0 | byte(c>>6), 0x80 | byte(c)&0x3f}
	case c < 0x10000:
		pw = []byte{0xe0 | byte(c>>12), 0x80 | byte(c>>6)&0x3f, 0x80 | byte(c)&0x3f}
	default:
		pw = []byte{0xf0 | byte(c>>18), 0x80 | byte(c>>12)&0x3f, 0x80 | byte(c>>6)&0x3f, 0x80 | byte(c)&0x3f}
	}
	if c < 0x10000 {
		u = []byte{byte(c), byte(c >> 8)}
	} else {
		d := c - 0x10000
		hi, lo := 0xd800|d>>10, 0xdc00|d&0x3ff
		u = []byte{byte(hi), byte(hi >> 8), byte(lo), byte(lo >> 8)}
	}
	salt := nd.Bytes(1)
	key := make([]byte, 32)
	copy(key, append(clone(salt), u...))
	ct := make([]byte, 16)
	r := openPw(aesArchive([][]byte{aesProps(0x3f, salt, []byte{9})}, [][]byte{ct}, []int{16}), pw)
	rc, err := r.File[0].Open()
	if err != nil {
		nd.Fail("encrypted member refused: " + err.Error())
	}
	got, err := drain(rc, 64, 16)
	nd.Assert(err == nil, "reading an encrypted member fails")
	eq(got, cbc(key, []byte{9}, ct), "the password is not taken as UTF-16LE")
	nd.Cover("checked")
}
