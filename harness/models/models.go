// Package models holds Go models of library code that the symbolic engine
// substitutes (digests and ciphers become uninterpreted functions when their
// inputs are symbolic, and the real functions when they are concrete).
package models

import (
	"crypto/cipher"
	"hash"
	"io"
	"strconv"
)

func sha256sum(b []byte) []byte           { panic("engine") }
func aesDecrypt(key, block []byte) []byte { panic("engine") }
func aesEncrypt(key, block []byte) []byte { panic("engine") }

type sha struct{ b []byte }

// NewSHA256 replaces sha256.New.
func NewSHA256() hash.Hash { return &sha{} }

func (s *sha) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }
func (s *sha) Sum(in []byte) []byte        { return append(in, sha256sum(s.b)...) }
func (s *sha) Reset()                      { s.b = nil }
func (s *sha) Size() int                   { return 32 }
func (s *sha) BlockSize() int              { return 64 }

type block struct{ key []byte }

type keySizeError int

func (k keySizeError) Error() string { return "crypto/aes: invalid key size " + strconv.Itoa(int(k)) }

// NewCipher replaces aes.NewCipher.
func NewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
		return &block{append([]byte(nil), key...)}, nil
	}
	return nil, keySizeError(len(key))
}

func (b *block) BlockSize() int          { return 16 }
func (b *block) Encrypt(dst, src []byte) { copy(dst, aesEncrypt(b.key, src[:16])) }
func (b *block) Decrypt(dst, src []byte) { copy(dst, aesDecrypt(b.key, src[:16])) }

type cbc struct {
	b  cipher.Block
	iv []byte
}

// NewCBCDecrypter replaces cipher.NewCBCDecrypter.
func NewCBCDecrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != 16 {
		panic("cipher.NewCBCDecrypter: IV length must equal block size")
	}
	return &cbc{b, append([]byte(nil), iv...)}
}

func (c *cbc) BlockSize() int { return 16 }

func (c *cbc) CryptBlocks(dst, src []byte) {
	if len(src)%16 != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for len(src) > 0 {
		ct := append([]byte(nil), src[:16]...)
		c.b.Decrypt(dst[:16], ct)
		for i := 0; i < 16; i++ {
			dst[i] ^= c.iv[i]
		}
		c.iv = ct
		dst, src = dst[16:], src[16:]
	}
}

func isSym(n int64) bool { panic("engine") }

// LimitedRead replaces (*io.LimitedReader).Read: with a symbolic limit it
// delivers one byte at a time, a legal short read, instead of a path per
// possible limit.
func LimitedRead(l *io.LimitedReader, p []byte) (n int, err error) {
	if l.N <= 0 {
		return 0, io.EOF
	}
	if isSym(l.N) {
		if len(p) > 1 {
			p = p[:1]
		}
	} else if int64(len(p)) > l.N {
		p = p[0:l.N]
	}
	n, err = l.R.Read(p)
	l.N -= int64(n)
	return
}
