// Package ref holds reference decoders written from the 7-Zip format
// description and the LZMA SDK, independently of the library under test.
package ref

// ARM: BL instructions (condition always) hold a word offset relative to the
// instruction address plus 8.
func ARM(in []byte) []byte {
	b := append([]byte(nil), in...)
	for i := 0; i+4 <= len(b); i += 4 {
		if b[i+3] == 0xeb {
			abs := (uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16) << 2
			rel := (abs - (uint32(i) + 8)) >> 2
			b[i], b[i+1], b[i+2] = byte(rel), byte(rel>>8), byte(rel>>16)
		}
	}
	return b
}

// PPC: bl with AA=0, LK=1.
func PPC(in []byte) []byte {
	b := append([]byte(nil), in...)
	for i := 0; i+4 <= len(b); i += 4 {
		if b[i]>>2 == 0x12 && b[i+3]&3 == 1 {
			abs := uint32(b[i]&3)<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3]&^3)
			rel := abs - uint32(i)
			b[i] = 0x48 | byte(rel>>24)&3
			b[i+1] = byte(rel >> 16)
			b[i+2] = byte(rel >> 8)
			b[i+3] = b[i+3]&3 | byte(rel)&^3
		}
	}
	return b
}

// SPARC: call with a 22-bit sign-extended displacement.
func SPARC(in []byte) []byte {
	b := append([]byte(nil), in...)
	for i := 0; i+4 <= len(b); i += 4 {
		if b[i] == 0x40 && b[i+1]&0xc0 == 0 || b[i] == 0x7f && b[i+1]&0xc0 == 0xc0 {
			v := uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
			d := (v<<2 - uint32(i)) >> 2
			var sign uint32
			if d>>22&1 == 1 {
				sign = 0x3fc00000
			}
			d = sign | d&0x3fffff | 0x40000000
			b[i], b[i+1], b[i+2], b[i+3] = byte(d>>24), byte(d>>16), byte(d>>8), byte(d)
		}
	}
	return b
}

// ARM64: BL (26-bit word displacement) and ADRP (21-bit page displacement,
// converted only when the stored page fits 18 bits signed).
func ARM64(in []byte) []byte {
	b := append([]byte(nil), in...)
	for i := 0; i+4 <= len(b); i += 4 {
		v := uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24
		switch {
		case v>>26 == 0x25:
			v = 0x94000000 | (v-uint32(i)>>2)&0x03ffffff
		case v&0x9f000000 == 0x90000000:
			immlo := v >> 29 & 3
			immhi := v >> 5 & 0x7ffff
			imm := immhi<<2 | immlo // 21 bits
			// the stored page must be in [-2^17, 2^17)
			if s := (imm + 1<<17) & (1<<21 - 1); s >= 1<<18 {
				continue
			}
			imm -= uint32(i) >> 12
			imm &= 1<<18 - 1
			if imm>>17 == 1 {
				imm |= 0x1c0000
			}
			v = 0x90000000 | v&0x1f | (imm&3)<<29 | (imm>>2)<<5
		default:
			continue
		}
		b[i], b[i+1], b[i+2], b[i+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
	}
	return b
}
