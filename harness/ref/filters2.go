package ref

func ms86(b byte) bool { return b == 0 || b == 0xff }

// X86 is the BCJ x86 decoder of the LZMA SDK 9.20 (Bra86.c) over a whole
// stream starting at address 0.
func X86(in []byte) []byte {
	allowed := [8]bool{true, true, true, false, true, false, false, false}
	bitnum := [8]uint{0, 1, 2, 2, 3, 3, 3, 3}
	b := append([]byte(nil), in...)
	if len(b) < 5 {
		return b
	}
	pos, prev := 0, -1
	var mask uint
	limit := len(b) - 4
	for {
		for pos < limit && b[pos]&0xfe != 0xe8 {
			pos++
		}
		if pos >= limit {
			return b
		}
		d := pos - prev
		if d > 3 {
			mask = 0
		} else {
			mask = mask << uint(d-1) & 7
			if mask != 0 && (!allowed[mask] || ms86(b[pos+4-int(bitnum[mask])])) {
				prev = pos
				mask = mask<<1&7 | 1
				pos++
				continue
			}
		}
		prev = pos
		if !ms86(b[pos+4]) {
			mask = mask<<1&7 | 1
			pos++
			continue
		}
		src := uint32(b[pos+4])<<24 | uint32(b[pos+3])<<16 | uint32(b[pos+2])<<8 | uint32(b[pos+1])
		ip := uint32(pos) + 5
		var dest uint32
		for {
			dest = src - ip
			if mask == 0 {
				break
			}
			index := bitnum[mask] * 8
			if !ms86(byte(dest >> (24 - index))) {
				break
			}
			src = dest ^ (1<<(32-index) - 1)
		}
		b[pos+4] = -(byte(dest>>24) & 1)
		b[pos+3] = byte(dest >> 16)
		b[pos+2] = byte(dest >> 8)
		b[pos+1] = byte(dest)
		pos += 5
	}
}

// Delta adds the byte dist positions back.
func Delta(in []byte, dist int) []byte {
	b := append([]byte(nil), in...)
	for i := dist; i < len(b); i++ {
		b[i] += b[i-dist]
	}
	return b
}

// BCJ2 is the decoder of the LZMA SDK 9.20 (Bcj2.c). ok is false where that
// decoder reports a data error. A negative size stands for everything the main
// stream defines.
func BCJ2(main, call, jump, rc []byte, size int) (out []byte, ok bool) {
	if len(rc) < 5 {
		return nil, false
	}
	var prob [258]uint32
	for i := range prob {
		prob[i] = 1024
	}
	code := uint32(rc[1])<<24 | uint32(rc[2])<<16 | uint32(rc[3])<<8 | uint32(rc[4])
	rng := uint32(0xffffffff)
	rc = rc[5:]
	prev := byte(0)
	pos := 0
	for size < 0 || len(out) < size {
		if pos == len(main) {
			return out, size < 0
		}
		b := main[pos]
		pos++
		out = append(out, b)
		if b&0xfe != 0xe8 && !(prev == 0x0f && b&0xf0 == 0x80) {
			prev = b
			continue
		}
		if len(out) == size {
			return out, true
		}
		i := 257
		if b == 0xe8 {
			i = int(prev)
		} else if b == 0xe9 {
			i = 256
		}
		bound := rng >> 11 * prob[i]
		bit := code >= bound
		if bit {
			rng -= bound
			code -= bound
			prob[i] -= prob[i] >> 5
		} else {
			rng = bound
			prob[i] += (2048 - prob[i]) >> 5
		}
		if rng < 1<<24 {
			if len(rc) == 0 {
				return out, false
			}
			rng <<= 8
			code = code<<8 | uint32(rc[0])
			rc = rc[1:]
		}
		if !bit {
			prev = b
			continue
		}
		s := &jump
		if b == 0xe8 {
			s = &call
		}
		if len(*s) < 4 {
			return out, false
		}
		v := uint32((*s)[0])<<24 | uint32((*s)[1])<<16 | uint32((*s)[2])<<8 | uint32((*s)[3])
		*s = (*s)[4:]
		dest := v - (uint32(len(out)) + 4)
		for k := uint(0); k < 4 && (size < 0 || len(out) < size); k++ {
			out = append(out, byte(dest>>(8*k)))
		}
		prev = byte(dest >> 24)
	}
	return out, true
}
