package h

import (
	"io"
	"time"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

var (
	hdrID = []byte{0xee, 0x03}
	inID  = []byte{0xee, 0x04}
)

// encoded wraps a header into an encoded header whose only coder is a
// registered one that delivers it in chunks.
func encoded(h []byte, chunk int, eof bool, digest bool) []byte {
	sevenzip.RegisterDecompressor(hdrID, func(_ []byte, _ uint64, _ []io.ReadCloser) (io.ReadCloser, error) {
		s := src(h)
		s.chunk, s.eof = chunk, eof
		return s, nil
	})
	f := &afolder{coders: []acoder{{id: hdrID, in: 1, out: 1, size: num(uint64(len(h)))}}}
	if digest {
		f.crc = crc(h)
	}
	e := []byte{kEncodedHeader}
	e = append(e, encStreams(num(0), [][]byte{num(0)}, []*afolder{f})...)
	e = append(e, kEnd)
	return archive(nil, e)
}

// mustOpen opens a well-formed archive.
func mustOpen(b []byte) *sevenzip.Reader {
	r, err := open(b)
	if err != nil {
		nd.Fail("a well-formed container was refused: " + err.Error())
	}
	return r
}

//verif: prop=C03,C27 budget=100
//bounds: one or two single-coder folders with 0..2 sub-streams each (sub-streams info absent, without counts, with counts), arbitrary 64-bit sizes, every combination of defined folder and sub-stream checksums with arbitrary values, one or no empty entry at every position
func H_C03_streams() {
	nf := 1 + nd.Choose(2)
	fs := make([]*afolder, nf)
	size := make([]uint64, nf)
	count := make([]int, nf)
	fcrc := make([]uint32, nf)
	packs := make([][]byte, nf)
	for i := range fs {
		size[i] = nd.U64()
		nd.Assume(size[i] < 1<<63)
		c := one(0, 0)
		c.size = num9(size[i])
		fs[i] = &afolder{coders: []acoder{c}}
		if nd.Choose(2) == 1 {
			fcrc[i] = nd.U32()
			fs[i].crc = le32(fcrc[i])
		}
		packs[i] = num(0)
		count[i] = 1
	}
	type ent struct {
		folder int
		size   uint64
		crc    uint32
	}
	var sub []byte
	var files []ent
	switch nd.Choose(3) {
	case 0:
		for i := range fs {
			files = append(files, ent{i, size[i], fcrc[i]})
		}
	case 1, 2:
		k := nd.Choose(2)
		sub = []byte{kSubStreamsInfo}
		if k == 1 {
			sub = append(sub, kNumUnpackStream)
			for i := range fs {
				count[i] = nd.Choose(3)
				sub = append(sub, num(uint64(count[i]))...)
			}
		}
		var sizes []byte
		var def []bool
		var dig []byte
		digests := nd.Choose(2) == 1
		for i := range fs {
			left := size[i]
			for j := 0; j < count[i]; j++ {
				e := ent{folder: i, size: left}
				if j < count[i]-1 {
					e.size = nd.U64()
					nd.Assume(e.size <= left)
					sizes = append(sizes, num9(e.size)...)
					left -= e.size
				}
				if count[i] == 1 && fs[i].crc != nil {
					e.crc = fcrc[i]
				} else if digests {
					d := nd.Choose(2) == 1
					def = append(def, d)
					if d {
						e.crc = nd.U32()
						dig = append(dig, le32(e.crc)...)
					}
				}
				files = append(files, e)
			}
		}
		if len(sizes) > 0 {
			sub = append(append(sub, kSize), sizes...)
		}
		if len(def) > 0 {
			sub = append(sub, kCRC)
			all := true
			for _, d := range def {
				all = all && d
			}
			if all {
				sub = append(sub, 1)
			} else {
				sub = append(append(sub, 0), bits(def)...)
			}
			sub = append(sub, dig...)
		}
		sub = append(sub, kEnd)
	}
	n := len(files)
	empty := nd.Choose(n+2) - 1 // position of the empty entry
	var props [][]byte
	if empty >= 0 {
		var b []bool
		for i := 0; i <= n; i++ {
			b = append(b, i == empty)
		}
		props = append(props, prop(kEmptyStream, bits(b)))
		if nd.Choose(2) == 1 {
			props = append(props, prop(kEmptyFile, []byte{0x80}))
		}
		n++
	}
	if n == 0 {
		nd.Stop()
	}
	props = append(props, encNames(names(n)))
	r := mustOpen(archive(nil, header(encStreams(num(0), packs, fs), sub, encFiles(n, props...))))
	nd.Assert(len(r.File) == n, "wrong number of files")
	j := 0
	for i, f := range r.File {
		nd.Assert(f.Name == string([]byte{'a' + byte(i)}), "wrong name")
		if i == empty {
			nd.Assert(f.UncompressedSize == 0, "an empty entry has a size")
			nd.Assert(f.CRC32 == 0, "an empty entry has a checksum")
			rc, err := f.Open()
			if err != nil {
				nd.Fail("an empty entry does not open")
			}
			m, err := rc.Read(make([]byte, 1))
			nd.Assert(m == 0 && err == io.EOF, "an empty entry does not read as empty")
			continue
		}
		e := files[j]
		j++
		nd.Assert(f.Stream == e.folder, "a member is assigned to another folder")
		nd.Assert(f.UncompressedSize == e.size, "the listed size differs from the encoded one")
		nd.Assert(f.CRC32 == e.crc, "the listed checksum differs from the encoded one")
	}
	nd.Cover("checked")
}

// optional encodes a vector of optional values.
func optional(id byte, def []bool, vals []byte) []byte {
	all := true
	for _, d := range def {
		all = all && d
	}
	b := []byte{1}
	if !all {
		b = append([]byte{0}, bits(def)...)
	}
	return prop(id, append(append(b, 0), vals...))
}

//verif: prop=C03 budget=100
//bounds: two members; names and attributes with arbitrary values and one kind of timestamp with every defined vector, in every order, with padding of 0..1 bytes at every position, the header plain or encoded and delivered in chunks of 1, 3 or (thorough) all bytes; values concrete where the encoded header has a checksum
func H_C03_props() {
	n := 2
	f := &afolder{coders: []acoder{one(0, 5)}, sub: 2}
	kind := nd.Choose(nd.Pick(3, 4))
	nm := []byte("xy")
	if kind != 1 {
		nm = nd.Bytes(2)
		for _, c := range nm {
			nd.Assume(nd.And(c > 0, c < 0x80))
		}
	}
	var d []byte
	d = append(d, 0)
	for _, c := range nm {
		d = append(d, c, 0, 0, 0)
	}
	tk := kCTime + nd.Choose(3)
	attr := make([]uint32, n)
	tm := make([]uint64, n)
	var da, dt []bool
	var va, vt []byte
	for i := 0; i < n; i++ {
		da = append(da, nd.Choose(2) == 1)
		dt = append(dt, nd.Choose(2) == 1)
		if da[i] {
			attr[i] = []uint32{0x20, 0x01020381}[i]
			if kind != 1 {
				attr[i] = nd.U32()
				nd.Assume(nd.And(attr[i]&0xf0000000 == 0, attr[i]&0x10 == 0))
			}
			va = append(va, le32(attr[i])...)
		}
		if dt[i] {
			tm[i] = []uint64{116444736000000000, 133333333331234567}[i]
			vt = append(vt, le64(tm[i])...)
		}
	}
	ps := [][]byte{prop(kNames, d), optional(kWinAttributes, da, va), optional(byte(tk), dt, vt)}
	var props [][]byte
	pad := nd.Choose(4)
	if pad == 3 {
		props = append(props, prop(kDummy, nil))
	}
	for i := 3; i > 0; i-- {
		j := nd.Choose(i)
		props = append(props, ps[j])
		ps = append(append([][]byte(nil), ps[:j]...), ps[j+1:]...)
		if pad == i-1 {
			props = append(props, prop(kDummy, []byte{0}))
		}
	}
	sub := []byte{kSubStreamsInfo, kNumUnpackStream, 2, kSize, 2, kEnd}
	h := header(encStreams(num(0), [][]byte{num(5)}, []*afolder{f}), sub, encFiles(n, props...))
	var b []byte
	switch kind {
	case 0:
		b = archive(nil, h)
	case 1:
		b = encoded(h, 1, pad&1 == 1, true)
	case 2:
		b = encoded(h, 3, false, false)
	case 3:
		b = encoded(h, 0, true, false)
	}
	r := mustOpen(b)
	nd.Assert(len(r.File) == n, "wrong number of files")
	for i, f := range r.File {
		nd.Assert(f.Name == string(nm[i:i+1]), "wrong name")
		nd.Assert(f.Attributes == attr[i], "wrong attributes")
		nd.Assert(f.Stream == 0, "wrong stream")
		var t [3]time.Time
		t[0], t[1], t[2] = f.Created, f.Accessed, f.Modified
		for k := 0; k < 3; k++ {
			if k == tk-kCTime && dt[i] {
				sec := int64(tm[i]/10000000) - 11644473600
				nd.Assert(t[k].Unix() == sec, "wrong timestamp")
				nd.Assert(uint64(t[k].Nanosecond()) == tm[i]%10000000*100, "wrong timestamp fraction")
			} else {
				nd.Assert(t[k].IsZero(), "an undefined timestamp is set")
			}
		}
	}
	nd.Assert(r.File[0].UncompressedSize == 2 && r.File[1].UncompressedSize == 3, "wrong sizes")
	nd.Cover("checked")
}

//verif: prop=C03 budget=60
//bounds: header of more than 4096 bytes placed so that a coder identifier or its 1..4 property bytes straddle every position around the end of the first buffer
func H_C03_long() {
	pn := 1 + nd.Choose(4)
	pb := nd.Bytes(pn)
	var got []byte
	sevenzip.RegisterDecompressor(inID, func(p []byte, _ uint64, _ []io.ReadCloser) (io.ReadCloser, error) {
		got = append([]byte{}, p...)
		return src(nil), nil
	})
	// many folders push the last one's coder over the boundary
	at := 4096 - 10 + nd.Choose(14)
	var fs []*afolder
	var packs [][]byte
	h := []byte{kHeader, kMainStreamsInfo, kPackInfo, 0}
	fill := &afolder{coders: []acoder{{id: []byte{0x21, 2, 3, 4}, in: 1, out: 1, props: make([]byte, 300), size: num(0)}}}
	last := &afolder{coders: []acoder{{id: inID, in: 1, out: 1, props: pb, size: num(0)}}}
	for len(encFolder(fill))*len(fs)+len(h) < at-800 {
		fs = append(fs, fill)
	}
	tail := &afolder{coders: []acoder{{id: []byte{0x21, 2, 3, 4}, in: 1, out: 1, size: num(0)}}}
	// adjust so that the last folder starts at offset at
	for i := 0; i <= len(fs)+1; i++ {
		packs = append(packs, num(0))
	}
	lead := len(encStreams(num(0), packs, nil)) - 2 + 2 // header id, streams id; minus trailing sizes id and end
	cur := lead + len(fs)*len(encFolder(fill))
	tail.coders[0].props = make([]byte, at-cur-len(encFolder(tail))-2)
	fs = append(fs, tail, last)
	r := mustOpen(archive(nil, header(encStreams(num(0), packs, fs), []byte{kSubStreamsInfo, kEnd}, encFiles(len(fs), encNames(make([]string, len(fs)))))))
	_, err := r.File[len(fs)-1].Open()
	nd.Assert(err == nil, "the member does not open")
	eq(got, pb, "the decoder receives other properties than the header records")
	nd.Cover("checked")
}

//verif: prop=C03 budget=100
//bounds: 7, 8, 9, 16, 17, 1023, 1024 or 1025 (thorough also 127..129, 255..257) entries, with data in one folder or in one folder each or empty, all but one alike; that one at position 0, 7, 8 or the last, with data or empty, its size (of up to 17 entries), checksum, attributes and modification time arbitrary or not recorded, those of the others recorded or not
func H_C03_many() {
	n := []int{7, 8, 9, 16, 17, 1023, 1024, 1025, 127, 128, 129, 255, 256, 257}[nd.Choose(nd.Pick(8, 14))]
	at := []int{0, 7, 8, n - 1}[nd.Choose(4)]
	if at >= n || at == 7 && n == 8 {
		nd.Stop()
	}
	solid := nd.Choose(2) == 1
	rest := nd.Choose(2) == 1    // the other entries have data
	special := nd.Choose(2) == 1 // the special one has data
	def := nd.Choose(2) == 1     // values of the others recorded
	sdef := nd.Choose(2) == 1    // values of the special one recorded
	if !rest && !special {
		nd.Stop()
	}
	sum, attr, ft, size := nd.U32(), nd.U32(), nd.U64(), uint64(nd.U8())
	nd.Assume(attr&0xf0000010 == 0)
	if n > 20 {
		size = 77
	}
	var empty, dv, dcrc []bool
	var va, vt, vc, vs []byte
	var fs []*afolder
	var packs [][]byte
	total, members := uint64(0), 0
	for i := 0; i < n; i++ {
		data, d, c, a, t, s := rest, def, uint32(i)*3+1, uint32(i)&0xf, uint64(i)*10000000+116444736000000000, uint64(i)&0x3f
		if i == at {
			data, d, c, a, t, s = special, sdef, sum, attr, ft, size
		}
		empty = append(empty, !data)
		dv = append(dv, d)
		if d {
			va = append(va, le32(a)...)
			vt = append(vt, le64(t)...)
		}
		if !data {
			continue
		}
		members++
		if solid {
			if total == 0 && len(packs) == 0 {
				packs = append(packs, num(0))
			}
			total += s
			vs = append(vs, numN(s, 2)...)
			dcrc = append(dcrc, d)
			if d {
				vc = append(vc, le32(c)...)
			}
		} else {
			o := one(0, 0)
			o.size = numN(s, 2)
			f := &afolder{coders: []acoder{o}}
			if d {
				f.crc = le32(c)
			}
			fs = append(fs, f)
			packs = append(packs, num(0))
		}
	}
	var sub []byte
	if solid {
		o := one(0, 0)
		o.size = num9(total)
		fs = append(fs, &afolder{coders: []acoder{o}})
		sub = append([]byte{kSubStreamsInfo, kNumUnpackStream}, num(uint64(members))...)
		if members > 1 {
			sub = append(append(sub, kSize), vs[:len(vs)-3]...)
		}
		sub = append(sub, kCRC, 0)
		sub = append(append(append(sub, bits(dcrc)...), vc...), kEnd)
	}
	d := []byte{0}
	for i := 0; i < n; i++ {
		d = append(d, 'a'+byte(i%26), 0, 'a'+byte(i/26%26), 0, 'a'+byte(i/676), 0, 0, 0)
	}
	props := [][]byte{prop(kEmptyStream, bits(empty)), prop(kNames, d), optional(kWinAttributes, dv, va), optional(kMTime, dv, vt)}
	r := mustOpen(encoded(header(encStreams(num(0), packs, fs), sub, encFiles(n, props...)), 0, false, false))
	nd.Assert(len(r.File) == n, "wrong number of files")
	k := 0
	for i, f := range r.File {
		data, d, c, a, t, s := rest, def, uint32(i)*3+1, uint32(i)&0xf, uint64(i)*10000000+116444736000000000, uint64(i)&0x3f
		if i == at {
			data, d, c, a, t, s = special, sdef, sum, attr, ft, size
		}
		nd.Assert(f.Name == string([]byte{'a' + byte(i%26), 'a' + byte(i/26%26), 'a' + byte(i/676)}), "wrong name")
		if !data {
			c, s = 0, 0
		}
		if !d {
			a, c = 0, 0
			nd.Assert(f.Modified.IsZero(), "an undefined timestamp is set")
		} else {
			nd.Assert(f.Modified.Unix() == int64(t/10000000)-11644473600, "wrong timestamp")
		}
		nd.Assert(f.Attributes == a, "wrong attributes")
		nd.Assert(f.CRC32 == c, "the listed checksum differs from the encoded one")
		nd.Assert(f.UncompressedSize == s, "the listed size differs from the encoded one")
		w := 0
		if data {
			if !solid {
				w = k
			}
			k++
		}
		nd.Assert(f.Stream == w, "wrong stream")
	}
	nd.Cover("checked")
}
