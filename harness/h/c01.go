package h

import (
	"bytes"
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// use exercises everything a caller does with an archive that opened.
func use(r *sevenzip.Reader) {
	for i, f := range r.File {
		if i >= 4 {
			break
		}
		_ = f.FileInfo().Size()
		_ = f.FileInfo().Mode()
		rc, err := f.Open()
		if err != nil {
			continue
		}
		buf := make([]byte, 5)
		idle := 0
		for k := 0; k < 12; k++ {
			n, err := rc.Read(buf)
			nd.Assert(n >= 0 && n <= len(buf), "Read returned a count outside 0..len(p)")
			if err != nil {
				break
			}
			if n == 0 {
				idle++
				nd.Assert(idle < 8, "reads deliver neither data nor an error for ever")
			} else {
				idle = 0
			}
		}
		_ = rc.Close()
		_, _ = rc.Read(buf)
		_ = rc.Close()
	}
}

// arbitrary opens an archive with the given header and uses it.
func arbitrary(h []byte) bool {
	r, err := open(archive([]byte{0, 1, 2, 3}, h))
	if err != nil {
		nd.Assert(r == nil, "an archive is returned along with an error")
		return false
	}
	use(r)
	return true
}

//verif: prop=C01 budget=100
//bounds: every header of up to 11 (thorough 13) bytes, counts up to 3
func H_C01_raw() {
	nd.MaxCount(3)
	n := nd.Choose(nd.Pick(12, 14))
	if arbitrary(nd.Bytes(n)) {
		nd.Cover("opened")
	} else {
		nd.Cover("refused")
	}
}

//verif: prop=C01 budget=100
//bounds: a signature header with correct checksum whose offset and size are arbitrary (all 2^128 combinations, except an offset from -31 to -1 that makes the header overlap the signature header, offsets from 2^63-4200 to 2^63-64 and sizes from 25 to 4095), followed by 0..4 bytes of a header; files of 6..31 bytes starting with the signature
func H_C01_start() {
	if nd.Choose(2) == 0 {
		b := append(append([]byte(nil), sig...), nd.Bytes(nd.Choose(26))...)
		r, err := open(b)
		nd.Assert(err != nil && r == nil, "a file shorter than a signature header opens")
		nd.Cover("short")
		return
	}
	nd.MaxCount(3)
	off := nd.U64()
	nd.Assume(nd.Or(off < 1<<63, off <= ^uint64(31)))
	nd.Assume(nd.Or(off < 1<<63-4200, off > 1<<63-64))
	size := nd.U64()
	nd.Assume(nd.Or(size <= 24, size >= 4096))
	start := append(append(le64(off), le64(size)...), crc([]byte{kHeader, kEnd})...)
	b := append(append([]byte(nil), sig...), 0, 4)
	b = append(b, crc(start)...)
	b = append(b, start...)
	b = append(b, []byte{kHeader, kEnd, kHeader, kEnd}[:nd.Choose(5)]...)
	if r, err := open(b); err == nil {
		use(r)
		nd.Cover("opened")
	} else {
		nd.Cover("refused")
	}
}

//verif: prop=C02 budget=140
//bounds: pack information valid, then 8 (thorough 10) arbitrary bytes of folders, counts up to 3, then a valid list of one file
func H_C01_folders() {
	nd.MaxCount(3)
	h := []byte{kHeader, kMainStreamsInfo, kPackInfo, 0, 2, kSize, 1, 2, kEnd, kUnpackInfo, kFolder, 1, 0}
	h = append(h, nd.Bytes(nd.Pick(8, 10))...)
	h = append(h, kEnd, kEnd)
	h = append(h, encFiles(1)...)
	h = append(h, kEnd)
	if arbitrary(h) {
		nd.Cover("opened")
	} else {
		nd.Cover("refused")
	}
}

//verif: prop=C02 budget=140
//bounds: pack information and two folders valid, then 9 (thorough 12) arbitrary bytes of digests and sub-streams, counts up to 3, then a valid list of 1..3 files
func H_C01_substreams() {
	nd.MaxCount(3)
	f := &afolder{coders: []acoder{one(0, 2)}}
	s := encStreams(num(0), [][]byte{num(2), num(2)}, []*afolder{f, f})
	h := append([]byte{kHeader, kMainStreamsInfo}, s[:len(s)-nd.Choose(2)]...)
	h = append(h, nd.Bytes(nd.Pick(9, 12))...)
	h = append(h, kEnd)
	h = append(h, encFiles(1+nd.Choose(3))...)
	h = append(h, kEnd)
	if arbitrary(h) {
		nd.Cover("opened")
	} else {
		nd.Cover("refused")
	}
}

//verif: prop=C01 budget=100
//bounds: one folder valid, then 10 (thorough 13) arbitrary bytes of file properties for 1..3 files
func H_C01_files() {
	nd.MaxCount(3)
	f := &afolder{coders: []acoder{one(0, 2)}}
	h := []byte{kHeader, kMainStreamsInfo}
	h = append(h, encStreams(num(0), [][]byte{num(2)}, []*afolder{f})...)
	h = append(h, kEnd, kFilesInfo, byte(1+nd.Choose(3)))
	h = append(h, nd.Bytes(nd.Pick(10, 13))...)
	h = append(h, kEnd, kEnd)
	if arbitrary(h) {
		nd.Cover("opened")
	} else {
		nd.Cover("refused")
	}
}

//verif: prop=C01 budget=100
//bounds: encoded header whose decoder delivers 8 (thorough 11) arbitrary bytes, in chunks of 1 or all, recorded size 0..9
func H_C01_encoded() {
	nd.MaxCount(3)
	d := nd.Bytes(nd.Pick(8, 11))
	chunk := nd.Choose(2)
	sevenzip.RegisterDecompressor(hdrID, func(_ []byte, _ uint64, _ []io.ReadCloser) (io.ReadCloser, error) {
		s := src(d)
		s.chunk = chunk
		return s, nil
	})
	c := acoder{id: hdrID, in: 1, out: 1, size: []byte{nd.U8()}}
	nd.Assume(c.size[0] < 10)
	h := append([]byte{kEncodedHeader}, encStreams(num(0), [][]byte{num(0)}, []*afolder{{coders: []acoder{c}}})...)
	h = append(h, kEnd)
	if r, err := open(archive(nil, h)); err == nil {
		use(r)
		nd.Cover("opened")
	} else {
		nd.Cover("refused")
	}
}

//verif: prop=C01 budget=100
//bounds: encoded header whose own streams information is arbitrary: 10 (thorough 13) bytes after the pack information, counts up to 3
func H_C01_enchdr() {
	nd.MaxCount(3)
	h := []byte{kEncodedHeader}
	switch nd.Choose(3) {
	case 0:
	case 1:
		h = append(h, kPackInfo, 0, 1, kSize, 4, kEnd)
	case 2:
		h = append(h, kPackInfo, 0, 2, kSize, 1, 2, kEnd, kUnpackInfo, kFolder)
	}
	h = append(h, nd.Bytes(nd.Pick(9, 12))...)
	nd.Assert(!arbitrary(h), "an encoded header without data opens")
	nd.Cover("refused")
}

//verif: prop=C01 budget=60
//bounds: NewReader with every size argument (all 2^64) over a file of 32..40 bytes
func H_C01_size() {
	b := archive(nil, header(nil, nil, nil))
	n := nd.I64()
	r, err := sevenzip.NewReader(bytes.NewReader(b), n)
	if err == nil {
		use(r)
		nd.Assert(n >= int64(len(b)) || n >= 0, "an archive of negative size opens")
		nd.Cover("opened")
	} else {
		nd.Cover("refused")
	}
}
