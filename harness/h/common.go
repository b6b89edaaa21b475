package h

import (
	"bytes"
	"encoding/binary"
	"hash/crc32"
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

var sig = []byte{'7', 'z', 0xBC, 0xAF, 0x27, 0x1C}

func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func le64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }

// archive builds a well-formed container around packed streams and a header:
// signature header with correct CRCs, packed bytes, header bytes.
func archive(packed, header []byte) []byte {
	start := append(le64(uint64(len(packed))), le64(uint64(len(header)))...)
	start = append(start, le32(crc32.ChecksumIEEE(header))...)
	out := append([]byte(nil), sig...)
	out = append(out, 0, 4)
	out = append(out, le32(crc32.ChecksumIEEE(start))...)
	out = append(out, start...)
	out = append(out, packed...)
	return append(out, header...)
}

func open(b []byte) (*sevenzip.Reader, error) {
	return sevenzip.NewReader(bytes.NewReader(b), int64(len(b)))
}

// readBuf reads everything through a buffer of n bytes, bounded.
func readAll(r io.Reader, chunk, maxReads int) ([]byte, error) {
	var out []byte
	buf := make([]byte, chunk)
	for i := 0; i < maxReads; i++ {
		n, err := r.Read(buf)
		nd.Assert(n >= 0 && n <= len(buf), "Read returned a count outside 0..len(p)")
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
	nd.Fail("reader neither ends nor fails")
	return out, nil
}
