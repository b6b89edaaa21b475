package h

import (
	"io"

	"github.com/bodgit/sevenzip"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

// replaced makes the num calls with the given serial numbers encode arbitrary
// values from here on.
func replaced(at ...int) *int {
	n := 0
	numHook = func(v uint64) []byte {
		n++
		for _, a := range at {
			if a == n-1 {
				return num9(nd.U64())
			}
		}
		return nil
	}
	return &n
}

// full is a header with everything in it, in which the numbers with the given
// serial numbers are arbitrary; it also returns how many numbers it has.
func full(at ...int) ([]byte, int) {
	n := replaced(at...)
	b := []byte{kHeader, kMainStreamsInfo, kPackInfo}
	b = cat(b, num(0), num(3), []byte{kSize}, num(1), num(2), num(2), []byte{kCRC, 1}, make([]byte, 12), []byte{kEnd})
	b = cat(b, []byte{kUnpackInfo, kFolder}, num(2), []byte{0})
	f := &afolder{coders: []acoder{{id: []byte{0xee}, in: 2, out: 1, props: []byte{1, 2}}, one(0, 3)}, binds: [][2]int{{2, 0}}, packed: []int{0, 1}}
	b = cat(b, encFolder(f), encFolder(&afolder{coders: []acoder{one(0, 2)}}))
	b = cat(b, []byte{kCodersUnpackSize}, num(3), num(3), num(2), []byte{kCRC, 0, 0x40}, le32(1), []byte{kEnd})
	b = cat(b, []byte{kSubStreamsInfo, kNumUnpackStream}, num(2), num(1), []byte{kSize}, num(1), []byte{kCRC, 1}, make([]byte, 8), []byte{kEnd, kEnd})
	b = append(b, kFilesInfo)
	b = cat(b, num(5), prop(kEmptyStream, []byte{0x18}), prop(kEmptyFile, []byte{0x80}), encNames(names(5)))
	def := []bool{true, false, true, false, true}
	b = cat(b, optional(kMTime, def, make([]byte, 24)), optional(kWinAttributes, def, make([]byte, 12)), prop(kDummy, make([]byte, 3)))
	b = append(b, kEnd, kEnd)
	numHook = nil
	return b, *n
}

// frugal opens an archive within the memory its size allows.
func frugal(b []byte, more int) {
	nd.AllocBudget(1<<18 + 2048*(len(b)+more))
	_, err := open(b)
	nd.AllocEnd()
	if err == nil {
		nd.Cover("opened")
	} else {
		nd.Cover("refused")
	}
}

//verif: prop=C25 budget=100
//bounds: a header of 150..170 bytes with all kinds of sections, two folders and five files in which any one of its 40 numbers (thorough any two) is an arbitrary 64-bit value; at most 256 KiB and 2 KiB per byte of the file
func H_C25_counts() {
	_, n := full()
	i := nd.Choose(n)
	j := i
	if nd.Tier() > 0 {
		j = i + nd.Choose(n-i)
	}
	h, _ := full(i, j)
	frugal(archive(make([]byte, 5), h), 0)
}

//verif: prop=C25 budget=100
//bounds: an encoded header of 25..35 bytes, one or two of whose numbers are arbitrary 64-bit values, decoding to an empty archive delivered in chunks of 1 or all bytes
func H_C25_encoded() {
	h := header(nil, nil, encFiles(1, prop(kEmptyStream, []byte{0x80}), encNames(names(1))))
	chunk := nd.Choose(2)
	sevenzip.RegisterDecompressor(hdrID, func(_ []byte, _ uint64, _ []io.ReadCloser) (io.ReadCloser, error) {
		s := src(h)
		s.chunk = chunk
		return s, nil
	})
	enc := func(at ...int) ([]byte, int) {
		n := replaced(at...)
		f := &afolder{coders: []acoder{{id: hdrID, in: 1, out: 1, size: num(uint64(len(h)))}}, crc: crc(h)}
		b := cat([]byte{kEncodedHeader}, encStreams(num(0), [][]byte{num(2)}, []*afolder{f}), []byte{kEnd})
		numHook = nil
		return b, *n
	}
	_, n := enc()
	i := nd.Choose(n)
	e, _ := enc(i, i+nd.Choose(n-i))
	frugal(archive(make([]byte, 2), e), len(h))
}

//verif: prop=C25 budget=100
//bounds: headers with 8 (thorough 9) arbitrary bytes at the start of any section (pack information, folders, coder, unpack sizes, sub-streams, files, file properties), everything after them missing
func H_C25_raw() {
	pack := []byte{kHeader, kMainStreamsInfo, kPackInfo, 0, 2, kSize, 1, 2, kEnd}
	fold := cat(pack, []byte{kUnpackInfo, kFolder, 2, 0}, encFolder(&afolder{coders: []acoder{one(0, 2)}}), encFolder(&afolder{coders: []acoder{one(0, 2)}}))
	size := cat(fold, []byte{kCodersUnpackSize, 5, 3})
	sub := cat(size, []byte{kEnd, kSubStreamsInfo, kNumUnpackStream, 2, 2})
	files := cat(size, []byte{kEnd, kEnd, kFilesInfo})
	at := [][]byte{{}, {kHeader, kMainStreamsInfo, kPackInfo}, pack[:6], pack[:9], append(pack[:9:9], kUnpackInfo, kFolder), append(pack[:9:9], kUnpackInfo, kFolder, 1, 0), fold, size, sub[:len(sub)-2], sub, files, append(files[:len(files):len(files)], 2)}
	h := cat(at[nd.Choose(len(at))], nd.Bytes(nd.Pick(8, 9)))
	frugal(archive(make([]byte, 3), h), 0)
}
