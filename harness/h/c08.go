package h

import (
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
	"github.com/bodgit/sevenzip/internal/zzverif/ref"
)

//verif: prop=C08 budget=60
//bounds: distances 1..6, every stream of 0..14 bytes (thorough 0..24), source chunks 1,3,5,all, reads of 1,3,4,5,6,64 bytes
func H_C08_split() {
	dist := 1 + nd.Choose(6)
	b := nd.Bytes(nd.Choose(nd.Pick(15, 25)))
	deltaCheck(b, dist, []int{0, 1, 3, 5}[nd.Choose(4)], []int{64, 1, 3, 4, 5, 6}[nd.Choose(6)])
	nd.Cover("checked")
}

//verif: prop=C08 budget=100
//bounds: all 256 distances, streams of twice the distance plus 3 bytes with arbitrary content, whole reads and reads of 7 and 100 bytes (thorough: and 1, 255, 256, 257)
func H_C08_distance() {
	dist := 1 + nd.Choose(256)
	sizes := []int{2000, 7, 100, 1, 255, 256, 257}
	b := nd.Bytes(2*dist + 3)
	deltaCheck(b, dist, 0, sizes[nd.Choose(nd.Pick(3, 7))])
	nd.Cover("checked")
}

func deltaCheck(b []byte, dist, chunk, size int) {
	want := ref.Delta(b, dist)
	s := src(append([]byte(nil), b...))
	s.chunk = chunk
	s.eof = nd.Choose(2) == 1
	// a declared size larger than the data is a truncated source: the reader
	// still delivers what there is, then end of file
	rc := mustDecoder([]byte{3}, []byte{byte(dist - 1)}, uint64(len(b)+5*nd.Choose(2)), s)
	got, err := drain(rc, size, len(b))
	nd.Assert(err == nil, "filter fails on a readable stream")
	eq(got, want, "delta output differs from the definition")
}
