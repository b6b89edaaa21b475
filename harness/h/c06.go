package h

import (
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
	"github.com/bodgit/sevenzip/internal/zzverif/ref"
)

var (
	idARM   = []byte{3, 3, 5, 1}
	idARM64 = []byte{0xa}
	idPPC   = []byte{3, 3, 2, 5}
	idSPARC = []byte{3, 3, 8, 5}
	idBCJ   = []byte{3, 3, 1, 3}
)

// filterHarness compares a filter with its reference over n arbitrary bytes,
// any source chunking and caller read size of the lists.
func filterHarness(id []byte, b []byte, reff func([]byte) []byte) {
	n := len(b)
	want := reff(b)
	s := src(append([]byte(nil), b...))
	s.chunk = []int{0, 1, 3, 5}[nd.Choose(4)]
	s.eof = nd.Choose(2) == 1
	size := []int{64, 1, 3, 4, 5, 6}[nd.Choose(6)]
	rc := mustDecoder(id, nil, uint64(n), s)
	got, err := drain(rc, size, n)
	nd.Assert(err == nil, "filter fails on a readable stream")
	eq(got, want, "filter output differs from the reference decoder")
}

// farHarness puts arbitrary bytes behind a long run of inert ones, so that
// stream positions beyond 4 KiB and many refills are involved.
func farHarness(id []byte, pad, n int, inert byte, reff func([]byte) []byte) {
	b := make([]byte, pad, pad+n)
	for i := range b {
		b[i] = inert
	}
	b = append(b, nd.Bytes(n)...)
	want := reff(b)
	rc := mustDecoder(id, nil, uint64(len(b)), src(append([]byte(nil), b...)))
	size := []int{512, 1000, 8192}[nd.Choose(3)]
	got, err := drain(rc, size, len(b))
	nd.Assert(err == nil, "filter fails on a readable stream")
	nd.Assert(len(got) == len(want), "filter output has the wrong length")
	eq(got[pad:], want[pad:], "filter output behind 4 KiB differs from the reference decoder")
	for i := 0; i < pad; i++ {
		if got[i] != inert {
			nd.Fail("filter changes bytes that hold no branch")
		}
	}
}

//verif: prop=C06 budget=60
//bounds: every stream of 0..12 bytes (thorough 0..24), source chunks 1,3,5,all, reads of 1,3,4,5,6,64 bytes
func H_C06_arm() {
	filterHarness(idARM, nd.Bytes(nd.Choose(nd.Pick(13, 25))), ref.ARM)
	nd.Cover("checked")
}

//verif: prop=C06 budget=60
//bounds: every stream of 0..12 bytes (thorough 0..24), source chunks 1,3,5,all, reads of 1,3,4,5,6,64 bytes
func H_C06_arm64() {
	filterHarness(idARM64, nd.Bytes(nd.Choose(nd.Pick(13, 25))), ref.ARM64)
	nd.Cover("checked")
}

//verif: prop=C06 budget=60
//bounds: every stream of 0..12 bytes (thorough 0..24), source chunks 1,3,5,all, reads of 1,3,4,5,6,64 bytes
func H_C06_ppc() {
	filterHarness(idPPC, nd.Bytes(nd.Choose(nd.Pick(13, 25))), ref.PPC)
	nd.Cover("checked")
}

//verif: prop=C06 budget=60
//bounds: every stream of 0..12 bytes (thorough 0..24), source chunks 1,3,5,all, reads of 1,3,4,5,6,64 bytes
func H_C06_sparc() {
	filterHarness(idSPARC, nd.Bytes(nd.Choose(nd.Pick(13, 25))), ref.SPARC)
	nd.Cover("checked")
}

//verif: prop=C06 budget=60
//bounds: 8 arbitrary bytes (thorough 12) after 4096, 8192 or 12288 inert bytes, for each of the four filters; reads of 512, 1000, 8192 bytes
func H_C06_far() {
	pad := []int{4096, 8192, 12288}[nd.Choose(nd.Pick(2, 3))]
	n := nd.Pick(8, 12)
	switch nd.Choose(4) {
	case 0:
		farHarness(idARM, pad, n, 0, ref.ARM)
	case 1:
		farHarness(idARM64, pad, n, 0, ref.ARM64)
	case 2:
		farHarness(idPPC, pad, n, 0, ref.PPC)
	case 3:
		farHarness(idSPARC, pad, n, 0, ref.SPARC)
	}
	nd.Cover("checked")
}
