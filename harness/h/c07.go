package h

import (
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
	"github.com/bodgit/sevenzip/internal/zzverif/ref"
)

//verif: prop=C07 budget=90
//bounds: every stream of 0..16 bytes (thorough 0..22), whole reads
func H_C07_whole() {
	n := nd.Choose(nd.Pick(17, 23))
	b := nd.Bytes(n)
	want := ref.X86(b)
	rc := mustDecoder(idBCJ, nil, uint64(n), src(append([]byte(nil), b...)))
	got, err := drain(rc, 64, n)
	nd.Assert(err == nil, "filter fails on a readable stream")
	eq(got, want, "filter output differs from the reference decoder")
	nd.Cover("checked")
}

//verif: prop=C07 budget=120
//bounds: every stream of 0..10 bytes (thorough 0..13), source chunks 1,3,5,all, reads of 1,3,4,5,6,64 bytes
func H_C07_split() {
	filterHarness(idBCJ, nd.Bytes(nd.Choose(nd.Pick(11, 14))), ref.X86)
	nd.Cover("checked")
}

//verif: prop=C07 budget=60
//bounds: 8 arbitrary bytes (thorough 12) after 4096 or 8192 inert bytes; reads of 512, 1000, 8192 bytes
func H_C07_far() {
	farHarness(idBCJ, []int{4096, 8192}[nd.Choose(2)], nd.Pick(8, 12), 0x90, ref.X86)
	nd.Cover("checked")
}
